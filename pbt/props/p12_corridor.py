"""P12: aerocapture corridor limits of a lifting vehicle."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, close, require
from pbt.gen import logu, uni

RULE = ("one case = body, vehicle, entry speed and geometry, bank angle, target apoapsis, search interval and tolerance; non-trivial = "
		"the interval really contains the limit, or the single flight lies within 2 deg of the limit between both outcomes")
ASSUMPTIONS = ["a single flight is judged only when the reference flights 0.02 deg shallower and steeper have the same outcome",
			"a limit must lie within 0.02 deg (plus the requested tolerance) of the reference limit"]
D = np.pi / 180
M = 0.02


class Setup:
	"""independent outcome of a flight: -1 overshoot, +1 undershoot"""

	def __init__(self, pid, p, mass, A, CD, CL, T, target_km, inertial, s):
		self.pid, self.p, self.T, self.target, self.inertial, self.s = pid, p, T, target_km, inertial, s
		self.mass, self.A, self.CD, self.CL = mass, A, CD, CL
		self.rho = gen.rho_fn(pid, p)
		self.P = ref.pconst(p)
		self.cache = {}

	def state(self, gamma):
		x = gen.start(self.p, self.s)
		x[5] = gamma * D
		return x

	def end(self, gamma, delta):
		p = self.p
		stop = lambda y: min(p.h_skip + 10.0 - (y[0] - p.RP), y[0] - p.RP, y[5] + 85 * D)
		sol = ref.fly(self.state(gamma), self.T, self.P, self.rho, self.mass, self.A, self.CD, self.CL, delta * D,
					rtol=1e-7, stop=stop)
		y = sol.y_events[0][0] if len(sol.t_events[0]) else sol.y[:, -1]
		# sunk below the trap altitude and not out of the atmosphere again
		trapped = min(np.min(sol.y[0]), y[0]) - p.RP < p.h_trap and y[0] - p.RP < p.h_skip
		return y, trapped

	def outcome(self, gamma, delta):
		k = (gamma, delta)
		if k not in self.cache:
			p = self.p
			y, trapped = self.end(gamma, delta)
			R, V = ref.cart(*y[:6])
			if self.inertial:
				R, V = ref.inertial(R, V, p.OMEGA)
			q = ref.orbit(R, V, p.GM)
			out = -1 if (q["E"] >= 0 or (q["ra"] - p.RP) / 1e3 >= self.target) else 1
			if trapped or y[0] - p.RP < p.h_low:
				out = 1
			self.cache[k] = out
		return self.cache[k]


def build(c, lifting=True):
	pid = c["s"]["planet"]
	p = gen.make_planet(pid)
	v = dict(c["veh"])
	o = gen.make_vehicle(p, v)
	s = dict(c["s"])
	x = gen.start(p, s)
	o.setInitialState((x[0] - p.RP) / 1e3, s["theta"], s["phi"], x[3] / 1e3, s["psi"], s["gamma"], 0.0, 0.0)
	o.setSolverParams(1e-6)
	CD = v["mass"] / (v["beta"] * v["A"])
	target = c["target"] * p.RP / 1e3 + p.h_skip / 1e3
	w = Setup(pid, p, v["mass"], v["A"], CD, CD * v["LD"], c["T"], target, c["variant"] == 2, s)
	return p, o, w, target


def flag(c):
	p, o, w, target = build(c)
	if c["near"]:
		# move towards the limit: a coarse reference bisection, then an offset
		lo, hi = -30.0, -1.0
		if w.outcome(lo, c["delta"]) == w.outcome(hi, c["delta"]):
			return False
		for _ in range(8):
			mid = 0.5 * (lo + hi)
			lo, hi = (mid, hi) if w.outcome(mid, c["delta"]) == w.outcome(lo, c["delta"]) else (lo, mid)
		ga = 0.5 * (lo + hi) + c["off"]
	else:
		ga = c["s"]["gamma"]
	ga = min(-0.5, max(-40.0, ga))
	o.gamma0_deg = ga
	f = o.hitsTargetApoapsis if c["variant"] == 1 else o.hitsTargetApoapsis2
	ans = f(c["T"], c["dt"], c["delta"], target)
	require(ans in (-1, 1), "overshoot/undershoot flag is %r" % ans)
	a, b, d = (w.outcome(ga + k * M, c["delta"]) for k in (-1, 0, 1))
	if not a == b == d:
		return False
	require(ans == b, "entry at %.6f deg (bank %g deg, target apoapsis %.0f km): reported %s, reference says %s" % (
		ga, c["delta"], target, "undershoot" if ans == 1 else "overshoot", "undershoot" if b == 1 else "overshoot"))
	return bool(c["near"])


def limits(c):
	p, o, w, target = build(c)
	two = c["variant"] == 2
	found = []
	ivs = [(c["lo"], c["hi"], c["tol"]), tuple(c["us"]) if c["us"] else (c["lo"], c["hi"], c["tol"])]
	g0 = o.gamma0_deg
	keep = (o.LD, o.CD, o.CL, o.beta, o.mass, o.A, o.h0_km, o.v0_kms, o.psi0_deg)
	for over in (True, False):
		lo, hi, tol = ivs[0] if over else ivs[1]
		delta = 180.0 if over else 0.0
		f = {(True, False): o.findOverShootLimit, (False, False): o.findUnderShootLimit,
			(True, True): o.findOverShootLimit2, (False, True): o.findUnderShootLimit2}[(over, two)]
		what = "overshoot" if over else "undershoot"
		lim, ok = f(c["T"], c["dt"], lo, hi, tol, target)
		require(o.gamma0_deg == g0, "searching the %s limit changed the entry angle from %g to %g" % (what, g0, o.gamma0_deg))
		require((o.LD, o.CD, o.CL, o.beta, o.mass, o.A, o.h0_km, o.v0_kms, o.psi0_deg) == keep, "searching the limit changed the vehicle")
		a, b = w.outcome(lo, delta), w.outcome(hi, delta)
		sure = all(w.outcome(e + k * M, delta) == w.outcome(e, delta) for e in (lo, hi) for k in (-1, 1))
		found.append((lim, ok))
		if not sure:
			continue
		if a == b:
			require(ok == 0 and lim == 0, "no %s limit between %g and %g deg, but the search reports %r, flag %r" % (what, lo, hi, lim, ok))
			continue
		require(ok == 1, "a %s limit lies between %g and %g deg, but the search reports flag %r" % (what, lo, hi, ok))
		require(min(lo, hi) - 1e-9 <= lim <= max(lo, hi) + 1e-9, "%s limit %g outside the search interval" % (what, lim))
		m = M + tol
		a2, b2 = w.outcome(lim - m, delta), w.outcome(lim + m, delta)
		require((a2, b2) == (1, -1), "%s limit reported at %.6f deg, but flights %.3f deg steeper/shallower are %s/%s" % (
			what, lim, m, a2, b2))
		if c["narrow"]:
			# an interval narrower than the tolerance that still brackets the limit
			l2, k2 = f(c["T"], c["dt"], lim - m, lim + m, 4 * m, target)
			require(k2 == 1 and abs(l2 - lim) <= m + 1e-9, "search interval narrower than the tolerance: got %r, %r" % (l2, k2))
	if c["tcw"]:
		g = o.computeTCW2 if two else o.computeTCW
		got = g(c["T"], c["dt"], ivs[0][0], ivs[0][1], ivs[1][0], ivs[1][1], ivs[0][2], ivs[1][2], target)
		close(got, found[0][0] - found[1][0], "corridor width (overshoot minus undershoot limit)", atol=1e-9)
		require(o.gamma0_deg == g0, "computing the corridor width changed the entry angle")
	if found[0][1] == 1 == found[1][1]:
		require(found[0][0] - found[1][0] > -2 * M - ivs[0][2] - ivs[1][2], "undershoot limit shallower than the overshoot limit")
	return found[0][1] == 1 and found[1][1] == 1


def width(c):
	"""the corridor width is the difference of the two limits, each searched in its own interval"""
	p, o, w, target = build(c)
	two = c["variant"] == 2
	(a, b, t1), (d, e, t2) = c["os"], c["us"]
	over = (o.findOverShootLimit2 if two else o.findOverShootLimit)(c["T"], c["dt"], a, b, t1, target)
	under = (o.findUnderShootLimit2 if two else o.findUnderShootLimit)(c["T"], c["dt"], d, e, t2, target)
	got = (o.computeTCW2 if two else o.computeTCW)(c["T"], c["dt"], a, b, d, e, t1, t2, target)
	close(got, over[0] - under[0], "corridor width (overshoot minus undershoot limit)", atol=1e-9)
	return over[1] == 1 and under[1] == 1


@st.composite
def base(draw):
	s = draw(gen.entry_state(vmin=1.0, vmax=1.3, gmin=-25.0, gmax=-2.0))
	s["h0f"] = draw(uni(0.85, 0.999))
	s["phi"] = draw(uni(-50, 50))
	v = draw(gen.entry_vehicle())
	return dict(s=s, veh=v, T=draw(st.sampled_from([900.0, 1500.0])), dt=draw(st.sampled_from([1.0, 2.0, 5.0])),
				target=draw(logu(0.05, 30.0)), variant=draw(st.sampled_from([1, 2])))


@st.composite
def flag_case(draw):
	c = draw(base())
	c["near"] = draw(st.sampled_from([True, True, False]))
	c["off"] = draw(st.one_of(uni(-0.3, 0.3), uni(-2, 2)))
	c["delta"] = draw(st.sampled_from([0.0, 180.0, 90.0, 60.0]))
	return c


@st.composite
def lim_case(draw):
	c = draw(base())
	c["veh"]["LD"] = draw(uni(0.05, 0.5))
	c["lo"] = draw(uni(-22.0, -12.0))
	c["hi"] = draw(st.one_of(uni(-3.0, -1.5), uni(-3.0, -1.5), uni(-11.0, -3.0)))
	c["tol"] = draw(st.sampled_from([0.05, 0.02, 0.01, 1e-3]))
	c["tcw"] = draw(st.integers(0, 2)) == 0
	# half of the cases search the two limits in different intervals, to different tolerances
	c["us"] = draw(st.one_of(st.none(), st.tuples(uni(-26.0, -10.0), st.one_of(uni(-3.0, -1.5), uni(-9.0, -3.0)), st.sampled_from([0.05, 0.02, 0.01]))))
	if c["us"]:
		c["us"] = list(c["us"])
		c["lo"] = draw(st.one_of(uni(-22.0, -12.0), uni(-9.0, -5.0)))
	c["narrow"] = draw(st.integers(0, 3)) == 0
	return c


@st.composite
def width_case(draw):
	c = draw(base())
	c["T"], c["dt"] = 600.0, 5.0
	c["veh"]["LD"] = draw(uni(0.05, 0.5))
	iv = st.tuples(st.one_of(uni(-25, -12), uni(-10, -5)), st.one_of(uni(-5, -1.5), uni(-5, -1.5), uni(-12, -5)), st.sampled_from([0.3, 0.1]))
	c["os"], c["us"] = list(draw(iv)), list(draw(iv))
	return c


SUBS = [
	Sub("width", width_case(), width, 80, 1500, shards=8),
	Sub("flag", flag_case(), flag, 100, 4000, shards=8),
	Sub("limits", lim_case(), limits, 40, 1500, shards=8),
]
