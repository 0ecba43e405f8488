"""P07: trajectory solvers return the motion the dynamics prescribe, on the requested time grid."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, close, fail, finite, require
from pbt.gen import logu, uni

RULE = ("one case = body, vehicle, bank angle, entry state, solver and solver tolerance; flight time chosen so that the reference "
		"flight stays between the trap altitude and 1.5 skip altitudes; non-trivial = reference speed changes by more than 1 % "
		"(atmospheric cases) or more than 10 deg are travelled (vacuum cases)")
ASSUMPTIONS = ["agreement is required to 5e-5 (solver tolerance 1e-6: 6e-4) of the scaled state plus twice what an initial error of five solver tolerances grows to, plus the gap between the regularised (epsilon=0.01) and the exact heading equation",
			"flights steeper than 80 deg are outside the domain"]

NAMES = ("radius", "longitude", "latitude", "speed", "heading", "flight-path angle", "downrange")


def run(o, p, which, x0, T, dt, delta):
	y0 = p.nonDimState(*x0)
	f = o.solveTrajectory if which == 1 else o.solveTrajectory2
	out = f(*y0, T, dt, delta)
	require(len(out) == 8, "solver returned %d histories" % len(out))
	n = len(out[0])
	for a, nm in zip(out[1:], NAMES):
		require(np.shape(a) == (n,), "%s history has shape %s for %d times" % (nm, np.shape(a), n))
	t = finite(out[0], "time") * p.tau
	Y = np.array([finite(a, nm) for a, nm in zip(out[1:], NAMES)])
	return t, Y * np.array([p.RP, 1, 1, p.Vref, 1, 1, p.RP])[:, None]


def grid(t, T, dt, full=True):
	require(abs(t[0]) < 1e-9, "time history starts at %r" % t[0])
	close(np.diff(t), np.full(len(t) - 1, dt), "time step", rtol=1e-6)
	if full:
		require(T - 1e-6 * dt <= t[-1] <= T + dt * 1.000001, "time history ends at %r s, requested %r s in steps of %r s" % (t[-1], T, dt))


def vehicle(c, p):
	o = gen.make_vehicle(p, c["veh"])
	o.setSolverParams(c["tol"])
	return o


def atmospheric(c):
	pid = c["s"]["planet"]
	p = gen.make_planet(pid)
	x0 = gen.start(p, c["s"])
	V = c["veh"]
	rho = gen.rho_fn(pid, p)
	CD = V["mass"] / (V["beta"] * V["A"])
	CL = CD * V["LD"]
	P = ref.pconst(p)
	delta = c["delta"] * np.pi / 180
	vmin = 0.15 * x0[3]

	def stop(y):
		return min((y[0] - p.RP - p.h_trap) / 1e3, (1.5 * p.h_skip - (y[0] - p.RP)) / 1e3, (y[3] - vmin) / 10, 80 - abs(y[5]) * 57.3, 86 - abs(y[2]) * 57.3)
	Tm = c["T"]
	R = ref.fly(x0, Tm, P, rho, V["mass"], V["A"], CD, CL, delta, rtol=1e-10, stop=stop)
	T = R.t[-1] * (0.98 if R.status == 1 else 1.0)
	dt = c["dt"]
	T = np.floor(T / dt) * dt
	if T < 3 * dt:
		return False
	o = vehicle(c, p)
	T = T - dt * (1 + c["part"])                      # not a multiple of the step
	t, Y = run(o, p, c["solver"], x0, T, dt, delta)
	grid(t, T, dt)
	a = ref.fly(x0, t[-1], P, rho, V["mass"], V["A"], CD, CL, delta, rtol=1e-10, t_eval=t).y
	b = ref.fly(x0, t[-1], P, rho, V["mass"], V["A"], CD, CL, delta, rtol=1e-10, eps=0.0, t_eval=t).y
	sc = np.array([p.RP, 1, 1, x0[3], 1, 1, p.RP])[:, None]
	base = 5e-5 if c["tol"] <= 1e-8 else 6e-4
	gap = np.maximum.accumulate(np.max(np.abs(a - b) / sc, axis=0))
	err = np.abs(Y - a) / sc
	# what an error of a few solver tolerances at the start grows to
	x1 = x0 + 5 * c["tol"] * np.array([p.RP, 0, 0, x0[3], 0, 1, 0])
	d = ref.fly(x1, t[-1], P, rho, V["mass"], V["A"], CD, CL, delta, rtol=1e-10, t_eval=t).y
	m = min(d.shape[1], a.shape[1])
	grow = np.full(len(t), np.inf)
	grow[:m] = np.maximum.accumulate(np.max(np.abs(a - d)[:, :m] / sc, axis=0)) if d.shape == a.shape else np.max(np.abs(a[:, :m] - d[:, :m]) / sc, axis=0)
	lim = base + 1.5 * gap + 2 * grow
	if np.any(err > lim[None, :]):
		k, j = np.argwhere(err > lim[None, :])[0]
		fail("%s at t=%.6g s is %.9g, the reference motion gives %.9g (scaled error %.3g, allowed %.3g)" % (
			NAMES[k], t[j], Y[k, j], a[k, j], err[k, j], lim[j]))
	return abs(Y[3, -1] - x0[3]) > 0.01 * x0[3]


@st.composite
def atm_case(draw):
	return dict(s=draw(gen.entry_state()), veh=draw(gen.entry_vehicle()), delta=draw(st.one_of(uni(-180, 180), uni(-400, 400), st.sampled_from([0.0, 180.0, 90.0]))),
				solver=draw(st.sampled_from([1, 2])), tol=draw(st.sampled_from([1e-6, 1e-8, 1e-9, 1e-10])),
				T=draw(uni(50, 900)), dt=draw(st.sampled_from([0.5, 1.0, 2.0, 0.1, 0.73])), part=draw(st.one_of(st.just(0.0), uni(0.01, 0.99))))


def vacuum(c):
	"""no air: two-body motion (spherical, non-rotating), or conservation laws over an oblate rotating planet's equator"""
	pid = c["planet"]
	p = gen.make_planet(pid)
	p.h_thres = 0.0
	V = c["veh"]
	rot = c["rot"]
	if not rot:
		p.OMEGA = 0.0
		p.OMEGAbar = 0.0
		p.J2 = p.J3 = 0.0
	else:
		p.J3 = 0.0
	o = vehicle(c, p)
	D = np.pi / 180
	r0 = p.RP * c["r"]
	v0 = c["vf"] * np.sqrt(2 * p.GM / r0)
	phi, psi = (0.0, c["dir"] * D) if rot else (c["phi"] * D, c["psi"] * D)
	x0 = np.array([r0, c["theta"] * D, phi, v0, psi, c["gamma"] * D, c["drange"] * 1e3])
	T = c["Tf"] * np.sqrt(r0 ** 3 / p.GM)
	# stay off the ground, off vertical flight and off the poles
	stop = lambda y: min((y[0] / p.RP - 1.001) * 100, 1.25 - abs(y[5]), 1.42 - abs(y[2]))
	if stop(x0) < 0:
		return False
	W = ref.fly(x0, T, ref.pconst(p), lambda h: 0.0, 1.0, 1.0, 1.0, 0.0, 0.0, rtol=1e-9, stop=stop)
	T = 0.97 * W.t[-1]
	dt = T / c["n"]
	t, Y = run(o, p, c["solver"], x0, T, dt, c["delta"] * D)
	grid(t, T, dt, full=False)
	n = len(t)
	R, U = ref.cart(*Y[:6])
	tol = 3e-4 if c["tol"] <= 1e-8 else 3e-3
	if rot:
		th = Y[1] + p.OMEGA * t
		R, U = ref.cart(Y[0], th, *Y[2:6])
		om = np.array([0, 0, p.OMEGA])
		U = U + np.cross(om, R.T).T
	h = np.cross(R.T, U.T)
	rn = np.linalg.norm(R, axis=0)
	E = 0.5 * np.sum(U * U, axis=0) - p.GM / rn
	if rot:
		s2 = (R[2] / rn) ** 2
		E = E + p.GM / rn * p.J2 * (p.RP / rn) ** 2 * (3 * s2 - 1) / 2
		close(Y[2], 0 * t, "latitude of an equatorial flight", atol=tol)
	close(E, np.full(n, E[0]), "specific energy along a flight without air", atol=tol * p.GM / r0)
	h0 = np.linalg.norm(h[0])
	close(h, np.tile(h[0], (n, 1)), "angular momentum along a flight without air", atol=tol * max(h0, 0.05 * r0 * v0))
	if not rot:
		e = np.cross(U.T, h) / p.GM - (R / rn).T
		close(e, np.tile(e[0], (n, 1)), "eccentricity vector along a flight without air", atol=2 * tol)
		# timing: time since periapsis from the eccentric anomaly
		el = ref.orbit(R[:, 0], U[:, 0], p.GM)
		a, ec = el["a"], el["e"]
		if abs(ec - 1) > 0.05 and ec > 0.05:
			sig = np.sum(R * U, axis=0) / np.sqrt(p.GM * abs(a))
			if a > 0:
				Ea = np.unwrap(np.arctan2(sig, (1 - rn / a)))
				M = Ea - sig
			else:
				F = np.arcsinh(sig / ec)
				M = sig - F
			w = np.sqrt(p.GM / abs(a) ** 3) * t
			close(M - M[0], w, "elapsed mean anomaly", atol=10 * tol * max(1.0, w[-1]))
	# downrange: distance flown over the ground at the flown radius
	dr = np.concatenate(([0], np.cumsum(0.5 * (Y[3] * np.cos(Y[5]))[1:] * np.diff(t) + 0.5 * (Y[3] * np.cos(Y[5]))[:-1] * np.diff(t)))) + x0[6]
	close(Y[6], dr, "downrange", rtol=1e-3, atol=0.02 * v0 * dt + tol * p.RP)
	return bool(np.linalg.norm(np.cross(R[:, 0], R[:, -1])) / rn[0] / rn[-1] > 0.17 or n > 30)


@st.composite
def vac_case(draw):
	return dict(planet=draw(gen.planet_id()), veh=draw(gen.entry_vehicle()), rot=draw(st.booleans()), r=draw(uni(1.01, 3.0)),
				vf=draw(uni(0.5, 1.4)), theta=draw(uni(-180, 180)), phi=draw(uni(-75, 75)), psi=draw(uni(-180, 360)),
				dir=draw(st.sampled_from([0.0, 180.0])), gamma=draw(uni(-40, 50)), drange=draw(uni(0, 5000)), delta=draw(uni(-400, 400)),
				Tf=draw(uni(0.2, 4.0)), n=draw(st.integers(60, 200)), solver=draw(st.sampled_from([1, 2])),
				tol=draw(st.sampled_from([1e-6, 1e-8, 1e-10])))


def symmetric(c):
	"""moving the entry point in longitude moves the whole flight; mirroring it north-south (with J3=0) mirrors it"""
	pid = c["s"]["planet"]
	p = gen.make_planet(pid)
	p.J3 = 0.0
	x0 = gen.start(p, c["s"])
	V = c["veh"]
	P = ref.pconst(p)
	delta = c["delta"] * np.pi / 180
	CD = V["mass"] / (V["beta"] * V["A"])
	stop = lambda y: min((y[0] - p.RP - p.h_trap) / 1e3, (y[3] - 0.2 * x0[3]) / 10, 80 - abs(y[5]) * 57.3, 86 - abs(y[2]) * 57.3)
	R = ref.fly(x0, c["T"], P, gen.rho_fn(pid, p), V["mass"], V["A"], CD, CD * V["LD"], delta, rtol=1e-8, stop=stop)
	T = np.floor(R.t[-1] * 0.95)
	if T < 5:
		return False
	o = vehicle(c, p)
	t1, A = run(o, p, c["solver"], x0, T, 1.0, delta)
	x1 = x0.copy()
	x1[1] += c["shift"]
	t2, B = run(o, p, c["solver"], x1, T, 1.0, delta)
	n = min(len(t1), len(t2), int(T))
	sc = np.array([p.RP, 1, 1, x0[3], 1, 1, p.RP])[:, None]
	# start points with different absolute longitudes change the step control of the solver, nothing else
	tol = 1e-4
	B = B.copy()
	B[1] -= c["shift"]
	close((A / sc)[:, :n], (B / sc)[:, :n], "flight after a change of start longitude", atol=tol)
	x2 = x0.copy()
	x2[2] *= -1
	x2[4] *= -1
	t3, C = run(o, p, c["solver"], x2, T, 1.0, -delta)
	C = C.copy()
	C[2] *= -1
	C[4] *= -1
	close((A / sc)[:, :n], (C / sc)[:, :n], "flight mirrored north-south", atol=tol)
	return bool(A[3, n - 1] < 0.99 * x0[3])


@st.composite
def sym_case(draw):
	return dict(s=draw(gen.entry_state()), veh=draw(gen.entry_vehicle()), delta=draw(uni(-180, 180)), solver=draw(st.sampled_from([1, 2])),
				tol=draw(st.sampled_from([1e-8, 1e-10])), T=draw(uni(50, 500)), shift=draw(uni(-3.0, 3.0)))


def steep(c):
	"""flights carried on into vertical descent or impact: every returned sample is part of one flight"""
	pid = c["s"]["planet"]
	p = gen.make_planet(pid)
	x0 = gen.start(p, c["s"])
	o = vehicle(c, p)
	delta = c["delta"] * np.pi / 180
	T, dt = c["T"], c["dt"]
	t, Y = run(o, p, c["solver"], x0, T, dt, delta)
	junk = [np.random.default_rng(k).normal(size=len(t) + j) * 1e6 for k in range(4) for j in range(8)]
	del junk
	t2, Y2 = run(o, p, c["solver"], x0, T, dt, delta)
	require(np.array_equal(t, t2) and np.array_equal(Y, Y2), "the same flight computed twice gives different histories")
	n = len(t)
	close(Y[:, 0], x0, "first sample of the flight", rtol=1e-9, atol=1e-9)
	if n > 1:
		grid(t, T, dt, full=False)
	above = int(np.argmax(Y[0] < p.RP)) if np.any(Y[0] < p.RP) else n
	w = Y[3] * np.sin(Y[5])
	lo, hi = np.minimum(w[:-1], w[1:]), np.maximum(w[:-1], w[1:])
	m = 0.6 * (hi - lo) + 2e-3 * x0[3] + 15 * c["tol"] * p.RP / dt        # the radius is integrated to the solver's tolerance
	rate = np.diff(Y[0]) / dt
	bad = (rate < lo - m) | (rate > hi + m)
	bad[above:] = False
	if np.any(bad):
		j = int(np.argmax(bad))
		fail("between t=%g and %g s the radius changes at %.6g m/s but the flight climbs at %.6g..%.6g m/s" % (t[j], t[j + 1], rate[j], lo[j], hi[j]))
	if above == n and t[-1] < T - dt:
		require(Y[5, -1] < -60 * np.pi / 180, "the flight stops at t=%g of %g s at path angle %.3g deg, above ground" % (t[-1], T, Y[5, -1] * 57.3))
	return bool(np.min(Y[5]) < -1.2 or above < n)


@st.composite
def steep_case(draw):
	c = dict(s=draw(gen.entry_state(vmin=0.3, vmax=1.2, gmin=-60, gmax=-8)), veh=draw(gen.entry_vehicle()), delta=draw(st.sampled_from([0.0, 180.0, 90.0, 45.0])),
			solver=draw(st.sampled_from([1, 1, 2])), tol=draw(st.sampled_from([1e-6, 1e-8])), T=draw(st.sampled_from([200.0, 500.0, 1000.0])),
			dt=draw(st.sampled_from([0.5, 1.0, 2.0])))
	c["veh"]["beta"] = draw(logu(10, 200))
	if draw(st.booleans()):
		c["veh"]["LD"] = draw(uni(0.03, 0.6))
		c["delta"] = draw(st.sampled_from([180.0, 150.0]))
	return c


SUBS = [
	Sub("steep", steep_case(), steep, 80, 3000, shards=4),
	Sub("atmospheric", atm_case(), atmospheric, 160, 6000, shards=6),
	Sub("vacuum", vac_case(), vacuum, 240, 10000, shards=2),
	Sub("symmetric", sym_case(), symmetric, 80, 3000, shards=2),
]
