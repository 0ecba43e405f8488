"""P14: building blocks of the guidance: bank controller, measured density model, apoapsis predictors."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, close, finite, require
from pbt.gen import logu, uni
from pbt.props.p10_propagate import same, snap

RULE = ("one case = a sequence of bank commands with a roll-rate limit, or a set of density measurements of a descent (or a descent and the start of the climb) and a query list, or a "
		"flight state with a density model to predict the exit orbit from; non-trivial = the rate limit binds at least once and not always, "
		"or queries on both sides of the lowest measurement, or a predicted flight that loses more than 1 % of its speed")
ASSUMPTIONS = ["predicted apoapsides are compared to 2 % plus 20 km of apoapsis radius, and only while the reference prediction is not more sensitive than that to 1e-4 of speed"]
D = np.pi / 180


def bank(c):
	from AMAT.planet import Planet
	p = Planet(c["planet"])
	o = gen.make_vehicle(p, dict(mass=100.0, beta=50.0, LD=0.2, A=2.0, alpha=0.0, RN=1.0))
	o.setMaxRollRate(c["rate"])
	reach = c["rate"] * c["step"]
	b = c["start"]
	bound = free = 0
	for cmd in c["cmds"]:
		a, a2 = o.psuedoController(cmd, b, c["step"])
		finite(a, "bank angle")
		require(a == a2, "the controller reports two different bank angles: %r and %r" % (a, a2))
		want = cmd if abs(cmd - b) <= reach else b + np.sign(cmd - b) * reach
		close(a, want, "bank angle after commanding %g deg from %g deg at up to %g deg per cycle" % (cmd, b, reach), rtol=1e-9, atol=1e-9)
		bound += abs(cmd - b) > reach
		free += 1e-6 < abs(cmd - b) <= reach
		b = float(a)
	# a command held long enough is reached and kept
	cmd = c["cmds"][-1]
	n = int(np.ceil(abs(cmd - b) / reach)) + 1 if reach > 0 else 0
	if n <= 2000:
		for _ in range(n):
			b = float(o.psuedoController(cmd, b, c["step"])[0])
		close(b, cmd, "bank angle after holding a command", atol=1e-6)
	return bound > 0 and free > 0


@st.composite
def bank_case(draw):
	ang = st.one_of(uni(0, 180), uni(-180, 180), st.sampled_from([0.0, 90.0, 180.0]))
	return dict(planet=draw(gen.planet_id()), rate=draw(st.one_of(uni(1, 60), logu(0.1, 200))), step=draw(st.one_of(uni(0.1, 5), st.just(1.0))),
				start=draw(ang), cmds=draw(st.lists(ang, min_size=2, max_size=12)))


def measured_reference(hk, dens, low_km, n):
	"""piecewise-linear model through the measurements, an exponential tail from 1 km under the lowest one, held constant outside"""
	hk, dens = np.asarray(hk, float), np.asarray(dens, float)
	o = np.argsort(hk, kind="stable")
	H, Dn = hk[o] * 1e3, dens[o]
	lo = H[0]
	top, bot = min(dens), max(dens)

	def upper(x):
		x = np.asarray(x, float)
		y = np.interp(x, H, Dn)
		return np.where(x < H[0], bot, np.where(x > H[-1], top, y))
	return H, Dn, lo, upper


def make_measured(p, hk, dens, low_km, n):
	"""the whole model, from the documented construction; None where it is not defined"""
	H, Dn, lo, upper = measured_reference(hk, dens, low_km, n)
	# density scale height: column density above the lowest measurement over the density drop up to the skip altitude (1 km grid)
	g = np.linspace(0, p.h_skip, int(p.h_skip / 1000.0))
	g = g[int(lo / 1000.0):]
	d = upper(g)
	sh = np.sum(0.5 * (d[1:] + d[:-1]) * np.diff(g)) / float(upper(lo) - upper(p.h_skip))
	xs = np.linspace(lo - 1000.0, low_km * 1e3, n)
	ys = float(upper(lo)) * np.exp((lo - xs) / sh)
	X = np.concatenate((H, xs))
	Y = np.concatenate((Dn, ys))
	o = np.argsort(X, kind="stable")
	X, Y = X[o], Y[o]

	def f(x):
		x = np.asarray(x, float)
		y = np.interp(x, X, Y)
		return np.where(x < X[0], Y.max(), np.where(x > X[-1], Y.min(), y))
	return f, lo, sh


def measured(c):
	p = gen.make_planet(c["planet"])
	o = gen.make_vehicle(p, dict(mass=100.0, beta=50.0, LD=0.2, A=2.0, alpha=0.0, RN=1.0))
	hs = np.array(c["steps"])
	top = p.h_skip / 1e3 * c["top"]
	hk = top - np.cumsum(hs) * (top * 0.6) / np.sum(hs)
	H0 = c["H"] * p.h_skip * 0.1
	up = np.array(c["climb"])
	if up.size:
		# the vehicle has passed its lowest point and is on the way up
		hk = np.append(hk, hk[-1] + np.cumsum(up) * 0.5 * (top * 0.6) / np.sum(hs))
	bottom = float(hk.min())
	dens = c["rho"] * np.exp(-(hk - bottom) * 1e3 / H0) * np.array(c["noise"][:len(hk)])
	low = bottom * c["low"]
	if low * 1e3 > bottom * 1e3 - 1500:
		return False
	deepest = dens[int(np.argmin(hk))]
	n = c["n"]
	f, lo = o.createDensityMeasuredFunction(np.append(0.0, hk), np.append(0.0, dens), low, n)
	close(lo, hk.min() * 1e3, "lowest altitude with a measurement (m)")
	close(f(hk * 1e3), dens, "measured density at the measurements", rtol=1e-9)
	want, _, sh = make_measured(p, hk, dens, low, n)
	q = np.array(c["q"]) * top * 1e3 * 1.2
	close(f(q), want(q), "measured density model", rtol=1e-6)
	# below the lowest measurement: exponential growth with the local scale height
	xs = np.linspace(lo - 1000.0, low * 1e3, n)
	close(f(xs), deepest * np.exp((lo - xs) / sh), "extrapolated density", rtol=1e-6)
	close(f(-1e6), max(np.max(dens), deepest * np.exp((lo - low * 1e3) / sh)), "density below the extrapolation", rtol=1e-6)
	close(f(1e9), np.min(dens), "density above the measurements", rtol=1e-9)
	return bool(np.any(q < lo) and np.any((q > lo) & (q < top * 1e3)))


@st.composite
def mes_case(draw):
	m = draw(st.integers(4, 25))
	k = draw(st.one_of(st.just(0), st.integers(1, 4)))
	return dict(planet=draw(gen.planet_id()), steps=draw(st.lists(uni(0.3, 1.0), min_size=m, max_size=m)), climb=draw(st.lists(uni(0.3, 1.0), min_size=k, max_size=k)), top=draw(uni(0.5, 1.0)),
				H=draw(uni(0.3, 1.5)), rho=draw(logu(1e-7, 1e-2)), noise=draw(st.lists(uni(0.95, 1.05), min_size=m + k, max_size=m + k)),
				low=draw(uni(0.2, 0.95)), n=draw(st.integers(2, 120)), q=draw(st.lists(uni(-0.05, 1.0), min_size=4, max_size=20)))


def predict(c):
	pid = c["s"]["planet"]
	p = gen.make_planet(pid)
	v = c["veh"]
	o = gen.make_vehicle(p, v)
	x0 = gen.start(p, c["s"])
	s = c["s"]
	o.setInitialState(p.h_skip / 1e3, 1.0, 2.0, 10.0, 3.0, -4.0, 0.0, 0.0)
	o.setSolverParams(1e-7)
	o.setDragModulationVehicleParams(c["beta1"], c["ratio"])
	base = gen.rho_fn(pid, p)
	k = c["k"]
	dens = lambda h: k * p.density_int(h)
	f = {("lift", 1): o.predictApoapsisAltitudeKm_withLiftUp, ("lift", 2): o.predictApoapsisAltitudeKm_withLiftUp2,
		("drag", 1): o.predictApoapsisAltitudeKm_afterJettision, ("drag", 2): o.predictApoapsisAltitudeKm_afterJettision2}[(c["kind"], c["variant"])]
	sn = snap(o)
	twin = o.dummyVehicle(dens)
	require(all(getattr(twin, z) == getattr(o, z) for z in ("mass", "beta", "LD", "A", "RN", "CD", "CL", "beta1", "betaRatio", "tol")) and twin.planetObj.GM == p.GM,
		"the dummy vehicle is not a copy of the vehicle")
	hq = 0.5 * p.h_skip
	close([twin.planetObj.density_int(hq), p.density_int(hq)], [dens(hq), dens(hq) / k], "densities of the dummy vehicle's planet and of the vehicle's own", rtol=1e-12)
	same(o, sn, "making a dummy vehicle")
	got = f((x0[0] - p.RP) / 1e3, s["theta"], s["phi"], x0[3] / 1e3, s["gamma"], s["psi"], 0.0, 0.0, c["T"], c["dt"], c["delta"], dens)
	same(o, sn, "predicting the exit apoapsis")
	finite(got, "predicted apoapsis")
	CD = v["mass"] / (v["beta"] * v["A"])
	CL = CD * v["LD"]
	if c["kind"] == "drag":
		CD = v["mass"] / (c["beta1"] * c["ratio"] * v["A"])
	rho = lambda h: k * base(h) if 0 <= h else base(h)

	def apo(scale):
		x = x0.copy()
		x[3] *= scale
		stop = lambda y: min(p.h_skip - (y[0] - p.RP), y[0] - p.RP - p.h_trap, y[5] + 80 * D)
		sol = ref.fly(x, c["T"], ref.pconst(p), rho, v["mass"], v["A"], CD, CL, c["delta"] * D, rtol=1e-8, stop=stop)
		y = sol.y[:, -1]
		if sol.status == 1:
			y = sol.y_events[0][0]
		if y[0] - p.RP < p.h_trap + 500.0 or y[5] < -75 * D:
			return None, y
		q = ref.orbit(*ref.inertial(*ref.cart(*y[:6]), p.OMEGA), p.GM)
		return (q["ra"] if q["E"] < 0 else np.inf), y
	a, y = apo(1.0)
	lo, hi = apo(1 - 1e-4)[0], apo(1 + 1e-4)[0]
	if a is None or lo is None or hi is None:
		return False
	fast = abs(y[3] / x0[3] - 1) > 0.01
	if np.isinf(a):
		if np.isinf(lo):
			require(got < 0, "the predicted flight leaves the planet, but apoapsis altitude %g km is predicted" % got)
			return fast
		return False
	if np.isinf(hi) or abs(hi - lo) > 0.5 * a:
		return False
	# the reported state is the last grid point before the exit; drag over that last bit is inside the tolerance
	tol = 0.02 * a + 2e4 + abs(hi - lo)
	require(abs(got * 1e3 + p.RP - a) <= tol, "predicted apoapsis altitude %.6g km, reference %.6g km" % (got, (a - p.RP) / 1e3))
	return fast


@st.composite
def pred_case(draw):
	s = draw(gen.entry_state(vmin=0.8, vmax=1.15, gmin=-5.0, gmax=6.0))
	s["h0f"] = draw(uni(0.28, 0.7))
	s["phi"] = draw(uni(-50, 50))
	kind = draw(st.sampled_from(["lift", "drag"]))
	v = draw(gen.entry_vehicle())
	if kind == "drag":
		v["LD"] = 0.0
	return dict(s=s, veh=v, kind=kind, variant=draw(st.sampled_from([1, 2])), k=draw(uni(0.5, 1.6)), beta1=draw(logu(20, 150)), ratio=draw(uni(1.5, 10)),
				T=draw(st.sampled_from([600.0, 1500.0])), dt=draw(st.sampled_from([0.5, 1.0])), delta=draw(st.sampled_from([0.0, 0.0, 0.0, 60.0])))


SUBS = [
	Sub("bank", bank_case(), bank, 800, 60000, shards=1),
	Sub("measured", mes_case(), measured, 400, 20000, shards=2),
	Sub("predict", pred_case(), predict, 160, 6000, shards=5),
]
