"""P28: computations leave arguments, objects and each other alone, and answer arrays element by element."""
import functools

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, require
from pbt.gen import logu, uni

RULE = ("one case = two bodies with a vehicle each (or two approaches with orbits, or two links, launchers and orbits with landers) and a sequence of computations on them with few different arguments, with changes of atmosphere, "
		"nose radius, skip altitude and vehicle in between; non-trivial = the same computation is asked for again with the same arguments after a different one or a change of the settings")
ASSUMPTIONS = ["the model repeats each computation on freshly built objects with the current configuration; the code is deterministic, so the answers must agree to 1e-12",
			"a computation is one of the functions that return their answer; the ones that store it in the object are covered by P26"]
D = np.pi / 180


class Args:
	"""argument arrays in physical ranges, from fractions"""

	def __init__(self, a, p):
		n = a["n"]
		fr = np.array(a["fr"], float)
		u = lambda k: np.array([(fr[(7 * k + i) % len(fr)] + 0.37 * k) % 1.0 for i in range(n)])
		self.n = n
		self.h = p.h_skip * (0.02 + 1.1 * u(0))
		self.r = p.RP + self.h
		self.theta, self.phi = (u(1) - 0.5) * 6.0, (u(2) - 0.5) * 2.6
		ve = np.sqrt(2 * p.GM / p.RP)
		self.v = ve * (0.3 + 1.1 * u(3))
		self.psi, self.gamma = (u(4) - 0.5) * 6.0, -0.6 * u(5)
		self.drange = 1e6 * u(6)
		self.t = np.cumsum(0.1 + 5.0 * u(7))
		self.delta = float((u(8)[0] - 0.5) * 6)
		self.rho = 10.0 ** (-6 + 3 * u(9))
		self.sig = float((u(10)[0] - 0.5) * 6)
		self.small = 0.1 + 3.0 * u(11)
		self.tau, self.vc = self.t / p.tau, self.v / p.Vref
		self.k = int(10 * u(12)[0]) % n


# name: (owner, function of (object, args) -> argument tuple, element by element?)
A = lambda *names: (lambda x: tuple(getattr(x, n) for n in names))
S = lambda *names: (lambda x: tuple(float(getattr(x, n)[x.k]) for n in names))
BAR = lambda *names: (lambda x: tuple(float({"rbar": x.r / x.RP, "vbar": x.vc}.get(n, getattr(x, n, None))[x.k]) for n in names))
FNS = {}
for nm in ("tempvectorized", "presvectorized", "densityvectorized", "avectorized", "computeR"):
	FNS["p." + nm] = (A("h"), True)
for nm in ("rhovectorized", "pressurevectorized", "temperaturevectorized", "sonicvectorized", "rbar", "computeH"):
	FNS["p." + nm] = (A("r"), True)
FNS["p.density"] = (S("h"), False)
FNS["p.rho"] = (S("r", "theta", "phi"), False)
FNS["p.rho2"] = FNS["p.rhobar"] = (BAR("rbar", "theta", "phi"), False)
FNS["p.nonDimState"] = (A("r", "theta", "phi", "v", "psi", "gamma", "drange"), True)
FNS["p.dimensionalize"] = (A("tau", "small", "theta", "phi", "vc", "psi", "gamma", "drange"), True)
FNS["p.pSigmaFunc"] = FNS["p.nSigmaFunc"] = (lambda x: (x.sig,), False)
for nm in ("qStagConvective", "qStagRadiative", "qStagTotal", "computeDynPres", "computeStagPres", "computeMach", "computeStagTemp", "computeEnergy"):
	FNS["o." + nm] = (A("r", "v"), True)
for nm in ("Lvectorized", "Dvectorized"):
	FNS["o." + nm] = (A("r", "theta", "phi", "v"), True)
	FNS["o." + nm[0]] = (S("r", "theta", "phi", "v"), False)
for nm in ("a_svectorized", "a_nvectorized", "a_wvectorized"):
	FNS["o." + nm] = (lambda x: (x.r, x.theta, x.phi, x.v, x.delta), True)
	FNS["o." + nm[:3]] = (lambda x: S("r", "theta", "phi", "v")(x) + (x.delta,), False)
	FNS["o." + nm[:3] + "bar"] = (lambda x: BAR("rbar", "theta", "phi", "vbar")(x) + (x.delta,), False)
for nm in ("cfvbar", "cfpsibar", "cfgammabar", "copsibar", "cogammabar"):
	FNS["o." + nm] = (BAR("rbar", "phi", "vbar", "psi", "gamma"), False)
for nm in ("grbar", "gphibar"):
	FNS["o." + nm] = (BAR("rbar", "phi"), False)
for nm in ("gnbar", "gsbar", "gwbar"):
	FNS["o." + nm] = (BAR("rbar", "phi", "gamma", "psi"), False)
FNS["o.EOM"] = (lambda x: (np.array(BAR("rbar", "theta", "phi", "vbar", "psi", "gamma", "drange")(x)), 0.0, x.delta), False)
FNS["o.EOM2"] = (lambda x: (0.0, np.array(BAR("rbar", "theta", "phi", "vbar", "psi", "gamma", "drange")(x)), x.delta), False)
FNS["o.convertToPlotUnits"] = (A("t", "r", "v", "phi", "psi", "theta", "gamma", "drange"), True)
FNS["o.convertToKPa"] = FNS["o.convertToPerCm2"] = (A("small"), True)
FNS["o.classifyTrajectory"] = (A("r"), False)
FNS["o.truncateTrajectory"] = (lambda x: (x.t, x.r, x.theta, x.phi, x.v, x.psi, x.gamma, x.drange, x.k + 1), False)
for nm in ("computeAccelerationLoad", "computeAccelerationDrag"):
	FNS["o." + nm] = (lambda x: (x.t, x.r, x.theta, x.phi, x.v, x.n, x.delta), False)
FNS["o.computeMachScalar"] = FNS["o.computeEnergyScalar"] = (S("r", "v"), False)
FNS["o.computeHeatingForMultipleRN"] = (A("t", "r", "v", "small"), False)
FNS["o.computeAngMomScalar"] = (S("r", "v", "gamma"), False)
for nm in ("compute_ApoapsisAltitudeKm", "compute_PeriapsisAltitudeKm"):
	FNS["o." + nm] = (S("r", "v", "gamma", "theta", "phi", "psi"), False)
FNS["o.createDensityMeasuredFunction"] = (lambda x: (np.r_[0.0, np.sort(x.h)[::-1] / 1e3, np.linspace(x.h.min() / 1e3 * 0.99, x.h.min() / 1e3 * 0.9, 3)],
	np.r_[0.0, np.sort(x.rho), x.rho.max() * np.array([1.1, 1.2, 1.4])], x.h.min() * 0.5 / 1e3, 11), False)
FNS["o.psuedoController"] = (lambda x: (x.delta * 60, x.sig * 60, float(x.small[0])), False)
FNS["o.compute_periapsis_raise_DV"] = FNS["o.compute_apoapsis_raise_DV"] = (lambda x: tuple(sorted(float(y) for y in np.r_[x.h, x.drange, 1e6][:3] / 1e3)), False)
PROF = lambda x: (np.tile(np.sort(x.h), 3), np.repeat(x.rho, 3) * 0.8, np.repeat(x.rho, 3), np.repeat(x.rho, 3) * 1.3)
FNS["p.loadAtmosphereModel5"] = (lambda x: PROF(x) + (np.repeat(x.rho, 3) * 0.05 * np.sin(np.arange(3 * x.n)), x.sig, x.n, 1 + x.k % 3), False)
FNS["p.loadAtmosphereModel6"] = (lambda x: PROF(x) + (x.sig, x.n, 1 + x.k % 3), False)
FLY = {}
for nm in ("solveTrajectory", "solveTrajectory2"):
	FLY["o." + nm] = (lambda x: (1 + 0.7 * x.skip / x.RP, float(x.theta[0]), float(x.phi[0]), float(x.vc[0]), float(x.psi[0]), -0.1 - 0.5 * abs(float(x.gamma[0])), 0.0, 20.0, 1.0, x.delta), False)
PRED = lambda x: (0.7 * x.skip / 1e3, float(x.theta[0] / D), float(x.phi[0] / D), float(x.v[0] / 1e3), -6.0 - 20 * abs(float(x.gamma[0])), float(x.psi[0] / D), 10.0, 5.0, 20.0, 1.0, x.delta / D, x.model)
for nm in ("predictApoapsisAltitudeKm_withLiftUp", "predictApoapsisAltitudeKm_withLiftUp2", "propogateEntry_util", "propogateEntry_util2",
		"predictApoapsisAltitudeKm_afterJettision", "predictApoapsisAltitudeKm_afterJettision2", "propogateEntry_utilD", "propogateEntry_utilD2"):
	FLY["o." + nm] = (PRED, False)
NAMES = sorted(FNS)
FLYNAMES = sorted(FLY)


def flat(x):
	"""an answer as a list of arrays (functions are sampled)"""
	if callable(x):
		return [np.asarray(x(np.linspace(-1e3, 4e5, 41)), float)]
	if isinstance(x, (tuple, list)):
		return [y for e in x for y in flat(e)]
	return [np.array(x, float)]


def keep(x):
	return [np.array(y, float) for y in flat(x)]


def equal(a, b):
	if len(a) != len(b):
		return False
	for x, y in zip(a, b):
		if x.shape != y.shape:
			return False
		d = ~((x == y) | (np.isnan(x) & np.isnan(y)))
		if d.any() and not np.all(np.abs(x - y)[d] <= 1e-12 * np.abs(y)[d]):
			return False
	return True


def scribble(x):
	if isinstance(x, np.ndarray) and x.ndim and x.flags.writeable:
		x[...] = -4321
	elif isinstance(x, (tuple, list)):
		for y in x:
			scribble(y)


SETTINGS = ("mass", "beta", "LD", "A", "alpha", "RN", "CD", "CL", "h0_km", "theta0_deg", "phi0_deg", "v0_kms", "psi0_deg", "gamma0_deg", "drange0_km", "heatLoad0", "tol", "maxRollRate", "beta1", "betaRatio",
	"RP", "OMEGA", "GM", "rho0", "CPCV", "J2", "J3", "h_thres", "h_skip", "h_trap", "h_low", "Vref", "tau", "EARTHG", "ATM_height", "ATM_temp", "ATM_pressure", "ATM_density", "ATM_sonic")


def state(*objs):
	"""the public settings of the objects"""
	return {(type(o).__name__, k): np.array(getattr(o, k), float) for o in objs for k in SETTINGS if hasattr(o, k)}


def unchanged(a, b, what):
	for k, v in a.items():
		require(k in b and np.array_equal(v, b[k], equal_nan=True), "%s changes %s.%s from %s to %s" % ((what,) + k + (str(v)[:60], str(b.get(k))[:60])))


def call(owner, name, args):
	return getattr(owner, name)(*args)


def checked(objs, fresh, owner, name, make, tag, vec):
	"""one computation on the used objects against the same on fresh ones"""
	args, args2, orig = make(), make(), make()
	before = state(*objs)
	got_raw = call(owner(objs), name, args)
	got = keep(got_raw)
	for i, (a, b) in enumerate(zip(args, orig)):
		if isinstance(b, (np.ndarray, list)):
			require(type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True), "%s changes its argument %d: %s, was %s" % (tag, i + 1, a, b))
	scribble(got_raw)
	unchanged(before, state(*objs), tag)
	want = keep(call(owner(fresh), name, args2))
	require(equal(got, want), lambda: "%s answers %s, on fresh objects %s" % (tag, [str(x)[:160] for x in got], [str(x)[:160] for x in want]))
	if vec:
		n = len(orig[0])
		for j in range(n):
			one = keep(call(owner(fresh), name, tuple(a[j:j + 1].copy() if isinstance(a, np.ndarray) and a.shape == (n,) else a for a in make())))
			part = [x[j:j + 1] for x in want]
			require(all(x.shape == y.shape for x, y in zip(one, part)) and all(np.allclose(x, y, rtol=1e-9, atol=0, equal_nan=True) for x, y in zip(one, part)),
				lambda: "%s: element %d of the answer for an array is %s, the answer for that element is %s" % (tag, j, [str(x) for x in part], [str(x) for x in one]))


def build_flight(cfg):
	p = gen.make_planet(cfg["planet"])
	if cfg["atm"]:
		load(p, *cfg["atm"])
	if cfg["skip"]:
		p.h_skip = cfg["skip"]
	o = gen.make_vehicle(p, cfg["veh"])
	o.setSolverParams(1e-6)
	o.setMaxRollRate(cfg["roll"])
	o.setDragModulationVehicleParams(cfg["veh"]["beta"], cfg["ratio"])
	o.setInitialState(0.9 * p.h_skip / 1e3, 10.0, 20.0, 1.1 * p.Vref / 1e3, 30.0, -9.0, 0.0, 0.0)
	if cfg["RN"]:
		o.RN = cfg["RN"]
	return o, p


def load(p, pid, kind):
	_, a, b, c, d, km = gen.ATM[pid]
	p.loadAtmosphereModel(gen.atm_path(pid), a, b, c, d, intType=kind, heightInKmFlag=km)


def computations(c):
	cfgs = [dict(x) for x in c["worlds"]]
	used = [build_flight(x) for x in cfgs]
	seen, change, again = {}, 0, False
	log = []
	for op in c["ops"]:
		w = op["w"] % 2
		cfg, (o, p) = cfgs[w], used[w]
		if op["op"] == "atm":
			cfg["atm"] = (op["pid"], op["kind"])
			load(p, *cfg["atm"])
		elif op["op"] == "RN":
			o.RN = cfg["RN"] = op["x"]
		elif op["op"] == "skip":
			p.h_skip = cfg["skip"] = op["x"] * gen_skip(cfg["planet"])
		elif op["op"] == "roll":
			cfg["roll"] = op["x"] * 20
			o.setMaxRollRate(cfg["roll"])
		elif op["op"] == "vehicle":
			cfg["veh"] = dict(op["veh"])
			cfg["RN"] = None
			o = gen.make_vehicle(p, cfg["veh"])
			o.setSolverParams(1e-6)
			o.setMaxRollRate(cfg["roll"])
			o.setDragModulationVehicleParams(cfg["veh"]["beta"], cfg["ratio"])
			o.setInitialState(0.9 * (cfg["skip"] or p.h_skip) / 1e3, 10.0, 20.0, 1.1 * p.Vref / 1e3, 30.0, -9.0, 0.0, 0.0)
			used[w] = (o, p)
		if op["op"] != "call":
			change += 1
			log.append("%s of %s" % (op["op"], cfg["planet"]))
			continue
		name = op["fn"]
		spec, vec = FNS.get(name) or FLY[name]
		fresh = build_flight(cfg)

		def make():
			x = Args(c["args"][op["a"] % len(c["args"])], fresh[1])
			x.RP, x.skip = fresh[1].RP, gen_skip(cfg["planet"])
			x.model = model(cfg["planet"])
			return spec(x)
		tag = "%s of %s%s" % (name[2:], cfg["planet"], " after [%s]" % ", ".join(log[-4:]) if log else "")
		checked((o, p), fresh, (lambda z: z[0]) if name[0] == "o" else (lambda z: z[1]), name[2:], make, tag, vec)
		key = (name, op["a"] % len(c["args"]))
		if key in seen and seen[key] != (change, w):
			again = True
		seen[key] = (change, w)
		log.append(tag.split(" after")[0])
	return again


@functools.lru_cache(maxsize=None)
def model(pid):
	"""a measured density model"""
	from scipy.interpolate import interp1d
	H, T, P, R = gen.table(pid)
	return interp1d(H, R, fill_value=0.0, bounds_error=False)


@functools.lru_cache(maxsize=None)
def gen_skip(pid):
	from AMAT.planet import Planet
	return Planet(pid).h_skip


def arg_set():
	return st.fixed_dictionaries(dict(n=st.sampled_from([1, 2, 3, 4, 7, 12]), fr=st.lists(uni(0, 1), min_size=3, max_size=8)))


@st.composite
def comp_case(draw, fly=False):
	pid = draw(gen.planet_id())
	other = draw(st.one_of(st.just(pid), gen.planet_id()))
	veh = lambda: draw(gen.entry_vehicle())
	worlds = [dict(planet=q, veh=veh(), atm=None, skip=None, RN=None, roll=draw(uni(1, 40)), ratio=draw(uni(1.5, 8))) for q in (pid, other)]
	names = draw(st.lists(st.sampled_from(FLYNAMES if fly else NAMES), min_size=1, max_size=3))
	ops = []
	for _ in range(draw(st.integers(3, 6 if fly else 14))):
		k = draw(st.sampled_from(["call"] * 5 + ["atm", "RN", "skip", "roll", "vehicle"]))
		op = dict(op=k, w=draw(st.sampled_from([0, 0, 1])))
		if k == "call":
			op.update(fn=draw(st.sampled_from(names + ([draw(st.sampled_from(NAMES))] if not fly else []))), a=draw(st.sampled_from([0, 0, 1])))
		elif k == "atm":
			op.update(pid=draw(gen.planet_id()), kind=draw(st.sampled_from(["cubic", "linear"])))
		elif k == "vehicle":
			op.update(veh=veh())
		else:
			op.update(x=draw(uni(0.75 if fly else 0.3, 0.99)))
		ops.append(op)
	ops.append(dict(op="call", w=0, fn=names[0], a=0))
	return dict(worlds=worlds, args=[draw(arg_set()), draw(arg_set())], ops=ops)


# ---------------------------------------------------------------- geometry of approaches and orbits
GEO = dict(pos_vec_bi="f", vel_vec_bi="f", r_mag_bi="f", R1="f", R2="f", R3="f", ICRF_to_BI="v")
PROP = dict(pos_vec_bi="f", vel_vec_bi="f", r_mag_bi="f", compute_E="m", compute_theta_star="m")


def build_geo(c):
	from AMAT.approach import Approach
	from AMAT.orbiter import PropulsiveOrbiter
	p = gen.make_planet(c["planet"], atm=False)
	v = np.array(c["v"]) / np.linalg.norm(c["v"]) * c["vm"]
	a = Approach(c["planet"], v, p.RP * c["rp"], c["psi"])
	o = PropulsiveOrbiter(a, (c["ra"] * c["rp"] - 1) * p.RP / 1e3)
	return a, o


def numeric(o):
	return {k: np.array(v, float) for k, v in vars(o).items() if isinstance(v, (float, int, np.ndarray, np.floating)) and not isinstance(v, bool)}


def geometry(c):
	from AMAT.approach import Approach
	vs = []
	used = []
	for x in c["worlds"]:
		p = gen.make_planet(x["planet"], atm=False)
		v = np.array(x["v"]) / np.linalg.norm(x["v"]) * x["vm"]
		keepv = v.copy()
		used.append(build_geo(x))
		Approach(x["planet"], v, p.RP * x["rp"], x["psi"])
		require(np.array_equal(v, keepv), "Approach changes the v-infinity vector it is given: %s, was %s" % (v, keepv))
	first = [[numeric(o) for o in objs] for objs in used]
	seen, again = {}, False
	for i, op in enumerate(c["ops"]):
		w = op["w"]
		which, name = op["fn"]
		kind = (GEO, PROP)[which][name]
		fresh = build_geo(c["worlds"][w])
		val = c["vals"][op["a"]]

		def make():
			return (np.array([val, 1.0, -0.5 * val]),) if kind == "v" else (abs(val),) if kind == "m" else (val,)
		checked(used[w], fresh, lambda z: z[which], name, make, "%s.%s(%g) of %s" % (type(used[w][which]).__name__, name, val, c["worlds"][w]["planet"]), False)
		key = (which, name, op["a"])
		again |= key in seen and seen[key] != (w, i - 1)
		seen[key] = (w, i)
	for w, objs in enumerate(used):
		for k, o in enumerate(objs):
			now = numeric(o)
			for n, v in first[w][k].items():
				require(np.array_equal(now[n], v, equal_nan=True), "%s.%s changed from %s to %s" % (type(o).__name__, n, v, now[n]))
	# the same orbit in time, asked for twice with another in between
	T, n = c["T"], c["npts"]
	x, y = used[0][1], used[1][1]
	g = ("x_timed_orbit_arr", "y_timed_orbit_arr", "z_timed_orbit_arr")
	with_np = lambda o: [np.array(getattr(o, k)) for k in g]
	x.compute_timed_orbit_trajectory(T, n)
	r1 = with_np(x)
	y.compute_timed_orbit_trajectory(T * 0.7, n + 3)
	x.compute_orbit_trajectory(n)
	x.compute_timed_orbit_trajectory(T * 0.3, n + 1)
	x.compute_timed_orbit_trajectory(T, n)
	r2 = with_np(x)
	require(equal(r1, r2), "the timed orbit differs when computed again after other orbits")
	return again


def geo_world():
	return st.fixed_dictionaries(dict(planet=gen.planet_id(), v=st.tuples(uni(-1, 1), uni(-1, 1), uni(0.2, 0.9)).map(list), vm=logu(1, 25), rp=uni(1.01, 5), psi=uni(0, 6.28), ra=logu(1.2, 30)))


@st.composite
def geo_case(draw):
	fns = [(0, n) for n in sorted(GEO)] + [(1, n) for n in sorted(PROP)]
	pick = draw(st.lists(st.sampled_from(fns), min_size=1, max_size=4))
	ops = [dict(w=draw(st.sampled_from([0, 1])), fn=draw(st.sampled_from(pick)), a=draw(st.sampled_from([0, 0, 1]))) for _ in range(draw(st.integers(3, 12)))]
	return dict(worlds=[draw(geo_world()), draw(geo_world())], ops=ops, vals=[draw(uni(-1.5, 1.5)), draw(uni(-1.5, 1.5))], T=draw(logu(1e3, 1e6)), npts=draw(st.integers(2, 30)))


def links(c):
	import os
	import tempfile
	from types import SimpleNamespace
	from AMAT.launcher import Launcher
	from AMAT.telecom import Link, Schedule
	n, T = c["n"], c["T"]
	wins = [[np.sort(np.array(w)) * T for w in ws] for ws in c["windows"]]
	keepw = [[w.copy() for w in ws] for ws in wins]
	sch = [Schedule(T, n, ws) for ws in wins]
	for ws, ks in zip(wins, keepw):
		require(len(ws) == len(ks) and all(np.array_equal(a, b) for a, b in zip(ws, ks)), "Schedule changes the transmit windows it is given")
	vis = [SimpleNamespace(t_array=np.linspace(0, T, n), visible_array=np.array([v[i % len(v)] for i in range(n)], dtype=bool)) for v in c["visible"]]
	new = lambda k: Link(c["freq"][k], 20.0, 100.0, 1e6, 0.5, c["rate"][k], 1.0, Gt_dBi=10.0, Gr_dBi=20.0)
	used = [new(0), new(1)]
	base = [numeric(o) for o in used]
	for l, v, s in c["ops"]:
		seen = (vis[v].visible_array.copy(), vis[v].t_array.copy(), sch[s].transmit_array.copy(), sch[s].t_array.copy())
		used[l].compute_data_volume(vis[v], sch[s])
		f = new(l)
		f.compute_data_volume(SimpleNamespace(t_array=np.linspace(0, T, n), visible_array=seen[0].copy()), Schedule(T, n, [w.copy() for w in keepw[s]]))
		require(equal([np.array(used[l].data_volume_array, float)], [np.array(f.data_volume_array, float)]), "the data volume of a link used before differs from that of a new link")
		now = (vis[v].visible_array, vis[v].t_array, sch[s].transmit_array, sch[s].t_array)
		require(all(np.array_equal(a, b) for a, b in zip(seen, now)), "computing a data volume changes the visibility or the schedule")
		scribble(used[l].data_volume_array)
		for k in (0, 1):
			for a, b in base[k].items():
				require(np.array_equal(b, numeric(used[k]).get(a, np.nan), equal_nan=True), "computing a data volume changes %s of a link" % a)
	with tempfile.TemporaryDirectory() as d:
		fn = os.path.join(d, "l.csv")
		mass = []
		for k in (0, 1):
			x = np.cumsum(c["c3"][k])
			np.savetxt(fn, np.c_[x, 1000.0 + 50 * np.cos(x)], delimiter=",")
			mass.append((Launcher("L%d" % k, fn), x))
		for k, q in c["queries"]:
			L, x = mass[k]
			a = np.array(q) * x[-1]
			b = a.copy()
			got = L.launchMass(a)
			require(np.array_equal(a, b), "launchMass changes the launch energies it is given")
			w = np.where((b >= x[0]) & (b <= x[-1]), np.interp(b, x, 1000.0 + 50 * np.cos(x)), 0.0)
			require(np.allclose(got, w, rtol=1e-9), "launch masses %s, expected %s" % (got, w))
			scribble(got)
	return len({tuple(x) for x in c["ops"]}) < len(c["ops"])


def links_case():
	w = st.lists(st.tuples(uni(0, 1), uni(0, 1)).map(list), min_size=1, max_size=3)
	return st.fixed_dictionaries(dict(n=st.integers(2, 20), T=logu(10, 1e6), windows=st.tuples(w, w).map(list), visible=st.tuples(*[st.lists(st.booleans(), min_size=1, max_size=9)] * 2).map(list),
		freq=st.tuples(uni(0.1, 30), uni(0.1, 30)).map(list), rate=st.tuples(uni(0.1, 30), uni(0.1, 30)).map(list), ops=st.lists(st.tuples(*[st.integers(0, 1)] * 3).map(list), min_size=2, max_size=6),
		c3=st.tuples(*[st.lists(uni(0.5, 20), min_size=2, max_size=6)] * 2).map(list), queries=st.lists(st.tuples(st.integers(0, 1), st.lists(uni(-0.1, 1.1), min_size=1, max_size=5)).map(list), min_size=1, max_size=3)))


SUBS = [
	Sub("computations", comp_case(), computations, 1200, 20000, shards=8),
	Sub("flights", comp_case(fly=True), computations, 300, 5000, shards=8),
	Sub("links", links_case(), links, 300, 5000, shards=2),
	Sub("geometry", geo_case(), geometry, 300, 5000, shards=4),
]
