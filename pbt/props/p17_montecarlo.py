"""P17: Monte Carlo simulation of guided aerocapture: sampling, run isolation and bookkeeping."""
import os
import random
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import interp1d

from pbt import gen
from pbt.core import Sub, close, finite, require
from pbt.gen import logu, uni

RULE = ("one case = a Monte Carlo set-up (body, vehicle, generated dispersion files, one-sigma values, number of runs, seed) for one of the five "
		"drivers, either flown, or with the flight phases replaced by recorders; non-trivial = at least two runs and (flown) a run that loses more "
		"than 1 % of its speed or (recorded) non-zero dispersions and at least 100 runs")
ASSUMPTIONS = ["flown runs are compared with the same guided entry flown alone from the saved inputs (the flight itself is P15/P16)",
			"sample statistics are accepted within 6 standard errors",
			"the saved peak heat load of the solver-2 drivers is in kJ/cm2 and may or may not include the initial heat load"]
KINDS = ["lift", "lift2", "drag", "drag2", "earth"]


def files(c, p, folder):
	"""dispersion files around the body's mean atmosphere; returns {path: list of (h, low, avg, high, total)}"""
	H, T, P, R = gen.table(c["planet"])
	top = min(p.h_thres, float(H[-1]))
	lo = max(0.0, float(H[0]))
	n, K = c["npos"], c["nmonte"]
	h = np.round(np.linspace(lo, top, n), 0)
	avg0 = np.exp(np.interp(h, H, np.log(R)))
	out = {}
	rs = np.random.RandomState(c["seed"] % 2 ** 31)
	ncol = max(c["cols"]) + 1
	for j in range(c["nfiles"]):
		path = os.path.join(folder, "f%d.txt" % j)
		prof = []
		rows = []
		for i in range(K):
			avg = avg0 * (1 + 0.03 * j)
			d1, d2 = 0.02 + 0.1 * rs.rand(), 0.02 + 0.1 * rs.rand()
			tot = avg * (1 + 0.08 * np.sin(2 * np.pi * (rs.rand() + h / top * (1 + 5 * rs.rand()))) + 0.02 * (rs.rand(n) - 0.5))
			M = np.full((n, ncol), -7.0)
			if c["kind"] == "earth":
				low, high = avg * (1 - d2), avg * (1 + d2)
				vals = (h / 1e3 if c["km"] else h, avg, np.full(n, 100 * d2), tot)
			else:
				low, high = avg * (1 - d1), avg * (1 + d2)
				vals = (h / 1e3 if c["km"] else h, low, avg, high, tot)
			for col, v in zip(c["cols"], vals):
				M[:, col] = v
			o = slice(None, None, -1) if c["desc"] else slice(None)
			rows.append(M[o])
			prof.append((h, low, avg, high, tot))
		with open(path, "w") as fh:
			for row in np.concatenate(rows):
				fh.write(" ".join(repr(float(x)) for x in row) + "\n")
		out[path] = prof
	return out


def density(prof, s):
	h, low, avg, high, tot = prof
	d = avg + (s * (high - avg) if s >= 0 else s * (avg - low)) + (tot - avg)
	return interp1d(h, d, kind="linear", fill_value=0.0, bounds_error=False), h, d


def build(c, p, cls=None):
	from AMAT.vehicle import Vehicle
	V = c["veh"]
	o = (cls or Vehicle)("V", V["mass"], V["beta"], V["LD"], V["A"], 0.0, V["RN"], p)
	s = dict(c["s"])
	x0 = gen.start(p, s)
	lift = c["kind"].startswith("lift")
	s["gamma"] = gen.depth_gamma(c["planet"], p, x0[0] - p.RP, x0[3], V["beta"] if lift else c["beta1"], c["depth"])
	x0 = gen.start(p, s)
	o.setInitialState((x0[0] - p.RP) / 1e3, s["theta"], s["phi"], x0[3] / 1e3, s["psi"], s["gamma"], s["drange"], s["heat"])
	o.setSolverParams(1e-6)
	vs, low = c["vsw"] * x0[3] / 1e3, c["low"] * p.h_skip / 1e3
	thr = c["thr"] * x0[3] * np.sin(-s["gamma"] * np.pi / 180)
	if lift:
		o.setMaxRollRate(c["roll"])
		o.setEquilibriumGlideParams(60.0, 3.0, vs, low, 101, thr)
	else:
		o.setDragModulationVehicleParams(c["beta1"], c["ratio"])
		o.setDragEntryPhaseParams(vs, low, 101, thr)
	o.setTargetOrbitParams(0.1 * p.RP / 1e3, c["apo"] * p.RP / 1e3, 0.02 * c["apo"] * p.RP / 1e3)
	return o, s["gamma"]


def arm(o, c, paths, efpa):
	k = c["kind"]
	cols = c["cols"]
	nom = (efpa, c["sefpa"])
	if k.startswith("lift"):
		o.setupMonteCarloSimulation(c["npos"], c["nmonte"], paths, *cols[:5], c["km"], *nom, c["veh"]["LD"], c["sLD"], c["step"], c["dt"], c["T"],
									**({} if c["factor"] is None else dict(atmSigmaFactor=c["factor"])))
		return o.runMonteCarlo if k == "lift" else o.runMonteCarlo2
	args = (nom[0], nom[1], c["beta1"], c["sbeta"], c["step"], c["step2"], c["dt"], c["T"])
	if k == "earth":
		o.setupMonteCarloSimulationD_Earth(c["npos"], c["nmonte"], paths, *cols[:4], c["km"], *args)
		return o.runMonteCarloD_Earth
	o.setupMonteCarloSimulationD(c["npos"], c["nmonte"], paths, *cols[:5], c["km"], *args)
	return o.runMonteCarloD if k == "drag" else o.runMonteCarloD2


ARR = ["terminal_apoapsis", "terminal_periapsis", "periapsis_raise_DV", "apoapsis_raise_DV"]
PEAK = ["acc_net_g_max", "q_stag_max", "heatload_max"]


def load(folder, N, drag):
	def one(f):
		return float(np.loadtxt(os.path.join(folder, f)))
	runs = []
	for i in range(N):
		d = "#%d/" % (i + 1)
		r = {k: one(d + k + ".txt") for k in ("profile", "efpa", "atmSigma", "LD", "apoapsis_error") + tuple(ARR)}
		r["beta1"] = one(d + "beta1.txt") if drag else None
		with open(os.path.join(folder, d + "atmfile.txt")) as fh:
			r["atmfile"] = fh.read().rstrip("\n")
		runs.append(r)
	A = {}
	for k in ARR + PEAK:
		A[k] = np.atleast_1d(np.loadtxt(os.path.join(folder, k + "_arr.txt")))
		require(A[k].shape == (N,), "%s_arr.txt holds %s values for %d runs" % (k, A[k].shape, N))
	names = sorted(x for x in os.listdir(folder) if x.startswith("#"))
	require(names == sorted("#%d" % (i + 1) for i in range(N)), "run folders of %d runs: %s" % (N, names))
	for i, r in enumerate(runs):
		for k in ARR:
			require(A[k][i] == r[k] or (np.isnan(A[k][i]) and np.isnan(r[k])), "run %d saves %s %r, the array has %r" % (i + 1, k, r[k], A[k][i]))
	return runs, A


def sampled(c, runs, prof, efpa):
	drag = not c["kind"].startswith("lift")
	for i, r in enumerate(runs):
		require(r["atmfile"] in prof, "run %d used the file %r, not one of the given ones" % (i + 1, r["atmfile"]))
		require(r["profile"] == int(r["profile"]) and 1 <= r["profile"] <= c["nmonte"], "run %d used profile %r of %d" % (i + 1, r["profile"], c["nmonte"]))
		if c["sefpa"] == 0:
			close(r["efpa"], efpa, "entry angle without dispersion", rtol=1e-12)
		if drag:
			if c["sbeta"] == 0:
				close(r["beta1"], c["beta1"], "ballistic coefficient without dispersion", rtol=1e-12)
		elif c["sLD"] == 0:
			close(r["LD"], c["veh"]["LD"], "L/D without dispersion", rtol=1e-12)
		if c["factor"] == 0 and not drag:
			require(r["atmSigma"] == 0, "density sigma %r with a factor of zero" % r["atmSigma"])


def seeded(c):
	random.seed(c["seed"])
	np.random.seed(c["seed"] % 2 ** 32)


def state_of(o):
	return {k: getattr(o, k) for k in ("mass", "LD", "A", "RN", "CL", "beta1", "betaRatio")}


def flown(c):
	folder = tempfile.mkdtemp(prefix="vp_mc17_")
	try:
		p = gen.make_planet(c["planet"])
		prof = files(c, p, folder)
		o, efpa = build(c, p)
		run = arm(o, c, list(prof), efpa)
		keep = state_of(o)
		seeded(c)
		N = c["N"]
		out = os.path.join(folder, "out")
		run(N, out)
		for k, v in keep.items():
			require(getattr(o, k) == v, "the simulation leaves the vehicle's %s at %r instead of %r" % (k, getattr(o, k), v))
		drag = not c["kind"].startswith("lift")
		runs, A = load(out, N, drag)
		sampled(c, runs, prof, efpa)
		deep = False
		for i, r in enumerate(runs):
			q = gen.make_planet(c["planet"])
			q.density_int = density(prof[r["atmfile"]][int(r["profile"]) - 1], r["atmSigma"])[0]
			cc = dict(c, veh=dict(c["veh"]))
			if drag:
				cc["beta1"] = r["beta1"]
			else:
				cc["veh"]["LD"] = r["LD"]
			v = build(dict(cc), q)[0]
			# the guidance set-up is the nominal one, only the sampled quantities differ
			n = build(c, gen.make_planet(c["planet"]))[0]
			v.setInitialState(n.h0_km_ref, n.theta0_deg_ref, n.phi0_deg_ref, n.v0_kms_ref, n.psi0_deg_ref, r["efpa"], n.drange0_km_ref, n.heatLoad0_ref)
			low = c["low"] * p.h_skip / 1e3
			vs = c["vsw"] * n.v0_kms_ref
			thr = c["thr"] * n.v0_kms_ref * 1e3 * np.sin(-efpa * np.pi / 180)
			if drag:
				v.setDragEntryPhaseParams(vs, low, 101, thr)
				(v.propogateGuidedEntryD2 if c["kind"] == "drag2" else v.propogateGuidedEntryD)(c["step"], c["step2"], c["dt"], c["T"])
			else:
				v.setEquilibriumGlideParams(60.0, 3.0, vs, low, 101, thr)
				(v.propogateGuidedEntry2 if c["kind"] == "lift2" else v.propogateGuidedEntry)(c["step"], c["dt"], c["T"])
			w = "run %d of %d (efpa %.6g, sigma %.4g, profile %d)" % (i + 1, N, r["efpa"], r["atmSigma"], r["profile"])
			R = p.RP / 1e3
			if -50 * R < v.terminal_apoapsis < 50 * R and abs(v.terminal_apoapsis + R) > 0.1 * R:
				for k, tol in (("terminal_apoapsis", 1e-3 * R), ("terminal_periapsis", 1e-4 * R), ("periapsis_raise_DV", 0.5), ("apoapsis_raise_DV", 0.5)):
					close(r[k], getattr(v, k), "%s of %s" % (k, w), rtol=1e-3, atol=tol)
				close(r["apoapsis_error"], v.apoapsis_perc_error, "apoapsis error of " + w, rtol=1e-3, atol=0.1 * R / v.target_apo_km)
			close(A["acc_net_g_max"][i], np.max(v.acc_net_g_full), "peak deceleration of " + w, rtol=1e-3)
			close(A["q_stag_max"][i], np.max(v.q_stag_total_full), "peak heat rate of " + w, rtol=1e-3)
			hl = np.max(v.heatload_full)
			if c["kind"] in ("lift2", "drag2"):
				g = A["heatload_max"][i] * 1e3
				q_t = np.max(np.concatenate(([0.0], np.cumsum(0.5 * (v.q_stag_total_full[1:] + v.q_stag_total_full[:-1]) * np.diff(v.t_min_full) * 60))))
				ok = abs(g - hl) <= 2e-3 * abs(hl) + 1e-6 or abs(g - q_t) <= 2e-3 * q_t + 1e-6
				require(ok, "peak heat load of %s: saved %r kJ/cm2, flown %r J/cm2 (%r without the initial one)" % (w, g / 1e3, hl, q_t))
			else:
				close(A["heatload_max"][i], hl, "peak heat load of " + w, rtol=1e-3)
			deep = deep or v.v_kms_full[-1] < 0.99 * v.v_kms_full[0]
		return N >= 2 and deep
	finally:
		shutil.rmtree(folder, ignore_errors=True)


def recorder():
	from AMAT.vehicle import Vehicle

	class Recorder(Vehicle):
		log = []

		def first(self, *a):
			f = self.planetObj.density_int
			h = self.probe
			self.h_km_full = np.array([self.h0_km_ref, 1.0])
			d = np.array([float(f(x)) for x in h])
			tag = [self.gamma0_deg_ref, self.LD, self.CL, self.beta1, self.betaRatio, self.mass, self.v0_kms_ref, self.h0_km_ref, self.theta0_deg_ref,
					self.phi0_deg_ref, self.psi0_deg_ref, self.drange0_km_ref, self.heatLoad0_ref]
			self.log.append((tag, d, a))

		def second(self, *a):
			k = len(self.log)
			self.t_min_full = np.array([0.0, 1.0, 2.0])
			self.acc_net_g_full = np.array([0.1 * k, 2.0 * k, 1.0])
			self.q_stag_total_full = np.array([3.0 * k, 30.0 * k, 1.0])
			self.heatload_full = np.array([0.0, 500.0 * k, 400.0 * k])
			self.terminal_apoapsis = 1000.0 + k
			self.terminal_periapsis = 10.0 + 0.5 * k
			self.apoapsis_perc_error = 0.25 * k
			self.periapsis_raise_DV = 3.0 * k
			self.apoapsis_raise_DV = -2.0 * k
			self.log[-1] += (a,)

		def full(self, *a):
			self.first(*a)
			self.second(*a)
	for nm in ("propogateEquilibriumGlide", "propogateEquilibriumGlide2", "propogateEntryPhaseD", "propogateEntryPhaseD2"):
		setattr(Recorder, nm, Recorder.first)
	for nm in ("propogateExitPhase", "propogateExitPhase2", "propogateExitPhaseD", "propogateExitPhaseD2"):
		setattr(Recorder, nm, Recorder.second)
	return Recorder


def normal(x, mean, sd, what):
	n = len(x)
	x = np.asarray(x)
	if sd == 0:
		close(x, np.full(n, mean), what + " without dispersion", rtol=1e-12)
		return
	require(abs(np.mean(x) - mean) < 6 * sd / np.sqrt(n), "%s: mean of %d samples %g, expected %g +- %g" % (what, n, np.mean(x), mean, 6 * sd / np.sqrt(n)))
	r = np.std(x) / sd
	require(abs(r - 1) < 6 / np.sqrt(2 * n), "%s: spread of %d samples is %g of the requested one" % (what, n, r))
	require(len(np.unique(x)) == n, "%s: repeated samples" % what)
	# normal: fractions inside one and two sigma
	for k, want in ((1.0, 0.682689), (2.0, 0.9545)):
		got = np.mean(np.abs(x - mean) < k * sd)
		require(abs(got - want) < 6 * np.sqrt(want * (1 - want) / n), "%s: %g of the samples within %g sigma" % (what, got, k))


def recorded(c):
	folder = tempfile.mkdtemp(prefix="vp_mc17_")
	try:
		p = gen.make_planet(c["planet"])
		prof = files(c, p, folder)
		R = recorder()
		R.log = []
		o, efpa = build(c, p, R)
		h = next(iter(prof.values()))[0][0]
		R.probe = [float(x) for x in (h[1] * 0.5 + h[2] * 0.5, h[len(h) // 2], h[-3] * 0.3 + h[-2] * 0.7)]
		run = arm(o, c, list(prof), efpa)
		seeded(c)
		N = c["N"]
		out = os.path.join(folder, "out")
		run(N, out)
		drag = not c["kind"].startswith("lift")
		runs, A = load(out, N, drag)
		sampled(c, runs, prof, efpa)
		require(len(R.log) == N, "%d entries flown for %d runs" % (len(R.log), N))
		k = np.arange(1, N + 1)
		close(A["terminal_apoapsis"], 1000.0 + k, "saved apoapsides", rtol=1e-12)
		close(A["terminal_periapsis"], 10.0 + 0.5 * k, "saved periapsides", rtol=1e-12)
		close(A["periapsis_raise_DV"], 3.0 * k, "saved periapsis-raise burns", rtol=1e-12)
		close(A["apoapsis_raise_DV"], -2.0 * k, "saved apoapsis-raise burns", rtol=1e-12)
		close([r["apoapsis_error"] for r in runs], 0.25 * k, "saved apoapsis errors", rtol=1e-12)
		close(A["acc_net_g_max"], np.where(k == 0, 0, np.maximum(2.0 * k, 1.0)), "saved peak decelerations", rtol=1e-12)
		close(A["q_stag_max"], 30.0 * k, "saved peak heat rates", rtol=1e-12)
		s = c["s"]
		V = c["veh"]
		for i, (r, L) in enumerate(zip(runs, R.log)):
			tag, d, a1, a2 = L
			w = "run %d" % (i + 1)
			close(tag[0], r["efpa"], "entry angle flown in " + w, rtol=1e-12)
			if drag:
				close(tag[3], r["beta1"], "ballistic coefficient flown in " + w, rtol=1e-12)
				close(tag[4], c["ratio"], "ballistic-coefficient ratio flown in " + w, rtol=1e-12)
			else:
				close(tag[1], r["LD"], "L/D flown in " + w, rtol=1e-12)
				close(tag[2], r["LD"] * V["mass"] / (V["beta"] * V["A"]), "lift coefficient flown in " + w, rtol=1e-9, atol=1e-12)
			close(tag[5], V["mass"], "mass in " + w)
			close(tag[8:13], [s["theta"], s["phi"], s["psi"], s["drange"], s["heat"]], "rest of the entry state in " + w, rtol=1e-12)
			f = density(prof[r["atmfile"]][int(r["profile"]) - 1], r["atmSigma"])[0]
			close(d, [float(f(x)) for x in R.probe], "density flown in %s (profile %d, sigma %g)" % (w, r["profile"], r["atmSigma"]), rtol=1e-8)
			if drag:
				require(tuple(a1) == (c["step"], c["dt"], c["T"]) and tuple(a2) == (c["step2"], c["dt"], c["T"]), "step sizes in %s: %s %s" % (w, a1, a2))
			else:
				require(tuple(a1) == (c["step"], c["dt"], c["T"]) and tuple(a2) == (c["step"], c["dt"], c["T"]), "step sizes in %s: %s %s" % (w, a1, a2))
		if N >= 100:
			normal([r["efpa"] for r in runs], efpa, c["sefpa"], "entry angle")
			normal([r["atmSigma"] for r in runs], 0.0, 1.0 if drag or c["factor"] is None else c["factor"], "density sigma")
			if drag:
				normal([r["beta1"] for r in runs], c["beta1"], c["sbeta"], "ballistic coefficient")
			else:
				normal([r["LD"] for r in runs], V["LD"], c["sLD"], "L/D")
			K, J = c["nmonte"], c["nfiles"]
			for n, seen, what in ((K, [int(r["profile"]) - 1 for r in runs], "profile"), (J, [list(prof).index(r["atmfile"]) for r in runs], "file")):
				cnt = np.bincount(seen, minlength=n)
				sd = np.sqrt(N / n * (1 - 1 / n))
				require(np.all(np.abs(cnt - N / n) <= 6 * sd + 1), "%s frequencies %s in %d runs" % (what, cnt.tolist(), N))
			cor = np.corrcoef([r["efpa"] for r in runs], [r["atmSigma"] for r in runs])[0, 1] if c["sefpa"] and c["factor"] != 0 else 0
			require(abs(cor) < 6 / np.sqrt(N), "entry angle and density sigma are correlated (%g)" % cor)
		return N >= 100 and c["sefpa"] > 0 and (c["sbeta"] if drag else c["sLD"]) > 0
	finally:
		shutil.rmtree(folder, ignore_errors=True)


@st.composite
def case(draw, flown=True):
	s = draw(gen.entry_state(vmin=1.03, vmax=1.2))
	s["h0f"] = draw(uni(0.85, 0.99))
	s["phi"] = draw(uni(-45, 45))
	v = draw(gen.entry_vehicle())
	v["LD"] = draw(uni(0.15, 0.6))
	v["beta"] = draw(logu(40, 300))
	kind = draw(st.sampled_from(KINDS))
	z = st.one_of(st.just(0.0), uni(0.01, 0.3)) if flown else st.one_of(uni(0.01, 0.3), uni(0.01, 0.3), st.just(0.0))
	ncol = draw(st.integers(5, 7))
	beta1 = draw(logu(20, 120))
	return dict(planet=s["planet"], kind=kind, s=s, veh=v, depth=draw(logu(0.08, 0.6)), beta1=beta1, ratio=draw(uni(2, 8)), roll=draw(uni(10, 40)),
				vsw=draw(uni(0.55, 0.9)), low=0.15, thr=-draw(uni(0.05, 0.3)), apo=draw(logu(0.1, 10)), step=draw(st.sampled_from([2.0, 4.0])) if flown else 1.0,
				step2=draw(st.sampled_from([3.0, 5.0])) if flown else 2.0, dt=draw(st.sampled_from([1.0, 2.0])), T=1200.0,
				npos=draw(st.integers(60, 90)) if flown else draw(st.integers(6, 12)), nmonte=draw(st.integers(2, 6)), nfiles=draw(st.integers(1, 3)),
				cols=list(draw(st.permutations(range(ncol)))[:5]), km=draw(st.booleans()), desc=draw(st.booleans()),
				sefpa=draw(z), sLD=draw(z.map(lambda x: 0.3 * x)), sbeta=draw(z) * beta1 * 0.5, factor=draw(st.sampled_from([None, 1.0, 0.5, 2.0, 0.0])),
				N=draw(st.integers(2, 3)) if flown else draw(st.sampled_from([100, 160])), seed=draw(st.integers(0, 2 ** 31 - 1)))


SUBS = [
	Sub("flown", case(), flown, 32, 1500, shards=6),
	Sub("recorded", case(False), recorded, 36, 2000, shards=2),
]
