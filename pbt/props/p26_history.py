"""P26: results depend on the configuration only, not on what was computed before (stateful, model = fresh objects)."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, close, finite, require
from pbt.gen import logu, uni

RULE = ("one case = one body shared by two vehicles and a sequence of up to six operations on them (new entry state, tolerance, flights, flight classification, corridor searches, "
		"guided flights, orbit after the flight); non-trivial = an operation that flies follows at least two others of different kinds; or two corridor searches and a flight, non-trivial = one of them finds no limit in its interval")
ASSUMPTIONS = ["a guided flight leaves its last guidance state as the initial state, so the entry state is set again after it (as the MC loops and the notebooks do)",
			"drag-modulation searches and flights leave the ballistic coefficient of their last flight; after one, only further drag-modulation operations are done with that vehicle, or it is built anew",
			"the model repeats the operation on freshly built objects with the current configuration; the code is deterministic, so results must agree to 1e-9"]

FLY = ("t_minc", "h_kmc", "v_kmsc", "phi_degc", "psi_degc", "theta_degc", "gamma_degc", "drange_kmc", "acc_net_g", "dyn_pres_atm", "stag_pres_atm", "q_stag_total", "heatload", "acc_drag_g")
FULL = ("t_min_full", "h_km_full", "v_kms_full", "theta_deg_full", "phi_deg_full", "psi_deg_full", "gamma_deg_full", "acc_net_g_full", "q_stag_total_full", "heatload_full",
		"delta_deg_array", "hdot_array", "density_mes_array")
NOM = ("mass", "beta", "LD", "A", "alpha", "RN", "CD", "CL", "h0_km", "theta0_deg", "phi0_deg", "v0_kms", "psi0_deg", "gamma0_deg", "drange0_km", "heatLoad0", "tol")


def fresh(cfg, p=None):
	p = p or gen.make_planet(cfg["planet"])
	o = gen.make_vehicle(p, cfg["veh"])
	s = cfg["s"]
	o.setInitialState(s["h0f"] * p.h_skip / 1e3, s["theta"], s["phi"], s["v"], s["psi"], s["gamma"], s["drange"], s["heat"])
	o.setSolverParams(cfg["tol"])
	return p, o


def speed(p, s):
	return float(s["vf"] * np.sqrt(2 * p.GM / (p.RP + s["h0f"] * p.h_skip)) / 1e3)


def perform(p, o, cfg, op):
	"""returns a dict of results"""
	k, a = op["op"], op
	two = a["two"]
	if k == "fly":
		(o.propogateEntry2 if two else o.propogateEntry)(a["T"], 1.0, a["delta"])
		return {x: np.array(getattr(o, x), float) for x in FLY}
	if k == "judge":
		target = a["apo"] * p.RP / 1e3
		r = dict(hits=(o.hitsTargetApoapsis2 if two else o.hitsTargetApoapsis)(a["T"], 1.0, a["delta"], target))
		if not two:
			r["captured"] = o.isCaptured(a["T"], 1.0, a["delta"])
		return r
	if k == "corridor":
		g = cfg["s"]["gamma"]
		lo, hi = g - 6.0, min(g + 4.0, -0.5)
		if a["off"] > 0:
			lo = hi - 0.5             # too shallow, as a rule
		elif a["off"] < 0:
			lo, hi = g - 12.0, g - 8.0   # too steep, as a rule
		target = a["apo"] * p.RP / 1e3
		if a["drag"]:
			o.setDragModulationVehicleParams(cfg["veh"]["beta"], a["ratio"])
			f = {(0, 0): o.findOverShootLimitD, (0, 1): o.findUnderShootLimitD, (1, 0): o.findOverShootLimitD2, (1, 1): o.findUnderShootLimitD2}[(int(two), int(a["under"]))]
		else:
			f = {(0, 0): o.findOverShootLimit, (0, 1): o.findUnderShootLimit, (1, 0): o.findOverShootLimit2, (1, 1): o.findUnderShootLimit2}[(int(two), int(a["under"]))]
		x = f(a["T"], 1.0, lo, hi, 0.3, target)
		return dict(limit=x[0], flag=x[1])
	if k == "guided":
		vs = a["vsw"] * cfg["s"]["v"]
		low = 0.15 * p.h_skip / 1e3
		thr = -0.2 * cfg["s"]["v"] * 1e3 * np.sin(-cfg["s"]["gamma"] * np.pi / 180)
		if a["drag"]:
			o.setDragModulationVehicleParams(cfg["veh"]["beta"], a["ratio"])
			o.setDragEntryPhaseParams(vs, low, 51, thr)
		else:
			o.setMaxRollRate(a["roll"])
			o.setEquilibriumGlideParams(75.0, 3.0, vs, low, 51, thr)
		peri, apo = (0.05 * p.RP + p.h_skip) / 1e3, (a["apo"] * p.RP + p.h_skip) / 1e3
		o.setTargetOrbitParams(peri, apo, 0.02 * apo)
		if a["drag"]:
			(o.propogateGuidedEntryD2 if two else o.propogateGuidedEntryD)(2.0, 5.0, 1.0, a["T"])
		else:
			(o.propogateGuidedEntry2 if two else o.propogateGuidedEntry)(4.0, 1.0, a["T"])
		r = {x: np.array(getattr(o, x), float) for x in FULL}
		for x in ("terminal_apoapsis", "terminal_periapsis", "periapsis_raise_DV", "apoapsis_raise_DV", "apoapsis_perc_error"):
			r[x] = getattr(o, x)
		return r
	raise KeyError(k)


def same(got, want, what):
	for k in want:
		a, b = np.asarray(got[k], float), np.asarray(want[k], float)
		require(a.shape == b.shape, "%s: %s has %s entries, %s on fresh objects" % (what, k, a.shape, b.shape))
		d = ~((a == b) | (np.isnan(a) & np.isnan(b)))
		sc = np.nanmax(np.abs(b)) if b.size and not np.all(np.isnan(b)) else 0.0
		if d.any() and not np.all(np.abs(a - b)[d] <= 1e-9 * sc + 1e-300):
			i = tuple(np.argwhere(d)[0])
			require(False, "%s: %s%s is %.12g, on fresh objects %.12g" % (what, k, list(i) if i else "", a[i] if i else float(a), b[i] if i else float(b)))


def show(op):
	return op["op"] + ("2" if op.get("two") else "") + (" (drag modulation)" if op.get("drag") else "")


def history(c):
	pid = c["planet"]
	p = gen.make_planet(pid)
	cfgs, objs, done = [], [], [set(), set()]
	for k in (0, 1):
		s = dict(c["s"][k], planet=pid)
		s["v"] = speed(p, s)
		h0 = s["h0f"] * p.h_skip
		s["gamma"] = gen.depth_gamma(pid, p, h0, s["v"] * 1e3, c["veh"][k]["beta"], c["depth"][k])
		cfgs.append(dict(planet=pid, veh=dict(c["veh"][k]), s=s, tol=1e-6))
		objs.append(fresh(cfgs[k], p)[1])
	drag = [False, False]
	deep = False
	log = []
	for op in c["ops"]:
		k = op["who"]
		o, cfg = objs[k], cfgs[k]
		log.append("%s on vehicle %d" % (show(op), k + 1))
		if op["op"] == "state":
			s = dict(cfg["s"], theta=op["theta"], phi=op["phi"], psi=op["psi"], gamma=max(-25.0, cfg["s"]["gamma"] - op["steeper"]), heat=op["heat"], drange=op["drange"])
			cfg["s"] = s
			o.setInitialState(s["h0f"] * p.h_skip / 1e3, s["theta"], s["phi"], s["v"], s["psi"], s["gamma"], s["drange"], s["heat"])
		elif op["op"] == "tol":
			cfg["tol"] = op["tol"]
			o.setSolverParams(op["tol"])
		else:
			if drag[k] and not op["drag"]:
				objs[k] = o = fresh(cfg, p)[1]
				drag[k] = False
			ctx = "after [%s]" % ", ".join(log)
			pf, of = fresh(cfg)
			nominal = {x: getattr(of, x) for x in NOM}
			rho = float(p.density_int(0.4 * p.h_skip))
			want = perform(pf, of, cfg, op)
			got = perform(p, o, cfg, op)
			same(got, want, ctx)
			loose = (("beta", "CD", "CL") if op["drag"] else ()) + (NOM[8:16] if op["op"] == "guided" else ())
			for x in NOM:
				require(x in loose or getattr(o, x) == nominal[x], "%s: the vehicle's %s is %r, was set to %r" % (ctx, x, getattr(o, x), nominal[x]))
			drag[k] |= op["drag"]
			if op["op"] == "guided":
				s = cfg["s"]
				o.setInitialState(s["h0f"] * p.h_skip / 1e3, s["theta"], s["phi"], s["v"], s["psi"], s["gamma"], s["drange"], s["heat"])
			require(float(p.density_int(0.4 * p.h_skip)) == rho, "%s: the planet's density model changed" % ctx)
			if len(done[k] | done[1 - k]) >= 2 and (done[0] | done[1]) - {op["op"]}:
				deep = True
		done[k].add(show(op))
	return deep


def searches(c):
	"""corridor searches in a row, with and without a solution in the interval, and a flight after them"""
	pid = c["planet"]
	p = gen.make_planet(pid)
	s = dict(c["s"], planet=pid)
	s["v"] = speed(p, s)
	s["gamma"] = gen.depth_gamma(pid, p, s["h0f"] * p.h_skip, s["v"] * 1e3, c["veh"]["beta"], c["depth"])
	cfg = dict(planet=pid, veh=dict(c["veh"]), s=s, tol=1e-6)
	o = fresh(cfg, p)[1]
	want = {x: getattr(o, x) for x in NOM}
	log, failed = [], 0
	for op in c["ops"]:
		log.append(("undershoot" if op["under"] else "overshoot") + show(op)[8:] + {0: "", 1: " in a shallow interval", -1: " in a steep interval"}[op["off"]])
		r = perform(p, o, cfg, op)
		failed += r["flag"] == 0
		for x in NOM:
			require((op["drag"] and x in ("beta", "CD", "CL")) or getattr(o, x) == want[x], "after searching [%s] (exit flag %r): the vehicle's %s is %r, was set to %r" % (", ".join(log), r["flag"], x, getattr(o, x), want[x]))
	fly = dict(op="fly", two=c["two"], T=300.0, delta=30.0, drag=False)
	pf, of = fresh(cfg)
	same(perform(p, o, cfg, fly), perform(pf, of, cfg, fly), "flight after searching [%s]" % ", ".join(log))
	return failed > 0


@st.composite
def search_case(draw):
	v = draw(gen.entry_vehicle())
	v["LD"] = draw(uni(0.1, 0.6))
	v["beta"] = draw(logu(40, 300))
	s = draw(gen.entry_state(vmin=1.02, vmax=1.25))
	s.pop("planet")
	s["h0f"] = draw(uni(0.8, 0.99))
	s["phi"] = draw(uni(-45, 45))
	ops = [dict(op="corridor", two=two, under=u, off=draw(st.sampled_from([0, 1, -1])), drag=False, ratio=1.0, T=600.0, apo=draw(logu(0.05, 20)))
		for u in draw(st.permutations([False, True])) for two in [draw(st.booleans())]]
	return dict(planet=draw(gen.planet_id()), veh=v, s=s, depth=draw(logu(0.03, 0.6)), ops=ops, two=draw(st.booleans()))


@st.composite
def case(draw):
	def vs():
		v = draw(gen.entry_vehicle())
		v["LD"] = draw(uni(0.1, 0.6))
		v["beta"] = draw(logu(40, 300))
		s = draw(gen.entry_state(vmin=1.02, vmax=1.25))
		s.pop("planet")
		s["h0f"] = draw(uni(0.8, 0.99))
		s["phi"] = draw(uni(-45, 45))
		return v, s

	a, b = vs(), vs()
	ops = []
	for _ in range(draw(st.integers(2, 6))):
		op = draw(st.sampled_from(["fly", "fly", "judge", "corridor", "guided", "guided", "state", "tol"]))
		d = dict(op=op, who=draw(st.sampled_from([0, 0, 1])), two=draw(st.booleans()))
		if op == "state":
			d.update(theta=draw(uni(-180, 180)), phi=draw(uni(-45, 45)), psi=draw(uni(0, 360)), steeper=draw(uni(0, 1)), heat=draw(st.one_of(st.just(0.0), uni(0, 1e4))), drange=draw(uni(0, 500)))
		elif op == "tol":
			d.update(tol=draw(st.sampled_from([1e-5, 1e-6, 1e-7])))
		else:
			d.update(T=draw(st.sampled_from([600.0, 1200.0])), delta=draw(st.sampled_from([0.0, 60.0, 180.0])), apo=draw(logu(0.05, 20)), drag=op in ("corridor", "guided") and draw(st.booleans()),
					ratio=draw(uni(1.5, 8)), under=draw(st.booleans()), off=draw(st.sampled_from([0, 0, 1, -1])), vsw=draw(uni(0.6, 0.95)), roll=draw(logu(3, 60)))
		ops.append(d)
	ops.append(dict(draw(st.sampled_from([o for o in ops if o["op"] not in ("state", "tol")] or [dict(op="fly", who=0, two=False, T=600.0, delta=0.0, drag=False)])), who=draw(st.sampled_from([0, 1]))))
	return dict(planet=draw(gen.planet_id()), veh=[a[0], b[0]], s=[a[1], b[1]], depth=[draw(logu(0.03, 0.6)), draw(logu(0.03, 0.6))], ops=ops)


SUBS = [
	Sub("history", case(), history, 80, 5000, shards=6),
	Sub("searches", search_case(), searches, 100, 5000, shards=2),
]
