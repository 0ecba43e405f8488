"""P16: drag-modulated guided aerocapture (low ballistic coefficient until jettison, then the high one)."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, close, require
from pbt.gen import logu, uni
from pbt.guided import Flight
from pbt.props.p15_guided import stops

RULE = ("one case = body, vehicle, low ballistic coefficient and ratio, entry state, switch speed, target orbit, cycle and solver steps; non-trivial = "
		"at least 20 cycles, both phases ran and the flight loses more than 1 % of its speed in each")
ASSUMPTIONS = ["the jettison is not judged when the reference prediction lies within 3 % of the deciding value",
			"at most 60 cycles of a flight are re-integrated (all of them are checked for continuity, loads and stopping rule)"]


def drag(c):
	Flight.step0 = c["step"]
	pid = c["s"]["planet"]
	p = gen.make_planet(pid)
	V = dict(c["veh"])
	o = gen.make_vehicle(p, V)
	s = dict(c["s"])
	x0 = gen.start(p, s)
	b1, b2 = c["beta1"], c["beta1"] * c["ratio"]
	s["gamma"] = gen.depth_gamma(pid, p, x0[0] - p.RP, x0[3], b1, c["depth"])
	x0 = gen.start(p, s)
	rho = gen.rho_fn(pid, p)
	if not rho(x0[0] - p.RP) > 0:
		return False
	o.setInitialState((x0[0] - p.RP) / 1e3, s["theta"], s["phi"], x0[3] / 1e3, s["psi"], s["gamma"], s["drange"], s["heat"])
	o.setSolverParams(1e-8)
	vs = c["vsw"] * x0[3] / 1e3
	low = c["low"] * p.h_skip / 1e3
	thr = c["thr"] * x0[3] * np.sin(-s["gamma"] * np.pi / 180)
	o.setDragModulationVehicleParams(b1, c["ratio"])
	o.setDragEntryPhaseParams(vs, low, c["npts"], thr)
	peri, apo = 0.05 * p.RP / 1e3 + p.h_skip / 1e3, c["apo"] * p.RP / 1e3 + p.h_skip / 1e3
	tol = c["atol"] * apo
	o.setTargetOrbitParams(peri, apo, tol)
	keep = {k: getattr(o, k) for k in ("mass", "LD", "A", "RN", "beta1", "betaRatio")}
	(o.propogateGuidedEntryD if c["variant"] == 1 else o.propogateGuidedEntryD2)(c["step"], c["step2"], c["dt"], c["T"])
	for k in keep:
		require(getattr(o, k) == keep[k], "the guided entry changed the vehicle's %s" % k)
	F = Flight(o, p, pid, V, "en", rho)
	n, ne = F.ncyc, F.nfirst
	sc = np.array([p.RP, 1, 1, 1e4, 1, 1, p.RP])
	close(F.Y[:, 0] / sc, x0 / sc, "first point of the guided flight", rtol=1e-9, atol=1e-10)
	close(F.F["heatload"][0], s["heat"], "initial heat load", rtol=1e-9)
	F.continuity()
	F.grid(1.0, lambda k: c["step"] if k < ne else c["step2"], c["dt"])
	C1, C2 = V["mass"] / (b1 * V["A"]), V["mass"] / (b2 * V["A"])
	CD = lambda k: C1 if k < ne else C2
	CL = lambda k: 0.0
	F.loads(CD, CL)
	require(np.all(F.delta == 0.0), "a drag-modulated flight records bank angles")
	pick = sorted(set([-1, 0, 1, ne - 2, ne - 1, ne, ne + 1, n - 2, n - 1]) | set(range(c["off"] % 7, n, max(1, n // 45))))
	F.motion([k for k in pick if -1 <= k < n], CD, CL, 0.0 if c["variant"] == 1 else 5e-4)
	for k in range(ne):
		close(o.hdot_array[k + 1], F.hdot(k), "recorded altitude rate of cycle %d" % k, rtol=1e-6, atol=1e-3)
		close(o.h_step_array[k + 1], (F.start(k)[0] - p.RP) / 1e3, "recorded altitude of cycle %d" % k, rtol=1e-9)
		a, b = F.seg[k + 1]
		va, vb = F.Y[3, a], F.Y[3, b - 1]
		close(o.density_mes_array[k + 1], rho(F.Y[0, b - 1] - p.RP) * (vb / (0.5 * (va + vb))) ** 2, "measured density of cycle %d" % k, rtol=1e-4)
	i = F.m - 1
	close([o.t_switch, o.h_switch, o.v_switch], [F.F["t_min"][i], F.F["h_km"][i], F.F["v_kms"][i]], "time, altitude and speed at jettison", rtol=1e-9)
	stops(F, o, p, c, ne, vs, thr, apo, tol, 1e3, C2, 0.0, low)
	for k in range(ne, n):
		h0, h1 = F.start(k)[0] - p.RP, F.end(k)[0] - p.RP
		last = k == n - 1
		done = h0 > p.h_skip - 1e3 or h0 < 20e3 or h1 >= p.h_skip or not F.full(k, c["step2"], c["dt"])
		if abs(h0 - p.h_skip + 1e3) < 1.0 or abs(h0 - 20e3) < 1.0 or F.brink(k, c["step2"], c["dt"]):
			continue
		require(done == last, "the exit phase %s after cycle %d (altitude %g to %g km)" % ("ends" if last else "goes on", k, h0 / 1e3, h1 / 1e3))
	if n == ne:
		require(F.Y[0, -1] - p.RP >= p.h_skip, "there is no exit phase though the vehicle is still in the atmosphere")
	F.terminal(peri, apo)
	return n >= 20 and ne >= 2 and n > ne and F.Y[3, i] < 0.99 * x0[3] and abs(F.Y[3, -1] / F.Y[3, i] - 1) > 0.003


@st.composite
def case(draw):
	s = draw(gen.entry_state(vmin=1.03, vmax=1.25))
	s["h0f"] = draw(uni(0.8, 0.99))
	s["phi"] = draw(uni(-45, 45))
	v = draw(gen.entry_vehicle())
	v["LD"] = 0.0
	return dict(s=s, veh=v, depth=draw(logu(0.05, 1.5)), beta1=draw(logu(15, 150)), ratio=draw(uni(1.3, 10)), vsw=draw(uni(0.5, 0.9)),
				low=draw(uni(0.1, 0.2)), npts=draw(st.sampled_from([51, 101])), thr=-draw(uni(0.02, 0.4)), apo=draw(logu(0.05, 20)), atol=draw(st.one_of(uni(0.005, 0.1), uni(0.1, 0.6))),
				step=draw(st.sampled_from([1.0, 2.0])), step2=draw(st.sampled_from([1.0, 2.0, 5.0])), dt=draw(st.sampled_from([0.5, 1.0])),
				T=draw(st.sampled_from([1200.0, 2400.0])), variant=draw(st.sampled_from([1, 2])), off=draw(st.integers(0, 6)))


SUBS = [Sub("drag", case(), drag, 72, 4000, shards=8)]
