"""P15: lift-modulated guided aerocapture (equilibrium glide, then exit phase)."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, close, finite, require
from pbt.gen import logu, uni
from pbt.guided import D, Flight
from pbt.props.p14_guidanceparts import make_measured

RULE = ("one case = body, vehicle, entry state, guidance gains, switch speed, roll-rate limit, target orbit, cycle and solver steps; non-trivial = "
		"the flight has at least 20 cycles, the bank command is neither always 0 nor always 180 deg, and both phases ran")
ASSUMPTIONS = ["the phase switch is not judged when the reference prediction lies within 3 % of the deciding value",
			"at most 60 cycles of a flight are re-integrated (all of them are checked for continuity, loads, bank law and stopping rule)"]


def law(F, o, p, k, c, prev):
	"""interval of the admissible bank angle in cycle k of the glide phase"""
	V = F.veh
	y = F.start(k)
	CL = V["mass"] / (V["beta"] * V["A"]) * V["LD"]
	g0 = p.GM / p.RP ** 2
	q = 0.5 * F.rho(y[0] - p.RP) * y[3] ** 2
	f = 1 - y[3] ** 2 / (g0 * y[0])
	qref = -V["mass"] * g0 / (0.75 * CL * V["A"]) * f
	e = V["mass"] * g0 / (CL * q * V["A"]) * f
	h = c["Ghdot"] * y[3] * np.sin(y[5]) / q
	g = c["Gq"] * (q - qref) / q
	x = e - h + g
	err = 3e-5 * (abs(e) + abs(h) + abs(c["Gq"]) + abs(g) + abs(c["Gq"] * qref / q)) + 1e-9
	ang = sorted(np.arccos(np.clip(z, -1, 1)) / D for z in (x - err, x + err))
	reach = c["roll"] * c["step"]
	return [prev + np.clip(a - prev, -reach, reach) for a in ang], q, qref


def run(c):
	pid = c["s"]["planet"]
	p = gen.make_planet(pid)
	V = c["veh"]
	o = gen.make_vehicle(p, V)
	s = dict(c["s"])
	x0 = gen.start(p, s)
	s["gamma"] = gen.depth_gamma(pid, p, x0[0] - p.RP, x0[3], V["beta"], c["depth"])
	x0 = gen.start(p, s)
	rho = gen.rho_fn(pid, p)
	if not rho(x0[0] - p.RP) > 0:
		return False
	o.setInitialState((x0[0] - p.RP) / 1e3, s["theta"], s["phi"], x0[3] / 1e3, s["psi"], s["gamma"], s["drange"], s["heat"])
	o.setSolverParams(1e-8)
	o.setMaxRollRate(c["roll"])
	vs = c["vsw"] * x0[3] / 1e3
	low = c["low"] * p.h_skip / 1e3
	thr = c["thr"] * x0[3] * np.sin(-s["gamma"] * D)
	o.setEquilibriumGlideParams(c["Ghdot"], c["Gq"], vs, low, c["npts"], thr)
	peri, apo = 0.05 * p.RP / 1e3 + p.h_skip / 1e3, c["apo"] * p.RP / 1e3 + p.h_skip / 1e3
	tol = c["atol"] * apo
	o.setTargetOrbitParams(peri, apo, tol)
	keep = {k: getattr(o, k) for k in ("mass", "beta", "LD", "A", "RN", "CD", "CL")}
	(o.propogateGuidedEntry if c["variant"] == 1 else o.propogateGuidedEntry2)(c["step"], c["dt"], c["T"])
	for k in keep:
		require(getattr(o, k) == keep[k], "the guided entry changed the vehicle's %s" % k)
	F = Flight(o, p, pid, V, "eg", rho)
	n, ne = F.ncyc, F.nfirst
	require(abs(F.t[0]) < 1e-12, "the flight starts at t = %g" % F.t[0])
	sc = np.array([p.RP, 1, 1, 1e4, 1, 1, p.RP])
	close(F.Y[:, 0] / sc, x0 / sc, "first point of the guided flight", rtol=1e-9, atol=1e-10)
	close(F.F["heatload"][0], s["heat"], "initial heat load", rtol=1e-9)
	F.continuity()
	F.grid(1.0, lambda k: c["step"], c["dt"])
	CD = V["mass"] / (V["beta"] * V["A"])
	CL = CD * V["LD"]
	F.loads(lambda k: CD, lambda k: CL)
	pick = sorted(set([-1, 0, 1, ne - 2, ne - 1, ne, ne + 1, n - 2, n - 1]) | set(range(c["off"] % 7, n, max(1, n // 45))))
	F.motion([k for k in pick if -1 <= k < n], lambda k: CD, lambda k: CL, 0.0 if c["variant"] == 1 else 5e-4)
	# bank commands
	prev = 0.0
	for k in range(ne):
		(lo, hi), q, qref = law(F, o, p, k, c, prev)
		got = F.delta[k + 1]
		require(lo - 1e-6 <= got <= hi + 1e-6, "cycle %d of the glide phase flies bank %.9g deg, the guidance law gives %.9g to %.9g (previous %.6g)" % (k, got, lo, hi, prev))
		close(o.hdot_array[k + 1], F.hdot(k), "recorded altitude rate of cycle %d" % k, rtol=1e-6, atol=1e-3)
		close(o.q_array[k + 1], q, "recorded dynamic pressure of cycle %d" % k, rtol=1e-4)
		close(o.qref_array[k + 1], qref, "recorded reference dynamic pressure of cycle %d" % k, rtol=1e-6)
		close(o.h_step_array[k + 1], (F.start(k)[0] - p.RP) / 1e3, "recorded altitude of cycle %d" % k, rtol=1e-9)
		a, b = F.seg[k + 1]
		va, vb = F.Y[3, a], F.Y[3, b - 1]
		close(o.density_mes_array[k + 1], rho(F.Y[0, b - 1] - p.RP) * (vb / (0.5 * (va + vb))) ** 2, "measured density of cycle %d" % k, rtol=1e-4)
		prev = got
	for k in range(ne, n):
		want = prev - np.clip(prev, -c["roll"] * c["step"], c["roll"] * c["step"])
		close(F.delta[k + 1], want, "bank of exit-phase cycle %d (rolling to lift-up)" % k, rtol=1e-9, atol=1e-6)
		prev = F.delta[k + 1]
	# the switch
	i = F.m - 1
	close([o.t_switch, o.h_switch, o.v_switch], [F.F["t_min"][i], F.F["h_km"][i], F.F["v_kms"][i]], "time, altitude and speed at the phase switch", rtol=1e-9)
	close(o.p_switch, F.delta[ne], "bank angle at the phase switch", rtol=1e-9, atol=1e-9)
	stops(F, o, p, c, ne, vs, thr, apo, tol, 2e3, CD, CL, low)
	# end of the exit phase
	for k in range(ne, n):
		h0, h1 = F.start(k)[0] - p.RP, F.end(k)[0] - p.RP
		last = k == n - 1
		done = h0 > p.h_skip - 10e3 or h1 >= p.h_skip or not F.full(k, c["step"], c["dt"])
		if abs(h0 - p.h_skip + 10e3) < 1.0 or F.brink(k, c["step"], c["dt"]):
			continue
		require(done == last, "the exit phase %s after cycle %d (altitude %g to %g km)" % ("ends" if last else "goes on", k, h0 / 1e3, h1 / 1e3))
	if n == ne:
		require(F.Y[0, -1] - p.RP >= p.h_skip, "there is no exit phase though the vehicle is still in the atmosphere")
	F.terminal(peri, apo)
	b = F.delta[1:ne + 1]
	return n >= 20 and ne >= 2 and n > ne and bool(np.any((b > 1) & (b < 179)))


def stops(F, o, p, c, ne, vs, thr, apo, tol, margin, CDp, CLp, low):
	"""the first phase goes on while it should and ends for a reason"""
	if ne == 0:
		require(F.Y[3, F.m - 1] <= vs * 1e3 * (1 + 1e-9), "the first phase has no cycle though the speed is above the switch speed")
		return
	hd = np.array([F.hdot(k) for k in range(ne)])
	armed = np.where(hd > thr)[0]
	k0 = armed[0] if len(armed) else None
	if k0 is not None and abs(hd[k0] - thr) < 1e-6 * abs(thr) + 1e-3:
		return
	dens = None
	if k0 is not None and k0 >= 1:
		hk = o.h_step_array[1:k0 + 2]
		if low * 1e3 < hk.min() * 1e3 - 1500:
			try:
				dens = make_measured(p, hk, o.density_mes_array[1:k0 + 2], low, c["npts"])[0]
			except Exception:
				dens = None
	look = {ne - 1} | set(range(ne - 2, max(-1, ne - 5), -1)) | ({int(k0), (int(k0) + ne) // 2} if k0 is not None else set())
	for k in range(ne):
		a, b = F.start(k), F.end(k)
		last = k == ne - 1
		require(a[3] > vs * 1e3 * (1 - 1e-9), "guidance cycle %d of the first phase starts at %.6g km/s, below the switch speed %.6g" % (k, a[3] / 1e3, vs))
		hard = b[3] <= vs * 1e3 or b[0] - p.RP > p.h_skip - margin or not F.full(k, F.step0, c["dt"])
		soft = min(abs(b[3] - vs * 1e3) / 1e4, abs(b[0] - p.RP - p.h_skip + margin) / 1e6) < 1e-8
		if soft or F.brink(k, F.step0, c["dt"]):
			continue
		if hard:
			require(last, "the first phase goes on after cycle %d at %.6g km/s, %.6g km (switch speed %.6g km/s)" % (k, b[3] / 1e3, (b[0] - p.RP) / 1e3, vs))
			continue
		if hd[k] <= thr:
			require(not last, "the first phase ends after cycle %d without a reason (altitude rate %.6g m/s, threshold %.6g m/s)" % (k, hd[k], thr))
			continue
		if dens is None or k not in look:
			continue
		rho_m = lambda h: (0.0 if h > p.h_thres else float(dens(h))) if h >= 0 else p.rho0
		A = [F.predict(b * np.array([1, 1, 1, z, 1, 1, 1]), rho_m, c["T"], CDp, CLp) for z in (1 - 2e-4, 1.0, 1 + 2e-4)]

		def stop(x):
			return (0 < x < apo) or abs(x - apo) < tol
		lo = min(min(A) * 0.97 - 10, min(A) * 1.03 - 10)
		hi = max(A) * 1.03 + 10
		w = {stop(x) for x in (lo, hi, A[1])}
		if len(w) == 2 or lo <= 0 or A[1] < 200:
			continue
		w = w.pop()
		require(w == last, "cycle %d: flying on lift-up/after jettison leads to an apoapsis of %.6g km (target %.6g km), but the first phase %s" % (
			k, A[1], apo, "ends" if last else "goes on"))


@st.composite
def case(draw):
	s = draw(gen.entry_state(vmin=1.03, vmax=1.25, gmin=-13.0, gmax=-5.0))
	s["h0f"] = draw(uni(0.8, 0.99))
	s["phi"] = draw(uni(-45, 45))
	v = draw(gen.entry_vehicle())
	v["LD"] = draw(uni(0.1, 0.8))
	v["beta"] = draw(logu(40, 300))
	dt = draw(st.sampled_from([0.5, 1.0]))
	return dict(s=s, veh=v, depth=draw(logu(0.03, 1.2)), roll=draw(logu(3, 60)), Ghdot=draw(uni(20, 120)), Gq=draw(uni(0.5, 6)), vsw=draw(uni(0.55, 0.95)), low=draw(uni(0.1, 0.2)),
				npts=draw(st.sampled_from([51, 101])), thr=-draw(uni(0.02, 0.4)), apo=draw(logu(0.05, 20)), atol=draw(uni(0.005, 0.1)),
				step=draw(st.sampled_from([1.0, 2.0, 3.0])), dt=dt, T=draw(st.sampled_from([1200.0, 2400.0])),
				variant=draw(st.sampled_from([1, 2])), off=draw(st.integers(0, 6)))


def lift(c):
	Flight.step0 = c["step"]
	return run(c)


SUBS = [Sub("lift", case(), lift, 64, 4000, shards=8)]
