"""P10: propagating an entry: full histories, cut-off, loads, heat load, chaining, no side effects."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, close, fail, finite, require
from pbt.gen import uni
from pbt.props.p05_heating import q_con, q_rad

RULE = ("one case = body, vehicle, entry state (any position, heading, initial downrange and heat load), bank angle, solver variant, "
		"flight time past or short of the exit/impact; non-trivial = the flight loses more than 1 % of its speed")
ASSUMPTIONS = ["flights steeper than 80 deg are compared only up to that point",
			"flights whose cut-off altitude crossing falls within 0.02 time steps of a grid point are not judged on the cut index"]

D2R = np.pi / 180
STATE = ("h0_km", "theta0_deg", "phi0_deg", "v0_kms", "psi0_deg", "gamma0_deg", "drange0_km", "heatLoad0")
KEEP = STATE + ("mass", "beta", "LD", "A", "alpha", "RN", "CD", "CL", "Abar", "mbar", "tol")
PK = ("RP", "GM", "OMEGA", "OMEGAbar", "J2", "J3", "h_thres", "h_skip", "h_trap", "h_low", "rho0", "CPCV", "Vref", "tau")


def snap(o):
	return {k: getattr(o, k) for k in KEEP}, {k: getattr(o.planetObj, k) for k in PK}, o.planetObj.density_int


def same(o, s, what):
	n = snap(o)
	for a, b in ((s[0], n[0]), (s[1], n[1])):
		for k in a:
			require(a[k] == b[k], "%s changed %s from %r to %r" % (what, k, a[k], b[k]))
	require(s[2] is n[2], "%s replaced the density model" % what)


def build(c, kind="cubic"):
	pid = c["s"]["planet"]
	p = gen.make_planet(pid, kind=kind)
	if c.get("skipf"):
		# an entry from this altitude itself would start inside or outside by rounding
		p.h_skip = p.h_skip * c["skipf"]
		c["s"] = dict(c["s"], h0f=min(c["s"]["h0f"], 0.99999))
	o = gen.make_vehicle(p, c["veh"])
	x0 = gen.start(p, c["s"])
	s = c["s"]
	st0 = ((x0[0] - p.RP) / 1e3, s["theta"], s["phi"], x0[3] / 1e3, s["psi"], s["gamma"], s["drange"], s["heat"])
	o.setInitialState(*st0)
	o.setSolverParams(c["tol"])
	return p, o, x0, st0


def reference(c, p, x0, delta, T, scale=1.0):
	"""reference flight until trapped / 80 deg steep / slow / well outside the atmosphere, and why it stopped"""
	V = c["veh"]
	r0 = gen.rho_fn(c["s"]["planet"], p)
	rho = (lambda h: scale * r0(h)) if scale != 1.0 else r0
	CD = V["mass"] / (V["beta"] * V["A"])
	stop = lambda y: min((y[0] - p.RP - p.h_trap) / 1e3 + 2.0, (p.h_skip * 1.2 - (y[0] - p.RP)) / 1e3, (y[3] - 0.12 * x0[3]) / 10,
						80 - abs(y[5]) / D2R, 86 - abs(y[2]) / D2R)
	k = dict(rtol=1e-10)
	return stop, lambda TT, te=None, eps=0.01, sp=None, xi=None: ref.fly(x0 if xi is None else xi, TT, ref.pconst(p), rho, V["mass"], V["A"], CD, CD * V["LD"], delta, eps=eps,
																t_eval=te, stop=sp, **k)


def agree(t, Y, fly, p, x0, tol, what):
	"""Y (7, n) SI against the reference"""
	a, b = fly(t[-1], t).y, fly(t[-1], t, 0.0).y
	sc = np.array([p.RP, 1, 1, x0[3], 1, 1, p.RP])[:, None]
	gap = np.maximum.accumulate(np.max(np.abs(a - b) / sc, axis=0))
	lim = (5e-5 if tol <= 1e-8 else 6e-4) + 1.5 * gap
	if tol > 1e-8:
		# what an error of a few solver tolerances at the start grows to
		d = fly(t[-1], t, 0.01, None, x0 + 5 * tol * np.array([p.RP, 0, 0, x0[3], 0, 1, 0])).y
		if d.shape != a.shape:
			return
		lim = lim + 2 * np.maximum.accumulate(np.max(np.abs(a - d) / sc, axis=0))
	err = np.abs(Y - a) / sc
	if np.any(err > lim[None, :]):
		k, j = np.argwhere(err > lim[None, :])[0]
		nm = ("radius", "longitude", "latitude", "speed", "heading", "flight-path angle", "downrange")[k]
		fail("%s: %s at t=%.6g s is %.9g, reference %.9g (scaled error %.3g, allowed %.3g)" % (what, nm, t[j], Y[k, j], a[k, j], err[k, j], lim[j]))


def post(pid, p, V, t, r, v, delta, heat0, out, what, scale=1.0):
	"""loads, pressures, heating of the reported states"""
	h = r - p.RP
	P, rho = gen.spline(pid, "cubic", 1)(h), scale * gen.spline(pid, "cubic", 2)(h)
	CD = V["mass"] / (V["beta"] * V["A"])
	q = 0.5 * rho * v ** 2
	aD = q * V["A"] * CD / V["mass"] / 9.80665
	net = aD * np.hypot(1.0, V["LD"])
	con, rad = q_con(pid, rho, v, V["RN"]), q_rad(pid, rho, v, V["RN"])
	if pid in ("VENUS", "EARTH"):
		near = np.abs(v - np.round(v / 1e3) * 1e3) < 1e-3
	else:
		near = np.zeros(len(v), bool)
	kw = lambda w: dict(rtol=5e-5, atol=1e-9 * float(np.max(np.abs(w))) + 1e-300)
	close(out["net"], net, what + ": net acceleration (g)", **kw(net))
	close(out["drag"], aD, what + ": drag acceleration (g)", **kw(aD))
	close(out["dyn"], q / 101325.0, what + ": dynamic pressure (atm)", **kw(q))
	close(out["stag"], (P + q) / 101325.0, what + ": stagnation pressure (atm)", **kw(P + q))
	tot = con + rad
	if "con" in out:
		close(out["con"], con, what + ": convective heating", **kw(tot))
		close(np.asarray(out["rad"])[~near], rad[~near], what + ": radiative heating", **kw(tot))
	close(np.asarray(out["q"])[~near], tot[~near], what + ": heating rate", **kw(tot))
	qr = np.asarray(out["q"], float)
	J = heat0 + np.concatenate(([0.0], np.cumsum(0.5 * (qr[1:] + qr[:-1]) * np.diff(t))))
	close(out["J"], J, what + ": heat load accumulated from the initial heat load", rtol=1e-6, atol=1e-6 * (J[-1] - heat0) + 1e-12)


def flight(c):
	p, o, x0, st0 = build(c)
	pid, V = c["s"]["planet"], c["veh"]
	delta = c["delta"] * D2R
	stop, fly = reference(c, p, x0, delta, None)
	R = fly(c["T"], None, 0.01, stop)
	Te, dt = R.t[-1], c["dt"]
	y = R.y[:, -1]
	steep = abs(y[5]) / D2R > 78 or abs(y[2]) / D2R > 84 or y[3] < 0.13 * x0[3]
	if R.status == 1 and not steep:
		T = Te + c["extra"]          # past the exit or the trap altitude
	else:
		T = 0.97 * Te
	T = np.floor(T / dt) * dt
	if T < 4 * dt:
		return False
	s = snap(o)
	(o.propogateEntry if c["solver"] == 1 else o.propogateEntry2)(T, dt, c["delta"])
	same(o, s, "propagating an entry")
	names = ("tc", "rc", "thetac", "phic", "vc", "psic", "gammac", "drangec", "t_minc", "h_kmc", "v_kmsc", "phi_degc", "psi_degc", "theta_degc",
			"gamma_degc", "drange_kmc", "acc_net_g", "acc_drag_g", "dyn_pres_atm", "stag_pres_atm", "q_stag_con", "q_stag_rad", "q_stag_total", "heatload")
	G = {k: finite(getattr(o, k), k) for k in names}
	n = len(G["tc"])
	require(n == int(o.index) and n > 0, "histories have %d points, cut index is %r" % (n, o.index))
	for k in names:
		require(G[k].shape == (n,), "history %s has shape %s, expected %d points" % (k, G[k].shape, n))
	t = G["tc"]
	close(t, np.arange(n) * dt, "time history", rtol=1e-6, atol=1e-6 * dt)
	# display units are the same histories
	for a, b, f, off in (("t_minc", "tc", 1 / 60., 0), ("h_kmc", "rc", 1e-3, p.RP), ("v_kmsc", "vc", 1e-3, 0), ("phi_degc", "phic", 1 / D2R, 0), ("psi_degc", "psic", 1 / D2R, 0),
						("theta_degc", "thetac", 1 / D2R, 0), ("gamma_degc", "gammac", 1 / D2R, 0), ("drange_kmc", "drangec", 1e-3, 0)):
		close(G[a], (G[b] - off) * f, "history %s in display units" % a, rtol=1e-9, atol=1e-9)
	# against the reference motion
	Y = np.array([G[k] for k in ("rc", "thetac", "phic", "vc", "psic", "gammac", "drangec")])
	close(Y[:, 0], x0, "first point of the flight", rtol=1e-10, atol=1e-9 * np.array([p.RP, 1, 1, 1, 1, 1, p.RP]))
	agree(t, Y, fly, p, x0, c["tol"], "flight")
	# classification and cut, from the reference
	h = Y[0] - p.RP
	require(np.all(h <= p.h_skip + 1e-6) and np.all(h >= p.h_trap - 1e-6), "a reported point lies outside the cut-off altitudes")
	g = fly(t[-1] + 1.5 * dt, np.array([t[-1], t[-1] + dt]), 0.01).y[0] - p.RP
	known = len(g) == 2                    # else the reference ends in between (dives below the surface)
	g = g if known else np.array([g[0], g[0]])
	m = 0.02 * abs(g[1] - g[0]) + 50.0 + 6e-4 * p.RP * (c["tol"] > 1e-8) + 5e-5 * p.RP * 0.2
	ended = n < int(round(T / dt)) + 1
	if not known:
		pass
	elif ended:
		if g[1] > p.h_skip - m:
			require(o.exitflag == 1.0, "exit flag %r for a flight that left the atmosphere" % o.exitflag)
		elif g[1] < p.h_trap + m:
			require(o.exitflag == -1.0, "exit flag %r for a flight that reached the trap altitude" % o.exitflag)
		else:
			fail("flight cut at t=%.6g s at altitude %.6g km although the next point, %.6g km, is inside the atmosphere" % (t[-1], g[0] / 1e3, g[1] / 1e3))
	else:
		if o.exitflag != 0.0:
			require(g[1] > p.h_skip - m or g[1] < p.h_trap + m, "exit flag %r for a flight that is still inside the atmosphere" % o.exitflag)
	if R.status == 1 and not steep and c["extra"] > 5 * dt:
		want = 1.0 if y[0] - p.RP > 0.5 * (p.h_trap + p.h_skip) else -1.0
		require(o.exitflag == want, "exit flag %r, the reference flight ends at %.6g km" % (o.exitflag, (y[0] - p.RP) / 1e3))
	post(pid, p, V, t, Y[0], Y[3], delta, c["s"]["heat"], dict(net=G["acc_net_g"], drag=G["acc_drag_g"], dyn=G["dyn_pres_atm"], stag=G["stag_pres_atm"],
		con=G["q_stag_con"], rad=G["q_stag_rad"], q=G["q_stag_total"], J=G["heatload"]), "flight")
	return bool(Y[3].min() < 0.99 * x0[3])


def case_strategy():
	return st.fixed_dictionaries(dict(s=gen.entry_state(), veh=gen.entry_vehicle(), delta=st.one_of(uni(-180, 180), uni(-400, 400), st.sampled_from([0.0, 180.0])),
		solver=st.sampled_from([1, 2]), tol=st.sampled_from([1e-6, 1e-8, 1e-9]), T=st.one_of(uni(50, 2500), uni(20, 300)), dt=st.sampled_from([0.5, 1.0, 2.0, 0.25]),
		extra=uni(0, 60), skipf=st.one_of(st.none(), st.none(), uni(0.75, 1.0))))


RET = ("t", "h", "v", "phi", "psi", "theta", "gamma", "drange", "flag", "net", "dyn", "stag", "q", "J", "drag")


def util(c):
	"""the predictor: any start state, any density model, no side effects; and legs flown one after the other"""
	p, o, x0, st0 = build(c)
	pid, V = c["s"]["planet"], c["veh"]
	# the vehicle's own initial state is something else
	o.setInitialState(st0[0] * 0.99, 1.0, 2.0, st0[3] * 0.9, 3.0, -4.0, 5.0, 6.0)
	delta = c["delta"] * D2R
	k = c["rho"]
	stop, fly = reference(c, p, x0, delta, None, scale=k)
	R = fly(c["T"], None, 0.01, lambda y: min(stop(y), (p.h_skip * 0.999 - (y[0] - p.RP)) / 1e3 if y[5] > 0 else 1e9, (y[0] - p.RP - p.h_trap) / 1e3 - 2))
	dt = c["dt"]
	T = np.floor(0.97 * R.t[-1] / dt) * dt - dt
	if T < 6 * dt:
		return False
	f0 = p.density_int
	f = f0 if k == 1.0 else (lambda h: k * f0(h))
	s = snap(o)
	fn = o.propogateEntry_util if c["solver"] == 1 else o.propogateEntry_util2
	H0, th, ph, v0, ps, ga, dr, q0 = st0

	def leg(hh, tt, pp, vv, gg, ss, dd, qq, TT):
		out = fn(hh, tt, pp, vv, gg, ss, dd, qq, TT, dt, c["delta"], f)
		require(len(out) == 15, "predictor returned %d items" % len(out))
		d = dict(zip(RET, out))
		n = len(d["t"])
		for kk in RET:
			if kk != "flag":
				d[kk] = finite(d[kk], kk)
				require(d[kk].shape == (n,), "predicted history %s has shape %s, expected %d" % (kk, d[kk].shape, n))
		return d
	d = leg(H0, th, ph, v0, ga, ps, dr, q0, T)
	same(o, s, "a prediction")
	t = d["t"] * 60
	close(t, np.arange(len(t)) * dt, "predicted time history", rtol=1e-6, atol=1e-6 * dt)
	require(abs(t[-1] - T) <= 1.001 * dt and d["flag"] == 0.0, "prediction ended at %.6g s with flag %r, requested %.6g s" % (t[-1], d["flag"], T))
	Y = np.array([d["h"] * 1e3 + p.RP, d["theta"] * D2R, d["phi"] * D2R, d["v"] * 1e3, d["psi"] * D2R, d["gamma"] * D2R, d["drange"] * 1e3])
	agree(t, Y, fly, p, x0, c["tol"], "prediction")
	post(pid, p, V, t, Y[0], Y[3], delta, q0, d, "prediction", scale=k)
	# two legs equal one flight
	n1 = 2 + int(c["split"] * (len(t) - 6))
	a = leg(H0, th, ph, v0, ga, ps, dr, q0, n1 * dt)
	j = min(n1, len(a["t"]) - 1)
	b = leg(a["h"][j], a["theta"][j], a["phi"][j], a["v"][j], a["gamma"][j], a["psi"][j], a["drange"][j], a["J"][j], T - j * dt)
	m = min(len(b["t"]), len(t) - j)
	tol = 1e-4 if c["tol"] <= 1e-8 else 2e-3
	Z = np.array([b["h"] * 1e3 + p.RP, b["theta"] * D2R, b["phi"] * D2R, b["v"] * 1e3, b["psi"] * D2R, b["gamma"] * D2R, b["drange"] * 1e3])
	sc = np.array([p.RP, 1, 1, x0[3], 1, 1, p.RP])[:, None]
	close((Z / sc)[:, :m], (Y / sc)[:, j:j + m], "second leg of a flight in two legs", atol=tol)
	J1, J0 = b["J"][m - 1], d["J"][j + m - 1]
	close(J1, J0, "heat load after two legs", rtol=50 * tol, atol=50 * tol * max(J0 - q0, 1e-9))
	same(o, s, "a prediction")
	return bool(Y[3].min() < 0.99 * x0[3])


@st.composite
def util_case(draw):
	c = draw(case_strategy())
	c["rho"] = draw(st.one_of(st.just(1.0), uni(0.5, 2.0)))
	c["split"] = draw(uni(0, 1))
	return c


SUBS = [
	Sub("flight", case_strategy(), flight, 160, 6000, shards=6),
	Sub("predictor", util_case(), util, 100, 4000, shards=4),
]
