"""P20: orbit after aerocapture: coast, periapsis raise, probe targeting and orbiter deflection."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, angle_close, close, finite, require
from pbt.gen import logu, uni

RULE = ("one case = body, exit state of a flight that ends captured, target periapsis, manoeuvre points and sizes; non-trivial = the exit orbit is "
		"captured with eccentricity above 0.02 and inclined by more than 1 degree")
ASSUMPTIONS = ["velocities near an apsis carry the code's guard of 1e-7 in the cosine of the flight-path angle (5e-4 rad)",
			"after a targeting or deflection manoeuvre the position-dependent results are accepted if they are right or exactly the recorded finding"]
FPA = 5e-4                                                  # arccos(1/1.0000001)


def flight(c):
	"""a short ascending flight that leaves the atmosphere on a bound orbit"""
	p = gen.make_planet(c["planet"])
	o = gen.make_vehicle(p, dict(mass=1000.0, beta=200.0, LD=0.2, A=3.0, alpha=0.0, RN=1.0))
	r = p.RP + 0.97 * p.h_skip
	# inertial speed for the wanted apoapsis, then the relative one is close enough
	ra = c["ra"] * p.RP + p.h_skip
	g = c["gamma"] * np.pi / 180
	# v^2 (1 - r^2 cos^2 / ra^2) = 2 GM (1/r - 1/ra)
	v = np.sqrt(2 * p.GM * (1 / r - 1 / ra) / (1 - (r * np.cos(g) / ra) ** 2))
	W = p.OMEGA * r * np.cos(c["phi"] * np.pi / 180) * np.cos(c["psi"] * np.pi / 180)
	v = max(v - W, 0.3 * v)
	o.setInitialState((r - p.RP) / 1e3, c["theta"], c["phi"], v / 1e3, c["psi"], c["gamma"], 0.0, 0.0)
	o.setSolverParams(1e-6)
	(o.propogateEntry if c["variant"] == 1 else o.propogateEntry2)(1200.0, 1.0, c["delta"])
	return p, o


def on(p, R, V, what, q, tol):
	"""R, V (m, m/s) belong to the orbit with elements q"""
	k = ref.orbit(R, V, p.GM)
	close(k["h_vec"] / q["h"], q["h_vec"] / q["h"], what + ": angular momentum", atol=tol)
	close(k["e_vec"], q["e_vec"], what + ": eccentricity vector", atol=tol)


def arc(p, xyz, q, what, n, f0, f1, tol):
	X = np.array([np.asarray(a, float) for a in xyz])
	require(X.shape == (3, n), "%s has shape %s, expected 3 x %d" % (what, X.shape, n))
	f = np.linspace(f0, f1, n)
	P = q["e_vec"] / q["e"]
	H = q["h_vec"] / q["h"]
	Q = np.cross(H, P)
	r = q["h"] ** 2 / p.GM / (1 + q["e"] * np.cos(f))
	want = (r * (np.outer(P, np.cos(f)) + np.outer(Q, np.sin(f)))) / p.RP
	close(X, want, what, atol=tol * np.max(r) / p.RP)


def build(c):
	p, veh = flight(c)
	t = veh.t_minc
	if len(t) < 2:
		return None
	st8 = [veh.h_kmc[-1] * 1e3 + p.RP] + [np.radians(x[-1]) for x in (veh.theta_degc, veh.phi_degc)] + [veh.v_kmsc[-1] * 1e3] + [
		np.radians(x[-1]) for x in (veh.psi_degc, veh.gamma_degc)]
	R, U = ref.cart(*st8)
	V = ref.inertial(R, U, p.OMEGA)[1]
	q = ref.orbit(R, V, p.GM)
	if not (q["E"] < 0 and 0.02 < q["e"] < 0.995 and R @ V > 0 and np.hypot(*q["h_vec"][:2]) / q["h"] > 0.0175):
		return None
	if st8[0] - p.RP < 0.9 * p.h_skip:
		return None
	if q["ra"] < (p.RP + p.h_skip) * 1.02 or q["ra"] > 200 * p.RP:
		return None
	return p, veh, R, U, V, q, st8


def raised(p, q, rper):
	"""the orbit after the periapsis raise at apoapsis"""
	P, H = q["e_vec"] / q["e"], q["h_vec"] / q["h"]
	e = (q["ra"] - rper) / (q["ra"] + rper)
	a = (q["ra"] + rper) / 2
	h = np.sqrt(p.GM * a * (1 - e * e))
	return dict(a=a, e=e, h=h, h_vec=h * H, e_vec=e * P, rp=rper, ra=q["ra"], i=q["i"], OMEGA=q["OMEGA"], omega=q["omega"])


def at(p, k, f):
	P, H = k["e_vec"] / k["e"], k["h_vec"] / k["h"]
	Q = np.cross(H, P)
	r = k["h"] ** 2 / p.GM / (1 + k["e"] * np.cos(f))
	return r * (np.cos(f) * P + np.sin(f) * Q), p.GM / k["h"] * (-np.sin(f) * P + (k["e"] + np.cos(f)) * Q)


def capture(c):
	from AMAT.orbiter import Orbiter
	b = build(c)
	if b is None:
		return False
	p, veh, R, U, V, q, s8 = b
	rper = p.RP + c["peri"] * p.h_skip
	if rper > 0.97 * q["ra"]:
		rper = p.RP + 0.5 * (q["ra"] - p.RP)
	o = Orbiter(veh, (rper - p.RP) / 1e3)
	r, v = np.linalg.norm(R), np.linalg.norm(V)
	inc = np.hypot(*q["h_vec"][:2]) / q["h"]
	tol = 1e-6 / inc / q["e"]
	close([o.terminal_r, o.terminal_v], [r, np.linalg.norm(U)], "exit distance and relative speed", rtol=1e-9)
	angle_close([o.terminal_theta, o.terminal_phi, o.terminal_psi, o.terminal_g], [s8[1], s8[2], s8[4], s8[5]], "exit angles")
	close(o.terminal_r_vec, R, "exit position", atol=1e-9 * r)
	close(o.terminal_v_vec, U, "relative exit velocity", atol=1e-9 * v)
	close(o.terminal_v_ie_vec, V, "inertial exit velocity", atol=1e-9 * v)
	close([o.terminal_r_bi, o.terminal_v_bi], [r, v], "inertial exit distance and speed", rtol=1e-9)
	g = np.arcsin(R @ V / r / v)
	close([o.terminal_fpa_ie_rad, o.terminal_g_bi, np.radians(o.terminal_fpa_ie_deg)], [g, g, g], "inertial exit flight-path angle", atol=1e-7)
	up, east, north = ref.local_axes(s8[1], s8[2])
	hd = np.arctan2(V @ north, V @ east)
	d = lambda x, y: abs((x - y + np.pi) % (2 * np.pi) - np.pi)
	require(min(d(o.terminal_psi_bi, hd), d(o.terminal_psi_bi, s8[4])) < 1e-7, "inertial exit heading %.9g, expected %.9g (relative one %.9g)" % (o.terminal_psi_bi, hd, s8[4]))
	close(o.terminal_E, q["E"], "orbital energy", rtol=1e-7, atol=1e-9 * p.GM / r)
	close(o.terminal_h, q["h"], "angular momentum", rtol=1e-7)
	close(o.i, q["i"], "inclination", atol=tol)
	angle_close(o.OMEGA, q["OMEGA"], "node", atol=tol)
	angle_close(o.omega, q["omega"], "argument of periapsis", atol=tol * 10)
	ftol = 1e-6 / q["e"] / max(abs(np.sin(q["theta"])), 1e-3)
	close(o.theta_star_exit, q["theta"], "true anomaly at exit", atol=ftol)
	arc(p, (o.x_coast_arr, o.y_coast_arr, o.z_coast_arr), q, "coast arc", len(o.x_coast_arr), q["theta"], np.pi, 20 * tol + ftol)
	require(len(o.x_coast_arr) >= 2, "the coast arc has %d points" % len(o.x_coast_arr))
	atol = 20 * tol * q["ra"]
	close(o.r_apoapsis_mag, q["ra"], "apoapsis distance", rtol=1e-5 / (1 - q["e"]))
	close(np.asarray(o.r_apoapsis_vec) * p.RP, -q["ra"] * q["e_vec"] / q["e"], "apoapsis position", atol=atol + 1e-5 / (1 - q["e"]) * q["ra"])
	va = np.sqrt(max(0.0, p.GM * (2 / q["ra"] - 1 / q["a"])))
	k = raised(p, q, rper)
	vo = np.sqrt(p.GM * (2 / q["ra"] - 1 / k["a"]))
	vt = 1e-5 / (1 - q["e"])
	close(o.v_apoapsis_mag_coast, va, "speed at apoapsis before the raise", rtol=vt)
	close(o.v_apoapsis_mag_orbit, vo, "speed at apoapsis after the raise", rtol=vt)
	D = np.cross(q["h_vec"] / q["h"], -q["e_vec"] / q["e"])
	close(o.v_apoapsis_vec_coast, va * D, "velocity at apoapsis before the raise", atol=(FPA + 30 * tol + vt) * va)
	close(o.v_apoapsis_vec_orbit, vo * D, "velocity at apoapsis after the raise", atol=(FPA + 30 * tol + vt) * vo)
	close(o.PRM_dv_mag, abs(vo - va), "periapsis-raise burn", atol=vt * (vo + va) + 1e-6 * vo)
	close(o.PRM_dv_vec, (vo - va) * D, "periapsis-raise burn vector", atol=(FPA + 30 * tol) * abs(vo - va) + vt * (vo + va) + 1e-6 * vo)
	close(o.a, k["a"], "semi-major axis after the raise", rtol=vt)
	close(o.e, k["e"], "eccentricity after the raise", atol=vt)
	close(o.h, k["h"], "angular momentum after the raise", rtol=vt)
	if k["e"] > 1e-3:
		n = len(o.x_orbit_arr)
		arc(p, (o.x_orbit_arr, o.y_orbit_arr, o.z_orbit_arr), k, "orbit after the raise", n, np.pi, 3 * np.pi, 20 * tol + vt)
		for f in (2 * np.pi * np.array(c["f"])).tolist() + [0.0, np.pi]:
			X, W = at(p, k, f)
			close(o.pos_vec_bi(f), X, "position at true anomaly %g" % f, atol=(20 * tol + vt) * np.linalg.norm(X))
			close(o.vel_vec_bi(f), W, "velocity at true anomaly %g" % f, atol=(FPA + 30 * tol + vt) * np.linalg.norm(W))
			close(np.linalg.norm(o.vel_vec_bi(f)), np.linalg.norm(W), "speed at true anomaly %g" % f, rtol=2 * vt)
	return True


def either(got, cands, what, tol):
	"""got is one of the candidate vectors/scalars within tol (the first is the right one, the others recorded findings)"""
	g = finite(got, what)
	ds = [float(np.max(np.abs(g - np.asarray(x, float)))) for x in cands]
	require(min(ds) <= tol, lambda: "%s: got %s, right %s, recorded finding %s (tolerance %g)" % (what, g.tolist(), np.asarray(cands[0]).tolist(), [np.asarray(x).tolist() for x in cands[1:]], tol))
	return int(np.argmin(ds))


def by_elements(p, a, e, i, Om, om, f):
	return ref.elements_to_cart(a, e, i, Om, om, f, p.GM)


def burnt(p, o, R1, V1, dV, suffix, what):
	"""the orbit after a burn dV along the velocity, from the state before the burn as the code itself reports it (that one is judged elsewhere)"""
	k = ref.orbit(np.asarray(R1, float), np.asarray(V1, float) * (1 + dV / np.linalg.norm(V1)), p.GM)
	inc = np.hypot(*k["h_vec"][:2]) / k["h"]
	if not (k["E"] < 0 and 0.02 < k["e"] < 0.995):
		return
	t = 1e-6 / k["e"] / (1 - k["e"]) ** 2
	g = lambda n: getattr(o, n + suffix)
	close(g("a"), k["a"], what + ": semi-major axis", rtol=t)
	close(g("e"), k["e"], what + ": eccentricity", atol=t)
	close(g("h"), k["h"], what + ": angular momentum", rtol=t)
	close(g("i"), k["i"], what + ": inclination", atol=t / inc)
	angle_close(g("OMEGA"), k["OMEGA"], what + ": node", atol=t / inc)
	angle_close(g("omega"), k["omega"], what + ": argument of periapsis", atol=10 * t / inc + 3e-4 * np.sqrt(t))


def probe(c):
	from AMAT.orbiter import Orbiter
	b = build(c)
	if b is None:
		return False
	p, veh, R, U, V, q, s8 = b
	rper = p.RP + c["peri"] * p.h_skip
	if rper > 0.8 * q["ra"]:
		return False
	o = Orbiter(veh, (rper - p.RP) / 1e3)
	k = raised(p, q, rper)
	if k["e"] < 0.02:
		return False
	inc = np.hypot(*q["h_vec"][:2]) / q["h"]
	base = 3e-5 / inc / k["e"] / q["e"] / (1 - q["e"])
	if base > 2e-3:
		return False
	th = c["th"] * 2 * np.pi
	X, W = at(p, k, th)
	w = np.linalg.norm(W)
	dV = c["dV"] * w
	n = c["n"]
	if c["rpt"] is not None:
		# size the burn so that the periapsis becomes rpt: bisection over the burn
		want = p.RP + c["rpt"] * p.h_skip
		f = lambda d: ref.orbit(X, W * (1 + d), p.GM)["rp"] - want
		lo, hi = -0.97, 0.0
		if f(lo) > 0 or f(hi) < 0:
			return False
		for _ in range(60):
			m = (lo + hi) / 2
			lo, hi = (m, hi) if f(m) < 0 else (lo, m)
		dV = lo * w
	V2 = W * (1 + dV / w)
	k2 = ref.orbit(X, V2, p.GM)
	if not (k2["E"] < 0 and 0.02 < k2["e"] < 0.995 and k2["rp"] > 0 and k2["ra"] < 500 * p.RP):
		return False
	o.compute_probe_targeting_trajectory(th, dV, n)
	sg = abs(np.sin(th))
	fp = FPA if sg < 0.3 else 1e-5                          # direction error of the velocity before the burn
	et = 2e-5 * (1 + 1 / (1 - k2["e"])) + base
	burnt(p, o, o.pos_vec_bi(th), o.vel_vec_bi(th), dV, "_probe_orbit", "probe orbit from the reported state before the burn")
	close(o.dV_mag_probe_targeting, dV, "burn size", rtol=1e-12, atol=1e-12)
	close(o.dV_vec_probe_targeting, dV * W / w, "burn vector", atol=abs(dV) * (fp + 30 * base) + 1e-9)
	close(o.a_probe_orbit, k2["a"], "probe semi-major axis", rtol=et * 5)
	close(o.e_probe_orbit, k2["e"], "probe eccentricity", atol=et + fp * 0.01)
	close(o.h_probe_orbit, k2["h"], "probe angular momentum", rtol=et)
	close(o.i_probe_orbit, q["i"], "probe inclination", atol=20 * base)
	angle_close(o.OMEGA_probe_orbit, q["OMEGA"], "probe node", atol=20 * base)
	om_tol = 20 * base + 5 * fp * w / np.linalg.norm(V2) / k2["e"] + 10 * et / k2["e"]
	angle_close(o.omega_probe_orbit, k2["omega"], "probe argument of periapsis", atol=om_tol)
	close([o.r_periapsis_probe, o.r_apoapsis_probe], [k2["rp"], k2["ra"]], "probe apsides", rtol=et * 20)
	close(o.h_periapsis_probe, k2["rp"] - p.RP, "probe periapsis altitude", atol=et * 20 * k2["rp"])
	if abs(k2["rp"] - p.RP - p.h_skip) < et * 40 * k2["rp"]:
		return False
	inside = k2["rp"] < p.RP + p.h_skip
	require(hasattr(o, "theta_star_probe_entry") == inside, "probe with periapsis altitude %g km %s an entry" % ((k2["rp"] - p.RP) / 1e3, "lacks" if inside else "has"))
	# everything below is judged from the code's own elements, already compared with the reference
	E = (o.a_probe_orbit, o.e_probe_orbit, o.i_probe_orbit, o.OMEGA_probe_orbit)
	om2, om1 = o.omega_probe_orbit, o.omega
	if inside:
		r = p.RP + p.h_skip
		close([o.h_EI, o.r_EI], [p.h_skip, r], "entry interface", rtol=1e-12)
		pp = E[0] * (1 - E[1] ** 2)
		f = 2 * np.pi - np.arccos(np.clip((pp / r - 1) / E[1], -1, 1))
		close(o.theta_star_probe_entry, f, "true anomaly at probe entry", atol=1e-6)
		Rt, Vt = by_elements(p, *E, om2, f)
		Rf = by_elements(p, *E, om1, f)[0]
		vm = np.linalg.norm(Vt)
		n1 = either(o.r_vec_bi_probe_entry, (Rt, Rf), "probe entry position", 1e-5 * r)
		close(o.v_bi_vec_probe_entry, Vt, "probe entry velocity", atol=FPA * vm)
		close(o.v_bi_mag_probe_entry, vm, "probe entry speed", rtol=1e-6)
		hh = np.sqrt(p.GM * pp)
		close(o.gamma_inertial_probe_entry, -np.arccos(min(1.0, hh / r / vm)), "inertial probe entry flight-path angle", atol=1e-4)
		up = np.asarray(o.r_vec_bi_probe_entry) / r
		ut = Rt / r
		vv = np.asarray(o.v_bi_vec_probe_entry)
		for name, fn in (("latitude", lambda u: np.arcsin(u[2])), ):
			close(o.latitude_probe_entry_bi, fn(up), "probe entry latitude", atol=1e-6)
		lon = np.arctan2(up[1], up[0])
		cl = np.hypot(up[0], up[1])
		angle_close(o.longitude_probe_entry_bi, lon, "probe entry longitude", atol=1e-6 / max(cl, 1e-6))
		Ua = vv - np.cross([0, 0, p.OMEGA], up * r)
		ua = np.linalg.norm(Ua)
		close(o.v_vec_probe_entry_atm, Ua, "relative probe entry velocity", atol=1e-6 * vm)
		close(o.v_mag_probe_entry_atm, ua, "relative probe entry speed", rtol=1e-6)
		either(o.gamma_atm_probe_entry, (np.arcsin(np.clip(up @ Ua / ua, -1, 1)), np.arcsin(np.clip(up @ vv / vm, -1, 1))), "relative probe entry flight-path angle", 1e-5)
		east = np.array([-np.sin(lon), np.cos(lon), 0.0])
		north = np.cross(up, east)
		hd = np.arctan2(Ua @ north, Ua @ east)
		raw = np.arccos(np.clip(Ua @ east / ua, -1, 1))
		either(o.heading_atm_probe_entry, (hd, raw, abs(hd), hd % (2 * np.pi)), "relative probe entry heading", 1e-3)
		require(len(o.x_probe_orbit_arr) == n, "probe arc has %d points, %d asked for" % (len(o.x_probe_orbit_arr), n))
		X3 = np.array([o.x_probe_orbit_arr, o.y_probe_orbit_arr, o.z_probe_orbit_arr])
		fs = np.linspace(th, f, n)
		W1 = np.array([by_elements(p, *E, om2, x)[0] for x in fs]).T / p.RP
		W2 = np.array([by_elements(p, *E, om1, x)[0] for x in fs]).T / p.RP
		sc = np.max(np.abs(W1))
		require(min(np.max(np.abs(X3 - W1)), np.max(np.abs(X3 - W2))) < 1e-5 * sc, "probe arc does not lie on the probe orbit (nor on the recorded finding)")
	# orbiter deflection on the probe orbit
	th2 = c["th2"] * 2 * np.pi
	Ra, Va = by_elements(p, *E, om2, th2)
	Rb = by_elements(p, *E, om1, th2)[0]
	dW = c["dV2"] * np.linalg.norm(Va)
	V3 = Va * (1 + c["dV2"])
	cands = [ref.orbit(x, V3, p.GM) for x in (Ra, Rb)]
	if any(not (x["E"] < 0 and 0.05 < x["e"] < 0.98 and x["ra"] < 500 * p.RP) for x in cands):
		return True
	o.compute_orbiter_deflection_trajectory(th2, dW, n)
	burnt(p, o, o.pos_vec_bi_probe(th2), o.vel_vec_bi_probe(th2), dW, "_orbiter_defl", "deflection orbit from the reported state before the burn")
	close(o.dV_mag_orbiter_deflection, dW, "deflection size", atol=1e-12)
	close(o.dV_vec_orbiter_deflection, dW * Va / np.linalg.norm(Va), "deflection vector", atol=abs(dW) * 2 * FPA + 1e-9)
	ok = []
	for x in cands:
		t = 3e-3 / x["e"] / (1 - x["e"]) ** 2
		ok.append(abs(o.a_orbiter_defl / x["a"] - 1) < t and abs(o.e_orbiter_defl - x["e"]) < t and abs(o.h_orbiter_defl / x["h"] - 1) < t
				and abs(o.i_orbiter_defl - x["i"]) < t / inc and abs((o.omega_orbiter_defl - x["omega"] + np.pi) % (2 * np.pi) - np.pi) < t / inc
				and abs((o.OMEGA_orbiter_defl - x["OMEGA"] + np.pi) % (2 * np.pi) - np.pi) < t / inc
				and abs(o.r_periapsis_orbiter_defl - x["rp"]) < 3 * t * x["a"] and abs(o.r_apoapsis_orbiter_defl - x["ra"]) < 3 * t * x["a"])
	require(any(ok), lambda: "deflection orbit a=%g e=%g h=%g i=%g OMEGA=%g omega=%g is neither the right one %s nor the recorded finding %s" % (
		o.a_orbiter_defl, o.e_orbiter_defl, o.h_orbiter_defl, o.i_orbiter_defl, o.OMEGA_orbiter_defl, o.omega_orbiter_defl,
		{z: cands[0][z] for z in ("a", "e", "h", "i", "OMEGA", "omega")}, {z: cands[1][z] for z in ("a", "e", "h", "i", "OMEGA", "omega")}))
	close(o.h_periapsis_orbiter_defl, o.r_periapsis_orbiter_defl - p.RP, "deflected periapsis altitude", atol=1e-6 * p.RP)
	Y = np.array([o.x_orbiter_defl_arr, o.y_orbiter_defl_arr, o.z_orbiter_defl_arr])
	fs = np.linspace(0, 2 * np.pi, n)
	E3 = (o.a_orbiter_defl, o.e_orbiter_defl, o.i_orbiter_defl, o.OMEGA_orbiter_defl)
	best = min(np.max(np.abs(Y - np.array([by_elements(p, *E3, z, x)[0] for x in fs]).T / p.RP)) for z in (o.omega_orbiter_defl, om1))
	require(Y.shape == (3, n) and best < 1e-5 * np.max(np.abs(Y)), "deflection arc does not lie on the deflection orbit (nor on the recorded finding)")
	return True


@st.composite
def case(draw):
	return dict(planet=draw(gen.planet_id()), ra=draw(logu(1.15, 60)), gamma=draw(uni(1.0, 25.0)), theta=draw(st.one_of(uni(-180, 180), uni(-720, 720))), phi=draw(uni(-75, 75)),
				psi=draw(st.one_of(uni(0, 360), uni(-180, 180), uni(-720, 720))), delta=draw(st.sampled_from([0.0, 0.0, 60.0, 180.0])), variant=draw(st.sampled_from([1, 2])),
				peri=draw(uni(1.0, 8.0)), f=[draw(uni(0, 1)) for _ in range(2)],
				th=draw(st.one_of(st.just(0.5), uni(0.3, 0.7), uni(0, 1))), dV=draw(uni(-0.3, 0.1)), rpt=draw(st.one_of(uni(-0.5, 0.95), uni(-0.5, 0.95), uni(-0.5, 0.95), st.none())),
				th2=draw(st.one_of(st.just(0.5), uni(0.4, 0.6), uni(0, 1))), dV2=draw(uni(-0.1, 0.4)), n=draw(st.integers(5, 60)))


def _uranus(th):
	from AMAT.orbiter import Orbiter
	c = dict(planet="URANUS", ra=12.0, gamma=8.0, theta=10.0, phi=40.0, psi=80.0, delta=0.0, variant=1)
	p, veh = flight(c)
	o = Orbiter(veh, 4000.0)
	X, W = o.pos_vec_bi(np.radians(th)), o.vel_vec_bi(np.radians(th))
	dv = 0.0                                            # the smallest burn in steps of 5 m/s that reaches 100 km inside the interface
	while ref.orbit(X, W * (1 + dv / np.linalg.norm(W)), p.GM)["rp"] > p.RP + p.h_skip - 1e5:
		dv -= 5.0
	o.compute_probe_targeting_trajectory(np.radians(th), dv)
	return p, o


def k_position():
	p, o = _uranus(170.0)
	X = o.pos_vec_bi(np.radians(170.0))
	# right: the probe's orbit passes through the point of the manoeuvre
	V = o.vel_vec_bi(np.radians(170.0)) + o.dV_vec_probe_targeting
	q = ref.orbit(X, V, p.GM)
	return np.linalg.norm(o.pos_vec_bi_probe(q["theta"]) - X) > 1e-3 * np.linalg.norm(X)


def k_gamma():
	p, o = _uranus(180.0)
	U, R = o.v_vec_probe_entry_atm, o.r_vec_bi_probe_entry
	return abs(o.gamma_atm_probe_entry - np.arcsin(U @ R / np.linalg.norm(U) / np.linalg.norm(R))) > 1e-4


def k_heading():
	p, o = _uranus(180.0)
	U, up = o.v_vec_probe_entry_atm, o.r_vec_bi_probe_entry_unit
	east = np.array([-up[1], up[0], 0]) / np.hypot(up[0], up[1])
	hd = np.arctan2(U @ np.cross(up, east), U @ east)
	return abs(o.heading_atm_probe_entry - abs(hd)) > 1e-5


def k_psi():
	p, o = _uranus(180.0)
	up, east, north = ref.local_axes(o.terminal_theta, o.terminal_phi)
	V = o.terminal_v_ie_vec
	return abs((o.terminal_psi_bi - np.arctan2(V @ north, V @ east) + np.pi) % (2 * np.pi) - np.pi) > 1e-3


KNOWN = [
	("probe-position", k_position, "Orbiter.pos_vec_bi_probe and pos_vec_bi_orbiter_defl use the argument of periapsis of the capture orbit instead of the new orbit's, "
		"so after a manoeuvre away from apoapsis the probe arc does not pass through the manoeuvre point and the entry position, latitude, longitude and deflection orbit are off (pinned by tests/test_orbiter.py)"),
	("gamma-atm", k_gamma, "Orbiter.gamma_atm_probe_entry is computed from the inertial velocity although it is documented as atmosphere-relative (pinned by tests/test_orbiter.py)"),
	("heading-atm", k_heading, "Orbiter.heading_atm_probe_entry is arccos of the east component of the relative velocity unit vector (projection not normalised, sign lost; pinned by tests/test_orbiter.py)"),
	("psi-bi", k_psi, "Orbiter.terminal_psi_bi is the atmosphere-relative heading although it is documented as inertial (pinned by tests/test_orbiter.py)"),
]

SUBS = [
	Sub("capture", case(), capture, 600, 30000, shards=4),
	Sub("probe", case(), probe, 1400, 60000, shards=4),
]
