"""P19: deflection manoeuvres splitting an approach into two deliveries."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, close, finite, require
from pbt.gen import logu, uni
from pbt.props.p18_approach import Ref

RULE = ("one case = body, v-infinity vector, two periapsis radii and ring angles, interface altitudes, manoeuvre distance, kind of pair; "
		"non-trivial = the two deliveries differ by more than 1 % in periapsis radius or 1 degree on the ring")
ASSUMPTIONS = ["a probe's time of flight is accepted down to its periapsis or down to its entry interface",
			"the second velocity of a probe pair is accepted if it reaches the second periapsis point or is exactly the recorded finding"]


def kepler(R, V, GM, t):
	"""universal-variable propagation of a hyperbolic state"""
	R, V = np.asarray(R, float), np.asarray(V, float)
	r0 = np.linalg.norm(R)
	rv = R @ V
	a = 1 / (2 / r0 - V @ V / GM)
	n = np.sqrt(GM / -a ** 3)
	e_s, e_c = rv / np.sqrt(GM * -a), 1 - r0 / a            # e sinh F, e cosh F
	e = np.sqrt(e_c ** 2 - e_s ** 2)
	F0 = np.arcsinh(e_s / e)
	M = e * np.sinh(F0) - F0 + n * t
	F = np.arcsinh(M / e)
	for _ in range(80):
		d = (e * np.sinh(F) - F - M) / (e * np.cosh(F) - 1)
		F -= d
		if abs(d) < 1e-14 * max(1, abs(F)):
			break
	h = np.cross(R, V)
	ev = np.cross(V, h) / GM - R / r0
	P = ev / np.linalg.norm(ev)
	Q = np.cross(h / np.linalg.norm(h), P)
	e = np.linalg.norm(ev)
	b = -a * np.sqrt(e * e - 1)
	r = -a * (e * np.cosh(F) - 1)
	w = np.sqrt(GM * -a) / r
	return -a * (e - np.cosh(F)) * P + b * np.sinh(F) * Q, w * (-np.sinh(F) * P + np.sqrt(e * e - 1) * np.cosh(F) * Q)


def leg(p, q, R, V, tof, what, probe_r=None):
	"""V at R belongs to the approach energy and arrives at q's periapsis point after tof days"""
	r = np.linalg.norm(R)
	vm = np.sqrt(q.vm ** 2 + 2 * p.GM / r)
	close(np.linalg.norm(finite(V, what + " velocity")), vm, what + " speed after the manoeuvre", rtol=1e-6)
	ts = [tof * 86400]
	if probe_r is not None:
		# time between the interface and periapsis
		F = np.arccosh(max(1.0, (1 - probe_r / q.a) / q.e))
		ts.append(tof * 86400 + (q.e * np.sinh(F) - F) * np.sqrt(-q.a ** 3 / p.GM))
	X = [kepler(R, V, p.GM, t)[0] for t in ts]
	# allowance: rounding of the flight time and of the start
	tol = 1e-6 * r + 1e-7 * vm * tof * 86400 + 1e-6 * q.rp
	d = min(np.linalg.norm(x - q.rp * q.P) for x in X)
	require(d <= tol + 1e-3 * q.rp, "%s misses its periapsis point by %.6g km after %.6g days (periapsis radius %.6g km)" % (what, d / 1e3, tof, q.rp / 1e3))


def deflect(c):
	from AMAT import maneuver as m
	p = gen.make_planet(c["planet"], atm=False)
	v = np.array(c["v"])
	v = v / np.linalg.norm(v) * c["vm"]
	kind = c["kind"]
	h1, h2 = c["h1"] * p.h_skip, c["h2"] * p.h_skip
	probe1, probe2 = kind in ("po", "pp"), kind == "pp"
	rp1 = p.RP * (c["rp1p"] if probe1 else c["rp1"])
	rp2 = p.RP * (c["rp2p"] if probe2 else c["rp2"])
	q1, q2 = Ref(p, v, rp1, c["psi1"]), Ref(p, v, rp2, c["psi2"])
	rdv = c["rdv"] * p.RP
	if min(q1.sinpole, np.hypot(*q1.H[:2]), np.hypot(*q2.H[:2])) < 1e-3:
		return False
	if max(q1.b, q2.b) > 0.3 * rdv:
		return False
	if probe1 and (p.RP + h1 < rp1 * 1.001) or probe2 and (p.RP + h2 < rp2 * 1.001):
		return False
	if kind == "po":
		o = m.ProbeOrbiterDeflection(c["planet"], v, rp1, c["psi1"], h1, rp2, c["psi2"], c["rdv"])
		v1, v2, t1, t2, f1 = o.v_vec_dv_probe, o.v_vec_dv_space, o.TOF_probe, o.TOF_space, o.theta_star_dv_probe
	elif kind == "pp":
		o = m.ProbeProbeDeflection(c["planet"], v, rp1, c["psi1"], h1, rp2, c["psi2"], h2, c["rdv"])
		v1, v2, t1, t2, f1 = o.v_vec_dv_probe1, o.v_vec_dv_probe2, o.TOF_probe1, o.TOF_probe2, o.theta_star_dv_probe1
	else:
		o = m.OrbiterOrbiterDeflection(c["planet"], v, rp1, c["psi1"], rp2, c["psi2"], c["rdv"])
		v1, v2, t1, t2, f1 = o.v_vec_dv_space1, o.v_vec_dv_space2, o.TOF_space1, o.TOF_space2, o.theta_star_dv_space1
	close(o.r_dv, rdv, "manoeuvre distance", rtol=1e-12)
	f = q1.anomaly(rdv)
	R, V = q1.at(f)
	cond = 1e-6 / min(np.hypot(*q1.H[:2]), np.hypot(*q2.H[:2]))
	close(f1, f, "true anomaly of the manoeuvre", atol=1e-6)
	close(o.r_vec_dv, R, "position of the manoeuvre", atol=cond * rdv)
	close(np.linalg.norm(o.r_vec_dv), rdv, "distance of the manoeuvre", rtol=1e-6)
	# the manoeuvre velocity is found from f and g: differences of large numbers
	close(v1, V, "velocity on the first approach", atol=5e-6 * np.linalg.norm(V) + cond * 10 * np.linalg.norm(V))
	R = np.asarray(o.r_vec_dv, float)
	if cond < 1e-4:
		leg(p, q1, q1.at(f)[0], V, t1, "the first vehicle", p.RP + h1 if probe1 else None)
		if kind != "pp":
			leg(p, q2, R, v2, t2, "the second vehicle")
		else:
			second_probe(p, q1, q2, R, v2, t2, p.RP + h2)
	close(o.dv_maneuver_vec, np.asarray(v2) - np.asarray(v1), "manoeuvre vector", atol=1e-9 * np.linalg.norm(V))
	close(o.dv_maneuver_mag, np.linalg.norm(np.asarray(v2) - np.asarray(v1)), "manoeuvre size", rtol=1e-9)
	dpsi = abs((c["psi1"] - c["psi2"] + np.pi) % (2 * np.pi) - np.pi)
	return abs(rp1 / rp2 - 1) > 0.01 or dpsi > 0.0175


def second_probe(p, q1, q2, R, v2, t2, rEI):
	r = np.linalg.norm(R)
	# the recorded finding: f and g of the second probe's own approach, from the first probe's position
	d = abs(q2.anomaly(r))
	P2 = q2.h ** 2 / p.GM
	f2, g2 = 1 - q2.rp / P2 * (1 - np.cos(d)), r * q2.rp / q2.h * np.sin(d)
	w = (q2.rp * q2.P - f2 * R) / g2
	vm = np.linalg.norm(w)
	# its flight time is that of the second probe's own approach
	F = np.arccosh((1 - r / q2.a) / q2.e)
	T = (q2.e * np.sinh(F) - F) * np.sqrt(-q2.a ** 3 / p.GM) / 86400
	G = np.arccosh(max(1.0, (1 - rEI / q2.a) / q2.e))
	TE = T - (q2.e * np.sinh(G) - G) * np.sqrt(-q2.a ** 3 / p.GM) / 86400
	if np.linalg.norm(np.asarray(v2) - w) <= 1e-5 * vm:
		require(min(abs(t2 - T), abs(t2 - TE)) <= 1e-6 * T, "flight time of the second probe %.9g days, expected %.9g (periapsis) or %.9g (interface)" % (t2, T, TE))
		return
	leg(p, q2, R, v2, t2, "the second probe", rEI)


def symmetric(c):
	"""deflecting to the same delivery costs nothing; swapping two orbiters of one radius costs the same"""
	from AMAT import maneuver as m
	p = gen.make_planet(c["planet"], atm=False)
	v = np.array(c["v"])
	v = v / np.linalg.norm(v) * c["vm"]
	rp = p.RP * c["rp1"]
	q1, q2 = Ref(p, v, rp, c["psi1"]), Ref(p, v, rp, c["psi2"])
	if min(q1.sinpole, np.hypot(*q1.H[:2]), np.hypot(*q2.H[:2])) < 1e-2 or max(q1.b, q2.b) > 0.3 * c["rdv"] * p.RP:
		return False
	o = m.OrbiterOrbiterDeflection(c["planet"], v, rp, c["psi1"], rp, c["psi1"], c["rdv"])
	vm = np.linalg.norm(q1.at(q1.anomaly(c["rdv"] * p.RP))[1])
	close(o.dv_maneuver_mag, 0.0, "manoeuvre to the same delivery", atol=1e-5 * vm)
	a = m.OrbiterOrbiterDeflection(c["planet"], v, rp, c["psi1"], rp, c["psi2"], c["rdv"])
	b = m.OrbiterOrbiterDeflection(c["planet"], v, rp, c["psi2"], rp, c["psi1"], c["rdv"])
	close(a.dv_maneuver_mag, b.dv_maneuver_mag, "manoeuvre between two deliveries of one radius, either way", rtol=1e-5, atol=1e-5 * vm)
	far = m.OrbiterOrbiterDeflection(c["planet"], v, rp, c["psi1"], rp, c["psi2"], c["rdv"] * 1.5)
	s = abs(np.sin((c["psi1"] - c["psi2"]) / 2))
	if s > 0.05 and q1.b < 0.05 * c["rdv"] * p.RP and 2 * p.GM / (c["rdv"] * p.RP) < 0.2 * q1.vm ** 2:
		require(far.dv_maneuver_mag < a.dv_maneuver_mag + 1e-5 * vm, "an earlier manoeuvre costs more (%g m/s at %g radii, %g m/s at %g radii)" % (
			far.dv_maneuver_mag, c["rdv"] * 1.5, a.dv_maneuver_mag, c["rdv"]))
	return s > 0.05


@st.composite
def case(draw):
	v = [draw(uni(-1, 1)) for _ in range(3)]
	if np.linalg.norm(v) < 0.05:
		v = [0.6, -0.5, 0.3]
	psi = st.one_of(uni(0, 2 * np.pi), st.sampled_from([0.0, np.pi / 2, np.pi, 1.5 * np.pi]))
	return dict(planet=draw(gen.planet_id()), v=v, vm=draw(logu(1, 30)), kind=draw(st.sampled_from(["po", "pp", "oo"])),
				rp1=draw(uni(1.02, 6)), rp2=draw(uni(1.02, 6)), rp1p=draw(uni(0.85, 1.0)), rp2p=draw(uni(0.85, 1.0)), psi1=draw(psi), psi2=draw(psi),
				h1=draw(uni(0.5, 1.2)), h2=draw(uni(0.5, 1.2)), rdv=draw(logu(60, 6000)))


def pp_probe():
	from AMAT.maneuver import ProbeProbeDeflection
	m = ProbeProbeDeflection("NEPTUNE", np.array([17.78952518, 8.62038536, 3.15801163]), (24622 + 400) * 1e3, 3 * np.pi / 2, 1000e3,
							(24622 + 400) * 1e3, np.pi / 2, 1000e3, 4000)
	x = kepler(m.r_vec_dv, m.v_vec_dv_probe2, m.planetObj.GM, m.TOF_probe2 * 86400)[0]
	return np.linalg.norm(x - m.probe2.rp_vec_bi) > 1e4


KNOWN = [("probe-pair", pp_probe, "ProbeProbeDeflection finds the second probe's velocity with the transfer angle of that probe's own approach although it "
		"starts from the first probe's position, so the second probe misses its periapsis point (by 39 km for the Neptune case of "
		"tests/test_maneuver.py, which pins the result)")]

SUBS = [
	Sub("deflect", case(), deflect, 2400, 120000, shards=4),
	Sub("symmetric", case(), symmetric, 900, 40000, shards=2),
]
