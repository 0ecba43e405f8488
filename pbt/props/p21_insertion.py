"""P21: propulsive orbit insertion at the approach periapsis and motion along the orbit in time."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, angle_close, close, finite, require
from pbt.gen import logu, uni
from pbt.props.p18_approach import Ref

RULE = ("one case = body, approach, apoapsis altitude, true anomalies, time span and number of points; non-trivial = orbit eccentricity above 0.02, "
		"approach neither polar nor equatorial within 1 degree, and (timed) a span of at least a tenth of a period")
ASSUMPTIONS = ["a true anomaly may be reported in any turn", "Kepler's equation is compared to 1e-6 of an orbit (the code's root finder stops at 1.5e-8 rad)"]


def build(c):
	from AMAT.approach import Approach
	from AMAT.orbiter import PropulsiveOrbiter
	p = gen.make_planet(c["planet"], atm=False)
	v = np.array(c["v"])
	v = v / np.linalg.norm(v) * c["vm"]
	rp = p.RP * c["rp"]
	q = Ref(p, v, rp, c["psi"])
	equ = np.hypot(*q.H[:2])
	if q.sinpole < 1e-3 or equ < 1e-3:
		return None
	ra = rp * c["ra"]
	o = PropulsiveOrbiter(Approach(c["planet"], v, rp, c["psi"]), (ra - p.RP) / 1e3)
	return p, q, rp, ra, equ, o


def point(p, q, a, e, f):
	r = a * (1 - e * e) / (1 + e * np.cos(f))
	h = np.sqrt(p.GM * a * (1 - e * e))
	return r * (np.cos(f) * q.P + np.sin(f) * q.Q), p.GM / h * (-np.sin(f) * q.P + (e + np.cos(f)) * q.Q)


def insertion(c):
	b = build(c)
	if b is None:
		return False
	p, q, rp, ra, equ, o = b
	a, e = (rp + ra) / 2, (ra - rp) / (ra + rp)
	tol = 1e-6 / equ
	close(o.ra, ra, "apoapsis radius", rtol=1e-9)
	close(o.rp, rp, "periapsis radius", rtol=1e-12)
	close(o.a, a, "semi-major axis", rtol=1e-9)
	close(o.e, e, "eccentricity", atol=1e-9)
	close(o.h, np.sqrt(p.GM * a * (1 - e * e)), "angular momentum", rtol=1e-9)
	k = ref.orbit(*q.at(0.3), p.GM)
	close(o.i, k["i"], "inclination", atol=tol)
	angle_close(o.OMEGA, k["OMEGA"], "node", atol=tol)
	angle_close(o.omega, k["omega"], "argument of periapsis", atol=tol)
	X, V = q.at(0.0)
	vm = np.linalg.norm(V)
	close(o.approach_terminal_r, X, "arrival position", atol=tol * rp)
	close(o.approach_terminal_v, V, "arrival velocity", atol=tol * vm)
	vp = np.sqrt(p.GM * (2 / rp - 1 / a))
	close([o.vp, o.vp_check], [vp, vp], "orbit speed at periapsis", rtol=1e-9)
	close(o.vp_vec, V / vm * vp, "orbit velocity at periapsis", atol=tol * vp)
	dv = vm - vp
	close(o.DV_OI_vec, V / vm * dv, "insertion burn vector", atol=tol * vm)
	close([o.DV_OI_mag, o.DV_OI_mag_check], [dv, dv], "insertion burn", atol=1e-9 * vm + tol * dv)
	require(o.DV_OI_mag > 0, "no burn is needed for capture")
	for f in (2 * np.pi * np.array(c["f"])).tolist() + [0.0, np.pi]:
		X, V = point(p, q, a, e, f)
		close(o.pos_vec_bi(f), X, "position at true anomaly %g" % f, atol=tol * np.linalg.norm(X))
		close(o.vel_vec_bi(f), V, "velocity at true anomaly %g" % f, atol=tol * np.linalg.norm(V) + 1e-9 * vp)
		close(o.r_mag_bi(f), np.linalg.norm(X), "distance at true anomaly %g" % f, rtol=1e-9)
	for n in (601, c["n"]):
		if n != 601:
			o.compute_orbit_trajectory(n)
		Y = np.array([o.x_orbit_arr, o.y_orbit_arr, o.z_orbit_arr])
		W = np.array([point(p, q, a, e, f)[0] for f in np.linspace(0, 2 * np.pi, n)]).T / p.RP
		require(Y.shape == W.shape, "orbit arrays have shape %s, expected %s" % (Y.shape, W.shape))
		close(Y, W, "orbit", atol=tol * ra / p.RP)
	return e > 0.02 and q.sinpole > 0.017 and equ > 0.017


def ecc(M, e):
	"""eccentric anomaly by bisection"""
	lo, hi = M - e - 1e-9, M + e + 1e-9
	for _ in range(70):
		m = (lo + hi) / 2
		lo, hi = (m, hi) if m - e * np.sin(m) < M else (lo, m)
	return (lo + hi) / 2


def timed(c):
	b = build(c)
	if b is None:
		return False
	p, q, rp, ra, equ, o = b
	a, e = (rp + ra) / 2, (ra - rp) / (ra + rp)
	P = 2 * np.pi * np.sqrt(a ** 3 / p.GM)
	T, n = c["T"] * P, c["n"]
	o.compute_timed_orbit_trajectory(T, n)
	close(o.P, P, "period", rtol=1e-9)
	t = np.linspace(0, T, n)
	for x, w in ((o.t_array, "time"), (o.M_array, "mean anomaly"), (o.E_array, "eccentric anomaly"), (o.theta_star_array, "true anomaly"), (o.x_timed_orbit_arr, "x")):
		require(np.shape(x) == (n,), "%s array has shape %s, expected (%d,)" % (w, np.shape(x), n))
	close(o.t_array, t, "time grid", atol=1e-9 * T)
	close(o.M_array, 2 * np.pi * t / P, "mean anomaly", atol=1e-8)
	X = np.array([o.x_timed_orbit_arr, o.y_timed_orbit_arr, o.z_timed_orbit_arr])
	W = []
	for x, f, E in zip(t, finite(o.theta_star_array, "true anomaly"), finite(o.E_array, "eccentric anomaly")):
		Ew = ecc(2 * np.pi * x / P, e)
		tolE = 1e-6 / (1 - e)
		close(E, Ew, "eccentric anomaly at %g s (period %g s, eccentricity %g)" % (x, P, e), atol=tolE)
		r = a * (1 - e * np.cos(Ew))
		d = (a * (np.cos(Ew) - e) * q.P + a * np.sqrt(1 - e * e) * np.sin(Ew) * q.Q)
		W.append(d)
		# the true anomaly, as a direction
		fw = np.arctan2(d @ q.Q, d @ q.P)
		angle_close(f, fw, "true anomaly at %g s" % x, atol=tolE * a / r * 2)
	W = np.array(W).T / p.RP
	tol = 1e-6 / equ + 1e-6 / (1 - e)
	close(X, W, "position over time", atol=tol * 2 * a / p.RP)
	# Kepler's second law from the reported positions: equal areas between successive samples of a fine grid
	if c["T"] < 1.0 and n > 20:
		ang = np.unwrap(np.arctan2((X * np.array(q.Q)[:, None]).sum(0), (X * np.array(q.P)[:, None]).sum(0)))
		require(np.all(np.diff(ang) > -1e-6 / (1 - e)), "the spacecraft moves backwards along its orbit")
		if c["T"] >= 1 - 1e-12:
			close(ang[-1] - ang[0], 2 * np.pi, "angle covered in one period", atol=1e-5 / (1 - e))
	return e > 0.02 and c["T"] >= 0.1 and q.sinpole > 0.017 and equ > 0.017


@st.composite
def case(draw):
	v = [draw(uni(-1, 1)) for _ in range(3)]
	if np.linalg.norm(v) < 0.05:
		v = [0.6, -0.5, 0.3]
	return dict(planet=draw(gen.planet_id()), v=v, vm=draw(logu(0.3, 30)), rp=draw(logu(1.01, 10)),
				psi=draw(st.one_of(uni(0, 2 * np.pi), uni(-7, 7), st.sampled_from([0.0, np.pi / 2, np.pi, 1.5 * np.pi]))),
				ra=draw(st.one_of(logu(1.001, 100), uni(1.0, 1.3), logu(20, 400))), f=[draw(uni(-1, 2)) for _ in range(2)],
				T=draw(st.one_of(uni(0.05, 1.0), uni(1.0, 4.0), logu(4.0, 400.0), st.just(1.0), logu(1e-3, 0.1))), n=draw(st.integers(2, 130)))


SUBS = [
	Sub("insertion", case(), insertion, 1500, 80000, shards=2),
	Sub("timed", case(), timed, 900, 50000, shards=3),
]
