"""P18: hyperbolic approach targeted from the incoming v-infinity vector, periapsis radius and ring angle."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, angle_close, close, finite, require
from pbt.gen import logu, uni

RULE = ("one case = body, v-infinity vector, periapsis radius, ring angle, entry-interface altitude or none; non-trivial = an entry system whose "
		"interface lies above its periapsis, with v-infinity at least 1 degree from the body's poles")
ASSUMPTIONS = ["v-infinity along the spin axis and an orbit plane in the equator are excluded (the node is undefined there)",
			"the entry heading is accepted if it is the true one or exactly the recorded finding"]


def frame(p):
	"""rows: body axes in ICRF (x along the ascending node of the body equator on the ICRF equator)"""
	z = np.array([np.cos(p.d0) * np.cos(p.a0), np.cos(p.d0) * np.sin(p.a0), np.sin(p.d0)])
	x = np.cross([0.0, 0.0, 1.0], z)
	x /= np.linalg.norm(x)
	return np.array([x, np.cross(z, x), z])


class Ref:
	"""the approach hyperbola, in vectors"""

	def __init__(self, p, vinf_icrf, rp, psi):
		self.GM, self.rp = p.GM, rp
		self.v = frame(p) @ (np.asarray(vinf_icrf) * 1e3)
		self.vm = np.linalg.norm(self.v)
		S = self.S = self.v / self.vm
		T = np.cross(S, [0, 0, 1.0])
		self.sinpole = np.linalg.norm(T)
		T = self.T = T / np.linalg.norm(T)
		R = self.R = np.cross(S, T)
		self.B = np.cos(psi) * R - np.sin(psi) * T          # towards the aim point
		self.a = -p.GM / self.vm ** 2
		self.e = 1 + rp * self.vm ** 2 / p.GM
		self.b = abs(self.a) * np.sqrt(self.e ** 2 - 1)
		c = 1 / self.e
		self.P = c * S + np.sqrt(1 - c * c) * self.B        # towards periapsis
		self.H = np.cross(self.B, S)                        # orbit normal
		self.Q = np.cross(self.H, self.P)
		self.h = self.b * self.vm

	def at(self, f):
		p = self.h ** 2 / self.GM
		r = p / (1 + self.e * np.cos(f))
		return r * (np.cos(f) * self.P + np.sin(f) * self.Q), self.GM / self.h * (-np.sin(f) * self.P + (self.e + np.cos(f)) * self.Q)

	def anomaly(self, r):
		return -np.arccos(np.clip((self.h ** 2 / (self.GM * r) - 1) / self.e, -1, 1))


def make(c):
	from AMAT.approach import Approach
	p = gen.make_planet(c["planet"], atm=False)
	v = np.array(c["v"])
	v = v / np.linalg.norm(v) * c["vm"]
	rp = p.RP * c["rp"]
	hEI = c["hEI"] * p.h_skip if c["entry"] else None
	if c["entry"] and p.RP + hEI < rp * 1.0005:
		rp = (p.RP + hEI) * (0.90 + 0.0995 * c["rp"] % 0.0995)
	kw = dict(is_entrySystem=True, h_EI=hEI) if c["entry"] else {}
	return p, v, rp, hEI, lambda: Approach(c["planet"], v.copy(), rp, c["psi"], **kw)


def approach(c):
	p, v, rp, hEI, build = make(c)
	q = Ref(p, v, rp, c["psi"])
	if q.sinpole < 1e-3:
		return False
	equ = np.hypot(q.H[0], q.H[1])
	if equ < 1e-4:
		return False
	o = build()
	close(o.v_inf_mag_kms, c["vm"], "v-infinity", rtol=1e-9)
	close(o.a, q.a, "semi-major axis", rtol=1e-9)
	close(o.e, q.e, "eccentricity", rtol=1e-9)
	close(o.beta, np.arccos(1 / q.e), "angle between periapsis and the asymptote", rtol=1e-7, atol=1e-9)
	close(o.b_mag, q.b, "aim-point distance", rtol=1e-7)
	close(o.v_inf_vec_bi, q.v, "v-infinity in the body frame", atol=1e-9 * q.vm)
	for got, want, w in ((o.S_vec_bi_unit, q.S, "S"), (o.T_vec_bi_unit, q.T, "T"), (o.R_vec_bi_unit, q.R, "R"), (o.B_vec_bi_unit, q.B, "B"),
						(o.rp_vec_bi_unit, q.P, "periapsis"), (o.e_vec_bi_unit, q.P, "eccentricity"), (o.h_vec_bi_unit, q.H, "angular momentum")):
		close(got, want, w + " direction", atol=1e-7)
	close(o.rp_vec_bi, rp * q.P, "periapsis vector", atol=1e-7 * rp)
	close(o.h, q.h, "angular momentum", rtol=1e-7)
	angle_close(o.b_plane_angle_theta, np.arctan2(q.B @ q.R, q.B @ q.T), "B-plane angle", atol=1e-7)
	el = ref.orbit(*q.at(0.3), p.GM)
	close(o.i, el["i"], "inclination", atol=1e-6 / equ)
	angle_close(o.OMEGA, el["OMEGA"], "right ascension of the node", atol=1e-6 / equ)
	angle_close(o.omega, el["omega"], "argument of periapsis", atol=1e-6 / equ)
	lim = np.arccos(-1 / q.e)
	tol = 2e-7 / equ
	for f in (lim * 0.999 * np.array(c["f"])).tolist() + [0.0]:
		R, V = q.at(f)
		close(o.pos_vec_bi(f), R, "position at true anomaly %g" % f, atol=tol * np.linalg.norm(R))
		close(o.vel_vec_bi(f), V, "velocity at true anomaly %g" % f, atol=tol * np.linalg.norm(V))
		close(o.r_mag_bi(f), np.linalg.norm(R), "distance at true anomaly %g" % f, rtol=1e-7)
		d = np.array([q.R @ R, -q.T @ R, q.S @ R])
		close(o.pos_vec_bi_dprime(f), d, "position in the asymptote frame at true anomaly %g" % f, atol=tol * np.linalg.norm(R))
	# far out on the incoming leg the spacecraft flies along v-infinity, b away from the centre
	f = -lim * (1 - 1e-7)
	R, V = o.pos_vec_bi(f), o.vel_vec_bi(f)
	if tol < 1e-5:
		close(V / np.linalg.norm(V), q.S, "direction of the incoming asymptote", atol=1e-4)
	if not c["entry"]:
		close(o.r_vec_rp_bi, rp * q.P, "orbiter periapsis position", atol=tol * rp)
		close(o.v_vec_rp_bi, q.at(0.0)[1], "orbiter periapsis velocity", atol=tol * np.linalg.norm(q.at(0.0)[1]))
		return False
	r = p.RP + hEI
	f = q.anomaly(r)
	s = np.sqrt(max(1e-12, 1 - rp / r))                     # conditioning of the entry anomaly
	tol = 1e-6 / equ / s
	close(o.theta_star_entry, f, "true anomaly at entry", atol=tol)
	R, V = q.at(f)
	close(o.r_vec_entry_bi, R, "entry position", atol=tol * r)
	close(o.v_vec_entry_bi, V, "entry velocity", atol=tol * np.linalg.norm(V))
	close(o.v_entry_inertial_mag, np.linalg.norm(V), "inertial entry speed", rtol=1e-7)
	vm = np.linalg.norm(V)
	g = np.arcsin((R @ V) / r / vm)
	close(o.gamma_entry_inertial, g, "inertial entry flight-path angle", atol=tol)
	up = R / np.linalg.norm(R)
	lat, lon = np.arcsin(up[2]), np.arctan2(up[1], up[0])
	cl = max(np.cos(lat), 1e-9)
	close(o.latitude_entry_bi, lat, "entry latitude", atol=tol / max(cl, 1e-3))
	close(o.latitude_entry_bi_analytic, lat, "entry latitude by the other formula", atol=tol / max(cl, 1e-3))
	angle_close(o.longitude_entry_bi, lon, "entry longitude", atol=tol / cl)
	U = V - np.cross([0, 0, p.OMEGA], R)
	um = np.linalg.norm(U)
	close(o.v_vec_entry_atm, U, "atmosphere-relative entry velocity", atol=tol * (vm + abs(p.OMEGA) * r))
	close(o.v_entry_atm_mag, um, "atmosphere-relative entry speed", rtol=tol)
	ga = np.arcsin(up @ U / um)
	close(o.gamma_entry_atm, ga, "atmosphere-relative entry flight-path angle", atol=tol * vm / um / max(np.cos(ga), 1e-3) + 1e-7)
	close(o.v_vec_entry_atm_unit, U / um, "direction of the relative entry velocity", atol=2 * tol * vm / um)
	close(o.v_vec_entry_atm_unit_proj, U / um - (up @ U / um) * up, "horizontal part of that direction", atol=4 * tol * vm / um)
	east = np.array([-np.sin(lon), np.cos(lon), 0.0])
	close(o.local_latitude_parallel_vec_unit, east, "direction of the parallel at the entry point", atol=tol / cl)
	north = np.cross(up, east)
	hd = np.arctan2(U @ north, U @ east)
	raw = np.arccos(np.clip(U @ east / um, -1, 1))           # the recorded finding
	got = float(finite(o.heading_entry_atm, "entry heading"))
	t = (tol * vm / um + 1e-6) / cl
	ok = [raw, hd, hd % (2 * np.pi), abs(hd)]
	sens = max(t, np.sqrt(t)) if abs(np.sin(raw)) < 1e-2 else t / abs(np.sin(raw))
	require(any(abs(got - w) <= sens + 1e-9 for w in ok), "entry heading %.12g rad, true heading %.12g, unnormalised %.12g" % (got, hd, raw))
	return q.sinpole > 0.017


def rotations(c):
	p, v, rp, hEI, build = make(c)
	o = build()
	for name, ax in (("R1", 0), ("R2", 1), ("R3", 2)):
		M = getattr(o, name)(c["psi"])
		k = np.zeros(3)
		k[ax] = 1
		X = np.array(c["x"])
		a = -c["psi"]                                       # coordinates rotate against the axes
		want = X * np.cos(a) + np.cross(k, X) * np.sin(a) + k * (k @ X) * (1 - np.cos(a))
		close(M @ X, want, name, atol=1e-12 * (1 + np.abs(X).max()))
	F = frame(p)
	X = np.array(c["x"])
	close(o.ICRF_to_BI(X), F @ X, "ICRF to body frame", atol=1e-9 * (1 + np.linalg.norm(X)))
	close(o.ICRF_to_BI(F[2]), [0, 0, 1], "the body's pole in the body frame", atol=1e-9)
	return True


@st.composite
def case(draw, entry=None):
	v = [draw(uni(-1, 1)) for _ in range(3)]
	if np.linalg.norm(v) < 0.05:
		v = [0.6, -0.5, 0.3]
	e = draw(st.booleans()) if entry is None else entry
	return dict(planet=draw(gen.planet_id()), v=v, vm=draw(logu(0.3, 60)), rp=draw(st.one_of(uni(0.7, 1.02), uni(1.0, 3.0))) if e else draw(logu(1.001, 30)),
				psi=draw(st.one_of(uni(0, 2 * np.pi), uni(-7, 7), st.sampled_from([0.0, np.pi / 2, np.pi, 1.5 * np.pi]))), entry=e,
				hEI=draw(uni(0.3, 1.2)), f=[draw(uni(-1, 1)) for _ in range(3)], x=[draw(uni(-50, 50)) for _ in range(3)])


def heading_probe():
	from AMAT.approach import Approach
	o = Approach("NEPTUNE", v_inf_vec_icrf_kms=np.array([17.78952518, 8.62038536, 3.15801163]), rp=(24622 + 400) * 1e3, psi=3 * np.pi / 2,
				is_entrySystem=True, h_EI=1000e3)
	up = o.r_vec_entry_bi / np.linalg.norm(o.r_vec_entry_bi)
	U = o.v_vec_entry_atm
	east = np.array([-up[1], up[0], 0]) / np.hypot(up[0], up[1])
	hd = np.arctan2(U @ np.cross(up, east), U @ east)
	return abs(o.heading_entry_atm - abs(hd)) > 1e-3


KNOWN = [("heading", heading_probe, "Approach.heading_entry_atm is arccos of the east component of the relative velocity unit vector (projection not "
		"normalised, sign lost): 14.9106 deg instead of 9.5201 deg for the Neptune approach of tests/test_approach.py; pinned by that test")]

SUBS = [
	Sub("approach", case(), approach, 3000, 150000, shards=3),
	Sub("entry", case(True), approach, 3000, 150000, shards=3),
	Sub("rotations", case(False), rotations, 500, 20000, shards=1),
]
