"""P22: what a lander or an orbiter sees: target planet over one rotation, relay orbiter over time, eclipses."""
import contextlib
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, close, finite, require
from pbt.gen import logu, uni
from pbt.props.p18_approach import frame
from pbt.props.p21_insertion import build, case as orbit_case, ecc

RULE = ("one case = observer body, target body, date, latitude, orbit, time span, number of points; non-trivial = the target or orbiter is both seen and "
		"not seen within the span")
ASSUMPTIONS = ["planet positions are generated or come from astropy's built-in ephemeris, handed over in km as the JPL file (not in the repository) does", "light time is not modelled",
			"visibility within 1e-6 deg of the horizon or 1e-6 radii of the planet's edge is not judged"]
NAMES = ["VENUS", "EARTH", "MARS", "JUPITER", "SATURN", "TITAN", "URANUS", "NEPTUNE"]


def ephemeris(c):
	"""barycentric positions in km by body name"""
	if c["eph"] is not None:
		return {x: 1e8 * np.array(v) for x, v in zip(NAMES, c["eph"])}
	from astropy.coordinates import get_body_barycentric, solar_system_ephemeris
	from astropy.time import Time
	with solar_system_ephemeris.set("builtin"):
		t = Time(c["date"], scale="tdb")
		return {x: get_body_barycentric(x.lower(), t).xyz.to_value("km") for x in (c["obs"], c["tar"], "SATURN") if x != "TITAN"}


@contextlib.contextmanager
def sky(eph, date):
	import astropy.coordinates as ac
	import AMAT.visibility as mod
	from astropy import units as u
	from astropy.time import Time
	want = Time(date, scale="tdb")
	name = "get_body_barycentric_posvel"

	def fake(body, time, **kw):
		require(abs((time - want).to_value("s")) < 1e-3, "ephemeris asked for %s, expected %s" % (time, want))
		if body.upper() not in eph or body.upper() == "TITAN":
			raise KeyError(body)
		return ac.CartesianRepresentation(eph[body.upper()] * u.km), ac.CartesianRepresentation([0, 0, 0] * u.km / u.s)

	old = [(m, getattr(m, name)) for m in (ac, mod) if hasattr(m, name)]
	for m, _ in old:
		setattr(m, name, fake)
	try:
		with warnings.catch_warnings():
			warnings.simplefilter("ignore")
			yield
	finally:
		for m, f in old:
			setattr(m, name, f)


def direction(eph, obs, tar, p):
	a, b = [eph["SATURN" if x == "TITAN" else x] * 1e3 for x in (obs, tar)]
	d = b - a
	return np.linalg.norm(d), frame(p) @ (d / np.linalg.norm(d))


def lander(p, lat, lon):
	return np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat) + 0 * lon])


def elevation(o, want, what):
	"""want: elevation above the horizon, rad, unclipped"""
	w = np.degrees(want)
	n = len(w)
	for x, s in ((o.beta_array, "zenith angle"), (o.elevation_array, "elevation"), (o.visible_array, "visibility")):
		require(np.shape(x) == (n,), "%s: %s array has shape %s, expected (%d,)" % (what, s, np.shape(x), n))
	# arccos near the zenith and the nadir keeps only 1e-6 deg
	close(o.beta_array, 90 - w, what + ": zenith angle", atol=3e-6)
	close(o.elevation_array, np.maximum(w, 0), what + ": elevation", atol=3e-6)
	for k, (e, v) in enumerate(zip(w, o.visible_array)):
		if abs(e) > 1e-5:
			require(bool(v) == (e > 0), lambda: "%s: sample %d at elevation %.9g deg reported %s" % (what, k, e, "visible" if v else "not visible"))
	return bool(np.any(w > 0) and np.any(w < 0))


def to_planet(c):
	from AMAT.visibility import LanderToPlanet
	obs, tar = c["obs"], c["tar"]
	if "SATURN" in (obs, tar) and "TITAN" in (obs, tar) or obs == tar:
		return False
	p = gen.make_planet(obs, atm=False)
	n = c["n"]
	eph = ephemeris(c)
	rng, d = direction(eph, obs, tar, p)
	if rng < 1e9:
		return False
	with sky(eph, c["date"]):
		o = LanderToPlanet(target_planet=tar, observer_planet=obs, latitude=c["lat"], date=c["date"], num_points=n, ephem_file="builtin")
	close(o.range, rng, "range", rtol=1e-9)
	a = np.radians(c["lat"]) + 0.3
	for k, ax in enumerate(np.eye(3)):
		w = d * np.cos(a) - np.cross(ax, d) * np.sin(a) + ax * (ax @ d) * (1 - np.cos(a))
		close(getattr(o, "R%d" % (k + 1))(a) @ d, w, "coordinates in axes turned about axis %d" % (k + 1), atol=1e-12)
	close(o.obs_tar_pos_vec_bi_unit, d, "direction of the target in the body frame", atol=1e-9)
	# one rotation, sampled from the start in time order
	T = 2 * np.pi / abs(p.OMEGA)
	close(o.t_array, np.linspace(0, T, n), "time over one rotation", atol=1e-9 * T)
	lon = np.radians(finite(o.longitude_array, "longitude"))
	require(lon.shape == (n,), "longitude array has shape %s" % (lon.shape,))
	close(np.exp(1j * lon).real, np.cos(p.OMEGA * np.linspace(0, T, n)), "longitude of the lander", atol=1e-7)
	close(np.exp(1j * lon).imag, np.sin(p.OMEGA * np.linspace(0, T, n)), "longitude of the lander", atol=1e-7)
	up = lander(p, np.radians(c["lat"]), p.OMEGA * np.linspace(0, T, n))
	return elevation(o, np.arcsin(np.clip(d @ up, -1, 1)), "%s from %s" % (tar, obs))


def track(p, q, rp, ra, t):
	a, e = (rp + ra) / 2, (ra - rp) / (ra + rp)
	P = 2 * np.pi * np.sqrt(a ** 3 / p.GM)
	X = []
	for x in t:
		E = ecc(2 * np.pi * x / P, e)
		X.append(a * (np.cos(E) - e) * q.P + a * np.sqrt(1 - e * e) * np.sin(E) * q.Q)
	return np.array(X).T, P, e


class Fake:
	"""an orbiter that follows a given path (radii of the planet)"""

	def __init__(self, f):
		self.f = f

	def compute_timed_orbit_trajectory(self, t_seconds, num_points=101):
		self.t_array = np.linspace(0, t_seconds, num_points)
		self.x_timed_orbit_arr, self.y_timed_orbit_arr, self.z_timed_orbit_arr = self.f(self.t_array)


def to_orbiter(c):
	from AMAT.visibility import LanderToOrbiter
	n = c["n"]
	lat = np.radians(c["lat"])
	if c["fake"] is not None:
		# a spacecraft that stays over (or nearly over) the lander
		p = gen.make_planet(c["planet"], atm=False)
		T = c["T"] * 2 * np.pi / abs(p.OMEGA)
		k, off = c["fake"]
		fn = lambda t: k * np.array(lander(p, lat, p.OMEGA * t)) + off * np.array([-np.sin(p.OMEGA * t), np.cos(p.OMEGA * t), 0 * t])
		orb = Fake(fn)
		X = p.RP * fn(np.linspace(0, T, n))
		tol = 1e-9 * p.RP
	else:
		b = build(c)
		if b is None:
			return False
		p, q, rp, ra, equ, orb = b
		e = (ra - rp) / (ra + rp)
		T = c["T"] * 2 * np.pi * np.sqrt(((rp + ra) / 2) ** 3 / p.GM)
		X = track(p, q, rp, ra, np.linspace(0, T, n))[0]
		tol = (1e-6 / equ + 1e-6 / (1 - e)) * ra
	t = np.linspace(0, T, n)
	o = LanderToOrbiter(planet=c["planet"], latitude=c["lat"], orbiter=orb, t_seconds=T, num_points=n)
	close(o.t_array, t, "time", atol=1e-9 * T)
	up = lander(p, lat, p.OMEGA * t)
	L = np.array([o.lander_pos_x_bi_arr, o.lander_pos_y_bi_arr, o.lander_pos_z_bi_arr])
	close(L, p.RP * up, "position of the lander", atol=1e-7 * p.RP)
	Y = np.array([o.orbiter_pos_x_bi_arr, o.orbiter_pos_y_bi_arr, o.orbiter_pos_z_bi_arr])
	close(Y, X, "position of the orbiter", atol=2 * tol)
	# judge the rest from the positions just compared
	D = Y - p.RP * up
	r = np.linalg.norm(D, axis=0)
	close(o.range_array, r, "range", rtol=1e-6, atol=1e-9 * p.RP)
	if np.min(r) < 1e-3 * p.RP:
		return False
	el = np.arctan2((D * up).sum(0), np.linalg.norm(D - up * (D * up).sum(0), axis=0))
	both = elevation(o, el, "orbiter over %s" % c["planet"])
	# above the horizon plane of the lander
	for k in range(n):
		s = (Y[:, k] @ up[:, k]) / p.RP - 1
		if abs(s) > 1e-5:
			require(bool(o.visible_array[k]) == (s > 0), "sample %d: the orbiter is %s the lander's horizon plane but reported %s" % (
				k, "above" if s > 0 else "below", "visible" if o.visible_array[k] else "not visible"))
	return both or c["fake"] is not None


def eclipse(c):
	from AMAT.visibility import OrbiterToPlanet
	obs, tar = c["planet"], c["tar"]
	if "SATURN" in (obs, tar) and "TITAN" in (obs, tar) or obs == tar:
		return False
	n = c["n"]
	p = gen.make_planet(obs, atm=False)
	eph = ephemeris(dict(c, obs=obs))
	rng, d = direction(eph, obs, tar, p)
	if rng < 1e9:
		return False
	if c["fake"] is not None:
		# crosses the shadow at a chosen height above the planet's centre line
		T = 1000.0
		k, off = c["fake"]
		s = np.cross(d, [0.3, 0.5, 0.81])
		s /= np.linalg.norm(s)
		w = np.cross(d, s)
		fn = lambda t: np.outer(-d, 0 * t + k) + np.outer(s, 4 * (t / T - 0.5)) + np.outer(w, 0 * t + off)
		orb = Fake(fn)
	else:
		b = build(c)
		if b is None:
			return False
		p, q, rp, ra, equ, orb = b
		T = c["T"] * 2 * np.pi * np.sqrt(((rp + ra) / 2) ** 3 / p.GM)
	with sky(eph, c["date"]):
		o = OrbiterToPlanet(target_planet=tar, observer_planet=obs, orbiter=orb, date=c["date"], t_seconds=T, num_points=n, ephem_file="builtin")
	close(o.range, rng, "range", rtol=1e-9)
	close(o.obs_tar_pos_vec_bi_unit, d, "direction of the target in the body frame", atol=1e-9)
	close(o.t_array, np.linspace(0, T, n), "time", atol=1e-9 * T)
	X = np.array([o.orbiter_pos_x_bi_arr, o.orbiter_pos_y_bi_arr, o.orbiter_pos_z_bi_arr])
	if c["fake"] is None:
		e = (ra - rp) / (ra + rp)
		close(X * p.RP, track(p, q, rp, ra, np.linspace(0, T, n))[0], "position of the orbiter", atol=2 * ra * (1e-6 / equ + 1e-6 / (1 - e)))
	else:
		close(X, fn(np.linspace(0, T, n)), "position of the orbiter", atol=1e-9)
	require(np.shape(o.visible_array) == (n,), "visibility array has shape %s" % (np.shape(o.visible_array),))
	hid = 0
	for k in range(n):
		a = X[:, k]
		along = a @ d
		off = np.linalg.norm(a - along * d)
		close(o.d_array[k], off, "distance of the line of sight from the planet's centre, sample %d" % k, atol=1e-6 * np.linalg.norm(a))
		if abs(off - 1) < 1e-5 or abs(along) < 1e-6:
			continue
		want = not (off < 1 and along < 0)
		hid += not want
		require(bool(o.visible_array[k]) == want, "sample %d: line of sight %.9g radii off the centre, spacecraft %s the planet, reported %s" % (
			k, off, "behind" if along < 0 else "before", "visible" if o.visible_array[k] else "eclipsed"))
	return 0 < hid < n


date = st.builds("{:04d}-{:02d}-{:02d} {:02d}:{:02d}:{:02d}".format, st.integers(2000, 2060), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59))
positions = st.one_of(st.none(), st.tuples(*[st.tuples(*[uni(-40, 40)] * 3)] * len(NAMES)))
latitude = st.one_of(uni(-90, 90), uni(-40, 40), st.sampled_from([0.0, 90.0, -90.0]))


@st.composite
def planets(draw):
	return dict(obs=draw(st.sampled_from(NAMES)), tar=draw(st.sampled_from(NAMES)), lat=draw(latitude), date=draw(date), eph=draw(positions), n=draw(st.integers(2, 101)))


@st.composite
def orbits(draw, eclipse=False):
	c = draw(orbit_case())
	c["lat"] = draw(latitude)
	c["n"] = draw(st.integers(2, 120))
	c["T"] = draw(uni(0.2, 3.0))
	c["fake"] = draw(st.one_of(st.none(), st.none(), st.tuples(uni(1.05, 10), st.one_of(st.just(0.0), uni(-0.9, 0.9)))))
	if eclipse:
		c["tar"] = draw(st.sampled_from(NAMES))
		c["date"] = draw(date)
		c["eph"] = draw(positions)
		c["rp"] = draw(logu(1.01, 2.5))
		c["fake"] = draw(st.one_of(st.none(), st.none(), st.tuples(st.one_of(uni(1.05, 10), uni(-5, -1.05)), st.one_of(uni(-1.2, 1.2)))))
	return c


SUBS = [
	Sub("to_planet", planets(), to_planet, 500, 20000, shards=2),
	Sub("to_orbiter", orbits(), to_orbiter, 500, 20000, shards=3),
	Sub("eclipse", orbits(True), eclipse, 500, 20000, shards=3),
]
