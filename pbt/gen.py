"""Shared generators and builders (all random choices come from Hypothesis)."""
import functools
import os

import numpy as np
from hypothesis import strategies as st

from pbt import core

PLANETS = ["VENUS", "EARTH", "MARS", "JUPITER", "SATURN", "TITAN", "URANUS", "NEPTUNE"]

# shipped mean-atmosphere tables: file, height, temp, pres, dens columns, height in km
ATM = {
	"VENUS": ("Venus/venus-gram-avg.dat", 0, 1, 2, 3, False),
	"EARTH": ("Earth/earth-gram-avg.dat", 0, 1, 2, 3, False),
	"MARS": ("Mars/mars-gram-avg.dat", 0, 1, 2, 3, False),
	"JUPITER": ("Jupiter/jupiter-galileo-asi.dat", 0, 1, 2, 3, True),
	"SATURN": ("Saturn/saturn-nominal.dat", 0, 1, 2, 3, True),
	"TITAN": ("Titan/titan-gram-avg.dat", 0, 1, 2, 3, False),
	"URANUS": ("Uranus/uranus-gram-avg.dat", 0, 1, 2, 3, True),
	"NEPTUNE": ("Neptune/neptune-gram-avg.dat", 0, 7, 6, 5, True),
}


def f(lo, hi):
	"""Floats in [lo, hi], finite, without subnormals."""
	return st.floats(min_value=lo, max_value=hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)


# Hypothesis draws integers from wide ranges with most weight near the simplest value (the median of 0..10**6 is 3000), so a
# fraction of a range is put together from three short digits, which are uniform. A few draws go to the ends and close to them.
_DIGITS = st.tuples(st.integers(0, 119), st.integers(0, 99), st.integers(0, 99))


def _fraction(d):
	a, b, c = d
	if a < 100:
		return (a * 10000 + b * 100 + c) / 999999
	x = 10.0 ** (-1 - b / 20)
	return x if a < 107 else 1 - x if a < 112 else 0.0 if a < 115 else 1.0 if a < 118 else 0.5


FRACTION = _DIGITS.map(_fraction)


def uni(lo, hi):
	"""Uniform between lo and hi (both included), with some extra weight at and close to the ends."""
	return FRACTION.map(lambda x: min(max(lo + (hi - lo) * x, lo), hi))


def logu(lo, hi):
	"""The same for the logarithm."""
	a, b = np.log(lo), np.log(hi)
	return FRACTION.map(lambda x: min(max(float(np.exp(a + (b - a) * x)), lo), hi))


def planet_id():
	return st.sampled_from(PLANETS)


def atm_path(pid):
	return os.path.join(core.REPO, "atmdata", ATM[pid][0])


def make_planet(pid, atm=True, kind="cubic"):
	from AMAT.planet import Planet
	p = Planet(pid)
	if atm:
		_, a, b, c, d, km = ATM[pid]
		p.loadAtmosphereModel(atm_path(pid), a, b, c, d, intType=kind, heightInKmFlag=km)
	return p


@functools.lru_cache(maxsize=None)
def table(pid):
	"""Independent reading of the shipped table: ascending height (m), T, P, rho."""
	fn, a, b, c, d, km = ATM[pid]
	rows = []
	with open(atm_path(pid)) as fh:
		for line in fh:
			line = line.split("#")[0].strip()
			if line:
				rows.append([float(x) for x in line.split()])
	M = np.array(rows)
	h = M[:, a] * (1000.0 if km else 1.0)
	o = np.argsort(h, kind="stable")
	return h[o], M[o, b], M[o, c], M[o, d]


# ---------------------------------------------------------------- vehicles and states
VEH = dict(mass=logu(5.0, 2e4), beta=logu(5.0, 800.0), LD=st.one_of(st.just(0.0), uni(0.0, 1.5), uni(-0.5, 0.0)),
		A=logu(0.05, 60.0), alpha=uni(-0.5, 0.5), RN=logu(0.05, 12.0))


def vehicle_params():
	return st.fixed_dictionaries(VEH)


def make_vehicle(p, v, cdmach=None):
	from AMAT.vehicle import Vehicle
	if cdmach is None:
		return Vehicle("V", v["mass"], v["beta"], v["LD"], v["A"], v["alpha"], v["RN"], p)
	o = Vehicle("V", v["mass"], v["beta"], v["LD"], v["A"], v["alpha"], v["RN"], p, userDefinedCDMach=True)
	o.setCDMachFunction(cdmach)
	return o


def cdmach_table():
	"""a piecewise-linear CD(Mach)"""
	return st.lists(uni(0.2, 3.0), min_size=3, max_size=5)


def cdmach_fn(tab):
	x = np.linspace(0.0, 40.0, len(tab))
	y = np.array(tab)
	return lambda M: np.interp(M, x, y)


@functools.lru_cache(maxsize=None)
def spline(pid, kind, col):
	"""reference interpolant of a shipped table (0 T, 1 P, 2 rho, 3 sonic speed)"""
	from scipy.interpolate import CubicSpline, make_interp_spline
	H, T, P, R = table(pid)
	if col == 3:
		from pbt.props.p01_bodies import REF
		Y = np.sqrt(REF[pid][4] * P / R)
	else:
		Y = (T, P, R)[col]
	if kind == "linear":
		return lambda x: np.interp(x, H, Y)
	if kind == "quadratic":
		return make_interp_spline(H, Y, k=2)
	return CubicSpline(H, Y, bc_type="not-a-knot")


def rho_fn(pid, p, kind="cubic"):
	"""scalar density of the loaded model: reference interpolation with the documented cut-offs"""
	s = spline(pid, kind, 2)
	H = table(pid)[0]
	lo, hi = float(H[0]), float(H[-1])

	def rho(h):
		if h < 0:
			return p.rho0
		if h > p.h_thres or h > hi or h < lo:
			return 0.0
		return float(s(h))
	return rho


@st.composite
def entry_state(draw, vmin=0.6, vmax=1.45, gmin=-25.0, gmax=-1.0):
	"""an entry from the skip altitude; speed as a fraction of the local escape speed"""
	return dict(planet=draw(planet_id()), vf=draw(uni(vmin, vmax)), gamma=draw(uni(gmin, gmax)),
				theta=draw(st.one_of(uni(-180, 180), uni(-900, 900))), phi=draw(st.one_of(uni(-70, 70), st.just(0.0))),
				psi=draw(st.one_of(uni(0, 360), uni(-180, 180), uni(-700, 700), st.sampled_from([0.0, 90.0, 180.0, 270.0]))),
				h0f=draw(uni(0.7, 1.0)), drange=draw(st.one_of(st.just(0.0), uni(0, 5000), logu(1e3, 1e6))),
				heat=draw(st.one_of(st.just(0.0), uni(0, 5e4), logu(1.0, 1e7))))


def entry_vehicle():
	return st.fixed_dictionaries(dict(mass=logu(20.0, 5000.0), beta=logu(20.0, 400.0),
									LD=st.one_of(st.just(0.0), uni(0.0, 0.8)), A=logu(0.3, 30.0), alpha=st.just(0.0), RN=logu(0.1, 5.0)))


def start(p, s):
	"""SI start state of an entry_state for planet p: r theta phi v psi gamma drange"""
	D = np.pi / 180
	h0 = p.h_skip * s["h0f"]
	r = p.RP + h0
	v = s["vf"] * np.sqrt(2 * p.GM / r)
	return np.array([r, s["theta"] * D, s["phi"] * D, v, s["psi"] * D, s["gamma"] * D, s["drange"] * 1e3])


def depth_gamma(pid, p, h0, v, beta, x):
	"""entry angle (deg) at altitude h0 and speed v for which a ballistic pass loses about the fraction x of its speed"""
	H, T, P, R = table(pid)
	r = p.RP + h0
	best = None
	for i in range(1, len(H) - 1):
		if H[i] <= 0 or H[i] >= h0 * 0.95 or R[i + 1] <= 0 or R[i + 1] >= R[i]:
			continue
		Hs = (H[i + 1] - H[i]) / np.log(R[i] / R[i + 1])
		loss = R[i] * np.sqrt(2 * np.pi * p.RP * Hs) / (2 * beta)
		d = abs(np.log(loss / x))
		if best is None or d < best[0]:
			best = (d, H[i])
	rp = p.RP + best[1]
	vp = np.sqrt(v * v + 2 * p.GM * (1 / rp - 1 / r))
	return -float(np.degrees(np.arccos(min(1.0, rp * vp / (r * v)))))
