"""P02: the atmosphere model is the loaded table, interpolated, with documented cut-offs."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline, make_interp_spline

from pbt import gen
from pbt.core import REPO, Sub, close, fail, finite, require
from pbt.gen import planet_id, uni

RULE = ("one case = a generated lookup table (row order, columns, unit flag, interpolation type) or a shipped table, "
		"plus query altitudes below, inside, at the knots of and above it; non-trivial = at least one query strictly "
		"inside the table between two knots")


def interp(kind, H, Y):
	"""independent interpolant through (H, Y), H ascending"""
	if kind == "linear":
		return lambda x: np.interp(x, H, Y)
	if kind == "quadratic":
		return make_interp_spline(H, Y, k=2)
	return CubicSpline(H, Y, bc_type="not-a-knot")


def queries(c, H, h_thres):
	lo, hi = H[0], H[-1]
	q = [lo + (hi - lo) * u for u in c["q"]]
	q += [float(H[i % len(H)]) for i in c["knots"]]
	q += [-1.0, -2500.0, 0.0, h_thres, h_thres + 0.5, hi + 1.0, hi + 1e5, lo - 1.0]
	return np.array(q)


def check(p, c, kind, H, T, P, R, tol):
	"""every accessor of the planet object against the independent model"""
	S = np.sqrt(p.CPCV * P / R)
	Q = queries(c, H, p.h_thres)
	inside = (Q >= H[0]) & (Q <= H[-1])
	want = {}
	for nm, Y, fill in (("temperature", T, 0.0), ("pressure", P, 0.0), ("density", R, 0.0), ("sonic", S, 1e20)):
		f = interp(kind, H, Y)
		w = np.full(len(Q), fill)
		w[inside] = f(Q[inside])
		want[nm] = (w, np.max(np.abs(Y)))
	def eq(got, nm, what):
		w, s = want[nm]
		close(got, w, what, rtol=1e-8, atol=tol * s)
	eq(p.tempvectorized(Q), "temperature", "temperature at altitude")
	eq(p.presvectorized(Q), "pressure", "pressure at altitude")
	eq(p.densityvectorized(Q), "density", "density at altitude")
	eq(p.avectorized(Q), "sonic", "sonic speed at altitude")
	# the same by radius; the altitude is rebuilt from the radius, so queries on a table edge are left out
	edge = (np.abs(Q - H[0]) > 1e-3) & (np.abs(Q - H[-1]) > 1e-3)
	rr = p.RP + Q
	for fn, nm in (("rhovectorized", "density"), ("pressurevectorized", "pressure"),
				("temperaturevectorized", "temperature"), ("sonicvectorized", "sonic")):
		w, s = want[nm]
		got = np.asarray(getattr(p, fn)(rr))
		require(got.shape == rr.shape, "%s by radius has shape %s" % (nm, got.shape))
		slope = 1e-6 * s * 1e-3 + tol * s
		close(got[edge], w[edge], "%s at radius" % nm, rtol=1e-6, atol=slope)
	# scalar density with the cut-off rules
	for k, h in enumerate(Q):
		h = float(h)
		if h < 0:
			w = p.rho0
		elif h > p.h_thres:
			w = 0.0
		else:
			w = want["density"][0][k]
		s = want["density"][1]
		close(p.density(h), w, "scalar density at h=%r" % h, rtol=1e-8, atol=tol * s)
		if min(abs(h), abs(h - p.h_thres), abs(h - H[0]), abs(h - H[-1])) > 1e-3:
			for th, ph in c["pos"]:
				close(p.rho(p.RP + h, th, ph), w, "density at a radius, longitude and latitude", rtol=1e-6, atol=(tol + 1e-9) * s)
				close(p.rho2((p.RP + h) / p.RP, th, ph), w, "density at a non-dimensional radius", rtol=1e-6, atol=(tol + 1e-9) * s)
				close(p.rhobar((p.RP + h) / p.RP, th, ph), w / p.rho0, "non-dimensional density", rtol=1e-6,
					atol=(tol + 1e-9) * s / p.rho0)
	ins = Q[(Q > H[0]) & (Q < H[-1])]
	return bool(len(ins)) and not np.all(np.isin(ins, H))


def made(c):
	from AMAT.planet import Planet
	n = len(c["dh"])
	H = c["h0"] + np.concatenate(([0.0], np.cumsum(c["dh"])))[:n]
	H = np.round(H, 3)
	T, P, R = (np.array(c[k]) for k in ("T", "P", "R"))
	cols = c["cols"]                      # where height, T, P, rho go
	M = np.full((n, c["ncol"]), -7.0)
	hh = H / 1000.0 if c["km"] else H
	M[:, cols[0]], M[:, cols[1]], M[:, cols[2]], M[:, cols[3]] = hh, T, P, R
	if c["order"] == "descending":
		M = M[::-1]
	fd, path = tempfile.mkstemp(prefix="vp_atm_")
	try:
		with os.fdopen(fd, "w") as fh:
			if c["comment"]:
				fh.write("# height T P rho\n")
			for row in M:
				fh.write(" ".join(repr(float(x)) for x in row) + "\n")
		p = Planet(c["planet"])
		if c["thres"] is not None:
			p.h_thres = c["thres"]
		if c["kind"] is None:
			p.loadAtmosphereModel(path, *cols, heightInKmFlag=c["km"])
		else:
			p.loadAtmosphereModel(path, *cols, intType=c["kind"], heightInKmFlag=c["km"])
	finally:
		os.unlink(path)
	H = hh * 1e3 if c["km"] else H
	return check(p, c, c["kind"] or "cubic", H, T, P, R, 1e-9)


@st.composite
def made_case(draw):
	n = draw(st.integers(5, 12))
	ncol = draw(st.integers(4, 8))
	L = lambda s: draw(st.lists(s, min_size=n, max_size=n))
	r0 = draw(uni(1e-3, 50))
	dec = draw(st.booleans())
	R = L(gen.logu(1e-9, 60.0))
	if dec:
		R = sorted(R, reverse=True)
	return dict(planet=draw(planet_id()), ncol=ncol, cols=draw(st.permutations(range(ncol)))[:4],
				km=draw(st.booleans()), order=draw(st.sampled_from(["ascending", "descending"])),
				comment=draw(st.booleans()), kind=draw(st.sampled_from(["linear", "quadratic", "cubic", None])),
				h0=draw(st.sampled_from([0.0, 0.0, 0.0, 1000.0, -3000.0])), dh=L(uni(500.0, 60000.0)),
				T=L(uni(40.0, 1000.0)), P=L(gen.logu(1e-6, 1e7)), R=R,
				thres=draw(st.one_of(st.none(), uni(2e3, 5e5))),
				q=draw(st.lists(uni(-0.05, 1.05), min_size=3, max_size=8)), knots=draw(st.lists(st.integers(0, 40), max_size=4)),
				pos=draw(st.lists(st.tuples(uni(-3.2, 3.2), uni(-1.5, 1.5)), min_size=1, max_size=2)))


def shipped(c):
	p = gen.make_planet(c["planet"], kind=c["kind"])
	H, T, P, R = gen.table(c["planet"])
	nt = check(p, c, c["kind"], H, T, P, R, 1e-9)
	# the shipped tables give a physical atmosphere everywhere below the cut-off
	q = np.array([u * min(p.h_thres, H[-1]) for u in c["q01"]] )
	q = q[q >= H[0]]
	for nm, v in (("density", p.densityvectorized(q)), ("pressure", p.presvectorized(q)),
				("temperature", p.tempvectorized(q)), ("sonic speed", p.avectorized(q))):
		finite(v, nm)
		require(np.all(np.asarray(v) > 0), "%s of the shipped %s atmosphere is not positive" % (nm, c["planet"]))
	return nt


@st.composite
def shipped_case(draw):
	return dict(planet=draw(planet_id()), kind=draw(st.sampled_from(["linear", "quadratic", "cubic"])),
				q=draw(st.lists(uni(-0.02, 1.02), min_size=3, max_size=8)), knots=draw(st.lists(st.integers(0, 5000), max_size=4)),
				q01=draw(st.lists(uni(0, 1), min_size=5, max_size=15)),
				pos=draw(st.lists(st.tuples(uni(-3.2, 3.2), uni(-1.5, 1.5)), min_size=1, max_size=1)))


def scale_height(c):
	"""H(h) (rho(h) - rho(h_skip)) is the column mass above h (to the 1 km resolution of the documented sum),
	for the profile that is passed in: the planet's own, or any other one."""
	p = gen.make_planet(c["planet"])
	f0 = p.density_int
	k, H = c["factor"], c["H"]
	if c["profile"] == "own":
		f = f0
	elif c["profile"] == "scaled":
		f = lambda x: k * f0(x)
	else:
		f = lambda x: k * np.exp(-np.asarray(x, dtype=float) / H)
	h = c["h"] * p.h_skip
	got = float(p.scaleHeight(h, f))
	def column(a):
		a = max(a, 0.0)
		x = np.linspace(a, p.h_skip, 20001)
		y = np.asarray(f(x), dtype=float)
		return float(np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(x)))
	d = float(f(h)) - float(f(p.h_skip))
	if not d > 0 or h > p.h_skip - 5e3:
		return False
	top, bot = column(h - 2100.0), column(min(h + 2100.0, p.h_skip))
	require(bot * 0.97 / d - 1 <= got <= top * 1.03 / d + 1,
			"scale height %.6g m, column mass above the altitude allows [%.6g, %.6g] m" % (got, bot * 0.97 / d, top * 1.03 / d))
	if c["profile"] == "scaled":
		close(got, float(p.scaleHeight(h, f0)), "scale height of a profile scaled by a constant", rtol=1e-6)
	if c["profile"] == "exp" and H > 8000.0 and p.h_skip - h > 15 * H:
		close(got, H, "scale height of an exponential profile", rtol=0.15 if H < 20000 else 0.08)
	return True


@st.composite
def sh_case(draw):
	return dict(planet=draw(planet_id()), h=draw(uni(0.0, 0.95)), profile=draw(st.sampled_from(["own", "scaled", "exp"])),
				factor=draw(gen.logu(0.01, 100.0)), H=draw(uni(6000.0, 60000.0)))


SUBS = [
	Sub("generated_tables", made_case(), made, 700, 30000, shards=2),
	Sub("shipped_tables", shipped_case(), shipped, 400, 20000, shards=2),
	Sub("scale_height", sh_case(), scale_height, 300, 15000),
]
