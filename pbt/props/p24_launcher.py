"""P24: launch mass from a performance table."""
import glob
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import core
from pbt.core import Sub, close, finite, require
from pbt.gen import logu, uni

RULE = "one case = performance table (generated or shipped), interpolation kind and queries; non-trivial = at least one query inside the table and off its rows"
ASSUMPTIONS = ["spline kinds are compared at the rows and against scipy's spline of the same order in between"]
REPO = os.environ.get("VERIF_REPO", "/repo")


def write(XY, how):
	f = tempfile.NamedTemporaryFile("w", suffix=".csv", delete=False)
	for x, y in XY:
		f.write({"g": "%.17g,%.17g\n", "sp": "%.17g, %.17g\n", "e": "%.17e,%.17e\n"}[how] % (x, y))
	f.close()
	return f.name


def expected(X, Y, kind, q):
	"""X ascending"""
	if kind == "linear":
		k = int(np.clip(np.searchsorted(X, q, side="right") - 1, 0, len(X) - 2))
		return Y[k] + (Y[k + 1] - Y[k]) * (q - X[k]) / (X[k + 1] - X[k])
	if kind == "previous":
		return Y[np.searchsorted(X, q, side="right") - 1]
	if kind == "next":
		return Y[np.searchsorted(X, q, side="left")]
	if kind == "nearest":
		return Y[np.argmin(np.abs(X - q))]
	from scipy.interpolate import make_interp_spline
	return float(make_interp_spline(X, Y, k=dict(quadratic=2, cubic=3)[kind])(q))


def check(L, X, Y, kind, qs):
	"""X ascending; qs: fractions of the span, from -0.5 to 1.5"""
	span = X[-1] - X[0]
	inside = False
	for f in qs:
		q = X[0] + f * span
		m = finite(L.launchMass(q), "launch mass at C3 %.12g" % q)
		if q < X[0] - 1e-9 * span or q > X[-1] + 1e-9 * span:
			require(float(m) == 0, "launch mass %g kg at C3 %g outside the table [%g, %g]" % (m, q, X[0], X[-1]))
			continue
		if q < X[0] or q > X[-1]:
			continue
		if kind in ("previous", "next", "nearest"):
			mid = (X[1:] + X[:-1]) / 2 if kind == "nearest" else X
			if np.min(np.abs(mid - q)) < 1e-9 * span:
				continue
		inside |= bool(np.min(np.abs(X - q)) > 1e-6 * span)
		close(m, expected(X, Y, kind, q), "launch mass at C3 %.12g (%s)" % (q, kind), rtol=1e-7, atol=1e-7 * np.max(np.abs(Y)))
		if kind == "linear":
			k = int(np.clip(np.searchsorted(X, q, side="right") - 1, 0, len(X) - 2))
			lo, hi = sorted(Y[k:k + 2])
			require(lo - 1e-9 * abs(hi) <= float(m) <= hi + 1e-9 * abs(hi), "launch mass %g at C3 %g is outside its neighbours %g and %g" % (m, q, lo, hi))
	for x, y in zip(X, Y):
		close(L.launchMass(x), y, "launch mass at the tabulated C3 %.12g (%s)" % (x, kind), rtol=1e-9, atol=1e-9 * np.max(np.abs(Y)))
	a = X[0] + np.array(qs) * span
	v = np.asarray(L.launchMass(a))
	require(v.shape == a.shape, "array query has shape %s" % (v.shape,))
	close(v, [float(L.launchMass(x)) for x in a], "array query against single queries", rtol=1e-12)
	return inside


def table(c):
	from AMAT.launcher import Launcher
	X = c["x0"] + np.concatenate([[0.0], np.cumsum(c["dx"])])
	Y = np.array(c["y"][:len(X)])
	kind = c["kind"]
	if len(X) < dict(quadratic=3, cubic=4).get(kind, 2):
		return False
	o = np.argsort(np.array(c["perm"][:len(X)]), kind="stable") if c["shuffle"] else np.arange(len(X))
	if c["shuffle"] == "reverse":
		o = np.arange(len(X))[::-1]
	f = write(np.c_[X, Y][o], c["how"])
	try:
		L = Launcher("a launcher", f, **({} if kind == "linear" and c["default"] else dict(kind=kind)))
	finally:
		os.unlink(f)
	require(L.ID == "a launcher", "identifier is %r" % (L.ID,))
	close(L.XY, np.c_[X, Y][o], "stored table", rtol=1e-12)
	return check(L, X, Y, kind, c["q"])


def shipped(c):
	from AMAT.launcher import Launcher
	files = sorted(glob.glob(os.path.join(REPO, "launcher-data", "*.csv")))
	f = files[int(c["f"] * len(files)) % len(files)]
	XY = np.array([[float(x) for x in line.split(",")] for line in open(f) if line.strip()])
	XY = XY[np.argsort(XY[:, 0])]
	L = Launcher("x", f)
	r = check(L, XY[:, 0], XY[:, 1], "linear", c["q"])
	q = np.sort(XY[0, 0] + np.clip(np.array(c["q"]), 0, 1) * (XY[-1, 0] - XY[0, 0]))
	m = np.asarray(L.launchMass(q))
	require(np.all(np.diff(m) <= 1e-9 * m[0]), "%s: a higher C3 gives more mass" % os.path.basename(f))
	return r


qs = st.lists(st.one_of(uni(0, 1), uni(-0.5, 1.5), st.sampled_from([0.0, 1.0, -1e-3, 1.001])), min_size=1, max_size=8)


@st.composite
def tables(draw):
	n = draw(st.integers(2, 12))
	return dict(x0=draw(uni(-20, 80)), dx=[draw(uni(0.5, 30)) for _ in range(n - 1)], y=[draw(st.one_of(uni(0, 2e4), uni(100, 2e4))) for _ in range(n)],
				kind=draw(st.sampled_from(["linear", "linear", "linear", "previous", "next", "nearest", "quadratic", "cubic"])), default=draw(st.booleans()),
				shuffle=draw(st.sampled_from([None, None, "reverse", "perm"])), perm=[draw(st.integers(0, 100)) for _ in range(n)], how=draw(st.sampled_from(["g", "sp", "e"])), q=draw(qs))


SUBS = [
	Sub("table", tables(), table, 1500, 80000, shards=2),
	Sub("shipped", st.fixed_dictionaries(dict(f=uni(0, 1), q=qs)), shipped, 600, 20000, shards=1),
]
