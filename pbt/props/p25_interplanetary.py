"""P25: interplanetary trajectory data set, launch capability and its plots."""
import contextlib
import datetime
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import figures
from pbt.core import Sub, close, finite, require
from pbt.gen import logu, uni
from pbt.props.p24_launcher import expected, write

RULE = ("one case = trajectory table (launch dates in some format, launch C3, flight time, arrival v-infinity), launcher table and a plot; non-trivial = "
		"at least one trajectory within and one outside the launcher's C3 range, at least three trajectories")
ASSUMPTIONS = ["pandas.read_excel is replaced by a function that returns the generated table for the requested file and sheet (no Excel reader is installed)",
			"figures are inspected instead of being written to files"]
FORMATS = ["%Y%m%d", "%Y-%m-%d", "%m/%d/%Y", "%Y%j"]


@contextlib.contextmanager
def excel(book):
	import pandas as pd
	import AMAT.interplanetary as mod

	def fake(io, sheet_name=0, **kw):
		if (io, sheet_name) not in book:
			raise FileNotFoundError("%r sheet %r" % (io, sheet_name))
		return book[io, sheet_name].copy()

	old = [(m, m.read_excel) for m in (pd, mod) if hasattr(m, "read_excel")]
	for m, _ in old:
		m.read_excel = fake
	try:
		yield
	finally:
		for m, f in old:
			m.read_excel = f


def build(c):
	import pandas as pd
	from AMAT.interplanetary import Interplanetary
	from AMAT.launcher import Launcher
	n = len(c["rows"])
	X = c["x0"] + np.concatenate([[0.0], np.cumsum(c["dx"])])
	c = dict(c, rows=[(r[0], X[0] + r[1] * (X[-1] - X[0]), r[2], r[3]) for r in c["rows"]])
	days = [datetime.date(2025, 1, 1) + datetime.timedelta(int(r[0])) for r in c["rows"]]
	fmt = FORMATS[c["fmt"]]
	raw = [d.strftime(fmt) for d in days]
	if fmt in ("%Y%m%d", "%Y%j") and c["ints"]:
		raw = [int(x) for x in raw]
	cols = dict(Lcdate=raw, LC3=[r[1] for r in c["rows"]], TOF=[r[2] for r in c["rows"]], Avinf=[r[3] for r in c["rows"]], other=[0.5] * n)
	names = list(cols)
	if c["order"]:
		names.reverse()
	df = pd.DataFrame({k: cols[k] for k in names})
	wrong = pd.DataFrame({k: ([raw[0]] if k == "Lcdate" else [-1.0]) for k in names})
	with excel({("data.xlsx", "good"): df, ("data.xlsx", "Sheet1"): wrong}):
		o = Interplanetary(ID="some set", datafile="data.xlsx", sheet_name="good", Lcdate_format=fmt)
	Y = np.array(sorted(c["y"], reverse=True))
	f = write(np.c_[X, Y], "g")
	try:
		L = Launcher("rocket", f)
	finally:
		os.unlink(f)
	C3 = np.array([r[1] for r in c["rows"]])
	M = np.array([expected(X, Y, "linear", q) if X[0] <= q <= X[-1] else 0.0 for q in C3])
	edge = np.array([min(abs(q - X[0]), abs(q - X[-1])) < 1e-9 and q not in X for q in C3])
	return o, L, days, C3, np.array([r[2] for r in c["rows"]]), np.array([r[3] for r in c["rows"]]), M, bool(edge.any())


def data(c):
	o, L, days, C3, TOF, V, M, edge = build(c)
	require(len(o.Lcdate) == len(days) and all(a.date() == b for a, b in zip(o.Lcdate, days)), lambda: "launch dates are %s, expected %s" % (list(o.Lcdate)[:5], days[:5]))
	for got, want, w in ((o.C3, C3, "launch C3"), (o.TOF, TOF, "time of flight"), (o.Avinf, V, "arrival v-infinity")):
		require(len(got) == len(want), w + " has %d entries, expected %d" % (len(got), len(want)))
		close(np.asarray(got, float), want, w, rtol=1e-12)
	if edge:
		return False
	m = np.asarray(o.compute_launch_capability(L), float)
	require(m.shape == M.shape, "launch capability has shape %s" % (m.shape,))
	close(m, M, "launch capability", rtol=1e-9, atol=1e-9 * max(1, M.max()))
	close(np.asarray(o.C3, float), C3, "launch C3 after the query", rtol=1e-12)
	return len(M) > 2 and M.min() == 0 < M.max()


def show(c):
	from matplotlib import dates
	o, L, days, C3, TOF, V, M, edge = build(c)
	if edge:
		return False
	D = np.array([dates.date2num(d) for d in days])
	name, args, x, y, col = {
		0: ("plot_launch_mass_vs_launch_date", (L,), D, M, None),
		1: ("plot_TOF_vs_launch_date", (), D, TOF, None),
		2: ("plot_Avinf_vs_launch_date", (), D, V, None),
		3: ("plot_Avinf_vs_launch_date_with_launch_mass_colorbar", (L,), D, V, M),
		4: ("plot_launch_mass_vs_TOF", (L,), TOF, M, None),
		5: ("plot_launch_mass_vs_TOF_with_vinf_colorbar", (L,), TOF, M, V),
	}[c["plot"]]
	with figures.drawn() as out:
		getattr(o, name)(*args)
	figs, names = out[0]
	require(len(figs) == 1, "%s drew %d figures" % (name, len(figs)))
	ax = figs[0].axes[0]
	if col is None:
		got = figures.lines(ax)
		require(len(got) == 1, "%s drew %d curves" % (name, len(got)))
		gx, gy = got[0]
	else:
		got = figures.points(ax)
		require(len(got) == 1, "%s drew %d point sets" % (name, len(got)))
		gx, gy, gc, clim = got[0]
		close(gc, col, name + ": colours", rtol=1e-9, atol=1e-9)
		# the colour scale spans the launchable (or all) values
		pos = col[col > 0] if col is M else col
		if len(pos) and np.ptp(pos) > 1e-6 * pos.max():      # a colour bar widens an empty range
			close(clim, [pos.min(), pos.max()], name + ": colour scale", rtol=1e-9, atol=1e-9)
	close(gx, x, name + ": horizontal coordinates", rtol=1e-9)
	close(gy, y, name + ": vertical coordinates", rtol=1e-9, atol=1e-9)
	# every trajectory the launcher can fly is inside the axes
	lo, hi = sorted(ax.get_ylim())
	l2, h2 = sorted(ax.get_xlim())
	seen = M > 0 if y is M else np.ones(len(y), bool)
	for a, b, s in zip(x, y, seen):
		require(not s or (lo <= b <= hi and l2 <= a <= h2), "%s: trajectory at (%g, %g) lies outside the axes [%g, %g] x [%g, %g]" % (name, a, b, l2, h2, lo, hi))
	ext = sorted(os.path.splitext(f)[1] for f in names)
	require(ext == [".eps", ".pdf", ".png"] and all("some set" in os.path.basename(f) for f in names), "%s saved %s" % (name, names))
	return len(M) > 2 and M.min() == 0 < M.max()


@st.composite
def case(draw):
	n = draw(st.integers(2, 8))
	c3 = draw(uni(-0.2, 1.2))
	rows = draw(st.lists(st.tuples(st.integers(0, 15000), st.one_of(uni(0, 1), uni(-0.4, 1.4), st.sampled_from([c3, 0.0, 1.0])), uni(0.3, 20), uni(2, 30)), min_size=draw(st.sampled_from([1, 3, 6])), max_size=25))
	if draw(st.integers(0, 5)) == 0:
		rows = [(r[0], c3, r[2], r[3]) for r in rows]
	return dict(rows=rows, fmt=draw(st.integers(0, len(FORMATS) - 1)), ints=draw(st.booleans()), order=draw(st.booleans()), x0=draw(uni(-10, 60)), dx=[draw(uni(1, 30)) for _ in range(n - 1)],
				y=[draw(logu(50, 3e4)) for _ in range(n)], plot=draw(st.integers(0, 5)))


SUBS = [
	Sub("data", case(), data, 1200, 50000, shards=2),
	Sub("show", case(), show, 320, 12000, shards=4),
]
