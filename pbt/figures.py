"""Run a plotting function and return what it drew, without writing a file."""
import contextlib
import warnings

import numpy as np


@contextlib.contextmanager
def drawn():
	"""yields a list that holds (figures, saved file names) after the block"""
	import matplotlib
	matplotlib.use("Agg")
	from matplotlib import pyplot as plt
	from matplotlib.figure import Figure
	old = Figure.savefig
	rc = dict(matplotlib.rcParams)
	names, figs = [], []

	def save(self, fname, *a, **k):
		names.append(str(fname))
		if self not in figs:
			figs.append(self)

	plt.close("all")
	Figure.savefig = save
	out = []
	try:
		with warnings.catch_warnings():
			warnings.simplefilter("ignore")
			yield out
			for n in plt.get_fignums():
				f = plt.figure(n)
				if f not in figs:
					figs.append(f)
			out.append((figs, names))
	finally:
		Figure.savefig = old
		plt.close("all")
		matplotlib.rcParams.update(rc)


def lines(ax):
	return [(np.asarray(l.get_xdata(orig=False), float), np.asarray(l.get_ydata(orig=False), float)) for l in ax.get_lines()]


def points(ax):
	"""scatter points: x, y, colour value"""
	from matplotlib.collections import PathCollection
	return [(np.asarray(c.get_offsets(), float)[:, 0], np.asarray(c.get_offsets(), float)[:, 1], np.asarray(c.get_array(), float), c.get_clim())
			for c in ax.collections if isinstance(c, PathCollection)]
