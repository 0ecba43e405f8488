"""P03: Monte Carlo density profiles."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import REPO, Sub, close, require
from pbt.gen import planet_id, uni

RULE = ("one case = a file of NPOS x NMONTE generated rows (columns permuted, metres or kilometres), a profile index and a "
		"sigma of either sign; non-trivial = |sigma| > 0 and more than one profile in the file")


def write(M):
	fd, path = tempfile.mkstemp(prefix="vp_mc_")
	with os.fdopen(fd, "w") as fh:
		for row in M:
			fh.write(" ".join(repr(float(x)) for x in row) + "\n")
	return path


def profiles(c):
	from AMAT.planet import Planet
	p = Planet(c["planet"])
	N, K = c["npos"], c["nmonte"]
	n = N * K
	rows = c["rows"]
	hts = np.round(np.cumsum(c["dh"]), 3)
	h = np.concatenate([hts[::-1] if c["desc"] else hts for _ in range(K)])
	# every row gets its own numbers, from the generated seeds
	base = np.array([rows[i % len(rows)][0] * (1 + 0.01 * (i // len(rows))) for i in range(n)])
	dlo = np.array([rows[(3 * i) % len(rows)][1] for i in range(n)])
	dhi = np.array([rows[(5 * i) % len(rows)][2] for i in range(n)])
	pert = np.array([rows[(7 * i) % len(rows)][3] for i in range(n)])
	avg = base
	low, high, tot = avg * (1 - dlo), avg * (1 + dhi), avg * (1 + pert)
	sd = 100.0 * dhi
	M = np.full((n, c["ncol"]), -3.0)
	cols = c["cols"]
	hh = h / 1000.0 if c["km"] else h
	if c["fmt"] == 2:
		for j, v in zip(cols, (hh, low, avg, high, tot)):
			M[:, j] = v
	else:
		for j, v in zip(cols, (hh, avg, sd, tot)):
			M[:, j] = v
		low, high = avg * (1 - sd * 0.01), avg * (1 + sd * 0.01)
	path = write(M)
	try:
		if c["fmt"] == 2:
			out = p.loadMonteCarloDensityFile2(path, *cols[:5], heightInKmFlag=c["km"])
		else:
			out = p.loadMonteCarloDensityFile3(path, *cols[:4], heightInKmFlag=c["km"])
	finally:
		os.unlink(path)
	sc = float(np.max(np.abs(avg)))
	require(len(out) == 5, "loader returned %d arrays" % len(out))
	close(out[0], hh * 1e3 if c["km"] else hh, "height column", rtol=1e-12)
	close(out[1], low, "low density column", rtol=1e-9, atol=1e-12 * sc)
	close(out[2], avg, "average density column", rtol=1e-12)
	close(out[3], high, "high density column", rtol=1e-9, atol=1e-12 * sc)
	close(out[4], tot - avg, "perturbation column", rtol=1e-9, atol=1e-12 * sc)

	hm = hh * 1e3 if c["km"] else hh
	s = c["sigma"]
	for i in sorted(set([c["i"] % K + 1, 1, K])):
		sl = slice((i - 1) * N, i * N)
		mean = avg[sl] + (s * (high[sl] - avg[sl]) if s >= 0 else s * (avg[sl] - low[sl]))
		H = hm[sl]
		o = np.argsort(H)
		for fn, args, w in ((p.loadAtmosphereModel5, (out[0], out[1], out[2], out[3], out[4], s, N, i), mean + (tot - avg)[sl]),
							(p.loadAtmosphereModel6, (out[0], out[1], out[2], out[3], s, N, i), mean)):
			f = fn(*args)
			q = np.clip([H.min() + (H.max() - H.min()) * u for u in c["q"]], H.min(), H.max())
			close(f(q), np.interp(q, H[o], w[o]), "profile %d of %d, sigma %g" % (i, K, s), rtol=1e-8, atol=1e-9 * sc)
			close(f(H), w, "profile %d at its own heights" % i, rtol=1e-8, atol=1e-9 * sc)
			close(f(np.array([H.min() - 10.0, H.max() + 10.0])), [0.0, 0.0], "profile outside its table")
	require(p.pSigmaFunc(s) == (1.0 if s >= 0 else 0.0) and p.nSigmaFunc(s) == (1.0 if s < 0 else 0.0),
			"sigma sign indicators at %r" % s)
	return s != 0 and K > 1


@st.composite
def case(draw):
	N = draw(st.integers(3, 7))
	K = draw(st.integers(1, 5))
	ncol = draw(st.integers(5, 9))
	return dict(planet=draw(planet_id()), npos=N, nmonte=K, ncol=ncol, cols=list(draw(st.permutations(range(ncol)))[:5]),
				fmt=draw(st.sampled_from([2, 3])), km=draw(st.booleans()), desc=draw(st.booleans()),
				dh=draw(st.lists(uni(100.0, 20000.0), min_size=N, max_size=N)),
				rows=draw(st.lists(st.tuples(gen.logu(1e-9, 10.0), uni(0, 0.9), uni(0, 0.9), uni(-0.5, 0.5)), min_size=4, max_size=11)),
				sigma=draw(st.one_of(uni(-3.5, 3.5), st.sampled_from([0.0, 1.0, -1.0]))), i=draw(st.integers(0, 20)),
				q=draw(st.lists(uni(0, 1), min_size=2, max_size=5)))


def shipped(c):
	"""the shipped Venus files, through the same route: sigma moves the mean between the low and high columns"""
	from AMAT.planet import Planet
	p = Planet("VENUS")
	path = os.path.join(REPO, "atmdata/Venus", c["file"])
	H, lo, av, hi, pe = p.loadMonteCarloDensityFile2(path, 0, 1, 2, 3, 4, heightInKmFlag=True)
	M = np.loadtxt(path)
	N = 151
	i = c["i"]
	sl = slice((i - 1) * N, i * N)
	h = M[sl, 0] * 1e3
	s = c["sigma"]
	want = M[sl, 2] + (s * (M[sl, 3] - M[sl, 2]) if s >= 0 else s * (M[sl, 2] - M[sl, 1]))
	close(p.loadAtmosphereModel6(H, lo, av, hi, s, N, i)(h), want, "mean profile of a shipped file", rtol=1e-8)
	close(p.loadAtmosphereModel5(H, lo, av, hi, pe, s, N, i)(h), want + M[sl, 4] - M[sl, 2],
		"perturbed profile of a shipped file", rtol=1e-8, atol=1e-12 * want.max())
	return s != 0


SUBS = [
	Sub("generated_files", case(), profiles, 500, 30000, shards=2),
	Sub("shipped_files", st.fixed_dictionaries(dict(file=st.sampled_from(["LAT10N.txt", "LAT20S.txt", "LAT60N.txt", "LAT80S.txt"]),
		i=st.integers(1, 200), sigma=uni(-3, 3))), shipped, 25, 1500),
]
