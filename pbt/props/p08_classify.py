"""P08: classification and truncation of trajectories."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, close, require
from pbt.gen import uni

RULE = ("one case = an altitude history (dives, skips, impacts, hovering at the limits) for a body; non-trivial = the history "
		"crosses the skip or the trap altitude after its first point")


def classify(c):
	from AMAT.planet import Planet
	p = Planet(c["planet"])
	if c["skip"]:
		p.h_skip = c["skip"] * p.h_skip
	if c["trap"]:
		p.h_trap = c["trap"] * p.h_skip * 0.3
	o = gen.make_vehicle(p, c["veh"])
	lo, hi = p.h_trap, p.h_skip
	h = []
	for kind, u in c["pts"]:
		h.append({"in": lo + (hi - lo) * (0.001 + 0.998 * u), "above": hi * (1 + 1e-6 + u), "trap": lo * (0.02 + 0.97 * u),
				"ground": -1.0 - 1e5 * u}[kind])
	h[0] = lo + (hi - lo) * (0.001 + 0.998 * c["pts"][0][1])
	h = np.array(h)
	r = p.RP + h
	n = len(h)
	i, flag = o.classifyTrajectory(r)
	above, below = np.where(h > hi)[0], np.where(h < lo)[0]
	ground = np.any(h < 0)
	if len(above) and not ground:
		wi, wf = above[0], 1.0           # skipped out: cut at the first point above the skip altitude
	elif len(below):
		wi, wf = below[0], -1.0          # trapped or impacted: cut at the first point below the trap altitude
	else:
		wi, wf = n, 0.0                  # still flying: everything kept
	require(flag == wf, "exit flag %r, expected %r" % (flag, wf))
	require(int(i) == i and i == wi, "cut index %r, expected %r" % (i, wi))
	X = [np.arange(n) * 1.0 + 100 * k for k in range(8)]
	out = o.truncateTrajectory(*X, i)
	require(len(out) == 8, "truncation returned %d histories" % len(out))
	for k in range(8):
		close(out[k], X[k][:wi], "truncated history %d" % k)
		require(len(X[k]) == n, "truncation altered its input")
	# states reported to the user never lie outside the cut-off altitudes
	kept = h[:wi]
	if wf == 1.0:
		require(np.all(kept <= hi), "kept a point above the skip altitude")
	if wf == -1.0:
		require(np.all(kept >= lo), "kept a point below the trap altitude")
	# display units
	s = np.array(c["scale"])
	a = [s * (k + 1) for k in range(8)]
	t, hk, v, ph, ps, th, ga, dr = o.convertToPlotUnits(a[0], p.RP + a[1], a[2], a[3], a[4], a[5], a[6], a[7])
	D = 180 / np.pi
	close(t, a[0] / 60, "time in minutes", rtol=1e-10)
	close(hk, a[1] / 1e3, "altitude in km", rtol=1e-10, atol=1e-9 * p.RP / 1e3)
	close(v, a[2] / 1e3, "speed in km/s", rtol=1e-10)
	for x, k, nm in ((ph, 3, "latitude"), (ps, 4, "heading"), (th, 5, "longitude"), (ga, 6, "flight-path angle")):
		close(x, a[k] * D, nm + " in degrees", rtol=1e-10)
	close(dr, a[7] / 1e3, "downrange in km", rtol=1e-10)
	close(o.convertToKPa(a[1]), a[1] / 1e3, "pressure in kPa", rtol=1e-10)
	close(o.convertToPerCm2(a[1]), a[1] / 1e4, "heating rate per cm2", rtol=1e-10)
	return wf != 0.0


@st.composite
def case(draw):
	kinds = draw(st.sampled_from([["in"], ["in", "in", "in", "above"], ["in", "in", "trap"], ["in", "in", "in", "trap", "ground"],
								["in", "in", "in", "above", "trap"], ["in", "in", "above", "trap", "ground"]]))
	return dict(planet=draw(gen.planet_id()), veh=draw(gen.vehicle_params()),
				skip=draw(st.one_of(st.none(), uni(0.6, 1.4))), trap=draw(st.one_of(st.none(), uni(0.01, 0.9))),
				pts=draw(st.lists(st.tuples(st.sampled_from(kinds), uni(0, 1)), min_size=2, max_size=40)),
				scale=draw(st.lists(uni(-1e3, 1e3), min_size=1, max_size=4)))


SUBS = [Sub("classify", case(), classify, 3000, 120000, shards=4)]
