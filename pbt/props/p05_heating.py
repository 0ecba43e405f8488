"""P05: stagnation-point heating."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, close, require
from pbt.gen import uni

RULE = ("one case = body, nose radius, 1-6 states in its atmosphere table, and a list of other nose radii; non-trivial = at "
		"least one state with a positive heating rate")

# published correlations: q = k sqrt(rho/RN) v^3 (W/cm2)
SG = dict(VENUS=1.8960e-8, EARTH=1.7623e-8, MARS=1.8980e-8, JUPITER=0.6556e-8, SATURN=0.6356e-8, TITAN=1.7407e-8)
FV = ([9e3, 1e4, 1.1e4, 1.2e4, 1.3e4, 1.4e4, 1.5e4, 1.6e4], [1.5, 35., 151., 359., 660., 1065., 1550., 2040.])


def q_con(pid, rho, v, RN):
	if pid in SG:
		return SG[pid] * np.sqrt(rho / RN) * v ** 3
	return 2.24008e-7 * rho ** 0.45213 * v ** 2.6918 * np.sqrt(0.291 / RN)


def q_rad(pid, rho, v, RN):
	if pid == "VENUS":
		lo = 3.33e-34 * v ** 10
		mid = 1.22e-16 * v ** 5.5
		hi = 3.07e-48 * v ** 13.4
		return np.where(v < 8e3, lo, np.where(v < 1e4, mid, hi)) * rho ** 1.2 * RN ** 0.49
	if pid == "EARTH":
		f = np.where(v < FV[0][0], 0.0, np.interp(v, *FV))
		return 4.736e4 * RN ** 0.6 * rho ** 1.22 * f
	if pid in ("MARS", "TITAN"):
		return 0.0 * v
	if pid in ("JUPITER", "SATURN"):
		return 0.1 * 9.7632379e-40 * (2 * RN) ** (-0.17905) * rho ** 1.763827469 * v ** 10.993852
	return 8.125812e-3 * rho ** 0.49814 * (v / 1e4) ** 15.113 * (RN / 0.291)


def heating(c):
	pid = c["planet"]
	p = gen.make_planet(pid, kind=c["kind"])
	o = gen.make_vehicle(p, c["veh"])
	RN = c["veh"]["RN"]
	top = min(p.h_thres, gen.table(pid)[0][-1])
	h = np.array(c["h"]) * (top - 2.0) + 1.0
	r = p.RP + h
	v = np.array(c["v"])
	if pid in ("VENUS", "EARTH"):
		# off the documented break points, where two formulas meet
		v = np.where(np.abs(v - np.round(v / 1000.0) * 1000.0) < 1e-3, v + 0.5, v)
	rho = gen.spline(pid, c["kind"], 2)(h)
	con, rad = q_con(pid, rho, v, RN), q_rad(pid, rho, v, RN)
	sc = float(np.max(con + rad))
	kw = dict(rtol=2e-5, atol=1e-13 * sc)
	close(o.qStagConvective(r, v), con, "convective heating rate", **kw)
	close(o.qStagRadiative(r, v), rad, "radiative heating rate", **kw)
	close(o.qStagTotal(r, v), con + rad, "total heating rate", **kw)
	# a state's rate does not depend on the other states of the history
	k = c["pick"] % len(r)
	close(o.qStagTotal(r[k:k + 1], v[k:k + 1]), (con + rad)[k:k + 1], "total heating rate of a single state", **kw)
	# several nose radii at once
	t = np.cumsum(np.array(c["dt"]))[:len(r)]
	rns = np.array(c["rns"])
	qm, hl = o.computeHeatingForMultipleRN(t, r, v, rns)
	wq, wh = [], []
	for R in rns:
		q = q_con(pid, rho, v, R) + q_rad(pid, rho, v, R)
		wq.append(q.max())
		wh.append(float(np.sum(0.5 * (q[1:] + q[:-1]) * np.diff(t))))
	close(qm, wq, "peak heating rate per nose radius", rtol=2e-5, atol=1e-13 * max(wq))
	close(hl, wh, "heat load per nose radius", rtol=2e-5, atol=1e-12 * (max(wh) + 1e-300))
	require(o.RN == RN, "nose radius changed from %r to %r by a study of other radii" % (RN, o.RN))
	return sc > 0


@st.composite
def case(draw):
	n = draw(st.integers(2, 6))
	L = lambda s, k=n: draw(st.lists(s, min_size=k, max_size=k))
	return dict(planet=draw(gen.planet_id()), kind=draw(st.sampled_from(["cubic", "linear"])), veh=draw(gen.vehicle_params()),
				h=L(st.one_of(uni(0, 1), uni(0, 0.2))), v=L(st.one_of(gen.logu(100.0, 6e4), uni(5e3, 2e4), st.sampled_from([7999.0, 8001.0, 9999.0, 10001.0, 17000.0]))),
				dt=L(uni(0.01, 30.0)), rns=draw(st.lists(gen.logu(0.05, 12.0), min_size=1, max_size=4)), pick=draw(st.integers(0, 9)))


SUBS = [Sub("heating", case(), heating, 2000, 80000, shards=4)]
