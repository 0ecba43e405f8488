"""P09: loads and flow quantities along a trajectory."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, close, require
from pbt.gen import uni

RULE = ("one case = body, vehicle (constant or Mach-dependent CD), a history of 1-6 states, a bank angle; non-trivial = lift "
		"non-zero and bank off the axes")


def loads(c):
	pid, kind = c["planet"], c["kind"]
	p = gen.make_planet(pid, kind=kind)
	V = c["veh"]
	cdf = gen.cdmach_fn(c["cdmach"]) if c["cdmach"] else None
	o = gen.make_vehicle(p, V, cdf)
	H = gen.table(pid)[0]
	top = min(p.h_thres, H[-1])
	h = np.array(c["h"]) * (top - 2.0) + 1.0
	r = p.RP + h
	v = np.array(c["v"])
	th, ph, t = np.array(c["theta"]), np.array(c["phi"]), np.cumsum(c["dt"])
	T, P, rho, snd = (gen.spline(pid, kind, k)(h) for k in range(4))
	CD = V["mass"] / (V["beta"] * V["A"])
	cd = cdf(v / snd) if cdf else CD
	q = 0.5 * rho * v ** 2
	D = q * V["A"] * cd / V["mass"]
	L = q * V["A"] * CD * V["LD"] / V["mass"]
	n = len(r)
	g0 = 9.80665
	kw = lambda w: dict(rtol=2e-5, atol=1e-12 * float(np.max(np.abs(w))))
	net = np.sqrt(D ** 2 + L ** 2) / g0
	close(o.computeAccelerationLoad(t, r, th, ph, v, n, c["delta"]), net, "net acceleration in Earth g", **kw(net))
	close(o.computeAccelerationDrag(t, r, th, ph, v, n, c["delta"]), D / g0, "drag acceleration in Earth g", **kw(D / g0))
	close(o.computeDynPres(r, v), q, "dynamic pressure", **kw(q))
	close(o.computeStagPres(r, v), P + q, "stagnation pressure", **kw(P + q))
	M = v / snd
	close(o.computeMach(r, v), M, "Mach number", **kw(M))
	for k in range(n):
		close(o.computeMachScalar(r[k], v[k]), M[k], "Mach number (single state)", **kw(M))
	T0 = T * (1 + 0.5 * (p.CPCV - 1) * M ** 2)
	close(o.computeStagTemp(r, v), T0, "stagnation temperature", **kw(T0))
	E = 0.5 * v ** 2 - p.GM / r
	sE = dict(rtol=1e-9, atol=1e-12 * p.GM / p.RP)
	close(o.computeEnergy(r, v), E, "specific energy", **sE)
	ga = c["gamma"]
	for k in range(n):
		close(o.computeEnergyScalar(r[k], v[k]), E[k], "specific energy (single state)", **sE)
		hh = r[k] * v[k] * np.cos(ga)
		close(o.computeAngMomScalar(r[k], v[k], ga), hh, "specific angular momentum", rtol=1e-9)
		if abs(E[k]) > 1e-6 * p.GM / p.RP:
			close(o.computeSemiMajorAxisScalar(E[k]), -p.GM / (2 * E[k]), "semi-major axis", rtol=1e-9)
		# eccentricity from the eccentricity vector, not from energy
		ex = v[k] ** 2 * r[k] / p.GM * np.cos(ga) ** 2 - 1
		ey = v[k] ** 2 * r[k] / p.GM * np.cos(ga) * np.sin(ga)
		e = np.hypot(ex, ey)
		if e > 1e-3:
			close(o.computeEccScalar(hh, E[k]), e, "eccentricity", rtol=1e-7, atol=1e-8)
	require(len(r) == n and np.all(r == p.RP + h), "input histories were altered")
	return V["LD"] != 0 and abs(np.sin(2 * c["delta"])) > 1e-6


@st.composite
def case(draw):
	n = draw(st.integers(1, 6))
	L = lambda s: draw(st.lists(s, min_size=n, max_size=n))
	return dict(planet=draw(gen.planet_id()), kind=draw(st.sampled_from(["cubic", "linear"])), veh=draw(gen.vehicle_params()),
				cdmach=draw(st.one_of(st.none(), gen.cdmach_table())),
				h=L(st.one_of(uni(0, 1), uni(0, 0.2))), v=L(gen.logu(50.0, 6e4)), theta=L(uni(-3.2, 3.2)), phi=L(uni(-1.5, 1.5)),
				dt=L(uni(0.01, 10)), delta=draw(uni(-6.3, 6.3)), gamma=draw(uni(-1.5, 1.5)))


SUBS = [Sub("loads", case(), loads, 2000, 80000, shards=4)]
