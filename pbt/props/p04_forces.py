"""P04: aerodynamic forces and accelerations."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, close, require
from pbt.gen import uni

RULE = ("one case = body, vehicle (constant or Mach-dependent drag coefficient), 1-5 states inside the atmosphere table and a "
		"bank angle; non-trivial = lift and drag both non-zero and a bank angle off the axes")


def forces(c):
	p = gen.make_planet(c["planet"], kind=c["kind"])
	V = c["veh"]
	cdf = gen.cdmach_fn(c["cdmach"]) if c["cdmach"] else None
	o = gen.make_vehicle(p, V, cdf)
	m, A = V["mass"], V["A"]
	CD = m / (V["beta"] * A)
	close(o.CD, CD, "drag coefficient m/(beta A)")
	close(o.CL, V["LD"] * CD, "lift coefficient (L/D) CD")
	top = min(p.h_thres, gen.table(c["planet"])[0][-1])
	h = np.array(c["h"]) * (top - 2.0) + 1.0
	r = p.RP + h
	v = np.array(c["v"])
	th, ph = np.array(c["theta"]), np.array(c["phi"])
	d = c["delta"]
	rho = gen.spline(c["planet"], c["kind"], 2)(h)
	snd = gen.spline(c["planet"], c["kind"], 3)(h)
	cd = cdf(v / snd) if cdf else np.full(len(v), CD)
	q = 0.5 * rho * v ** 2 * A
	L, D = q * V["LD"] * CD, q * cd
	rt, at = 1e-5, 1e-12 * (np.max(np.abs(D)) + np.max(np.abs(L)))
	def cl(got, want, what):
		close(got, want, what, rtol=rt, atol=at)
	cl(o.Lvectorized(r, th, ph, v), L, "lift (vector)")
	cl(o.Dvectorized(r, th, ph, v), D, "drag (vector)")
	at /= m
	cl(o.a_svectorized(r, th, ph, v, d), -D / m, "tangential acceleration (vector)")
	cl(o.a_nvectorized(r, th, ph, v, d), L * np.cos(d) / m, "normal acceleration (vector)")
	cl(o.a_wvectorized(r, th, ph, v, d), L * np.sin(d) / m, "lateral acceleration (vector)")
	tau2 = p.RP / (p.GM / p.RP) * 1.0            # RP / Vref^2: converts accelerations to non-dimensional ones
	at0 = at
	for k in range(len(r)):
		a = (r[k], th[k], ph[k], v[k])
		b = (r[k] / p.RP, th[k], ph[k], v[k] / p.Vref)
		at = at0 * m
		cl(o.L(*a), L[k], "lift")
		cl(o.D(*a), D[k], "drag")
		at = at0
		cl(o.a_s(*a, d), -D[k] / m, "tangential acceleration")
		cl(o.a_n(*a, d), L[k] * np.cos(d) / m, "normal acceleration")
		cl(o.a_w(*a, d), L[k] * np.sin(d) / m, "lateral acceleration")
		at = at0 * tau2
		cl(o.Lbar(*b), L[k] / m * tau2, "non-dimensional lift")
		cl(o.Dbar(*b), D[k] / m * tau2, "non-dimensional drag")
		cl(o.a_sbar(*b, d), -D[k] / m * tau2, "non-dimensional tangential acceleration")
		cl(o.a_nbar(*b, d), L[k] * np.cos(d) / m * tau2, "non-dimensional normal acceleration")
		cl(o.a_wbar(*b, d), L[k] * np.sin(d) / m * tau2, "non-dimensional lateral acceleration")
	# no air above the cut-off altitude
	up = p.RP + p.h_thres + c["above"]
	require(o.D(up, 0.0, 0.0, v[0]) == 0 and o.L(up, 0.0, 0.0, v[0]) == 0, "aerodynamic force above the cut-off altitude")
	return V["LD"] != 0 and abs(np.sin(d) * np.cos(d)) > 1e-6


@st.composite
def case(draw):
	n = draw(st.integers(1, 5))
	L = lambda s: draw(st.lists(s, min_size=n, max_size=n))
	return dict(planet=draw(gen.planet_id()), kind=draw(st.sampled_from(["cubic", "linear"])), veh=draw(gen.vehicle_params()),
				cdmach=draw(st.one_of(st.none(), gen.cdmach_table())),
				h=L(st.one_of(uni(0, 1), uni(0, 0.2))), v=L(gen.logu(50.0, 6e4)), theta=L(uni(-3.2, 3.2)), phi=L(uni(-1.5, 1.5)),
				delta=draw(st.one_of(uni(-6.3, 6.3), st.sampled_from([0.0, np.pi, np.pi / 2]))), above=draw(uni(1.0, 1e6)))


SUBS = [Sub("forces", case(), forces, 1600, 60000, shards=4)]
