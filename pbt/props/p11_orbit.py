"""P11: the orbit that a flight state leads to, and the manoeuvres to correct it."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, close, finite, require
from pbt.gen import logu, planet_id, uni

RULE = ("one case = body and a planet-relative state (any longitude, latitude, heading, path angle; bound or unbound), or an "
		"orbit and a target apsis; non-trivial = the state is off the equator with a heading off the axes, or the target differs from "
		"the current apsis")
ASSUMPTIONS = ["eccentricities below 1e-3 and within 1e-4 of parabolic are outside the domain (both apses are ill-conditioned there)"]

D = np.pi / 180
V0 = dict(mass=100.0, beta=50.0, LD=0.2, A=2.0, alpha=0.0, RN=1.0)


def elements(c):
	from AMAT.planet import Planet
	p = Planet(c["planet"])
	o = gen.make_vehicle(p, V0)
	r = p.RP + c["hf"] * p.h_skip
	v = c["vf"] * np.sqrt(2 * p.GM / r)
	th, ph, ps, ga = c["theta"] * D, c["phi"] * D, c["psi"] * D, c["gamma"] * D
	R, VV = ref.cart(r, th, ph, v, ps, ga)
	# relative-frame scalars
	E = v * v / 2 - p.GM / r
	close(o.computeEnergyScalar(r, v), E, "specific energy", rtol=1e-9, atol=1e-12 * p.GM / r)
	close(o.computeAngMomScalar(r, v, ga), r * v * np.cos(ga), "angular momentum", rtol=1e-9, atol=1e-10 * r * v)
	close(o.computeSemiMajorAxisScalar(E), -p.GM / (2 * E), "semi-major axis")
	rel = ref.orbit(R, VV, p.GM)
	h = r * v * np.cos(ga)
	if rel["e"] > 1e-3:
		close(o.computeEccScalar(h, E), rel["e"], "eccentricity", rtol=1e-7, atol=1e-9 / rel["e"])
	k = ref.orbit(*ref.inertial(R, VV, p.OMEGA), p.GM)
	cond = p.GM / r / abs(k["E"])
	if k["e"] < 1e-3 or abs(k["e"] - 1) < 1e-4 or cond > 1e4:
		return False
	apo = finite(o.compute_ApoapsisAltitudeKm(r, v, ga, th, ph, ps), "apoapsis altitude")
	per = finite(o.compute_PeriapsisAltitudeKm(r, v, ga, th, ph, ps), "periapsis altitude")
	tol = (abs(k["a"]) * (1 + k["e"]) * cond * 1e-11 + abs(k["a"]) * 1e-10 / k["e"] * max(1, cond)) / 1e3 + 1e-6
	close(per, (k["rp"] - p.RP) / 1e3, "periapsis altitude (km)", rtol=1e-9, atol=tol)
	if k["E"] < 0:
		close(apo, (k["ra"] - p.RP) / 1e3, "apoapsis altitude (km)", rtol=1e-9, atol=tol)
		require(apo >= per - tol, "apoapsis below periapsis")
	else:
		require(apo < 0, "an unbound orbit reports the apoapsis altitude %g km" % apo)
	# rotating the planet frame about its axis changes nothing
	th2 = th + c["shift"] * D
	close(o.compute_ApoapsisAltitudeKm(r, v, ga, th2, ph, ps), float(apo), "apoapsis altitude at another longitude", rtol=1e-9, atol=10 * tol)
	close(o.compute_PeriapsisAltitudeKm(r, v, ga, th2, ph, ps), float(per), "periapsis altitude at another longitude", rtol=1e-9, atol=10 * tol)
	return abs(ph) > 0.01 and abs(np.sin(2 * ps)) > 0.01 and abs(ga) > 1e-3


@st.composite
def el_case(draw):
	return dict(planet=draw(planet_id()), hf=draw(uni(0.1, 1.5)), vf=draw(st.one_of(uni(0.55, 0.99), uni(1.02, 1.6), uni(0.3, 1.0))),
				theta=draw(uni(-360, 360)), phi=draw(uni(-89, 89)), psi=draw(uni(-360, 360)), gamma=draw(st.one_of(uni(-60, 60), uni(0, 20))),
				shift=draw(uni(-180, 180)))


def vapse(GM, r, other):
	return np.sqrt(GM * (2 / r - 2 / (r + other)))


def burns(c):
	from AMAT.planet import Planet
	p = Planet(c["planet"])
	o = gen.make_vehicle(p, V0)
	R = p.RP / 1e3
	lo, hi, t = c["per"] * R, c["apo"] * R, c["target"] * R
	if c["swap"]:
		lo, hi = min(lo, hi), max(lo, hi)
	GM = p.GM
	ra, rp, rt = (R + hi) * 1e3, (R + lo) * 1e3, (R + t) * 1e3
	sc = np.sqrt(GM / min(ra, rp, rt))
	want = vapse(GM, ra, rt) - vapse(GM, ra, rp)
	got = o.compute_periapsis_raise_DV(lo, hi, t)
	close(got, want, "delta-V at apoapsis to move the periapsis", rtol=1e-9, atol=1e-10 * sc)
	want2 = vapse(GM, rp, rt) - vapse(GM, rp, ra)
	got2 = o.compute_apoapsis_raise_DV(lo, hi, t)
	close(got2, want2, "delta-V at periapsis to move the apoapsis", rtol=1e-9, atol=1e-10 * sc)
	close(o.compute_periapsis_raise_DV(lo, hi, lo), 0.0, "delta-V to keep the periapsis", atol=1e-9 * sc)
	close(o.compute_apoapsis_raise_DV(lo, hi, hi), 0.0, "delta-V to keep the apoapsis", atol=1e-9 * sc)
	close(o.compute_periapsis_raise_DV(t, hi, lo), -want, "delta-V of the reverse periapsis manoeuvre", rtol=1e-9, atol=1e-9 * sc)
	close(o.compute_apoapsis_raise_DV(lo, t, hi), -want2, "delta-V of the reverse apoapsis manoeuvre", rtol=1e-9, atol=1e-9 * sc)
	return abs(t - lo) > 1e-3 * R and abs(t - hi) > 1e-3 * R


@st.composite
def burn_case(draw):
	a = st.one_of(uni(-0.9, 2.0), logu(0.01, 300.0))
	return dict(planet=draw(planet_id()), per=draw(uni(-0.95, 3.0)), apo=draw(logu(0.001, 400.0)), target=draw(a), swap=draw(st.booleans()))


def captured(c):
	"""a flight is reported captured exactly when its (planet-relative) specific energy at the cut is negative"""
	p = gen.make_planet(c["s"]["planet"])
	o = gen.make_vehicle(p, c["veh"])
	x = gen.start(p, c["s"])
	o.setInitialState((x[0] - p.RP) / 1e3, c["s"]["theta"], c["s"]["phi"], x[3] / 1e3, c["s"]["psi"], c["s"]["gamma"], 0.0, 0.0)
	o.setSolverParams(1e-6)
	ans = o.isCaptured(c["T"], 2.0, c["delta"])
	r, v = p.RP + 1e3 * np.asarray(o.h_kmc)[-1], 1e3 * np.asarray(o.v_kmsc)[-1]
	E = v * v / 2 - p.GM / r
	require(ans in (-1, 1), "capture flag %r" % ans)
	if abs(E) < 1e-9 * p.GM / r:
		return False
	require(ans == (-1 if E < 0 else 1), "specific energy %g J/kg at the end of the flight but capture flag %g" % (E, ans))
	x2 = ref.cart(x[0], 0, 0, x[3], 0, x[5])
	return E < 0 < x[3] ** 2 / 2 - p.GM / x[0] or abs(E) * r / p.GM < 0.1


@st.composite
def cap_case(draw):
	s = draw(gen.entry_state(vmin=0.97, vmax=1.3, gmin=-14.0, gmax=-3.0))
	s["phi"] = draw(uni(-40, 40))
	return dict(s=s, veh=draw(gen.entry_vehicle()), delta=draw(st.sampled_from([0.0, 180.0, 60.0, -90.0])), T=draw(uni(100, 1200)))


SUBS = [
	Sub("elements", el_case(), elements, 3000, 150000, shards=3),
	Sub("burns", burn_case(), burns, 1500, 60000, shards=1),
	Sub("captured", cap_case(), captured, 120, 4000, shards=4),
]
