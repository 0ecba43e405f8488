"""P06: the equations of motion are those of a point mass over a rotating, oblate planet."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, close, finite, require
from pbt.gen import uni

RULE = ("one case = body, vehicle, bank angle and a flight state (any position, heading, flight-path angle within 85 deg of "
		"horizontal); non-trivial = inside the atmosphere with lift, off the equator, flight-path angle, heading and bank not on an axis")
ASSUMPTIONS = ["the heading equation divides by cos(gamma)+epsilon; any epsilon in [0, 0.01] is accepted (documented regularisation)"]


def check(got, want, A, B, gamma, tau, RP, V, what):
	sc = np.array([V, V / RP, V / RP, V / tau, 1 / tau, 1 / tau, V])
	g = finite(got, what)
	require(g.shape == (7,), "%s returned %s rates" % (what, g.shape))
	names = ("radius", "longitude", "latitude", "speed", "heading", "flight-path angle", "downrange")
	dim = g * np.array([RP, 1, 1, V, 1, 1, RP]) / tau
	for k in range(7):
		if k == 4:
			continue
		close(dim[k], want[k], "%s: %s rate" % (what, names[k]), rtol=1e-5, atol=1e-9 * sc[k])
	lo, hi = sorted((A / np.cos(gamma), A / (np.cos(gamma) + 0.01)))
	tol = 1e-5 * (abs(A / np.cos(gamma)) + abs(B)) + 1e-9 / tau
	require(lo - tol <= dim[4] - B <= hi + tol, "%s: heading rate %.12g, expected between %.12g and %.12g" % (
		what, dim[4], lo + B, hi + B))


def dynamics(c):
	pid = c["planet"]
	p = gen.make_planet(pid, kind="linear")
	if c["J3"] is not None:
		p.J3 = c["J3"]
	if c["J2"] is not None:
		p.J2 = c["J2"]
	V = c["veh"]
	o = gen.make_vehicle(p, V)
	top = min(p.h_thres, gen.table(pid)[0][-1])
	h = c["h"] * (top - 2.0) + 1.0 if c["h"] <= 1 else p.h_thres * c["h"]
	r = p.RP + h
	rho = float(gen.spline(pid, "linear", 2)(h)) if h <= top else 0.0
	v = c["v"] * np.sqrt(p.GM / p.RP)
	CD = V["mass"] / (V["beta"] * V["A"])
	q = 0.5 * rho * v ** 2 * V["A"] / V["mass"]
	s = [r, c["theta"], c["phi"], v, c["psi"], c["gamma"], c["drange"]]
	want, A, B = ref.rates(s, ref.pconst(p), q * CD, q * CD * V["LD"], c["delta"])
	tau = np.sqrt(p.RP ** 3 / p.GM)
	y = [r / p.RP, c["theta"], c["phi"], c["v"], c["psi"], c["gamma"], c["drange"] / p.RP]
	# aerodynamic rates carry the interpolation rounding of the density
	check(o.EOM(y, c["t"], c["delta"]), want, A, B, c["gamma"], tau, p.RP, v / c["v"], "first form of the equations")
	check(o.EOM2(c["t"], y, c["delta"]), want, A, B, c["gamma"], tau, p.RP, v / c["v"], "second form of the equations")
	# the gravity components by themselves
	up, east, north = ref.local_axes(c["theta"], c["phi"])
	R, _ = ref.cart(*s[:6])
	g = ref.gravity(R, p.GM, p.RP, p.J2, p.J3) * p.RP ** 2 / p.GM
	rb = r / p.RP
	close(o.grbar(rb, c["phi"]), g @ up, "radial gravity", rtol=1e-9, atol=1e-12)
	close(o.gphibar(rb, c["phi"]), g @ north, "north gravity", rtol=1e-9, atol=1e-12)
	close(o.gthetabar(rb, c["phi"]), g @ east, "east gravity", rtol=1e-9, atol=1e-12)
	return bool(rho > 0 and V["LD"] != 0 and min(abs(np.sin(2 * c[k])) for k in ("phi", "psi", "gamma", "delta")) > 1e-4)


@st.composite
def case(draw):
	return dict(planet=draw(gen.planet_id()), veh=draw(gen.vehicle_params()),
				h=draw(st.one_of(uni(0, 1), uni(0, 0.3), uni(1.01, 5.0))), theta=draw(uni(-3.2, 3.2)), phi=draw(uni(-1.5, 1.5)),
				v=draw(gen.logu(0.02, 4.0)), psi=draw(uni(-6.3, 6.3)), gamma=draw(uni(-1.48, 1.48)), drange=draw(uni(0, 1e7)),
				delta=draw(uni(-6.3, 6.3)), t=draw(uni(0, 10.0)),
				J2=draw(st.one_of(st.none(), st.none(), uni(-0.02, 0.02))), J3=draw(st.one_of(st.none(), uni(-0.02, 0.02))))


SUBS = [Sub("dynamics", case(), dynamics, 4000, 200000, shards=4)]
