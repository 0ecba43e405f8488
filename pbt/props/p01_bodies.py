"""P01: body constants, reference scales, non-dimensional states."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, close, fail, require
from pbt.gen import PLANETS, logu, planet_id, uni

RULE = ("one case = a body identifier plus a generated dimensional state (scalar or array), or a generated invalid "
		"identifier; non-trivial = a state with no zero entry, or an invalid identifier")

D = np.pi / 180.0
# radius m, GM, rotation rad/s, surface density, cp/cv, J2, J3, pole RA deg, pole dec deg, cut-off, skip, trap
REF = {
	"VENUS": (6051.8e3, 3.248599e14, -2.99237e-7, 64.79, 1.289, 4.458e-6, 0.0, 272.76, 67.16, 180e3, 180e3, 10e3, 60e3),
	"EARTH": (6371.0e3, 3.986004e14, 7.272205e-5, 1.225, 1.4, 1082.6e-6, -2.532e-6, 0.0, 90.0, 120e3, 120e3, 10e3, 50e3),
	"MARS": (3389.5e3, 4.282837e13, 7.088253e-5, 0.02, 1.289, 1960.45e-6, 31.5e-6, 317.68143, 52.8865, 120e3, 120e3, 10e3, 50e3),
	"JUPITER": (69911e3, 1.26686534e17, 1.758518e-4, 0.16288, 1.4348, 14736e-6, 0.0, 268.056595, 64.495303, 1000e3, 1000e3, 50e3, None),
	"SATURN": (58232e3, 3.7931187e16, 1.6379e-4, 0.19847, 1.4348, 16298e-6, 0.0, 40.589, 83.537, 1000e3, 1000e3, 50e3, None),
	"TITAN": (2575e3, 8.978e12, 4.545128e-6, 5.435, 1.4, 31.808e-6, -1.88e-6, 39.4827, 83.4279, 1000e3, 1000e3, 30e3, 300e3),
	"URANUS": (25559e3, 5.793939e15, -1.01237e-4, 0.3788, 1.45, 3343.3e-6, 0.0, 257.311, -15.175, 1500e3, 1500e3, 10e3, 10e3),
	"NEPTUNE": (24622e3, 6.8365299e15, 1.083385e-4, 0.44021, 1.45, 3411e-6, 0.0, 299.36, 43.36, 1000e3, 1000e3, 10e3, 100e3),
}


def constants(c):
	from AMAT.planet import Planet
	p = Planet(c["planet"])
	r = REF[c["planet"]]
	require(p.ID == c["planet"], "body %s reports identifier %r" % (c["planet"], p.ID))
	for name, want in zip(("RP", "GM", "OMEGA", "rho0", "CPCV", "J2", "J3", "a0", "d0", "h_thres", "h_skip", "h_trap", "h_low"), r):
		if name in ("a0", "d0"):
			want = want * D
		if name == "h_low" and want is None:
			require(p.h_trap <= p.h_low <= p.h_skip, "%s trap limit outside [h_trap, h_skip]" % c["planet"])
			continue
		close(getattr(p, name), want, "%s constant %s" % (c["planet"], name), rtol=1e-9, atol=1e-15 if want == 0 else 0.0)
	close(p.EARTHG, 9.80665, "standard gravity", rtol=1e-9)
	close(p.Vref, np.sqrt(r[1] / r[0]), "reference speed", rtol=1e-9)
	close(p.tau, np.sqrt(r[0] ** 3 / r[1]), "reference time", rtol=1e-9)
	close(p.OMEGAbar, r[2] * np.sqrt(r[0] ** 3 / r[1]), "non-dimensional rotation rate", rtol=1e-9)
	# creating another body must not disturb the first
	q = Planet(c["other"])
	close(p.RP, r[0], "radius after another body was created")
	close(q.RP, REF[c["other"]][0], "radius of the second body")
	return True


def invalid(c):
	from AMAT.planet import Planet
	if c["name"] in PLANETS:
		return False
	try:
		Planet(c["name"])
	except ValueError:
		return True
	except Exception as e:
		fail("invalid body identifier %r raised %s instead of ValueError" % (c["name"], type(e).__name__))
	fail("invalid body identifier %r was accepted" % c["name"])


def states(c):
	from AMAT.planet import Planet
	p = Planet(c["planet"])
	RP, GM = REF[c["planet"]][:2]
	V = np.sqrt(GM / RP)
	tau = RP / V
	x = [np.array(v) if c["vec"] else v[0] for v in
		(c["r"], c["theta"], c["phi"], c["v"], c["psi"], c["gamma"], c["dr"], c["t"])]
	r, th, ph, v, ps, ga, dr, t = x
	nd = p.nonDimState(r, th, ph, v, ps, ga, dr)
	require(len(nd) == 7, "the non-dimensional state has %d entries" % len(nd))
	for got, want, nm in zip(nd, (r / RP, th, ph, v / V, ps, ga, dr / RP),
							("radius", "longitude", "latitude", "speed", "heading", "flight-path angle", "downrange")):
		close(got, want, "non-dimensional " + nm, rtol=1e-12)
	di = p.dimensionalize(t, r / RP, th, ph, v / V, ps, ga, dr / RP)
	require(len(di) == 8, "the dimensional state has %d entries" % len(di))
	for got, want, nm in zip(di, (t * tau, r, th, ph, v, ps, ga, dr),
							("time", "radius", "longitude", "latitude", "speed", "heading", "flight-path angle", "downrange")):
		close(got, want, "dimensional " + nm, rtol=1e-12)
	back = p.dimensionalize(t / tau, *p.nonDimState(r, th, ph, v, ps, ga, dr))
	for got, want in zip(back, (t, r, th, ph, v, ps, ga, dr)):
		close(got, want, "dimensional -> non-dimensional -> dimensional state", rtol=1e-12)
	h = r - RP
	close(p.computeH(r), h, "altitude of a radius", rtol=1e-12, atol=1e-8)
	close(p.computeR(h), r, "radius of an altitude", rtol=1e-12)
	close(p.rbar(r), r / RP, "non-dimensional radius", rtol=1e-12)
	return all(a != 0 for k in ("theta", "phi", "v", "psi", "gamma", "dr") for a in c[k])


@st.composite
def state_case(draw):
	n = draw(st.integers(1, 4))
	pid = draw(planet_id())
	L = lambda s: draw(st.lists(s, min_size=n, max_size=n))
	return dict(planet=pid, vec=draw(st.booleans()),
				r=[REF[pid][0] * k for k in L(uni(0.9, 60.0))], theta=L(uni(-7, 7)), phi=L(uni(-1.57, 1.57)),
				v=L(logu(1.0, 2e5)), psi=L(uni(-7, 7)), gamma=L(uni(-1.57, 1.57)), dr=L(uni(-1e8, 1e8)),
				t=L(uni(-1e5, 1e5)))


SUBS = [
	Sub("constants", st.fixed_dictionaries(dict(planet=planet_id(), other=planet_id())), constants, 64, 64),
	Sub("invalid_id", st.fixed_dictionaries(dict(name=st.one_of(
		st.sampled_from(PLANETS).map(str.lower), st.sampled_from(PLANETS).map(str.title),
		st.sampled_from(PLANETS).map(lambda s: s + " "), st.sampled_from(["", "PLUTO", "MOON", "MERCURY", "CERES"]),
		st.text(max_size=8)))), invalid, 200, 5000),
	Sub("states", state_case(), states, 1500, 60000),
]
