"""P13: aerocapture corridor limits of a drag-modulated vehicle."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, close, require
from pbt.gen import logu, uni
from pbt.props.p12_corridor import M, Setup

RULE = ("one case = body, vehicle (with or without lift), low ballistic coefficient and ratio, entry speed and geometry, target apoapsis, "
		"search interval and tolerance, order of the two searches; non-trivial = both limits lie inside the interval and the ratio exceeds 1.2")
ASSUMPTIONS = ["a limit must lie within 0.02 deg (plus the requested tolerance) of the reference limit", "the vehicle flies without lift during drag modulation"]


def limits(c):
	pid = c["s"]["planet"]
	p = gen.make_planet(pid)
	v = c["veh"]
	o = gen.make_vehicle(p, v)
	s = dict(c["s"])
	x = gen.start(p, s)
	o.setInitialState((x[0] - p.RP) / 1e3, s["theta"], s["phi"], x[3] / 1e3, s["psi"], s["gamma"], 0.0, 0.0)
	o.setSolverParams(1e-6)
	o.setDragModulationVehicleParams(c["beta1"], c["ratio"])
	close(o.beta1, c["beta1"], "low ballistic coefficient")
	close(o.betaRatio, c["ratio"], "ballistic coefficient ratio")
	two = c["variant"] == 2
	target = c["target"] * p.RP / 1e3 + p.h_skip / 1e3
	lo, hi, tol, T, dt = c["lo"], c["hi"], c["tol"], c["T"], c["dt"]
	m, A = v["mass"], v["A"]
	w = {b: Setup(pid, p, m, A, m / (b * A), 0.0, T, target, two, s) for b in {c["beta1"], c["beta1"] * c["ratio"]}}
	found = {}
	keep = ("h0_km", "theta0_deg", "phi0_deg", "v0_kms", "psi0_deg", "gamma0_deg", "drange0_km", "heatLoad0", "LD", "mass", "A", "RN", "beta1", "betaRatio")
	was = {k: getattr(o, k) for k in keep}
	CL = o.CL

	def kept(what):
		for k in keep:
			require(getattr(o, k) == was[k], "%s changed %s from %r to %r" % (what, k, was[k], getattr(o, k)))
		# the lift coefficient is the one it had, or L/D times the drag coefficient now in force
		require(any(abs(o.CL - x) <= 1e-9 * abs(x) for x in (CL, o.LD * o.CD)), "%s left lift coefficient %r (L/D %r, drag coefficient %r), was %r" % (what, o.CL, o.LD, o.CD, CL))
	for over in (c["first"], not c["first"]):
		beta = c["beta1"] if over else c["beta1"] * c["ratio"]
		W = w[beta]
		f = {(True, False): o.findOverShootLimitD, (False, False): o.findUnderShootLimitD,
			(True, True): o.findOverShootLimitD2, (False, True): o.findUnderShootLimitD2}[(over, two)]
		what = "overshoot" if over else "undershoot"
		lim, ok = f(T, dt, lo, hi, tol, target)
		kept("searching the %s limit" % what)
		found[over] = (lim, ok)
		a, b = W.outcome(lo, 0.0), W.outcome(hi, 0.0)
		if not all(W.outcome(e + k * M, 0.0) == W.outcome(e, 0.0) for e in (lo, hi) for k in (-1, 1)):
			continue
		if a == b:
			require(ok == 0 and lim == 0, "no %s limit between %g and %g deg, but the search reports %r, flag %r" % (what, lo, hi, lim, ok))
			continue
		require(ok == 1, "a %s limit lies between %g and %g deg, but the search reports flag %r" % (what, lo, hi, ok))
		k = M + tol
		got = W.outcome(lim - k, 0.0), W.outcome(lim + k, 0.0)
		require(got == (1, -1), "%s limit (ballistic coefficient %g) reported at %.6f deg, but flights %.3f deg steeper/shallower are %s/%s" % (
			what, beta, lim, k, got[0], got[1]))
	both = found[True][1] == 1 == found[False][1]
	if both and c["ratio"] > 1:
		require(found[True][0] - found[False][0] > -2 * (M + tol), "drag-modulation undershoot limit shallower than the overshoot limit")
	if c["tcw"]:
		f = o.computeTCWD2 if two else o.computeTCWD
		close(f(T, dt, lo, hi, tol, target), found[True][0] - found[False][0], "drag-modulation corridor width", atol=1e-9)
		kept("computing the corridor width")
	return both and c["ratio"] > 1.2


@st.composite
def case(draw):
	s = draw(gen.entry_state(vmin=1.0, vmax=1.25, gmin=-25.0, gmax=-2.0))
	s["h0f"] = draw(uni(0.85, 0.999))
	s["phi"] = draw(uni(-50, 50))
	v = draw(gen.entry_vehicle())
	v["LD"] = draw(st.one_of(st.just(0.0), uni(0.05, 0.5)))
	return dict(s=s, veh=v, T=draw(st.sampled_from([900.0, 1500.0])), dt=draw(st.sampled_from([1.0, 2.0, 5.0])),
				target=draw(logu(0.05, 30.0)), variant=draw(st.sampled_from([1, 2])), beta1=draw(logu(10, 150)),
				ratio=draw(uni(1.5, 12)), lo=draw(uni(-22.0, -12.0)), hi=draw(st.one_of(uni(-3.0, -1.5), uni(-3.0, -1.5), uni(-11.0, -3.0))),
				tol=draw(st.sampled_from([0.05, 0.02, 0.01, 1e-3])), tcw=draw(st.integers(0, 2)) == 0, first=draw(st.booleans()))


SUBS = [Sub("limits", case(), limits, 64, 1500, shards=8)]
