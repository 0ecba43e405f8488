"""P27: the plots of a flight and of an atmosphere show what was computed."""
import numpy as np
from hypothesis import strategies as st

from pbt import figures, gen
from pbt.core import Sub, close, require
from pbt.gen import logu, uni

RULE = "one case = body, vehicle and entry, or body, lower altitude limit and spacing; non-trivial = a curve of at least 10 points with varying values"
ASSUMPTIONS = ["figures are inspected instead of being shown"]


def curves(figs, n, what):
	require(len(figs) == 1, "%s drew %d figures" % (what, len(figs)))
	ax = [a for a in figs[0].axes if a.get_lines()]
	require(len(ax) == n, "%s drew %d panels with curves, expected %d" % (what, len(ax), n))
	out = []
	for a in ax:
		l = figures.lines(a)
		require(len(l) == 1, "%s drew %d curves in a panel" % (what, len(l)))
		out.append((a, l[0]))
	return out


def flight(c):
	pid = c["s"]["planet"]
	p = gen.make_planet(pid)
	o = gen.make_vehicle(p, c["veh"])
	x0 = gen.start(p, c["s"])
	s = c["s"]
	o.setInitialState((x0[0] - p.RP) / 1e3, s["theta"], s["phi"], x0[3] / 1e3, s["psi"], s["gamma"], s["drange"], s["heat"])
	o.setSolverParams(1e-6)
	if c["q"]:
		fresh = gen.make_vehicle(p, c["veh"])
		fresh.setInitialState((x0[0] - p.RP) / 1e3, s["theta"], s["phi"], x0[3] / 1e3, s["psi"], s["gamma"], s["drange"], s["heat"])
		fresh.setSolverParams(1e-6)
		fresh.propogateEntry(c["T"], 1.0, c["delta"])
		with figures.drawn() as out:
			o.createQPlot(c["T"], 1.0, c["delta"])
		(a, (x, y)), = curves(out[0][0], 1, "createQPlot")
		close(x, np.asarray(fresh.h_kmc) * 1e3, "altitude in the q plot", rtol=1e-9)
		close(y, np.asarray(fresh.dyn_pres_atm) * 101325.0, "dynamic pressure in the q plot", rtol=1e-9)
		return len(x) > 10
	(o.propogateEntry if c["one"] else o.propogateEntry2)(c["T"], 1.0, c["delta"])
	keep = {k: np.array(getattr(o, k)) for k in ("t_minc", "h_kmc", "v_kmsc", "acc_net_g", "q_stag_total")}
	with figures.drawn() as out:
		o.makeBasicEntryPlots()
	got = curves(out[0][0], 4, "makeBasicEntryPlots")
	for (a, (x, y)), k, label in zip(got, ("h_kmc", "v_kmsc", "acc_net_g", "q_stag_total"), ("altitude", "velocity", "deceleration", "heat")):
		close(x, keep["t_minc"], "time axis of the plot of " + k, rtol=1e-9)
		close(y, keep[k], "plot of " + k, rtol=1e-9)
		require(label in a.get_ylabel().lower() and "min" in a.get_xlabel(), "the plot of %s is labelled %r against %r" % (k, a.get_ylabel(), a.get_xlabel()))
		require(np.array_equal(getattr(o, k), keep[k]), "plotting changed %s" % k)
	return len(keep["t_minc"]) > 10


def atmosphere(c):
	pid = c["planet"]
	p = gen.make_planet(pid)
	h0, dh = c["h0"] * p.h_thres, c["dh"] * p.h_thres
	with figures.drawn() as out:
		p.checkAtmProfiles(h0=h0, dh=dh)
	got = curves(out[0][0], 4, "checkAtmProfiles")
	H = gen.table(pid)[0]
	h = got[0][1][1] * 1e3
	require(len(h) == int(p.h_thres / dh), "the profile has %d points, expected %d" % (len(h), int(p.h_thres / dh)))
	close([h[0], h[-1]] if len(h) > 1 else h, [h0, p.h_thres] if len(h) > 1 else [h0], "altitude range of the profile", rtol=1e-9, atol=1e-6)
	inside = (h >= max(0.0, H[0])) & (h <= min(H[-1], p.h_thres * (1 - 1e-12)))
	for (a, (x, y)), col, k, label in zip(got, (0, 1, 2, 3), (1.0, 1e-3, 1.0, 1.0), ("Temperature, K", "Pressure, kPa", "Density, kg/m3", "Speed of Sound, m/s")):
		close(y, h / 1e3, "altitude axis of " + label, rtol=1e-9)
		want = gen.spline(pid, "cubic", col)(h[inside]) * k
		ok = np.isfinite(want)
		close(x[inside][ok], want[ok], label + " profile", rtol=1e-6, atol=1e-9 * np.nanmax(np.abs(want)) if ok.any() else 0.0)
		require(a.get_xlabel() == label, "the axis of %s is labelled %r" % (label, a.get_xlabel()))
	return len(h) > 10


@st.composite
def flights(draw):
	s = draw(gen.entry_state(vmin=0.8, vmax=1.3))
	return dict(s=s, veh=draw(gen.entry_vehicle()), delta=draw(uni(0, 180)), T=draw(st.sampled_from([100.0, 300.0, 600.0])), one=draw(st.booleans()), q=draw(st.booleans()))


SUBS = [
	Sub("flight", flights(), flight, 160, 8000, shards=4),
	Sub("atmosphere", st.fixed_dictionaries(dict(planet=gen.planet_id(), h0=st.one_of(st.just(0.0), uni(0, 0.8)), dh=logu(1e-3, 0.3))), atmosphere, 160, 8000, shards=4),
]
