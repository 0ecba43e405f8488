"""P23: link budget, transmit schedule and data volume."""
import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, close, finite, require
from pbt.gen import logu, uni

RULE = ("one case = link parameters, or a schedule and a visibility history; non-trivial = a link in which at least one antenna is given by its diameter and every loss is positive, "
		"or a history in which the link is up for some but not all of the time")
ASSUMPTIONS = ["the speed of light and Boltzmann's constant may be rounded (0.03 dB)", "between samples the data rate is taken as linear (trapezoidal rule on the given time grid)"]
C, K = 299792458.0, 1.380649e-23


def make(c, **kw):
	from AMAT.telecom import Link
	d = dict(freq=c["freq"], Pt=c["Pt"], Ts=c["Ts"], range_km=c["range"], L_other_dB=c["Lo"], rate_kbps=c["rate"], Eb_N0_req=c["req"])
	for x, (D, eta, G) in (("t", c["tx"]), ("r", c["rx"])):
		if D is not None:
			d["D" + x], d["eta_" + x] = D, eta
		elif c["half"]:
			# a diameter without an efficiency (or the other way round) does not make an antenna: the gain counts
			d[c["half"] + x if c["half"] == "D" else "eta_" + x] = 0.6
		if G is not None:
			d["G%s_dBi" % x] = G
	for k in ("Lt_dB", "L_sc_dB", "La_dB", "L_DSN_dB"):
		if c[k] is not None:
			d[k] = c[k]
	d.update(kw)
	return Link(**d)


def gain(c, who, f):
	D, eta, G = c[who]
	return G if D is None else 10 * np.log10(eta * (np.pi * D * f / C) ** 2)


def link(c):
	o = make(c)
	f = c["freq"] * 1e9
	dB = lambda x: 10 * np.log10(x)
	Gt, Gr = gain(c, "tx", f), gain(c, "rx", f)
	loss = {k: (c[k] if c[k] is not None else d) for k, d in (("Lt_dB", 1.0), ("L_sc_dB", 0.2), ("La_dB", 0.35), ("L_DSN_dB", 1.0))}
	close(o.freq, f, "frequency", rtol=1e-12)
	close(o.wavelength, C / f, "wavelength", rtol=1e-3)
	close([o.Pt, o.Pt_dB], [c["Pt"], dB(c["Pt"])], "transmitter power", rtol=1e-9, atol=1e-9)
	close([o.Ts, o.Ts_dBK], [c["Ts"], dB(c["Ts"])], "noise temperature", rtol=1e-9, atol=1e-9)
	close([o.R, o.R_dBHz], [c["rate"] * 1e3, dB(c["rate"] * 1e3)], "data rate", rtol=1e-9, atol=1e-9)
	close(o.range, c["range"] * 1e3, "range", rtol=1e-12)
	close(o.Ls_dB, 20 * np.log10(4 * np.pi * c["range"] * 1e3 * f / C), "free-space loss", atol=0.01)
	close([o.Gt_dBi, o.Gr_dBi], [Gt, Gr], "antenna gains", atol=0.01)
	for x, (D, eta, G) in (("t", c["tx"]), ("r", c["rx"])):
		if D is None:
			require(getattr(o, "D" + x) is None and getattr(o, "eta_" + x) is None, "an antenna given by its gain has a diameter")
		else:
			close([getattr(o, "D" + x), getattr(o, "A" + x), getattr(o, "eta_" + x)], [D, np.pi / 4 * D * D, eta], "antenna %s" % x, rtol=1e-9)
	for k, v in loss.items():
		close(getattr(o, k), v, k, rtol=1e-12)
	# energy per bit over noise density, in watts and joules
	lin = lambda x: 10 ** (x / 10)
	pr = c["Pt"] * lin(Gt) * lin(Gr) * (C / f / (4 * np.pi * c["range"] * 1e3)) ** 2 / lin(sum(loss.values()) + c["Lo"])
	want = dB(pr / (c["rate"] * 1e3) / (K * c["Ts"]))
	close(o.EB_N0, want, "Eb/N0", atol=0.03)
	close(o.EB_N0_margin, o.EB_N0 - c["req"], "margin", atol=1e-9)
	close(o.EB_N0_req, c["req"], "required Eb/N0", rtol=1e-12)
	# metamorphic: exact consequences that do not depend on the constants
	k = c["k"]
	e = o.EB_N0
	close(make(c, Pt=k * c["Pt"]).EB_N0 - e, dB(k), "Eb/N0 against power", atol=1e-8)
	close(make(c, rate_kbps=k * c["rate"]).EB_N0 - e, -dB(k), "Eb/N0 against data rate", atol=1e-8)
	close(make(c, range_km=k * c["range"]).EB_N0 - e, -2 * dB(k), "Eb/N0 against range", atol=1e-8)
	close(make(c, Ts=k * c["Ts"]).EB_N0 - e, -dB(k), "Eb/N0 against noise temperature", atol=1e-8)
	ant = (c["tx"][0] is not None) + (c["rx"][0] is not None)
	close(make(c, freq=k * c["freq"]).EB_N0 - e, (2 * ant - 2) * dB(k), "Eb/N0 against frequency", atol=1e-8)
	for p in ("Lt_dB", "L_sc_dB", "La_dB", "L_DSN_dB", "L_other_dB"):
		v = c["Lo"] if p == "L_other_dB" else loss[p]
		close(make(c, **{p: v + k}).EB_N0 - e, -k, "Eb/N0 against " + p, atol=1e-8)
	for x, who in (("t", "tx"), ("r", "rx")):
		D, eta, G = c[who]
		if D is None:
			close(make(c, **{"G%s_dBi" % x: G + k}).EB_N0 - e, k, "Eb/N0 against gain", atol=1e-8)
		else:
			close(make(c, **{"D" + x: k * D}).EB_N0 - e, 2 * dB(k), "Eb/N0 against diameter", atol=1e-8)
			close(make(c, **{"eta_" + x: k * eta}).EB_N0 - e, dB(k), "Eb/N0 against efficiency", atol=1e-8)
	# the printed budget adds up
	out = io.StringIO()
	with contextlib.redirect_stdout(out):
		o.print_link_budget()
	vals = {}
	for line in out.getvalue().splitlines():
		m = re.match(r"(.*?):\s*(\S.*)$", line)
		if m:
			vals[m.group(1)] = m.group(2).replace("--", "").replace("+-", "-").lstrip("+")
	num = lambda k: float(vals[k])
	close(num("Available Eb/N0"), o.EB_N0, "printed Eb/N0", atol=0.0051)
	close(num("Eb/N0 Margin"), o.EB_N0_margin, "printed margin", atol=0.0051)
	close(num("Transmitter Gain, dBi"), o.Gt_dBi, "printed transmitter gain", atol=0.0051)
	close(num("Receiver Gain, dBi"), o.Gr_dBi, "printed receiver gain", atol=0.0051)
	close([num("Frequency, GHz"), num("Link Distance, km"), num("Data rate, kbps")], [c["freq"], c["range"], c["rate"]], "printed frequency, distance and rate", rtol=1e-9)
	return ant >= 1 and min(list(loss.values()) + [c["Lo"]]) > 0


class Seen:
	def __init__(self, t, v):
		self.t_array, self.visible_array = t, v


def volume(c):
	from AMAT.telecom import Schedule
	n, T = c["n"], c["T"]
	win = [np.array(w) * T if c["arr"] else (w[0] * T, w[1] * T) for w in c["win"]]
	s = Schedule(T, n, win)
	t = np.linspace(0, T, n)
	close(s.t_array, t, "schedule times", atol=1e-12 * T)
	require(np.shape(s.transmit_array) == (n,), "transmit array has shape %s" % (np.shape(s.transmit_array),))
	on = np.array([any(a <= x <= b for a, b in win) for x in s.t_array], dtype=bool)
	edge = np.array([any(abs(x - y) < 1e-9 * T for w in win for y in w) and not any(x == y for w in win for y in w) for x in s.t_array], dtype=bool)
	for k in range(n):
		require(edge[k] or bool(s.transmit_array[k]) == bool(on[k]), lambda: "sample %d at %.9g s, windows %s: transmit is %s" % (k, t[k], [list(w) for w in win], s.transmit_array[k]))
	vis = np.array([c["vis"][k % len(c["vis"])] for k in range(n)], dtype=bool)
	if c["blocks"]:
		vis = np.repeat(vis, 7)[:n]
	o = make(c["link"])
	v = Seen(t, vis)
	before = vis.copy(), s.transmit_array.copy()
	o.compute_data_volume(v, s)
	require(np.array_equal(v.visible_array, before[0]) and np.array_equal(s.transmit_array, before[1]), "the visibility or the schedule was changed")
	up = (before[0] & np.asarray(before[1], bool)).astype(float)
	want = np.concatenate([[0.0], np.cumsum((up[1:] + up[:-1]) / 2 * np.diff(t))]) * c["link"]["rate"] * 1e3
	got = finite(o.data_volume_array, "data volume")
	close(got, want, "data volume", rtol=1e-9, atol=1e-9 * T * c["link"]["rate"] * 1e3)
	close(o.t_array, t, "times of the data volume", atol=1e-12 * T)
	return 0 < up.sum() < n


def passes(c):
	"""a lander's own visibility of Earth drives the data volume: it only grows"""
	from AMAT.telecom import Schedule
	from AMAT.visibility import LanderToPlanet
	from pbt.props.p22_visibility import sky, NAMES
	if c["obs"] in ("EARTH",):
		return False
	eph = {x: 1e8 * np.array(v) for x, v in zip(NAMES, c["eph"])}
	with sky(eph, "2030-01-01 00:00:00"):
		v = LanderToPlanet("EARTH", c["obs"], c["lat"], "2030-01-01 00:00:00", c["n"], "builtin")
	T = float(np.max(np.abs(v.t_array)))
	s = Schedule(T, c["n"], [(a * T, b * T) for a, b in c["win"]])
	o = make(c["link"])
	o.compute_data_volume(v, s)
	d = np.diff(finite(o.data_volume_array, "data volume"))
	require(np.all(d >= 0), "the data volume shrinks from %g to %g bits" % (o.data_volume_array[0], np.min(o.data_volume_array)))
	up = (np.asarray(v.visible_array, bool) & np.asarray(s.transmit_array, bool)).astype(float)
	want = np.sum((up[1:] + up[:-1]) / 2) * T / (c["n"] - 1) * o.R
	close(o.data_volume_array[-1], want, "data volume over one rotation", rtol=1e-9, atol=1e-6 * o.R)
	return 0 < up.sum() < c["n"]


@st.composite
def links(draw):
	ant = st.one_of(st.tuples(logu(0.1, 70), uni(0.3, 0.95), st.one_of(st.none(), uni(0, 60))), st.tuples(st.none(), st.none(), uni(-3, 80)))
	loss = st.one_of(st.none(), uni(0.01, 5), st.just(0.0))
	return dict(freq=draw(logu(0.2, 40)), Pt=draw(logu(0.5, 1000)), Ts=draw(logu(10, 1000)), range=draw(logu(100, 5e9)), Lo=draw(st.one_of(uni(0, 6), st.just(0.0))),
				rate=draw(logu(0.01, 1e5)), req=draw(uni(-2, 10)), tx=draw(ant), rx=draw(ant), Lt_dB=draw(loss), L_sc_dB=draw(loss), La_dB=draw(loss), L_DSN_dB=draw(loss), half=draw(st.sampled_from([None, None, "D", "eta"])), k=draw(uni(1.1, 8)))


frac = st.one_of(uni(0, 1), st.integers(0, 8).map(lambda i: i / 8))
windows = st.lists(st.tuples(frac, frac).map(lambda w: tuple(sorted(w))), min_size=0, max_size=5)


@st.composite
def volumes(draw):
	return dict(n=draw(st.integers(2, 200)), T=draw(logu(10, 1e7)), win=draw(windows), arr=draw(st.booleans()), vis=draw(st.lists(st.booleans(), min_size=2, max_size=40)),
				blocks=draw(st.booleans()), link=draw(links()))


@st.composite
def landers(draw):
	from pbt.props.p22_visibility import NAMES
	return dict(obs=draw(st.sampled_from(NAMES)), lat=draw(uni(-80, 80)), n=draw(st.integers(3, 60)), eph=[[draw(uni(-40, 40)) for _ in range(3)] for _ in NAMES],
				win=draw(st.one_of(st.just([(0.0, 1.0)]), windows)), link=draw(links()))


SUBS = [
	Sub("link", links(), link, 1200, 60000, shards=2),
	Sub("volume", volumes(), volume, 1500, 80000, shards=2),
	Sub("passes", landers(), passes, 400, 20000, shards=1),
]
