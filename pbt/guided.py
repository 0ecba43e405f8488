"""Shared oracle for guided entries: cuts the reported history into guidance cycles and re-derives every one of them."""
import numpy as np

from pbt import gen, ref
from pbt.core import close, fail, finite, require
from pbt.props.p05_heating import q_con, q_rad
from pbt.props.p11_orbit import vapse

D = np.pi / 180
KEYS = ("t_min", "h_km", "v_kms", "theta_deg", "phi_deg", "psi_deg", "gamma_deg", "drange_km", "acc_net_g", "dyn_pres_atm", "stag_pres_atm",
		"q_stag_total", "heatload")


class Flight:
	def __init__(self, o, p, pid, veh, first, rho, k=1.0):
		"""first: suffix of the first phase's histories ('eg' or 'en')"""
		self.o, self.p, self.pid, self.veh, self.rho, self.k = o, p, pid, veh, rho, k
		self.F = {x: finite(getattr(o, x + "_full"), "history %s_full" % x) for x in KEYS}
		self.E = {x: finite(getattr(o, "%s_%s" % (x, first)), "history %s_%s" % (x, first)) for x in KEYS}
		n, m = len(self.F["t_min"]), len(self.E["t_min"])
		for x in KEYS:
			require(self.F[x].shape == (n,) and self.E[x].shape == (m,), "history %s has %s and %s points, time has %d and %d" % (
				x, self.F[x].shape, self.E[x].shape, n, m))
			close(self.F[x][:m], self.E[x], "%s: the first phase inside the whole flight" % x, rtol=1e-12)
		self.n, self.m = n, m
		self.t = self.F["t_min"] * 60
		F = self.F
		self.Y = np.array([p.RP + F["h_km"] * 1e3, F["theta_deg"] * D, F["phi_deg"] * D, F["v_kms"] * 1e3, F["psi_deg"] * D, F["gamma_deg"] * D,
						F["drange_km"] * 1e3])
		cut = np.where(np.diff(self.t) <= 1e-9)[0] + 1
		self.seg = list(zip(np.concatenate(([0], cut)), np.concatenate((cut, [n]))))
		require(np.all(np.diff(self.t) > -1e-9), "time runs backwards")
		self.ncyc = len(self.seg) - 1
		self.nfirst = int(np.sum(cut <= m - 1)) if m > 1 else 0
		# the boundary of the phases is a cycle boundary
		require(m == n or m in cut, "the phases are not joined at a guidance cycle boundary")
		self.delta = finite(o.delta_deg_array, "bank history")
		self.tstep = finite(o.t_step_array, "cycle start times")
		require(len(self.delta) == self.ncyc + 1 and len(self.tstep) == self.ncyc + 1, "flight has %d guidance cycles, but %d bank angles and %d times are recorded" % (
			self.ncyc, len(self.delta) - 1, len(self.tstep) - 1))

	def start(self, k):
		return self.Y[:, self.seg[k + 1][0]]

	def end(self, k):
		return self.Y[:, self.seg[k + 1][1] - 1]

	def hdot(self, k):
		y = self.start(k)
		return y[3] * np.sin(y[5])

	def continuity(self):
		for k in range(self.ncyc):
			i, j = self.seg[k + 1][0] - 1, self.seg[k + 1][0]
			sc = np.array([self.p.RP, 1, 1, 1e4, 1, 1, self.p.RP])
			close(self.Y[:, j] / sc, self.Y[:, i] / sc, "state carried into guidance cycle %d" % k, rtol=1e-9, atol=1e-11)
			close(self.F["heatload"][j], self.F["heatload"][i], "heat load carried into guidance cycle %d" % k, rtol=1e-9)
			close(self.tstep[k + 1] * 60, self.t[j], "start time of cycle %d" % k, rtol=1e-9, atol=1e-9)

	def grid(self, T0, steps, dt):
		"""cycle durations: the first stretch takes T0, cycle k takes steps(k), unless cut by the end of the flight"""
		p = self.p
		for k in range(-1, self.ncyc):
			a, b = self.seg[k + 1]
			T = T0 if k < 0 else steps(k)
			n = b - a
			full = int(round(T / dt)) + 1
			tt = self.t[a:b] - self.t[a]
			close(tt, np.arange(n) * (T / (full - 1)) if n > 1 else tt, "time samples of cycle %d" % k, rtol=1e-6, atol=1e-6)
			# (rounding of the time grid may add one sample)
			require(n <= full + 1, "cycle %d lasts %g s, guidance cycle is %g s" % (k, tt[-1], T))
			if n < full:
				# cut: the next sample would be out of the atmosphere or below the trap altitude
				y = self.Y[:, b - 1]
				r = ref.rates(y, ref.pconst(p), 0.0, 0.0, 0.0)[0]
				hn = y[0] - p.RP + 1.5 * abs(y[3]) * T / (full - 1)
				hl = y[0] - p.RP - 1.5 * abs(y[3]) * T / (full - 1)
				# (the equations of motion cannot be integrated through vertical flight)
				require(hn > p.h_skip or hl < p.h_trap or y[5] < -86 * D, "cycle %d stops early at altitude %g km" % (k, (y[0] - p.RP) / 1e3))

	def full(self, k, T, dt):
		a, b = self.seg[k + 1]
		return b - a >= int(round(T / dt)) + 1

	def brink(self, k, T, dt):
		"""the next sample would be outside the atmosphere or trapped (rounding of the time grid decides if that sample exists)"""
		a, b = self.seg[k + 1]
		y = self.Y[:, b - 1]
		h, d = y[0] - self.p.RP, 1.5 * abs(y[3] * np.sin(y[5])) * dt + 100.0
		return y[5] < -86 * D or b - a == int(round(T / dt)) + 1 and (h + d > self.p.h_skip or h - d < self.p.h_trap)

	def motion(self, cycles, CD, CL, dense=0.0, tol_r=3e-6, tol_a=3e-6):
		"""every chosen cycle is the prescribed flight with the recorded bank angle; CD, CL functions of the cycle"""
		p, V = self.p, self.veh
		for k in cycles:
			a, b = self.seg[k + 1]
			if b - a < 2:
				continue
			x0 = self.Y[:, a]
			if abs(x0[5]) > 75 * D or abs(x0[2]) > 80 * D:
				continue
			dl = (0.0 if k < 0 else self.delta[k + 1]) * D
			t = self.t[a:b] - self.t[a]
			sols = [ref.fly(x0, t[-1], ref.pconst(p), self.rho, V["mass"], V["A"], CD(k), CL(k), dl, eps=e, t_eval=t, rtol=1e-10).y for e in (0.01, 0.0)]
			sc = np.array([p.RP, 1, 1, x0[3], 1, 1, p.RP])[:, None]
			lim = np.array([tol_r, tol_a, tol_a, tol_r, tol_a, tol_a, tol_r])[:, None] + 1.2 * np.abs(sols[0] - sols[1]) / sc
			if dense:
				# solver 2 interpolates inside its steps
				lim = lim + 3e-5 + dense * abs(sols[0][3, -1] / x0[3] - 1)
			err = np.abs(self.Y[:, a:b] - sols[0]) / sc
			if np.any(err > lim):
				i, j = np.argwhere(err > lim)[0]
				nm = ("radius", "longitude", "latitude", "speed", "heading", "flight-path angle", "downrange")[i]
				fail("guidance cycle %d (bank %.6g deg): %s after %.6g s is %.9g, reference %.9g (scaled error %.3g)" % (
					k, dl / D, nm, t[j], self.Y[i, a + j], sols[0][i, j], err[i, j]))

	def loads(self, CD, CL):
		p, V, F = self.p, self.veh, self.F
		r, v = self.Y[0], self.Y[3]
		h = r - p.RP
		rho = np.array([self.rho(x) for x in h])
		P = gen.spline(self.pid, "cubic", 1)(h)
		cd = np.concatenate([np.full(b - a, CD(k - 1)) for k, (a, b) in enumerate(self.seg)])
		cl = np.concatenate([np.full(b - a, CL(k - 1)) for k, (a, b) in enumerate(self.seg)])
		q = 0.5 * rho * v ** 2
		net = q * V["A"] * np.hypot(cd, cl) / V["mass"] / 9.80665
		kw = lambda w: dict(rtol=5e-5, atol=1e-9 * float(np.max(np.abs(w))) + 1e-300)
		close(F["acc_net_g"], net, "net acceleration (g) along the guided flight", **kw(net))
		close(F["dyn_pres_atm"], q / 101325.0, "dynamic pressure (atm) along the guided flight", **kw(q / 101325))
		close(F["stag_pres_atm"], (P + q) / 101325.0, "stagnation pressure (atm) along the guided flight", **kw((P + q) / 101325))
		tot = q_con(self.pid, rho, v, V["RN"]) + q_rad(self.pid, rho, v, V["RN"])
		near = (np.abs(v - np.round(v / 1e3) * 1e3) < 1e-3) if self.pid in ("VENUS", "EARTH") else np.zeros(len(v), bool)
		close(F["q_stag_total"][~near], tot[~near], "heating rate along the guided flight", **kw(tot))
		qs = F["q_stag_total"]
		J = F["heatload"][0] + np.concatenate(([0.0], np.cumsum(0.5 * (qs[1:] + qs[:-1]) * np.diff(self.t))))
		close(F["heatload"], J, "heat load along the guided flight", rtol=1e-6, atol=1e-7 * J[-1] + 1e-12)

	def terminal(self, peri, apo):
		o, p = self.o, self.p
		q = ref.orbit(*ref.inertial(*ref.cart(*self.Y[:6, -1]), p.OMEGA), p.GM)
		close(o.terminal_periapsis, (q["rp"] - p.RP) / 1e3, "terminal periapsis altitude", rtol=1e-6, atol=1e-6 * p.RP / 1e3 * max(1, abs(q["a"]) / p.RP))
		if q["E"] >= 0 or abs(q["e"] - 1) < 1e-3:
			require(q["E"] < 0 or o.terminal_apoapsis < 0, "the vehicle leaves the planet but the terminal apoapsis is %g km" % o.terminal_apoapsis)
			return False
		a = (q["ra"] - p.RP) / 1e3
		k = p.GM / q["ra"] / abs(q["E"])
		close(o.terminal_apoapsis, a, "terminal apoapsis altitude", rtol=1e-6, atol=1e-5 * q["ra"] / 1e3)
		a = o.terminal_apoapsis
		close(o.apoapsis_perc_error, (a - apo) / apo * 100.0, "apoapsis error in percent", rtol=1e-9, atol=1e-9)
		R = p.RP
		ra, rp, rtp, rta = R + a * 1e3, R + o.terminal_periapsis * 1e3, R + peri * 1e3, R + apo * 1e3
		sc = np.sqrt(p.GM / R)
		close(o.periapsis_raise_DV, vapse(p.GM, ra, rtp) - vapse(p.GM, ra, rp), "delta-V to raise the periapsis", rtol=1e-6, atol=1e-7 * sc)
		close(o.apoapsis_raise_DV, vapse(p.GM, rtp, rta) - vapse(p.GM, rtp, ra), "delta-V to correct the apoapsis", rtol=1e-6, atol=1e-7 * sc)
		return True

	def predict(self, y, rho, T, CD, CL):
		"""reference apoapsis altitude (km) after flying on with the given density, bank 0; inf when leaving; also the end state"""
		p, V = self.p, self.veh
		stop = lambda s: min(p.h_skip - (s[0] - p.RP), s[0] - p.RP - p.h_trap, s[5] + 85 * D)
		if stop(y) <= 0:
			e, kind = y, "end"
		else:
			sol = ref.fly(y, T, ref.pconst(p), rho, V["mass"], V["A"], CD, CL, 0.0, rtol=1e-7, stop=stop)
			e = sol.y_events[0][0] if sol.status == 1 else sol.y[:, -1]
		q = ref.orbit(*ref.inertial(*ref.cart(*e[:6]), p.OMEGA), p.GM)
		return (q["ra"] - p.RP) / 1e3 if q["E"] < 0 else np.inf
