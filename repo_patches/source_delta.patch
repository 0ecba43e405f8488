From e2479b316b8e1e0a547c4eabca297bc8efb1c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:58 +0000
Subject: [PATCH 01/31] fix: square the lateral component in the net
 acceleration load

The magnitude used 2*a_w instead of a_w**2, which is wrong (and NaN for
negative a_w) for every banked trajectory.
---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 3aab595..ba94969 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2092,7 +2092,7 @@ class Vehicle:
 		acc_w = self.a_wvectorized(rc, thetac, phic, vc, delta)
 
 		acc_net = np.zeros(index)
-		acc_net[:] = np.sqrt(acc_s[:]**2.0 + acc_n[:]**2.0 + acc_w[:]*2.0)
+		acc_net[:] = np.sqrt(acc_s[:]**2.0 + acc_n[:]**2.0 + acc_w[:]**2.0)
 		acc_net_g = acc_net / self.planetObj.EARTHG
 
 		return acc_net_g
-- 
2.43.0


From 49a106a869cb67add399d98759e3c27cfdd00245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:58 +0000
Subject: [PATCH 02/31] fix: use float() instead of the removed np.float in
 computeMachScalar

np.float no longer exists, so every trajectory with a user-defined CD(Mach)
raised AttributeError.
---
 AMAT/vehicle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index ba94969..a95d039 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2233,9 +2233,9 @@ class Vehicle:
 			Mach no.
 		
 		"""
-		stat_pres = np.float(self.planetObj.pressure_int(r - self.planetObj.RP))
-		stat_temp = np.float(self.planetObj.temp_int(r - self.planetObj.RP))
-		sonic_spd = np.float(self.planetObj.sonic_int(r - self.planetObj.RP))
+		stat_pres = float(self.planetObj.pressure_int(r - self.planetObj.RP))
+		stat_temp = float(self.planetObj.temp_int(r - self.planetObj.RP))
+		sonic_spd = float(self.planetObj.sonic_int(r - self.planetObj.RP))
 		mach = v/sonic_spd
 
 		return mach
-- 
2.43.0


From 4f2a8bb2df28dabdd5a1be2e2b7c481116abc208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:58 +0000
Subject: [PATCH 03/31] fix: take the specific heat ratio from the planet in
 computeStagTemp

Vehicle has no CPCV attribute, so computeStagTemp always raised.
---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index a95d039..6ab76f5 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2263,7 +2263,7 @@ class Vehicle:
 		sonic_spd = self.planetObj.sonicvectorized(rc)
 		mach[:] = vc[:]/sonic_spd[:]
 		stag_temp = np.zeros(len(rc))
-		stag_temp[:] = stat_temp[:]*(1+0.5*(self.CPCV-1)*mach[:]**2.0)
+		stag_temp[:] = stat_temp[:]*(1+0.5*(self.planetObj.CPCV-1)*mach[:]**2.0)
 
 		return stag_temp
 
-- 
2.43.0


From af0d0a716eb794dd2fa8c3dae1563a8f714a7a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:23 +0000
Subject: [PATCH 04/31] fix: accumulate the stagnation heat load from the given
 initial heat load

A non-zero initial heat load was either ignored, or passed to scipy as
'initial', which only replaces the first sample (and raises in current
scipy), so guided entries crashed and heat loads of chained segments
restarted from zero.
---
 AMAT/vehicle.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 6ab76f5..33c7114 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2512,7 +2512,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		self.q_stag_total = self.q_stag_con + self.q_stag_rad
 		# compute stagnation point heating load
-		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
+		self.heatload = self.heatLoad0 + cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
 
 	def propogateEntry2(self, t_sec, dt, delta_deg):
 		"""
@@ -2599,7 +2599,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		self.q_stag_total = self.q_stag_con + self.q_stag_rad
 		# compute stagnation point heating load
-		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=self.heatLoad0)
+		self.heatload = self.heatLoad0 + cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
 
 	def dummyVehicle(self, density_mes_int):
 		"""
@@ -2779,7 +2779,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total , tc, initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total , tc, initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 				gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -2936,7 +2936,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total, tc, initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total, tc, initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 				gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -5317,6 +5317,7 @@ class Vehicle:
 			psi0_deg = psi_deg[-1]        # Entry heading angle
 			gamma0_deg = gamma_deg[-1]      # Entry flight path angle
 			drange0_km = drange_km[-1]      # Downrange
+			Ji = heatload[-1]              # Heat load accumulated so far
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
@@ -5506,6 +5507,7 @@ class Vehicle:
 			psi0_deg = psi_deg[-1]  # Entry heading angle
 			gamma0_deg = gamma_deg[-1]  # Entry flight path angle
 			drange0_km = drange_km[-1]  # Downrange
+			Ji = heatload[-1]              # Heat load accumulated so far
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
@@ -6685,7 +6687,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total    = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload        = cumulative_trapezoid(q_stag_total , tc, \
+		heatload        = heatLoad0 + cumulative_trapezoid(q_stag_total , tc, \
 			initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
@@ -6857,8 +6859,8 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total, tc, \
-							initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total, tc, \
+							initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 			   gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -6931,6 +6933,7 @@ class Vehicle:
 			psi0_deg    = psi_deg[-1]        # Entry heading angle 
 			gamma0_deg  = gamma_deg[-1]      # Entry flight path angle 
 			drange0_km  = drange_km[-1]      # Downrange
+			Ji = heatload[-1]              # Heat load accumulated so far
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
@@ -7124,6 +7127,7 @@ class Vehicle:
 			psi0_deg = psi_deg[-1]  # Entry heading angle
 			gamma0_deg = gamma_deg[-1]  # Entry flight path angle
 			drange0_km = drange_km[-1]  # Downrange
+			Ji = heatload[-1]              # Heat load accumulated so far
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
-- 
2.43.0


From fcd5cd6b26c6015ce5824589b7c1fae776fc5b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:36 +0000
Subject: [PATCH 05/31] fix: do not overshoot the commanded bank angle in the
 pseudo controller

The branch for commands reachable within one cycle computed the reduced
roll rate but still rolled at the maximum rate, so the vehicle chattered
around (or past) the command instead of reaching it.
---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 33c7114..bd265e9 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4568,7 +4568,7 @@ class Vehicle:
 			# so as to achieve the desired bank angle at the 
 			# end of the guidance cycle.
 			bankRate = np.abs(DeltaCMD_deg_command - Delta_deg_ini) / timestep
-			DeltaCMD_deg = Delta_deg_ini + np.sign(DeltaCMD_deg_command - Delta_deg_ini)*self.maxRollRate*timestep
+			DeltaCMD_deg = Delta_deg_ini + np.sign(DeltaCMD_deg_command - Delta_deg_ini)*bankRate*timestep
 			Delta_deg_ini = DeltaCMD_deg
 
 		return DeltaCMD_deg, Delta_deg_ini
-- 
2.43.0


From c6088415996ed72348b3a6bcfc8c8e9481771de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:36 +0000
Subject: [PATCH 06/31] fix: end the entry guidance phase at the switch speed

The loops test self.v_current_kms, but only updated a local variable, so the
documented switch speed never ended the phase.
---
 AMAT/vehicle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index bd265e9..c8bba8d 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4992,7 +4992,7 @@ class Vehicle:
 			counter+=1
 			# update current speed
 			h_current_km  = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km> 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -5226,7 +5226,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km > 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -6164,7 +6164,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km  = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km> 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -6376,7 +6376,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km > 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
-- 
2.43.0


From 89abe11ae13daa69e78d6a1c656d05ce0855a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 07/31] fix: use the receiver dish diameter for the receiver
 gain

The receiver gain was computed from the transmitter diameter (and failed when
the transmitter was specified by its gain).
---
 AMAT/telecom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/telecom.py b/AMAT/telecom.py
index 9e3ccaa..c10ed4e 100644
--- a/AMAT/telecom.py
+++ b/AMAT/telecom.py
@@ -142,7 +142,7 @@ class Link:
 		# if Dr and eta_r are provided, compute receiver gain using these values,
 		# else if Gr_dBi is provided, use this value directly for receiver gain
 		if Dr and eta_r:
-			self.Dr = Dt
+			self.Dr = Dr
 			self.Ar = 0.25 * np.pi * self.Dr * self.Dr
 			self.eta_r = eta_r
 			self.Gr = self.compute_antenna_gain(self.eta_r, self.Dr, self.wavelength)
-- 
2.43.0


From beb3e83b62bd023d66ed027de835d2d0fe72f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 08/31] fix: accept a 0 dBi antenna gain in the link budget

A gain of exactly 0 dBi (an isotropic antenna) was treated as 'not given', and
the constructor failed.
---
 AMAT/telecom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/telecom.py b/AMAT/telecom.py
index c10ed4e..afe07f4 100644
--- a/AMAT/telecom.py
+++ b/AMAT/telecom.py
@@ -133,7 +133,7 @@ class Link:
 			self.eta_t = eta_t
 			self.Gt = self.compute_antenna_gain(self.eta_t, self.Dt, self.wavelength)
 			self.Gt_dBi = self.compute_dB(self.Gt)
-		elif Gt_dBi:
+		elif Gt_dBi is not None:
 			self.Dt = None
 			self.At = None
 			self.eta_t = None
@@ -147,7 +147,7 @@ class Link:
 			self.eta_r = eta_r
 			self.Gr = self.compute_antenna_gain(self.eta_r, self.Dr, self.wavelength)
 			self.Gr_dBi = self.compute_dB(self.Gr)
-		elif Gr_dBi:
+		elif Gr_dBi is not None:
 			self.Dr = None
 			self.Ar = None
 			self.eta_r = None
-- 
2.43.0


From 619f061a2d4dba2f7bf5c04f2b1733b87e119e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 09/31] fix: resolve the entry longitude quadrant with arctan2

arctan(y/x) is off by 180 deg for entry points with x < 0, which reversed the
planet-rotation term of the atmosphere-relative entry velocity there.
---
 AMAT/approach.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 0d897fd..6f75f42 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -266,9 +266,9 @@ class Approach:
 											  np.arccos(np.dot(self.r_vec_entry_bi_unit, self.v_vec_entry_bi_unit))
 
 			self.latitude_entry_bi = np.arcsin(self.r_vec_entry_bi_unit[2])
-			self.longitude_entry_bi = np.arctan(self.r_vec_entry_bi_unit[1] / self.r_vec_entry_bi_unit[0])
+			self.longitude_entry_bi = np.arctan2(self.r_vec_entry_bi_unit[1], self.r_vec_entry_bi_unit[0])
 
-			self.xi_1 = np.arctan(self.r_vec_entry_bi_unit[1]/self.r_vec_entry_bi_unit[0])
+			self.xi_1 = np.arctan2(self.r_vec_entry_bi_unit[1], self.r_vec_entry_bi_unit[0])
 			self.latitude_entry_bi_analytic = np.arctan(self.r_vec_entry_bi_unit[2]/
 														(self.r_vec_entry_bi_unit[0]*np.cos(self.xi_1) + self.r_vec_entry_bi_unit[1]*np.sin(self.xi_1)))
 
-- 
2.43.0


From abd7c7d3e37327da0342f452fc92678f22f609d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:47 +0000
Subject: [PATCH 10/31] fix: compute the approach velocity vector on both legs
 of the hyperbola

The flight-path angle was always taken negative (wrong after periapsis) and
came from arccos(), whose argument exceeds 1 by rounding at periapsis, giving
NaN velocity vectors and insertion delta-V for about a fifth of the inputs.
---
 AMAT/approach.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 6f75f42..54b6862 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -476,11 +476,8 @@ class Approach:
 		"""
 
 		r_mag_bi = self.r_mag_bi(theta_star)
-		v_mag_bi = np.sqrt((self.v_inf_mag)**2 + 2*self.planetObj.GM/r_mag_bi)
-		gamma = -1*np.arccos(self.h/(r_mag_bi*v_mag_bi))
-
-		vr = v_mag_bi*np.sin(gamma)
-		vt = v_mag_bi*np.cos(gamma)
+		vr = (self.planetObj.GM/self.h)*self.e*np.sin(theta_star)
+		vt = self.h/r_mag_bi
 		theta = theta_star + self.omega
 
 		vx = vr*( np.cos(theta)*np.cos(self.OMEGA) - np.sin(theta)*np.cos(self.i)*np.sin(self.OMEGA)) +\
-- 
2.43.0


From ca400f0f3f1098ace9e587cfaac64b8133e1d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:02 +0000
Subject: [PATCH 11/31] fix: give the orbiter velocity its sign on the inbound
 half of the orbit

---
 AMAT/orbiter.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 5d9d944..9ba5fad 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -493,7 +493,7 @@ class Orbiter:
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt(self.vehicle.planetObj.GM*(2/r_mag_bi - 1/self.a))
 
-		gamma = 1*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.where(np.sin(theta_star) >= 0, 1, -1)*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
@@ -961,12 +961,9 @@ class PropulsiveOrbiter:
 		"""
 
 		r_mag_bi = self.r_mag_bi(theta_star)
-		v_mag_bi = np.sqrt(self.approach.planetObj.GM*(2/r_mag_bi - 1/self.a))
 
-		gamma = 1*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
-
-		vr = v_mag_bi*np.sin(gamma)
-		vt = v_mag_bi*np.cos(gamma)
+		vr = (self.approach.planetObj.GM/self.h)*self.e*np.sin(theta_star)
+		vt = self.h/r_mag_bi
 		theta = theta_star + self.omega
 
 		vx = vr*( np.cos(theta)*np.cos(self.OMEGA) - np.sin(theta)*np.cos(self.i)*np.sin(self.OMEGA)) +\
-- 
2.43.0


From 31d59ffd49d7206c914a8462657a731b79a3b7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:05 +0000
Subject: [PATCH 12/31] fix: resolve the probe entry longitude quadrant with
 arctan2

---
 AMAT/orbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 9ba5fad..60badf3 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -737,7 +737,7 @@ class Orbiter:
 			self.gamma_inertial_probe_entry = -1 * np.arccos(self.h_probe_orbit / (self.r_EI * self.v_bi_mag_probe_entry))
 
 			self.latitude_probe_entry_bi = np.arcsin(self.r_vec_bi_probe_entry_unit[2])
-			self.longitude_probe_entry_bi = np.arctan(self.r_vec_bi_probe_entry_unit[1] / self.r_vec_bi_probe_entry_unit[0])
+			self.longitude_probe_entry_bi = np.arctan2(self.r_vec_bi_probe_entry_unit[1], self.r_vec_bi_probe_entry_unit[0])
 
 			self.v_vec_probe_entry_atm = self.vel_vec_probe_entry_atm()
 			self.v_mag_probe_entry_atm = np.linalg.norm(self.v_vec_probe_entry_atm)
-- 
2.43.0


From 1b57f1e3640616abd0aa4be4a5e60e96c40ec060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:28 +0000
Subject: [PATCH 13/31] fix: give the probe orbit velocity its sign on the
 outbound half of the orbit

---
 AMAT/orbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 60badf3..a98c102 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -531,7 +531,7 @@ class Orbiter:
 		r_mag_bi = np.linalg.norm(self.pos_vec_bi_probe(theta_star))
 		v_mag_bi = np.sqrt(self.vehicle.planetObj.GM*(2/r_mag_bi - 1/self.a_probe_orbit))
 
-		gamma = -1*np.arccos(self.h_probe_orbit/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.where(np.sin(theta_star) >= 0, 1, -1)*np.arccos(self.h_probe_orbit/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
-- 
2.43.0


From 2074a942080888d5932f5ee51eed5975b09f3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:30 +0000
Subject: [PATCH 14/31] fix: return the probe orbit when its periapsis stays
 above the atmosphere

---
 AMAT/orbiter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index a98c102..17b720a 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -758,6 +758,7 @@ class Orbiter:
 
 		else:
 			print("Probe orbit periapsis outside atmospheric skip altitude.")
+			return
 
 		theta_star_arr = np.linspace(theta_star, self.theta_star_probe_entry, num_points)
 		pos_vec_bi_arr = self.pos_vec_bi_probe(theta_star_arr) / self.vehicle.planetObj.RP
-- 
2.43.0


From 10d0b43dc52d0e17fe71ad4b8408d6f4527a7cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:37 +0000
Subject: [PATCH 15/31] fix: spell the bbox_inches option of the launch mass
 plot

---
 AMAT/interplanetary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/interplanetary.py b/AMAT/interplanetary.py
index 0a71a41..b334ff4 100644
--- a/AMAT/interplanetary.py
+++ b/AMAT/interplanetary.py
@@ -337,7 +337,7 @@ class Interplanetary:
 		for axis in ['top', 'bottom', 'left', 'right']:
 			ax.spines[axis].set_linewidth(2)
 
-		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.png', dpi=300, box_inches='tight')
+		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.png', dpi=300, bbox_inches='tight')
 		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.pdf', dpi=300, bbox_inches='tight')
 		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.eps', dpi=300, bbox_inches='tight')
 
-- 
2.43.0


From fca3d3d602ffd303d10db9054bea20529a1370a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:34 +0000
Subject: [PATCH 16/31] fix: compute the scale height from the density profile
 it is given

---
 AMAT/planet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/planet.py b/AMAT/planet.py
index 1e4b6e3..4da716d 100644
--- a/AMAT/planet.py
+++ b/AMAT/planet.py
@@ -835,13 +835,13 @@ class Planet:
 		# every 1 km
 		h_array = np.linspace(0, self.h_skip, int(self.h_skip/1000.0))
 		# compute the density at these altitudes using the
-		# vectorized density function
-		d_array = self.densityvectorized(h_array)
+		# given density function
+		d_array = density_int(h_array)
 
 		# Compute the density scale height using the formula in Hamel 2006
 		# AIAA. DOI = 10.2514/1.20126
 		integ = cumulative_trapezoid(d_array[int(h/1000.0):], h_array[int(h/1000.0):], initial=0)[-1]
-		ans = integ / (self.density(h) - self.density(self.h_skip))
+		ans = integ / float(density_int(h) - density_int(self.h_skip))
 		return ans
 
 	def loadMonteCarloDensityFile2(self, atmfile, heightCol, densLowCol, densAvgCol, densHighCol, densTotalCol,
-- 
2.43.0


From bc2aee2fefbdeb46168ed6b3d2efd4a0f6e3c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:34 +0000
Subject: [PATCH 17/31] fix: define the trap limit of Jupiter and Saturn

---
 AMAT/planet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/AMAT/planet.py b/AMAT/planet.py
index 4da716d..4093c36 100644
--- a/AMAT/planet.py
+++ b/AMAT/planet.py
@@ -156,6 +156,7 @@ class Planet:
 			self.h_thres = 1000.0E3
 			self.h_skip = 1000.0E3     
 			self.h_trap = 50.0E3 
+			self.h_low = 50.0E3
 
 		elif planetID == 'SATURN':
 			self.ID = 'SATURN'
@@ -171,6 +172,7 @@ class Planet:
 			self.h_thres = 1000.0E3
 			self.h_skip = 1000.0E3     
 			self.h_trap = 50.0E3      
+			self.h_low = 50.0E3
 
 		elif planetID == 'TITAN':
 
-- 
2.43.0


From 1c1257734d064593c2ffc6580b5b5ccf71b4c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:11 +0000
Subject: [PATCH 18/31] fix: keep the whole trajectory when it only touches the
 trap altitude

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index c8bba8d..ba815bb 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -1981,7 +1981,7 @@ class Vehicle:
 			index = len(h)
 			exitflag = 0.0
 
-		elif h_min <= self.planetObj.h_trap:
+		elif h_min < self.planetObj.h_trap:
 			# if trajectory descended below trap in altitude
 			# return the index of the first point after entering trap altiude
 			# set exitflag = -1 to indicate vehicle hit the surface
-- 
2.43.0


From 32a99f65485171eb3f68eb58deb4a0207b7ea05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:12 +0000
Subject: [PATCH 19/31] fix: return the corridor limit when the search interval
 is already within the tolerance

---
 AMAT/vehicle.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index ba815bb..2da33aa 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3313,8 +3313,8 @@ class Vehicle:
 				# print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				overShootLimit = gamma0_deg_guess_high
-				exitflag_os = 1.0
+			overShootLimit = gamma0_deg_guess_high
+			exitflag_os = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3415,8 +3415,8 @@ class Vehicle:
 				# print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				overShootLimit = gamma0_deg_guess_high
-				exitflag_os = 1.0
+			overShootLimit = gamma0_deg_guess_high
+			exitflag_os = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3518,8 +3518,8 @@ class Vehicle:
 				#print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				underShootLimit = gamma0_deg_guess_high
-				exitflag_us = 1.0
+			underShootLimit = gamma0_deg_guess_high
+			exitflag_us = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3621,8 +3621,8 @@ class Vehicle:
 				# print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				underShootLimit = gamma0_deg_guess_high
-				exitflag_us = 1.0
+			underShootLimit = gamma0_deg_guess_high
+			exitflag_us = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3841,8 +3841,8 @@ class Vehicle:
 
 				# set overShootLimit to lower bound
 				# set exitflag to 1.0
-				EFPALimit = gamma0_deg_guess_high
-				exitflag = 1.0
+			EFPALimit = gamma0_deg_guess_high
+			exitflag = 1.0
 
 		# if product of flags is positive, overshootlimit is outside user \
 		# specified bounds, print warning message.
@@ -3941,8 +3941,8 @@ class Vehicle:
 
 				# set overShootLimit to lower bound
 				# set exitflag to 1.0
-				EFPALimit = gamma0_deg_guess_high
-				exitflag = 1.0
+			EFPALimit = gamma0_deg_guess_high
+			exitflag = 1.0
 
 		# if product of flags is positive, overshootlimit is outside user \
 		# specified bounds, print warning message.
-- 
2.43.0


From 9f1c59785482062f55fb1f76e144524f3049e8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:49 +0000
Subject: [PATCH 20/31] fix: switch the lift off in the drag modulation
 corridor search

---
 AMAT/vehicle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 2da33aa..554c4c4 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3794,10 +3794,12 @@ class Vehicle:
 		"""
 		temp_var_1 = self.gamma0_deg
 		temp_var_2 = self.LD
+		temp_var_3 = self.CL
 
 		delta_deg = 0.0
 
 		self.LD = 0.0
+		self.CL = 0.0
 
 		self.gamma0_deg = gamma0_deg_guess_low
 		ans1 = self.hitsTargetApoapsis(t_sec, dt, delta_deg, targetApopasisAltitude_km)
@@ -3853,6 +3855,7 @@ class Vehicle:
 
 		self.gamma0_deg = temp_var_1
 		self.LD = temp_var_2
+		self.CL = temp_var_3
 
 		return EFPALimit, exitflag
 
@@ -3894,10 +3897,12 @@ class Vehicle:
 		"""
 		temp_var_1 = self.gamma0_deg
 		temp_var_2 = self.LD
+		temp_var_3 = self.CL
 
 		delta_deg = 0.0
 
 		self.LD = 0.0
+		self.CL = 0.0
 
 		self.gamma0_deg = gamma0_deg_guess_low
 		ans1 = self.hitsTargetApoapsis2(t_sec, dt, delta_deg, targetApopasisAltitude_km)
@@ -3953,6 +3958,7 @@ class Vehicle:
 
 		self.gamma0_deg = temp_var_1
 		self.LD = temp_var_2
+		self.CL = temp_var_3
 
 		return EFPALimit, exitflag
 
-- 
2.43.0


From 833c7c55602dfe06e3a80fb6d106175bed274757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:17 +0000
Subject: [PATCH 21/31] fix: end the trajectory where the integrator stops
 instead of returning uninitialised samples

---
 AMAT/vehicle.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 554c4c4..c7f218e 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2,7 +2,7 @@
 import numpy as np
 from scipy.interpolate import interp1d
 import matplotlib.pyplot as plt
-from scipy.integrate import odeint
+from scipy.integrate import ode
 from scipy.integrate import solve_ivp
 from scipy.integrate import cumulative_trapezoid
 import copy
@@ -1728,9 +1728,22 @@ class Vehicle:
 		# discretize time interval [0,time] in steps of dt
 		tbar = np.arange(0, (t_sec+dt)/self.planetObj.tau, dt/self.planetObj.tau)
 		
-		# use scipy odeint to solve for the entry trajectory using initial 
-		# conditions xbar_0 and vehicle parameters in args
-		xbar = odeint(self.EOM, xbar_0, tbar, rtol=self.tol, atol=self.tol, args=(delta,))
+		# use the scipy lsoda integrator to solve for the entry trajectory using
+		# initial conditions xbar_0. If the integrator gives up (vertical flight is
+		# a singularity of the EOM), the solution ends at the last solved time.
+		solver = ode(lambda t, y: self.EOM(y, t, delta))
+		solver.set_integrator('lsoda', rtol=self.tol, atol=self.tol)
+		solver.set_initial_value(xbar_0, tbar[0])
+
+		xbar = [np.array(xbar_0, dtype=float)]
+		for t in tbar[1:]:
+			solver.integrate(t)
+			if not solver.successful():
+				break
+			xbar.append(solver.y.copy())
+
+		xbar = np.array(xbar)
+		tbar = tbar[:len(xbar)]
 
 		# extract solution from odeint into solution variable vectors
 		rbar = xbar[:, 0]    # radial distance rbar solution
-- 
2.43.0


From 8bf079ed2a6a2e5e343105679ac688fbd9d41222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:12 +0000
Subject: [PATCH 22/31] fix: count a flight that falls below the trap altitude
 as an undershoot

---
 AMAT/vehicle.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index c7f218e..7ff3aee 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3119,8 +3119,9 @@ class Vehicle:
 		else:
 			ans = 1.0
 
-		# if terminal altitude (km) < planet.h_low, then assume undershoot
-		if terminal_alt < self.planetObj.h_low/1000.0:
+		# if terminal altitude (km) < planet.h_low, or if the vehicle fell
+		# below the trap in altitude, then assume undershoot
+		if terminal_alt < self.planetObj.h_low/1000.0 or self.exitflag == -1.0:
 			ans = 1.0
 	
 		return ans
@@ -3232,8 +3233,9 @@ class Vehicle:
 		else:
 			ans = 1.0
 
-		# if terminal altitude (km) < planet.h_low, then assume undershoot
-		if terminal_alt < self.planetObj.h_low/1000.0:
+		# if terminal altitude (km) < planet.h_low, or if the vehicle fell
+		# below the trap in altitude, then assume undershoot
+		if terminal_alt < self.planetObj.h_low/1000.0 or self.exitflag == -1.0:
 			ans = 1.0
 	
 		return ans
-- 
2.43.0


From d06bff36278ade1284a434899938ccf67335c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:06 +0000
Subject: [PATCH 23/31] fix: end a guided entry when the vehicle falls below
 the trap altitude

---
 AMAT/vehicle.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 7ff3aee..68751b5 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5021,6 +5021,10 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
+			# stop if the vehicle fell below the trap in altitude
+			if self.exitflag == -1.0:
+				break
+
 			if h_current_km > self.planetObj.h_skip/1000 - 2.0:
 				break
 
@@ -5255,6 +5259,10 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
+			# stop if the vehicle fell below the trap in altitude
+			if self.exitflag == -1.0:
+				break
+
 			if h_current_km > self.planetObj.h_skip / 1000 - 2.0:
 				break
 
@@ -5424,6 +5432,10 @@ class Vehicle:
 
 			# print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti)) +", DeltaCMD :"+str('{:.2f}'.format(DeltaCMD_deg_command))+", DELTAACT: "+str('{:.2f}'.format(DeltaCMD_deg))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
+			# stop if the vehicle fell below the trap in altitude
+			if self.exitflag == -1.0:
+				break
+
 			if hi > self.planetObj.h_skip - 10.0E3:
 				break
 
@@ -5614,6 +5626,10 @@ class Vehicle:
 
 			# print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti)) +", DeltaCMD :"+str('{:.2f}'.format(DeltaCMD_deg_command))+", DELTAACT: "+str('{:.2f}'.format(DeltaCMD_deg))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
+			# stop if the vehicle fell below the trap in altitude
+			if self.exitflag == -1.0:
+				break
+
 			if hi > self.planetObj.h_skip - 10.0E3:
 				break
 
@@ -6193,6 +6209,10 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
+			# stop if the vehicle fell below the trap in altitude
+			if self.exitflag == -1.0:
+				break
+
 			if h_current_km > self.planetObj.h_skip/1000 - 1.0:
 				break
 
@@ -6405,6 +6425,10 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
+			# stop if the vehicle fell below the trap in altitude
+			if self.exitflag == -1.0:
+				break
+
 			if h_current_km > self.planetObj.h_skip / 1000 - 1.0:
 				break
 
@@ -7040,6 +7064,10 @@ class Vehicle:
 
 			#print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
+			# stop if the vehicle fell below the trap in altitude
+			if self.exitflag == -1.0:
+				break
+
 			if hi > self.planetObj.h_skip - 1.0E3:
 				break
 
@@ -7232,6 +7260,10 @@ class Vehicle:
 
 			#print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
+			# stop if the vehicle fell below the trap in altitude
+			if self.exitflag == -1.0:
+				break
+
 			if hi > self.planetObj.h_skip - 1.0E3:
 				break
 
-- 
2.43.0


From ec53b61d65c0899db425643ed272db10ba1aec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:45 +0000
Subject: [PATCH 24/31] fix: end a guided entry when the vehicle leaves the
 atmosphere inside a guidance cycle

---
 AMAT/vehicle.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 68751b5..4beec22 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5021,8 +5021,8 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
-			# stop if the vehicle fell below the trap in altitude
-			if self.exitflag == -1.0:
+			# stop if the vehicle left the atmosphere or fell below the trap in altitude
+			if self.exitflag != 0.0:
 				break
 
 			if h_current_km > self.planetObj.h_skip/1000 - 2.0:
@@ -5259,8 +5259,8 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
-			# stop if the vehicle fell below the trap in altitude
-			if self.exitflag == -1.0:
+			# stop if the vehicle left the atmosphere or fell below the trap in altitude
+			if self.exitflag != 0.0:
 				break
 
 			if h_current_km > self.planetObj.h_skip / 1000 - 2.0:
@@ -5432,8 +5432,8 @@ class Vehicle:
 
 			# print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti)) +", DeltaCMD :"+str('{:.2f}'.format(DeltaCMD_deg_command))+", DELTAACT: "+str('{:.2f}'.format(DeltaCMD_deg))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
-			# stop if the vehicle fell below the trap in altitude
-			if self.exitflag == -1.0:
+			# stop if the vehicle left the atmosphere or fell below the trap in altitude
+			if self.exitflag != 0.0:
 				break
 
 			if hi > self.planetObj.h_skip - 10.0E3:
@@ -5626,8 +5626,8 @@ class Vehicle:
 
 			# print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti)) +", DeltaCMD :"+str('{:.2f}'.format(DeltaCMD_deg_command))+", DELTAACT: "+str('{:.2f}'.format(DeltaCMD_deg))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
-			# stop if the vehicle fell below the trap in altitude
-			if self.exitflag == -1.0:
+			# stop if the vehicle left the atmosphere or fell below the trap in altitude
+			if self.exitflag != 0.0:
 				break
 
 			if hi > self.planetObj.h_skip - 10.0E3:
@@ -6209,8 +6209,8 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
-			# stop if the vehicle fell below the trap in altitude
-			if self.exitflag == -1.0:
+			# stop if the vehicle left the atmosphere or fell below the trap in altitude
+			if self.exitflag != 0.0:
 				break
 
 			if h_current_km > self.planetObj.h_skip/1000 - 1.0:
@@ -6425,8 +6425,8 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
-			# stop if the vehicle fell below the trap in altitude
-			if self.exitflag == -1.0:
+			# stop if the vehicle left the atmosphere or fell below the trap in altitude
+			if self.exitflag != 0.0:
 				break
 
 			if h_current_km > self.planetObj.h_skip / 1000 - 1.0:
@@ -7064,8 +7064,8 @@ class Vehicle:
 
 			#print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
-			# stop if the vehicle fell below the trap in altitude
-			if self.exitflag == -1.0:
+			# stop if the vehicle left the atmosphere or fell below the trap in altitude
+			if self.exitflag != 0.0:
 				break
 
 			if hi > self.planetObj.h_skip - 1.0E3:
@@ -7260,8 +7260,8 @@ class Vehicle:
 
 			#print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
-			# stop if the vehicle fell below the trap in altitude
-			if self.exitflag == -1.0:
+			# stop if the vehicle left the atmosphere or fell below the trap in altitude
+			if self.exitflag != 0.0:
 				break
 
 			if hi > self.planetObj.h_skip - 1.0E3:
-- 
2.43.0


From fa583f988577cd0b5b6b08d530fc5ce537879c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:50 +0000
Subject: [PATCH 25/31] fix: end a guided entry that can no longer be
 propagated

---
 AMAT/vehicle.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 4beec22..1e7531f 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5021,8 +5021,9 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
-			# stop if the vehicle left the atmosphere or fell below the trap in altitude
-			if self.exitflag != 0.0:
+			# stop if the vehicle left the atmosphere, fell below the trap in altitude,
+			# or could not be propagated any further (vertical flight)
+			if self.exitflag != 0.0 or len(t_min_c) < 2:
 				break
 
 			if h_current_km > self.planetObj.h_skip/1000 - 2.0:
@@ -5259,8 +5260,9 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
-			# stop if the vehicle left the atmosphere or fell below the trap in altitude
-			if self.exitflag != 0.0:
+			# stop if the vehicle left the atmosphere, fell below the trap in altitude,
+			# or could not be propagated any further (vertical flight)
+			if self.exitflag != 0.0 or len(t_min_c) < 2:
 				break
 
 			if h_current_km > self.planetObj.h_skip / 1000 - 2.0:
@@ -5432,8 +5434,9 @@ class Vehicle:
 
 			# print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti)) +", DeltaCMD :"+str('{:.2f}'.format(DeltaCMD_deg_command))+", DELTAACT: "+str('{:.2f}'.format(DeltaCMD_deg))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
-			# stop if the vehicle left the atmosphere or fell below the trap in altitude
-			if self.exitflag != 0.0:
+			# stop if the vehicle left the atmosphere, fell below the trap in altitude,
+			# or could not be propagated any further (vertical flight)
+			if self.exitflag != 0.0 or len(t_min_c) < 2:
 				break
 
 			if hi > self.planetObj.h_skip - 10.0E3:
@@ -5626,8 +5629,9 @@ class Vehicle:
 
 			# print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti)) +", DeltaCMD :"+str('{:.2f}'.format(DeltaCMD_deg_command))+", DELTAACT: "+str('{:.2f}'.format(DeltaCMD_deg))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
-			# stop if the vehicle left the atmosphere or fell below the trap in altitude
-			if self.exitflag != 0.0:
+			# stop if the vehicle left the atmosphere, fell below the trap in altitude,
+			# or could not be propagated any further (vertical flight)
+			if self.exitflag != 0.0 or len(t_min_c) < 2:
 				break
 
 			if hi > self.planetObj.h_skip - 10.0E3:
@@ -6209,8 +6213,9 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
-			# stop if the vehicle left the atmosphere or fell below the trap in altitude
-			if self.exitflag != 0.0:
+			# stop if the vehicle left the atmosphere, fell below the trap in altitude,
+			# or could not be propagated any further (vertical flight)
+			if self.exitflag != 0.0 or len(t_min_c) < 2:
 				break
 
 			if h_current_km > self.planetObj.h_skip/1000 - 1.0:
@@ -6425,8 +6430,9 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
-			# stop if the vehicle left the atmosphere or fell below the trap in altitude
-			if self.exitflag != 0.0:
+			# stop if the vehicle left the atmosphere, fell below the trap in altitude,
+			# or could not be propagated any further (vertical flight)
+			if self.exitflag != 0.0 or len(t_min_c) < 2:
 				break
 
 			if h_current_km > self.planetObj.h_skip / 1000 - 1.0:
@@ -7064,8 +7070,9 @@ class Vehicle:
 
 			#print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
-			# stop if the vehicle left the atmosphere or fell below the trap in altitude
-			if self.exitflag != 0.0:
+			# stop if the vehicle left the atmosphere, fell below the trap in altitude,
+			# or could not be propagated any further (vertical flight)
+			if self.exitflag != 0.0 or len(t_min_c) < 2:
 				break
 
 			if hi > self.planetObj.h_skip - 1.0E3:
@@ -7260,8 +7267,9 @@ class Vehicle:
 
 			#print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
-			# stop if the vehicle left the atmosphere or fell below the trap in altitude
-			if self.exitflag != 0.0:
+			# stop if the vehicle left the atmosphere, fell below the trap in altitude,
+			# or could not be propagated any further (vertical flight)
+			if self.exitflag != 0.0 or len(t_min_c) < 2:
 				break
 
 			if hi > self.planetObj.h_skip - 1.0E3:
-- 
2.43.0


From ad30227c76e09f67e1187bfac8fa2bacfc1b8bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:50 +0000
Subject: [PATCH 26/31] fix: apply the sampled L/D in the lift-modulation Monte
 Carlo

---
 AMAT/vehicle.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 1e7531f..04f3030 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5831,6 +5831,8 @@ class Vehicle:
 
 			
 			self.setInitialState(h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, selected_efpa, drange0_km, heatLoad0)
+			self.LD = selected_LD
+			self.CL = self.LD * self.CD
 			self.propogateGuidedEntry(self.timeStep, self.dt, self.maxTimeSecs)
 
 			terminal_apoapsis = self.terminal_apoapsis
@@ -5882,6 +5884,9 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt', q_stag_max_arr)
 			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt', heatload_max_arr)
 
+		self.LD = self.vehicleCopy.LD
+		self.CL = self.vehicleCopy.CL
+
 	def runMonteCarlo2(self, N, mainFolder):
 		"""
 		Run a Monte Carlo simulation for lift modulation
@@ -5938,6 +5943,8 @@ class Vehicle:
 
 			self.setInitialState(h0_km, theta0_deg, phi0_deg, v0_kms, \
 								 psi0_deg, selected_efpa, drange0_km, heatLoad0)
+			self.LD = selected_LD
+			self.CL = self.LD * self.CD
 			self.propogateGuidedEntry2(self.timeStep, self.dt, self.maxTimeSecs)
 
 			terminal_apoapsis = self.terminal_apoapsis
@@ -5992,6 +5999,9 @@ class Vehicle:
 			np.savetxt(mainFolder + '/' + 'q_stag_max_arr.txt', q_stag_max_arr)
 			np.savetxt(mainFolder + '/' + 'heatload_max_arr.txt', heatload_max_arr)
 
+		self.LD = self.vehicleCopy.LD
+		self.CL = self.vehicleCopy.CL
+
 
 
 	def setDragEntryPhaseParams(self, v_switch_kms,\
-- 
2.43.0


From 445963752876acaec6f713547be753f9510033c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:43 +0000
Subject: [PATCH 27/31] fix: apply the beta1 dispersion in the drag-modulation
 Monte Carlo

---
 AMAT/vehicle.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 04f3030..83cdfd3 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -7564,6 +7564,7 @@ class Vehicle:
 			selected_atmSigma = np.random.normal(0,1)
 
 			selected_LD       = 0.0
+			selected_beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2(\
@@ -7578,6 +7579,7 @@ class Vehicle:
 			
 			self.setInitialState(h0_km,theta0_deg,phi0_deg,v0_kms,\
 						         psi0_deg,selected_efpa,drange0_km,heatLoad0)
+			self.beta1 = selected_beta1
 			self.propogateGuidedEntryD(self.timeStepEntry, self.timeStepExit,  self.dt, self.maxTimeSecs)
 
 			terminal_apoapsis = self.terminal_apoapsis
@@ -7609,6 +7611,7 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'efpa.txt',np.array([selected_efpa]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'atmSigma.txt',np.array([selected_atmSigma]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'LD.txt',np.array([selected_LD]))
+			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'beta1.txt',np.array([selected_beta1]))
 
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'terminal_apoapsis.txt',np.array([terminal_apoapsis]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'apoapsis_error.txt',np.array([apoapsis_error]))
@@ -7628,6 +7631,8 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt',q_stag_max_arr)
 			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt',heatload_max_arr)
 
+		self.beta1 = self.vehicleCopy.beta1
+
 	def runMonteCarloD2(self, N, mainFolder):
 		"""
 		Run a Monte Carlo simulation for drag modulation
@@ -7670,6 +7675,7 @@ class Vehicle:
 			selected_atmSigma = np.random.normal(0, 1)
 
 			selected_LD = 0.0
+			selected_beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2( \
@@ -7686,6 +7692,7 @@ class Vehicle:
 
 			self.setInitialState(h0_km, theta0_deg, phi0_deg, v0_kms, \
 								 psi0_deg, selected_efpa, drange0_km, heatLoad0)
+			self.beta1 = selected_beta1
 			self.propogateGuidedEntryD2(self.timeStepEntry, self.timeStepExit, self.dt, self.maxTimeSecs)
 
 			terminal_apoapsis = self.terminal_apoapsis
@@ -7718,6 +7725,7 @@ class Vehicle:
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'efpa.txt', np.array([selected_efpa]))
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'atmSigma.txt', np.array([selected_atmSigma]))
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'LD.txt', np.array([selected_LD]))
+			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'beta1.txt', np.array([selected_beta1]))
 
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'terminal_apoapsis.txt',
 					   np.array([terminal_apoapsis]))
@@ -7740,6 +7748,8 @@ class Vehicle:
 			np.savetxt(mainFolder + '/' + 'q_stag_max_arr.txt', q_stag_max_arr)
 			np.savetxt(mainFolder + '/' + 'heatload_max_arr.txt', heatload_max_arr)
 
+		self.beta1 = self.vehicleCopy.beta1
+
 
 	def runMonteCarloD_Earth(self, N, mainFolder):
 		"""
@@ -7785,6 +7795,7 @@ class Vehicle:
 			selected_atmSigma = np.random.normal(0,1)
 
 			selected_LD       = 0.0
+			selected_beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile3(\
@@ -7800,6 +7811,7 @@ class Vehicle:
 			
 			self.setInitialState(h0_km,theta0_deg,phi0_deg,v0_kms,\
 						         psi0_deg,selected_efpa,drange0_km,heatLoad0)
+			self.beta1 = selected_beta1
 			self.propogateGuidedEntryD(self.timeStepEntry, self.timeStepExit,  self.dt, self.maxTimeSecs)
 
 			terminal_apoapsis = self.terminal_apoapsis
@@ -7831,6 +7843,7 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'efpa.txt',np.array([selected_efpa]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'atmSigma.txt',np.array([selected_atmSigma]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'LD.txt',np.array([selected_LD]))
+			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'beta1.txt',np.array([selected_beta1]))
 
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'terminal_apoapsis.txt',np.array([terminal_apoapsis]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'apoapsis_error.txt',np.array([apoapsis_error]))
@@ -7850,3 +7863,5 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt',q_stag_max_arr)
 			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt',heatload_max_arr)
 
+		self.beta1 = self.vehicleCopy.beta1
+
-- 
2.43.0


From 7bf78f0e0a77436edd29e6696f3f213eee71c1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:53 +0000
Subject: [PATCH 28/31] fix: run LanderToPlanet forward in time on retrograde
 planets

---
 AMAT/visibility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/AMAT/visibility.py b/AMAT/visibility.py
index 97fae40..88842e9 100644
--- a/AMAT/visibility.py
+++ b/AMAT/visibility.py
@@ -191,8 +191,9 @@ class LanderToPlanet(Visibility):
 		# Convert observer to target unit vector in ICRF to observer planet BI frame
 		self.obs_tar_pos_vec_bi_unit = self.ICRF_to_BI(self.obs_tar_pos_vec_icrf_unit)
 
-		self.longitude_array = np.linspace(0, 360, num_points)  # body inertial longitude array
-		self.t_array = np.linspace(0, 2*np.pi/(self.planetObj.OMEGA), num_points)  # time array
+		# a retrograde planet (OMEGA < 0) carries the lander towards decreasing longitudes
+		self.longitude_array = np.linspace(0, 360*np.sign(self.planetObj.OMEGA), num_points)  # body inertial longitude array
+		self.t_array = np.linspace(0, 2*np.pi/abs(self.planetObj.OMEGA), num_points)  # time array
 		self.beta_array = np.array([])  # beta angle array
 		self.elevation_array = np.array([])  # elevation angle array
 		self.visible_array = np.array([], dtype=bool)
-- 
2.43.0


From 90701e820f81a63d873c7af2d576056b7ad1b2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:53 +0000
Subject: [PATCH 29/31] fix: keep the zenith angle finite when the target is
 exactly overhead

---
 AMAT/visibility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/visibility.py b/AMAT/visibility.py
index 88842e9..253c2fe 100644
--- a/AMAT/visibility.py
+++ b/AMAT/visibility.py
@@ -209,7 +209,7 @@ class LanderToPlanet(Visibility):
 			self.lander_pos_vec_bi_unit = self.lander_pos_vec_bi / np.linalg.norm(self.lander_pos_vec_bi)
 
 			# compute angle beta between lander zenith and observer to target unit vector
-			beta = np.arccos(np.dot(self.lander_pos_vec_bi_unit, self.obs_tar_pos_vec_bi_unit))*180/np.pi
+			beta = np.arccos(np.clip(np.dot(self.lander_pos_vec_bi_unit, self.obs_tar_pos_vec_bi_unit), -1.0, 1.0))*180/np.pi
 			elev = max(0, 90 - beta)  # if negative, target is below the horizon: set to 0
 
 			if elev > 0:
@@ -327,7 +327,7 @@ class LanderToOrbiter:
 			lander_orb_vec_unit = lander_orb_vec / np.linalg.norm(lander_orb_vec)
 
 			range = np.linalg.norm(lander_orb_vec)
-			beta = np.arccos(np.dot(lander_unit, lander_orb_vec_unit))*180/np.pi
+			beta = np.arccos(np.clip(np.dot(lander_unit, lander_orb_vec_unit), -1.0, 1.0))*180/np.pi
 			elev = max(0, 90 - beta)
 			if elev > 0:
 				visible = True
-- 
2.43.0


From 729272ef76797994504b876716c807f2dc495009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:53 +0000
Subject: [PATCH 30/31] fix: accept TITAN as target planet of the visibility
 classes

---
 AMAT/visibility.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/AMAT/visibility.py b/AMAT/visibility.py
index 253c2fe..e33d938 100644
--- a/AMAT/visibility.py
+++ b/AMAT/visibility.py
@@ -171,7 +171,9 @@ class LanderToPlanet(Visibility):
 		# Compute the ephemeris for the observer and target planet
 		with solar_system_ephemeris.set(ephem_file):
 			self.observer_planet_eph = get_body_barycentric_posvel(self.observer_planet, self.arrival_date)
-			self.target_planet_eph = get_body_barycentric_posvel(target_planet, self.arrival_date)
+			# Titan as target is also taken to be at Saturn
+			self.target_planet_eph = get_body_barycentric_posvel('SATURN' if target_planet == 'TITAN' else target_planet,
+																 self.arrival_date)
 
 		# Compute observer and target Solar System barycentric position(s) in ICRF (km)
 		self.obs_planet_pos = np.array([self.observer_planet_eph [0].x.value,
@@ -409,7 +411,9 @@ class OrbiterToPlanet(Visibility):
 		# Compute the ephemeris for the observer and target planet
 		with solar_system_ephemeris.set(ephem_file):
 			self.observer_planet_eph = get_body_barycentric_posvel(self.observer_planet, self.arrival_date)
-			self.target_planet_eph = get_body_barycentric_posvel(target_planet, self.arrival_date)
+			# Titan as target is also taken to be at Saturn
+			self.target_planet_eph = get_body_barycentric_posvel('SATURN' if target_planet == 'TITAN' else target_planet,
+																 self.arrival_date)
 
 		# Compute observer and target Solar System barycentric position(s) in ICRF (km)
 		self.obs_planet_pos = np.array([self.observer_planet_eph[0].x.value,
-- 
2.43.0


From c07d3546fd085068345b2de2db2d06fd135a08ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:18 +0000
Subject: [PATCH 31/31] fix: plot launch masses that are all equal or all above
 zero

---
 AMAT/interplanetary.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/AMAT/interplanetary.py b/AMAT/interplanetary.py
index b334ff4..49c296a 100644
--- a/AMAT/interplanetary.py
+++ b/AMAT/interplanetary.py
@@ -100,7 +100,7 @@ class Interplanetary:
 		ax.tick_params(direction='in')
 		ax.yaxis.set_ticks_position('both')
 		ax.xaxis.set_ticks_position('both')
-		plt.ylim(max(0, sorted(set(Lcmass))[1])-100, max(Lcmass)+100)
+		plt.ylim(min((m for m in Lcmass if m > 0), default=0)-100, max(Lcmass)+100)
 
 		plt.legend(loc='upper right', fontsize=12, framealpha=0.8)
 
@@ -249,7 +249,7 @@ class Interplanetary:
 
 		plt.figure(figsize=(8,6))
 		plt.scatter(self.Lcdate, self.Avinf, c=Lcmass, marker='o', cmap='jet',
-					vmin = max(0, sorted(set(Lcmass))[1]), vmax = max(Lcmass), s=scale)
+					vmin = min((m for m in Lcmass if m > 0), default=0), vmax = max(Lcmass), s=scale)
 		cbar = plt.colorbar()
 		cbar.ax.tick_params(labelsize=14)
 		cbar.set_label(r'Launch capability, kg', labelpad=-20, y=1.05, rotation=0, fontsize=14)
@@ -314,7 +314,7 @@ class Interplanetary:
 		ax.tick_params(direction='in')
 		ax.yaxis.set_ticks_position('both')
 		ax.xaxis.set_ticks_position('both')
-		plt.ylim(max(0, sorted(set(Lcmass))[1])-100, max(Lcmass)+100)
+		plt.ylim(min((m for m in Lcmass if m > 0), default=0)-100, max(Lcmass)+100)
 
 
 		plt.legend(loc='upper right', fontsize=12, framealpha=0.8)
@@ -384,7 +384,7 @@ class Interplanetary:
 		ax.tick_params(direction='in')
 		ax.yaxis.set_ticks_position('both')
 		ax.xaxis.set_ticks_position('both')
-		plt.ylim(max(0, sorted(set(Lcmass))[1])-100, max(Lcmass)+100)
+		plt.ylim(min((m for m in Lcmass if m > 0), default=0)-100, max(Lcmass)+100)
 
 
 		plt.legend(loc='upper right', fontsize=12, framealpha=0.8)
-- 
2.43.0

