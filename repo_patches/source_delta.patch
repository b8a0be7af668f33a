From c992a2d0f29ba194b6a3cc9a7951657c845a98d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:54 +0000
Subject: [PATCH 01/32] fix: net acceleration load squares the out-of-plane
 component

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 3aab595..ba94969 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2092,7 +2092,7 @@ class Vehicle:
 		acc_w = self.a_wvectorized(rc, thetac, phic, vc, delta)
 
 		acc_net = np.zeros(index)
-		acc_net[:] = np.sqrt(acc_s[:]**2.0 + acc_n[:]**2.0 + acc_w[:]*2.0)
+		acc_net[:] = np.sqrt(acc_s[:]**2.0 + acc_n[:]**2.0 + acc_w[:]**2.0)
 		acc_net_g = acc_net / self.planetObj.EARTHG
 
 		return acc_net_g
-- 
2.43.0


From dfbb970549d75a84e0dbb92b2945a66ebeabb224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:54 +0000
Subject: [PATCH 02/32] fix: use float() instead of the removed np.float when
 computing Mach no.

---
 AMAT/vehicle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index ba94969..a95d039 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2233,9 +2233,9 @@ class Vehicle:
 			Mach no.
 		
 		"""
-		stat_pres = np.float(self.planetObj.pressure_int(r - self.planetObj.RP))
-		stat_temp = np.float(self.planetObj.temp_int(r - self.planetObj.RP))
-		sonic_spd = np.float(self.planetObj.sonic_int(r - self.planetObj.RP))
+		stat_pres = float(self.planetObj.pressure_int(r - self.planetObj.RP))
+		stat_temp = float(self.planetObj.temp_int(r - self.planetObj.RP))
+		sonic_spd = float(self.planetObj.sonic_int(r - self.planetObj.RP))
 		mach = v/sonic_spd
 
 		return mach
-- 
2.43.0


From 141d44d5c003273192614a958d1747edf5a614fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:54 +0000
Subject: [PATCH 03/32] fix: computeStagTemp uses the planet's ratio of
 specific heats

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index a95d039..6ab76f5 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2263,7 +2263,7 @@ class Vehicle:
 		sonic_spd = self.planetObj.sonicvectorized(rc)
 		mach[:] = vc[:]/sonic_spd[:]
 		stag_temp = np.zeros(len(rc))
-		stag_temp[:] = stat_temp[:]*(1+0.5*(self.CPCV-1)*mach[:]**2.0)
+		stag_temp[:] = stat_temp[:]*(1+0.5*(self.planetObj.CPCV-1)*mach[:]**2.0)
 
 		return stag_temp
 
-- 
2.43.0


From 5a0282027744b411f41f68f584d84b72be3d7142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:54 +0000
Subject: [PATCH 04/32] fix: roll at the reduced rate when the commanded bank
 angle is within reach

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 6ab76f5..896d880 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4568,7 +4568,7 @@ class Vehicle:
 			# so as to achieve the desired bank angle at the 
 			# end of the guidance cycle.
 			bankRate = np.abs(DeltaCMD_deg_command - Delta_deg_ini) / timestep
-			DeltaCMD_deg = Delta_deg_ini + np.sign(DeltaCMD_deg_command - Delta_deg_ini)*self.maxRollRate*timestep
+			DeltaCMD_deg = Delta_deg_ini + np.sign(DeltaCMD_deg_command - Delta_deg_ini)*bankRate*timestep
 			Delta_deg_ini = DeltaCMD_deg
 
 		return DeltaCMD_deg, Delta_deg_ini
-- 
2.43.0


From 99fdedf680a0844a6d9c556cc5cf4b58f5fd3e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:54 +0000
Subject: [PATCH 05/32] fix: link budget uses the receiver dish diameter and
 accepts 0 dBi antennas

---
 AMAT/telecom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/telecom.py b/AMAT/telecom.py
index 9e3ccaa..afe07f4 100644
--- a/AMAT/telecom.py
+++ b/AMAT/telecom.py
@@ -133,7 +133,7 @@ class Link:
 			self.eta_t = eta_t
 			self.Gt = self.compute_antenna_gain(self.eta_t, self.Dt, self.wavelength)
 			self.Gt_dBi = self.compute_dB(self.Gt)
-		elif Gt_dBi:
+		elif Gt_dBi is not None:
 			self.Dt = None
 			self.At = None
 			self.eta_t = None
@@ -142,12 +142,12 @@ class Link:
 		# if Dr and eta_r are provided, compute receiver gain using these values,
 		# else if Gr_dBi is provided, use this value directly for receiver gain
 		if Dr and eta_r:
-			self.Dr = Dt
+			self.Dr = Dr
 			self.Ar = 0.25 * np.pi * self.Dr * self.Dr
 			self.eta_r = eta_r
 			self.Gr = self.compute_antenna_gain(self.eta_r, self.Dr, self.wavelength)
 			self.Gr_dBi = self.compute_dB(self.Gr)
-		elif Gr_dBi:
+		elif Gr_dBi is not None:
 			self.Dr = None
 			self.Ar = None
 			self.eta_r = None
-- 
2.43.0


From cc3ebc91e8f08a09feae40839cddc12ee764357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:18 +0000
Subject: [PATCH 06/32] fix: accumulate the heat load from its initial value

scipy accepts only initial=0 in cumulative_trapezoid (so guided entries crashed),
and propogateEntry ignored the initial heat load.
---
 AMAT/vehicle.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 896d880..2c2ab01 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2512,7 +2512,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		self.q_stag_total = self.q_stag_con + self.q_stag_rad
 		# compute stagnation point heating load
-		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
+		self.heatload = self.heatLoad0 + cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
 
 	def propogateEntry2(self, t_sec, dt, delta_deg):
 		"""
@@ -2599,7 +2599,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		self.q_stag_total = self.q_stag_con + self.q_stag_rad
 		# compute stagnation point heating load
-		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=self.heatLoad0)
+		self.heatload = self.heatLoad0 + cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
 
 	def dummyVehicle(self, density_mes_int):
 		"""
@@ -2779,7 +2779,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total , tc, initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total , tc, initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 				gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -2936,7 +2936,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total, tc, initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total, tc, initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 				gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -6685,7 +6685,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total    = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload        = cumulative_trapezoid(q_stag_total , tc, \
+		heatload        = heatLoad0 + cumulative_trapezoid(q_stag_total , tc, \
 			initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
@@ -6857,8 +6857,8 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total, tc, \
-							initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total, tc, \
+							initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 			   gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
-- 
2.43.0


From 8d10e58253869c360018f149397380c8d2b0f9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:18 +0000
Subject: [PATCH 07/32] fix: carry the heat load forward through the exit phase

Every guidance cycle of the exit phase restarted from the heat load at the end of
the entry / equilibrium glide phase.
---
 AMAT/vehicle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 2c2ab01..1c1d40e 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5317,6 +5317,7 @@ class Vehicle:
 			psi0_deg = psi_deg[-1]        # Entry heading angle
 			gamma0_deg = gamma_deg[-1]      # Entry flight path angle
 			drange0_km = drange_km[-1]      # Downrange
+			Ji = heatload[-1]           # Heat load
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
@@ -5506,6 +5507,7 @@ class Vehicle:
 			psi0_deg = psi_deg[-1]  # Entry heading angle
 			gamma0_deg = gamma_deg[-1]  # Entry flight path angle
 			drange0_km = drange_km[-1]  # Downrange
+			Ji = heatload[-1]           # Heat load
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
@@ -6931,6 +6933,7 @@ class Vehicle:
 			psi0_deg    = psi_deg[-1]        # Entry heading angle 
 			gamma0_deg  = gamma_deg[-1]      # Entry flight path angle 
 			drange0_km  = drange_km[-1]      # Downrange
+			Ji = heatload[-1]           # Heat load
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
@@ -7124,6 +7127,7 @@ class Vehicle:
 			psi0_deg = psi_deg[-1]  # Entry heading angle
 			gamma0_deg = gamma_deg[-1]  # Entry flight path angle
 			drange0_km = drange_km[-1]  # Downrange
+			Ji = heatload[-1]           # Heat load
 
 			# ----------------------------------------------------------------------------
 			# Convert entry state variables from IO/plot units to calculation (SI) units
-- 
2.43.0


From 3de3cb1fc6254781a927bf7d73b369bcba494755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:32 +0000
Subject: [PATCH 08/32] fix: leave the entry/equilibrium glide phase below the
 switch speed

The guidance loops tested a speed that was never updated, so the documented
v_switch criterion could not end the phase.
---
 AMAT/vehicle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 1c1d40e..4679b34 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4993,6 +4993,7 @@ class Vehicle:
 			# update current speed
 			h_current_km  = h_km[-1]
 			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_current_kms
 
 			if terminal_apoapsis_km> 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -5227,6 +5228,7 @@ class Vehicle:
 			# update current speed
 			h_current_km = h_km[-1]
 			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_current_kms
 
 			if terminal_apoapsis_km > 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -6165,6 +6167,7 @@ class Vehicle:
 			# update current speed
 			h_current_km  = h_km[-1]
 			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_current_kms
 
 			if terminal_apoapsis_km> 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -6377,6 +6380,7 @@ class Vehicle:
 			# update current speed
 			h_current_km = h_km[-1]
 			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_current_kms
 
 			if terminal_apoapsis_km > 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
-- 
2.43.0


From 10ab69f4c8188316c682900ca09daa7e86964276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:02 +0000
Subject: [PATCH 09/32] fix: end the guidance phases when the vehicle leaves
 the atmosphere or is trapped

The loops only stopped inside a 1-2 km (entry) or 10 km (exit) window below the skip
altitude; a vehicle that stepped past the window repeated the same truncated segment
for ever.
---
 AMAT/vehicle.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 4679b34..04cf295 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5004,6 +5004,10 @@ class Vehicle:
 			if h_current_km > self.planetObj.h_skip/1000 - 2.0:
 				break
 
+			# stop if the vehicle left the atmosphere or reached trap altitude
+			if self.exitflag != 0.0:
+				break
+
 		
 		self.t_min_eg = t_min
 		self.h_km_eg = h_km
@@ -5239,6 +5243,10 @@ class Vehicle:
 			if h_current_km > self.planetObj.h_skip / 1000 - 2.0:
 				break
 
+			# stop if the vehicle left the atmosphere or reached trap altitude
+			if self.exitflag != 0.0:
+				break
+
 		self.t_min_eg = t_min
 		self.h_km_eg = h_km
 		self.v_kms_eg = v_kms
@@ -5408,6 +5416,10 @@ class Vehicle:
 			if hi > self.planetObj.h_skip - 10.0E3:
 				break
 
+			# stop if the vehicle left the atmosphere or reached trap altitude
+			if self.exitflag != 0.0:
+				break
+
 			h_current_km  = h_km[-1]
 			t_current_min = t_min[-1]
 
@@ -5598,6 +5610,10 @@ class Vehicle:
 			if hi > self.planetObj.h_skip - 10.0E3:
 				break
 
+			# stop if the vehicle left the atmosphere or reached trap altitude
+			if self.exitflag != 0.0:
+				break
+
 			h_current_km = h_km[-1]
 			t_current_min = t_min[-1]
 
@@ -6178,6 +6194,10 @@ class Vehicle:
 			if h_current_km > self.planetObj.h_skip/1000 - 1.0:
 				break
 
+			# stop if the vehicle left the atmosphere or reached trap altitude
+			if self.exitflag != 0.0:
+				break
+
 		
 		self.t_min_en     = t_min
 		self.h_km_en      = h_km
@@ -6391,6 +6411,10 @@ class Vehicle:
 			if h_current_km > self.planetObj.h_skip / 1000 - 1.0:
 				break
 
+			# stop if the vehicle left the atmosphere or reached trap altitude
+			if self.exitflag != 0.0:
+				break
+
 		self.t_min_en = t_min
 		self.h_km_en = h_km
 		self.v_kms_en = v_kms
@@ -7026,6 +7050,10 @@ class Vehicle:
 			if hi > self.planetObj.h_skip - 1.0E3:
 				break
 
+			# stop if the vehicle left the atmosphere or reached trap altitude
+			if self.exitflag != 0.0:
+				break
+
 			if hi < 20.0E3:
 				break
 
@@ -7218,6 +7246,10 @@ class Vehicle:
 			if hi > self.planetObj.h_skip - 1.0E3:
 				break
 
+			# stop if the vehicle left the atmosphere or reached trap altitude
+			if self.exitflag != 0.0:
+				break
+
 			if hi < 20.0E3:
 				break
 
-- 
2.43.0


From f8f4941f9a16e624e46bcacc441460e1f8d09893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:21 +0000
Subject: [PATCH 10/32] fix: define h_low for Jupiter and Saturn

Every corridor computation at these planets raised AttributeError.
---
 AMAT/planet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/AMAT/planet.py b/AMAT/planet.py
index 1e4b6e3..ccb73d8 100644
--- a/AMAT/planet.py
+++ b/AMAT/planet.py
@@ -156,6 +156,7 @@ class Planet:
 			self.h_thres = 1000.0E3
 			self.h_skip = 1000.0E3     
 			self.h_trap = 50.0E3 
+			self.h_low = 100.0E3
 
 		elif planetID == 'SATURN':
 			self.ID = 'SATURN'
@@ -171,6 +172,7 @@ class Planet:
 			self.h_thres = 1000.0E3
 			self.h_skip = 1000.0E3     
 			self.h_trap = 50.0E3      
+			self.h_low = 100.0E3
 
 		elif planetID == 'TITAN':
 
-- 
2.43.0


From 38791d8e7d17426cb51439b0d6a84010c2218713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 11/32] fix: a trajectory that only touches the trap altitude
 is not truncated to nothing

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 04cf295..acbc1ac 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -1981,7 +1981,7 @@ class Vehicle:
 			index = len(h)
 			exitflag = 0.0
 
-		elif h_min <= self.planetObj.h_trap:
+		elif h_min < self.planetObj.h_trap:
 			# if trajectory descended below trap in altitude
 			# return the index of the first point after entering trap altiude
 			# set exitflag = -1 to indicate vehicle hit the surface
-- 
2.43.0


From b31a6183a486f476bc4896082bc69e64319b7c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:31 +0000
Subject: [PATCH 12/32] fix: corridor search returns a limit when the initial
 bracket is within tolerance

The result was only assigned inside the bisection loop (UnboundLocalError).
---
 AMAT/vehicle.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index acbc1ac..a75a08e 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3313,8 +3313,8 @@ class Vehicle:
 				# print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				overShootLimit = gamma0_deg_guess_high
-				exitflag_os = 1.0
+			overShootLimit = gamma0_deg_guess_high
+			exitflag_os = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3415,8 +3415,8 @@ class Vehicle:
 				# print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				overShootLimit = gamma0_deg_guess_high
-				exitflag_os = 1.0
+			overShootLimit = gamma0_deg_guess_high
+			exitflag_os = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3518,8 +3518,8 @@ class Vehicle:
 				#print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				underShootLimit = gamma0_deg_guess_high
-				exitflag_us = 1.0
+			underShootLimit = gamma0_deg_guess_high
+			exitflag_us = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3621,8 +3621,8 @@ class Vehicle:
 				# print("")
 				# set overShootLimit to upper bound
 				# set exitflag to 1.0
-				underShootLimit = gamma0_deg_guess_high
-				exitflag_us = 1.0
+			underShootLimit = gamma0_deg_guess_high
+			exitflag_us = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3841,8 +3841,8 @@ class Vehicle:
 
 				# set overShootLimit to lower bound
 				# set exitflag to 1.0
-				EFPALimit = gamma0_deg_guess_high
-				exitflag = 1.0
+			EFPALimit = gamma0_deg_guess_high
+			exitflag = 1.0
 
 		# if product of flags is positive, overshootlimit is outside user \
 		# specified bounds, print warning message.
@@ -3941,8 +3941,8 @@ class Vehicle:
 
 				# set overShootLimit to lower bound
 				# set exitflag to 1.0
-				EFPALimit = gamma0_deg_guess_high
-				exitflag = 1.0
+			EFPALimit = gamma0_deg_guess_high
+			exitflag = 1.0
 
 		# if product of flags is positive, overshootlimit is outside user \
 		# specified bounds, print warning message.
-- 
2.43.0


From ae8ba8d13d81c961b6d1dd31ccc4fd277228f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:31 +0000
Subject: [PATCH 13/32] fix: the drag modulation limit search flies without
 lift

It set L/D to zero but the propagator uses CL, which was left unchanged.
---
 AMAT/vehicle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index a75a08e..0c63240 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3797,7 +3797,9 @@ class Vehicle:
 
 		delta_deg = 0.0
 
+		temp_var_3 = self.CL
 		self.LD = 0.0
+		self.CL = 0.0
 
 		self.gamma0_deg = gamma0_deg_guess_low
 		ans1 = self.hitsTargetApoapsis(t_sec, dt, delta_deg, targetApopasisAltitude_km)
@@ -3853,6 +3855,7 @@ class Vehicle:
 
 		self.gamma0_deg = temp_var_1
 		self.LD = temp_var_2
+		self.CL = temp_var_3
 
 		return EFPALimit, exitflag
 
@@ -3897,7 +3900,9 @@ class Vehicle:
 
 		delta_deg = 0.0
 
+		temp_var_3 = self.CL
 		self.LD = 0.0
+		self.CL = 0.0
 
 		self.gamma0_deg = gamma0_deg_guess_low
 		ans1 = self.hitsTargetApoapsis2(t_sec, dt, delta_deg, targetApopasisAltitude_km)
@@ -3953,6 +3958,7 @@ class Vehicle:
 
 		self.gamma0_deg = temp_var_1
 		self.LD = temp_var_2
+		self.CL = temp_var_3
 
 		return EFPALimit, exitflag
 
-- 
2.43.0


From 1ecc717779da22857b28001ffee46e11aa565202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:42 +0000
Subject: [PATCH 14/32] fix: the drag modulation corridor search restores the
 ballistic coefficient

A trajectory propagated after an undershoot search flew with the jettisoned
configuration.
---
 AMAT/vehicle.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 0c63240..09170ef 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3997,6 +3997,9 @@ class Vehicle:
 		
 		"""
 
+		temp_var_1 = self.beta
+		temp_var_2 = self.CD
+
 		self.beta = self.beta1*self.betaRatio
 		self.CD = self.mass / (self.beta*self.A)
 		
@@ -4004,6 +4007,9 @@ class Vehicle:
 															gamma0_deg_guess_high, gamma_deg_tol,
 															targetApopasisAltitude_km)
 
+		self.beta = temp_var_1
+		self.CD = temp_var_2
+
 		return underShootLimitD, exitflagD_us
 
 	def findUnderShootLimitD2(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol,
@@ -4041,6 +4047,9 @@ class Vehicle:
 
 		"""
 
+		temp_var_1 = self.beta
+		temp_var_2 = self.CD
+
 		self.beta = self.beta1 * self.betaRatio
 		self.CD = self.mass / (self.beta * self.A)
 
@@ -4048,6 +4057,9 @@ class Vehicle:
 															 gamma0_deg_guess_high, gamma_deg_tol,
 															 targetApopasisAltitude_km)
 
+		self.beta = temp_var_1
+		self.CD = temp_var_2
+
 		return underShootLimitD, exitflagD_us
 
 	def findOverShootLimitD(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol,
@@ -4084,6 +4096,9 @@ class Vehicle:
 		within user specified bounds.
 		
 		"""
+		temp_var_1 = self.beta
+		temp_var_2 = self.CD
+
 		self.beta = self.beta1
 		self.CD = self.mass / (self.beta*self.A)
 		
@@ -4091,6 +4106,9 @@ class Vehicle:
 										gamma0_deg_guess_high,gamma_deg_tol, targetApopasisAltitude_km)
 		# print('overShootLimit: '+str(overShootLimitD))
 		
+		self.beta = temp_var_1
+		self.CD = temp_var_2
+
 		return overShootLimitD, exitflagD_os
 
 	def findOverShootLimitD2(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol,
@@ -4127,6 +4145,9 @@ class Vehicle:
 		within user specified bounds.
 
 		"""
+		temp_var_1 = self.beta
+		temp_var_2 = self.CD
+
 		self.beta = self.beta1
 		self.CD = self.mass / (self.beta * self.A)
 
@@ -4135,6 +4156,9 @@ class Vehicle:
 															targetApopasisAltitude_km)
 		# print('overShootLimit: '+str(overShootLimitD))
 
+		self.beta = temp_var_1
+		self.CD = temp_var_2
+
 		return overShootLimitD, exitflagD_os
 
 	def computeTCWD(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high,
-- 
2.43.0


From 65fc2dbfa7cd5cf87d4a638f7a1ca9787d7b34cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 15/32] fix: lift modulation Monte Carlo flies the sampled L/D

The sample was written to LD.txt but never applied to the vehicle.
---
 AMAT/vehicle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 09170ef..c85233f 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5826,6 +5826,8 @@ class Vehicle:
 			selected_efpa = np.random.normal(self.nominalEFPA, self.EFPA_1sigma_value)
 			selected_atmSigma = np.random.normal(0, self.atmSigmaFactor)
 			selected_LD = np.random.normal(self.nominalLD, self.LD_1sigma_value)
+			self.LD = selected_LD
+			self.CL = self.LD * self.CD
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2(selected_atmfile, self.heightCol,
@@ -5930,6 +5932,8 @@ class Vehicle:
 			# selected_atmSigma = +0.0
 			selected_atmSigma = np.random.normal(0, self.atmSigmaFactor)
 			selected_LD = np.random.normal(self.nominalLD, self.LD_1sigma_value)
+			self.LD = selected_LD
+			self.CL = self.LD * self.CD
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2( \
-- 
2.43.0


From 39e1fce542e07ad659e3140b4807827e43eb063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:41 +0000
Subject: [PATCH 16/32] fix: entry longitude of an approach trajectory is
 quadrant-aware

arctan(y/x) put entries at x<0 on the wrong side of the planet, which also reversed
the atmosphere rotation correction.
---
 AMAT/approach.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 0d897fd..6f75f42 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -266,9 +266,9 @@ class Approach:
 											  np.arccos(np.dot(self.r_vec_entry_bi_unit, self.v_vec_entry_bi_unit))
 
 			self.latitude_entry_bi = np.arcsin(self.r_vec_entry_bi_unit[2])
-			self.longitude_entry_bi = np.arctan(self.r_vec_entry_bi_unit[1] / self.r_vec_entry_bi_unit[0])
+			self.longitude_entry_bi = np.arctan2(self.r_vec_entry_bi_unit[1], self.r_vec_entry_bi_unit[0])
 
-			self.xi_1 = np.arctan(self.r_vec_entry_bi_unit[1]/self.r_vec_entry_bi_unit[0])
+			self.xi_1 = np.arctan2(self.r_vec_entry_bi_unit[1], self.r_vec_entry_bi_unit[0])
 			self.latitude_entry_bi_analytic = np.arctan(self.r_vec_entry_bi_unit[2]/
 														(self.r_vec_entry_bi_unit[0]*np.cos(self.xi_1) + self.r_vec_entry_bi_unit[1]*np.sin(self.xi_1)))
 
-- 
2.43.0


From cd3fca612b0fda1e9406347691cfc466c8038ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 17/32] fix: velocity on an approach hyperbola is defined at
 periapsis and outbound

arccos of a ratio that rounds above one made the periapsis velocity NaN for about a
fifth of all approaches, and the sign was always inbound.
---
 AMAT/approach.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 6f75f42..9a73e5f 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -477,7 +477,7 @@ class Approach:
 
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt((self.v_inf_mag)**2 + 2*self.planetObj.GM/r_mag_bi)
-		gamma = -1*np.arccos(self.h/(r_mag_bi*v_mag_bi))
+		gamma = np.arctan2(self.e*np.sin(theta_star), 1 + self.e*np.cos(theta_star))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
-- 
2.43.0


From a9630043adae28b88bed1d646ff1b81f01c4332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:15 +0000
Subject: [PATCH 18/32] fix: orbiter and probe velocities have the right radial
 sign on both halves of the orbit

---
 AMAT/orbiter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 5d9d944..adfac2e 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -493,7 +493,7 @@ class Orbiter:
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt(self.vehicle.planetObj.GM*(2/r_mag_bi - 1/self.a))
 
-		gamma = 1*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.sign(np.sin(theta_star))*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
@@ -531,7 +531,7 @@ class Orbiter:
 		r_mag_bi = np.linalg.norm(self.pos_vec_bi_probe(theta_star))
 		v_mag_bi = np.sqrt(self.vehicle.planetObj.GM*(2/r_mag_bi - 1/self.a_probe_orbit))
 
-		gamma = -1*np.arccos(self.h_probe_orbit/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.sign(np.sin(theta_star))*np.arccos(self.h_probe_orbit/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
@@ -963,7 +963,7 @@ class PropulsiveOrbiter:
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt(self.approach.planetObj.GM*(2/r_mag_bi - 1/self.a))
 
-		gamma = 1*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.arctan2(self.e*np.sin(theta_star), 1 + self.e*np.cos(theta_star))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
-- 
2.43.0


From 63b897e08ddf39c7ba4f085c3a465b16ce7d13e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:32 +0000
Subject: [PATCH 19/32] fix: probe entry longitude is quadrant-aware

---
 AMAT/orbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index adfac2e..c8a9dce 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -737,7 +737,7 @@ class Orbiter:
 			self.gamma_inertial_probe_entry = -1 * np.arccos(self.h_probe_orbit / (self.r_EI * self.v_bi_mag_probe_entry))
 
 			self.latitude_probe_entry_bi = np.arcsin(self.r_vec_bi_probe_entry_unit[2])
-			self.longitude_probe_entry_bi = np.arctan(self.r_vec_bi_probe_entry_unit[1] / self.r_vec_bi_probe_entry_unit[0])
+			self.longitude_probe_entry_bi = np.arctan2(self.r_vec_bi_probe_entry_unit[1], self.r_vec_bi_probe_entry_unit[0])
 
 			self.v_vec_probe_entry_atm = self.vel_vec_probe_entry_atm()
 			self.v_mag_probe_entry_atm = np.linalg.norm(self.v_vec_probe_entry_atm)
-- 
2.43.0


From 0a4955c991676fc835e0832eb5a238031e1ebb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:56 +0000
Subject: [PATCH 20/32] fix: draw the orbiter deflection trajectory with its
 own argument of periapsis

---
 AMAT/orbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index c8a9dce..b6d570b 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -465,7 +465,7 @@ class Orbiter:
 		"""
 
 		r = (self.h_orbiter_defl**2 / self.vehicle.planetObj.GM) / (1 + self.e_orbiter_defl*np.cos(theta_star))
-		theta = theta_star + self.omega
+		theta = theta_star + self.omega_orbiter_defl
 
 		rx_unit = np.cos(self.OMEGA_orbiter_defl)*np.cos(theta) - np.sin(self.OMEGA_orbiter_defl)*np.cos(self.i_orbiter_defl)*np.sin(theta)
 		ry_unit = np.sin(self.OMEGA_orbiter_defl)*np.cos(theta) + np.cos(self.OMEGA_orbiter_defl)*np.cos(self.i_orbiter_defl)*np.sin(theta)
-- 
2.43.0


From 2f67fb88f8ced407dd51975ddba3d64942ce521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:56 +0000
Subject: [PATCH 21/32] fix: a probe targeting burn that misses the atmosphere
 does not use an undefined entry point

---
 AMAT/orbiter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index b6d570b..b90ee04 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -758,6 +758,7 @@ class Orbiter:
 
 		else:
 			print("Probe orbit periapsis outside atmospheric skip altitude.")
+			return
 
 		theta_star_arr = np.linspace(theta_star, self.theta_star_probe_entry, num_points)
 		pos_vec_bi_arr = self.pos_vec_bi_probe(theta_star_arr) / self.vehicle.planetObj.RP
-- 
2.43.0


From f1281d638ceb6f624e7f6eed64580ccdd51ba02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:28 +0000
Subject: [PATCH 22/32] fix: time runs forward for a lander on a retrograde
 planet

Venus and Uranus gave a decreasing time array and a negative data volume.
---
 AMAT/visibility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/visibility.py b/AMAT/visibility.py
index 97fae40..ee2e3cf 100644
--- a/AMAT/visibility.py
+++ b/AMAT/visibility.py
@@ -191,8 +191,8 @@ class LanderToPlanet(Visibility):
 		# Convert observer to target unit vector in ICRF to observer planet BI frame
 		self.obs_tar_pos_vec_bi_unit = self.ICRF_to_BI(self.obs_tar_pos_vec_icrf_unit)
 
-		self.longitude_array = np.linspace(0, 360, num_points)  # body inertial longitude array
-		self.t_array = np.linspace(0, 2*np.pi/(self.planetObj.OMEGA), num_points)  # time array
+		self.longitude_array = np.linspace(0, 360*np.sign(self.planetObj.OMEGA), num_points)  # body inertial longitude array
+		self.t_array = np.linspace(0, 2*np.pi/abs(self.planetObj.OMEGA), num_points)  # time array
 		self.beta_array = np.array([])  # beta angle array
 		self.elevation_array = np.array([])  # elevation angle array
 		self.visible_array = np.array([], dtype=bool)
-- 
2.43.0


From a91a79b2a7b1ec2bf98550e6ee6a0c0dc3182779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:04 +0000
Subject: [PATCH 23/32] fix: savefig keyword in plot_launch_mass_vs_TOF

---
 AMAT/interplanetary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/interplanetary.py b/AMAT/interplanetary.py
index 0a71a41..b334ff4 100644
--- a/AMAT/interplanetary.py
+++ b/AMAT/interplanetary.py
@@ -337,7 +337,7 @@ class Interplanetary:
 		for axis in ['top', 'bottom', 'left', 'right']:
 			ax.spines[axis].set_linewidth(2)
 
-		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.png', dpi=300, box_inches='tight')
+		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.png', dpi=300, bbox_inches='tight')
 		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.pdf', dpi=300, bbox_inches='tight')
 		plt.savefig('../plots/' + self.ID + "_" + launcherObj.ID + "_" + "launch_mass_vs_TOF" + '.eps', dpi=300, bbox_inches='tight')
 
-- 
2.43.0


From 45a842738c62707d5ef75d3070168a6836bbb880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:13 +0000
Subject: [PATCH 24/32] fix: drop samples the integrator did not reach

When odeint gives up before the requested end time, the rest of its output is
uninitialised memory, which was classified and reported as part of the flight.
---
 AMAT/vehicle.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index c85233f..071cd99 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -1730,7 +1730,12 @@ class Vehicle:
 		
 		# use scipy odeint to solve for the entry trajectory using initial 
 		# conditions xbar_0 and vehicle parameters in args
-		xbar = odeint(self.EOM, xbar_0, tbar, rtol=self.tol, atol=self.tol, args=(delta,))
+		xbar, info = odeint(self.EOM, xbar_0, tbar, rtol=self.tol, atol=self.tol, args=(delta,), full_output=1)
+
+		# if the integrator gave up early, drop the samples it did not reach
+		if info['message'] != 'Integration successful.':
+			reached = 1 + np.argmax(~(info['tcur'] >= tbar[1:]))
+			tbar, xbar = tbar[:reached], xbar[:reached]
 
 		# extract solution from odeint into solution variable vectors
 		rbar = xbar[:, 0]    # radial distance rbar solution
-- 
2.43.0


From fe41a19645b569bdc45d77466d530398d038496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:16 +0000
Subject: [PATCH 25/32] fix: end guided flights whose integration can no longer
 advance (endless loop on a vertical path)

---
 AMAT/vehicle.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 071cd99..2716b6d 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5043,6 +5043,10 @@ class Vehicle:
 			if self.exitflag != 0.0:
 				break
 
+			# stop if the integrator could not advance (e.g. vertical path)
+			if len(t_min_c) < 2:
+				break
+
 		
 		self.t_min_eg = t_min
 		self.h_km_eg = h_km
@@ -5282,6 +5286,10 @@ class Vehicle:
 			if self.exitflag != 0.0:
 				break
 
+			# stop if the integrator could not advance (e.g. vertical path)
+			if len(t_min_c) < 2:
+				break
+
 		self.t_min_eg = t_min
 		self.h_km_eg = h_km
 		self.v_kms_eg = v_kms
@@ -5455,6 +5463,10 @@ class Vehicle:
 			if self.exitflag != 0.0:
 				break
 
+			# stop if the integrator could not advance (e.g. vertical path)
+			if len(t_min_c) < 2:
+				break
+
 			h_current_km  = h_km[-1]
 			t_current_min = t_min[-1]
 
@@ -5649,6 +5661,10 @@ class Vehicle:
 			if self.exitflag != 0.0:
 				break
 
+			# stop if the integrator could not advance (e.g. vertical path)
+			if len(t_min_c) < 2:
+				break
+
 			h_current_km = h_km[-1]
 			t_current_min = t_min[-1]
 
@@ -6237,6 +6253,10 @@ class Vehicle:
 			if self.exitflag != 0.0:
 				break
 
+			# stop if the integrator could not advance (e.g. vertical path)
+			if len(t_min_c) < 2:
+				break
+
 		
 		self.t_min_en     = t_min
 		self.h_km_en      = h_km
@@ -6454,6 +6474,10 @@ class Vehicle:
 			if self.exitflag != 0.0:
 				break
 
+			# stop if the integrator could not advance (e.g. vertical path)
+			if len(t_min_c) < 2:
+				break
+
 		self.t_min_en = t_min
 		self.h_km_en = h_km
 		self.v_kms_en = v_kms
@@ -7093,6 +7117,10 @@ class Vehicle:
 			if self.exitflag != 0.0:
 				break
 
+			# stop if the integrator could not advance (e.g. vertical path)
+			if len(t_min_c) < 2:
+				break
+
 			if hi < 20.0E3:
 				break
 
@@ -7289,6 +7317,10 @@ class Vehicle:
 			if self.exitflag != 0.0:
 				break
 
+			# stop if the integrator could not advance (e.g. vertical path)
+			if len(t_min_c) < 2:
+				break
+
 			if hi < 20.0E3:
 				break
 
-- 
2.43.0


From 287830ac71ebcec84c12ff3d61bad648b367e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 26/32] fix: drag modulation campaigns record the lift-to-drag
 ratio that was flown

---
 AMAT/vehicle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 2716b6d..82eccef 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -7599,7 +7599,7 @@ class Vehicle:
 			#selected_atmSigma = +0.0
 			selected_atmSigma = np.random.normal(0,1)
 
-			selected_LD       = 0.0
+			selected_LD       = self.LD
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2(\
@@ -7705,7 +7705,7 @@ class Vehicle:
 			# selected_atmSigma = +0.0
 			selected_atmSigma = np.random.normal(0, 1)
 
-			selected_LD = 0.0
+			selected_LD = self.LD
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2( \
@@ -7820,7 +7820,7 @@ class Vehicle:
 			#selected_atmSigma = +0.0
 			selected_atmSigma = np.random.normal(0,1)
 
-			selected_LD       = 0.0
+			selected_LD       = self.LD
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile3(\
-- 
2.43.0


From 0d450e43e2dd1529e252e0f3fe8431582d978f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:20 +0000
Subject: [PATCH 27/32] fix: Kepler's equation solved at every eccentricity
 below one, the secant search failed on very elongated orbits

---
 AMAT/orbiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index b90ee04..a29ade3 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -1035,7 +1035,7 @@ class PropulsiveOrbiter:
 
 
 	def compute_E(self, M, rtol=1e-6):
-		root = optimize.newton(lambda E: E - self.e*np.sin(E) - M, x0=M)
+		root = optimize.brentq(lambda E: E - self.e*np.sin(E) - M, M - 2.0, M + 2.0)
 		return root
 
 	def compute_theta_star(self, E):
-- 
2.43.0


From 3bfa34dcb3404ae8f28b16fed38f8df5d9c6460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:20 +0000
Subject: [PATCH 28/32] fix: coast trajectory recomputed after construction
 still follows the coast orbit

---
 AMAT/orbiter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index a29ade3..687ae09 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -563,6 +563,10 @@ class Orbiter:
 
 		"""
 
+		# the elements are those of the final orbit once the periapsis has been raised
+		a, e, h = self.a, self.e, self.h
+		self.compute_coast_orbital_elements()
+
 		theta_star_arr = np.linspace(self.theta_star_exit, np.pi, num_points)
 		pos_vec_bi_arr = self.pos_vec_bi(theta_star_arr) / self.vehicle.planetObj.RP
 
@@ -579,6 +583,8 @@ class Orbiter:
 		self.v_apoapsis_vec_coast = self.vel_vec_bi(np.pi)
 		self.v_apoapsis_mag_coast = np.linalg.norm(self.v_apoapsis_vec_coast)
 
+		self.a, self.e, self.h = a, e, h
+
 	def compute_post_PRM_orbital_elements(self):
 		"""
 		Computes the orbit elements for orbit with periapsis raised
-- 
2.43.0


From 8195dc61b63feeacbbf1c7407148e454b101a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 29/32] fix: scale height at the top of the atmosphere was not
 a number, which crashed guided flights that predict in their first cycle

---
 AMAT/planet.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/AMAT/planet.py b/AMAT/planet.py
index ccb73d8..2e11c06 100644
--- a/AMAT/planet.py
+++ b/AMAT/planet.py
@@ -842,7 +842,12 @@ class Planet:
 
 		# Compute the density scale height using the formula in Hamel 2006
 		# AIAA. DOI = 10.2514/1.20126
-		integ = cumulative_trapezoid(d_array[int(h/1000.0):], h_array[int(h/1000.0):], initial=0)[-1]
+		index = int(h/1000.0)
+		if index > len(h_array) - 2:
+			# no layer is left above h (e.g. h = h_skip): use the topmost layer
+			index = len(h_array) - 2
+			h = h_array[index]
+		integ = cumulative_trapezoid(d_array[index:], h_array[index:], initial=0)[-1]
 		ans = integ / (self.density(h) - self.density(self.h_skip))
 		return ans
 
-- 
2.43.0


From e7c2fd39480d6ae3648c49abaf86be306781e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:38 +0000
Subject: [PATCH 30/32] fix: orbit of an exactly equatorial flight was not a
 number, it has no line of nodes

---
 AMAT/orbiter.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 687ae09..92a305e 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -357,6 +357,9 @@ class Orbiter:
 		self.i = np.arccos(self.h_vec_bi_unit[2])
 
 		self.N_vec_bi = np.cross(np.array([0, 0, 1]), self.h_vec_bi)
+		if not self.N_vec_bi.any():
+			# equatorial orbit has no node, count the angles from the x-axis
+			self.N_vec_bi = np.array([1.0, 0.0, 0.0])
 		self.N_vec_bi_unit = self.N_vec_bi / np.linalg.norm(self.N_vec_bi)
 
 		if self.N_vec_bi_unit[1] >= 0:
@@ -369,7 +372,7 @@ class Orbiter:
 
 		self.e_vec_bi_unit = self.e_vec_bi / np.linalg.norm(self.e_vec_bi)
 
-		if self.e_vec_bi_unit[2] >= 0:
+		if np.dot(self.h_vec_bi, np.cross(self.N_vec_bi, self.e_vec_bi)) >= 0:
 			self.omega = np.arccos(np.dot(self.N_vec_bi_unit, self.e_vec_bi_unit))
 		else:
 			self.omega = 2*np.pi - np.arccos(np.dot(self.N_vec_bi_unit, self.e_vec_bi_unit))
@@ -706,6 +709,9 @@ class Orbiter:
 		self.i_probe_orbit = np.arccos(self.h_vec_bi_unit_probe_orbit[2])
 
 		self.N_vec_bi_probe_orbit = np.cross(np.array([0, 0, 1]), self.h_vec_bi_probe_orbit)
+		if not self.N_vec_bi_probe_orbit.any():
+			# equatorial orbit has no node, count the angles from the x-axis
+			self.N_vec_bi_probe_orbit = np.array([1.0, 0.0, 0.0])
 		self.N_vec_bi_unit_probe_orbit = self.N_vec_bi_probe_orbit / np.linalg.norm(self.N_vec_bi_probe_orbit)
 
 		if self.N_vec_bi_unit_probe_orbit[1] >= 0:
@@ -718,7 +724,7 @@ class Orbiter:
 
 		self.e_vec_bi_unit_probe_orbit = self.e_vec_bi_probe_orbit / np.linalg.norm(self.e_vec_bi_probe_orbit)
 
-		if self.e_vec_bi_unit_probe_orbit[2] >= 0:
+		if np.dot(self.h_vec_bi_probe_orbit, np.cross(self.N_vec_bi_probe_orbit, self.e_vec_bi_probe_orbit)) >= 0:
 			self.omega_probe_orbit = np.arccos(np.dot(self.N_vec_bi_unit_probe_orbit, self.e_vec_bi_unit_probe_orbit))
 		else:
 			self.omega_probe_orbit = 2 * np.pi - np.arccos(np.dot(self.N_vec_bi_unit_probe_orbit, self.e_vec_bi_unit_probe_orbit))
@@ -830,6 +836,9 @@ class Orbiter:
 		self.i_orbiter_defl = np.arccos(self.h_vec_bi_unit_orbiter_defl[2])
 
 		self.N_vec_bi_orbiter_defl = np.cross(np.array([0, 0, 1]), self.h_vec_bi_orbiter_defl)
+		if not self.N_vec_bi_orbiter_defl.any():
+			# equatorial orbit has no node, count the angles from the x-axis
+			self.N_vec_bi_orbiter_defl = np.array([1.0, 0.0, 0.0])
 		self.N_vec_bi_unit_orbiter_defl = self.N_vec_bi_orbiter_defl / np.linalg.norm(self.N_vec_bi_orbiter_defl)
 
 		if self.N_vec_bi_unit_orbiter_defl[1] >= 0:
@@ -842,7 +851,7 @@ class Orbiter:
 
 		self.e_vec_bi_unit_orbiter_defl =  self.e_vec_bi_orbiter_defl  / np.linalg.norm(self.e_vec_bi_orbiter_defl)
 
-		if self.e_vec_bi_unit_orbiter_defl[2] >= 0:
+		if np.dot(self.h_vec_bi_orbiter_defl, np.cross(self.N_vec_bi_orbiter_defl, self.e_vec_bi_orbiter_defl)) >= 0:
 			self.omega_orbiter_defl = np.arccos(np.dot(self.N_vec_bi_unit_orbiter_defl, self.e_vec_bi_unit_orbiter_defl))
 		else:
 			self.omega_orbiter_defl = 2 * np.pi - np.arccos(np.dot(self.N_vec_bi_unit_orbiter_defl, self.e_vec_bi_unit_orbiter_defl))
-- 
2.43.0


From 2628c5623ac1277fdf784083e542764988a12d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 31/32] fix: a target exactly overhead is visible, its
 elevation was not a number when rounding pushed the cosine over one

---
 AMAT/visibility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AMAT/visibility.py b/AMAT/visibility.py
index ee2e3cf..74bbf79 100644
--- a/AMAT/visibility.py
+++ b/AMAT/visibility.py
@@ -208,7 +208,7 @@ class LanderToPlanet(Visibility):
 			self.lander_pos_vec_bi_unit = self.lander_pos_vec_bi / np.linalg.norm(self.lander_pos_vec_bi)
 
 			# compute angle beta between lander zenith and observer to target unit vector
-			beta = np.arccos(np.dot(self.lander_pos_vec_bi_unit, self.obs_tar_pos_vec_bi_unit))*180/np.pi
+			beta = np.arccos(np.clip(np.dot(self.lander_pos_vec_bi_unit, self.obs_tar_pos_vec_bi_unit), -1.0, 1.0))*180/np.pi
 			elev = max(0, 90 - beta)  # if negative, target is below the horizon: set to 0
 
 			if elev > 0:
@@ -326,7 +326,7 @@ class LanderToOrbiter:
 			lander_orb_vec_unit = lander_orb_vec / np.linalg.norm(lander_orb_vec)
 
 			range = np.linalg.norm(lander_orb_vec)
-			beta = np.arccos(np.dot(lander_unit, lander_orb_vec_unit))*180/np.pi
+			beta = np.arccos(np.clip(np.dot(lander_unit, lander_orb_vec_unit), -1.0, 1.0))*180/np.pi
 			elev = max(0, 90 - beta)
 			if elev > 0:
 				visible = True
-- 
2.43.0


From f692ae6732394693d4cdcaf320427bfca00948ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:24 +0000
Subject: [PATCH 32/32] fix: a flight starting at the skip altitude has not
 skipped out, rounding cut it to nothing

---
 AMAT/vehicle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 82eccef..0f43a61 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -1958,6 +1958,9 @@ class Vehicle:
 		"""
 		# Compute altitude history for radial distance solution
 		h = self.planetObj.computeH(r)
+		# a point right at the skip altitude (e.g. the start of the flight) does not exceed it,
+		# even if rounding of r shows it a fraction of a micrometer above
+		h = np.where(np.abs(h - self.planetObj.h_skip) < 1.0E-6, self.planetObj.h_skip, h)
 
 		# Compute the maximum altitude over the entire trajectory
 		h_max = max(h)
-- 
2.43.0

