From 65de69e00b607deb8bb402d06ffe5d0f8d0d6d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:13 +0000
Subject: [PATCH 01/24] fix: analyses no longer modify the state dictionaries
 passed by the caller

---
 machup/MU.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 55eb927..356a150 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -152,7 +152,7 @@ class MachUp:
             if self.myairplane._props:
                 prop_results,velocity_array = self.myprops.solve(aero_state,prop_state)
                 if velocity_array is not None:
-                    aero_state["local_state"] = velocity_array
+                    aero_state = dict(aero_state, local_state = velocity_array)
 
             if self.myairplane._wings:
                 wing_results = self.myllmodel.solve("linear",aero_state = aero_state,control_state = control_state)
@@ -415,6 +415,7 @@ class MachUp:
         """
 
         if aero_state:
+            aero_state = aero_state.copy()
             ao = aero_state.get("alpha",0.)
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
             Normal = []
@@ -562,7 +563,7 @@ class MachUp:
         """
         if self.myairplane._wings:
             if aero_state:
-                a0 = aero_state.get("alpha",0.) 
+                aero_state = aero_state.copy()
                 a = 0.
                 while True:
                     aero_state["alpha"] = a
@@ -793,6 +794,7 @@ class MachUp:
         stab_deriv = {}
 
         if aero_state:
+            aero_state = aero_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.5
@@ -879,6 +881,7 @@ class MachUp:
         damp_deriv = {}
         
         if aero_state:
+            aero_state = aero_state.copy()
             V = aero_state.get("V_mag",10.)
             DP = 0.5*aero_state.get("rho",0.0023769)*V*V*self.Sw
 
@@ -938,7 +941,7 @@ class MachUp:
             damp_deriv["Cl_rbar"] = (forw["MX"]-back["MX"])/non_dim/self.lat_ref
             damp_deriv["Cm_rbar"] = (forw["MY"]-back["MY"])/non_dim/self.long_ref
             damp_deriv["Cn_rbar"] = (forw["MZ"]-back["MZ"])/non_dim/self.lat_ref
-            aero_state["yaw_rate"] = q0
+            aero_state["yaw_rate"] = r0
 
         else:
             aero_state = {"V_mag":10,
@@ -989,6 +992,7 @@ class MachUp:
         cont_deriv = {}
 
         if control_state:
+            control_state = control_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.25
@@ -1224,6 +1228,8 @@ class MachUp:
 
         """
         if aero_state and control_state:
+            aero_state = aero_state.copy()
+            control_state = control_state.copy()
 
             a, de = 0.,0.
             iters = 0.
-- 
2.43.0


From 302fc726009fc3e11c05a5fa2046afa75b4f4561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:13 +0000
Subject: [PATCH 02/24] fix: solve(filename=...) without an aero_state writes
 its results file

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 356a150..a10cfee 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -176,7 +176,7 @@ class MachUp:
             aero_state = {"V_mag":10,
                           "rho":0.0023769,
                           "alpha": 0}
-            total_results = self.solve(aero_state = aero_state,control_state = control_state, prop_state = prop_state)
+            return self.solve(aero_state = aero_state,control_state = control_state, prop_state = prop_state, filename = filename)
 
         if filename:
             results = {
-- 
2.43.0


From 6ffe240cde5116bc1c08dcc1c5bd803ca7448476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:13 +0000
Subject: [PATCH 03/24] fix: stall_airspeed works without aero_state or V_mag
 and forwards error

---
 machup/MU.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index a10cfee..399ec56 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -643,7 +643,7 @@ class MachUp:
             if aero_state:
                 aero0 = aero_state.copy()
                 aero1 = aero_state.copy()
-                x0 = aero0["V_mag"] #airspeed guess
+                x0 = aero0.get("V_mag",10.) #airspeed guess
                 x1 = (x0*1.5)+0.1
                 aero0["V_mag"] = x0
                 aero1["V_mag"] = x1
@@ -674,7 +674,7 @@ class MachUp:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_airspeed_info = self.stall_airspeed(self, weight, aero_state, control_state, prop_state)
+                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state, error = error)
         else:
             if filename:
                 stall_airspeed_info = {"error":"unstallable"}
-- 
2.43.0


From 79537c2729f8dce3e2411c2ce592f4389d2a521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:13 +0000
Subject: [PATCH 04/24] fix: control_derivatives and derivatives work without
 an aero_state

---
 machup/MU.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index 399ec56..857738a 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -991,6 +991,11 @@ class MachUp:
         """
         cont_deriv = {}
 
+        if not aero_state:
+            aero_state = {"V_mag":10,
+                          "rho":0.0023769,
+                          "alpha": 0}
+
         if control_state:
             control_state = control_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
-- 
2.43.0


From 4dcc4aebbfb0b76c2336d8c57c95610beb424ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:13 +0000
Subject: [PATCH 05/24] fix: target_lift works without alpha and forwards error

---
 machup/MU.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 857738a..a577f08 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1132,7 +1132,7 @@ class MachUp:
         if aero_state:
             aero0 = aero_state.copy()
             aero1 = aero_state.copy()
-            x0 = aero0["alpha"] #alpha guess
+            x0 = aero0.get("alpha",0.) #alpha guess
             x1 = (x0*1.5)+0.1
             aero0["alpha"] = x0
             aero1["alpha"] = x1
@@ -1171,7 +1171,7 @@ class MachUp:
                           "rho":0.0023769,
                           "alpha": 0}
 
-            target_state = self.target_lift(L_target, aero_state, control_state, prop_state)
+            target_state = self.target_lift(L_target, aero_state, control_state, prop_state, error = error)
 
         if filename:
             with open(filename, 'w') as outfile:
-- 
2.43.0


From 57acf48b72b3779594b9d463926fed5cbb6bddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:13 +0000
Subject: [PATCH 06/24] fix: pitch_trim forwards filename and error and returns
 the error state it writes

---
 machup/MU.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index a577f08..46c3f2b 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1257,7 +1257,7 @@ class MachUp:
                         trim_state = {'error':'no_elevator'}
                         with open(filename, 'w') as outfile:
                             json.dump(trim_state, outfile,indent = 4)
-                        break
+                        return trim_state
                     else:
                         raise RuntimeError("Unable to trim aircraft because there is no elevator.")
 
@@ -1273,7 +1273,7 @@ class MachUp:
                         trim_state = {'error':'untrimmable'}
                         with open(filename, 'w') as outfile:
                             json.dump(trim_state, outfile,indent = 4)
-                        break
+                        return trim_state
                     else:
                         raise RuntimeError("Unable to trim aircraft. Consider increasing elevator size or moving center of gravity")
 
@@ -1282,12 +1282,12 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         elif control_state:
             aero_state = {"V_mag":10,
                           "rho":0.0023769}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         else:
             aero_state = {"V_mag":10,
@@ -1296,7 +1296,7 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
     def _lift_slope(self,aero_state = None, control_state = None, prop_state = None):
         delta = 0.25
-- 
2.43.0


From efcfa76948ba0784ceca6cca8be06ad45f28d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:41 +0000
Subject: [PATCH 07/24] fix: LLModel.solve without a state no longer reuses the
 previous call's state

---
 machup/llmodel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 812c189..b01c092 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -210,8 +210,9 @@ class LLModel:
 
         else:
             # assume uniform flow in -x direction for now
-            v_local[:, 0] = -10.
-            u_inf[0] = -1.
+            v_local[:] = [-10., 0., 0.]
+            u_inf[:] = [-1., 0., 0.]
+            rho_local[:] = 1.
 
     def _superimpose_rotation(self, state):
         # Calculate velocities due to rotation and superimpose them
@@ -245,6 +246,9 @@ class LLModel:
 
             self._compute_deflection_efficiency()
 
+        else:
+            self._control_data["delta_flap"] = np.zeros(self._num_vortices)
+
     def _compute_deflection_efficiency(self):
         # Compute flap deflection efficiency using linear fit of
         # figure 1.7.5 in Phillips
-- 
2.43.0


From c23e1cbdf008c401ebce049e97fcf6d0770fdc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:41 +0000
Subject: [PATCH 08/24] fix: results and distributions are copies, not the
 solver's live storage

---
 machup/llmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index b01c092..1a29302 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -308,7 +308,7 @@ class LLModel:
             self._setup_linear_matrices()
             self._solve_linear_system()
             self._forces_and_moments()
-            return self._results
+            return {key: dict(value) for key, value in self._results.items()}
         else:
             raise RuntimeError("solver type not yet supported")
 
@@ -625,7 +625,7 @@ class LLModel:
         distributions["section_Cm"] = self.section_cm
         distributions["section_CD_parasitic"] = self.section_cd
         distributions["section_alpha_L0"] = self._grid.get_zero_lift_alpha()
-        return distributions
+        return {key: np.copy(value) for key, value in distributions.items()}
 
 
     def _find_stall_location(self):
-- 
2.43.0


From 493aed828933c6cf87d7c39717c19246830d5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:16 +0000
Subject: [PATCH 09/24] fix: distributions file holds degrees and only this
 call's data, and is closed before it is re-read

---
 machup/MU.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 46c3f2b..3895508 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -310,7 +310,7 @@ class MachUp:
                 ab['dih'] = wd["dihedral"]
                 ab['swp'] = wd["sweep"]
                 ab['are'] = wd["area"]
-                ab['alp'] = wd["alpha"]
+                ab['alp'] = np.degrees(wd["alpha"])
                 ab['f_x'] = wd["forces_xyz"][:,0]
                 ab['f_y'] = wd["forces_xyz"][:,1]
                 ab['f_z'] = wd["forces_xyz"][:,2]
@@ -324,7 +324,7 @@ class MachUp:
                 np.savetxt(filename,ab,fmt= format_string,header = wing_header)
 
             if self.myairplane._props:
-                distrib_file = open(filename, 'ab')
+                distrib_file = open(filename, 'ab' if self.myairplane._wings else 'wb')
                 pd = prop_distributions
 
                 prop_header = "\n\nPropellerDistributions \n{:<16}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}".format(
@@ -361,9 +361,10 @@ class MachUp:
 
                 format_string = "%-18s %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e"
                 np.savetxt(distrib_file,ab,fmt= format_string,header = prop_header)
+                distrib_file.close()
             if filename[-4:] == "json":
-                rawtxtfile = open(filename, "r+")
-                data = rawtxtfile.read()
+                with open(filename, "r") as rawtxtfile:
+                    data = rawtxtfile.read()
                 data = data.replace("\n", "newline")
                 output = {"data":data}
                 with open(filename, 'w') as outfile:
-- 
2.43.0


From fc307bdfe8544780895049de438f45009f027000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:16 +0000
Subject: [PATCH 10/24] fix: propeller solutions no longer start from the
 previous call's state

---
 machup/propmodel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 91c8379..822655f 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -339,6 +339,7 @@ class PropModel:
         self._Vs = np.dot(self._v_xyz*self._Vinf, self._slip_dir)#component of freestream in direction of slipstream
 
     def _set_prop_state(self, prop_state):
+        self._init_speed_vars()
         if prop_state:
             self._solve_from_power = False
             self._solve_from_motor = False
-- 
2.43.0


From 941f56acffdc6c60c24bbd5416b0377cb150ed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:16 +0000
Subject: [PATCH 11/24] fix: cg_location and Airplane position honour explicit
 zeros and arrays

---
 machup/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 3e0ad27..0914a68 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -383,11 +383,11 @@ class Airplane:
             The updated z-coordinate of the center of gravity.
 
         """
-        if x_coord:
+        if x_coord is not None:
             self._cg_loc[0] = x_coord
-        if y_coord:
+        if y_coord is not None:
             self._cg_loc[1] = y_coord
-        if z_coord:
+        if z_coord is not None:
             self._cg_loc[2] = z_coord
 
     def set_reference_lengths(self, lateral = None, longitudinal = None):
@@ -424,7 +424,7 @@ class Airplane:
             Position of Airplane as specified by the user.
         """
         # pylint: disable=unused-argument
-        if self._position:
+        if self._position is not None:
             return self._position
 
         return np.array([0., 0., 0.])
-- 
2.43.0


From 8c7fb5a6ea3583464adb41e9c0fb5c68d530b9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:16 +0000
Subject: [PATCH 12/24] fix: propeller iterations that do not converge raise
 instead of looping forever

---
 machup/propmodel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 822655f..1816755 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -444,6 +444,8 @@ class PropModel:
                 return x2
             if loc[0].size == 0:
                 return x2
+            if i>1000:
+                raise RuntimeError("Unable to solve for propeller induced angle")
 
             x0 = np.copy(x1)
             x1 = np.copy(x2)
@@ -483,7 +485,7 @@ class PropModel:
         if abs(y0)<error:
             return x0
         y1 = self._zero_power_difference(x1)
-        while True:
+        for _ in range(1000):
             #new guess based on secant method
             x2 = x1-((y1*(x1-x0))/(y1-y0))
             #if solution has converged, return results
@@ -494,6 +496,7 @@ class PropModel:
             y0=y1
             x1=x2
             y1=self._zero_power_difference(x1)
+        raise RuntimeError("Unable to find rotation rate for given brake power")
 
     def _zero_power_difference(self,rot_per_sec_est):
         self._rot_per_sec = rot_per_sec_est
@@ -509,7 +512,7 @@ class PropModel:
         if abs(y0)<error:
             return x0
         y1 = self._zero_torque_difference(x1)
-        while True:
+        for _ in range(1000):
             #new guess based on secant method
             x2 = x1-((y1*(x1-x0))/(y1-y0))
             #if solution has converged, return results
@@ -520,6 +523,7 @@ class PropModel:
             y0=y1
             x1=x2
             y1=self._zero_torque_difference(x1)
+        raise RuntimeError("Unable to find rotation rate for given throttle")
 
     def _zero_torque_difference(self,rot_per_sec_est):
         self._rot_per_sec = rot_per_sec_est
-- 
2.43.0


From f39941a8b4ab76352d007423442cef41611d40f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:16 +0000
Subject: [PATCH 13/24] fix: stall_onset and stall_airspeed stop when the
 aircraft cannot stall

---
 machup/MU.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 3895508..e420f85 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -575,11 +575,17 @@ class MachUp:
                         stall_info["lift"] = results["FL"]
                         break
                     a+=0.1
+                    if a>90.:
+                        if filename:
+                            stall_info = {"error":"unstallable"}
+                            break
+                        else:
+                            raise RuntimeError("Model does not stall below 90 degrees angle of attack")
             else:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_info = self.stall_onset(aero_state,control_state,prop_state)
+                stall_info = self.stall_onset(aero_state,control_state,prop_state,filename)
 
         else:
             if filename:
@@ -654,6 +660,7 @@ class MachUp:
                 y0 = stall_info0["lift"]-weight #difference between max lift and weight
                 y1 = stall_info1["lift"]-weight
 
+                iters = 0
                 while True:
                     #new guess based on secant method
                     x2 = x1-((y1*(x1-x0))/(y1-y0))
@@ -671,11 +678,18 @@ class MachUp:
                     aero1["V_mag"] = x1
                     stall_info1 = self.stall_onset(aero1,control_state,prop_state)
                     y1=stall_info1["lift"]-weight
+                    iters += 1
+                    if iters>100:
+                        if filename:
+                            stall_airspeed_info = {"error":"unstallable"}
+                            break
+                        else:
+                            raise RuntimeError("Unable to find stall airspeed")
             else:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state, error = error)
+                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state, filename, error)
         else:
             if filename:
                 stall_airspeed_info = {"error":"unstallable"}
-- 
2.43.0


From dd1f7f63685cdfcc9df62b11b4e56d2c0f1628e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:16 +0000
Subject: [PATCH 14/24] fix: airfoil names that are not NACA 4-digit use the
 default STL section

---
 machup/outputstl.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index bb24145..b05a627 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -43,14 +43,12 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
             left_name = left_airfoil.get_name()
             right_name = right_airfoil.get_name()
         
-            if left_name[:4] == 'NACA' or left_name[:4] == 'naca':
-                if len(left_name) == 8:
-                    left_NACA = left_name[4:]
+            if left_name[:4] in ('NACA', 'naca') and len(left_name) == 8:
+                left_NACA = left_name[4:]
             else: left_NACA = '2412'
                     
-            if right_name[:4] == 'NACA' or right_name[:4] == 'naca':
-                if len(right_name) == 8:
-                    right_NACA = right_name[4:]
+            if right_name[:4] in ('NACA', 'naca') and len(right_name) == 8:
+                right_NACA = right_name[4:]
             else: right_NACA = '2412'
 
             left_X,left_Z = plotNACA(left_NACA,n)
@@ -108,9 +106,8 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
                 af_loc.append(airfoil[0])
                 af = airfoil[1]
                 name = af.get_name()
-                if name[:4] == 'NACA' or name[:4] == 'naca':
-                    if len(name) == 8:
-                        NACA = name[4:]
+                if name[:4] in ('NACA', 'naca') and len(name) == 8:
+                    NACA = name[4:]
                 else: NACA = '2412'
                 X,Z = plotNACA(NACA,n)
                 X_list.append(X)
-- 
2.43.0


From ca953650dc34d7dd03ee0e64cb99b7e6ff36436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:16 +0000
Subject: [PATCH 15/24] fix: airplane files may omit is_main as wings built in
 code may

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 0914a68..996d792 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -127,7 +127,7 @@ class Airplane:
                              position=[wing_dict["connect"]["dx"],
                                        wing_dict["connect"]["dy"],
                                        wing_dict["connect"]["dz"]],
-                             is_main = wing_dict["is_main"],
+                             is_main = wing_dict.get("is_main", 1),
                              yoffset=wing_dict["connect"]["yoffset"],
                              semispan=wing_dict["span"],
                              sweep=wing_dict["sweep"],
-- 
2.43.0


From a82b0a6ec067c388c7723c84eebac5c7017390f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:16 +0000
Subject: [PATCH 16/24] fix: section coefficients are defined at zero and at
 stall angle of attack

---
 machup/propmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 1816755..590944e 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -1277,7 +1277,7 @@ class PropModel:
 
         CL = np.empty_like(alpha)
         neg = np.where(alpha<0)
-        pos = np.where(alpha>0)
+        pos = np.where(alpha>=0)
 
         #Corrigan Stall Delay
         a_less_dA_p = alpha[pos]-self._dA[pos]
@@ -1313,8 +1313,8 @@ class PropModel:
         ca = np.cos(alpha)
         sa = np.sin(alpha)
         pre_stall = np.where((alpha<self._delay_a_stall) & (alpha>self._delay_a_stall_neg))
-        stall_pos = np.where(alpha>self._delay_a_stall)
-        stall_neg = np.where(alpha<self._delay_a_stall_neg)
+        stall_pos = np.where(alpha>=self._delay_a_stall)
+        stall_neg = np.where(alpha<=self._delay_a_stall_neg)
         CD[pre_stall] = self._CD_0[pre_stall]+self._CD_L[pre_stall]*CL[pre_stall]+self._CD_L2[pre_stall]*CL[pre_stall]*CL[pre_stall]
         CD[stall_pos] = self._B1*sa[stall_pos]*sa[stall_pos]+self._B2[stall_pos]*ca[stall_pos]
         CD[stall_neg] = self._B1*np.sin(-alpha[stall_neg])**2+self._B2_neg[stall_neg]*np.cos(-alpha[stall_neg])
-- 
2.43.0


From c40e9742cedfca4931920e457b2d9088f3708df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:17 +0000
Subject: [PATCH 17/24] fix: propeller totals of thrust and torque include
 every propeller

---
 machup/propssolver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/machup/propssolver.py b/machup/propssolver.py
index 6853958..1bf8dbc 100644
--- a/machup/propssolver.py
+++ b/machup/propssolver.py
@@ -70,6 +70,8 @@ class PropsSolver:
     def _calc_forces(self,aero_state = None,prop_state = None):
         self._F = np.zeros(3)
         self._M = np.zeros(3)
+        T_total = 0.
+        l_total = 0.
 
         self._results = {
             "total":{}
@@ -91,6 +93,8 @@ class PropsSolver:
             F,M,T,l = pm._calc_forces()
             self._F += F
             self._M += M
+            T_total += T
+            l_total += l
 
         lift,drag,side = self._rotate_aero_forces(self._F,aero_state)
 
@@ -103,8 +107,8 @@ class PropsSolver:
         self._results["total"]['MX'] = self._M[0]
         self._results["total"]['MY'] = self._M[1]
         self._results["total"]['MZ'] = self._M[2]
-        self._results["total"]['Thrust'] = T
-        self._results["total"]['Torque'] = l
+        self._results["total"]['Thrust'] = T_total
+        self._results["total"]['Torque'] = l_total
 
         return self._results
 
-- 
2.43.0


From ab4d5adca8abb412bb89b89f419d2658505a5caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:17 +0000
Subject: [PATCH 18/24] fix: airplanes built without an input file have no
 units

---
 machup/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machup/geometry.py b/machup/geometry.py
index 996d792..4fbc995 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -68,6 +68,7 @@ class Airplane:
         self._cg_loc = np.zeros(3)
         self._long_ref = None
         self._lat_ref = None
+        self._units = None
         self._position = position
         self._connections = {}
 
-- 
2.43.0


From b1ba9927baae2593a8a9181c52469d92799dc3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:38 +0000
Subject: [PATCH 19/24] fix: invalid airfoil location and prop rotation
 direction are rejected

---
 machup/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 4fbc995..7a05b6e 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -784,6 +784,8 @@ class WingSegment:
             self._root_airfoil = airfoil
         elif end == "tip":
             self._tip_airfoil = airfoil
+        else:
+            raise RuntimeError(str(end)+" is not a valid airfoil location")
 
     def control_surface(self, control_surface):
         """Set the control surface for the wing segment.
@@ -1187,10 +1189,10 @@ class Prop:
         """
         if self._rot_dir == "CCW" or self._rot_dir =="ccw" or self._rot_dir == 1.:
             return 1.
-        elif self._rot_dir == "CW" or self._rot_dir =="cw" or self._rot_dir == -1.:
+        elif self._rot_dir == "CW" or self._rot_dir =="cw" or self._rot_dir == -1. or self._rot_dir == 0:
             return -1
         else: 
-            return 1.
+            raise RuntimeError(str(self._rot_dir)+" is not a valid direction of rotation")
 
     def get_airfoils(self):
         """Get the root and tip Airfoil of the propeller.
-- 
2.43.0


From a3f4d2f640b74a242890b240aad409eb5df2df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:07 +0000
Subject: [PATCH 20/24] fix: PropsSolver.solve without a flight state uses the
 default one

---
 machup/propssolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/machup/propssolver.py b/machup/propssolver.py
index 1bf8dbc..2e2f02c 100644
--- a/machup/propssolver.py
+++ b/machup/propssolver.py
@@ -113,6 +113,8 @@ class PropsSolver:
         return self._results
 
     def _rotate_aero_forces(self,F,aero_state):
+        if not aero_state:
+            aero_state = {}
         a = m.radians(aero_state.get("alpha",0.))
         b = m.radians(aero_state.get("beta",0.))
         ca = m.cos(a)
-- 
2.43.0


From 88471331afd5a44ef798621da5ddd91354b676f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:58 +0000
Subject: [PATCH 21/24] fix: a propeller aligned with the flow no longer fails
 on rounding of the incidence cosine

---
 machup/propmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 590944e..9eb83fe 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -1553,4 +1553,4 @@ class PropModel:
         d,e,f = v2
         dot = a*d+b*e+c*f
         mag = m.sqrt(a*a+b*b+c*c)*m.sqrt(d*d+e*e+f*f)
-        return m.acos(dot/mag)
+        return m.acos(max(-1.,min(1.,dot/mag)))
-- 
2.43.0


From f6f839ed6a34ab4c91cbf5a6ebf44d39e882e4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:49 +0000
Subject: [PATCH 22/24] fix: wings may be listed before the wing they are
 connected to

---
 machup/geometry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 7a05b6e..47c8828 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -92,6 +92,10 @@ class Airplane:
                 self._map_wing_connections(data["wings"])
                 for wing_key, wing_dict in data["wings"].items():
                     self._add_wing_from_inputfile(wing_key, wing_dict)
+                # a wing may be listed before the one it is connected to
+                for wing_key, (parent, at) in self._connections.items():
+                    if parent:
+                        self._wings[wing_key].connect_to(self._wings[parent], at)
             if "propellers" in data:
                 for prop_key, prop_dict in data["propellers"].items():
                     self._add_prop_from_inputfile(prop_key, prop_dict)
@@ -108,11 +112,10 @@ class Airplane:
 
     def _map_wing_connections(self, wings_dict):
         # Create a map of wing_name to parent name and connect location.
-        id_map = {}
+        id_map = {wing_dict["ID"]: wing_name
+                  for wing_name, wing_dict in wings_dict.items()}
         connections = self._connections
         for wing_name, wing_dict in wings_dict.items():
-            id_map[wing_dict["ID"]] = wing_name
-
             parent_id = wing_dict["connect"]["ID"]
             if parent_id == 0:
                 connections[wing_name] = (None, 'tip')
@@ -123,7 +126,6 @@ class Airplane:
     def _add_wing_from_inputfile(self, wing_name, wing_dict):
         # parses inputfile and adds corresponding wing
         wing = self.add_wing(wing_name,
-                             connect_to=self._connections[wing_name],
                              side=wing_dict["side"],
                              position=[wing_dict["connect"]["dx"],
                                        wing_dict["connect"]["dy"],
-- 
2.43.0


From 6bc2af2e8a179c0f4b3bdd25f37d98afc927f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:02 +0000
Subject: [PATCH 23/24] fix: mean-line slope of NACA sections behind the
 maximum camber in the STL surface

---
 machup/outputstl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index b05a627..e3dc861 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -226,7 +226,7 @@ def plotNACA(airfoil,n):
         Yc_x = np.copy(Yc)
     else:
         Yc = np.where(Xc<p,(m/(p*p))*(2*p*Xc-Xc*Xc),(m/((1-p)**2))*((1-2*p)+2*p*Xc-Xc*Xc))
-        Yc_x = np.where(Xc<p,(2*m/(p*p))*(p-Xc),(m/(1-p)**2)*(p-Xc))
+        Yc_x = np.where(Xc<p,(2*m/(p*p))*(p-Xc),(2*m/(1-p)**2)*(p-Xc))
 
     Yul = Yc+(Yt*np.cos(np.arctan(Yc_x))*np.sign(theta))
     Xul = Xc-(Yt*np.sin(np.arctan(Yc_x))*np.sign(theta))
-- 
2.43.0


From 407521468af2be4a157682f8720f7d6eb3418842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:02 +0000
Subject: [PATCH 24/24] fix: propeller blades in the STL surface are drawn at
 their geometric pitch

---
 machup/outputstl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index e3dc861..ffd3ea9 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -157,7 +157,7 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
             Coords = np.zeros((num_nodes,n,3))
             Coords[:,:,0] = -Z_coords
             Coords[:,:,1] =  X_coords*rot_dir
-            twist = prop.get_aero_pitch_angle()-prop.get_zero_lift_alpha()
+            twist = prop.get_aero_pitch_angle()+prop.get_zero_lift_alpha()
             e = Euler2Quat((0.,0.,-rot_dir*twist))
             e = np.transpose(e)
 
-- 
2.43.0

