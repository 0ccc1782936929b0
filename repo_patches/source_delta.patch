From fbd494698ced5f347f83e888dccf13e5b053e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:08 +0000
Subject: [PATCH 01/49] fix: HexNum port conduction used the conductivity of a
 foreign cell

The fluid conductivity array of HexNum has two columns while the port
indices address the three-column cell layout, so the flat lookup returned
another cell's value (or wrapped around).
---
 multisim/_precompiled/precomp_funs.py | 12 ++++++++++--
 multisim/precomp_funs.py              | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/multisim/_precompiled/precomp_funs.py b/multisim/_precompiled/precomp_funs.py
index 84c2197..3c94b5a 100644
--- a/multisim/_precompiled/precomp_funs.py
+++ b/multisim/_precompiled/precomp_funs.py
@@ -2725,6 +2725,10 @@ def hexnum_diff(
 
     specific_inner_energy_wll(T_wll=T_ext[1:-1, 2], cp_wll=cp_wll, ui=ui[:, 1])
 
+    # conductivity in the cell layout of the port indices (fluid, wall, fluid):
+    lam_T = np.zeros(mcp.shape)
+    lam_T[:, ::2] = lam_fld
+
     dT_cond_port = _process_ports_collapsed(
         ports_all=ports_all,
         port_link_idx=port_link_idx,
@@ -2736,7 +2740,7 @@ def hexnum_diff(
         A_p_fld_mean=A_p_fld_mean,
         port_gsp=port_gsp,
         grid_spacing=grid_spacing,
-        lam_T=lam_fld,
+        lam_T=lam_T,
         cp_port=cp_port,
         lam_port_fld=lam_port_fld,
         T_port=T_port,
@@ -3120,6 +3124,10 @@ def hexnum_diff_impl(
 
     specific_inner_energy_wll(T_wll=T_ext[1:-1, 2], cp_wll=cp_wll, ui=ui[:, 1])
 
+    # conductivity in the cell layout of the port indices (fluid, wall, fluid):
+    lam_T = np.zeros(mcp.shape)
+    lam_T[:, ::2] = lam_fld
+
     dT_cond_port = _process_ports_collapsed(
         ports_all=ports_all,
         port_link_idx=port_link_idx,
@@ -3131,7 +3139,7 @@ def hexnum_diff_impl(
         A_p_fld_mean=A_p_fld_mean,
         port_gsp=port_gsp,
         grid_spacing=grid_spacing,
-        lam_T=lam_fld,
+        lam_T=lam_T,
         cp_port=cp_port,
         lam_port_fld=lam_port_fld,
         T_port=T_port,
diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 84c2197..3c94b5a 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -2725,6 +2725,10 @@ def hexnum_diff(
 
     specific_inner_energy_wll(T_wll=T_ext[1:-1, 2], cp_wll=cp_wll, ui=ui[:, 1])
 
+    # conductivity in the cell layout of the port indices (fluid, wall, fluid):
+    lam_T = np.zeros(mcp.shape)
+    lam_T[:, ::2] = lam_fld
+
     dT_cond_port = _process_ports_collapsed(
         ports_all=ports_all,
         port_link_idx=port_link_idx,
@@ -2736,7 +2740,7 @@ def hexnum_diff(
         A_p_fld_mean=A_p_fld_mean,
         port_gsp=port_gsp,
         grid_spacing=grid_spacing,
-        lam_T=lam_fld,
+        lam_T=lam_T,
         cp_port=cp_port,
         lam_port_fld=lam_port_fld,
         T_port=T_port,
@@ -3120,6 +3124,10 @@ def hexnum_diff_impl(
 
     specific_inner_energy_wll(T_wll=T_ext[1:-1, 2], cp_wll=cp_wll, ui=ui[:, 1])
 
+    # conductivity in the cell layout of the port indices (fluid, wall, fluid):
+    lam_T = np.zeros(mcp.shape)
+    lam_T[:, ::2] = lam_fld
+
     dT_cond_port = _process_ports_collapsed(
         ports_all=ports_all,
         port_link_idx=port_link_idx,
@@ -3131,7 +3139,7 @@ def hexnum_diff_impl(
         A_p_fld_mean=A_p_fld_mean,
         port_gsp=port_gsp,
         grid_spacing=grid_spacing,
-        lam_T=lam_fld,
+        lam_T=lam_T,
         cp_port=cp_port,
         lam_port_fld=lam_port_fld,
         T_port=T_port,
-- 
2.43.0


From 06daf0305f64683d6463e29a239fd2c2885f5180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:50 +0000
Subject: [PATCH 02/49] fix: in-memory result arrays were enlarged without
 renewing the references to them

---
 multisim/simenv.py | 47 +++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index fc4e648..6e2162e 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5298,28 +5298,37 @@ class SimEnv:
                 self._solver_state, arr_to_append, axis=0
             )
             # loop over parts:
-            for part in self.parts:
-                # for all parts:
-                self.parts[part].res_dm = np.append(
-                    self.parts[part].res_dm,
-                    np.zeros(
-                        (
-                            self.__base_num_steps,
-                            self.parts[part].res_dm.shape[1],
-                        )
-                    ),
-                    axis=0,
-                )
-                self.parts[part].res = np.append(
-                    self.parts[part].res,
-                    np.zeros(
-                        (self.__base_num_steps, self.parts[part].res.shape[1])
-                    ),
-                    axis=0,
-                )
+            for part in self.parts.values():
+                # for all parts (special result arrays only where existing):
+                for res_arr in (
+                    'res_dm',
+                    'res',
+                    'res_dQ',
+                    'res_Pel',
+                    'res_Pgas',
+                    '_chp_state',
+                ):
+                    old_res = getattr(part, res_arr, None)
+                    if old_res is None:
+                        continue
+                    setattr(
+                        part,
+                        res_arr,
+                        np.append(
+                            old_res,
+                            np.zeros(
+                                (self.__base_num_steps,) + old_res.shape[1:]
+                            ),
+                            axis=0,
+                        ),
+                    )
 
             # set numer of needed steps to new amount:
             self.num_steps = self.time_vec.size - 1
+            # the result arrays were replaced, thus renew all references:
+            self._create_diff_inputs()
+            self._create_port_updater()
+            self._prep_inputs_for_njits()
         else:  # if saving to disk as HDFstore
             with pd.HDFStore(self._disk_store['path_tmp'], mode='r+') as store:
                 # index for hdf store
-- 
2.43.0


From a0711f7dbf37706c66724b1bee5674f1b563380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:34 +0000
Subject: [PATCH 03/49] fix: setpoint offset of a reference part was read from
 an argument nobody passes

---
 multisim/controls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/controls.py b/multisim/controls.py
index 3aeb346..37a0e31 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -295,7 +295,7 @@ class Controls:
             assert 'ref_SP_diff' in kwargs and isinstance(
                 kwargs['ref_SP_diff'], (int, float)
             ), err_str
-            self._ref_diff = float(kwargs['difference_to_ref'])
+            self._ref_diff = float(kwargs['ref_SP_diff'])
 
         # ---> CHECK CTRL ALGORITHMS
         # check if actuator definetely needs a special control (all actuators
-- 
2.43.0


From 8235f1d7cf45702ae691403eec6a7a57c038ae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:34 +0000
Subject: [PATCH 04/49] fix: discrete PID controllers ignored inverted action

---
 multisim/parts/controllers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 691996b..9e2446c 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -422,9 +422,12 @@ class PID(Controls):
                 # calculate new control variable with velocity algorithm:
                 self.cv = (
                     self._prev_cv_lim
-                    + self.kp * (self.error - self.prev_error)
-                    + self.ki * timestep * self.error
-                    + self.kd / timestep * self._deriv
+                    + (
+                        self.kp * (self.error - self.prev_error)
+                        + self.ki * timestep * self.error
+                        + self.kd / timestep * self._deriv
+                    )
+                    * self._invert
                 )
             else:
                 # else if no integral term, use standard P/PD algorithm
@@ -448,7 +451,7 @@ class PID(Controls):
                 # with euler backwards differentiation for derivate term:
                 self.cv = (
                     self.kp * self.error + self.kd / timestep * self._deriv
-                )
+                ) * self._invert
             # clip cv value to saturation:
             self._clip_cv_to_saturation()
         else:  # calculate controller output for a continuous time system
-- 
2.43.0


From b0ac035915bc84b1e296120d042bf15f9d1c68ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:34 +0000
Subject: [PATCH 05/49] fix: inverted on/off controllers flipped the sign of
 the held output every step

---
 multisim/parts/controllers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 9e2446c..d6a0b61 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -537,6 +537,8 @@ class BangBang(Controls):
         self.prev_i_term = 0.0
 
     def run_controller(self, timestep):
+        # revert inversion of the kept CV (it is inverted again below):
+        self._cv_invert()
         if self.pv < (self.sp - self._hysteresis / 2):
             if self._reversed:  # reversed action
                 self.cv = self._off_state  # switch off (to off state)
@@ -639,6 +641,8 @@ class TwoSensors(Controls):
         self.prev_i_term = 0.0
 
     def run_controller(self, timestep):
+        # revert inversion of the kept CV (it is inverted again below):
+        self._cv_invert()
         # controller activation
         if self._act_sgn == 'le':
             if self.on_sensor_val[0] < self._act_val:
-- 
2.43.0


From 785fcc94d1b1380cd1b076baaa2fb42bac30f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:35 +0000
Subject: [PATCH 06/49] fix: integral of a PID controller survived a reset to
 initial conditions

---
 multisim/parts/controllers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index d6a0b61..d634b49 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -370,6 +370,7 @@ class PID(Controls):
         self.error = 0.0
         self.prev_error = 0.0
         self.prev2_error = 0.0
+        self.i_term = 0.0
         self.prev_i_term = 0.0
 
     def run_controller(self, timestep):
-- 
2.43.0


From f065c36d2d9d189918c539ec8a036d33bd0d75a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:19 +0000
Subject: [PATCH 07/49] fix: r_squared relates each column to its own total sum
 of squares

---
 multisim/_utility/stat_error_measures.py | 2 +-
 multisim/utility_functions.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/_utility/stat_error_measures.py b/multisim/_utility/stat_error_measures.py
index 19d4a3e..dbf814b 100644
--- a/multisim/_utility/stat_error_measures.py
+++ b/multisim/_utility/stat_error_measures.py
@@ -40,7 +40,7 @@ def r_squared(y, y_hat):
     elif y_hat.ndim > 2:
         raise ValueError
     ss_res = ((y - y_hat) ** 2).sum(axis=0)  # residuals
-    ss_tot = ((y - y.mean(axis=0)) ** 2).sum()  # total sum of squares
+    ss_tot = ((y - y.mean(axis=0)) ** 2).sum(axis=0)  # total sum of sqrs
     return 1 - ss_res / ss_tot
 
 
diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 047ab30..fac3c59 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -705,7 +705,7 @@ def r_squared(y, y_hat):
     elif y_hat.ndim > 2:
         raise ValueError
     ss_res = ((y - y_hat) ** 2).sum(axis=0)  # residuals
-    ss_tot = ((y - y.mean(axis=0)) ** 2).sum()  # total sum of squares
+    ss_tot = ((y - y.mean(axis=0)) ** 2).sum(axis=0)  # total sum of sqrs
     return 1 - ss_res / ss_tot
 
 
-- 
2.43.0


From 280f565306c4c00409eaa9c7a7c1132ab7d3cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:19 +0000
Subject: [PATCH 08/49] fix: r_squared_adj works on data: no breakpoint, one
 value per column

---
 multisim/_utility/stat_error_measures.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/multisim/_utility/stat_error_measures.py b/multisim/_utility/stat_error_measures.py
index dbf814b..b04b43e 100644
--- a/multisim/_utility/stat_error_measures.py
+++ b/multisim/_utility/stat_error_measures.py
@@ -87,13 +87,12 @@ def r_squared_adj(p, r_sqrd=None, n=None, y=None, y_hat=None):
             'If `r_sqrd` is not given, `y` and `y_hat` must be given and'
             '`n` must not be given.'
         )
-        breakpoint()
         print('false! n must be of the training data set!!!')
         print('also avoid printing R for p>n! raise error!')
         r_sqrd = r_squared(y, y_hat)  # get R^2
         n = y_hat.shape[0]  # get number of samples
     # set r2 range correctly (-inf -> 1. or -inf ->100.)
-    max_r2 = 1.0 if r_sqrd <= 1.0 else 100.0
+    max_r2 = np.where(np.asarray(r_sqrd) <= 1.0, 1.0, 100.0)
     # get adjusted r_sqrd
     r_sqrd_adj = max_r2 - (max_r2 - r_sqrd) * (n - 1) / (n - p - 1)
     return r_sqrd_adj
-- 
2.43.0


From 8696a9868f0777a402cd9d8d99a09861598b1876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 09/49] fix: volume flow meters check their name against volume
 flow meters

---
 multisim/_utility/meters.py   | 2 +-
 multisim/utility_functions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index 8f1e691..d26aa88 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -307,7 +307,7 @@ class Meters:
             '`name=' + str(name) + '` has already been assigned to another '
             'massflow sensor.'
         )
-        assert name not in self.meters['massflow'], err_str
+        assert name not in self.meters['volumeflow'], err_str
 
         df = pd.DataFrame(index=self._time_index)  # make dataframe
         # get volumeflow
diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index fac3c59..2fd1140 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -2742,7 +2742,7 @@ class Meters:
             '`name=' + str(name) + '` has already been assigned to another '
             'massflow sensor.'
         )
-        assert name not in self.meters['massflow'], err_str
+        assert name not in self.meters['volumeflow'], err_str
 
         df = pd.DataFrame(index=self._time_index)  # make dataframe
         # get volumeflow
-- 
2.43.0


From 1bbf24bfe4f6abd0a056b1dc2b4e66abb0e1da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:07 +0000
Subject: [PATCH 10/49] fix: look up the pipe specs of single ports by column

---
 multisim/simenv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 6e2162e..9f9d761 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -3640,12 +3640,12 @@ class SimEnv:
                     if get_from_table:
                         self._A_wll_own_p[
                             trgt_idx
-                        ] = self._models._pipe_specs.loc[pipe_type, DN][
+                        ] = self._models._pipe_specs[pipe_type, DN][
                             'A_wall'
                         ]
                         self._A_fld_own_p[
                             trgt_idx
-                        ] = self._models._pipe_specs.loc[pipe_type, DN]['A_i']
+                        ] = self._models._pipe_specs[pipe_type, DN]['A_i']
                     else:
                         self._A_wll_own_p[trgt_idx] = value['A_wall']
                         self._A_fld_own_p[trgt_idx] = value['A_i']
@@ -3658,7 +3658,7 @@ class SimEnv:
                             'pipe_type': pipe_type,
                             'DN': DN,
                             'pipe_specs': (
-                                self._models._pipe_specs.loc[pipe_type, DN]
+                                self._models._pipe_specs[pipe_type, DN]
                             )
                             if get_from_table
                             else value,
-- 
2.43.0


From 358da58f56d58bdac4510cf99a4597fae2a738a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:27 +0000
Subject: [PATCH 11/49] fix: thermal storage rejects a volume or grid that is
 not positive

---
 multisim/parts/tes.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/multisim/parts/tes.py b/multisim/parts/tes.py
index f1709c4..36949a2 100644
--- a/multisim/parts/tes.py
+++ b/multisim/parts/tes.py
@@ -124,8 +124,16 @@ class Tes(SimEnv):
             'Please check the spelling!'
         )
         # assert that all required arguments have been passed:
+        assert kwargs['volume'] > 0, (
+            self._base_err
+            + self._arg_err.format('volume')
+            + self._aae['volume']
+        )
         self.V_tes = float(kwargs['volume'])
-        assert isinstance(kwargs['grid_points'], int), (
+        assert (
+            isinstance(kwargs['grid_points'], int)
+            and kwargs['grid_points'] > 0
+        ), (
             self._base_err
             + self._arg_err.format('grid_points')
             + self._aae['grid_points']
@@ -148,7 +156,9 @@ class Tes(SimEnv):
         )
         self._d_shell = float(kwargs['shell_thickness'])
         assert self._d_shell < 1, (
-            'A shell thickness of ' + self._d_shell + ' is highly unlikely! '
+            'A shell thickness of '
+            + str(self._d_shell)
+            + ' is highly unlikely! '
             'Are you sure that you passed it in [m]?'
         )
 
-- 
2.43.0


From 8ead618e27c43d94ab44a51a465d4df180684621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:24 +0000
Subject: [PATCH 12/49] fix: massflow of a pipe with pump was zero after a
 reset to initial conditions

---
 multisim/parts/pipe_with_pump.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/multisim/parts/pipe_with_pump.py b/multisim/parts/pipe_with_pump.py
index f415ad1..4a2f2d9 100644
--- a/multisim/parts/pipe_with_pump.py
+++ b/multisim/parts/pipe_with_pump.py
@@ -105,9 +105,9 @@ class PipeWithPump(Pipe):
             isinstance(start_massflow, (int, float)) and 0 <= start_massflow
         ), err_str
         self.dm[0] = start_massflow
-        self._dm_init = start_massflow  # bkp for re-initializing
 
         self._initialize_actuator(**kwds)
+        self._dm_init = self.dm[0]  # bkp for re-initializing
         if ('ctrl_required' not in kwds) or kwds['ctrl_required']:
             assert 'maximum_flow' in kwds and isinstance(
                 kwds['maximum_flow'], (int, float)
@@ -124,6 +124,10 @@ class PipeWithPump(Pipe):
             )
             self._flow_at_max_speed = kwds['maximum_flow']
 
+    def _reset_to_init_cond(self):
+        super()._reset_to_init_cond()
+        self.dm[0] = self._dm_init
+
     def _get_flow_routine(  # overwrite the pipe method with the pump method
         self, port, parent_port=None, subnet=False, **kwargs
     ):
-- 
2.43.0


From 7801e21cac766a8969a3f696fee71d4e6e61ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:48 +0000
Subject: [PATCH 13/49] fix: resetting a pipe or storage zeroed the massflow it
 shares with its pump

---
 multisim/parts/pipe.py | 3 ++-
 multisim/parts/tes.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/multisim/parts/pipe.py b/multisim/parts/pipe.py
index 525a648..cbe40d2 100644
--- a/multisim/parts/pipe.py
+++ b/multisim/parts/pipe.py
@@ -497,7 +497,8 @@ class Pipe(SimEnv):
         self.initialized = True
 
     def _reset_to_init_cond(self):
-        self._dm_io[:] = 0
+        # massflows are shared with the actuators of the flow net, which reset
+        # them themselves
         self.T[:] = self._T_init
 
     def _get_flow_routine(
diff --git a/multisim/parts/tes.py b/multisim/parts/tes.py
index 36949a2..f6f226f 100644
--- a/multisim/parts/tes.py
+++ b/multisim/parts/tes.py
@@ -633,7 +633,8 @@ class Tes(SimEnv):
         self.initialized = True
 
     def _reset_to_init_cond(self):
-        self._dm_io[:] = 0
+        # massflows are shared with the actuators of the flow net, which reset
+        # them themselves
         self.T[:] = self._T_init
 
     def __add_ports(self, **kwargs):
-- 
2.43.0


From a5fa79ec14fc380f914463954d58236d94a77bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:41 +0000
Subject: [PATCH 14/49] fix: opening of a pipe with three-way valve survived a
 reset to initial conditions

---
 multisim/parts/pipe_with_valve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/multisim/parts/pipe_with_valve.py b/multisim/parts/pipe_with_valve.py
index 57a12d2..80683df 100644
--- a/multisim/parts/pipe_with_valve.py
+++ b/multisim/parts/pipe_with_valve.py
@@ -180,17 +180,21 @@ class PipeWith3wValve(Pipe):
         ), err_str
         self.pf_arr[0] = start_portA_opening
         self.pf_arr[1] = 1 - self.pf_arr[0]
-        self._pf_arr_init = self.pf_arr.copy()  # bkp for re-initializing
 
         # initialize the actuator
         self._initialize_actuator(**kwargs)
 
         # expand const var to other ports:
         self._actuator_CV[1] = 1 - self._actuator_CV[0]
+        self._pf_arr_init = self.pf_arr.copy()  # bkp for re-initializing
 
         # add massflow grid argument to input args at correct position:
         self._input_arg_names_sorted.insert(6, 'dm')
 
+    def _reset_to_init_cond(self):
+        super()._reset_to_init_cond()
+        self.pf_arr[:] = self._pf_arr_init
+
     def _get_flow_routine(
         self, port, parent_port=None, subnet=False, **kwargs
     ):
-- 
2.43.0


From af5d585c64bdc1c7fbdf480a15af6aae543bc3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:05 +0000
Subject: [PATCH 15/49] fix: heating rate of a heated pipe survived a reset to
 initial conditions

---
 multisim/parts/heated_pipe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multisim/parts/heated_pipe.py b/multisim/parts/heated_pipe.py
index 6a2292c..dd50946 100644
--- a/multisim/parts/heated_pipe.py
+++ b/multisim/parts/heated_pipe.py
@@ -191,6 +191,10 @@ class HeatedPipe(Pipe):
         # since this part is a subclass of Pipe, call init_part of Pipe:
         super().init_part(**kwargs)
 
+    def _reset_to_init_cond(self):
+        super()._reset_to_init_cond()
+        self._dQ_heating[:] = 0.0
+
     def _special_array_init(self, num_steps):
         self.res_dQ = np.zeros((num_steps + 1,) + self._dQ_heating.shape)
 
-- 
2.43.0


From 50166455538d59fe230f2669bb82a094a30230bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:47 +0000
Subject: [PATCH 16/49] fix: delayed process values of a PID controller
 survived a reset to initial conditions

---
 multisim/parts/controllers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index d634b49..79c3496 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -372,6 +372,12 @@ class PID(Controls):
         self.prev2_error = 0.0
         self.i_term = 0.0
         self.prev_i_term = 0.0
+        # deadtime memory
+        self.dt_arr[:] = 0.0
+        self.pv_arr[:] = 25
+        self.dt_idx = 0
+        self.last_dt_idx = 0
+        self.delayed_pv = 25
 
     def run_controller(self, timestep):
         """
-- 
2.43.0


From 94af02487d18aa193059e21cd085c3119a095bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:35 +0000
Subject: [PATCH 17/49] fix: CHP plant could not be simulated again after a
 reset (state vector grew a dimension)

---
 multisim/parts/chp_plant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index 6327128..c252c68 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -562,7 +562,7 @@ class CHPPlant(Pipe):
         self.res_dQ = np.zeros((num_steps + 1,) + self._dQ_heating.shape)
         self.res_Pel = np.zeros((num_steps + 1,) + self._Pel.shape)
         self.res_Pgas = np.zeros((num_steps + 1,) + self._Pgas.shape)
-        self._chp_state = np.zeros((num_steps + 1,) + self._chp_state.shape)
+        self._chp_state = np.zeros((num_steps + 1, 1))
 
     def __deprecated_special_free_memory(
         self, disk_store, part, array_length, hdf_idx, stepnum
-- 
2.43.0


From d357f8b0cca50dcc833c3db59577b78e06677c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:46 +0000
Subject: [PATCH 18/49] fix: operating state of a CHP plant survived a reset to
 initial conditions

---
 multisim/parts/chp_plant.py | 97 +++++++++++++++++++++----------------
 1 file changed, 56 insertions(+), 41 deletions(-)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index c252c68..dc0e9a5 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -263,53 +263,15 @@ class CHPPlant(Pipe):
         self._Pgas = np.zeros(1, dtype=np.float64)
         self.res_Pgas = np.zeros(1, dtype=np.float64)
 
-        # checker if chp plant is on, in startup, value for time passed since
-        # startup, value for time passed since shutoff,
-        # time in [s] to account for remaining heat after a recent shutdown,
-        # array for current modulation of CHP plant
-        self._chp_on = False
+        # state to start from, array for current modulation of CHP plant
+        self._chp_on_at_start = chp_on_at_start
         self._chp_state = np.zeros(1, dtype=np.bool)  # vector to save states
-        self._shutdown_in_progress = False
-        self._startup_duration = 0.0
-        self._off_duration = 0.0
-        self._startup_at_time = 0
-        # has never been switched on. min off time -1 to enable switching on
-        # at the start of the sim.
-        self._shutdown_at_time = -self._min_off_time - 1.0
-        self._remaining_heat = 0.0
         self._power_modulation = np.zeros(1, dtype=np.float64)
-        # max. overtemperature time. dt is the consecutive time since first
-        # overtemp., max_temp_exc_time the maximum time allowed before shutdown
-        self._dt_time_temp_exc = 0.0
         # TODO: print('das noch durch kwds:')
         self._max_temp_exc_time = 2 * 60
-        # startup and shutdown factors for thermal and el (only startup, since
-        # only heat can remain...) power
-        if not chp_on_at_start:  # if CHP was switched off at the beginning
-            self._startup_factor_el = 0.0
-            self._startup_factor_th = 0.0
-            self._startup_factor_gas = 0.0
-            self._chp_on = False  # chp is NOT on
-            self._startup_in_progress = True  # chp was off, thus startup req.
-            self._shutdown_duration = 99999.0
-            self._bin_pow_fac = 0
-        else:
-            self._startup_factor_el = 1.0
-            self._startup_factor_th = 1.0
-            self._startup_factor_gas = 1.0
-            # has never been switched on. min on time to enable switching off
-            # at the start of the sim.
-            self._startup_at_time = -self._min_on_time  # has been switched on
-            # has never been switched off
-            self._shutdown_at_time = self._startup_at_time - 1
-            self._chp_on = True  # chp IS on
-            # chp was ON, thus NO startup required!
-            self._startup_in_progress = False
-            self._shutdown_duration = 99999.0
-            self._bin_pow_fac = 1
-        self._shutdown_factor_th = 0.0
         # save last thermal power value before shutdown for shutdown process
         self._last_dQ = np.zeros_like(self._dQ_heating)
+        self._set_start_state()
         # percentage values, at which the CHP plant is considered as on/off
         self._chp_on_perc = 0.999
         self._chp_off_perc = 0.01
@@ -499,6 +461,7 @@ class CHPPlant(Pipe):
         self._actuator_CV[:] = start_modulation
         # initialize the actuator
         self._initialize_actuator(variable_name='_power_modulation', **kwds)
+        self._mod_init = self._power_modulation[0]  # bkp for resetting
 
         # if CHP is feeding a fluegas HEX:
         assert isinstance(kwds['connect_fluegas_hex'], bool), (
@@ -558,6 +521,58 @@ class CHPPlant(Pipe):
             _pf.chp_gas_power(1.0) * self.chp_power_el * self._eta_el_fac
         )
 
+    def _set_start_state(self):
+        """Set the operating state at the start of a simulation."""
+        # checker if chp plant is on, in startup, value for time passed since
+        # startup, value for time passed since shutoff,
+        # time in [s] to account for remaining heat after a recent shutdown
+        self._chp_on = False
+        self._shutdown_in_progress = False
+        self._startup_duration = 0.0
+        self._off_duration = 0.0
+        self._startup_at_time = 0
+        # has never been switched on. min off time -1 to enable switching on
+        # at the start of the sim.
+        self._shutdown_at_time = -self._min_off_time - 1.0
+        self._remaining_heat = 0.0
+        # max. overtemperature time. dt is the consecutive time since first
+        # overtemp., max_temp_exc_time the maximum time allowed before shutdown
+        self._dt_time_temp_exc = 0.0
+        # startup and shutdown factors for thermal and el (only startup, since
+        # only heat can remain...) power
+        if not self._chp_on_at_start:  # if CHP was switched off at the beginning
+            self._startup_factor_el = 0.0
+            self._startup_factor_th = 0.0
+            self._startup_factor_gas = 0.0
+            self._chp_on = False  # chp is NOT on
+            self._startup_in_progress = True  # chp was off, thus startup req.
+            self._shutdown_duration = 99999.0
+            self._bin_pow_fac = 0
+        else:
+            self._startup_factor_el = 1.0
+            self._startup_factor_th = 1.0
+            self._startup_factor_gas = 1.0
+            # has never been switched on. min on time to enable switching off
+            # at the start of the sim.
+            self._startup_at_time = -self._min_on_time  # has been switched on
+            # has never been switched off
+            self._shutdown_at_time = self._startup_at_time - 1
+            self._chp_on = True  # chp IS on
+            # chp was ON, thus NO startup required!
+            self._startup_in_progress = False
+            self._shutdown_duration = 99999.0
+            self._bin_pow_fac = 1
+        self._shutdown_factor_th = 0.0
+
+    def _reset_to_init_cond(self):
+        super()._reset_to_init_cond()
+        self._set_start_state()
+        self._power_modulation[:] = self._mod_init
+        self._dQ_heating[:] = 0.0
+        self._last_dQ[:] = 0.0
+        self._Pel[:] = 0.0
+        self._Pgas[:] = 0.0
+
     def _special_array_init(self, num_steps):
         self.res_dQ = np.zeros((num_steps + 1,) + self._dQ_heating.shape)
         self.res_Pel = np.zeros((num_steps + 1,) + self._Pel.shape)
-- 
2.43.0


From e2841e1295893d1c1fe93d2dc737de9435bb2604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:44 +0000
Subject: [PATCH 19/49] fix: set_timeframe could not be called with check_vN
 (assert called the bool)

---
 multisim/simenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 9f9d761..e6d82b0 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -384,7 +384,7 @@ class SimEnv:
             else:
                 self.__min_factor = 0.2
             if 'check_vN' in kwargs:
-                assert isinstance(kwargs['check_vN'], bool)(
+                assert isinstance(kwargs['check_vN'], bool), (
                     'check_vN not of correct type!\n\n' + err_str
                 )
                 self._check_vN = kwargs['check_vN']
-- 
2.43.0


From e41e5e2892347fa5ddc0d3759efa70816c7141dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:21 +0000
Subject: [PATCH 20/49] fix: debugger call left in port connection

---
 multisim/simenv.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index e6d82b0..7cf83e8 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1992,8 +1992,6 @@ class SimEnv:
             self.parts[first_part]._ports_unconnected = self.parts[
                 first_part
             ].port_names
-        if scnd_part == 'p_gasb1_ff':
-            breakpoint()
         if (scnd_part != 'BoundaryCondition') and hasattr(
             self.parts[scnd_part], '_ports_connected'
         ):
-- 
2.43.0


From c6ae093c9641f39ba0fbef398a63be31ab8f8c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:55 +0000
Subject: [PATCH 21/49] fix: connecting a port twice silently dropped the first
 connection

---
 multisim/simenv.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 7cf83e8..77ed296 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1931,6 +1931,13 @@ class SimEnv:
         #                lambda: self._connect_ports(
         #                        first_part=first_part, first_port=first_port,
         #                        scnd_part=scnd_part, scnd_port=scnd_port))
+        assert (
+            first_part + ';' + first_port
+            not in self.__postpone['connect_ports']
+        ), (
+            'Port `{0}` of part `{1}` has already been connected to another '
+            'port or boundary condition.'.format(first_port, first_part)
+        )
         self.__postpone['connect_ports'][
             first_part + ';' + first_port
         ] = _partial(
-- 
2.43.0


From 020aed8a839b0b0899df2eb98cc95ee48672b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:11 +0000
Subject: [PATCH 22/49] fix: results were lost if the last step filled the
 arrays while saving to disk

---
 multisim/simenv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 77ed296..c5b1132 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5089,8 +5089,9 @@ class SimEnv:
             # function to save current results to DataFrame, save this to disk
             # and clear current result arrays:
             if self.stepnum[0] == self.num_steps:
-                # check if not already total sim timeframe reached:
-                if self.time_sim < self.timeframe:
+                # check if not already total sim timeframe reached (when
+                # saving to disk, full arrays leave no row to carry over):
+                if self.time_sim < self.timeframe or self.__save_to_disk:
                     self._free_memory()
 
             self.stepnum[0] += 1
-- 
2.43.0


From 61fddb94d87ce6f8a111b1fe41b5a2544d7ba7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:51 +0000
Subject: [PATCH 23/49] fix: step and time totals of an earlier run saved to
 disk leaked into the next

---
 multisim/simenv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index c5b1132..3a12911 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4729,6 +4729,8 @@ class SimEnv:
         self._solver_state = np.zeros_like(self.time_vec)
         # and their total representatives to enable saving to disk (empty since
         # these are filled while saving to disk):
+        self._total_stepnum = 0
+        self._total_time_vec = np.zeros((0,))
         self._total_sys_trnc_err = np.zeros((0,))
         self._total_failed_steps = np.zeros((0,))
         self._total_solver_state = np.zeros((0,))
-- 
2.43.0


From 8289c43de48238844656479e5a5b3ef1c4915331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:54 +0000
Subject: [PATCH 24/49] fix: invalid temperatures alone did not stop a run, and
 the wrong step was marked

---
 multisim/simenv.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 3a12911..e21c0c6 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5113,25 +5113,23 @@ class SimEnv:
                 for name, prt in self.parts.items():
                     # loop over all parts and assert that none of the arrays
                     # contains any nan
-                    isanynan = np.any(np.isnan(prt.T)) and np.any(
+                    isanynan = np.any(np.isnan(prt.T)) or np.any(
                         np.isnan(prt.dm)
                     )
                     if isanynan:
                         print(
                             '\n\n'
-                            'WARNING: Invalid value found between step {0} '
-                            'at time {1}s and step {2} at time {3}s!\n'
+                            'WARNING: Invalid value found at step {0} '
+                            'at time {1}s!\n'
                             'Stopping simulation.\n\n'.format(
-                                self._total_stepnum - 5000,
-                                self.time_vec[self._total_stepnum - 5000],
-                                self._total_stepnum,
+                                self._total_stepnum + self.stepnum[0] - 1,
                                 self.time_sim,
                             )
                         )
                         # stop simulation by setting timeframe to almost zero
                         self.timeframe = 1e-9
                         # set solver state to failed:
-                        self._solver_state[self._total_stepnum] = 98
+                        self._solver_state[self.stepnum[0] - 1] = 98
                         break  # break loop for nan checking
 
         # measure time taken purely for simulation
-- 
2.43.0


From 66c27d5023477d68d0d2de8e711f7e70839888e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:31 +0000
Subject: [PATCH 25/49] fix: report claimed success for a run stopped by
 invalid values

---
 multisim/simenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index e21c0c6..bfa0ef3 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5576,7 +5576,7 @@ class SimEnv:
 
         info = {
             'MultiSim version': __version__,
-            'Simulation success': True if states[99] == 0 else False,
+            'Simulation success': not failure,
         }
         info.update(fail_info)
         info.update(
-- 
2.43.0


From 114f70c8822b3ef66cc95d9f40e026b1b4d9846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:02 +0000
Subject: [PATCH 26/49] fix: simulations limited by memory could not start
 (float array length)

---
 multisim/simenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index bfa0ef3..7fdee5e 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4665,7 +4665,7 @@ class SimEnv:
             self.num_steps = (
                 self._msb4save
                 if self._max_steps > self._msb4save
-                else self._max_steps
+                else int(self._max_steps)
             )
 
         # save views/references of all simulation environment wide arrays and
-- 
2.43.0


From 53bfd6c44a7086ecaba9eb72c2878104997e3fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:23 +0000
Subject: [PATCH 27/49] fix: storing selected cells of a part with separate
 flow channels raised IndexError

---
 multisim/simenv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 7fdee5e..a652b5a 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5471,9 +5471,12 @@ class SimEnv:
                     continue  # skip part, no saving
                 elif isinstance(dsp, bool) and dsp:
                     dsp = np.s_[:, :]  # index all cells
-                elif dst_tab.shape[1] == 1:
+                elif dst_tab.shape[1] == 1 or (
+                    key.endswith('/dm') and self.parts[pn].multiple_flows
+                ):
                     # if the current table has only one col (for example
-                    # massflow cols), save this col
+                    # massflow cols) or one col per flow channel instead of
+                    # one per cell, save all cols
                     dsp = np.s_[:, :]
                 elif isinstance(dsp, (int, list, tuple)):
                     # slice time dimension and select cols
-- 
2.43.0


From 7c6b8af991161e59a507442680c58b4089b5e648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:59 +0000
Subject: [PATCH 28/49] fix: store_results was ignored if results were saved
 without compression

---
 multisim/simenv.py | 56 +++++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 38 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index a652b5a..6ed7a38 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5448,8 +5448,13 @@ class SimEnv:
         self._disk_store_timevec = self._disk_store['store_tmp'][
             list(self.parts.keys())[0] + '/res'
         ].index.copy()
-        # compress store if set
-        if self._disk_store['compress']:
+        # copy to the final store if it has to be compressed, resampled or if
+        # only parts of the results shall be stored
+        if (
+            self._disk_store['compress']
+            or self._disk_store['resample']
+            or any(dsp is not True for dsp in self._disk_store_parts.values())
+        ):
             # create new store with compression set
             self._disk_store['store'] = pd.HDFStore(
                 self._disk_store['path'],
@@ -5510,42 +5515,17 @@ class SimEnv:
             # close and delete uncompressed store:
             self._disk_store['store_tmp'].close()
             os.remove(self._disk_store['path_tmp'])
-        else:  # if no compression, just copy ref to temp and rename
-            # if no resampling, just copy ref etc
-            if not self._disk_store['resample']:
-                # close store to enable renaming:
-                self._disk_store['store_tmp'].close()
-                # rename HDFStore
-                os.rename(
-                    self._disk_store['path_tmp'], self._disk_store['path']
-                )
-                # update references:
-                self._disk_store['store_tmp'] = pd.HDFStore(
-                    self._disk_store['path'], mode='a'
-                )
-                # copy reference:
-                self._disk_store['store'] = self._disk_store['store_tmp']
-                print('fehler hier?')
-            else:
-                self._disk_store['store'] = pd.HDFStore(
-                    self._disk_store['path'],
-                    mode='w',
-                    complevel=self._disk_store['complevel'],
-                    complib=self._disk_store['complib'],
-                )
-                # loop over all keys in temp store and append resampled
-                for key in self._disk_store['store_tmp'].keys():
-                    self._disk_store['store'].put(
-                        key,
-                        self._disk_store['store_tmp'][key]
-                        .resample(self._disk_store['resample_freq'])
-                        .mean()
-                        .interpolate(),
-                        format='table',
-                    )
-                # close and delete unresampled store:
-                self._disk_store['store_tmp'].close()
-                os.remove(self._disk_store['path_tmp'])
+        else:  # if nothing to change, just copy ref to temp and rename
+            # close store to enable renaming:
+            self._disk_store['store_tmp'].close()
+            # rename HDFStore
+            os.rename(self._disk_store['path_tmp'], self._disk_store['path'])
+            # update references:
+            self._disk_store['store_tmp'] = pd.HDFStore(
+                self._disk_store['path'], mode='a'
+            )
+            # copy reference:
+            self._disk_store['store'] = self._disk_store['store_tmp']
 
     def _write_report(self):
         states = dict(zip(*np.unique(self._solver_state, return_counts=True)))
-- 
2.43.0


From 1a20c45e564f02ba33fbdfd0fe5fea2338d39139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:40 +0000
Subject: [PATCH 29/49] fix: adjusted pipe specifications could only be read
 with Windows path separators

---
 multisim/utility_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 2fd1140..6d3d775 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -454,7 +454,7 @@ def interp_pipe_specs(A_i, pipe_type='EN10255_medium', base_pth=None):
     else:
         ps = pd.read_pickle(
             os.path.join(
-                os.path.dirname(__file__), 'data_tables\\pipe_specs.pkl'
+                os.path.dirname(__file__), 'data_tables', 'pipe_specs.pkl'
             )
         )
     ps_tp = ps.loc[:, pipe_type].copy().T
@@ -519,7 +519,9 @@ def adjust_pipes(pspecs, base_path=None):
         assert isinstance(v[1], (float, int)), err_str
     # read pipe specs reference table
     ps_table = pd.read_pickle(
-        os.path.join(os.path.dirname(__file__), 'data_tables\\pipe_specs.pkl')
+        os.path.join(
+            os.path.dirname(__file__), 'data_tables', 'pipe_specs.pkl'
+        )
     )
     # extract A_i from table and multiplicate values by mult factor
     ai_vals = {
-- 
2.43.0


From b8d874196512e2a78a4869dd62c37acd6f568671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:50 +0000
Subject: [PATCH 30/49] fix: the databases could only be imported on Windows,
 selected or foreign ones not at all

---
 multisim/utility_functions.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 6d3d775..4363ead 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -555,35 +555,32 @@ def database_import(*, standard_db=True, path=None, which='all'):
             pth = os.path.dirname(os.path.realpath(__file__))
         except NameError:  # if frozen as executable
             pth = os.path.dirname(os.path.realpath(sys.argv[0]))
-        pth = pth + r'\data_tables'  # append datatables path
+        pth = os.path.join(pth, 'data_tables')  # append datatables path
         # find path to all pickled databases
         files = _glob.glob(os.path.join(pth, '*.pkl'))
         if which == 'all':  # import all databases
             for file in files:
                 #  get name by splitting strings:
-                db_name = file.split('\\')[-1].split('.')[0]
+                db_name = os.path.basename(file).split('.')[0]
                 dbs[db_name] = pd.read_pickle(file)
         else:  # else if not all shall be imported:
             for db in which:
-                pth = pth + db + '.pkl'
-                db_name = pth.split('\\')[-1].split('.')[0]
-                dbs[db_name] = pd.read_pickle(file)
+                dbs[db] = pd.read_pickle(os.path.join(pth, db + '.pkl'))
     else:  # else if not standard databases
         if not path:  # if path not given, get it from dialog
             from tkinter.filedialog import askdirectory
 
-            pth = askdirectory(initialdir="D:/LRZ-SnS/Objekte")
+            path = askdirectory(initialdir="D:/LRZ-SnS/Objekte")
+        pth = path
         if which == 'all':  # if all databases should be loaded from path
             files = _glob.glob(os.path.join(pth, '*.pkl'))  # get all pickles
             for file in files:
                 #  get name by splitting strings:
-                db_name = file.split('\\')[-1].split('.')[0]
+                db_name = os.path.basename(file).split('.')[0]
                 dbs[db_name] = pd.read_pickle(file)
         else:  # else if not all shall be imported:
             for db in which:
-                pth = pth + db + '.pkl'
-                db_name = pth.split('\\')[-1].split('.')[0]
-                dbs[db_name] = pd.read_pickle(file)
+                dbs[db] = pd.read_pickle(os.path.join(pth, db + '.pkl'))
 
     return dbs  # return database dict
 
@@ -596,7 +593,7 @@ def update_databases(*, path=None, transpose=True):
             pth = os.path.dirname(os.path.realpath(__file__))
         except NameError:  # if frozen as executable
             pth = os.path.dirname(os.path.realpath(sys.argv[0]))
-        pth = pth + r'\data_tables'  # append datatables path
+        pth = os.path.join(pth, 'data_tables')  # append datatables path
         # find path to all pickled databases
         files = _glob.glob(os.path.join(pth, '*.xlsx'))
         for file in files:
-- 
2.43.0


From f96dd336eb32d29d869f22faca87cb3da83e6c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:46 +0000
Subject: [PATCH 31/49] fix: load_sim_results only found files below a Windows
 path

---
 multisim/utility_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 4363ead..a5fcccc 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -46,9 +46,9 @@ except ModuleNotFoundError:
 def load_sim_results(
     filename, path=r'.\results\\', keys='all', multiindex=True
 ):
-    # check for correct path layout:
-    if (path is not None) and (len(path) > 0) and (path[-1] != '\\'):
-        path = path + '\\'
+    # get the full path (path may also be included in the filename):
+    if path is not None:
+        filename = os.path.join(path, filename)
     # check for correct key structuring:
     if keys != 'all':
         keys = list(keys) if isinstance(keys, tuple) else keys
@@ -60,7 +60,7 @@ def load_sim_results(
         _keys = keys
 
     # open store in read only mode:
-    with pd.HDFStore(path + filename, mode='r') as store:
+    with pd.HDFStore(filename, mode='r') as store:
         # iterate over all groups and save them to a dict of dfs
         dfs = {}
         for p, g, lvs in store.walk():  # iterate over paths
-- 
2.43.0


From ff8085b85e4f9a40e81c98c90cd78b48fa1872eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:53 +0000
Subject: [PATCH 32/49] fix: load_results_by_name failed without set numbers,
 ignored the identifier and needed Windows paths

---
 multisim/utility_functions.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index a5fcccc..a1aadfc 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -107,7 +107,7 @@ def load_results_by_name(
     set_name='flexplant_base',
     keys='all',
     result_file_ending='.h5',
-    sub_dir='.\\finished',
+    sub_dir='finished',
     base_path=r'E:\Sim_results\\',
 ):
     assert set_numbers is None or isinstance(set_numbers, (int, list, tuple))
@@ -115,16 +115,14 @@ def load_results_by_name(
         set_numbers = [set_numbers]
     if set_numbers is None:
         print('retrieving ALL RESULTS! WARNING, THIS MAY TAKE A LOOONG TIME!')
-    _pth = os.path.abspath(
-        '{0}\\{1}\\{2}\\'.format(base_path, set_name, sub_dir)
-    )
+    _pth = os.path.abspath(os.path.join(base_path, set_name, sub_dir))
     assert os.path.isdir(_pth), 'path not found:\n{0}'.format(_pth)
     ldir = os.listdir(_pth)  # get all items in path
     # get all dirs
     _subdirs = [
         sd
         for sd in ldir
-        if os.path.isdir(os.path.abspath(_pth + '\\' + sd))
+        if os.path.isdir(os.path.join(_pth, sd))
         and set_identifier in sd
     ]
     assert len(_subdirs) > 0, 'no simulations found with set_identifier'
@@ -132,12 +130,16 @@ def load_results_by_name(
         # if set number is None, get ALL results. WARNING, SLOW! else get just
         # some which match set number and set identifier:
         _sn_sdirs = [
-            sd for sd in ldir if int(_re.findall(r'\d+', sd)[0]) in set_numbers
+            sd
+            for sd in _subdirs
+            if int(_re.findall(r'\d+', sd)[0]) in set_numbers
         ]
         assert len(_sn_sdirs) > 0, 'no simulations found with set_numbers'
+    else:
+        _sn_sdirs = _subdirs
     # generate paths to sim result files in each selected subdir:
     sim_res_fns = [
-        _glob.glob(_pth + '\\' + sd + '\\*' + result_file_ending)[0]
+        _glob.glob(os.path.join(_pth, sd, '*' + result_file_ending))[0]
         for sd in _sn_sdirs
     ]
     # load the sim res files
-- 
2.43.0


From 2f560f02e490dc7f20cc2cb56b6afeac791ef650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:46 +0000
Subject: [PATCH 33/49] fix: package_results moved files next to the result
 folder on other systems than Windows

---
 multisim/utility_functions.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index a1aadfc..21f1a06 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -169,7 +169,7 @@ def load_failed_results(
 def package_results(
     name_feature='LHS',
     path=r'E:\Sim_results\\',
-    move_to=r'.\finished\\',
+    move_to='finished',
     ndate_chars=20,
 ):
     """
@@ -185,12 +185,12 @@ def package_results(
     """
     # if move to and path do not have closing slashes, add them
     path = (
-        path + '\\'
+        path + os.sep
         if path[-1] not in ('\\', '\\\\', '/', '//', '////')
         else path
     )
     move_to = (
-        move_to + '\\'
+        move_to + os.sep
         if move_to[-1] not in ('\\', '\\\\', '/', '//', '////')
         else move_to
     )
@@ -204,7 +204,6 @@ def package_results(
     log_fls = _glob.glob('{0}*{1}*.log'.format(path, name_feature))
     # loop over h5 files:
     unresolved_files = []
-    pending_sims = []
     for fl in h5_fls:
         # get base filepath without ending and/or report, bc etc. suffixes
         # and construct report and bcs path and log identifer from it
@@ -236,7 +235,6 @@ def package_results(
         # also check if there is a file with the ending h5_tmp and skip if yes.
         # most probably there is still a sim running when this is true
         if os.path.isfile(fpath_base + '.h5_tmp'):
-            pending_sims.append(fpath_base)
             continue  # skip file
         # now that report and h5 exist, try copying all files to a directory
         # consisting of the move_to path + subdir with log idtfr (if log was
@@ -249,7 +247,7 @@ def package_results(
             move_to_pth = os.path.abspath(
                 '{0}{1}'.format(move_to, new_dirname)
             )
-        move_to_fl = '{0}\\{{0}}{{1}}'.format(move_to_pth)
+        move_to_fl = os.path.join(move_to_pth, '{0}{1}')
         # check if path exists and if not, create it:
         if not os.path.exists(move_to_pth):
             # try making the path and skip if already existing to avoid
@@ -275,16 +273,16 @@ def package_results(
             _shutil.move(fpath_log, move_to_pth)
     # get running sims:
     h5temp_fls = _glob.glob('{0}*{1}*.h5_tmp'.format(path, name_feature))
-    pending_sims.append(h5temp_fls)
+    pending_sims = h5temp_fls
     print(
         'Packaged results: {0}\nUnresolved files: {1}\n'
         'Pending Simulations: {2}'.format(
             len(h5_fls) - len(unresolved_files),
             len(unresolved_files),
-            len(pending_sims[0]),
+            len(pending_sims),
         )
     )
-    return {'unresolved': unresolved_files, 'pending': pending_sims[0]}
+    return {'unresolved': unresolved_files, 'pending': pending_sims}
 
 
 def add_line_to_log(line, filename='log.txt', path=''):
-- 
2.43.0


From c72db3b1d6a4522e26bf984471c5cd8546271ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:16 +0000
Subject: [PATCH 34/49] fix: chp modules removed the pipe specification from
 the dict passed by the caller

---
 multisim/parts/part_modules/chp_with_fluegas_hex.py | 1 +
 multisim/parts/part_modules/suppliers.py            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/multisim/parts/part_modules/chp_with_fluegas_hex.py b/multisim/parts/part_modules/chp_with_fluegas_hex.py
index e0ee2c0..866511e 100644
--- a/multisim/parts/part_modules/chp_with_fluegas_hex.py
+++ b/multisim/parts/part_modules/chp_with_fluegas_hex.py
@@ -83,6 +83,7 @@ def add_chp_with_fghex(
     chp_power_factor = (
         chp_kwds['power_electrical'] / chp_kwds['p2h_ratio'] / 38.7e3
     )
+    chp_kwds = dict(chp_kwds)  # copy, since the passed dict must not be changed
     pspecs = {  # get ref pipe specs and mult factor for each part
         'pwp_ff': (ps_dn32, chp_power_factor),
         'p3v_rf': (ps_dn32, chp_power_factor),
diff --git a/multisim/parts/part_modules/suppliers.py b/multisim/parts/part_modules/suppliers.py
index e33489e..3a8c708 100644
--- a/multisim/parts/part_modules/suppliers.py
+++ b/multisim/parts/part_modules/suppliers.py
@@ -118,6 +118,7 @@ def chp_with_fghex(
         'hex_fg': (ps_dn40, chp_power_factor),
     }
 
+    chp_kwds = dict(chp_kwds)  # copy, since the passed dict must not be changed
     if 'pipe_specs' in chp_kwds:
         pspecs['chp'] = (chp_kwds['pipe_specs'], chp_power_factor)
         del chp_kwds['pipe_specs']
-- 
2.43.0


From c043c0ada40d53c6181c667f76950924ee506369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:52 +0000
Subject: [PATCH 35/49] fix: chp module added controllers of valves which do
 not exist with one or two return ports

---
 multisim/parts/part_modules/chp_with_fluegas_hex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multisim/parts/part_modules/chp_with_fluegas_hex.py b/multisim/parts/part_modules/chp_with_fluegas_hex.py
index 866511e..b73b9bf 100644
--- a/multisim/parts/part_modules/chp_with_fluegas_hex.py
+++ b/multisim/parts/part_modules/chp_with_fluegas_hex.py
@@ -649,7 +649,7 @@ def add_chp_with_fghex(
         )
     # control massflow over fluegas heat exchanger
     # if controlled by timeseries, the hex will have a faster Kp/Ki value
-    if not ctrl_hex_by_ts:
+    if number_rf_ports in (2, 3) and not ctrl_hex_by_ts:
         simenv.add_control(
             _ap.PID,
             name='c_3v_chp_hex_fg{0}'.format(segment_name),
@@ -674,7 +674,7 @@ def add_chp_with_fghex(
             norm_timestep=1.0,
             invert=True,
         )
-    else:
+    elif number_rf_ports in (2, 3):
         # Kp = 0.035
         # Ki = 0.0025
         simenv.add_control(
@@ -714,7 +714,7 @@ def add_chp_with_fghex(
     # ergibt sich: n_min = .3 (Mindestöffnung HT RF A), d.h. mit act port =B
     # dann CV sat bei (0, 1-n) = (0, .7)
     print('\n\n\n ggf hier Temperatur als timeseries vorgeben')
-    if not ctrl_htrf_by_ts:
+    if number_rf_ports == 3 and not ctrl_htrf_by_ts:
         simenv.add_control(
             _ap.PID,
             name='c_3v_chp_htrf{0}'.format(segment_name),
@@ -739,7 +739,7 @@ def add_chp_with_fghex(
             norm_timestep=1.0,
             invert=True,
         )
-    else:
+    elif number_rf_ports == 3:
         simenv.add_control(
             _ap.PID,
             name='c_3v_chp_htrf{0}'.format(segment_name),
-- 
2.43.0


From 462f7b9ed36af13d0f0ce4cb71677da17675cad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:56 +0000
Subject: [PATCH 36/49] fix: make_boundarycond_timeseries failed with current
 pandas and for arrays of exactly the requested duration

---
 multisim/utility_functions.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 21f1a06..7a86749 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -369,10 +369,14 @@ def make_boundarycond_timeseries(
             # resample with ts_freq:
             # if downsampling has to be done:
             if ts_freq <= bc_freq:
-                bc_ts = bc.resample(ts_freq_string, how=downsample_method)
+                bc_ts = getattr(
+                    bc.resample(ts_freq_string), downsample_method
+                )()
             # if upsampling has to be done:
             else:
-                bc_ts = bc.resample(ts_freq_string, how=upsample_method)
+                bc_ts = getattr(
+                    bc.resample(ts_freq_string), upsample_method
+                )()
         elif bc_duration < ts_timedelta:
             # if shorter than ts_duration, either throw error or stack:
             if bc_too_short == 'error':
@@ -404,10 +408,19 @@ def make_boundarycond_timeseries(
                 # resample with ts_freq:
                 # if downsampling has to be done:
                 if ts_freq <= bc_freq:
-                    bc_ts = bc.resample(ts_freq_string, how=downsample_method)
+                    bc_ts = getattr(
+                        bc.resample(ts_freq_string), downsample_method
+                    )()
                 # if upsampling has to be done:
                 else:
-                    bc_ts = bc.resample(ts_freq_string, how=upsample_method)
+                    bc_ts = getattr(
+                        bc.resample(ts_freq_string), upsample_method
+                    )()
+    # if exactly matching, only resampling has to be done:
+    elif ts_freq <= bc_freq:
+        bc_ts = getattr(bc.resample(ts_freq_string), downsample_method)()
+    else:
+        bc_ts = getattr(bc.resample(ts_freq_string), upsample_method)()
 
     return bc_ts
 
-- 
2.43.0


From 51bfa8a370d43978771befaf8bb79515436db5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:32 +0000
Subject: [PATCH 37/49] fix: interp_pipe_specs replaced the table values of an
 existing pipe by interpolated ones

---
 multisim/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 7a86749..a67608e 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -491,7 +491,7 @@ def interp_pipe_specs(A_i, pipe_type='EN10255_medium', base_pth=None):
     elif not isinstance(A_i, (list, tuple)):
         raise TypeError
     for ai in A_i:
-        if ai in (new_val_lo, new_val_hi):
+        if ai in ps_tp.index:  # values known, no need to interpolate
             continue
         ps_tp.loc[ai] = np.nan
     # cubic interp for cubic relation of diameter to area
-- 
2.43.0


From 5a1f6a3953f776be017b710f673d0a0232392d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:09 +0000
Subject: [PATCH 38/49] fix: adjust_pipes depended on the order of the keys of
 the pipe specification

---
 multisim/utility_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index a67608e..1e8f55f 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -538,7 +538,8 @@ def adjust_pipes(pspecs, base_path=None):
     )
     # extract A_i from table and multiplicate values by mult factor
     ai_vals = {
-        k: ps_table.loc['A_i', tuple(v[0]['all'].values())] * v[1]
+        k: ps_table.loc['A_i', (v[0]['all']['pipe_type'], v[0]['all']['DN'])]
+        * v[1]
         for k, v in pspecs.items()
     }
     pipe_specs = interp_pipe_specs(
-- 
2.43.0


From aa854b9ceb135ff2dfec9fc1c55198107e217d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:48 +0000
Subject: [PATCH 39/49] fix: R2 of ts_performance_indicators multiplied the
 sample variance by n instead of n-1

---
 multisim/utility_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 1e8f55f..0e43c56 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -2994,8 +2994,8 @@ def ts_performance_indicators(
     n = residuals.size  # number of observations
     ss_res = (residuals ** 2).sum()  # sum of squares of residuals
     # total sum of squares (definition: sum((y_i - mean(y))**2))
-    ss_total = (
-        rlz_desc['std'] ** 2 * rlz_desc['count']
+    ss_total = (  # `describe` returns the sample std (one dof less)
+        rlz_desc['std'] ** 2 * (rlz_desc['count'] - 1)
     )  # faster than definition
     mean_bias_err = residuals.sum() / n  # mean absolute biased error (MBE)
     mean_abs_err = residuals.abs().sum() / n  # mean absolute error (MAE)
-- 
2.43.0


From 79dd282a16a3300f5ff996b7f18cce8c13d0743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:32 +0000
Subject: [PATCH 40/49] fix: HexNum accepted plate numbers for which a side has
 no channel

---
 multisim/parts/hex_num.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multisim/parts/hex_num.py b/multisim/parts/hex_num.py
index 30cef0c..4447eb2 100644
--- a/multisim/parts/hex_num.py
+++ b/multisim/parts/hex_num.py
@@ -115,8 +115,10 @@ class HexNum(SimEnv):
                 'with one pass on each side. For other numbers of passes, '
                 '`(plates - 1)/passes` must be an even number.'
             )
-            assert 'plates' in kwargs and isinstance(
-                kwargs['plates'], int
+            assert (
+                'plates' in kwargs
+                and isinstance(kwargs['plates'], int)
+                and kwargs['plates'] > 4
             ), err_str
             if self.passes == 1:  # if one pass plate hex
                 assert kwargs['plates'] % 2 == 0, err_str  # even num plates
-- 
2.43.0


From 6be92fb06778356530ea3a331136e7e63bf09828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:31 +0000
Subject: [PATCH 41/49] fix: reject heat exchangers with four plates or less

---
 multisim/parts/heatexchanger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multisim/parts/heatexchanger.py b/multisim/parts/heatexchanger.py
index 90910b4..4090d17 100644
--- a/multisim/parts/heatexchanger.py
+++ b/multisim/parts/heatexchanger.py
@@ -107,7 +107,9 @@ class HeatExchanger(SimEnv):
                 '`(plates - 1)/passes` must be an even number.'
             )
             assert (
-                'plates' in kwargs and type(kwargs['plates']) == int
+                'plates' in kwargs
+                and type(kwargs['plates']) == int
+                and kwargs['plates'] > 4
             ), err_str
             if self.passes == 1:  # if one pass plate hex
                 assert kwargs['plates'] % 2 == 0, err_str  # even num plates
-- 
2.43.0


From e807abaac1d3dc9f0b993b0492c4427dbbcea86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:06 +0000
Subject: [PATCH 42/49] fix: heat exchanger mass from mass_base with given
 channel width

---
 multisim/parts/heatexchanger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multisim/parts/heatexchanger.py b/multisim/parts/heatexchanger.py
index 4090d17..53cfc2a 100644
--- a/multisim/parts/heatexchanger.py
+++ b/multisim/parts/heatexchanger.py
@@ -899,6 +899,7 @@ class HeatExchanger(SimEnv):
         # get hex mass:
         if 'mass_base' in kwargs:
             assert 'mass_per_plate' in kwargs, err_dm
+            self._diff_m = float(kwargs['mass_per_plate'])
             self._m_wll = (
                 float(kwargs['mass_base']) + self._diff_m * self.num_plates
             )
-- 
2.43.0


From 43bc3b7a67ce91c657d3a060bbf01697ed28f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:41 +0000
Subject: [PATCH 43/49] fix: heatmap_from_df keeps settings of earlier calls in
 its defaults

---
 multisim/_utility/plotting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multisim/_utility/plotting.py b/multisim/_utility/plotting.py
index 27957b4..39523dc 100644
--- a/multisim/_utility/plotting.py
+++ b/multisim/_utility/plotting.py
@@ -122,6 +122,10 @@ def heatmap_from_df(
     X, Y = _np.meshgrid(range(df.shape[0]), df.columns)
     X, Y = _np.meshgrid(df.index, df.columns)
 
+    # copy to avoid altering the defaults and the caller's dicts
+    plt_kwds = dict(plt_kwds)
+    cbar_kwds = dict(cbar_kwds)
+
     # make log colorbar
     if log_cbar:
         plt_kwds['norm'] = mpl.colors.LogNorm()
-- 
2.43.0


From 3939f3e7b2ec8cb6ed00a7a8ad2e0c72c08ee866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:18 +0000
Subject: [PATCH 44/49] fix: remove_outliers_std overwrites the data of the
 caller

---
 multisim/utility_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 0e43c56..50b4820 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -887,6 +887,9 @@ def remove_outliers_std(*, data, stdevs=3, fill_value='interpolate'):
 
     """
 
+    # copy to avoid overwriting
+    data = data.copy()
+
     assert isinstance(data, (np.ndarray, pd.Series, pd.DataFrame))
     assert isinstance(stdevs, (int, float)) and stdevs > 0
     assert fill_value in ['interpolate', 'nan', 'remove'] or isinstance(
-- 
2.43.0


From e3c3464710c731b7ef0a2d4d3e55bf88fec42c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:06 +0000
Subject: [PATCH 45/49] fix: meters could not be created for simulations
 without disk saving

---
 multisim/simenv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 6ed7a38..799e8fd 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -528,6 +528,8 @@ class SimEnv:
         if not save:  # skip the rest if not saving to disk
             self._disksaving_set = True  # checker if options were treated
             self._save_every_n_steps = 1e6  # max steps without disksaving
+            # nothing is stored, thus nothing is resampled (read by Meters)
+            self._disk_store['resample'] = False
             if not self.suppress_printing:
                 print('No disksaving set. Maximum no. of steps set to 1e6.')
             return
-- 
2.43.0


From 14d16b360fd39f021ca1e6153de412643edc70ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:11 +0000
Subject: [PATCH 46/49] fix: root_finder shares its coefficients between
 parallel iterations

---
 multisim/_precompiled/precomp_funs.py | 5 +++--
 multisim/precomp_funs.py              | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/multisim/_precompiled/precomp_funs.py b/multisim/_precompiled/precomp_funs.py
index 3c94b5a..0f0029d 100644
--- a/multisim/_precompiled/precomp_funs.py
+++ b/multisim/_precompiled/precomp_funs.py
@@ -5470,12 +5470,13 @@ def root_finder(poly_coeff, roots):
         roots : np.ndarray
             Roots to solve the polynomial for.
     """
-    polcoeffs = poly_coeff.copy()
-    lin_coeff = polcoeffs[-1]
+    lin_coeff = poly_coeff[-1]
     rts_arr = np.zeros(
         (roots.shape[0], poly_coeff.shape[0] - 1), dtype=np.complex128
     )
     for i in nb.prange(roots.shape[0]):
+        # own copy for each iteration, since these may run in parallel
+        polcoeffs = poly_coeff.copy()
         polcoeffs[-1] = lin_coeff - roots[i]
         rts_arr[i, :] = np.roots(polcoeffs)
     return rts_arr
diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 3c94b5a..0f0029d 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -5470,12 +5470,13 @@ def root_finder(poly_coeff, roots):
         roots : np.ndarray
             Roots to solve the polynomial for.
     """
-    polcoeffs = poly_coeff.copy()
-    lin_coeff = polcoeffs[-1]
+    lin_coeff = poly_coeff[-1]
     rts_arr = np.zeros(
         (roots.shape[0], poly_coeff.shape[0] - 1), dtype=np.complex128
     )
     for i in nb.prange(roots.shape[0]):
+        # own copy for each iteration, since these may run in parallel
+        polcoeffs = poly_coeff.copy()
         polcoeffs[-1] = lin_coeff - roots[i]
         rts_arr[i, :] = np.roots(polcoeffs)
     return rts_arr
-- 
2.43.0


From ad18d6294af08f78a45a025bde9069fe0165dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:45 +0000
Subject: [PATCH 47/49] fix: last step of the TES cap restore is dropped by
 ModelPredCHP

---
 multisim/parts/controllers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 79c3496..38eac51 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -2051,10 +2051,10 @@ class ModelPredCHP(Controls):
         self._fctr_cap_rstr = (
             self._time_since_cap_adpt / self._cap_restore_time
         )
-        # if all are restored, revert bool checker and return
+        # if all are restored, revert bool checker (the caps still have to be
+        # set to their initial values, which the last restore step missed)
         if np.all(self._fctr_cap_rstr >= 1.0):
             self._caps_adapted = False
-            return None
         # just for safety: limit factor to 1 to avoid over-compensating:
         self._fctr_cap_rstr[self._fctr_cap_rstr > 1.0] = 1.0
 
-- 
2.43.0


From c01e73cda64bb20376636588b2e2029830aaf530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:20 +0000
Subject: [PATCH 48/49] fix: ModelPredCHP keeps the state of the last run on
 reset

---
 multisim/parts/controllers.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 38eac51..49e3d3b 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -918,6 +918,8 @@ class ModelPredCHP(Controls):
             0.0, master_cls.timeframe, self._opt_every
         )[::-1].tolist()
         self._opt_steps.insert(0, master_cls.timeframe)
+        # backup to restart when resetting
+        self._opt_steps_init = tuple(self._opt_steps)
         # make arrays to save optimization results to (fill with nan, since
         # zeros can be valid results):
         self._opt_chp_mod = np.full(
@@ -1602,6 +1604,29 @@ class ModelPredCHP(Controls):
         self.prev2_error = 0.0
         self.prev_i_term = 0.0
 
+        # also restart the optimization and the emergency control
+        self.num_opts = 0
+        self._opt_steps = list(self._opt_steps_init)
+        self._lt_prev_opt = 0.0
+        self._cv_prev_opt = 0.0
+        self._emerg_cnsctv = False
+        self._emerg_on = False
+        # TES capacities
+        self._caps_adapted = False
+        self._tes_caps_adpt[:] = self._tes_caps
+        self._tes_cap_adpt_lo = self._tes_caps[0]
+        self._tes_cap_adpt_hi = self._tes_caps[1]
+        self._time_last_cap_adpt[:] = 0.0
+        # and drop the results
+        self._tes_caps_res.clear()
+        self._tes_socs.clear()
+        self._opt_chp_mod[:] = np.nan
+        self._opt_chp_mod[-1, 0] = 0.0
+        self._opt_chp_mod_post[:] = self._opt_chp_mod
+        self._opt_status[:] = np.nan
+        self._opt_cost[:] = np.nan
+        self._opt_steptime[:] = np.nan
+
     def tes_cap_before_empty(self, x):
         """
         Make sure the TES is **never empty**.
-- 
2.43.0


From a561164341bbaf0d805c71336aa309285fe1e8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:56 +0000
Subject: [PATCH 49/49] fix: CHP subsidy and maintenance cost functions reject
 valid input

---
 multisim/parts/controllers.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 49e3d3b..4cd107c 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -2698,7 +2698,7 @@ class ModelPredCHP(Controls):
         """
         if isinstance(pel_chp, (int, float)):
             # call singular value implementation
-            _pel_chp = np.array(pel_chp)
+            pel_chp = np.array(pel_chp)
         # else check that np.ndarray
         assert isinstance(pel_chp, np.ndarray)
         _pel_chp = np.atleast_1d(pel_chp).copy()
@@ -2808,9 +2808,6 @@ class ModelPredCHP(Controls):
                     6.6626 * pel_chp_max ** (-0.25),
                     3.2619 * pel_chp_max ** 0.1866,
                 )
-                raise ValueError(
-                    'pel_chp_max muss zwischen 1kW < pel < 100kw liegen.'
-                )
             elif verfahren == 'VDI2067':
                 # Instandhaltungskosten pro Jahr. 6% der Investitionskosten.
                 # Investitionskosten nach ASUE:
-- 
2.43.0

