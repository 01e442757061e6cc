From 7cb2982e418926b7869ea65a820ecc0ad52910f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 01/97] fix: product superposition of wakes must not depend on
 how many wakes came before

The running product was marked as uninitialised by values close to zero, so
points that were not hit by any wake got a deficit of -100%, and a product that
happens to be zero was reset to one. Store product-1 instead. Also remove the
reference to a nonexistent attribute scale_amb.
---
 foxes/models/wake_superpositions/ws_product.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/foxes/models/wake_superpositions/ws_product.py b/foxes/models/wake_superpositions/ws_product.py
index ce65425..031b4a2 100644
--- a/foxes/models/wake_superpositions/ws_product.py
+++ b/foxes/models/wake_superpositions/ws_product.py
@@ -64,7 +64,7 @@ class WSProduct(WakeSuperposition):
             The input variable names
 
         """
-        return [FV.AMB_REWS] if self.scale_amb else [FV.REWS]
+        return []
 
     def add_wake(
         self,
@@ -118,11 +118,10 @@ class WSProduct(WakeSuperposition):
                 f"Superposition '{self.name}': Expecting wind speed variable, got {variable}"
             )
 
-        if np.max(np.abs(wake_delta)) < 1e-14:
-            wake_delta[:] = 1
-
+        # wake_delta stores the product minus one, such that
+        # its initial zero represents the empty product:
         if np.any(st_sel):
-            wake_delta[st_sel] *= 1 + wake_model_result
+            wake_delta[st_sel] = (1 + wake_delta[st_sel]) * (1 + wake_model_result) - 1
 
         return wake_delta
 
@@ -164,7 +163,7 @@ class WSProduct(WakeSuperposition):
             (n_states, n_targets, n_tpoints)
 
         """
-        w = amb_results * (wake_delta - 1)
+        w = amb_results * wake_delta
         if self.lim_low is not None:
             w = np.maximum(w, self.lim_low - amb_results)
         if self.lim_high is not None:
-- 
2.43.0


From 0c17d6634128767aa6a8662918aca468eff2bd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 02/97] fix: Bastankhah2016 wake models with different
 parameters must not share cached wake data

---
 foxes/models/wake_models/wind/bastankhah16.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/models/wake_models/wind/bastankhah16.py b/foxes/models/wake_models/wind/bastankhah16.py
index b4b1c3c..4cbe281 100644
--- a/foxes/models/wake_models/wind/bastankhah16.py
+++ b/foxes/models/wake_models/wind/bastankhah16.py
@@ -150,6 +150,7 @@ class Bastankhah2016Model(Model):
         # store parameters:
         out = {self.PARS: self.pars}
         out[self.CHECK] = (
+            id(self),
             mdata.states_i0(counter=True),
             mdata.n_states,
             downwind_index,
@@ -353,6 +354,7 @@ class Bastankhah2016Model(Model):
 
         """
         check = (
+            id(self),
             mdata.states_i0(counter=True),
             mdata.n_states,
             downwind_index,
-- 
2.43.0


From 04c48c01f1709cf13e77c5147f04d218670fc71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 03/97] fix: ABLLogWsProfile accepts a scalar friction velocity
 like the other inputs

---
 foxes/models/vertical_profiles/abl_log_ws.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/models/vertical_profiles/abl_log_ws.py b/foxes/models/vertical_profiles/abl_log_ws.py
index a18a659..6b61817 100644
--- a/foxes/models/vertical_profiles/abl_log_ws.py
+++ b/foxes/models/vertical_profiles/abl_log_ws.py
@@ -81,7 +81,8 @@ class ABLLogWsProfile(VerticalProfile):
         mol[:] = data[FV.MOL]
 
         if self.ustar_input:
-            ustar = data[FV.USTAR]
+            ustar = np.zeros_like(heights)
+            ustar[:] = data[FV.USTAR]
         else:
             ws = np.zeros_like(heights)
             ws[:] = data[FV.WS]
-- 
2.43.0


From 32e48a8ee7fc2f1baf5a0d46c05ca1a057faa1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 04/97] fix: yawed wakes keep the lateral positions of the
 points within a target

---
 foxes/models/wake_frames/yawed_wakes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 38e1a5d..040a4ed 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -273,9 +273,10 @@ class YawedWakes(WakeFrame):
         x = xy[:, :, 0]
         y = xy[:, :, 1]
 
-        # apply deflection:
+        # apply deflection of the rotor average to all points:
+        y0 = y.copy()
         self._update_y(algo, mdata, fdata, tdata, downwind_index, x, y)
-        xyz[..., 1] = y[:, :, None]
+        xyz[..., 1] += (y - y0)[:, :, None]
 
         return xyz
 
-- 
2.43.0


From f826e968cede8d93053cd00da6e4d86f7f6e1a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 05/97] fix: centreline points of yawed wakes are deflected to
 the same side as the wake

---
 foxes/models/wake_frames/yawed_wakes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 040a4ed..422ddcf 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -325,6 +325,7 @@ class YawedWakes(WakeFrame):
         y = np.zeros_like(x)
         self._update_y(algo, mdata, fdata, tdata, downwind_index, x, y)
 
-        points += y[:, :, None] * ny
+        # the wake coordinate y vanishes at the centreline:
+        points -= y[:, :, None] * ny
 
         return points
-- 
2.43.0


From d137f503ca51bc1c94662ba95bbb6f41a10ccf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 06/97] fix: rotor effective wind speeds of single point rotors
 are never negative or undefined

---
 foxes/core/rotor_model.py           | 6 ++----
 foxes/models/rotor_models/centre.py | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/foxes/core/rotor_model.py b/foxes/core/rotor_model.py
index bd6fb26..f0907a4 100644
--- a/foxes/core/rotor_model.py
+++ b/foxes/core/rotor_model.py
@@ -289,7 +289,7 @@ class RotorModel(FarmDataModel):
                             )
                         )
                     else:
-                        rews2 = np.sqrt(np.einsum("stp,p->st", wsp**2, rpoint_weights))
+                        rews2 = np.maximum(wsp[:, :, 0], 0.0)
                     self._set_res(fdata, v, rews2, downwind_index)
                     del rews2
                     vdone.append(v)
@@ -304,9 +304,7 @@ class RotorModel(FarmDataModel):
                             np.einsum("stp,p->st", wsp**3, rpoint_weights), 0.0
                         ) ** (1.0 / 3.0)
                     else:
-                        rews3 = (np.einsum("stp,p->st", wsp**3, rpoint_weights)) ** (
-                            1.0 / 3.0
-                        )
+                        rews3 = np.maximum(wsp[:, :, 0], 0.0)
                     self._set_res(fdata, v, rews3, downwind_index)
                     del rews3
                     vdone.append(v)
diff --git a/foxes/models/rotor_models/centre.py b/foxes/models/rotor_models/centre.py
index dc34055..fe86922 100644
--- a/foxes/models/rotor_models/centre.py
+++ b/foxes/models/rotor_models/centre.py
@@ -183,7 +183,7 @@ class CentreRotor(RotorModel):
 
             for v in self.calc_vars:
                 if v == FV.REWS or v == FV.REWS2 or v == FV.REWS3:
-                    rews = wsp[:, :, 0]
+                    rews = np.maximum(wsp[:, :, 0], 0.0)
                     self._set_res(fdata, v, rews, downwind_index)
                     del rews
                     vdone.append(v)
-- 
2.43.0


From 42f3fc5a565950d4d89d89ccb4a86f7d78941a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 07/97] fix: centre rotor with several given rotor points also
 stores the ambient results

---
 foxes/models/rotor_models/centre.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/foxes/models/rotor_models/centre.py b/foxes/models/rotor_models/centre.py
index fe86922..234bde7 100644
--- a/foxes/models/rotor_models/centre.py
+++ b/foxes/models/rotor_models/centre.py
@@ -126,7 +126,13 @@ class CentreRotor(RotorModel):
         """
         if len(rpoint_weights) > 1:
             return super().eval_rpoint_results(
-                algo, mdata, fdata, rpoint_results, rpoint_weights, downwind_index
+                algo,
+                mdata,
+                fdata,
+                rpoint_results,
+                rpoint_weights,
+                downwind_index,
+                copy_to_ambient,
             )
 
         n_states = mdata.n_states
-- 
2.43.0


From 50b8c509a695a0f547af57ff641d1a4c5a8f2038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 08/97] fix: wake mirrors apply the partial wakes model also to
 the original wake

---
 foxes/models/ground_models/wake_mirror.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/foxes/models/ground_models/wake_mirror.py b/foxes/models/ground_models/wake_mirror.py
index c00f093..7db1e33 100644
--- a/foxes/models/ground_models/wake_mirror.py
+++ b/foxes/models/ground_models/wake_mirror.py
@@ -75,8 +75,7 @@ class WakeMirror(GroundModel):
         # assert(np.all(fdata[FV.H]==fdata[FV.TXYH[..., 2]]))
 
         # contribution from main wake:
-        wcoos = algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, downwind_index)
-        wmodel.contribute(algo, mdata, fdata, tdata, downwind_index, wcoos, wake_deltas)
+        pwake.contribute(algo, mdata, fdata, tdata, downwind_index, wake_deltas, wmodel)
 
         # contribution from mirrors:
         tdata[FC.TARGETS] = tdata[FC.TARGETS].copy()  # making sure this is no ref
-- 
2.43.0


From 9c3f768e8d455e8dc8490c4e82b5928cf93564dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 09/97] fix: axiwake partial wakes of a rotor whose edge
 touches the wake axis

---
 foxes/models/partial_wakes/axiwake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/partial_wakes/axiwake.py b/foxes/models/partial_wakes/axiwake.py
index c41e63e..04e7790 100644
--- a/foxes/models/partial_wakes/axiwake.py
+++ b/foxes/models/partial_wakes/axiwake.py
@@ -168,7 +168,7 @@ class PartialAxiwake(PartialCentre):
             del hA, Rsel, Dsel, R1, R2
 
         # case wake centre inside rotor disk:
-        sel = (x > 0) & (R < D / 2)
+        sel = (x > 0) & (R <= D / 2)
         if np.any(sel):
             n_sel = np.sum(sel)
             Rsel = np.zeros((n_sel, self.n + 1), dtype=config.dtype_double)
-- 
2.43.0


From 0b49ff4a8fceca95a14548c02a732e8c10837b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 10/97] fix: ThreadsEngine runs each job on its own copy of the
 algorithm and models

The models are not stateless during calculation (e.g. wake-k variables are set
on call, the chunk store is reset per job), so sharing them between threads
gives spurious errors or mixed-up results.
---
 foxes/engines/futures.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/foxes/engines/futures.py b/foxes/engines/futures.py
index cdb808a..2250985 100644
--- a/foxes/engines/futures.py
+++ b/foxes/engines/futures.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
 
 from .pool import PoolEngine
@@ -35,6 +36,9 @@ class ThreadsEngine(PoolEngine):
             The future object
 
         """
+        # threads share memory, hence each job works on its own copy of
+        # the algorithm and model objects, since those are not stateless:
+        args, kwargs = deepcopy((args, kwargs))
         return self._pool.submit(f, *args, **kwargs)
 
     def _result(self, future):
@@ -70,3 +74,25 @@ class ProcessEngine(ThreadsEngine):
     def _create_pool(self):
         """Creates the pool"""
         self._pool = ProcessPoolExecutor(max_workers=self.n_procs)
+
+    def _submit(self, f, *args, **kwargs):
+        """
+        Submits to the pool
+
+        Parameters
+        ----------
+        f: Callable
+            The function f(*args, **kwargs) to be
+            submitted
+        args: tuple, optional
+            Arguments for the function
+        kwargs: dict, optional
+            Arguments for the function
+
+        Returns
+        -------
+        future: object
+            The future object
+
+        """
+        return self._pool.submit(f, *args, **kwargs)
-- 
2.43.0


From 5cc273f17ec5431e302c34f4e28f2ee51f5dd7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 11/97] fix: keep model data and farm data in the same turbine
 order

---
 .../downwind/models/init_farm_data.py         | 32 +++++++++++++++----
 foxes/algorithms/iterative/iterative.py       |  4 ++-
 .../iterative/models/farm_wakes_calc.py       | 14 +++++++-
 foxes/models/turbine_models/set_farm_vars.py  | 10 ++----
 4 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index 2d23d61..b38e78e 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -47,6 +47,28 @@ class InitFarmData(FarmDataModel):
             FV.ORDER_INV,
         ]
 
+    @classmethod
+    def reorder_mdata(cls, mdata, fdata):
+        """
+        Moves the turbine data within the model data from
+        farm order to downwind order.
+
+        Parameters
+        ----------
+        mdata: foxes.core.MData
+            The model data, will be modified
+        fdata: foxes.core.FData
+            The farm data, including the downwind order
+
+        """
+        ssel = fdata[FV.ORDER_SSEL]
+        order = fdata[FV.ORDER]
+        for k in mdata.keys():
+            if tuple(mdata.dims[k][:2]) == (FC.STATE, FC.TURBINE) and np.any(
+                mdata[k] != mdata[k][0, 0, None, None]
+            ):
+                mdata[k] = mdata[k][ssel, order]
+
     def calculate(self, algo, mdata, fdata):
         """
         The main model calculation.
@@ -124,14 +146,12 @@ class InitFarmData(FarmDataModel):
         fdata[FV.TXYH] = fdata[FV.TXYH][ssel, order]
         for i, v in enumerate([FV.X, FV.Y, FV.H]):
             fdata[v] = fdata[FV.TXYH][..., i]
-        for v in [FV.D, FV.WD]:
+        pvars = set(algo.farm_controller.pre_rotor_models.output_farm_vars(algo))
+        pvars = sorted(pvars.difference(self.output_farm_vars(algo)))
+        for v in [FV.D, FV.WD] + pvars:
             if np.any(fdata[v] != fdata[v][0, 0, None, None]):
                 fdata[v] = fdata[v][ssel, order]
         fdata[FV.YAW] = fdata[FV.WD].copy()
-        for k in mdata.keys():
-            if tuple(mdata.dims[k][:2]) == (FC.STATE, FC.TURBINE) and np.any(
-                mdata[k] != mdata[k][0, 0, None, None]
-            ):
-                mdata[k] = mdata[k][ssel, order]
+        self.reorder_mdata(mdata, fdata)
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 3dd6820..efe9771 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -227,7 +227,9 @@ class Iterative(Downwind):
 
                 # add model that calculates wake effects:
                 mlist.models.append(
-                    self.get_model("FarmWakesCalculation")(urelax=urelax)
+                    self.get_model("FarmWakesCalculation")(
+                        urelax=urelax, reorder_mdata=True
+                    )
                 )
                 calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
 
diff --git a/foxes/algorithms/iterative/models/farm_wakes_calc.py b/foxes/algorithms/iterative/models/farm_wakes_calc.py
index 3d85c90..d3136a7 100644
--- a/foxes/algorithms/iterative/models/farm_wakes_calc.py
+++ b/foxes/algorithms/iterative/models/farm_wakes_calc.py
@@ -2,6 +2,7 @@ import numpy as np
 from copy import deepcopy
 
 from foxes.core import FarmDataModel, TData
+from foxes.algorithms.downwind.models import InitFarmData
 import foxes.constants as FC
 import foxes.variables as FV
 
@@ -14,12 +15,15 @@ class FarmWakesCalculation(FarmDataModel):
     ----------
     urelax: foxes.algorithms.iterative.models.URelax
         The under-relaxation model
+    reorder_mdata: bool
+        Flag for moving the model data from farm order to
+        downwind order, for runs without InitFarmData
 
     :group: algorithms.iterative.models
 
     """
 
-    def __init__(self, urelax=None):
+    def __init__(self, urelax=None, reorder_mdata=False):
         """
         Constructor.
 
@@ -27,10 +31,14 @@ class FarmWakesCalculation(FarmDataModel):
         ----------
         urelax: foxes.algorithms.iterative.models.URelax, optional
             The under-relaxation model
+        reorder_mdata: bool
+            Flag for moving the model data from farm order to
+            downwind order, for runs without InitFarmData
 
         """
         super().__init__()
         self.urelax = urelax
+        self.reorder_mdata = reorder_mdata
 
     def output_farm_vars(self, algo):
         """
@@ -87,6 +95,10 @@ class FarmWakesCalculation(FarmDataModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
+        # bring model data into the order of the farm data:
+        if self.reorder_mdata:
+            InitFarmData.reorder_mdata(mdata, fdata)
+
         # collect ambient rotor results and weights:
         rotor = algo.rotor_model
         rwghts = algo.get_from_chunk_store(FC.ROTOR_WEIGHTS, mdata=mdata)
diff --git a/foxes/models/turbine_models/set_farm_vars.py b/foxes/models/turbine_models/set_farm_vars.py
index d3e0f5c..e43ec81 100644
--- a/foxes/models/turbine_models/set_farm_vars.py
+++ b/foxes/models/turbine_models/set_farm_vars.py
@@ -271,18 +271,12 @@ class SetFarmVars(TurbineModel):
         i0 = mdata.states_i0(counter=True)
         if not self.once or i0 not in self.__once_done:
 
-            if self.pre_rotor:
-                order = np.s_[:]
-                ssel = np.s_[:]
-            else:
-                order = fdata[FV.ORDER]
-                ssel = fdata[FV.ORDER_SSEL]
-
             bsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
             bsel[st_sel] = True
 
             for v in self.vars:
-                data = mdata[self.var(v)][ssel, order]
+                # model data and farm data are in the same turbine order:
+                data = mdata[self.var(v)]
                 hsel = ~np.isnan(data)
                 tsel = bsel & hsel
 
-- 
2.43.0


From ecae9c2437dd908362690776ac4331a9c4e58bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 12/97] fix: power and thrust curve types do not modify the
 rotor wind speeds

---
 foxes/models/turbine_types/PCt_file.py     | 4 ++--
 foxes/models/turbine_types/PCt_from_two.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 70732c1..2b89a39 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -302,8 +302,8 @@ class PCtFile(TurbineType):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        rews2 = fdata[self.WSCT][st_sel]
-        rews3 = fdata[self.WSP][st_sel]
+        rews2 = fdata[self.WSCT][st_sel].copy()
+        rews3 = fdata[self.WSP][st_sel].copy()
 
         # apply air density correction:
         if self.rho is not None:
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 8fa8bb8..14cb92a 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -347,8 +347,8 @@ class PCtFromTwo(TurbineType):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        rews2 = fdata[self.WSCT][st_sel]
-        rews3 = fdata[self.WSP][st_sel]
+        rews2 = fdata[self.WSCT][st_sel].copy()
+        rews3 = fdata[self.WSP][st_sel].copy()
 
         # apply air density correction:
         if self.rho is not None:
-- 
2.43.0


From fe7c8fdd249356a56bd0045e9bdacd3cdbe3c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 13/97] fix: power increases with air density in the density
 correction

---
 foxes/models/turbine_types/PCt_file.py          | 2 +-
 foxes/models/turbine_types/PCt_from_two.py      | 2 +-
 foxes/models/turbine_types/lookup.py            | 2 +-
 foxes/models/turbine_types/wsti2PCt_from_two.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 2b89a39..91767e2 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -312,7 +312,7 @@ class PCtFile(TurbineType):
             # correct value is reconstructed:
             rho = fdata[FV.RHO][st_sel]
             # rews2 *= (self.rho / rho) ** 0.5
-            rews3 *= (self.rho / rho) ** (1.0 / 3.0)
+            rews3 *= (rho / self.rho) ** (1.0 / 3.0)
             del rho
 
         # in yawed case, calc yaw corrected wind speed:
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 14cb92a..c95e4b9 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -357,7 +357,7 @@ class PCtFromTwo(TurbineType):
             # correct value is reconstructed:
             rho = fdata[FV.RHO][st_sel]
             # rews2 *= (self.rho / rho) ** 0.5
-            rews3 *= (self.rho / rho) ** (1.0 / 3.0)
+            rews3 *= (rho / self.rho) ** (1.0 / 3.0)
             del rho
 
         # in yawed case, calc yaw corrected wind speed:
diff --git a/foxes/models/turbine_types/lookup.py b/foxes/models/turbine_types/lookup.py
index 2d73723..df8a0c8 100644
--- a/foxes/models/turbine_types/lookup.py
+++ b/foxes/models/turbine_types/lookup.py
@@ -279,7 +279,7 @@ class FromLookupTable(TurbineType):
             # that in the partial load region the
             # correct value is reconstructed:
             rho = fdata[FV.RHO][st_sel]
-            rews3[st_sel] *= (self.rho / rho) ** (1.0 / 3.0)
+            rews3[st_sel] *= (rho / self.rho) ** (1.0 / 3.0)
             del rho
 
         # in yawed case, calc yaw corrected wind speed:
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index e2c42f7..1e78689 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -297,7 +297,7 @@ class WsTI2PCtFromTwo(TurbineType):
                 # that in the partial load region the
                 # correct value is reconstructed:
                 rho = fdata[FV.RHO][st_sel]
-                qts[:, 0] *= (self.rho / rho) ** (1.0 / 3.0)
+                qts[:, 0] *= (rho / self.rho) ** (1.0 / 3.0)
                 del rho
 
             # apply yaw corrections:
-- 
2.43.0


From c9215a71c7246992ffae17ff15f7f33e67be2f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 14/97] fix: PowerMask uses the rated power in downwind order

---
 foxes/models/turbine_models/power_mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/power_mask.py b/foxes/models/turbine_models/power_mask.py
index 6e3b53e..8745aad 100644
--- a/foxes/models/turbine_models/power_mask.py
+++ b/foxes/models/turbine_models/power_mask.py
@@ -153,7 +153,7 @@ class PowerMask(TurbineModel):
         # prepare:
         P = fdata[FV.P]
         max_P = fdata[FV.MAX_P]
-        P_rated = self._P_rated[None, :]
+        P_rated = self._P_rated[fdata[FV.ORDER]]
 
         # select power entries for which this is active:
         sel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
-- 
2.43.0


From 5c206fc3598b8313d2638d3311c87a915218b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 15/97] fix: ReorderFarmOutput does not permute the inverse
 order

---
 foxes/algorithms/downwind/models/reorder_farm_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/models/reorder_farm_output.py b/foxes/algorithms/downwind/models/reorder_farm_output.py
index 3e2a500..cc0f4af 100644
--- a/foxes/algorithms/downwind/models/reorder_farm_output.py
+++ b/foxes/algorithms/downwind/models/reorder_farm_output.py
@@ -76,7 +76,7 @@ class ReorderFarmOutput(FarmDataModel):
         out = {}
         for v in self.output_farm_vars(algo):
             if (
-                v != FV.ORDER
+                v not in [FV.ORDER, FV.ORDER_INV]
                 and fdata[v].shape[1] > 1
                 and np.any(fdata[v] != fdata[v][0, 0, None, None])
             ):
-- 
2.43.0


From ed192ce8f201b1443876e759155e731e2183a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 16/97] fix: state dependent rotor diameters and hub heights
 with several chunks

---
 foxes/algorithms/downwind/models/init_farm_data.py | 8 ++++----
 foxes/models/turbine_models/set_farm_vars.py       | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index b38e78e..2fc76b7 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -107,24 +107,24 @@ class InitFarmData(FarmDataModel):
 
         # set X, Y, H, D:
         fdata[FV.D] = np.zeros((n_states, n_turbines), dtype=config.dtype_double)
+        i0 = fdata.states_i0(counter=True)
+        s = np.s_[i0 : i0 + n_states]
         for ti, t in enumerate(algo.farm.turbines):
 
             if len(t.xy.shape) == 1:
                 fdata[FV.TXYH][:, ti, :2] = t.xy[None, :]
             else:
-                i0 = fdata.states_i0(counter=True)
-                s = np.s_[i0 : i0 + fdata.n_states]
                 fdata[FV.TXYH][:, ti, :2] = t.xy[s]
 
             H = t.H
             if H is None:
                 H = algo.farm_controller.turbine_types[ti].H
-            fdata[FV.TXYH][:, ti, 2] = H
+            fdata[FV.TXYH][:, ti, 2] = H if np.ndim(H) == 0 else H[s]
 
             D = t.D
             if D is None:
                 D = algo.farm_controller.turbine_types[ti].D
-            fdata[FV.D][:, ti] = D
+            fdata[FV.D][:, ti] = D if np.ndim(D) == 0 else D[s]
 
         # calc WD and YAW at rotor centres:
         svrs = algo.states.output_point_vars(algo)
diff --git a/foxes/models/turbine_models/set_farm_vars.py b/foxes/models/turbine_models/set_farm_vars.py
index e43ec81..03841d3 100644
--- a/foxes/models/turbine_models/set_farm_vars.py
+++ b/foxes/models/turbine_models/set_farm_vars.py
@@ -166,12 +166,13 @@ class SetFarmVars(TurbineModel):
             if v in [FV.D, FV.H]:
                 for ti in range(algo.n_turbines):
                     t = algo.farm.turbines[ti]
+                    ttype = algo.farm_controller.turbine_types[ti]
                     x = np.zeros(algo.n_states, dtype=config.dtype_double)
                     if v == FV.D:
-                        x[:] = t.D
+                        x[:] = t.D if t.D is not None else ttype.D
                         t.D = x
                     else:
-                        x[:] = t.H
+                        x[:] = t.H if t.H is not None else ttype.H
                         t.H = x
                     x[:] = np.where(np.isnan(data[:, ti]), x, data[:, ti])
 
-- 
2.43.0


From 4712a290fc1d0f1f9318a935d2e90e071bba3a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:24 +0000
Subject: [PATCH 17/97] fix: the final run of Iterative returns the last
 iteration in farm order

---
 foxes/algorithms/iterative/iterative.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index efe9771..bd301e2 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -77,6 +77,7 @@ class Iterative(Downwind):
         )
         self.__prev_farm_results = None
         self._it = None
+        self._final_run = False
         self._mlist = None
         self._reamb = False
         self._urelax = None
@@ -169,7 +170,7 @@ class Iterative(Downwind):
         """
         Helper function that creates model list
         """
-        if self._it == 0:
+        if self._it == 0 and not self._final_run:
             self._mlist0, self._calc_pars0 = super()._collect_farm_models(
                 outputs=False,
                 calc_parameters=calc_parameters,
@@ -209,7 +210,7 @@ class Iterative(Downwind):
 
             return self._mlist0, self._calc_pars0
 
-        elif ambient or self._reamb:
+        elif (ambient or self._reamb) and not self._final_run:
             return self._mlist0, self._calc_pars0
 
         else:
@@ -325,6 +326,7 @@ class Iterative(Downwind):
         # final run, recovers farm order of results:
         self.print("Starting final run", vlim=0)
         self._final_run = True
+        self.__prev_farm_results = fres
         fres = super().calc_farm(outputs=outputs, finalize=False, **kwargs)
 
         # finalize models:
-- 
2.43.0


From 5f478f1c738c591f115db71630371874c09649fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 18/97] fix: SectorManagement acts on the right turbines and
 respects the selection

---
 .../turbine_models/sector_management.py       | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 98f7a7e..741d485 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -189,19 +189,16 @@ class SectorManagement(TurbineModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        # prepare:
-        n_trbs = len(self._trbs)
-        if n_trbs == fdata.n_turbines and np.all(
-            self._trbs == np.arange(fdata.n_turbines)
-        ):
-            tsel = np.s_[:]
-        else:
-            tsel = self._trbs
-
-        # find state-turbine data that matches ranges:
-        rsel = np.ones((fdata.n_states, n_trbs), dtype=bool)
+        # prepare, find the downwind order index of the turbines:
+        tsel = fdata[FV.ORDER_INV][:, self._trbs]
+        ssel = np.arange(fdata.n_states)[:, None]
+
+        # find selected state-turbine data that matches ranges:
+        bsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        bsel[st_sel] = True
+        rsel = bsel[ssel, tsel]
         for vi, v in enumerate(self._rvars):
-            d = fdata[v][:, tsel]
+            d = fdata[v][ssel, tsel]
             if v in self._perds:
                 d = np.mod(d, self._perds[v])
                 mi = self._rdata[:, vi, 0]
@@ -227,7 +224,7 @@ class SectorManagement(TurbineModel):
         # set target data:
         if np.any(rsel):
             sel = np.where(rsel)
-            selt = self._trbs[sel[1]]
+            selt = tsel[sel]
             for vi, v in enumerate(self._tvars):
                 fdata[v][sel[0], selt] = self._tdata[None, sel[1], vi]
 
-- 
2.43.0


From d89824ccb871a71fe5407aed63cad96e75db75fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 19/97] fix: SectorManagement supports sectors that cover the
 full period

---
 foxes/models/turbine_models/sector_management.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 741d485..09b564e 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -144,7 +144,10 @@ class SectorManagement(TurbineModel):
 
         for vi, v in enumerate(self._rvars):
             if v in self._perds:
+                full = self._rdata[:, vi, 1] - self._rdata[:, vi, 0] >= self._perds[v]
                 self._rdata[:, vi] = np.mod(self._rdata[:, vi], self._perds[v])
+                self._rdata[full, vi, 0] = 0
+                self._rdata[full, vi, 1] = self._perds[v]
 
     def output_farm_vars(self, algo):
         """
-- 
2.43.0


From 098c2cca35c78cb4e0ef20112f12faa08e6ee9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 20/97] fix: selections, ranges and thrust inputs of the ws-rho
 and ws-TI power curve types

---
 .../turbine_types/wsrho2PCt_from_two.py       | 115 +++++++-------
 .../models/turbine_types/wsti2PCt_from_two.py | 147 ++++++++----------
 2 files changed, 118 insertions(+), 144 deletions(-)

diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index b69611f..d02c4ce 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -263,84 +263,73 @@ class WsRho2PCtFromTwo(TurbineType):
 
         """
 
+        # find selection as bool array:
+        sel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        sel[st_sel] = True
+
         # calculate P:
-        st_sel_P = (
-            st_sel
-            & (fdata[self.WSP] >= self._ws_P[0])
-            & (fdata[self.WSP] <= self._ws_P[-1])
-        )
-        st_sel_P0 = st_sel & ~st_sel_P
-        if np.any(st_sel_P0):
-            fdata[FV.P][st_sel_P0] = 0
-        if np.any(st_sel_P):
-            # prepare interpolation:
-            n_sel = np.sum(st_sel_P)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, rho
-            qts[:, 0] = fdata[self.WSP][st_sel_P]
-            qts[:, 1] = fdata[FV.RHO][st_sel_P]
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_P is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_P]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_P) ** (1.0 / 3.0)
-                del yawm, cosm
-
-            # run interpolation:
+        ws = fdata[self.WSP][sel]
+        rho = fdata[FV.RHO][sel]
+
+        # apply yaw corrections:
+        if FV.YAWM in fdata and self.p_P is not None:
+            # calculate corrected wind speed,
+            # gives the correct value in the partial load
+            # region and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][sel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws *= (cosm**self.p_P) ** (1.0 / 3.0)
+            del yawm, cosm
+
+        # run interpolation, zero outside the wind speed range:
+        res = np.zeros_like(ws)
+        rng = (ws >= self._ws_P[0]) & (ws <= self._ws_P[-1])
+        if np.any(rng):
+            qts = np.stack([ws[rng], rho[rng]], axis=1)
             try:
-                fdata[FV.P][st_sel_P] = interpn(
+                res[rng] = interpn(
                     (self._ws_P, self._rho_P), self._P, qts, **self.ipars_P
                 )
             except ValueError as e:
                 self._bounds_info(FV.P, qts)
                 raise e
-        del st_sel_P, st_sel_P0
+        fdata[FV.P][sel] = res
 
         # calculate ct:
-        st_sel_ct = (
-            st_sel
-            & (fdata[self.WSCT] >= self._ws_P[0])
-            & (fdata[self.WSCT] <= self._ws_P[-1])
-        )
-        st_sel_ct0 = st_sel & ~st_sel_ct
-        if np.any(st_sel_ct0):
-            fdata[FV.CT][st_sel_ct0] = 0
-        if np.any(st_sel_ct):
-            # prepare interpolation:
-            n_sel = np.sum(st_sel_ct)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, rho
-            qts[:, 0] = fdata[self.WSP][st_sel_ct]
-            qts[:, 1] = fdata[FV.RHO][st_sel_ct]
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_ct is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_ct]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_ct) ** 0.5
-                del yawm, cosm
-
-            # run interpolation:
+        ws = fdata[self.WSCT][sel]
+        rho = fdata[FV.RHO][sel]
+
+        # apply yaw corrections:
+        if FV.YAWM in fdata and self.p_ct is not None:
+            # calculate corrected wind speed,
+            # gives the correct value in the partial load
+            # region and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][sel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws *= (cosm**self.p_ct) ** 0.5
+            del yawm, cosm
+
+        # run interpolation, zero outside the wind speed range:
+        res = np.zeros_like(ws)
+        rng = (ws >= self._ws_ct[0]) & (ws <= self._ws_ct[-1])
+        if np.any(rng):
+            qts = np.stack([ws[rng], rho[rng]], axis=1)
             try:
-                fdata[FV.CT][st_sel_ct] = interpn(
+                res[rng] = interpn(
                     (self._ws_ct, self._rho_ct), self._ct, qts, **self.ipars_ct
                 )
             except ValueError as e:
                 self._bounds_info(FV.CT, qts)
                 raise e
+        fdata[FV.CT][sel] = res
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
 
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index 1e78689..2239f30 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -275,102 +275,87 @@ class WsTI2PCtFromTwo(TurbineType):
 
         """
 
+        # find selection as bool array:
+        sel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        sel[st_sel] = True
+
         # calculate P:
-        st_sel_P = (
-            st_sel
-            & (fdata[self.WSP] >= self._ws_P[0])
-            & (fdata[self.WSP] <= self._ws_P[-1])
-        )
-        st_sel_P0 = st_sel & ~st_sel_P
-        if np.any(st_sel_P0):
-            fdata[FV.P][st_sel_P0] = 0
-        if np.any(st_sel_P):
-            # prepare interpolation:
-            n_sel = np.sum(st_sel_P)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, ti
-            qts[:, 0] = fdata[self.WSP][st_sel_P]
-            qts[:, 1] = fdata[FV.TI][st_sel_P]
-
-            # apply air density correction:
-            if self.rho is not None:
-                # correct wind speed by air density, such
-                # that in the partial load region the
-                # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel]
-                qts[:, 0] *= (rho / self.rho) ** (1.0 / 3.0)
-                del rho
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_P is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_P]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_P) ** (1.0 / 3.0)
-                del yawm, cosm
-
-            # run interpolation:
+        ws = fdata[self.WSP][sel]
+        ti = fdata[FV.TI][sel]
+
+        # apply air density correction:
+        if self.rho is not None:
+            # correct wind speed by air density, such
+            # that in the partial load region the
+            # correct value is reconstructed:
+            ws *= (fdata[FV.RHO][sel] / self.rho) ** (1.0 / 3.0)
+
+        # apply yaw corrections:
+        if FV.YAWM in fdata and self.p_P is not None:
+            # calculate corrected wind speed,
+            # gives the correct value in the partial load
+            # region and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][sel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws *= (cosm**self.p_P) ** (1.0 / 3.0)
+            del yawm, cosm
+
+        # run interpolation, zero outside the wind speed range:
+        res = np.zeros_like(ws)
+        rng = (ws >= self._ws_P[0]) & (ws <= self._ws_P[-1])
+        if np.any(rng):
+            qts = np.stack([ws[rng], ti[rng]], axis=1)
             try:
-                fdata[FV.P][st_sel_P] = interpn(
+                res[rng] = interpn(
                     (self._ws_P, self._ti_P), self._P, qts, **self.ipars_P
                 )
             except ValueError as e:
                 self._bounds_info(FV.P, qts)
                 raise e
-        del st_sel_P, st_sel_P0
+        fdata[FV.P][sel] = res
 
         # calculate ct:
-        st_sel_ct = (
-            st_sel
-            & (fdata[self.WSCT] >= self._ws_P[0])
-            & (fdata[self.WSCT] <= self._ws_P[-1])
-        )
-        st_sel_ct0 = st_sel & ~st_sel_ct
-        if np.any(st_sel_ct0):
-            fdata[FV.CT][st_sel_ct0] = 0
-        if np.any(st_sel_ct):
-            # prepare interpolation:
-            n_sel = np.sum(st_sel_ct)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, ti
-            qts[:, 0] = fdata[self.WSP][st_sel_ct]
-            qts[:, 1] = fdata[FV.TI][st_sel_ct]
-
-            # apply air density correction:
-            if self.rho is not None:
-                # correct wind speed by air density, such
-                # that in the partial load region the
-                # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel]
-                qts[:, 0] *= (self.rho / rho) ** 0.5
-                del rho
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_ct is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_ct]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_ct) ** 0.5
-                del yawm, cosm
-
-            # run interpolation:
+        ws = fdata[self.WSCT][sel]
+        ti = fdata[FV.TI][sel]
+
+        # apply air density correction:
+        if self.rho is not None:
+            # correct wind speed by air density, such
+            # that in the partial load region the
+            # correct value is reconstructed:
+            ws *= (fdata[FV.RHO][sel] / self.rho) ** 0.5
+
+        # apply yaw corrections:
+        if FV.YAWM in fdata and self.p_ct is not None:
+            # calculate corrected wind speed,
+            # gives the correct value in the partial load
+            # region and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][sel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
+                )
+            cosm = np.cos(yawm / 180 * np.pi)
+            ws *= (cosm**self.p_ct) ** 0.5
+            del yawm, cosm
+
+        # run interpolation, zero outside the wind speed range:
+        res = np.zeros_like(ws)
+        rng = (ws >= self._ws_ct[0]) & (ws <= self._ws_ct[-1])
+        if np.any(rng):
+            qts = np.stack([ws[rng], ti[rng]], axis=1)
             try:
-                fdata[FV.CT][st_sel_ct] = interpn(
+                res[rng] = interpn(
                     (self._ws_ct, self._ti_ct), self._ct, qts, **self.ipars_ct
                 )
             except ValueError as e:
                 self._bounds_info(FV.CT, qts)
                 raise e
+        fdata[FV.CT][sel] = res
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
 
-- 
2.43.0


From 1474c721074482da76b3551d2d48ca5147ebff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:39 +0000
Subject: [PATCH 21/97] fix: TableFactors with selections that are slices

---
 foxes/models/turbine_models/table_factors.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_models/table_factors.py b/foxes/models/turbine_models/table_factors.py
index d9b235d..d6d29f6 100644
--- a/foxes/models/turbine_models/table_factors.py
+++ b/foxes/models/turbine_models/table_factors.py
@@ -143,10 +143,12 @@ class TableFactors(TurbineModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        n_sel = np.sum(st_sel)
+        sel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        sel[st_sel] = True
+        n_sel = np.sum(sel)
         qts = np.zeros((n_sel, 2), dtype=config.dtype_double)
-        qts[:, 0] = fdata[self.row_var][st_sel]
-        qts[:, 1] = fdata[self.col_var][st_sel]
+        qts[:, 0] = fdata[self.row_var][sel]
+        qts[:, 1] = fdata[self.col_var][sel]
 
         try:
             factors = interpn(
@@ -163,6 +165,6 @@ class TableFactors(TurbineModel):
             raise e
 
         for v in self.output_farm_vars(algo):
-            fdata[v][st_sel] *= factors
+            fdata[v][sel] *= factors
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
-- 
2.43.0


From 14d5099bc12cf6b086185fca518d3a3440410d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:50 +0000
Subject: [PATCH 22/97] fix: kTI uses the given uniform TI value

---
 foxes/models/turbine_models/kTI_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/kTI_model.py b/foxes/models/turbine_models/kTI_model.py
index ed93057..cbc1c05 100644
--- a/foxes/models/turbine_models/kTI_model.py
+++ b/foxes/models/turbine_models/kTI_model.py
@@ -122,7 +122,7 @@ class kTI(TurbineModel):
         ti = self.get_data(
             self.ti_var,
             FC.STATE_TURBINE,
-            lookup="f",
+            lookup="sf",
             fdata=fdata,
             upcast=False,
             selection=st_sel,
-- 
2.43.0


From c66a506f409e3a279f7937db75d530a395b08b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:50 +0000
Subject: [PATCH 23/97] fix: Model.get_data selects the turbine in model and
 target data

---
 foxes/core/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/core/model.py b/foxes/core/model.py
index a451056..70f670c 100644
--- a/foxes/core/model.py
+++ b/foxes/core/model.py
@@ -426,7 +426,7 @@ class Model(ABC):
                 a, d = _filter_dims(mdata)
                 l = len(d)
                 if l <= len(dims) and d == dims[:l]:
-                    out = _match_shape(mdata[variable])
+                    out = _match_shape(a)
 
             # lookup fdata:
             elif (
@@ -450,7 +450,7 @@ class Model(ABC):
                 a, d = _filter_dims(tdata)
                 l = len(d)
                 if l <= len(dims) and d == dims[:l]:
-                    out = _match_shape(tdata[variable])
+                    out = _match_shape(a)
 
             # lookup wake modelling data:
             elif (
-- 
2.43.0


From a02436c89d0c2a1c21b729935c7d53b09fde6899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:22 +0000
Subject: [PATCH 24/97] fix: Model.get_data does not replace data from the
 model by farm data of other states

---
 foxes/core/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/core/model.py b/foxes/core/model.py
index 70f670c..fa6ee0a 100644
--- a/foxes/core/model.py
+++ b/foxes/core/model.py
@@ -486,7 +486,8 @@ class Model(ABC):
 
         # data from other chunks, only with iterations:
         if (
-            target in [FC.STATE_TARGET, FC.STATE_TARGET_TPOINT]
+            s in ["f", "w"]
+            and target in [FC.STATE_TARGET, FC.STATE_TARGET_TPOINT]
             and fdata is not None
             and variable in fdata
             and tdata is not None
-- 
2.43.0


From 43ff383f272c302b16e029b7338337c1b0f5c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 25/97] fix: the default nominal power has the unit of the
 power curve

---
 foxes/models/turbine_types/PCt_file.py     | 3 +--
 foxes/models/turbine_types/PCt_from_two.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 91767e2..e9549d5 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -7,7 +7,6 @@ from foxes.utils import PandasFileHelper
 from foxes.data import PCTCURVE, parse_Pct_file_name
 from foxes.config import get_input_path
 import foxes.variables as FV
-import foxes.constants as FC
 
 
 class PCtFile(TurbineType):
@@ -191,7 +190,7 @@ class PCtFile(TurbineType):
         self.data_ct = data[self.col_ct].to_numpy()
 
         if self.P_nominal is None:
-            self.P_nominal = np.max(self.data_P) / FC.P_UNITS[self.P_unit]
+            self.P_nominal = np.max(self.data_P)
             if verbosity > 0:
                 print(
                     f"Turbine type '{self.name}': Setting P_nominal = {self.P_nominal:.2f} {self.P_unit}"
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index c95e4b9..ebcf798 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -6,7 +6,6 @@ from foxes.utils import PandasFileHelper
 from foxes.data import PCTCURVE, parse_Pct_two_files
 from foxes.config import get_input_path
 import foxes.variables as FV
-import foxes.constants as FC
 
 
 class PCtFromTwo(TurbineType):
@@ -222,7 +221,7 @@ class PCtFromTwo(TurbineType):
         self._data_ct = self._data_ct[self.col_ct].to_numpy()
 
         if self.P_nominal is None:
-            self.P_nominal = np.max(self._data_P) / FC.P_UNITS[self.P_unit]
+            self.P_nominal = np.max(self._data_P)
             if verbosity > 0:
                 print(
                     f"Turbine type '{self.name}': Setting P_nominal = {self.P_nominal:.2f} {self.P_unit}"
-- 
2.43.0


From b6b4b216f64d83ee65ee280423c8cd01c5153287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 26/97] fix: Iterative modifies the curve of each turbine type
 once

---
 foxes/algorithms/iterative/iterative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index bd301e2..d1a089d 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -132,7 +132,7 @@ class Iterative(Downwind):
         """
         super().initialize()
         if len(self._mod_cutin):
-            for t in self.farm_controller.turbine_types:
+            for t in dict.fromkeys(self.farm_controller.turbine_types):
                 t.modify_cutin(**self._mod_cutin)
 
     @property
-- 
2.43.0


From 2620ee61c13f799ce76ff0154abc0998d1989eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 27/97] fix: modify_cutin keeps the curve that is not to be
 modified, and supports integer wind speeds

---
 foxes/models/turbine_types/PCt_file.py     | 27 +++++++++++-----------
 foxes/models/turbine_types/PCt_from_two.py |  6 ++---
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index e9549d5..fda0907 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -5,7 +5,7 @@ from pathlib import Path
 from foxes.core import TurbineType
 from foxes.utils import PandasFileHelper
 from foxes.data import PCTCURVE, parse_Pct_file_name
-from foxes.config import get_input_path
+from foxes.config import config, get_input_path
 import foxes.variables as FV
 
 
@@ -185,7 +185,8 @@ class PCtFile(TurbineType):
             data = PandasFileHelper.read_file(fpath, **self.rpars)
 
         data = data.set_index(self.col_ws).sort_index()
-        self.data_ws = data.index.to_numpy()
+        self.data_ws_P = data.index.to_numpy()
+        self.data_ws_ct = self.data_ws_P
         self.data_P = data[self.col_P].to_numpy()
         self.data_ct = data[self.col_ct].to_numpy()
 
@@ -232,7 +233,7 @@ class PCtFile(TurbineType):
         """
         if modify_ct or modify_P:
 
-            ws = self.data_ws
+            ws = self.data_ws_P
             ct = self.data_ct
             P = self.data_P
 
@@ -254,23 +255,23 @@ class PCtFile(TurbineType):
                 ct = ct[i:]
                 P = P[i:]
 
-                new_ws = np.linspace(0.0, ws[0], steps + 1, dtype=ws.dtype)
-                new_ct = np.zeros_like(new_ws)
-                new_P = np.zeros_like(new_ws)
+                new_ws = np.linspace(0.0, ws[0], steps + 1, dtype=config.dtype_double)
 
                 if modify_ct:
+                    new_ct = np.zeros_like(new_ws)
                     new_ct[-1] = ct[0]
                     for it in range(iterations):
                         new_ct[1:-1] = a * new_ct[:-2] + (1 - a) * new_ct[2:]
+                    self.data_ws_ct = np.concatenate([new_ws[:-1], ws], axis=0)
+                    self.data_ct = np.concatenate([new_ct[:-1], ct], axis=0)
 
                 if modify_P:
+                    new_P = np.zeros_like(new_ws)
                     new_P[-1] = P[0]
                     for it in range(iterations):
                         new_P[1:-1] = b * new_P[:-2] + (1 - b) * new_P[2:]
-
-                self.data_ws = np.concatenate([new_ws[:-1], ws], axis=0)
-                self.data_ct = np.concatenate([new_ct[:-1], ct], axis=0)
-                self.data_P = np.concatenate([new_P[:-1], P], axis=0)
+                    self.data_ws_P = np.concatenate([new_ws[:-1], ws], axis=0)
+                    self.data_P = np.concatenate([new_P[:-1], P], axis=0)
 
         else:
             super().modify_cutin(modify_ct, modify_P)
@@ -337,10 +338,10 @@ class PCtFile(TurbineType):
         }
 
         out[FV.P][st_sel] = np.interp(
-            rews3, self.data_ws, self.data_P, left=0.0, right=0.0
+            rews3, self.data_ws_P, self.data_P, left=0.0, right=0.0
         )
         out[FV.CT][st_sel] = np.interp(
-            rews2, self.data_ws, self.data_ct, left=0.0, right=0.0
+            rews2, self.data_ws_ct, self.data_ct, left=0.0, right=0.0
         )
 
         return out
@@ -358,4 +359,4 @@ class PCtFile(TurbineType):
 
         """
         super().finalize(algo, verbosity)
-        del self.data_ws, self.data_P, self.data_ct
+        del self.data_ws_P, self.data_ws_ct, self.data_P, self.data_ct
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index ebcf798..c8773ff 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -4,7 +4,7 @@ import pandas as pd
 from foxes.core import TurbineType
 from foxes.utils import PandasFileHelper
 from foxes.data import PCTCURVE, parse_Pct_two_files
-from foxes.config import get_input_path
+from foxes.config import config, get_input_path
 import foxes.variables as FV
 
 
@@ -279,7 +279,7 @@ class PCtFromTwo(TurbineType):
                 ws = ws[i:]
                 ct = ct[i:]
 
-                new_ws = np.linspace(0.0, ws[0], steps + 1, dtype=ws.dtype)
+                new_ws = np.linspace(0.0, ws[0], steps + 1, dtype=config.dtype_double)
                 new_ct = np.zeros_like(new_ws)
 
                 new_ct[-1] = ct[0]
@@ -307,7 +307,7 @@ class PCtFromTwo(TurbineType):
                 ws = ws[i:]
                 P = P[i:]
 
-                new_ws = np.linspace(0.0, ws[0], steps + 1, dtype=ws.dtype)
+                new_ws = np.linspace(0.0, ws[0], steps + 1, dtype=config.dtype_double)
                 new_P = np.zeros_like(new_ws)
 
                 new_P[-1] = P[0]
-- 
2.43.0


From 9187e1f2932ab1b151dd5779db137cc40d7aee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 28/97] fix: FromLookupTable takes the thrust coefficient at
 the thrust wind speed

---
 foxes/models/turbine_types/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_types/lookup.py b/foxes/models/turbine_types/lookup.py
index df8a0c8..ba26c52 100644
--- a/foxes/models/turbine_types/lookup.py
+++ b/foxes/models/turbine_types/lookup.py
@@ -308,7 +308,7 @@ class FromLookupTable(TurbineType):
             out = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)
         else:
             fdata_lookup[FV.REWS] = rews2
-            ct = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)[FV.CT]
+            ct = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)[FV.CT].copy()
             fdata_lookup[FV.REWS] = rews3
             out = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)
             out[FV.CT] = ct
-- 
2.43.0


From 44fe118335b7bc94336d57c35033cbb1c04e46ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 29/97] fix: CpCtFile provides the thrust coefficient column

---
 foxes/models/turbine_types/CpCt_file.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/foxes/models/turbine_types/CpCt_file.py b/foxes/models/turbine_types/CpCt_file.py
index 6f4b959..a939f67 100644
--- a/foxes/models/turbine_types/CpCt_file.py
+++ b/foxes/models/turbine_types/CpCt_file.py
@@ -23,6 +23,7 @@ class CpCtFile(PCtFile):
         data_source,
         col_ws="ws",
         col_cp="cp",
+        col_ct="ct",
         rho=1.225,
         pd_file_read_pars={},
         **parameters,
@@ -38,6 +39,8 @@ class CpCtFile(PCtFile):
             The wind speed column
         col_cp: str
             The cp column
+        col_ct: str
+            The ct column
         rho: float
             The air density for the curves
         pd_file_read_pars: dict
@@ -73,4 +76,16 @@ class CpCtFile(PCtFile):
             0.5 * rho * A * data_P["cp"] * data_P["ws"] ** 3 / FC.P_UNITS[P_unit]
         )
 
-        super().__init__(data_P, col_ws="ws", col_P="P", rho=rho, P_unit=P_unit, **pars)
+        data_P["ct"] = np.interp(
+            data_P["ws"], ws, data[col_ct].to_numpy(), left=0, right=0
+        )
+
+        super().__init__(
+            data_P,
+            col_ws="ws",
+            col_P="P",
+            col_ct="ct",
+            rho=rho,
+            P_unit=P_unit,
+            **pars,
+        )
-- 
2.43.0


From 32cfcfec0e0f231a59347510dd6280618671bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 30/97] fix: cubic_roots returns the roots of polynomials with
 one real root or a triple root

---
 foxes/models/turbine_models/power_mask.py |  2 +-
 foxes/utils/cubic_roots.py                | 21 ++++++++++-----------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/foxes/models/turbine_models/power_mask.py b/foxes/models/turbine_models/power_mask.py
index 8745aad..7eab96a 100644
--- a/foxes/models/turbine_models/power_mask.py
+++ b/foxes/models/turbine_models/power_mask.py
@@ -195,7 +195,7 @@ class PowerMask(TurbineModel):
             a0 = -cp / e
             rts = cubic_roots(a0, a1, a2, a3)
             rts[np.isnan(rts)] = np.inf
-            rts[rts <= 0.0] = np.inf
+            rts[(rts <= 0.0) | (rts > 1.0)] = np.inf
             a = np.min(rts, axis=1)
             del a0, a1, a2, a3, rts
 
diff --git a/foxes/utils/cubic_roots.py b/foxes/utils/cubic_roots.py
index 37da261..8706704 100644
--- a/foxes/utils/cubic_roots.py
+++ b/foxes/utils/cubic_roots.py
@@ -52,20 +52,19 @@ def cubic_roots(a0, a1, a2, a3=None):
     D = Q3 + R * R
     b_a_3 = (1.0 / 3.0) * b_a
 
-    sel = Q == 0.0
+    sel = (Q == 0.0) & (R == 0.0)
     if np.any(sel):
-        o = out[sel, 0]
+        # One triple root
+        out[sel, 0] = -b_a_3[sel]
 
-        sel2 = R == 0.0
-        if np.any(sel2):
-            o[sel2] = -b_a_3[sel][sel2]
-
-        if np.any(~sel2):
-            o[~sel2] = np.pow(2 * R[sel][~sel2], 1 / 3.0) - b_a_3[sel][~sel2]
-
-        out[sel, 0] = o
+    sel = D > 0.0
+    if np.any(sel):
+        # One real root
+        AD = np.sign(R[sel]) * (np.abs(R[sel]) + np.sqrt(D[sel])) ** (1.0 / 3.0)
+        BD = np.where(AD == 0.0, 0.0, -Q[sel] / np.where(AD == 0.0, 1.0, AD))
+        out[sel, 0] = AD + BD - b_a_3[sel]
 
-    sel = D <= 0.0
+    sel = (D <= 0.0) & (Q < 0.0)
     if np.any(sel):
         # Three real roots
         theta = np.arccos(R[sel] / np.sqrt(-Q3[sel]))
-- 
2.43.0


From 060bf0f3ef2a45f356b53c4db6205c1b0fac5fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 31/97] fix: state selections of turbine models belong to the
 model for which they were given

---
 foxes/core/farm_controller.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index eaba616..7436a0d 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -117,13 +117,13 @@ class FarmController(FarmDataModel):
                 return True
         return False
 
-    def _analyze_models(self, algo, pre_rotor, models):
+    def _analyze_models(self, algo, pre_rotor, models, states_sels):
         """
         Helper function for model analysis
         """
         tmodels = []
         tmsels = []
-        mnames = [[m.name for m in mlist] for mlist in models]
+        mnames = [[id(m) for m in mlist] for mlist in models]
         tmis = np.zeros(algo.n_turbines, dtype=config.dtype_int)
         news = True
         while news:
@@ -151,7 +151,7 @@ class FarmController(FarmDataModel):
                         for tj, jnames in enumerate(mnames):
                             mi = tmis[tj]
                             if mi < len(jnames) and jnames[mi] == mname:
-                                ssel = algo.farm.turbines[tj].mstates_sel[mi]
+                                ssel = states_sels[tj][mi]
                                 tsel[:, tj] = True if ssel is None else ssel
                                 tmis[tj] += 1
                         tmsels.append(tsel)
@@ -227,6 +227,8 @@ class FarmController(FarmDataModel):
         # check turbine models, and find turbine types and pre/post-rotor models:
         prer_models = [[] for t in algo.farm.turbines]
         postr_models = [[] for t in algo.farm.turbines]
+        prer_sels = [[] for t in algo.farm.turbines]
+        postr_sels = [[] for t in algo.farm.turbines]
         ttypes = {m.name: m for m in self.turbine_types}
         for ti, t in enumerate(algo.farm.turbines):
             prer = None
@@ -257,15 +259,17 @@ class FarmController(FarmDataModel):
                         )
                     if m.pre_rotor:
                         prer_models[ti].append(m)
+                        prer_sels[ti].append(t.mstates_sel[mi])
                     else:
                         postr_models[ti].append(m)
+                        postr_sels[ti].append(t.mstates_sel[mi])
 
         # analyze models:
         mnames_pre, tmsels_pre = self._analyze_models(
-            algo, pre_rotor=True, models=prer_models
+            algo, pre_rotor=True, models=prer_models, states_sels=prer_sels
         )
         mnames_post, tmsels_post = self._analyze_models(
-            algo, pre_rotor=False, models=postr_models
+            algo, pre_rotor=False, models=postr_models, states_sels=postr_sels
         )
         tmsels = tmsels_pre + tmsels_post
         self._tmall = [np.all(t) for t in tmsels]
@@ -275,13 +279,12 @@ class FarmController(FarmDataModel):
         else:
             raise ValueError(f"Controller '{self.name}': No turbine model found.")
 
-    def __get_pars(self, algo, models, ptype, mdata=None, downwind_index=None):
+    def __get_pars(self, models, mi0, ptype, mdata=None, downwind_index=None):
         """
         Private helper function for gathering model parameters.
         """
         pars = []
-        for m in models:
-            mi = self.turbine_model_names.index(m.name)
+        for mi, m in enumerate(models, start=mi0):
             if self._tmall[mi]:
                 s = np.s_[:, :] if downwind_index is None else np.s_[:, downwind_index]
             else:
@@ -395,7 +398,8 @@ class FarmController(FarmDataModel):
 
         """
         s = self.pre_rotor_models if pre_rotor else self.post_rotor_models
-        pars = self.__get_pars(algo, s.models, "calc", mdata, downwind_index)
+        mi0 = 0 if pre_rotor else len(self.pre_rotor_models.models)
+        pars = self.__get_pars(s.models, mi0, "calc", mdata, downwind_index)
         res = s.calculate(algo, mdata, fdata, parameters=pars)
         return res
 
-- 
2.43.0


From 3986e4103ae09b1dc61ec52ee9112763cdc9c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 32/97] fix: farm models from turbine models with several
 chunks

---
 foxes/models/farm_models/turbine2farm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/farm_models/turbine2farm.py b/foxes/models/farm_models/turbine2farm.py
index b9eb84e..cf435a7 100644
--- a/foxes/models/farm_models/turbine2farm.py
+++ b/foxes/models/farm_models/turbine2farm.py
@@ -89,5 +89,5 @@ class Turbine2FarmModel(FarmModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        s = np.ones((algo.n_states, algo.n_turbines), dtype=bool)
+        s = np.ones((fdata.n_states, fdata.n_turbines), dtype=bool)
         return self.turbine_model.calculate(algo, mdata, fdata, st_sel=s, **parameters)
-- 
2.43.0


From 5b7ec0ddbb3eb900c8a8ac151c9651172aaa4192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 33/97] fix: turbines do not share their lists of models

---
 foxes/core/turbine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foxes/core/turbine.py b/foxes/core/turbine.py
index b1ad99a..5159770 100644
--- a/foxes/core/turbine.py
+++ b/foxes/core/turbine.py
@@ -71,13 +71,15 @@ class Turbine:
         self.index = index
         self.name = name
         self.xy = np.array(xy)
-        self.models = turbine_models
+        self.models = list(turbine_models)
         self.D = D
         self.H = H
 
         self.mstates_sel = models_state_sel
         if self.mstates_sel is None:
             self.mstates_sel = [None] * len(self.models)
+        else:
+            self.mstates_sel = list(self.mstates_sel)
 
     def add_model(self, model, states_sel=None):
         """
-- 
2.43.0


From 95f68683e8bb6acf84130beb4ebf58433097d90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 34/97] fix: upcast of get_data results for selections by index
 or slice

---
 foxes/core/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/foxes/core/model.py b/foxes/core/model.py
index fa6ee0a..c28e0db 100644
--- a/foxes/core/model.py
+++ b/foxes/core/model.py
@@ -594,12 +594,17 @@ class Model(ABC):
                         f"Selection is tuple/list of length {len(selection)}, expecting <= {len(out.shape)} "
                     )
                 out, eshp = _upcast_sel(shp[: len(selection)])
+                sshp = np.broadcast_to(0, shp)[tuple(selection)].shape
             else:
                 raise TypeError(
                     f"Expecting selection of type np.ndarray (bool), or tuple, or list. Got {type(selection).__name__}"
                 )
-            out = out[selection]
-            shp = tuple([len(out)] + list(eshp))
+            if isinstance(selection, np.ndarray):
+                out = out[selection]
+                shp = tuple([len(out)] + list(eshp))
+            else:
+                out = out[tuple(selection)]
+                shp = sshp
 
         # apply upcast:
         if upcast and out.shape != shp:
-- 
2.43.0


From fadef4d51a76db6e9849f50f087c00e5be9c4440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 35/97] fix: states keep the given profile dictionaries, so
 they can be initialized again

---
 foxes/input/states/single.py       | 5 +++--
 foxes/input/states/states_table.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/foxes/input/states/single.py b/foxes/input/states/single.py
index 96067cb..7b45617 100644
--- a/foxes/input/states/single.py
+++ b/foxes/input/states/single.py
@@ -109,8 +109,9 @@ class SingleStateStates(States):
             elif isinstance(d, VerticalProfile):
                 self._profiles[v] = d
             elif isinstance(d, dict):
-                t = d.pop("type")
-                self._profiles[v] = VerticalProfile.new(t, **d)
+                t = d["type"]
+                pars = {k: x for k, x in d.items() if k != "type"}
+                self._profiles[v] = VerticalProfile.new(t, **pars)
             else:
                 raise TypeError(
                     f"States '{self.name}': Wrong profile type '{type(d).__name__}' for variable '{v}'. Expecting VerticalProfile, str or dict"
diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 1b5fb09..70f47c8 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -160,8 +160,9 @@ class StatesTable(States):
             elif isinstance(d, VerticalProfile):
                 self._profiles[v] = d
             elif isinstance(d, dict):
-                t = d.pop("type")
-                self._profiles[v] = VerticalProfile.new(t, **d)
+                t = d["type"]
+                pars = {k: x for k, x in d.items() if k != "type"}
+                self._profiles[v] = VerticalProfile.new(t, **pars)
             else:
                 raise TypeError(
                     f"States '{self.name}': Wrong profile type '{type(d).__name__}' for variable '{v}'. Expecting VerticalProfile, str or dict"
-- 
2.43.0


From be4b97364d1e5b8e46c9ed1152275102d25f98ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 36/97] fix: StatesTable variables that only a profile provides
 need no column

---
 foxes/input/states/states_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 70f47c8..b2b3a80 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -247,14 +247,17 @@ class StatesTable(States):
             )
 
         tcols = []
+        tvars = []
         for v in self._tvars:
             c = self.var2col.get(v, v)
             if c in data.columns:
                 tcols.append(c)
+                tvars.append(v)
             elif v not in self._profiles.keys():
                 raise KeyError(
                     f"States '{self.name}': Missing variable '{c}' in states table columns, profiles or fixed vars"
                 )
+        self._tvars = tvars
         data = data[tcols]
 
         idata = super().load_data(algo, verbosity)
-- 
2.43.0


From 4871dce5e55bf7291e7069db01ca9fd4f823ee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:31 +0000
Subject: [PATCH 37/97] fix: MultiHeightNCStates uses the value of the
 attribute

---
 foxes/input/states/multi_height.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/multi_height.py b/foxes/input/states/multi_height.py
index b5d204a..420573f 100644
--- a/foxes/input/states/multi_height.py
+++ b/foxes/input/states/multi_height.py
@@ -657,7 +657,7 @@ class MultiHeightNCStates(MultiHeightStates):
                 continue
             c = self.var2col.get(v, v)
             if c in data.attrs:
-                self._solo[v] = np.full(self._N, data.attrs)
+                self._solo[v] = np.full(self._N, data.attrs[c])
             elif c in data.data_vars:
                 if data[c].dims == (self.state_coord,):
                     self._solo[v] = data.data_vars[c].to_numpy()
-- 
2.43.0


From d2d626b371bc956ace9cd44acea8360cc5fb0fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:31 +0000
Subject: [PATCH 38/97] fix: WRGStates grid selection covers the requested
 bounds

---
 foxes/input/states/wrg_states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/foxes/input/states/wrg_states.py b/foxes/input/states/wrg_states.py
index 08d4610..75cb5e1 100644
--- a/foxes/input/states/wrg_states.py
+++ b/foxes/input/states/wrg_states.py
@@ -120,8 +120,10 @@ class WRGStates(States):
             )
             if verbosity > 0:
                 print(f"States '{self.name}': Farm bounds {xy_min} - {xy_max}")
-            ij_min = np.asarray((xy_min - p0) / res, dtype=config.dtype_int)
-            ij_max = np.asarray((xy_max - p0) / res, dtype=config.dtype_int) + 1
+            ij_min = np.maximum(np.floor((xy_min - p0) / res), 0)
+            ij_min = np.asarray(ij_min, dtype=config.dtype_int)
+            ij_max = np.maximum(np.ceil((xy_max - p0) / res), 0)
+            ij_max = np.asarray(ij_max, dtype=config.dtype_int) + 1
             sx = slice(ij_min[0], ij_max[0])
             sy = slice(ij_min[1], ij_max[1])
         else:
-- 
2.43.0


From 445d5478b238c78a034ad9b66d2e22fe8b059365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:31 +0000
Subject: [PATCH 39/97] fix: x range of FieldDataNC data selection

---
 foxes/input/states/field_data_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 8a1b3bc..b426cf4 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -387,7 +387,7 @@ class FieldDataNC(States):
                     )
                 self.sel.update(
                     {
-                        self.x_coord: slice(xy_min[0], xy_max[1]),
+                        self.x_coord: slice(xy_min[0], xy_max[0]),
                         self.y_coord: slice(xy_min[1], xy_max[1]),
                     }
                 )
-- 
2.43.0


From 713dbba2925e7e84096a4300178c06dd870019ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 40/97] fix: FieldDataNC knows the states of a given Dataset

---
 foxes/input/states/field_data_nc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index b426cf4..2671175 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -460,6 +460,14 @@ class FieldDataNC(States):
                     self.__inds, format=self.time_format
                 ).to_numpy()
 
+        elif self._N is None:
+            self.__inds = self.data_source[self.states_coord].to_numpy()
+            self._N = len(self.__inds)
+            if self.time_format is not None:
+                self.__inds = pd.to_datetime(
+                    self.__inds, format=self.time_format
+                ).to_numpy()
+
         # ensure WD and WS get the first two slots of data:
         self._dkys = {}
         if FV.WS in self.ovars:
-- 
2.43.0


From b906c964b2298f50bcf102c9e5f3f640321f7101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 41/97] fix: FieldDataNC with fixed wind speed or wind
 direction

---
 foxes/input/states/field_data_nc.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 2671175..28cbd6b 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -256,7 +256,7 @@ class FieldDataNC(States):
                 )
 
         data = np.zeros(
-            (n_sts, n_h, n_y, n_x, len(self.var2ncvar)), dtype=config.dtype_double
+            (n_sts, n_h, n_y, n_x, len(self._dkys)), dtype=config.dtype_double
         )
         for v in vars_shyx:
             ncv = self.var2ncvar[v]
@@ -278,12 +278,9 @@ class FieldDataNC(States):
         for v in vars_s:
             ncv = self.var2ncvar[v]
             data[..., self._dkys[v]] = ds[ncv].to_numpy()[:, None, None, None]
-        if FV.WD in self.fixed_vars:
-            data[..., self._dkys[FV.WD]] = np.full(
-                (n_sts, n_h, n_y, n_x),
-                self.fixed_vars[FV.WD],
-                dtype=config.dtype_double,
-            )
+        for v in [FV.WD, FV.WS]:
+            if v in self.fixed_vars and v in self._dkys:
+                data[..., self._dkys[v]] = self.fixed_vars[v]
 
         weights = None
         if self.weight_ncvar is not None:
@@ -470,9 +467,8 @@ class FieldDataNC(States):
 
         # ensure WD and WS get the first two slots of data:
         self._dkys = {}
-        if FV.WS in self.ovars:
+        if FV.WD in self.ovars and FV.WS in self.ovars:
             self._dkys[FV.WD] = 0
-        if FV.WS in self.var2ncvar:
             self._dkys[FV.WS] = 1
         for v in self.var2ncvar:
             if v not in self._dkys:
@@ -733,11 +729,7 @@ class FieldDataNC(States):
         # translate WS, WD into U, V:
         if FV.WD in self.ovars and FV.WS in self.ovars:
             wd = data[..., self._dkys[FV.WD]]
-            ws = (
-                data[..., self._dkys[FV.WS]]
-                if FV.WS in self._dkys
-                else self.fixed_vars[FV.WS]
-            )
+            ws = data[..., self._dkys[FV.WS]]
             wdwsi = [self._dkys[FV.WD], self._dkys[FV.WS]]
             data[..., wdwsi] = wd2uv(wd, ws, axis=-1)
             del ws, wd
-- 
2.43.0


From e89a7f4e47edf21a50dd14f4c89b415bafaf8544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:52 +0000
Subject: [PATCH 42/97] fix: max_ti of Ustar2TI is an upper limit

---
 foxes/models/point_models/ustar2ti.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/point_models/ustar2ti.py b/foxes/models/point_models/ustar2ti.py
index c44cdb2..51a9414 100644
--- a/foxes/models/point_models/ustar2ti.py
+++ b/foxes/models/point_models/ustar2ti.py
@@ -79,6 +79,6 @@ class Ustar2TI(PointDataModel):
 
         ti = (ustar / FC.KAPPA) / ws
         if self.max_ti is not None:
-            ti = np.maximum(ti, self.max_ti)
+            ti = np.minimum(ti, self.max_ti)
 
         return {FV.TI: ti}
-- 
2.43.0


From 00b3f727efc66fe6de578f4da6aafffc803fa369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 43/97] fix: SetUniformData for data frames and dictionaries

---
 foxes/models/point_models/set_uniform_data.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/foxes/models/point_models/set_uniform_data.py b/foxes/models/point_models/set_uniform_data.py
index f371ebd..8b59e55 100644
--- a/foxes/models/point_models/set_uniform_data.py
+++ b/foxes/models/point_models/set_uniform_data.py
@@ -49,6 +49,7 @@ class SetUniformData(PointDataModel):
             pandas file reading parameters
 
         """
+        super().__init__()
         self.data_source = data_source
         self.ovars = output_vars
         self.var2col = var2col
@@ -86,7 +87,7 @@ class SetUniformData(PointDataModel):
                 [self.var2col.get(v, v) for v in self.ovars]
             ].to_numpy(config.dtype_double)
         elif isinstance(self.data_source, dict):
-            pass
+            data = None
         else:
             if verbosity:
                 print(f"States '{self.name}': Reading file {self.data_source}")
@@ -98,8 +99,9 @@ class SetUniformData(PointDataModel):
             )
 
         idata = super().load_data(algo, verbosity)
-        idata["coords"][self.VARS] = self.ovars
-        idata["data_vars"][self.DATA] = ((FC.STATE, self.VARS), data)
+        if data is not None:
+            idata["coords"][self.VARS] = self.ovars
+            idata["data_vars"][self.DATA] = ((FC.STATE, self.VARS), data)
 
         return idata
 
@@ -147,7 +149,8 @@ class SetUniformData(PointDataModel):
         """
         for v in self.ovars:
             if self.DATA in mdata:
-                pdata[v][:] = mdata[v][None, self.ovars.index(v)]
+                data = mdata[self.DATA][:, self.ovars.index(v)]
+                pdata[v][:] = data[:, None, None]
             else:
                 pdata[v][:] = self.data_source[v]
 
-- 
2.43.0


From 8a28901d81de857142b8d563c989de79e560d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 44/97] fix: variable for turbulent kinetic energy, as used by
 TKE2TI

---
 foxes/variables.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/foxes/variables.py b/foxes/variables.py
index dbfefde..e6b43ee 100644
--- a/foxes/variables.py
+++ b/foxes/variables.py
@@ -266,6 +266,11 @@ USTAR = "USTAR"
 :group: foxes.variables
 """
 
+TKE = "TKE"
+""" The turbulent kinetic energy in m2/s2
+:group: foxes.variables
+"""
+
 SHEAR = "shear"
 """ The shear exponent
 :group: foxes.variables
-- 
2.43.0


From 6789291939999f5a25e2a393cb2e9b5454c3707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:33 +0000
Subject: [PATCH 45/97] fix: normalized WakeDeltas

---
 foxes/models/point_models/wake_deltas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/point_models/wake_deltas.py b/foxes/models/point_models/wake_deltas.py
index 551df49..c958b31 100644
--- a/foxes/models/point_models/wake_deltas.py
+++ b/foxes/models/point_models/wake_deltas.py
@@ -81,6 +81,6 @@ class WakeDeltas(PointDataModel):
 
         if self.normalize:
             for v in self.vars:
-                out[v] /= pdata[FV.var2amb[v]]
+                out[f"DELTA_{v}"] /= pdata[FV.var2amb[v]]
 
         return out
-- 
2.43.0


From a42f8a694dc811bd30f6cf20ab44565a1b724e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 46/97] fix: state mean of point results

---
 foxes/output/calc_points.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/foxes/output/calc_points.py b/foxes/output/calc_points.py
index d7bff65..35f3dcf 100644
--- a/foxes/output/calc_points.py
+++ b/foxes/output/calc_points.py
@@ -101,11 +101,15 @@ class PointCalculator(Output):
         pres = self.algo.calc_points(self.farm_results, pts, *args, **kwargs)
 
         if states_mean:
-            weights = self.farm_results[FV.WEIGHT].to_numpy()[:, weight_turbine]
+            weights = self.farm_results[FV.WEIGHT]
+            if FC.TURBINE in weights.dims:
+                weights = weights.isel({FC.TURBINE: weight_turbine})
+            weights = weights.to_numpy()
             pres = Dataset(
                 data_vars={
-                    v: np.einsum("s,sp->p", weights, pres[v].to_numpy())
+                    v: ((FC.POINT,), np.einsum("s,sp->p", weights, pres[v].to_numpy()))
                     for v in pres.data_vars.keys()
+                    if pres[v].dims == (FC.STATE, FC.POINT)
                 }
             )
 
-- 
2.43.0


From 1e2214e9639194bf6e4c390f736e7c16f76ee9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:13 +0000
Subject: [PATCH 47/97] fix: ResultsWriter can write several times, with
 turbine names and with new index names

---
 foxes/output/results_writer.py | 37 +++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/foxes/output/results_writer.py b/foxes/output/results_writer.py
index d532c78..34fffd5 100644
--- a/foxes/output/results_writer.py
+++ b/foxes/output/results_writer.py
@@ -51,20 +51,18 @@ class ResultsWriter(Output):
 
     def _get_data_vars(self, variables):
         """Helper function for variable gathering"""
-        data = self.data
+        data = self.data.copy()
         if variables is None:
             pass
         elif isinstance(variables, dict):
-            inds = {
-                s: variables.pop(s) for s in self.data.index.names if s in variables
-            }
-            if len(variables):
-                data = data[list(variables.keys())].rename(variables, axis=1)
+            inds = {s: variables[s] for s in self.data.index.names if s in variables}
+            vrs = {v: n for v, n in variables.items() if v not in inds}
+            if len(vrs):
+                data = data[list(vrs.keys())].rename(vrs, axis=1)
             if len(inds):
-                for s, ns in inds.items():
-                    data = data.rename_axis(index={s: ns})
+                data = data.rename_axis(index=inds)
         else:
-            data = self.data[list(variables)]
+            data = data[list(variables)]
 
         return data, data.columns.tolist()
 
@@ -104,9 +102,12 @@ class ResultsWriter(Output):
             print(f"ResultsWriter: Writing file '{file_name}'")
 
         data, variables = self._get_data_vars(variables)
+        state, tix = data.index.names
+        if turbine_names:
+            tix = FC.TNAME
+            data[tix] = self.data[FC.TNAME]
         data.reset_index(inplace=True)
-        fc2v = kwargs.pop("format_col2var", {})
-        tix = FC.TNAME if turbine_names else FC.TURBINE
+        fc2v = dict(kwargs.pop("format_col2var", {}))
 
         if state_turbine_table:
             if len(variables) != 1:
@@ -115,11 +116,11 @@ class ResultsWriter(Output):
                 )
             v = variables[0]
             cnames = {
-                t: f"{v}_T{t:04d}" if tix == FC.TURBINE else f"{v}_{t}"
+                t: f"{v}_{t}" if turbine_names else f"{v}_T{t:04d}"
                 for t in data[tix]
             }
             for ti, (t, g) in enumerate(
-                data.reset_index().set_index(FC.STATE).groupby(tix)
+                data.reset_index().set_index(state).groupby(tix)
             ):
                 if ti == 0:
                     odata = pd.DataFrame(
@@ -131,7 +132,7 @@ class ResultsWriter(Output):
                 fc2v[cname] = v
             data = odata
         else:
-            data.set_index([FC.STATE, tix], inplace=True)
+            data.set_index([state, tix], inplace=True)
 
         super().write(file_name, data, format_col2var=fc2v, **kwargs)
 
@@ -164,20 +165,20 @@ class ResultsWriter(Output):
 
         """
         data, variables = self._get_data_vars(variables)
+        state, turbine = data.index.names
         states = data.index.get_level_values(0).unique()
         n_states = len(states)
         n_turbines = len(data.index.get_level_values(1).unique())
 
-        crds = {FC.STATE: states}
+        crds = {state: states.to_numpy()}
         if turbine_names:
-            idx = pd.IndexSlice
-            crds[FC.TURBINE] = self.data.loc[idx[0, :], FC.TNAME].to_numpy()
+            crds[turbine] = self.data[FC.TNAME].to_numpy()[:n_turbines]
 
         ds = Dataset(
             coords=crds,
             data_vars={
                 v: (
-                    (FC.STATE, FC.TURBINE),
+                    (state, turbine),
                     data[v].to_numpy().reshape(n_states, n_turbines),
                 )
                 for v in variables
-- 
2.43.0


From e55fdf1e57b9678242f409bc5a20062771d2e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:13 +0000
Subject: [PATCH 48/97] fix: file format from the file ending, writing
 parameters are not kept for later files

---
 foxes/utils/pandas_utils.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/foxes/utils/pandas_utils.py b/foxes/utils/pandas_utils.py
index fe375bb..6c09fb8 100644
--- a/foxes/utils/pandas_utils.py
+++ b/foxes/utils/pandas_utils.py
@@ -96,16 +96,16 @@ class PandasFileHelper:
             The data
 
         """
-        fpath = Path(file_path)
-        fname = fpath.name
-        sfx = ".".join(fname.split(".")[1:])
+        fname = Path(file_path).name
         f = None
         for fmt in cls.DATA_FILE_FORMATS:
-            if sfx[:3] == "csv":
+            if not fname.endswith(f".{fmt}"):
+                continue
+            elif fmt[:3] == "csv":
                 f = pd.read_csv
-            elif sfx == "h5":
+            elif fmt == "h5":
                 f = pd.read_hdf
-            elif sfx == "nc":
+            elif fmt == "nc":
                 f = lambda fname, **pars: xarray.open_dataset(
                     fname, **pars
                 ).to_dataframe()
@@ -150,20 +150,20 @@ class PandasFileHelper:
             else:
                 out[c] = data[c]
 
-        fpath = Path(file_path)
-        fname = fpath.name
-        sfx = ".".join(fname.split(".")[1:])
+        fname = Path(file_path).name
         f = None
         for fmt in cls.DATA_FILE_FORMATS:
-            if sfx[:3] == "csv":
+            if not fname.endswith(f".{fmt}"):
+                continue
+            elif fmt[:3] == "csv":
                 f = out.to_csv
-            elif sfx == "h5":
+            elif fmt == "h5":
                 f = out.to_hdf
-            elif sfx == "nc":
-                f = out.to_netcdf
+            elif fmt == "nc":
+                f = lambda fname, **pars: out.to_xarray().to_netcdf(fname, **pars)
 
             if f is not None:
-                pars = cls.DEFAULT_WRITING_PARAMETERS[fmt]
+                pars = deepcopy(cls.DEFAULT_WRITING_PARAMETERS[fmt])
                 pars.update(kwargs)
 
                 f(file_path, **pars)
-- 
2.43.0


From 4e22769c0e0110f07af257368077214bd6bcc068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:29 +0000
Subject: [PATCH 49/97] fix: means over turbines and ambient yield in
 FarmResultsEval

---
 foxes/output/farm_results_eval.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index f6af445..b6477cc 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -254,7 +254,7 @@ class FarmResultsEval(Output):
                 else:
                     rdata[v] = self.weinsum("", vdata[None, :])
             elif op == "mean_no_weights":
-                rdata[v] = np.sum(vdata)
+                rdata[v] = np.mean(vdata)
             elif op == "sum":
                 rdata[v] = np.sum(vdata)
             elif op == "min":
@@ -369,8 +369,10 @@ class FarmResultsEval(Output):
             The fully contracted results
 
         """
-        op = {v: "weights" for v in vars}
-        return self.reduce_all(states_op=op, turbines_op=op)
+        return self.reduce_all(
+            states_op={v: "weights" for v in vars},
+            turbines_op={v: "mean_no_weights" for v in vars},
+        )
 
     def calc_farm_sum(self, vars):
         """
@@ -562,13 +564,14 @@ class FarmResultsEval(Output):
             yargs.update(kwargs)
             turbine_yield = self.calc_turbine_yield(**yargs)
         farm_yield = turbine_yield.sum()
+        v = FV.YLD if FV.YLD in farm_yield else FV.AMB_YLD
 
         if power_uncert is not None:
             P75 = farm_yield * (1.0 - (0.675 * power_uncert))
             P90 = farm_yield * (1.0 - (1.282 * power_uncert))
-            return farm_yield["YLD"], P75["YLD"], P90["YLD"]
+            return farm_yield[v], P75[v], P90[v]
 
-        return farm_yield["YLD"]
+        return farm_yield[v]
 
     def add_efficiency(self, verbosity=1):
         """
-- 
2.43.0


From a2f7a3e344bdd58a74226be99b9f2bd6efd625e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 50/97] fix: under-relaxation of the Iterative algorithm

---
 foxes/algorithms/iterative/iterative.py     | 13 +++++++++++++
 foxes/algorithms/iterative/models/urelax.py | 15 ++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index d1a089d..f1dea86 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -148,6 +148,19 @@ class Iterative(Downwind):
         """
         return self._urelax
 
+    @property
+    def prev_farm_results(self):
+        """
+        The results of the previous iteration, in downwind order
+
+        Returns
+        -------
+        results: xarray.Dataset
+            The results, or None in the first iteration
+
+        """
+        return self.__prev_farm_results
+
     @property
     def iterations(self):
         """
diff --git a/foxes/algorithms/iterative/models/urelax.py b/foxes/algorithms/iterative/models/urelax.py
index cb706b2..ceac28f 100644
--- a/foxes/algorithms/iterative/models/urelax.py
+++ b/foxes/algorithms/iterative/models/urelax.py
@@ -48,7 +48,7 @@ class URelax(FarmDataModel):
         """
         return list(self.urel.keys())
 
-    def calculate(self, algo, mdata, fdata):
+    def calculate(self, algo, mdata, fdata, res=None):
         """
         The main model calculation.
 
@@ -63,6 +63,10 @@ class URelax(FarmDataModel):
             The model data
         fdata: foxes.core.Data
             The farm data
+        res: dict, optional
+            New results that are not yet part of the farm
+            data. They are returned, with the modified
+            variables replaced
 
         Returns
         -------
@@ -71,16 +75,17 @@ class URelax(FarmDataModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        i0 = fdata.states_i0(counter=True, algo=algo)
+        i0 = fdata.states_i0(counter=True)
         i1 = i0 + fdata.n_states
         pres = algo.prev_farm_results
 
-        out = {}
+        out = {} if res is None else dict(res)
         for v, u in self.urel.items():
+            new = out[v] if v in out else fdata[v]
             if u > 0 and pres is not None:
                 odata = pres[v].to_numpy()[i0:i1]
-                out[v] = u * odata + (1 - u) * fdata[v]
+                out[v] = u * odata + (1 - u) * new
             else:
-                out[v] = fdata[v]
+                out[v] = new
 
         return out
-- 
2.43.0


From 57a13a53cb19858c85bb0cb2fe792b42c7f2ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:13 +0000
Subject: [PATCH 51/97] fix: selected farm outputs do not limit the variables
 of the calculation

---
 foxes/core/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/core/engine.py b/foxes/core/engine.py
index afaefb2..1be9832 100644
--- a/foxes/core/engine.py
+++ b/foxes/core/engine.py
@@ -374,7 +374,8 @@ class Engine(ABC):
 
             def cb(data, dims):
                 n_states = i1_states - i0_states
-                for o in set(out_vars).difference(data.keys()):
+                fvars = set(out_vars).union(getattr(algo, "farm_vars", []))
+                for o in fvars.difference(data.keys()):
                     data[o] = np.full(
                         (n_states, algo.n_turbines), np.nan, dtype=config.dtype_double
                     )
-- 
2.43.0


From 4dd35a112ac5c8afab0ebc1f89e31fe107419402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 52/97] fix: ambient farm calculation of the Iterative
 algorithm

---
 foxes/algorithms/iterative/iterative.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index f1dea86..b874fde 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -320,6 +320,11 @@ class Iterative(Downwind):
             fres = super().calc_farm(outputs=None, finalize=False, **kwargs)
 
             fres_dwnd = fres
+
+            # ambient results do not depend on previous results:
+            if kwargs.get("ambient", False):
+                break
+
             if self.conv_crit is not None:
                 if self.eval_conv_block():
                     self.print(f"{self.name}: Convergence blocked", vlim=0)
-- 
2.43.0


From 6a912d69007d8988f4ca9297eb80c642c7650443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 53/97] fix: points, ambient results and parameters of the
 Sequential algorithm

---
 foxes/algorithms/sequential/sequential.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index abcc3df..2873bcc 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -101,7 +101,7 @@ class Sequential(Iterative):
         self.calc_pars = calc_pars
         self.states0 = self.states.states
         self.points = points
-        self.plugins = plugins
+        self.plugins = list(plugins)
         self.outputs = outputs if outputs is not None else self.DEFAULT_FARM_OUTPUTS
 
         self._verbo0 = self.verbosity + 1
@@ -168,6 +168,7 @@ class Sequential(Iterative):
                         ),
                     )
                     for v in self.farm_vars
+                    if not self.ambient or v not in FV.var2amb
                 },
             )
             self._farm_results[FC.TNAME] = ((FC.TURBINE,), self.farm.turbine_names)
@@ -199,9 +200,10 @@ class Sequential(Iterative):
 
             fres, fres_dnwnd = super().calc_farm(
                 outputs=self.farm_vars,
+                calc_parameters=self.calc_pars,
+                ambient=self.ambient,
                 finalize=False,
                 ret_dwnd_order=True,
-                **self.calc_pars,
             )
 
             for v in self._farm_results.data_vars.keys():
@@ -219,7 +221,17 @@ class Sequential(Iterative):
                 return fres
 
             else:
-                pres = super().calc_points(fres, points=self.points, finalize=False)
+                points = np.asarray(self.points)
+                if points.ndim == 3 and len(points) == len(self._inds):
+                    points = points[[self.counter]]
+
+                pres = super().calc_points(
+                    fres,
+                    points=points,
+                    calc_parameters=self.calc_pars,
+                    ambient=self.ambient,
+                    finalize=False,
+                )
 
                 if self._point_results is None:
                     n_states = self._model_data.sizes[FC.STATE]
-- 
2.43.0


From a2ee0b188d0dfa76a1a9244d1d36158da2355024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:17 +0000
Subject: [PATCH 54/97] fix: states counter of the Sequential algorithm

---
 foxes/algorithms/iterative/models/urelax.py | 4 +++-
 foxes/core/engine.py                        | 9 ++++++---
 foxes/engines/dask.py                       | 4 ++--
 foxes/engines/numpy.py                      | 2 +-
 foxes/engines/pool.py                       | 2 +-
 5 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/foxes/algorithms/iterative/models/urelax.py b/foxes/algorithms/iterative/models/urelax.py
index ceac28f..7671b8f 100644
--- a/foxes/algorithms/iterative/models/urelax.py
+++ b/foxes/algorithms/iterative/models/urelax.py
@@ -83,7 +83,9 @@ class URelax(FarmDataModel):
         for v, u in self.urel.items():
             new = out[v] if v in out else fdata[v]
             if u > 0 and pres is not None:
-                odata = pres[v].to_numpy()[i0:i1]
+                odata = pres[v].to_numpy()
+                if len(odata) != fdata.n_states:
+                    odata = odata[i0:i1]
                 out[v] = u * odata + (1 - u) * new
             else:
                 out[v] = new
diff --git a/foxes/core/engine.py b/foxes/core/engine.py
index 1be9832..7563c3a 100644
--- a/foxes/core/engine.py
+++ b/foxes/core/engine.py
@@ -360,12 +360,15 @@ class Engine(ABC):
         s_states = np.s_[i0_states:i1_states]
         s_targets = np.s_[i0_targets:i1_targets]
 
+        # sequential calculations run a single state, with own counter:
+        states_i0 = i0_states + (getattr(algo, "counter", None) or 0)
+
         # create mdata:
         mdata = MData.from_dataset(
             model_data,
             s_states=s_states,
             loop_dims=[FC.STATE],
-            states_i0=i0_states,
+            states_i0=states_i0,
             copy=True,
         )
 
@@ -389,7 +392,7 @@ class Engine(ABC):
             s_states=s_states,
             callback=cb,
             loop_dims=[FC.STATE],
-            states_i0=i0_states,
+            states_i0=states_i0,
             copy=True,
         )
 
@@ -413,7 +416,7 @@ class Engine(ABC):
                 s_targets=s_targets,
                 callback=cb,
                 loop_dims=[FC.STATE, FC.TARGET],
-                states_i0=i0_states,
+                states_i0=states_i0,
                 copy=True,
             )
 
diff --git a/foxes/engines/dask.py b/foxes/engines/dask.py
index 8cbf28a..0da557f 100644
--- a/foxes/engines/dask.py
+++ b/foxes/engines/dask.py
@@ -675,7 +675,7 @@ class DaskEngine(DaskBaseEngine):
                     deepcopy(model),
                     iterative,
                     chunk_store,
-                    (i0_states, i0_targets),
+                    (data[0].states_i0(counter=True), i0_targets),
                     *data,
                     **calc_pars,
                 )
@@ -984,7 +984,7 @@ class LocalClusterEngine(DaskBaseEngine):
                     loop_dims=ldims,
                     iterative=iterative,
                     chunk_store=cstore,
-                    i0_states=i0_states,
+                    i0_states=data[0].states_i0(counter=True),
                     i0_targets=i0_targets,
                     cpars=cpars,
                     retries=10,
diff --git a/foxes/engines/numpy.py b/foxes/engines/numpy.py
index 91352eb..132f4b4 100644
--- a/foxes/engines/numpy.py
+++ b/foxes/engines/numpy.py
@@ -167,7 +167,7 @@ class NumpyEngine(Engine):
                     data,
                     iterative,
                     chunk_store,
-                    (i0_states, i0_targets),
+                    (data[0].states_i0(counter=True), i0_targets),
                     **calc_pars,
                 )
                 chunk_store.update(results[key][1])
diff --git a/foxes/engines/pool.py b/foxes/engines/pool.py
index 2c17007..7c05e8a 100644
--- a/foxes/engines/pool.py
+++ b/foxes/engines/pool.py
@@ -248,7 +248,7 @@ class PoolEngine(Engine):
                     data,
                     iterative,
                     chunk_store,
-                    (i0_states, i0_targets),
+                    (data[0].states_i0(counter=True), i0_targets),
                     **calc_pars,
                 )
                 del data
-- 
2.43.0


From 704416a17db845554ff36ee431fb73b365c55ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 55/97] fix: point calculation with an algorithm that did not
 calculate the farm

---
 foxes/algorithms/downwind/downwind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index 79fe9d9..e9e2d04 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -779,7 +779,7 @@ class Downwind(Algorithm):
         if persist_mdata:
             model_data = model_data.persist()
         self.print("\nInput data:\n\n", model_data, "\n")
-        self.print(f"\nOutput farm variables:", ", ".join(self.farm_vars))
+        self.print(f"\nOutput farm variables:", ", ".join(farm_results.data_vars))
 
         # chunk farm results:
         self.print("\nInput farm data:\n\n", farm_results, "\n")
-- 
2.43.0


From 6b99a26fe850b80bfa4d893099f3a421003bc1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:21 +0000
Subject: [PATCH 56/97] fix: repeated iterations of the Sequential algorithm

---
 foxes/algorithms/sequential/sequential.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index 2873bcc..287e993 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -274,6 +274,9 @@ class Sequential(Iterative):
             for p in self.plugins:
                 p.finalize(self)
 
+            # a repeated iteration starts from newly initialized models:
+            self.finalize()
+
             raise StopIteration
 
     @property
-- 
2.43.0


From ae331155769de2bd2ee341b5188cf721675b8bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:18 +0000
Subject: [PATCH 57/97] fix: several wake models in the Downwind algorithm
 contribute before the next turbine is evaluated

---
 .../downwind/models/farm_wakes_calc.py        | 137 ++++++++----------
 1 file changed, 60 insertions(+), 77 deletions(-)

diff --git a/foxes/algorithms/downwind/models/farm_wakes_calc.py b/foxes/algorithms/downwind/models/farm_wakes_calc.py
index 48b6e42..57f7a45 100644
--- a/foxes/algorithms/downwind/models/farm_wakes_calc.py
+++ b/foxes/algorithms/downwind/models/farm_wakes_calc.py
@@ -1,5 +1,4 @@
 import numpy as np
-from copy import deepcopy
 
 from foxes.core import FarmDataModel, TData
 import foxes.constants as FC
@@ -78,21 +77,50 @@ class FarmWakesCalculation(FarmDataModel):
             wdelta = {v: d[s] for v, d in wdeltas.items()}
             return tdata, wdelta
 
-        def _evaluate(
-            gmodel, tdata, amb_res, rwghts, wake_res, wdeltas, oi, wmodel, pwake
-        ):
-            """Helper function for data evaluation at turbines"""
-            wres = gmodel.finalize_farm_wakes(
-                algo, mdata, fdata, tdata, amb_res, rwghts, wdeltas, wmodel, oi, pwake
+        # prepare wake deltas, and check wake directions:
+        run_up = None
+        run_down = None
+        wdata = {}
+        for wname, wmodel in algo.wake_models.items():
+            pwake = algo.partial_wakes[wname]
+            gmodel = algo.ground_models[wname]
+            tdatap = pwake2tdata[pwake.name]
+            wdeltas = gmodel.new_farm_wake_deltas(
+                algo, mdata, fdata, tdatap, wmodel, pwake
+            )
+            wdata[wname] = (wmodel, pwake, gmodel, tdatap, wdeltas)
+
+            if wmodel.affects_downwind:
+                run_up = wname
+            else:
+                run_down = wname
+        if run_up is not None and run_down is not None:
+            raise KeyError(
+                f"Wake model '{run_up}' is an upwind model, wake model '{run_down}' is a downwind model: Require iterative algorithm"
             )
 
+        def _evaluate(oi):
+            """Helper function for data evaluation at turbines"""
             hres = {
-                v: d[:, oi, None] if d.shape[1] > 1 else d[:, 0, None]
-                for v, d in wake_res.items()
+                v: (d[:, oi, None] if d.shape[1] > 1 else d[:, 0, None]).copy()
+                for v, d in amb_res.items()
             }
-            for v, d in wres.items():
-                if v in wake_res:
-                    hres[v] += d[:, None]
+            for wmodel, pwake, gmodel, tdatap, wdeltas in wdata.values():
+                wres = gmodel.finalize_farm_wakes(
+                    algo,
+                    mdata,
+                    fdata,
+                    tdatap,
+                    amb_res,
+                    rwghts,
+                    wdeltas,
+                    wmodel,
+                    oi,
+                    pwake,
+                )
+                for v, d in wres.items():
+                    if v in hres:
+                        hres[v] += d[:, None]
             hres[FV.WEIGHT] = weights
 
             rotor.eval_rpoint_results(
@@ -104,71 +132,26 @@ class FarmWakesCalculation(FarmDataModel):
             )
             fdata.update(res)
 
-        wake_res = deepcopy(amb_res)
+        # all wake models contribute before the next turbine is evaluated:
         n_turbines = mdata.n_turbines
-        run_up = None
-        run_down = None
-        for wname, wmodel in algo.wake_models.items():
-            pwake = algo.partial_wakes[wname]
-            gmodel = algo.ground_models[wname]
-            tdatap = pwake2tdata[pwake.name]
-            wdeltas = gmodel.new_farm_wake_deltas(
-                algo, mdata, fdata, tdatap, wmodel, pwake
-            )
-
-            # downwind:
-            if wmodel.affects_downwind:
-                run_up = wname
-                for oi in range(n_turbines):
-                    if oi > 0:
-                        _evaluate(
-                            gmodel,
-                            tdatap,
-                            amb_res,
-                            rwghts,
-                            wake_res,
-                            wdeltas,
-                            oi,
-                            wmodel,
-                            pwake,
-                        )
-
-                    if oi < n_turbines - 1:
-                        tdata, wdelta = _get_wdata(
-                            tdatap, wdeltas, [FC.STATE, FC.TARGET], np.s_[:, oi + 1 :]
-                        )
-                        gmodel.contribute_to_farm_wakes(
-                            algo, mdata, fdata, tdata, oi, wdelta, wmodel, pwake
-                        )
-
-            # upwind:
-            else:
-                run_down = wname
-                for oi in range(n_turbines - 1, -1, -1):
-                    if oi < n_turbines - 1:
-                        _evaluate(
-                            gmodel,
-                            tdatap,
-                            amb_res,
-                            rwghts,
-                            wake_res,
-                            wdeltas,
-                            oi,
-                            wmodel,
-                            pwake,
-                        )
-
-                    if oi > 0:
-                        tdata, wdelta = _get_wdata(
-                            tdatap, wdeltas, [FC.STATE, FC.TARGET], np.s_[:, :oi]
-                        )
-                        gmodel.contribute_to_farm_wakes(
-                            algo, mdata, fdata, tdata, oi, wdelta, wmodel, pwake
-                        )
-
-            if run_up is not None and run_down is not None:
-                raise KeyError(
-                    f"Wake model '{run_up}' is an upwind model, wake model '{run_down}' is a downwind model: Require iterative algorithm"
-                )
+        if run_up is not None:
+            order = range(n_turbines)
+        elif run_down is not None:
+            order = range(n_turbines - 1, -1, -1)
+        else:
+            order = []
+        for i, oi in enumerate(order):
+            if i > 0:
+                _evaluate(oi)
+
+            if i < n_turbines - 1:
+                sel = np.s_[:, oi + 1 :] if run_up is not None else np.s_[:, :oi]
+                for wmodel, pwake, gmodel, tdatap, wdeltas in wdata.values():
+                    tdata, wdelta = _get_wdata(
+                        tdatap, wdeltas, [FC.STATE, FC.TARGET], sel
+                    )
+                    gmodel.contribute_to_farm_wakes(
+                        algo, mdata, fdata, tdata, oi, wdelta, wmodel, pwake
+                    )
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
-- 
2.43.0


From 70e9136d375612dc2475ffa9a6f2410198c48474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:50 +0000
Subject: [PATCH 58/97] fix: superpositions of several wake models at points
 refer to ambient results

---
 foxes/algorithms/downwind/models/point_wakes_calc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/models/point_wakes_calc.py b/foxes/algorithms/downwind/models/point_wakes_calc.py
index c8ff6d0..7b78b3f 100644
--- a/foxes/algorithms/downwind/models/point_wakes_calc.py
+++ b/foxes/algorithms/downwind/models/point_wakes_calc.py
@@ -115,6 +115,7 @@ class PointWakesCalculation(PointDataModel):
 
         """
         res = {}
+        amb_res = {}
         wmodels = (
             algo.wake_models.values() if self.wake_models is None else self.wake_models
         )
@@ -138,8 +139,11 @@ class PointWakesCalculation(PointDataModel):
                 for v in self.pvars:
                     if v not in res and v in tdata:
                         res[v] = tdata[v].copy()
+                        amb_res[v] = tdata[v]
 
-                gmodel.finalize_point_wakes(algo, mdata, fdata, res, wdeltas, wmodel)
+                gmodel.finalize_point_wakes(
+                    algo, mdata, fdata, amb_res, wdeltas, wmodel
+                )
 
                 for v in res.keys():
                     if v in wdeltas:
-- 
2.43.0


From 211b9535cb27c6d5a3e24a8c0344196a98bbfef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:53 +0000
Subject: [PATCH 59/97] fix: ambient point calculation without farm results

---
 foxes/algorithms/downwind/downwind.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index e9e2d04..e7d4806 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -1,4 +1,5 @@
 import numpy as np
+from xarray import Dataset
 
 from foxes.core import Algorithm, FarmDataModelList, get_engine
 from foxes.core import PointDataModel, PointDataModelList, FarmController
@@ -768,14 +769,17 @@ class Downwind(Algorithm):
         # subset selections:
         sel = {} if states_sel is None else {FC.STATE: states_sel}
         isel = {} if states_isel is None else {FC.STATE: states_isel}
-        if states_isel is not None:
-            farm_results = farm_results.isel(isel)
-        if states_sel is not None:
-            farm_results = farm_results.sel(sel)
-        n_states = farm_results.sizes[FC.STATE]
+        if farm_results is None:
+            farm_results = Dataset(coords={FC.TURBINE: np.arange(self.n_turbines)})
+        else:
+            if states_isel is not None:
+                farm_results = farm_results.isel(isel)
+            if states_sel is not None:
+                farm_results = farm_results.sel(sel)
 
         # get input model data:
         model_data = self.get_models_data(sel=sel, isel=isel)
+        n_states = model_data.sizes[FC.STATE]
         if persist_mdata:
             model_data = model_data.persist()
         self.print("\nInput data:\n\n", model_data, "\n")
-- 
2.43.0


From bd3f41ddf3d8946a007f746f42d90c3ac7c0bb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:53 +0000
Subject: [PATCH 60/97] fix: streamlines start with the wind direction at the
 rotor

The farm data does not contain the ambient wind direction yet when the
turbine order is calculated, such that all streamline data was nan.
---
 foxes/models/wake_frames/streamlines.py | 43 ++++++++++++-------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/foxes/models/wake_frames/streamlines.py b/foxes/models/wake_frames/streamlines.py
index bd911e0..e870aa9 100644
--- a/foxes/models/wake_frames/streamlines.py
+++ b/foxes/models/wake_frames/streamlines.py
@@ -71,36 +71,33 @@ class Streamlines2D(WakeFrame):
             # set streamline start point data (rotor centre):
             if i == 0:
                 data[:, :, i, :3] = fdata[FV.TXYH]
-                data[:, :, i, 3] = fdata[FV.AMB_WD]
 
-            # compute next step:
+            # calculate next point:
             else:
-
-                # calculate next point:
                 xyz = data[:, :, i - 1, :3]
                 n = wd2uv(data[:, :, i - 1, 3])
                 data[:, :, i, :2] = xyz[:, :, :2] + self.step * n
                 data[:, :, i, 2] = xyz[:, :, 2]
 
-                # calculate next tangential vector:
-                svars = algo.states.output_point_vars(algo)
-                tdata = TData.from_points(
-                    data[:, :, i, :3],
-                    data={
-                        v: np.full(
-                            (n_states, n_turbines, 1), np.nan, dtype=config.dtype_double
-                        )
-                        for v in svars
-                    },
-                    dims={v: (FC.STATE, FC.TARGET, FC.TPOINT) for v in svars},
-                )
-                data[:, :, i, 3] = algo.states.calculate(algo, mdata, fdata, tdata)[
-                    FV.WD
-                ][:, :, 0]
-
-                sel = np.isnan(data[:, :, i, 3])
-                if np.any(sel):
-                    data[sel, i, 3] = data[sel, i - 1, 3]
+            # calculate tangential vector:
+            svars = algo.states.output_point_vars(algo)
+            tdata = TData.from_points(
+                data[:, :, i, :3],
+                data={
+                    v: np.full(
+                        (n_states, n_turbines, 1), np.nan, dtype=config.dtype_double
+                    )
+                    for v in svars
+                },
+                dims={v: (FC.STATE, FC.TARGET, FC.TPOINT) for v in svars},
+            )
+            data[:, :, i, 3] = algo.states.calculate(algo, mdata, fdata, tdata)[FV.WD][
+                :, :, 0
+            ]
+
+            sel = np.isnan(data[:, :, i, 3])
+            if i > 0 and np.any(sel):
+                data[sel, i, 3] = data[sel, i - 1, 3]
 
         return data
 
-- 
2.43.0


From e8492bf23c6eda60d368f6b61d959e4fb7eaa217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:30 +0000
Subject: [PATCH 61/97] fix: turbine order along streamlines

Turbines upstream of the source turbine have nan coordinates, hence
sorting by the coordinates of the last turbine reversed the order.
---
 foxes/models/wake_frames/streamlines.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/foxes/models/wake_frames/streamlines.py b/foxes/models/wake_frames/streamlines.py
index e870aa9..73aedcb 100644
--- a/foxes/models/wake_frames/streamlines.py
+++ b/foxes/models/wake_frames/streamlines.py
@@ -199,11 +199,16 @@ class Streamlines2D(WakeFrame):
                 :, :, 0, 0
             ]
 
-        # derive turbine order:
-        # TODO: Remove loop over states
+        # derive turbine order, such that each turbine is listed
+        # after all turbines that have it in their downstream region:
+        upstream = coosx > 0
+        n_upstream = np.sum(upstream, axis=1)
         order = np.zeros((n_states, n_turbines), dtype=config.dtype_int)
-        for si in range(n_states):
-            order[si] = np.lexsort(keys=coosx[si])
+        ssel = np.arange(n_states)
+        for i in range(n_turbines):
+            order[:, i] = np.argmin(n_upstream, axis=1)
+            n_upstream -= upstream[ssel, order[:, i]]
+            n_upstream[ssel, order[:, i]] = 2 * n_turbines
 
         return order
 
-- 
2.43.0


From eb81ef6a1ea90e5f53e1718edd7459fea31de596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:30 +0000
Subject: [PATCH 62/97] fix: weight comparison between the heights of timelines

---
 foxes/models/wake_frames/timelines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/wake_frames/timelines.py b/foxes/models/wake_frames/timelines.py
index f6605d7..53a5a8c 100644
--- a/foxes/models/wake_frames/timelines.py
+++ b/foxes/models/wake_frames/timelines.py
@@ -122,7 +122,7 @@ class Timelines(WakeFrame):
 
             if weight_data is None:
                 weight_data = ((FC.STATE,), tdata[FV.WEIGHT][:, 0, 0])
-            elif not np.all(tdata[FV.WEIGHT] == weight_data[1]):
+            elif not np.all(tdata[FV.WEIGHT][:, 0, 0] == weight_data[1]):
                 raise AssertionError(
                     f"States '{self.name}': weight data mismatch between heights"
                 )
-- 
2.43.0


From 79dee4a79945dbbc4b77c8ddf5858939c4826128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:45 +0000
Subject: [PATCH 63/97] fix: centreline points of timelines

The remaining distance after the last full time step was applied with
wrong sign and the wind of the first state, and the trace started at the
local instead of the global state index.
---
 foxes/models/wake_frames/timelines.py | 29 +++++++++++++++------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/foxes/models/wake_frames/timelines.py b/foxes/models/wake_frames/timelines.py
index 53a5a8c..57b0022 100644
--- a/foxes/models/wake_frames/timelines.py
+++ b/foxes/models/wake_frames/timelines.py
@@ -469,36 +469,39 @@ class Timelines(WakeFrame):
         trace_dp = np.zeros_like(points[..., :2])
         trace_l = x.copy()
         trace_si = np.zeros((n_states, n_points), dtype=config.dtype_int)
-        trace_si[:] = np.arange(n_states)[:, None]
+        trace_si[:] = mdata.states_i0(counter=True) + np.arange(n_states)[:, None]
 
         for hi, h in enumerate(heights):
             precond = theights == h
             if np.any(precond):
-                sel = precond[:, None] & (trace_l > 0)
+
+                # step backwards in time, as long as this gets closer to x:
+                sel = precond[:, None] & (trace_l > 0) & (trace_si > 0)
                 while np.any(sel):
-                    dxy = data_dxy[hi][trace_si[sel]]
+                    dxy = data_dxy[hi][trace_si[sel] - 1]
 
                     trl = trace_l[sel]
                     trp = trace_dp[sel]
+                    tsi = trace_si[sel]
                     dl = np.linalg.norm(dxy, axis=-1)
                     cl = np.abs(trl - dl) < np.abs(trl)
-                    if np.any(cl):
-                        trace_l[sel] = np.where(cl, trl - dl, trl)
-                        trace_dp[sel] = np.where(cl[:, None], trp + dxy, trp)
-                    del trl, trp, dl, cl, dxy
+                    trace_l[sel] = np.where(cl, trl - dl, trl)
+                    trace_dp[sel] = np.where(cl[:, None], trp + dxy, trp)
+                    trace_si[sel] = np.where(cl, tsi - 1, tsi)
 
-                    trace_si[sel] -= 1
-                    sel = precond[:, None] & (trace_l > 0) & (trace_si >= 0)
+                    sel[sel] = cl
+                    sel = sel & (trace_l > 0) & (trace_si > 0)
+                    del trl, trp, tsi, dl, cl, dxy
 
-                si = trace_si[precond] + 1
-                dxy = data_dxy[hi][si]
+                # follow the remaining distance along the local wind vector:
+                dxy = data_dxy[hi][trace_si[precond]]
                 dl = np.linalg.norm(dxy, axis=-1)[:, :, None]
                 trl = trace_l[precond][:, :, None]
                 trp = trace_dp[precond]
                 sel = np.abs(trl) < 2 * dl
-                trace_dp[precond] = np.where(sel, trp - trl / dl * dxy, np.nan)
+                trace_dp[precond] = np.where(sel, trp + trl / dl * dxy, np.nan)
 
-                del si, dxy, dl, trl, trp, sel
+                del dxy, dl, trl, trp, sel
             del precond
         del trace_si, trace_l
 
-- 
2.43.0


From 37cb48046ca33bfca45a4cec77bb24ec7b5d1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:35 +0000
Subject: [PATCH 64/97] fix: verbose writing of slice data frames

---
 foxes/output/slice_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/output/slice_data.py b/foxes/output/slice_data.py
index a4c87f9..0ef98ab 100644
--- a/foxes/output/slice_data.py
+++ b/foxes/output/slice_data.py
@@ -96,7 +96,7 @@ class SliceData(Output):
 
             elif format == "pandas":
                 if verbosity > 0:
-                    print("Writing file", fpath)
+                    print("Writing file", self.get_fpath(fname))
                 self.write(fname, data, **write_pars)
 
             elif format == "xarray":
-- 
2.43.0


From 29cf44f4e54650d3947810afd68ef15592372cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:35 +0000
Subject: [PATCH 65/97] fix: mean flow plots return the data of the plotted
 variable

---
 foxes/output/flow_plots_2d/flow_plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/output/flow_plots_2d/flow_plots.py b/foxes/output/flow_plots_2d/flow_plots.py
index 4937007..63bcdf1 100644
--- a/foxes/output/flow_plots_2d/flow_plots.py
+++ b/foxes/output/flow_plots_2d/flow_plots.py
@@ -156,7 +156,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
@@ -306,7 +306,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
@@ -457,7 +457,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
-- 
2.43.0


From bdc44cb1654598b9b36867176c6ba3a091073823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:35 +0000
Subject: [PATCH 66/97] fix: slice data of all variables

The weights do not depend on the point, hence they cannot be
translated to the grid.
---
 foxes/output/grids.py      | 2 +-
 foxes/output/slice_data.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/output/grids.py b/foxes/output/grids.py
index b9766b5..0ba8ab7 100644
--- a/foxes/output/grids.py
+++ b/foxes/output/grids.py
@@ -735,7 +735,7 @@ def data2xr(
 
     """
     if vars is None:
-        vars = list(point_results.data_vars.keys())
+        vars = [v for v in point_results.data_vars.keys() if v != FV.WEIGHT]
     data = {}
     for v in vars:
         if isinstance(state_mean, np.ndarray):
diff --git a/foxes/output/slice_data.py b/foxes/output/slice_data.py
index 0ef98ab..447fd1f 100644
--- a/foxes/output/slice_data.py
+++ b/foxes/output/slice_data.py
@@ -140,7 +140,7 @@ class SliceData(Output):
         )
         states = point_results[FC.STATE].to_numpy()
         if variables is None:
-            variables = list(point_results.data_vars.keys())
+            variables = [v for v in point_results.data_vars.keys() if v != FV.WEIGHT]
         else:
             point_results.drop_vars(variables)
         del g_pts
@@ -657,7 +657,7 @@ class SliceData(Output):
         )
         states = point_results[FC.STATE].to_numpy()
         if variables is None:
-            variables = list(point_results.data_vars.keys())
+            variables = [v for v in point_results.data_vars.keys() if v != FV.WEIGHT]
         else:
             point_results.drop_vars(variables)
         del g_pts
-- 
2.43.0


From 607e7c8f9170ffbf6432c7571e5e7e480ab21c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:35 +0000
Subject: [PATCH 67/97] fix: data2xr with grid positions of type float

---
 foxes/output/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/output/grids.py b/foxes/output/grids.py
index 0ba8ab7..c876acf 100644
--- a/foxes/output/grids.py
+++ b/foxes/output/grids.py
@@ -753,7 +753,7 @@ def data2xr(
     cn = list(reversed([allcn[i] for i in ci]))
 
     coords = {}
-    attrs = {allcn[cj]: allc[cj].to_numpy()}
+    attrs = {allcn[cj]: float(allc[cj])}
     if (
         FC.STATE in point_results.coords
         and isinstance(state_mean, bool)
-- 
2.43.0


From a19a1f61a7c574fd2133fc8d231e2067f27537ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:35 +0000
Subject: [PATCH 68/97] fix: pandas format of states slice data

---
 foxes/output/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/output/grids.py b/foxes/output/grids.py
index c876acf..38034f4 100644
--- a/foxes/output/grids.py
+++ b/foxes/output/grids.py
@@ -601,7 +601,7 @@ def np2pd_sp(data, states, a_pos, b_pos, ori, label_map={}):
     minds = pd.MultiIndex.from_product(
         [states, range(n_a), range(n_b)], names=[s, a, b]
     )
-    return pd.DataFrame(index=minds, data=data)
+    return pd.DataFrame(index=minds, data={v: d.reshape(-1) for v, d in data.items()})
 
 
 def np2xr_p(data, a_pos, b_pos, c_pos, ori, label_map={}):
-- 
2.43.0


From 671adeefbb9b449f779e5f3499a18dcf685dc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:35 +0000
Subject: [PATCH 69/97] fix: slice data variables follow the label map in all
 formats

---
 foxes/output/grids.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/foxes/output/grids.py b/foxes/output/grids.py
index 38034f4..352e82c 100644
--- a/foxes/output/grids.py
+++ b/foxes/output/grids.py
@@ -563,6 +563,7 @@ def np2pd_p(data, a_pos, b_pos, ori, label_map={}):
     n_a = len(a_pos)
     n_b = len(b_pos)
     minds = pd.MultiIndex.from_product([range(n_a), range(n_b)], names=[a, b])
+    data = {label_map.get(v, v): d for v, d in data.items()}
     return pd.DataFrame(index=minds, data=data)
 
 
@@ -601,7 +602,8 @@ def np2pd_sp(data, states, a_pos, b_pos, ori, label_map={}):
     minds = pd.MultiIndex.from_product(
         [states, range(n_a), range(n_b)], names=[s, a, b]
     )
-    return pd.DataFrame(index=minds, data={v: d.reshape(-1) for v, d in data.items()})
+    data = {label_map.get(v, v): d.reshape(-1) for v, d in data.items()}
+    return pd.DataFrame(index=minds, data=data)
 
 
 def np2xr_p(data, a_pos, b_pos, c_pos, ori, label_map={}):
@@ -638,7 +640,8 @@ def np2xr_p(data, a_pos, b_pos, c_pos, ori, label_map={}):
     return Dataset(
         coords={b: b_pos, a: a_pos},
         data_vars={
-            v: ((b, a), np.swapaxes(d.reshape(n_a, n_b), 0, 1)) for v, d in data.items()
+            label_map.get(v, v): ((b, a), np.swapaxes(d.reshape(n_a, n_b), 0, 1))
+            for v, d in data.items()
         },
         attrs={c: float(c_pos)},
     )
-- 
2.43.0


From 524413fa059a5b1a8e20d4166662123bca8d53b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:02 +0000
Subject: [PATCH 70/97] fix: mean slice data of a subset of states

---
 foxes/output/slice_data.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/foxes/output/slice_data.py b/foxes/output/slice_data.py
index 447fd1f..b00af2c 100644
--- a/foxes/output/slice_data.py
+++ b/foxes/output/slice_data.py
@@ -148,19 +148,15 @@ class SliceData(Output):
         # take mean over states:
         weights = point_results[FV.WEIGHT].to_numpy()
         if point_results[FV.WEIGHT].dims == (FC.STATE,):
-            data = {
-                v: np.einsum("s,sp->p", weights, point_results[v].to_numpy())
-                for v in variables
-            }
-        elif point_results[FV.WEIGHT].dims == (FC.STATE, FC.POINT):
-            data = {
-                v: np.einsum("sp,sp->p", weights, point_results[v].to_numpy())
-                for v in variables
-            }
-        else:
+            weights = weights[:, None]
+        elif point_results[FV.WEIGHT].dims != (FC.STATE, FC.POINT):
             raise ValueError(
                 f"Wrong dimensions for '{FV.WEIGHT}': Expecting {(FC.STATE,)} or {(FC.STATE, FC.POINT)}, got {point_results[FV.WEIGHT].dims}"
             )
+        weights = weights / np.sum(weights, axis=0)
+        data = {}
+        for v in variables:
+            data[v] = np.sum(weights * point_results[v].to_numpy(), axis=0)
         del point_results, weights
 
         # apply data modification:
-- 
2.43.0


From 7d37147944d9b2aff26e632ed93170651df57a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:02 +0000
Subject: [PATCH 71/97] fix: mean wind direction of slice data

---
 foxes/output/slice_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/foxes/output/slice_data.py b/foxes/output/slice_data.py
index b00af2c..0d6b07d 100644
--- a/foxes/output/slice_data.py
+++ b/foxes/output/slice_data.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from foxes.utils import write_nc
+from foxes.utils import write_nc, wd2uv, uv2wd
 import foxes.variables as FV
 import foxes.constants as FC
 
@@ -156,7 +156,11 @@ class SliceData(Output):
         weights = weights / np.sum(weights, axis=0)
         data = {}
         for v in variables:
-            data[v] = np.sum(weights * point_results[v].to_numpy(), axis=0)
+            d = point_results[v].to_numpy()
+            if v in [FV.WD, FV.AMB_WD]:
+                data[v] = uv2wd(np.sum(weights[..., None] * wd2uv(d), axis=0))
+            else:
+                data[v] = np.sum(weights * d, axis=0)
         del point_results, weights
 
         # apply data modification:
-- 
2.43.0


From 80ee3289b273088c8ed7eac37b00cfd58bd5d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:48 +0000
Subject: [PATCH 72/97] fix: angles of turbine rings

---
 foxes/input/farm_layout/ring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/input/farm_layout/ring.py b/foxes/input/farm_layout/ring.py
index 0fe15d0..2086b4c 100644
--- a/foxes/input/farm_layout/ring.py
+++ b/foxes/input/farm_layout/ring.py
@@ -2,6 +2,7 @@ import numpy as np
 
 from foxes.core import Turbine
 from foxes.utils import wd2wdvec
+from foxes.config import config
 
 
 def add_ring(
@@ -45,7 +46,7 @@ def add_ring(
     """
     p0 = np.array(xy_base)
     R = n_turbines * dist / (2 * np.pi)
-    a = np.atleast_1d(offset_deg)
+    a = np.array([offset_deg], dtype=config.dtype_double).reshape(-1)
     da = 360 / n_turbines
 
     for i in range(n_turbines):
-- 
2.43.0


From 03c4478de03153eba5a0a93f1c2a578ca0bb61e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:48 +0000
Subject: [PATCH 73/97] fix: random farm layouts with seed 0

---
 foxes/utils/random_xy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/random_xy.py b/foxes/utils/random_xy.py
index 18d97e8..3ae4db0 100644
--- a/foxes/utils/random_xy.py
+++ b/foxes/utils/random_xy.py
@@ -38,7 +38,7 @@ def random_xy_square(
     :group: utils
 
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     xmax = np.sqrt(n) * min_dist if xmax_ini is None else xmax_ini
-- 
2.43.0


From 707f083d420f6652676b642e42e21ce1bf38ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:48 +0000
Subject: [PATCH 74/97] fix: wind farms from data frames with any index

---
 foxes/input/farm_layout/from_csv.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/foxes/input/farm_layout/from_csv.py b/foxes/input/farm_layout/from_csv.py
index 91d0a64..60734be 100644
--- a/foxes/input/farm_layout/from_csv.py
+++ b/foxes/input/farm_layout/from_csv.py
@@ -83,27 +83,28 @@ def add_from_csv(
     H = turbine_parameters.pop("H", None)
     D = turbine_parameters.pop("D", None)
 
-    for i in data.index:
-        s = 1 if turbine_base_name_count_shift else 0
+    for n, i in enumerate(data.index):
         tname = (
-            f"{turbine_base_name}{i+s}" if col_name is None else data.loc[i, col_name]
+            f"{turbine_base_name}{i+1 if turbine_base_name_count_shift else i}"
+            if col_name is None
+            else data[col_name].iloc[n]
         )
-        txy = data.loc[i, [col_x, col_y]].values
+        txy = data[[col_x, col_y]].iloc[n].values
 
         if turbine_ids is not None:
-            tid = turbine_ids[i]
+            tid = turbine_ids[n]
         elif col_id is not None:
-            tid = data.loc[i, col_id]
+            tid = data[col_id].iloc[n]
         else:
             tid = None
 
         hmodels = (
-            [] if cols_models_pre is None else data.loc[i, cols_models_pre].tolist()
+            [] if cols_models_pre is None else data[cols_models_pre].iloc[n].tolist()
         )
-        hmodels += [] if col_turbine_type is None else [data.loc[i, col_turbine_type]]
+        hmodels += [] if col_turbine_type is None else [data[col_turbine_type].iloc[n]]
         hmodels += tmodels
         hmodels += (
-            [] if cols_models_post is None else data.loc[i, cols_models_post].tolist()
+            [] if cols_models_post is None else data[cols_models_post].iloc[n].tolist()
         )
 
         farm.add_turbine(
@@ -111,8 +112,8 @@ def add_from_csv(
                 name=tname,
                 index=tid,
                 xy=txy,
-                H=H if col_H not in data.columns else data.loc[i, col_H],
-                D=D if col_D not in data.columns else data.loc[i, col_D],
+                H=H if col_H not in data.columns else data[col_H].iloc[n],
+                D=D if col_D not in data.columns else data[col_D].iloc[n],
                 turbine_models=hmodels,
                 **turbine_parameters,
             ),
-- 
2.43.0


From 307a2b04a2fae3d78374c126e4fa158cee950482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:48 +0000
Subject: [PATCH 75/97] fix: wind farms from compressed files given as path
 objects

---
 foxes/input/farm_layout/from_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/input/farm_layout/from_file.py b/foxes/input/farm_layout/from_file.py
index d42bc30..74e8d08 100644
--- a/foxes/input/farm_layout/from_file.py
+++ b/foxes/input/farm_layout/from_file.py
@@ -40,12 +40,12 @@ def add_from_file(farm, file_path, *args, verbosity=1, dbook=None, **kwargs):
         file_path = dbook.get_file_path(FARM, fpath.name, check_raw=False)
 
     if fpath.suffix == ".json":
-        add_from_json(farm, file_path, *args, **kwargs)
+        add_from_json(farm, file_path, *args, verbosity=verbosity, **kwargs)
     elif (
         fpath.suffix == ".csv"
-        or (len(file_path) > 7 and file_path[-7:] == ".csv.gz")
-        or (len(file_path) > 8 and file_path[-8:] == ".csv.bz2")
-        or (len(file_path) > 8 and file_path[-8:] == ".csv.zip")
+        or fpath.name.endswith(".csv.gz")
+        or fpath.name.endswith(".csv.bz2")
+        or fpath.name.endswith(".csv.zip")
     ):
         add_from_csv(farm, file_path, *args, verbosity=verbosity, **kwargs)
     else:
-- 
2.43.0


From 3c186a2122dec7f601fc76c6406bb3c7b0b125e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:18 +0000
Subject: [PATCH 76/97] fix: model names with decimal points

---
 foxes/models/model_book.py | 14 +++++++-------
 foxes/utils/__init__.py    |  2 +-
 foxes/utils/factory.py     | 35 ++++++++++++++++++++++++++++-------
 3 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/foxes/models/model_book.py b/foxes/models/model_book.py
index 2644fcc..824a2ba 100644
--- a/foxes/models/model_book.py
+++ b/foxes/models/model_book.py
@@ -1,7 +1,7 @@
 from math import sqrt
 import foxes.models as fm
 import foxes.variables as FV
-from foxes.utils import FDict
+from foxes.utils import FDict, dotless2float
 
 from foxes.core import (
     PointDataModel,
@@ -157,21 +157,21 @@ class ModelBook:
         self.turbine_models.add_factory(
             fm.turbine_models.kTI,
             "kTI_<kTI>",
-            kTI=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
+            kTI=dotless2float,
             hints={"kTI": "(Value, e.g. 02 for 0.2)"},
         )
         self.turbine_models.add_factory(
             fm.turbine_models.kTI,
             "kTI_amb_<kTI>",
             kwargs=dict(ti_var=FV.AMB_TI),
-            kTI=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
+            kTI=dotless2float,
             hints={"kTI": "(Value, e.g. 04 for 0.4)"},
         )
         self.turbine_models.add_factory(
             fm.turbine_models.kTI,
             "kTI_<kTI>_<kb>",
-            kTI=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
-            kb=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
+            kTI=dotless2float,
+            kb=dotless2float,
             hints={
                 "kTI": "(Value, e.g. 04 for 0.4)",
                 "kb": "(Value, e.g. 004 for 0.04)",
@@ -181,8 +181,8 @@ class ModelBook:
             fm.turbine_models.kTI,
             "kTI_amb_<kTI>_<kb>",
             kwargs=dict(ti_var=FV.AMB_TI),
-            kTI=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
-            kb=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
+            kTI=dotless2float,
+            kb=dotless2float,
             hints={
                 "kTI": "(Value, e.g. 04 for 0.4)",
                 "kb": "(Value, e.g. 004 for 0.04)",
diff --git a/foxes/utils/__init__.py b/foxes/utils/__init__.py
index d8907ad..1259244 100644
--- a/foxes/utils/__init__.py
+++ b/foxes/utils/__init__.py
@@ -7,7 +7,7 @@ from .pandas_utils import PandasFileHelper
 from .xarray_utils import write_nc
 from .subclasses import all_subclasses, new_cls, new_instance
 from .dict import Dict
-from .factory import Factory, FDict, WakeKFactory
+from .factory import Factory, FDict, WakeKFactory, dotless2float
 from .data_book import DataBook
 from .cubic_roots import cubic_roots
 from .geopandas_utils import read_shp, shp2csv, read_shp_polygons, shp2geom2d
diff --git a/foxes/utils/factory.py b/foxes/utils/factory.py
index ea230c4..c89df68 100644
--- a/foxes/utils/factory.py
+++ b/foxes/utils/factory.py
@@ -4,6 +4,27 @@ from .dict import Dict
 import foxes.variables as FV
 
 
+def dotless2float(x):
+    """
+    Reads a float value from a string, following the
+    dot-skipping convention, e.g. 004 for 0.04.
+
+    Parameters
+    ----------
+    x: str
+        The string, with or without decimal point
+
+    Returns
+    -------
+    value: float
+        The value
+
+    :group: utils
+
+    """
+    return float(f"0.{x[1:]}" if x[:1] == "0" and "." not in x else x)
+
+
 class Factory:
     """
     Constructs objects from a choice of allowed
@@ -404,8 +425,8 @@ class WakeKFactory:
                 hints=h,
                 kwargs=kw.copy(),
                 **kwargs,
-                ka=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
-                kb=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
+                ka=dotless2float,
+                kb=dotless2float,
                 example_vars=exvars,
             )
         )
@@ -429,8 +450,8 @@ class WakeKFactory:
                 kwargs=kw.copy(),
                 var2arg=hv2a,
                 **kwargs,
-                ambka=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
-                kb=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
+                ambka=dotless2float,
+                kb=dotless2float,
                 example_vars=exvars,
             )
         )
@@ -450,7 +471,7 @@ class WakeKFactory:
                 hints=h,
                 kwargs=kw.copy(),
                 **kwargs,
-                ka=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
+                ka=dotless2float,
                 example_vars=exvars,
             )
         )
@@ -473,7 +494,7 @@ class WakeKFactory:
                 kwargs=kw.copy(),
                 var2arg=hv2a,
                 **kwargs,
-                ambka=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
+                ambka=dotless2float,
                 example_vars=exvars,
             )
         )
@@ -493,7 +514,7 @@ class WakeKFactory:
                 hints=h,
                 kwargs=kw.copy(),
                 **kwargs,
-                k=lambda x: float(f"0.{x[1:]}" if x[0] == "0" else float(x)),
+                k=dotless2float,
                 example_vars=exvars,
             )
         )
-- 
2.43.0


From 1b71eea3973dbfa69538fc3d59c2349a0d7b4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:20 +0000
Subject: [PATCH 77/97] fix: nearest points of circles for points at the centre

---
 foxes/utils/geom2d/circle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/utils/geom2d/circle.py b/foxes/utils/geom2d/circle.py
index 2d1788c..242a364 100644
--- a/foxes/utils/geom2d/circle.py
+++ b/foxes/utils/geom2d/circle.py
@@ -89,9 +89,9 @@ class Circle(AreaGeometry):
             if np.all(sel):
                 minp = self.centre + deltas / magd[:, None] * self.radius
             else:
-                minp = np.zeros_like(points)
-                minp[sel] = deltas[sel] / magd[sel]
-                minp[~sel][:, 0] = 1
+                minp = np.zeros_like(deltas)
+                minp[sel] = deltas[sel] / magd[sel, None]
+                minp[~sel, 0] = 1
                 minp = self.centre + minp * self.radius
             return dists, minp
         else:
-- 
2.43.0


From 1a41daebcb4533642e48b6eb94bee53e027192bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:20 +0000
Subject: [PATCH 78/97] fix: subtraction of a list of areas

---
 foxes/utils/geom2d/area_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/geom2d/area_geometry.py b/foxes/utils/geom2d/area_geometry.py
index d9d9eb8..3302afa 100644
--- a/foxes/utils/geom2d/area_geometry.py
+++ b/foxes/utils/geom2d/area_geometry.py
@@ -214,7 +214,7 @@ class AreaGeometry(metaclass=ABCMeta):
 
     def __sub__(self, g):
         if isinstance(g, list):
-            return AreaIntersection([self] + g.inverse())
+            return AreaIntersection([self] + [h.inverse() for h in g])
         else:
             return AreaIntersection([self, g.inverse()])
 
-- 
2.43.0


From d0cbc47b276f02273dc2255addeb9c645be2f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:20 +0000
Subject: [PATCH 79/97] fix: bounds of unbounded area intersections

---
 foxes/utils/geom2d/area_geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/utils/geom2d/area_geometry.py b/foxes/utils/geom2d/area_geometry.py
index 3302afa..ae1d297 100644
--- a/foxes/utils/geom2d/area_geometry.py
+++ b/foxes/utils/geom2d/area_geometry.py
@@ -637,7 +637,7 @@ class InvertedAreaUnion(InvertedAreaGeometry):
                     if np.isinf(pmi[di]) and not np.isinf(imi[di]):
                         out[di] = np.minimum(out[di], imi[di])
             for di in range(2):
-                if not np.isinf(pmi[di]):
+                if not np.isinf(pmi[di]) or np.isinf(out[di]):
                     out[di] = -np.inf
             return out
 
@@ -665,7 +665,7 @@ class InvertedAreaUnion(InvertedAreaGeometry):
                     if np.isinf(pma[di]) and not np.isinf(ima[di]):
                         out[di] = np.maximum(out[di], ima[di])
             for di in range(2):
-                if not np.isinf(pma[di]):
+                if not np.isinf(pma[di]) or np.isinf(out[di]):
                     out[di] = np.inf
             return out
 
-- 
2.43.0


From e42f758e26967f0b7860ce0a8ed4393840344dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:30 +0000
Subject: [PATCH 80/97] fix: polygons with integer coordinates

---
 foxes/utils/geom2d/polygon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/utils/geom2d/polygon.py b/foxes/utils/geom2d/polygon.py
index 11aa015..469ae42 100644
--- a/foxes/utils/geom2d/polygon.py
+++ b/foxes/utils/geom2d/polygon.py
@@ -32,10 +32,10 @@ class ClosedPolygon(AreaGeometry):
             The polygon points, shape: (n_points, 2)
 
         """
-        self.points = points
+        self.points = np.array(points, dtype=np.float64)
 
-        if not np.all(points[0] == points[-1]):
-            self.points = np.append(self.points, points[[0]], axis=0)
+        if not np.all(self.points[0] == self.points[-1]):
+            self.points = np.append(self.points, self.points[[0]], axis=0)
 
         self.poly = Path(self.points, closed=True)
 
-- 
2.43.0


From cb8af1dc86cad201f68c980228c2af8524761fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:30 +0000
Subject: [PATCH 81/97] fix: json layouts of wind farms with numpy indices and
 names

---
 foxes/output/farm_layout.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/output/farm_layout.py b/foxes/output/farm_layout.py
index afdae5f..65c55a8 100644
--- a/foxes/output/farm_layout.py
+++ b/foxes/output/farm_layout.py
@@ -116,9 +116,9 @@ class FarmLayoutOutput(Output):
         out = {self.farm.name: {}}
         for ti, p in enumerate(data):
             t = self.farm.turbines[ti]
-            out[self.farm.name][t.name] = {
-                "id": t.index,
-                "name": t.name,
+            out[self.farm.name][str(t.name)] = {
+                "id": int(t.index),
+                "name": str(t.name),
                 "UTMX": p[0],
                 "UTMY": p[1],
             }
-- 
2.43.0


From 69e9846e2d4b644a5b43b54b9f5acccf0e8e4bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:30 +0000
Subject: [PATCH 82/97] fix: xyh layout files are written to the output
 directory

---
 foxes/output/farm_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/output/farm_layout.py b/foxes/output/farm_layout.py
index 65c55a8..66ed2ac 100644
--- a/foxes/output/farm_layout.py
+++ b/foxes/output/farm_layout.py
@@ -341,7 +341,7 @@ class FarmLayoutOutput(Output):
         data = self.get_layout_data()
 
         fname = file_path if file_path is not None else self.farm.name + ".xyh"
-        np.savetxt(fname, data, header="x y h")
+        np.savetxt(self.get_fpath(fname), data, header="x y h")
 
     def write_csv(self, file_name=None, type_col=None, algo=None):
         """
-- 
2.43.0


From a5fc4294bab5e57a9190fac666dac9e7844a828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:58 +0000
Subject: [PATCH 83/97] fix: run_outputs returns the list of outputs unless the
 labels are requested

Operator precedence made it return a tuple (outputs, rlabels) in every case.
---
 foxes/input/yaml/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 70f9379..c9980c9 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -438,7 +438,7 @@ def run_outputs(
         if len(odicts):
             _print()
 
-    return out if not ret_rlabels else out, rlabels
+    return (out, rlabels) if ret_rlabels else out
 
 
 def run_dict(idict, *args, verbosity=None, **kwargs):
-- 
2.43.0


From 1be17c06fa85c762738be76c90a142c8fe0262c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:07 +0000
Subject: [PATCH 84/97] fix: read_dict and run_dict leave the parameter
 dictionary unchanged

They removed and added entries, such that a second run with the same
dictionary failed, and the verbosity of the engine was not set.
---
 foxes/input/yaml/dict.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index c9980c9..6e220dc 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -128,6 +128,7 @@ def read_dict(
         if algo is None:
             _print("Creating wind farm")
             fdict = idict.get_item("wind_farm")
+            fdict = Dict(fdict, name=fdict.name)
             lyts = [
                 Dict(l, name=f"{fdict.name}.layout{i}")
                 for i, l in enumerate(fdict.pop_item("layouts"))
@@ -152,15 +153,17 @@ def read_dict(
         _print(f"Initializing engine: {engine}")
         engine.initialize()
     elif "engine" in idict:
+        edict = dict(idict["engine"])
         if verbosity is not None:
-            idict["verbosity"] = verbosity - 1
-        engine = Engine.new(**idict["engine"])
+            edict["verbosity"] = verbosity - 1
+        engine = Engine.new(**edict)
         engine.initialize()
         _print(f"Initializing engine: {engine}")
 
     # create algorithm:
     if algo is None:
         adict = idict.get_item("algorithm")
+        adict = Dict(adict, name=adict.name)
         if iterative is not None and iterative:
             adict["algo_type"] = "Iterative"
         _print("Creating algorithm :", adict["algo_type"])
@@ -481,6 +484,7 @@ def run_dict(idict, *args, verbosity=None, **kwargs):
 
     # run farm calculation:
     rdict = idict.get_item("calc_farm", Dict(name=idict.name + ".calc_farm"))
+    rdict = Dict(rdict, name=rdict.name)
     if rdict.pop_item("run", True):
         _print("Running calc_farm")
         farm_results = algo.calc_farm(**rdict)
@@ -492,6 +496,7 @@ def run_dict(idict, *args, verbosity=None, **kwargs):
     point_results = None
     if "calc_points" in idict:
         rdict = idict.get_item("calc_points")
+        rdict = Dict(rdict, name=rdict.name)
         if rdict.pop_item("run"):
             _print("Running calc_points")
             points = rdict.pop_item("points")
-- 
2.43.0


From 249cdb77dfc2f05c4ec982177ec0785683afc8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:07 +0000
Subject: [PATCH 85/97] fix: calc_points of run_dict runs by default, like
 calc_farm

---
 foxes/input/yaml/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 6e220dc..7ed5d36 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -497,7 +497,7 @@ def run_dict(idict, *args, verbosity=None, **kwargs):
     if "calc_points" in idict:
         rdict = idict.get_item("calc_points")
         rdict = Dict(rdict, name=rdict.name)
-        if rdict.pop_item("run"):
+        if rdict.pop_item("run", True):
             _print("Running calc_points")
             points = rdict.pop_item("points")
             if isinstance(points, str):
-- 
2.43.0


From 7b473e64eadcea45155a64325a13cfd89f6af566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:07 +0000
Subject: [PATCH 86/97] fix: indices of result labels in output functions work
 for lists and tuples

---
 foxes/input/yaml/dict.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 7ed5d36..a9623f9 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -243,8 +243,10 @@ def _get_object(rlabels, d):
     d = d.replace("]", "")
     i0 = d.find("[")
     if i0 > 0:
-        inds = tuple([int(x) for x in d[i0 + 1 :].split(",")])
-        return rlabels[d[:i0]][inds]
+        obj = rlabels[d[:i0]]
+        for x in d[i0 + 1 :].split(","):
+            obj = obj[int(x)]
+        return obj
     else:
         return rlabels[d]
 
-- 
2.43.0


From b80428d7f3a4c89a04f7f59af50318320c39c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:46 +0000
Subject: [PATCH 87/97] fix: windIO wind resource numbers are not replaced by
 default values

A turbulence intensity given as a number was overruled by the default 0.05.
---
 foxes/input/yaml/windio/read_site.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/input/yaml/windio/read_site.py b/foxes/input/yaml/windio/read_site.py
index ccc952c..f6d7f42 100644
--- a/foxes/input/yaml/windio/read_site.py
+++ b/foxes/input/yaml/windio/read_site.py
@@ -99,7 +99,7 @@ def _get_Timeseries(
                 fix[v] = d
             elif verbosity > 2:
                 print(f"        ignoring field '{v}' with dims {dims[v]}")
-        fix.update({v: d for v, d in fixval.items() if v not in data})
+        fix.update({v: d for v, d in fixval.items() if v not in data and v not in fix})
 
         sdata = pd.DataFrame(index=coords[FC.TIME], data=data)
         sdata.index.name = FC.TIME
@@ -142,7 +142,7 @@ def _get_MultiHeightNCTimeseries(
                 fix[v] = d
             elif verbosity > 2:
                 print(f"        ignoring field '{v}' with dims {dims[v]}")
-        fix.update({v: d for v, d in fixval.items() if v not in data})
+        fix.update({v: d for v, d in fixval.items() if v not in data and v not in fix})
 
         sdata = Dataset(coords=coords, data_vars=data)
         states_dict.update(
-- 
2.43.0


From 076ddc76358a8a60cc7bafad9fe0f31d1b660568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:46 +0000
Subject: [PATCH 88/97] fix: windIO height dependent time series accept
 variables that depend on time only

They were ignored and replaced by default values.
---
 foxes/input/yaml/windio/read_site.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/input/yaml/windio/read_site.py b/foxes/input/yaml/windio/read_site.py
index f6d7f42..7221fac 100644
--- a/foxes/input/yaml/windio/read_site.py
+++ b/foxes/input/yaml/windio/read_site.py
@@ -138,6 +138,8 @@ def _get_MultiHeightNCTimeseries(
                 data[v] = ((FC.TIME, FV.H), d)
             elif dims[v] == (FV.H, FC.TIME):
                 data[v] = ((FC.TIME, FV.H), np.swapaxes(d, 0, 1))
+            elif dims[v] == (FC.TIME,):
+                data[v] = ((FC.TIME,), d)
             elif len(dims[v]) == 0:
                 fix[v] = d
             elif verbosity > 2:
-- 
2.43.0


From 160ca3762c44f8c8936c5e3239e50afb201f96ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:46 +0000
Subject: [PATCH 89/97] fix: windIO wind resource without time is read as
 single state

The check for numbers used the names of the coordinates, and the data frame
of the state needed a time coordinate.
---
 foxes/input/yaml/windio/read_site.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/foxes/input/yaml/windio/read_site.py b/foxes/input/yaml/windio/read_site.py
index 7221fac..a6043d6 100644
--- a/foxes/input/yaml/windio/read_site.py
+++ b/foxes/input/yaml/windio/read_site.py
@@ -47,7 +47,7 @@ def _get_SingleStateStates(
     """Try to generate single state parameters
     :group: input.yaml.windio
     """
-    for c in coords:
+    for c in coords.values():
         if not isinstance(c, Number):
             return False
 
@@ -56,20 +56,18 @@ def _get_SingleStateStates(
 
     smap = {FV.WS: "ws", FV.WD: "wd", FV.TI: "ti", FV.RHO: "rho"}
 
-    data = {smap[v]: d for v, d in fixval.items()}
+    data = {smap.get(v, v): d for v, d in fixval.items()}
     for v, d in coords.items():
         if v in smap:
             data[smap[v]] = d
         elif verbosity > 1:
             print(f"        ignoring coord '{v}'")
     for v, d in fields.items():
-        if v in smap and len(dims[v]) == 0:
-            data[smap[v]] = d
+        if len(dims[v]) == 0 and (v in smap or (len(profiles) and v in [FV.Z0, FV.MOL])):
+            data[smap.get(v, v)] = d
         elif verbosity > 1:
             print(f"        ignoring field '{v}' with dims {dims[v]}")
 
-    sdata = pd.DataFrame(index=coords[FC.TIME], data=data)
-    sdata.index.name = FC.TIME
     states_dict.update(
         dict(
             states_type="SingleStateStates",
@@ -265,11 +263,11 @@ def read_site(wio_dict, verbosity=1):
     if verbosity > 2:
         print("      Coords:")
         for c, d in coords.items():
-            print(f"        {c}: Shape {d.shape}")
+            print(f"        {c}: Shape {np.shape(d)}")
         print("      Fields:")
         for f, d in dims.items():
             if len(d):
-                print(f"        {f}: Dims {d}, shape {fields[f].shape}")
+                print(f"        {f}: Dims {d}, shape {np.shape(fields[f])}")
             else:
                 print(f"        {f} = {fields[f]}")
 
-- 
2.43.0


From 17fe011e54606b65491caa8cef3e959dbf3cb9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:46 +0000
Subject: [PATCH 90/97] fix: Dict accepts keys that are not strings

The turbine types of windIO farms are usually labelled by integers.
---
 foxes/utils/dict.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/foxes/utils/dict.py b/foxes/utils/dict.py
index 5c0afa4..9999889 100644
--- a/foxes/utils/dict.py
+++ b/foxes/utils/dict.py
@@ -42,18 +42,19 @@ class Dict(dict):
                 }
             )
 
-        super().__init__(
-            **tmp,
-            **{
+        tmp.update(
+            {
                 k: (
                     Dict(d, name=k)
                     if isinstance(d, dict) and not isinstance(d, Dict)
                     else d
                 )
                 for k, d in kwargs.items()
-            },
+            }
         )
 
+        super().__init__(tmp)
+
         self.name = name if name is not None else type(self).__name__
 
     def get_item(self, key, *deflt, prnt=True):
-- 
2.43.0


From 1bb63a21ba1f62598994884eba355be5af6b88b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:46 +0000
Subject: [PATCH 91/97] fix: windIO Cp curves use the rotor average exponents
 of the analysis section

---
 foxes/input/yaml/windio/read_farm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/foxes/input/yaml/windio/read_farm.py b/foxes/input/yaml/windio/read_farm.py
index 36efebf..97e32af 100644
--- a/foxes/input/yaml/windio/read_farm.py
+++ b/foxes/input/yaml/windio/read_farm.py
@@ -40,6 +40,11 @@ def read_turbine_types(wio_farm, mbook, ws_exp_P, ws_exp_ct, verbosity):
     if "turbine_types" not in wio_farm:
         wio_farm["turbine_types"] = {0: wio_farm["turbines"]}
 
+    def _get_wse_var(wse):
+        if wse not in [1, 2, 3]:
+            raise ValueError(f"Expecting wind speed exponent 1, 2 or 3, got {wse}")
+        return FV.REWS if wse == 1 else (FV.REWS2 if wse == 2 else FV.REWS3)
+
     ttypes = {}
     for k, wio_trbns in wio_farm["turbine_types"].items():
         tname = wio_trbns.pop_item("name")
@@ -69,13 +74,6 @@ def read_turbine_types(wio_farm, mbook, ws_exp_P, ws_exp_ct, verbosity):
             data_P = pd.DataFrame(data={"ws": ws_P, "P": P})
             data_ct = pd.DataFrame(data={"ws": ws_ct, "ct": ct})
 
-            def _get_wse_var(wse):
-                if wse not in [1, 2, 3]:
-                    raise ValueError(
-                        f"Expecting wind speed exponent 1, 2 or 3, got {wse}"
-                    )
-                return FV.REWS if wse == 1 else (FV.REWS2 if wse == 2 else FV.REWS3)
-
             _print(f"            Creating model '{tname}'", level=3)
             _print(f"              Turbine type class: PCtFomTwo", level=3)
             mbook.turbine_types[tname] = TurbineType.new(
@@ -122,6 +120,8 @@ def read_turbine_types(wio_farm, mbook, ws_exp_P, ws_exp_ct, verbosity):
                 col_ct="ct",
                 H=wio_trbns["hub_height"],
                 D=wio_trbns["rotor_diameter"],
+                var_ws_ct=_get_wse_var(ws_exp_ct),
+                var_ws_P=_get_wse_var(ws_exp_P),
             )
             _print("               ", mbook.turbine_types[tname], level=3)
 
-- 
2.43.0


From 19d77f9ad44cd06025a1cee09c3c6e39a22a5003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:46 +0000
Subject: [PATCH 92/97] fix: windIO model names TurbOPark and Bastankhah2016
 are found

---
 foxes/input/yaml/windio/read_attributes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/input/yaml/windio/read_attributes.py b/foxes/input/yaml/windio/read_attributes.py
index 90cf60e..39e4a46 100644
--- a/foxes/input/yaml/windio/read_attributes.py
+++ b/foxes/input/yaml/windio/read_attributes.py
@@ -19,7 +19,7 @@ def _read_wind_deficit(
             "Jensen": "JensenWake",
             "Bastankhah2014": "Bastankhah2014",
             "Bastankhah2016": "Bastankhah2016",
-            "TurbOPark": "TurbOPark",
+            "TurbOPark": "TurbOParkWake",
         },
         name="wind_def_map",
     )
@@ -231,6 +231,7 @@ def _read_deflection(deflection, induction, algo_dict, mbook, verbosity):
     defl_def_map = Dict(
         {
             "None": "RotorWD",
+            "Bastankhah2016": "YawedWakes",
             "Batankhah2016": "YawedWakes",
         },
         name="defl_def_map",
-- 
2.43.0


From 174ebbed0188c552f35ad2bbae168a34d85b7459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:46 +0000
Subject: [PATCH 93/97] fix: windIO documents without background averaging use
 the rotor centre

There is no rotor model None.
---
 foxes/input/yaml/windio/read_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/windio/read_attributes.py b/foxes/input/yaml/windio/read_attributes.py
index 39e4a46..19b4f18 100644
--- a/foxes/input/yaml/windio/read_attributes.py
+++ b/foxes/input/yaml/windio/read_attributes.py
@@ -200,7 +200,7 @@ def _read_rotor_averaging(rotor_averaging, algo_dict, verbosity):
     if background_averaging in ["center", "centre"]:
         algo_dict["rotor_model"] = "centre"
     elif background_averaging in ["none", "None", None]:
-        algo_dict["rotor_model"] = None
+        algo_dict["rotor_model"] = "centre"
     elif background_averaging == "grid":
         algo_dict["rotor_model"] = f"grid{nx*ny}"
     else:
-- 
2.43.0


From 1ad05f2906984911a80305c38261057491a001f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:46 +0000
Subject: [PATCH 94/97] fix: windIO output specifications without cases_run
 report all states

---
 foxes/input/yaml/windio/read_outputs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/windio/read_outputs.py b/foxes/input/yaml/windio/read_outputs.py
index b0c7cd5..fcb7106 100644
--- a/foxes/input/yaml/windio/read_outputs.py
+++ b/foxes/input/yaml/windio/read_outputs.py
@@ -190,7 +190,7 @@ def read_outputs(wio_outs, idict, algo, verbosity=1):
     cases_run = Dict(
         wio_outs.pop_item("cases_run", {}), name=wio_outs.name + ".cases_run"
     )
-    if cases_run.pop_item("all_occurences"):
+    if cases_run.pop_item("all_occurences", True):
         states_isel = None
     else:
         states_isel = cases_run.pop_item("subset")
-- 
2.43.0


From 477e8b3e86045137ed3303de80c113eca087dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:46 +0000
Subject: [PATCH 95/97] fix: the output directory option of foxes_windio is
 found

---
 foxes/input/yaml/windio/windio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/windio/windio.py b/foxes/input/yaml/windio/windio.py
index cafe613..69be70e 100644
--- a/foxes/input/yaml/windio/windio.py
+++ b/foxes/input/yaml/windio/windio.py
@@ -175,7 +175,7 @@ def foxes_windio():
     idict, algo, odir = read_windio(wio, verbosity=args.verbosity)
 
     if args.output_dir is not None:
-        odir = args.odir
+        odir = args.output_dir
 
     run_dict(
         idict,
-- 
2.43.0


From 80f4ccfd6c4d0f580a1f625e767281d1290a2574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:46 +0000
Subject: [PATCH 96/97] fix: SlicesData writes all slices into the output file

Each slice was written into the same file, such that the last one remained.
---
 foxes/output/slices_data.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/foxes/output/slices_data.py b/foxes/output/slices_data.py
index 3db23c7..04a5c55 100644
--- a/foxes/output/slices_data.py
+++ b/foxes/output/slices_data.py
@@ -50,6 +50,8 @@ class SlicesData(Output):
         self,
         z_list,
         *args,
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -90,12 +92,15 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(z_list, name="z"))
         del out.attrs["z"]
+        self._slice_data._write("xarray", out, to_file, verbosity, **write_pars)
         return out
 
     def get_mean_data_xz(
         self,
         y_list,
         *args,
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -136,12 +141,15 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(y_list, name="y"))
         del out.attrs["y"]
+        self._slice_data._write("xarray", out, to_file, verbosity, **write_pars)
         return out
 
     def get_mean_data_yz(
         self,
         x_list,
         *args,
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -182,12 +190,15 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(x_list, name="x"))
         del out.attrs["x"]
+        self._slice_data._write("xarray", out, to_file, verbosity, **write_pars)
         return out
 
     def get_states_data_xy(
         self,
         z_list,
         *args,
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -228,12 +239,16 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(z_list, name="z"))
         del out.attrs["z"]
-        return out.transpose(FC.STATE, "z", ...)
+        out = out.transpose(FC.STATE, "z", ...)
+        self._slice_data._write("xarray", out, to_file, verbosity, **write_pars)
+        return out
 
     def get_states_data_xz(
         self,
         y_list,
         *args,
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -274,12 +289,16 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(y_list, name="y"))
         del out.attrs["y"]
-        return out.transpose(FC.STATE, "z", "y", ...)
+        out = out.transpose(FC.STATE, "z", "y", ...)
+        self._slice_data._write("xarray", out, to_file, verbosity, **write_pars)
+        return out
 
     def get_states_data_yz(
         self,
         x_list,
         *args,
+        to_file=None,
+        write_pars={},
         verbosity=0,
         **kwargs,
     ):
@@ -320,4 +339,6 @@ class SlicesData(Output):
             )
         out = xr.concat(dsl, pd.Index(x_list, name="x"))
         del out.attrs["x"]
-        return out.transpose(FC.STATE, "z", "y", "x", ...)
+        out = out.transpose(FC.STATE, "z", "y", "x", ...)
+        self._slice_data._write("xarray", out, to_file, verbosity, **write_pars)
+        return out
-- 
2.43.0


From b2abfdd627a65e81379a2630f7f733846361231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:46 +0000
Subject: [PATCH 97/97] fix: SlicesData handles renamed coordinates

---
 foxes/output/slices_data.py | 39 +++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/foxes/output/slices_data.py b/foxes/output/slices_data.py
index 04a5c55..eb0de2d 100644
--- a/foxes/output/slices_data.py
+++ b/foxes/output/slices_data.py
@@ -75,6 +75,7 @@ class SlicesData(Output):
             The gridded data
 
         """
+        cname = kwargs.get("label_map", {}).get("z", "z")
         dsl = []
         for z in z_list:
             if verbosity > 0:
@@ -90,8 +91,8 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(z_list, name="z"))
-        del out.attrs["z"]
+        out = xr.concat(dsl, pd.Index(z_list, name=cname))
+        del out.attrs[cname]
         self._slice_data._write("xarray", out, to_file, verbosity, **write_pars)
         return out
 
@@ -124,6 +125,7 @@ class SlicesData(Output):
             The gridded data
 
         """
+        cname = kwargs.get("label_map", {}).get("y", "y")
         dsl = []
         for y in y_list:
             if verbosity > 0:
@@ -139,8 +141,8 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(y_list, name="y"))
-        del out.attrs["y"]
+        out = xr.concat(dsl, pd.Index(y_list, name=cname))
+        del out.attrs[cname]
         self._slice_data._write("xarray", out, to_file, verbosity, **write_pars)
         return out
 
@@ -173,6 +175,7 @@ class SlicesData(Output):
             The gridded data
 
         """
+        cname = kwargs.get("label_map", {}).get("x", "x")
         dsl = []
         for x in x_list:
             if verbosity > 0:
@@ -188,8 +191,8 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(x_list, name="x"))
-        del out.attrs["x"]
+        out = xr.concat(dsl, pd.Index(x_list, name=cname))
+        del out.attrs[cname]
         self._slice_data._write("xarray", out, to_file, verbosity, **write_pars)
         return out
 
@@ -222,6 +225,7 @@ class SlicesData(Output):
             The gridded data
 
         """
+        cname = kwargs.get("label_map", {}).get("z", "z")
         dsl = []
         for z in z_list:
             if verbosity > 0:
@@ -237,9 +241,10 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(z_list, name="z"))
-        del out.attrs["z"]
-        out = out.transpose(FC.STATE, "z", ...)
+        out = xr.concat(dsl, pd.Index(z_list, name=cname))
+        del out.attrs[cname]
+        lmap = kwargs.get("label_map", {})
+        out = out.transpose(*[lmap.get(c, c) for c in (FC.STATE, "z")], ...)
         self._slice_data._write("xarray", out, to_file, verbosity, **write_pars)
         return out
 
@@ -272,6 +277,7 @@ class SlicesData(Output):
             The gridded data
 
         """
+        cname = kwargs.get("label_map", {}).get("y", "y")
         dsl = []
         for y in y_list:
             if verbosity > 0:
@@ -287,9 +293,10 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(y_list, name="y"))
-        del out.attrs["y"]
-        out = out.transpose(FC.STATE, "z", "y", ...)
+        out = xr.concat(dsl, pd.Index(y_list, name=cname))
+        del out.attrs[cname]
+        lmap = kwargs.get("label_map", {})
+        out = out.transpose(*[lmap.get(c, c) for c in (FC.STATE, "z", "y")], ...)
         self._slice_data._write("xarray", out, to_file, verbosity, **write_pars)
         return out
 
@@ -322,6 +329,7 @@ class SlicesData(Output):
             The gridded data
 
         """
+        cname = kwargs.get("label_map", {}).get("x", "x")
         dsl = []
         for x in x_list:
             if verbosity > 0:
@@ -337,8 +345,9 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(x_list, name="x"))
-        del out.attrs["x"]
-        out = out.transpose(FC.STATE, "z", "y", "x", ...)
+        out = xr.concat(dsl, pd.Index(x_list, name=cname))
+        del out.attrs[cname]
+        lmap = kwargs.get("label_map", {})
+        out = out.transpose(*[lmap.get(c, c) for c in (FC.STATE, "z", "y", "x")], ...)
         self._slice_data._write("xarray", out, to_file, verbosity, **write_pars)
         return out
-- 
2.43.0

