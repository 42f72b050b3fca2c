From 2064c908ea5d783e94164d18bb75120766c30cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:30 +0000
Subject: [PATCH 01/79] fix: allow a CCVS to precede its sensing source in the
 circuit

The column of the controlling current was written while the matrix was still
being expanded: IndexError when the sensing element came later.
---
 ahkab/dc_analysis.py |  9 +++++++--
 ahkab/symbolic.py    | 21 +++++++++++++--------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 60de681..df537e7 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1047,8 +1047,9 @@ def generate_mna_and_N(circ, verbose=3):
                 # N[index,0] = 0 pass, it's already zero
                 pass
             elif isinstance(elem, components.sources.HVSource):
-                index_source = circ.find_vde_index(elem.source_id)
-                mna[index, n_of_nodes+index_source] = 1.0 * elem.alpha
+                # its controlling current is added below, as the corresponding
+                # column may not have been allocated yet
+                pass
             else:
                 print("dc_analysis.py: BUG - found an unknown voltage_def elem.")
                 print(elem)
@@ -1060,6 +1061,10 @@ def generate_mna_and_N(circ, verbose=3):
             local_i_index = circ.find_vde_index(elem.source_id, verbose=0)
             mna[elem.n1, n_of_nodes + local_i_index] = mna[elem.n1, n_of_nodes + local_i_index] + elem.alpha
             mna[elem.n2, n_of_nodes + local_i_index] = mna[elem.n2, n_of_nodes + local_i_index] - elem.alpha
+        elif isinstance(elem, components.sources.HVSource):
+            index = n_of_nodes + circ.find_vde_index(elem.part_id, verbose=0)
+            index_source = n_of_nodes + circ.find_vde_index(elem.source_id, verbose=0)
+            mna[index, index_source] = mna[index, index_source] + elem.alpha
 
     # Seems a good place to run some sanity check
     # for the time being we do not halt the execution
diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index a98a403..ce9e167 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -494,14 +494,9 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 mna[index, elem.sn1] = -alpha
                 mna[index, elem.sn2] = +alpha
             elif isinstance(elem, components.sources.HVSource):
-                if elem.is_symbolic:
-                    alpha = _symbol_factory(elem.part_id.upper(), real=True)
-                    if alpha in subs:  # instant substitution
-                        alpha = subs[alpha]
-                else:
-                    alpha = elem.alpha
-                source_index = circ.find_vde_index(elem.source_id)
-                mna[index, n_of_nodes + source_index] = +alpha
+                # its controlling current is added below, as the corresponding
+                # column may not have been allocated yet
+                pass
             elif isinstance(elem, components.Inductor):
                 if ac:
                     if elem.is_symbolic:
@@ -553,6 +548,16 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 F = elem.alpha
             mna[elem.n1, pre_vde + source_current_index] += +F
             mna[elem.n2, pre_vde + source_current_index] += -F
+        elif isinstance(elem, components.sources.HVSource):
+            this_index = circ.find_vde_index(elem.part_id, verbose=0)
+            source_index = circ.find_vde_index(elem.source_id, verbose=0)
+            if elem.is_symbolic:
+                alpha = _symbol_factory(elem.part_id.upper(), real=True)
+                if alpha in subs:  # instant substitution
+                    alpha = subs[alpha]
+            else:
+                alpha = elem.alpha
+            mna[pre_vde + this_index, pre_vde + source_index] += alpha
         else:
             pass
 
-- 
2.43.0


From ba99f560c7a8f5c19a4f74a49ef2d6bb84e3d90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:30 +0000
Subject: [PATCH 02/79] fix: VCVS sharing nodes between its input and output
 ports

The control terms overwrote the +1/-1 of the output port instead of adding to them.
---
 ahkab/dc_analysis.py | 4 ++--
 ahkab/symbolic.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index df537e7..073ec6f 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1041,8 +1041,8 @@ def generate_mna_and_N(circ, verbose=3):
             elif isinstance(elem, components.sources.VSource) and elem.is_timedependent:
                 pass  # taken care step by step
             elif isinstance(elem, components.sources.EVSource):
-                mna[index, elem.sn1] = -1.0 * elem.alpha
-                mna[index, elem.sn2] = +1.0 * elem.alpha
+                mna[index, elem.sn1] += -1.0 * elem.alpha
+                mna[index, elem.sn2] += +1.0 * elem.alpha
             elif isinstance(elem, components.Inductor):
                 # N[index,0] = 0 pass, it's already zero
                 pass
diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index ce9e167..c36d3ab 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -491,8 +491,8 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                         alpha = subs[alpha]
                 else:
                     alpha = elem.alpha
-                mna[index, elem.sn1] = -alpha
-                mna[index, elem.sn2] = +alpha
+                mna[index, elem.sn1] += -alpha
+                mna[index, elem.sn2] += +alpha
             elif isinstance(elem, components.sources.HVSource):
                 # its controlling current is added below, as the corresponding
                 # column may not have been allocated yet
-- 
2.43.0


From 985dcccf55103b37aab39f9da5371211b0ffe6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:54 +0000
Subject: [PATCH 03/79] fix: diode conductance is the derivative of the diode
 current

Breakdown term had the wrong sign and ignored NBV, high injection (IKF) was
ignored, RS was combined with the conductance at the external voltage and the
AREA multiplier was applied inconsistently to current and conductance.
---
 ahkab/diode.py | 58 +++++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 1b31f7a..bffabce 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -357,29 +357,27 @@ class diode_model(object):
             i = self._get_i(vext) * dev.AREA
             dev.last_vd = vext
         else:
-            vd = dev.last_vd if dev.last_vd is not None else 10*self.VT
-            vd = newton(self._obj_irs, vd, fprime=self._obj_irs_prime,
-                        args=(vext, dev), tol=options.vea, maxiter=500)
-            i = self._get_i(vext-vd)
-            dev.last_vd = vd
+            i = self._get_i(vext - self._get_vrs(vext, dev)) * dev.AREA
         return i
 
-    def _obj_irs(self, x, vext, dev):
+    def _get_vrs(self, vext, dev):
+        """Voltage drop across the series resistance RS
+
+        ``RS`` and the junction current are both per unit area: the drop does
+        not depend on ``AREA``."""
+        vd = dev.last_vd if dev.last_vd is not None else 10*self.VT
+        vd = newton(self._obj_irs, vd, fprime=self._obj_irs_prime,
+                    args=(vext,), tol=options.vea, maxiter=500)
+        dev.last_vd = vd
+        return vd
+
+    def _obj_irs(self, x, vext):
         # obj fn for newton
-        return x/self.RS-self._get_i(vext-x)*dev.AREA
+        return x/self.RS - self._get_i(vext - x)
 
-    def _obj_irs_prime(self, x, vext, dev):
+    def _obj_irs_prime(self, x, vext):
         # obj fn derivative for newton
-        # first term
-        ret = 1./self.RS
-        # disable RS
-        RSSAVE = self.RS
-        self.RS = 0
-        # second term
-        ret += self.get_gm(self, 0, (vext-x,), 0, dev)
-        # renable RS
-        self.RS = RSSAVE
-        return ret
+        return 1./self.RS + self._get_gj(vext - x)
 
     def _safe_exp(self, x):
         return np.exp(x) if x < 70 else np.exp(70) + 10 * x
@@ -399,16 +397,28 @@ class diode_model(object):
         if dev.T != self.T:
             self.set_temperature(dev.T)
         v=ports_v[0]
-        gm = self.IS / (self.N * self.VT) *\
-            self._safe_exp(v / (self.N * self.VT)) +\
-            -self.IS/self.VT * (self._safe_exp(-(v+self.BV)/self.VT)) +\
-            self.ISR / (self.NR * self.VT) *\
-            self._safe_exp(v / (self.NR * self.VT))
-        
         if self.RS != 0.0:
+            gm = self._get_gj(v - self._get_vrs(v, dev))
             gm = 1. / (self.RS + 1. / (gm + 1e-3*options.gmin))
+        else:
+            gm = self._get_gj(v)
         return dev.AREA * gm
 
+    def _get_gj(self, v):
+        """Junction conductance per unit area (``RS`` excluded)"""
+        i_fwd = self.IS * (self._safe_exp(v/(self.N * self.VT)) - 1)
+        g_fwd = self.IS / (self.N * self.VT) *\
+            self._safe_exp(v / (self.N * self.VT))
+        if (not isinf(self.IKF)) and (self.IKF>0) and (i_fwd>0):
+            # derivative of i_fwd*sqrt(IKF/(IKF+i_fwd))
+            g_fwd *= sqrt(self.IKF/(self.IKF + i_fwd)) *\
+                (1 - .5*i_fwd/(self.IKF + i_fwd))
+        g_rev = self.IS / (self.NBV * self.VT) *\
+            self._safe_exp(-(v + self.BV) / (self.NBV * self.VT))
+        g_rec = self.ISR / (self.NR * self.VT) *\
+            self._safe_exp(v / (self.NR * self.VT))
+        return g_fwd + g_rev + g_rec
+
     def __str__(self):
         pass
 
-- 
2.43.0


From 8663ed5586aa95534da19be30abc5c027f0eec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:49 +0000
Subject: [PATCH 04/79] fix: an unbiased diode conducts no current

The breakdown term added a constant +IS: I(0) was IS and the reverse saturation
current was missing.
---
 ahkab/diode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index bffabce..bc9e679 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -385,7 +385,7 @@ class diode_model(object):
     def _get_i(self, v):
         i_fwd= self.IS * (self._safe_exp(v/(self.N * self.VT)) - 1)
         i_rec= self.ISR* (self._safe_exp(v/(self.NR * self.VT)) - 1)
-        i_rev=-self.IS * (self._safe_exp(-(v+self.BV)/(self.NBV *self.VT)) - 1)
+        i_rev=-self.IS * self._safe_exp(-(v+self.BV)/(self.NBV *self.VT))
         k_inj = 1
         if (not isinf(self.IKF)) and (self.IKF>0) and (i_fwd>0):
             k_inj = sqrt(self.IKF/(self.IKF+i_fwd))
-- 
2.43.0


From 9cd5db690a0c728d0a731cb2731f289ead7b7eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:42 +0000
Subject: [PATCH 05/79] fix: diode temperature updates

The thermal voltage was never updated, the series resistance drifted every time
diodes at different temperatures shared a model and values computed at the
previous temperature were returned from the evaluation cache.
---
 ahkab/diode.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index bc9e679..8d31cb3 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -33,6 +33,8 @@ This module contains a diode element and its model class.
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
+import copy
+
 from math import e as E, isinf, sqrt
 import numpy as np
 
@@ -112,6 +114,7 @@ class diode(object):
         # this automatically makes the memoization cache obsolete. self.device
         # is in fact passed as one of the arguments, hashed and stored:
         # if it changes, the old cache will return misses.
+        self.device = copy.copy(self.device)
         self.device.T = T
 
     def __str__(self):
@@ -334,6 +337,7 @@ class diode_model(object):
         self.TM1 = float(TM1) if TM1 is not None else TM1_DEFAULT
         self.TM2 = float(TM2) if TM2 is not None else TM2_DEFAULT
         self.T = T_DEFAULT
+        self._nominal = (self.IS, self.BV, self.RS)
         self.last_vd = None
         self.VT = constants.Vth(self.T)
         self.material=material
@@ -423,13 +427,18 @@ class diode_model(object):
         pass
 
     def set_temperature(self, T):
+        # always start from the values at T_DEFAULT, so that the result does
+        # not depend on which temperatures were set before
         T = float(T)
+        Tnom = T_DEFAULT
+        IS, BV, RS = self._nominal
         self.EG = self.material.Eg(T) if self.material!=None else self.EG
-        self.IS = self.IS*(T/self.T)**(self.XTI/self.N)* \
+        self.IS = IS*(T/Tnom)**(self.XTI/self.N)* \
                   np.exp(-constants.e*(self.material.Eg(constants.Tref) if self.material!=None else self.EG)/\
                          (self.N*constants.k*T)*
-                         (1 - T/self.T))
-        self.BV = self.BV - self.TBV*(T - self.T)
-        self.RS = self.RS*(1 + self.TRS*(T - self.T))
+                         (1 - T/Tnom))
+        self.BV = BV - self.TBV*(T - Tnom)
+        self.RS = RS*(1 + self.TRS*(T - Tnom))
+        self.VT = constants.Vth(T)
         self.T = T
 
-- 
2.43.0


From 153165abc3b00932200ca4c359d018cec4cd7145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:32 +0000
Subject: [PATCH 06/79] fix: conductance matrix of a square-law MOS with drain
 and source exchanged

T1*stamp*T2 is an elementwise product on ndarrays: it zeroed most of the stamp.
---
 ahkab/mosq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index ae86b8e..06c2d62 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -378,7 +378,7 @@ class mosq_device(object):
                           (-gmd, -gmg, gmd + gmg + gmb, -gmb),
                           (0, 0, 0, 0)), dtype=np.float64)
         if CS == -1:
-            stamp = self.mosq_model.T1*stamp*self.mosq_model.T2
+            stamp = self.mosq_model.T1.dot(stamp).dot(self.mosq_model.T2)
         if (self.opdict['state'] != ports_v[0]).any():
             self.opdict = {'state':ports_v[0]}
         self.opdict.update({'gmd': stamp[0, 0]})
-- 
2.43.0


From 58b638ed9fa7e05772f2827c0a4a1fba26864746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:21 +0000
Subject: [PATCH 07/79] fix: square-law MOS gm and gmb are the derivatives of
 the drain current

They used a different boundary between the ohmic and saturation regions than the
current, gmb had the wrong sign of a term in saturation and the wrong sign for P
devices.
---
 ahkab/mosq.py | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 06c2d62..69063a2 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -693,20 +693,11 @@ class mosq_mos_model(object):
         if vgs < VT:
             pass # gmb = 0
         else:
-            if vds < vgs - VT:
-                if vsqrt1 > 0:
-                    gmb = self.KP * self.GAMMA * vds * device.W / \
-                          (2 * device.L * vsqrt1 ** .5)
-            else:
-                if vsqrt1 > 0:
-                    gmb += -0.25*self.KP*self.GAMMA*self.LAMBDA*device.W * (vsqrt1 > 0) * \
-                           (-self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vgs - self.VTO)**2 / \
-                           (device.L * vsqrt1**.5)
-                    gmb += +0.5*self.KP*self.GAMMA*device.W*(self.LAMBDA* \
-                            (self.GAMMA * (vsqrt2**.5 + vsqrt1**.5) + vds - vgs + self.VTO) + 1.0) *\
-                            (-self.GAMMA * (vsqrt2**.5 + vsqrt1**.5) \
-                            + vgs - self.VTO) / (device.L * vsqrt1**.5)
-        gmb = self.NPMOS * (1 + skp) * gmb * device.M / device.N
+            # it is -dVT/dVBS times the gate transconductance
+            if vsqrt1 > 0:
+                gmb = self._get_gmg(device, voltages, VT) * \
+                      self.GAMMA / (2 * vsqrt1**.5)
+        gmb = (1 + skp) * gmb * device.M / device.N
         if debug:
             print("gmb %g" % gmb)
         return gmb
@@ -791,17 +782,23 @@ class mosq_mos_model(object):
         if vgs < VT:
             gm = options.iea / VT / 100
         else:
-            if vds < vgs - VT:
-                gm = self.KP * device.W / device.L * vds
-            else:
-                gm = -0.5*self.KP*self.LAMBDA * device.W/device.L * (-self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vgs - self.VTO)**2 \
-                     +0.5*self.KP * device.W/device.L *(self.LAMBDA*( self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vds - vgs + self.VTO) + 1.0) *\
-                     (-2 * self.GAMMA * (-vsqrt2**.5 + vsqrt1**.5) + 2*vgs - 2*self.VTO)
+            gm = self._get_gmg(device, voltages, VT)
         gm = (1 + skp) * gm * device.M / device.N
         if debug:
             print("gmg %g" % gm)
         return gm
 
+    def _get_gmg(self, device, voltages, VT):
+        """Derivative of the current computed by ``get_ids()`` wrt VGS when the
+        device is on, without the device multipliers."""
+        (vds, vgs, vbs) = voltages
+        vov = vgs - VT
+        if vds < vov - 0.5*self.LAMBDA*vov**2:
+            return self.KP * device.W / device.L * vds
+        return self.KP * device.W / device.L * (
+            vov * (1 + self.LAMBDA * (vds - vov + 0.25*self.LAMBDA*vov**2)) +
+            .5 * self.LAMBDA * vov**2 * (0.5*self.LAMBDA*vov - 1))
+
     def _self_check(self):
         """Performs sanity check on the model parameters."""
         ret = True, ""
-- 
2.43.0


From 26cfc703786f65fa33c8a82309bb4e1123fbe0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:21 +0000
Subject: [PATCH 08/79] fix: switch transconductance lacked the output voltage
 factor

---
 ahkab/switch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/switch.py b/ahkab/switch.py
index c95cc91..736220c 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -396,5 +396,5 @@ class vswitch_model:
         self._update_status(vin, dev)
         gm = self.A * self.SLOPE * (math.tanh(self.SLOPE * (self.V - vin)) ** 2 - 1) / (
             self.A * math.tanh(self.SLOPE * (self.V - vin)) - self.B) ** 2
-        return gm + options.gmin
+        return vout * gm + options.gmin
 
-- 
2.43.0


From 3a6719146f9770cd7a569c5669c5bce50c365733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:43 +0000
Subject: [PATCH 09/79] fix: EKV normalized current did not depend on the bias
 only

The Newton iteration started from the current of the previous evaluation and
falsely converged whenever a step went negative: the drain current depended on
the evaluation history, with errors larger than the current itself.
---
 ahkab/ekv.py | 50 +++++++++++++++-----------------------------------
 1 file changed, 15 insertions(+), 35 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 2b8cdff..7a0d863 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -77,8 +77,6 @@ from __future__ import (unicode_literals, absolute_import,
 import scipy, scipy.optimize
 import math
 
-from scipy.optimize import newton
-
 from . import constants
 from . import options
 from . import utilities
@@ -711,45 +709,27 @@ class ekv_mos_model:
 
         The Newton Method is used inside.
         """
-        # starting guess for Newton's Method.
-        if iguess is None:
-            iguess = 1.0
         # sanity checks
         if math.isnan(vsmall):
             raise ValueError("Attempted to calculate a current corresponding to a NaN voltage.")
         if not ip_abs_err > 0:
             raise ValueError("The normalized current absolute error has been set to a negative value.")
-        ismall = newton(self._vsmall_obj, iguess, fprime=self._vsmall_obj_prime,
-                        fprime2=self._vsmall_obj_prime2, args=(vsmall,),
-                        tol=1.48e-8, maxiter=500)
-        #print(ismall, max(ismall, 0))
-        return max(ismall, 10*utilities.EPS)
-
-    def _vsmall_obj(self, x, vsmall):
-        """Returns :math:`e` according to the equations:
-            q = sqrt(.25 + x) - .5
-            e = ln(q) + 2q - vsmall
-        """
-        if x > 0:
-            return math.log(math.sqrt(.25 + x) - 0.5) + 2.0 * math.sqrt(.25 + x) - 1.0 - vsmall
+        # v(q) is concave and increasing: starting from a lower bound for q,
+        # Newton's method converges monotonically.
+        if vsmall < 0:
+            q = math.exp(vsmall - 2.0*math.exp(vsmall))
+        elif vsmall < 2:
+            q = math.exp(vsmall - 2.0)
         else:
-            return x - vsmall
-
-    def _vsmall_obj_prime(self, x, vsmall):
-        """The Newton algorithm in get_ismall(...) requires the evaluation of the
-        first derivative of the fixed point function:
-            dv/di = 1.0/(sqrt(.25+i)-.5) * .5/sqrt(.25 + i) + 1/sqrt(.25 + i)
-        This is provided by this module.
-        """
-        if x < utilities.EPS:
-            x = 10*utilities.EPS
-        return 0.5/(math.sqrt(.25 + x) - .5)/math.sqrt(.25 + x) + \
-               1.0/math.sqrt(.25 + x)
-
-    def _vsmall_obj_prime2(self, x, vsmall):
-        if x < utilities.EPS:
-            x = 10*utilities.EPS
-        return -1./(4*(x + 0.25)*(math.sqrt(x + 0.25) - 0.5)**2) - 1./(2.*(x + 0.25)**(3./2.)) - 1./(4.*(x + 0.25)**(3./2.)*(math.sqrt(x + 0.25) - 0.5))
+            q = 0.5*(vsmall - math.log(0.5*vsmall))
+        for _ in range(500):
+            if q < utilities.EPS:
+                break
+            dq = (vsmall - math.log(q) - 2.0*q) / (1.0/q + 2.0)
+            q = q + dq
+            if abs(dq) < 1e-12*q:
+                break
+        return max(self.qsmall2ismall(q), 10*utilities.EPS)
 
     def get_vsmall(self, ismall, verbose=3):
         """Returns v according to the equations:
-- 
2.43.0


From f09122a74c13f93aaa55e0553047a66a9e790a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:20 +0000
Subject: [PATCH 10/79] fix: EKV transconductances ignored the device
 multipliers

and the slope factor was computed with the wrong gate voltage sign for P devices.
---
 ahkab/ekv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 7a0d863..1e48ef3 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -676,7 +676,7 @@ class ekv_mos_model:
             gms = -1.0 * self.scaling.Gs * qf
         elif CS_FACTOR == -1:
             gms = -self.scaling.Gs * qr
-        return gms
+        return gms * device.M / device.N
 
     def get_gmd(self, device, xxx_todo_changeme3, opdict=None, debug=False):
         """Returns the drain-bulk transconductance or d(IDS)/d(VD-VB)."""
@@ -687,16 +687,16 @@ class ekv_mos_model:
             gmd = self.scaling.Gs * qr
         elif CS_FACTOR == -1:
             gmd = self.scaling.Gs * qf
-        return gmd
+        return gmd * device.M / device.N
 
     def get_gmg(self, device, xxx_todo_changeme4, opdict=None, debug=False):
         """Returns the gate-bulk transconductance or d(IDS)/d(VG-VB)."""
         (vd, vg, vs) = xxx_todo_changeme4
-        VP, nv, nq = self.get_vp_nv_nq(float(vg))
+        (j1, VG, j3), CS_FACTOR = self.get_voltages(vd, vg, vs)
+        VP, nv, nq = self.get_vp_nv_nq(VG)
         Ids, qf, qr = self.get_ids(device, (vd, vg, vs), opdict, debug)
-        (j1, j2, j3), CS_FACTOR = self.get_voltages(vd, vg, vs)
         gmg = CS_FACTOR * self.scaling.Gs * (qf - qr) / nv
-        return gmg
+        return gmg * device.M / device.N
 
     def get_ismall(self, vsmall, ip_abs_err, iguess=None, debug=False):
         """Solves the problem: given v, find i such that:
-- 
2.43.0


From 8f79b35e5df68d7804b0f02ad4e279cf31b2034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:33 +0000
Subject: [PATCH 11/79] fix: default threshold of P-type EKV models

The internal voltages are mirrored for P devices, so that the internal default
has to be positive, as it is in the square-law model.
---
 ahkab/ekv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 1e48ef3..10cd634 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -411,7 +411,7 @@ class ekv_mos_model:
         elif VFB is not None:
             self.VTO = VFB + PHI + GAMMA * PHI  # inv here??
         else:
-            self.VTO = self.NPMOS * VTO_DEFAULT
+            self.VTO = VTO_DEFAULT
 
         if KP is not None:
             self.KP = float(KP)
-- 
2.43.0


From 1ad5bc5109028aea1f9f0ea776da8a7af005516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:33 +0000
Subject: [PATCH 12/79] fix: EKV model type is case insensitive, unknown types
 are refused

TYPE='N' silently gave a P device.
---
 ahkab/ekv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 10cd634..5b8bff3 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -373,7 +373,12 @@ class ekv_mos_model:
 
         self.name = "model_ekv0" if name is None else name
         self.TNOM = float(TNOM) if TNOM is not None else constants.Tref
-        self.NPMOS = 1 if TYPE == 'n' else -1
+        if TYPE.lower() == 'n':
+            self.NPMOS = 1
+        elif TYPE.lower() == 'p':
+            self.NPMOS = -1
+        else:
+            raise ValueError("Unknown MOS type %s" % TYPE)
 
         # optional parameters (no defaults)
         self.TOX = float(TOX) if TOX is not None else None
-- 
2.43.0


From 72b0042cb2818f5831e32ca85ed34e1eb2a6cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:53 +0000
Subject: [PATCH 13/79] fix: body effect coefficient computed from NSUB

GAMMA = sqrt(2*q*esi*NSUB)/COX: the division was inside the square root.
---
 ahkab/ekv.py  | 2 +-
 ahkab/mosq.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 5b8bff3..8e27d80 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -398,7 +398,7 @@ class ekv_mos_model:
             self.GAMMA = float(GAMMA)
         elif NSUB is not None:
             self.GAMMA = math.sqrt(2.0*constants.e*constants.si.esi*NSUB
-                                   *10**6/self.COX)
+                                   *10**6)/self.COX
         else:
             self.GAMMA = GAMMA_DEFAULT
         if PHI is not None:
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 69063a2..60bec4a 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -462,7 +462,7 @@ class mosq_mos_model(object):
             self.GAMMA = float(GAMMA)
         elif NSUB is not None:
             self.GAMMA = math.sqrt(
-                2 * constants.e * constants.si.esi * NSUB * 10 ** 6 / self.COX)
+                2 * constants.e * constants.si.esi * NSUB * 10 ** 6) / self.COX
         else:
             self.GAMMA = GAMMA_DEFAULT
         if PHI is not None:
-- 
2.43.0


From ee65bce2275076013de123caf26cca89050e5e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:53 +0000
Subject: [PATCH 14/79] fix: threshold voltage computed from VFB

It crashed unless PHI and GAMMA were also given, was not mirrored for P devices
and used GAMMA*PHI instead of GAMMA*sqrt(PHI).
---
 ahkab/ekv.py  | 2 +-
 ahkab/mosq.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 8e27d80..8337a7b 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -414,7 +414,7 @@ class ekv_mos_model:
                 printing.print_warning("model %s has internal negative VTO (%f V)."
                                        % (self.name, self.VTO))
         elif VFB is not None:
-            self.VTO = VFB + PHI + GAMMA * PHI  # inv here??
+            self.VTO = self.VFB + self.PHI + self.GAMMA * math.sqrt(self.PHI)
         else:
             self.VTO = VTO_DEFAULT
 
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 60bec4a..6cec30b 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -477,7 +477,7 @@ class mosq_mos_model(object):
             if self.VTO < 0:
                 print("(W): model %s has internal negative VTO (%f V)." % (self.name, self.VTO))
         elif VFB is not None:
-            self.VTO = VFB + PHI + GAMMA * PHI  # inv here??
+            self.VTO = self.VFB + self.PHI + self.GAMMA * math.sqrt(self.PHI)
         else:
             self.VTO = VTO_DEFAULT
 
-- 
2.43.0


From 2d4feae100c47f181cd9223a38bb4bd988d4488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:53 +0000
Subject: [PATCH 15/79] fix: the initial state of a switch was ignored

---
 ahkab/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index eead870..200786b 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -966,7 +966,8 @@ class Circuit(list):
             raise ModelError("Unknown switch model id: " + model_label)
 
         elem = switch.switch_device(part_id=part_id, n1=n1, n2=n2, sn1=sn1,
-                                    sn2=sn2, model=models[model_label])
+                                    sn2=sn2, model=models[model_label],
+                                    ic=ic)
 
         self.append(elem)
 
-- 
2.43.0


From 411d1f7b6bf06e93b1b27f934314010b1d7ddc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:53 +0000
Subject: [PATCH 16/79] fix: off current of a square-law MOS diverged for a
 vanishing threshold

---
 ahkab/mosq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 6cec30b..f6aba9e 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -640,7 +640,7 @@ class mosq_mos_model(object):
         VT = self.get_VT((vds, vgs, vbs), device)
         _, skp = self.get_svt_skp(device)
         if vgs < VT:
-            ids = options.iea * (vgs / VT + vds / VT) / 100
+            ids = options.iea * vds / 100
             if debug:
                 print("OFF: %g" % ids)
         else:
@@ -734,7 +734,7 @@ class mosq_mos_model(object):
         VT = self.VTO + svt + self.GAMMA * \
             (math.sqrt(vsqrt1) - math.sqrt(vsqrt2))
         if vgs < VT:
-            gmd = options.iea / VT / 100
+            gmd = options.iea / 100
         else:
             if vds < vgs -VT -0.5*self.LAMBDA*(VT - vgs)**2: # correction term disc. due to LAMBDA
                 gmd = self.KP * device.W / device.L * (vgs - vds - VT)
@@ -780,7 +780,7 @@ class mosq_mos_model(object):
         VT = self.VTO + svt + self.GAMMA * \
             (math.sqrt(vsqrt1) - math.sqrt(vsqrt2))
         if vgs < VT:
-            gm = options.iea / VT / 100
+            gm = 0.
         else:
             gm = self._get_gmg(device, voltages, VT)
         gm = (1 + skp) * gm * device.M / device.N
-- 
2.43.0


From 831d5b2b71d8c1b88ac663ca450670fa2e0e5a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:38 +0000
Subject: [PATCH 17/79] fix: solution of a linear circuit scaled down by the NR
 damping option

---
 ahkab/dc_analysis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 073ec6f..753e8cd 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -820,11 +820,13 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
             dx = lu.solve(-residuo)
         else:
             dx = np.linalg.solve(mna + nonlinear_circuit*J, -residuo)
-        x = x + get_td(dx, locked_nodes, n=iteration) * dx
         if not nonlinear_circuit:
+            # one full step is all it takes, damping it gives a wrong solution
+            x = x + dx
             converged = True
             break
-        elif convergence_check(x, dx, residuo, nv - 1)[0]:
+        x = x + get_td(dx, locked_nodes, n=iteration) * dx
+        if convergence_check(x, dx, residuo, nv - 1)[0]:
             converged = True
             break
         # if vector_norm(dx) == np.nan: #Overflow
-- 
2.43.0


From 0445c2214050ebb5c4c497d7e914d3edb014da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:53 +0000
Subject: [PATCH 18/79] fix: convergence aids returned the solution of a
 modified circuit

---
 ahkab/dc_analysis.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 753e8cd..49fd42d 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -265,7 +265,7 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
             printing.print_info_line(
                 ("Setting Gmin to: " + str(10 ** gmin_stepping["factors"][gmin_stepping["index"]]), 6), verbose)
             mna_to_pass = build_gmin_matrix(
-                circ, 10 ** (gmin_stepping["factors"][gmin_stepping["index"]]), mna_size, verbose) + mna
+                circ, 10 ** (gmin_stepping["factors"][gmin_stepping["index"]]), mna_size, verbose) + mna + Gmin
             N_to_pass = Ndc + Ntran * (Ntran is not None)
         elif source_stepping["enabled"]:
             printing.print_info_line(
@@ -309,10 +309,12 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
         else:
             printing.print_info_line(
                 ("[%d iterations]" % (n_iter,), 6), verbose)
-            if (source_stepping["enabled"] and source_stepping["index"] != 9):
+            if (source_stepping["enabled"] and
+                source_stepping["index"] < len(source_stepping["factors"]) - 1):
                 converged = False
                 source_stepping["index"] = source_stepping["index"] + 1
-            elif (gmin_stepping["enabled"] and gmin_stepping["index"] != 9):
+            elif (gmin_stepping["enabled"] and
+                  gmin_stepping["index"] < len(gmin_stepping["factors"]) - 1):
                 gmin_stepping["index"] = gmin_stepping["index"] + 1
                 converged = False
             else:
@@ -449,12 +451,14 @@ def get_solve_methods():
         The dictionaries contain the options and the status of the methods.
     """
     standard_solving = {"enabled": False, "failed": False}
-    g_indices = list(range(int(numpy.log(options.gmin)), 0))
+    g_indices = list(range(int(np.floor(np.log10(options.gmin))), 0))
     g_indices.reverse()
+    # the last step solves the original problem (10**-inf is 0)
+    g_indices.append(-np.inf)
     gmin_stepping = {"enabled": False, "failed":
                      False, "factors": g_indices, "index": 0}
     source_stepping = {"enabled": False, "failed": False, "factors": (
-        0.001, .005, .01, .03, .1, .3, .5, .7, .8, .9), "index": 0}
+        0.001, .005, .01, .03, .1, .3, .5, .7, .8, .9, 1.), "index": 0}
     return standard_solving, gmin_stepping, source_stepping
 
 
-- 
2.43.0


From f48466b72eb452a806ae44a3f48f170d0879ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:53 +0000
Subject: [PATCH 19/79] fix: convergence aids started from the diverged iterate
 of the failed method

---
 ahkab/dc_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 49fd42d..a54ff0f 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -246,6 +246,7 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
         x = np.zeros((mna_size, 1))
                       # has n-1 rows because of discard of ^^^
 
+    x_start = x
     converged = False
     standard_solving, gmin_stepping, source_stepping = get_solve_methods()
     standard_solving, gmin_stepping, source_stepping = set_next_solve_method(
@@ -301,6 +302,8 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
             if more_solve_methods_available(standard_solving, gmin_stepping, source_stepping):
                 standard_solving, gmin_stepping, source_stepping = set_next_solve_method(
                     standard_solving, gmin_stepping, source_stepping, verbose)
+                # the last iterate of the failed method may not even be finite
+                x = x_start
             else:
                 # print "Giving up."
                 x = None
-- 
2.43.0


From be4ee09eceb690d7d50bb37010493c335be3b640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:26 +0000
Subject: [PATCH 20/79] fix: square-law MOS with a grounded port crashed the
 operating point analysis

---
 ahkab/mosq.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index f6aba9e..69e8149 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -251,12 +251,12 @@ class mosq_device(object):
         """
         if self.opdict is None:
             self.opdict = {}
-        if not (self.opdict['state'] == ports_v[0]).all() or 'gmd' not in self.opdict \
+        if self.opdict['state'] != tuple(ports_v[0]) or 'gmd' not in self.opdict \
             or 'gm' not in self.opdict or 'gmb' not in self.opdict \
             or 'Ids' not in self.opdict or 'SAT' not in self.opdict:
 
             vds, vgs, _ = ports_v[0]
-            self.opdict['state'] = ports_v[0]
+            self.opdict['state'] = tuple(ports_v[0])
             gstamp = self.gstamp(ports_v[0], reduced=False)[1]
             self.opdict['gmd'] = gstamp[0, 0]
             self.opdict['gm'] = gstamp[0, 1]
@@ -379,8 +379,9 @@ class mosq_device(object):
                           (0, 0, 0, 0)), dtype=np.float64)
         if CS == -1:
             stamp = self.mosq_model.T1.dot(stamp).dot(self.mosq_model.T2)
-        if (self.opdict['state'] != ports_v[0]).any():
-            self.opdict = {'state':ports_v[0]}
+        state = tuple(ports_v)
+        if self.opdict['state'] != state:
+            self.opdict = {'state':state}
         self.opdict.update({'gmd': stamp[0, 0]})
         self.opdict.update({'gm': stamp[0, 1]})
         self.opdict.update({'gmb': stamp[0, 3]})
-- 
2.43.0


From f705cc3a07a6a9cc79cfc4fb936bd1913aba2d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:23 +0000
Subject: [PATCH 21/79] fix: a failed convergence aid was followed by the
 solution of its last modified circuit

---
 ahkab/dc_analysis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index a54ff0f..1672a1d 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -427,9 +427,13 @@ def more_solve_methods_available(standard_solving, gmin_stepping, source_steppin
         The answer.
     """
 
-    if (standard_solving["failed"] or not options.use_standard_solve_method) and \
-       (gmin_stepping["failed"] or not options.use_gmin_stepping) and \
-       (source_stepping["failed"] or not options.use_source_stepping):
+    # a method that is enabled has already been given its chance
+    if (standard_solving["failed"] or standard_solving["enabled"] or
+        not options.use_standard_solve_method) and \
+       (gmin_stepping["failed"] or gmin_stepping["enabled"] or
+        not options.use_gmin_stepping) and \
+       (source_stepping["failed"] or source_stepping["enabled"] or
+        not options.use_source_stepping):
         return False
     else:
         return True
-- 
2.43.0


From 708b6b1816221755048401e9defcc8cc12d28eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:19 +0000
Subject: [PATCH 22/79] fix: diode series resistance solver failures aborted
 the analysis

---
 ahkab/diode.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 8d31cb3..fa89293 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -38,7 +38,7 @@ import copy
 from math import e as E, isinf, sqrt
 import numpy as np
 
-from scipy.optimize import newton
+from scipy.optimize import newton, brentq
 
 from . import constants
 from . import utilities
@@ -370,8 +370,14 @@ class diode_model(object):
         ``RS`` and the junction current are both per unit area: the drop does
         not depend on ``AREA``."""
         vd = dev.last_vd if dev.last_vd is not None else 10*self.VT
-        vd = newton(self._obj_irs, vd, fprime=self._obj_irs_prime,
-                    args=(vext,), tol=options.vea, maxiter=500)
+        try:
+            vd = newton(self._obj_irs, vd, fprime=self._obj_irs_prime,
+                        args=(vext,), tol=options.vea, maxiter=500)
+        except RuntimeError:
+            # newton may fail when vext is far from any physical value: the
+            # drop always has the sign of vext and it does not exceed it.
+            vd = brentq(self._obj_irs, min(vext, 0.) - 1., max(vext, 0.) + 1.,
+                        args=(vext,))
         dev.last_vd = vd
         return vd
 
-- 
2.43.0


From 49a1d0f04618e05ca646fbbe7c69e9cb116fb8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:57 +0000
Subject: [PATCH 23/79] fix: total power with controlled sources

---
 ahkab/results.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 7e7072c..da4928a 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -391,8 +391,8 @@ class op_solution(solution, _mutable_data):
                 v = v + x[elem.n1-1] if elem.n1 != 0 else v
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
                 vs = 0
-                vs = vs + x[elem.n1-1] if elem.sn1 != 0 else vs
-                vs = vs - x[elem.n2-1] if elem.sn2 != 0 else vs
+                vs = vs + x[elem.sn1-1] if elem.sn1 != 0 else vs
+                vs = vs - x[elem.sn2-1] if elem.sn2 != 0 else vs
                 tot_power = tot_power - v*vs*elem.alpha
             elif isinstance(elem, components.sources.ISource):
                 v = 0
@@ -400,7 +400,8 @@ class op_solution(solution, _mutable_data):
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
                 tot_power = tot_power - v*elem.I()
             elif isinstance(elem, components.sources.VSource) or \
-                 isinstance(elem, components.sources.EVSource):
+                 isinstance(elem, components.sources.EVSource) or \
+                 isinstance(elem, components.sources.HVSource):
                 v = 0
                 v = v + x[elem.n1-1] if elem.n1 != 0 else v
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
@@ -423,15 +424,6 @@ class op_solution(solution, _mutable_data):
                 v = v + x[elem.n1 - 1] if elem.n1 != 0 else v
                 v = v - x[elem.n2 - 1] if elem.n2 != 0 else v
                 tot_power = tot_power - v * elem.alpha * x[nv_1 + local_i_index, 0]
-            elif isinstance(elem, components.sources.HVSource):
-                try:
-                    local_i_index = circ.find_vde_index(elem.source_id)
-                except ValueError:
-                    raise RuntimeError("Sensing voltage source %s for %s not found. BUG!" %
-                                       (elem.source_id, elem.part_id))
-                local_i_index2 = circ.find_vde_index(elem.part_id)
-                tot_power = tot_power - elem.alpha*x[nv_1 + local_i_index, 0]* \
-                                        x[nv_1 + local_i_index2, 0]
             elif circuit.is_elem_voltage_defined(elem):
                 i_index = i_index + 1
 
-- 
2.43.0


From abddc65047c0b38dd94e96c7b7e052f82f98a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:29 +0000
Subject: [PATCH 24/79] fix: region reported for P-type or reversed square-law
 MOS

---
 ahkab/mosq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 69e8149..c659401 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -255,14 +255,16 @@ class mosq_device(object):
             or 'gm' not in self.opdict or 'gmb' not in self.opdict \
             or 'Ids' not in self.opdict or 'SAT' not in self.opdict:
 
-            vds, vgs, _ = ports_v[0]
+            # N-type, VDS > 0 equivalent voltages: the region depends on them
+            voltages, _ = self.mosq_model.get_voltages(*ports_v[0])
+            vds, vgs, _ = voltages
             self.opdict['state'] = tuple(ports_v[0])
             gstamp = self.gstamp(ports_v[0], reduced=False)[1]
             self.opdict['gmd'] = gstamp[0, 0]
             self.opdict['gm'] = gstamp[0, 1]
             self.opdict['gmb'] = gstamp[0, 3]
             self.opdict['Ids'] = self.istamp(ports_v[0], reduced=False)[1][0]
-            self.opdict.update({'VTH':self.mosq_model.get_VT(ports_v[0], self.device)})
+            self.opdict.update({'VTH':self.mosq_model.get_VT(voltages, self.device)})
             self.opdict.update({'W':self.device.W, 'L':self.device.L,
                                 'ON':(vgs >= self.opdict['VTH'])})
             self.opdict.update({'beta':.5*self.mosq_model.KP*self.device.W/self.device.L})
-- 
2.43.0


From d4bcce5b8b3e0ea48ccbd1fcf5bfe76a487c6bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:42 +0000
Subject: [PATCH 25/79] fix: points of DC sweeps (roundoff, stop value
 exceeded, logarithmic step)

---
 ahkab/ahkab.py       |  6 +++++-
 ahkab/dc_analysis.py | 36 +++++++++++++++++++++++++++---------
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index 14b06f8..cebc26f 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -313,8 +313,12 @@ def new_dc(start, stop, points, source, sweep_type='LINEAR', guess=True, x0=None
             atexit.register(os.remove, outfile)
     else:
         outfile += '.dc'
+    if sweep_type.upper()[:3] == options.dc_log_step and start > 0 and stop > 0:
+        step = (float(stop) / float(start)) ** (1. / float(points - 1))
+    else:
+        step = float(stop - start) / float(points - 1)
     return {
-        'type': 'dc', 'start': float(start), 'stop': float(stop), 'step': float(stop - start) / float(points - 1),
+        'type': 'dc', 'start': float(start), 'stop': float(stop), 'step': step,
         'source': source, 'x0': x0, 'outfile': outfile, 'guess': guess, 'sweep_type': sweep_type,
         'verbose': verbose}
 
diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 1672a1d..3a6f176 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -485,7 +485,8 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     stop : float
         Stop value of the sweep source
     step : float
-        The step size in the sweep
+        The step size in the sweep: the increment from a value to the next if
+        ``sweep_type`` is linear, their ratio if it is logarithmic.
     source : string
         The part ID of the source to be swept, eg. ``'V1'``.
     sweep_type : string, optional
@@ -513,20 +514,36 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     elem_type, elem_descr = source[0].lower(), source.lower() # eg. 'v', 'v34'
     sweep_label = elem_type[0].upper() + elem_descr[1:]
 
+    sweep_type = sweep_type.upper()[:3]
     if sweep_type == options.dc_log_step and stop - start < 0:
         printing.print_general_error(
             "DC analysis has log sweeping and negative stepping.")
         sys.exit(1)
-    if (stop - start) * step < 0:
+    if sweep_type != options.dc_log_step and (stop - start) * step < 0:
         raise ValueError("Unbonded stepping in DC analysis.")
-
-    points = (stop - start) / step + 1
-    sweep_type = sweep_type.upper()[:3]
-
-    if sweep_type == options.dc_log_step:
-        dc_iter = utilities.log_axis_iterator(start, stop, points=points)
+    if sweep_type == options.dc_log_step and \
+       not (start > 0 and (step > 1 or start == stop)):
+        raise ValueError("Logarithmic DC sweeps need positive values and a "
+                         "step ratio greater than unity.")
+
+    # The number of steps that fit in the interval: the result of the division
+    # is affected by roundoff.
+    if start == stop:
+        steps = 0
+    elif sweep_type == options.dc_log_step:
+        steps = int(np.log(stop / start) / np.log(step) * (1. + 1e-9) + 1e-9)
+        last = start * step**steps
+    else:
+        steps = int((stop - start) / step * (1. + 1e-9) + 1e-9)
+        last = start + steps * step
+    points = steps + 1
+
+    if points == 1:
+        dc_iter = utilities.lin_axis_iterator(start, start, points=1)
+    elif sweep_type == options.dc_log_step:
+        dc_iter = utilities.log_axis_iterator(start, last, points=points)
     elif sweep_type == options.dc_lin_step:
-        dc_iter = utilities.lin_axis_iterator(start, stop, points=points)
+        dc_iter = utilities.lin_axis_iterator(start, last, points=points)
     else:
         printing.print_general_error("Unknown sweep type: %s" % (sweep_type,))
         sys.exit(1)
@@ -571,6 +588,7 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
 
     # tarocca il generatore di tensione, avvia DC silenziosa, ritarocca etc
     index = 0
+    solved = False
     for sweep_value in dc_iter:
         index = index + 1
         if isinstance(source_elem, components.sources.VSource):
-- 
2.43.0


From 6149f9405a4e3e04adc16d08b92ae7f9247499a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:53 +0000
Subject: [PATCH 26/79] fix: AC analysis with an ndarray linearization point or
 no sweep type

---
 ahkab/ac.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ahkab/ac.py b/ahkab/ac.py
index 75aba01..1e7293f 100644
--- a/ahkab/ac.py
+++ b/ahkab/ac.py
@@ -206,7 +206,9 @@ def ac_analysis(circ, start, points, stop, sweep_type=None,
         raise ValueError("AC analysis has start > stop")
     if points < 2 and not start == stop:
         raise ValueError("AC analysis has number of points < 2 & start != stop")
-    if sweep_type.upper() == options.ac_log_step or sweep_type is None:
+    if sweep_type is None:
+        sweep_type = options.ac_log_step
+    if sweep_type.upper() == options.ac_log_step:
         omega_iter = utilities.log_axis_iterator(2*np.pi*start, 2*np.pi*stop, points)
     elif sweep_type.upper() == options.ac_lin_step:
         omega_iter = utilities.lin_axis_iterator(2*np.pi*start, 2*np.pi*stop, points)
@@ -255,11 +257,12 @@ def ac_analysis(circ, start, points, stop, sweep_type=None,
                     printing.print_info_line(("done.", 3), verbose)
             printing.print_info_line(
                 ("Linearization point (xop):", 5), verbose)
-            if verbose > 4:
+            if verbose > 4 and hasattr(x0, 'print_short'):
                 x0.print_short()
             printing.print_info_line(("Linearizing the circuit...", 5), verbose,
                                      print_nl=False)
-            J = _generate_J(xop=x0.asarray(), circ=circ,
+            xop = x0.asarray() if hasattr(x0, 'asarray') else x0
+            J = _generate_J(xop=xop, circ=circ,
                             reduced_mna_size=mna.shape[0])
             printing.print_info_line((" done.", 5), verbose)
             # we have J, continue
-- 
2.43.0


From b82dade929236d5808d77e661a068171abbd0d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:05 +0000
Subject: [PATCH 27/79] fix: AC results read back with phases in degrees

---
 ahkab/results.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index da4928a..4e8bd1b 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -570,6 +570,8 @@ class ac_solution(solution, _mutable_data):
         self.linearization_op = op
         self.stype = stype
         self.ostart, self.ostop, self.opoints = start, stop, points
+        # the unit of the phases in the data file
+        self.phase_in_deg = options.ac_phase_in_deg
 
         self.variables += ["f"]
         self.units.update({"f": "Hz"})
@@ -600,7 +602,7 @@ class ac_solution(solution, _mutable_data):
 
     def __str__(self):
         return ("<AC simulation results for '%s' (netlist %s). %s sweep, " +
-                "from %g to %g rad/sec, %d points. Run on %s, data file " +
+                "from %g to %g Hz, %d points. Run on %s, data file " +
                 "%s>") % (self.netlist_title, self.netlist_file, self.stype,
                           self.ostart, self.ostop, self.opoints, self.timestamp,
                           self.filename)
@@ -610,11 +612,15 @@ class ac_solution(solution, _mutable_data):
         xsplit = np.zeros((x.shape[0]*2, 1))
         for i in range(x.shape[0]):
             xsplit[2*i, 0] = np.abs(x[i, 0])
-            xsplit[2*i+1, 0] = np.angle(x[i, 0], deg=options.ac_phase_in_deg)
+            xsplit[2*i+1, 0] = np.angle(x[i, 0], deg=self.phase_in_deg)
 
         data = np.concatenate((frequency, xsplit), axis=0)
         self._add_data(data)
 
+    def _phase(self, data):
+        """The phases read from file, in radians."""
+        return np.deg2rad(data) if self.phase_in_deg else data
+
     def get_x(self):
         return self[self.variables[0]]
 
@@ -646,12 +652,12 @@ class ac_solution(solution, _mutable_data):
                     ip = [h.upper() for h in headers].index(match_phase)
                     if cplx_data is None:
                         cplx_data = np.array(data[i, :]*
-                                             np.exp(1j*data[ip,:]).reshape((1, -1)),
+                                             np.exp(1j*self._phase(data[ip, :])).reshape((1, -1)),
                                              dtype=np.complex_)
                     else:
                         cplx_data = np.vstack((cplx_data,
                                                (data[i, :]*
-                                                np.exp(1j*data[ip, :])).reshape((1, -1))))
+                                                np.exp(1j*self._phase(data[ip, :]))).reshape((1, -1))))
         return cplx_data
 
     # Access as a dictionary BY VARIABLE NAME:
@@ -671,7 +677,7 @@ class ac_solution(solution, _mutable_data):
             # raise the correct exception
             raise KeyError(name)
         if len(headers) == 2:
-            data = data[0, :] * np.exp(1j*data[1, :])
+            data = data[0, :] * np.exp(1j*self._phase(data[1, :]))
         else:
             data = data.reshape((-1,))
         return data
-- 
2.43.0


From e512717a3265a3ad14fb8c7db37ad220b17a54c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:34 +0000
Subject: [PATCH 28/79] fix: pulse waveform with a delay that does not fit in
 its period

---
 ahkab/time_functions.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index bd53e69..8c71053 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -440,15 +440,17 @@ class pulse(object):
         """Evaluate the pulse function at the given time."""
         if time is None:
             time = 0
-        time = time - self.per * int(time / self.per)
         if time < self.td:
             return self.v1
-        elif time < self.td + self.tr:
-            return self.v1 + ((self.v2 - self.v1) / (self.tr)) * (time - self.td)
-        elif time < self.td + self.tr + self.pw:
+        # the waveform is periodic from td on
+        time = time - self.td
+        time = time - self.per * int(time / self.per)
+        if time < self.tr:
+            return self.v1 + ((self.v2 - self.v1) / (self.tr)) * time
+        elif time < self.tr + self.pw:
             return self.v2
-        elif time < self.td + self.tr + self.pw + self.tf:
-            return self.v2 + ((self.v1 - self.v2) / (self.tf)) * (time - (self.td + self.tr + self.pw))
+        elif time < self.tr + self.pw + self.tf:
+            return self.v2 + ((self.v1 - self.v2) / (self.tf)) * (time - (self.tr + self.pw))
         else:
             return self.v1
 
-- 
2.43.0


From 330c1d91caedfc483da0ea190fb4455bc3726c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:25 +0000
Subject: [PATCH 29/79] fix: netlist time functions reject documented
 parameters and following options

---
 ahkab/netlist_parser.py | 82 +++++++++++++++++++----------------------
 ahkab/time_functions.py | 14 +++++--
 2 files changed, 49 insertions(+), 47 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index d67cbd0..22007b5 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -572,33 +572,17 @@ def parse_elem_vsource(line, circ):
         label, value = parse_param_value_from_string(line_elements[index])
 
         if label == 'type':
-            if value == 'vdc':
-                param_number = 0
-            elif value == 'vac':
-                param_number = 0
-            elif value == 'pulse':
-                param_number = 7
-            elif value == 'exp':
-                param_number = 6
-            elif value == 'sin':
-                param_number = 5
-            elif value == 'sffm':
-                param_number = 5
-            elif value == 'am':
-                param_number = 5
-            else:
+            if value in ('vdc', 'vac'):
+                pass
+            elif value not in time_fun_specs:
                 raise NetlistParseError("parse_elem_vsource(): unknown signal" +
                                         "type %s" % value)
-            if param_number and function is None:
-                function = parse_time_function(value,
-                                               line_elements[index + 1:
-                                                             index + param_number
-                                                             + 1],
-                                               "voltage")
-                index = index + param_number
-                # continue
             elif function is not None:
                 raise NetlistParseError("parse_elem_vsource(): only a time function can be defined.")
+            else:
+                tokens = get_time_function_tokens(line_elements[index + 1:])
+                function = parse_time_function(value, tokens, "voltage")
+                index = index + len(tokens)
         elif label == 'vdc':
             dc_value = convert_units(value)
         elif label == 'vac':
@@ -661,30 +645,16 @@ def parse_elem_isource(line, circ):
         (label, value) = parse_param_value_from_string(line_elements[index])
 
         if label == 'type':
-            if value == 'idc':
-                param_number = 0
-            elif value == 'iac':
-                param_number = 0
-            elif value == 'pulse':
-                param_number = 7
-            elif value == 'exp':
-                param_number = 6
-            elif value == 'sin':
-                param_number = 5
-            elif value == 'sffm':
-                param_number = 5
-            elif value == 'am':
-                param_number = 5
-            else:
+            if value in ('idc', 'iac'):
+                pass
+            elif value not in time_fun_specs:
                 raise NetlistParseError("parse_elem_isource(): unknown signal type.")
-            if param_number and function is None:
-                function = parse_time_function(value,
-                                               line_elements[index + 1:
-                                                             index + param_number + 1],
-                                               "current")
-                index = index + param_number
             elif function is not None:
                 raise NetlistParseError("parse_elem_isource(): only a time function can be defined.")
+            else:
+                tokens = get_time_function_tokens(line_elements[index + 1:])
+                function = parse_time_function(value, tokens, "current")
+                index = index + len(tokens)
         elif label == 'idc':
             dc_value = convert_units(value)
         elif label == 'iac':
@@ -1174,6 +1144,28 @@ def parse_elem_user_defined(line, circ):
     return [elem]
 
 
+def get_time_function_tokens(line_elements):
+    """Get the tokens that describe a time function.
+
+    **Parameters:**
+
+    line_elements : list of strings
+        The tokens following the ``"type=<ftype>"`` element.
+
+    **Returns:**
+
+    tokens : list of strings
+        The leading tokens, up to the next option of the source, excluded, or
+        to a comment.
+    """
+    tokens = []
+    for token in line_elements:
+        if token[0] == '*' or token.split('=')[0] in ('type', 'vdc', 'vac', 'idc', 'iac'):
+            break
+        tokens.append(token)
+    return tokens
+
+
 def parse_time_function(ftype, line_elements, stype):
     """Parses a time function of type ftype from the line_elements supplied.
 
@@ -1207,6 +1199,8 @@ def parse_time_function(ftype, line_elements, stype):
             break
         if is_valid_value_param_string(token):
             (label, value) = token.split('=')
+            if stype.lower() == "current" and label in ('io', 'ia', 'i1', 'i2'):
+                label = 'v' + label[1:]
         else:
             label, value = None, token
         assigned = False
diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index 8c71053..b62a5ac 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -153,7 +153,7 @@ import math
 
 from scipy.interpolate import InterpolatedUnivariateSpline
 
-time_fun_specs = {'sin': { #VO VA FREQ TD THETA
+time_fun_specs = {'sin': { #VO VA FREQ TD THETA PHASE
     'tokens': ({
                'label': 'vo',
                'pos': 0,
@@ -193,6 +193,14 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'needed': False,
                'dest': 'theta',
                'default': 0
+               },
+               {
+               'label': 'phase',
+               'pos': 5,
+               'type': float,
+               'needed': False,
+               'dest': 'phi',
+               'default': 0.
                }
                )
         },'exp': { #EXP(V1 V2 TD1 TAU1 TD2 TAU2)
@@ -323,7 +331,7 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'label': 'fc',
                'pos': 2,
                'type': float,
-               'needed': False,
+               'needed': True,
                'dest': 'fc',
                'default': None
                },
@@ -390,7 +398,7 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'type': float,
                'needed': False,
                'dest': 'td',
-               'default': None
+               'default': 0.
                })
         }
 }
-- 
2.43.0


From 728ed079308e87e05d2fddd18e04fd581e95fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:36 +0000
Subject: [PATCH 30/79] fix: Gear integration methods can not be imported with
 current scipy

---
 ahkab/gear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/gear.py b/ahkab/gear.py
index b9b0962..3739cf7 100644
--- a/ahkab/gear.py
+++ b/ahkab/gear.py
@@ -85,7 +85,7 @@ from __future__ import (unicode_literals, absolute_import,
 import numpy as np
 import sys
 
-from scipy.misc import factorial
+from math import factorial
 
 from . import printing
 
-- 
2.43.0


From eca26fab39e729c7a19481269dd3c496ceb5603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:36 +0000
Subject: [PATCH 31/79] fix: fixed-step transient analysis crashes with the
 Euler and Gear methods

---
 ahkab/transient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/transient.py b/ahkab/transient.py
index 14f8ce8..192aa3c 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -256,7 +256,8 @@ def transient_analysis(circ, tstart, tstep, tstop, method=options.default_tran_m
         buffer_len += 1
         thebuffer = dfbuffer(length=buffer_len, width=3)
     else:
-        thebuffer = dfbuffer(length=max(max_x, max_dx) + 1, width=3)
+        buffer_len = max([mx for mx in (max_x, max_dx) if mx is not None]) + 1
+        thebuffer = dfbuffer(length=buffer_len, width=3)
     thebuffer.add((tstart, x0, None)) #setup the first values
     printing.print_info_line(("done.", 5), verbose) #FIXME
 
-- 
2.43.0


From a2622612d969ca50096877f302efd7124404149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:37 +0000
Subject: [PATCH 32/79] fix: initial values of nodes and elements with any
 legal name (dots, underscores, signs)

---
 ahkab/dc_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 3a6f176..0116f5f 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1136,8 +1136,8 @@ def build_x0_from_user_supplied_ic(circ, icdict):
 
     :raises ValueError: whenever a malformed ``icdict`` is supplied.
     """
-    Vregex = re.compile("V\s*\(\s*([a-z0-9]+)\s*\)", re.IGNORECASE | re.DOTALL)
-    Iregex = re.compile("I\s*\(\s*([a-z0-9]+)\s*\)", re.IGNORECASE | re.DOTALL)
+    Vregex = re.compile(r"^\s*V\s*\(\s*([^\s()]+)\s*\)\s*$", re.IGNORECASE)
+    Iregex = re.compile(r"^\s*I\s*\(\s*([^\s()]+)\s*\)\s*$", re.IGNORECASE)
     nv = circ.get_nodes_number()  # number of voltage variables
     voltage_defined_elem_names = \
         [elem.part_id.lower() for elem in circ
-- 
2.43.0


From e3ef42179bfc01975fec6c565b4da12deb97c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:53 +0000
Subject: [PATCH 33/79] fix: non-finite solutions of linear systems reported as
 converged

---
 ahkab/dc_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 0116f5f..1fdf02f 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -852,7 +852,7 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
         if not nonlinear_circuit:
             # one full step is all it takes, damping it gives a wrong solution
             x = x + dx
-            converged = True
+            converged = bool(np.isfinite(x).all())
             break
         x = x + get_td(dx, locked_nodes, n=iteration) * dx
         if convergence_check(x, dx, residuo, nv - 1)[0]:
-- 
2.43.0


From a5f24d802d35871c4505d82e797e2b123d303423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:05 +0000
Subject: [PATCH 34/79] fix: initial conditions of capacitors with a grounded
 terminal, in chains or of zero value ignored or set on the wrong unknown

---
 ahkab/dc_analysis.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 1fdf02f..8d01033 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1205,14 +1205,27 @@ def modify_x0_for_ic(circ, x0):
         x for x in circ if circuit.is_elem_voltage_defined(x)]
 
     # setup voltages this may _not_ work properly
-    for elem in circ:
-        if isinstance(elem, components.Capacitor) and elem.ic or \
-                isinstance(elem, diode.diode) and elem.ic:
-            x0[elem.n1 - 1, 0] = x0[elem.n2 - 1, 0] + elem.ic
+    # We start from the elements connected to a node whose voltage is already
+    # set (ground, first of all), not to disturb the ICs already satisfied.
+    def get_v(node):
+        return x0[node - 1, 0] if node else 0.
+    set_nodes = set([0])
+    for elem_class in (components.Capacitor, diode.diode):
+        elems = [elem for elem in circ
+                 if isinstance(elem, elem_class) and elem.ic is not None]
+        while len(elems):
+            elem = next((e for e in elems
+                         if e.n1 in set_nodes or e.n2 in set_nodes), elems[0])
+            elems.remove(elem)
+            if elem.n1 not in set_nodes:
+                x0[elem.n1 - 1, 0] = get_v(elem.n2) + elem.ic
+            elif elem.n2 not in set_nodes:
+                x0[elem.n2 - 1, 0] = get_v(elem.n1) - elem.ic
+            set_nodes.update((elem.n1, elem.n2))
 
     # setup the currents
     for elem in voltage_defined_elements:
-        if isinstance(elem, components.Inductor) and elem.ic:
+        if isinstance(elem, components.Inductor) and elem.ic is not None:
             x0[nv - 1 + voltage_defined_elements.index(elem), 0] = elem.ic
 
     if return_obj:
-- 
2.43.0


From 1f0ab45df9c8122be844f2fa33f79a54be5ed28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:08 +0000
Subject: [PATCH 35/79] fix: operating point crashes with a diode initial
 condition

---
 ahkab/diode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index fa89293..a56beae 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -94,7 +94,7 @@ class diode(object):
 
         if ic is not None:  # fixme
             print("(W): ic support in diodes is very experimental.")
-            self.dc_guess = ic
+            self.dc_guess = [ic]
         self.ic = ic
         self.off = off
         if self.off:
-- 
2.43.0


From 28ecb1fb80cd48b1cbcfb850e164821e65869ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:51 +0000
Subject: [PATCH 36/79] fix: get_op_x0 returns the operating point, not the
 dictionary of the results

---
 ahkab/ahkab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index cebc26f..22e2a14 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -796,7 +796,7 @@ def get_op_x0(circ):
     x0 : an OP solution object
         The linearization point.
     """
-    return run(circ, [new_op()])
+    return run(circ, [new_op()])['op']
 
 
 def set_temperature(T):
-- 
2.43.0


From 1a59b63e79fdeb80cb6b281bba5e10e270631577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 37/79] fix: comments after coupled inductors, inductors and
 capacitors lines crash the parser or hide the initial condition

---
 ahkab/netlist_parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 22007b5..bdbf9fe 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -425,7 +425,7 @@ def parse_elem_capacitor(line, circ):
         raise NetlistParseError("parse_elem_capacitor(): malformed line")
 
     ic = None
-    if len(line_elements) == 5 and not line_elements[4][0] == '*':
+    if len(line_elements) > 4 and not line_elements[4][0] == '*':
         (label, value) = parse_param_value_from_string(line_elements[4])
         if label == "ic":
             ic = convert_units(value)
@@ -460,11 +460,13 @@ def parse_elem_inductor(line, circ):
         A list containing a :class:`ahkab.components.Inductor` element.
     """
     line_elements = line.split()
-    if len(line_elements) < 4 or (len(line_elements) > 5 and not line_elements[6][0] == "*"):
+    if len(line_elements) < 4 or \
+       (len(line_elements) > 5 and not line_elements[5][0] == "*" and
+        not line_elements[4][0] == "*"):
         raise NetlistParseError("parse_elem_inductor(): malformed line")
 
     ic = None
-    if len(line_elements) == 5 and not line_elements[4][0] == '*':
+    if len(line_elements) > 4 and not line_elements[4][0] == '*':
         (label, value) = parse_param_value_from_string(line_elements[4])
         if label == "ic":
             ic = convert_units(value)
@@ -499,7 +501,7 @@ def parse_elem_inductor_coupling(line, circ, elements=[]):
         A list containing a :class:`ahkab.components.InductorCoupling` element.
     """
     line_elements = line.split()
-    if len(line_elements) < 4 or (len(line_elements) > 4 and not line_elements[5][0] == "*"):
+    if len(line_elements) < 4 or (len(line_elements) > 4 and not line_elements[4][0] == "*"):
         raise NetlistParseError("parse_elem_inductor_coupling(): malformed line")
 
     part_id = line_elements[0]
-- 
2.43.0


From 62fe4784398c845ac44722dc537972619ac0cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:24 +0000
Subject: [PATCH 38/79] fix: documented parameters of .dc, .ac, .op, .pss and
 .pz lines refused

---
 ahkab/ac.py             | 1 +
 ahkab/dc_analysis.py    | 1 +
 ahkab/netlist_parser.py | 8 +++++++-
 ahkab/pss.py            | 2 +-
 ahkab/pz.py             | 9 +++++++++
 5 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/ahkab/ac.py b/ahkab/ac.py
index 1e7293f..1022720 100644
--- a/ahkab/ac.py
+++ b/ahkab/ac.py
@@ -109,6 +109,7 @@ from . import (circuit, dc_analysis, components, options, printing, results,
 
 specs = {'ac': {'tokens': ({
                            'label': 'type',
+                           'aliases': ('sweep_type',),
                            'pos': 0,
                            'type': str,
                            'needed': False,
diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 8d01033..2eeeb01 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -82,6 +82,7 @@ specs = {'op': {
 },
     'dc': {'tokens': ({
                       'label': 'source',
+                      'aliases': ('src',),
                       'pos': 0,
                       'type': str,
                       'needed': True,
diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index bdbf9fe..5aa37c2 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -1494,8 +1494,13 @@ def parse_single_analysis(line):
         else:
             label, value = None, token
         assigned = False
+        if an_type == 'op' and label == 'guess' and \
+           value not in ('yes', 'no', 'true', 'false', '0', '1'):
+            # .op guess=<ic_label>
+            label = 'ic_label'
         for t in params:
-            if (label is None and t['pos'] == i) or label == t['label']:
+            if (label is None and t['pos'] == i) or \
+               (label is not None and label in (t['label'],) + t.get('aliases', ())):
                 an.update({t['dest']: convert(value, t['type'])})
                 assigned = True
                 break
@@ -1533,6 +1538,7 @@ def parse_single_analysis(line):
     # ... and pz :(
     if an['type'] == 'pz':
         an.update({'x0':'op'})
+        an.pop('zeros') # implied by the output and the source
 
     return an
 
diff --git a/ahkab/pss.py b/ahkab/pss.py
index 96b4f65..8ad8ed8 100644
--- a/ahkab/pss.py
+++ b/ahkab/pss.py
@@ -45,7 +45,7 @@ specs = {'pss': {'tokens': ({
                             'label': 'points',
                             'pos': None,
                             'type': float,
-                            'needed': True,
+                            'needed': False,
                             'dest': 'points',
                             'default': None
                             },
diff --git a/ahkab/pz.py b/ahkab/pz.py
index 0c64865..f51e77b 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -82,6 +82,7 @@ specs = {'pz': {'tokens': ({
                            },
                            {
                            'label': 'input',
+                           'aliases': ('source',),
                            'pos': 1,
                            'type': str,
                            'needed': False,
@@ -95,6 +96,14 @@ specs = {'pz': {'tokens': ({
                            'needed': False,
                            'dest': 'shift',
                            'default': 0.0
+                           },
+                           {
+                           'label': 'zeros',
+                           'pos': None,
+                           'type': bool,
+                           'needed': False,
+                           'dest': 'zeros',
+                           'default': None
                            })
                }
         }
-- 
2.43.0


From 95dedf92bbd869d0e0656dca6178507441e093b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 39/79] fix: diode T parameter ignored and OFF refused in
 netlists

---
 ahkab/netlist_parser.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 5aa37c2..02c7593 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -722,15 +722,14 @@ def parse_elem_diode(line, circ, models=None):
             break
         param, value = parse_param_value_from_string(line_elements[index])
 
-        value = convert_units(value)
         if param == "area":
-            Area = value
+            Area = convert_units(value)
         elif param == "t":
-            T = value
+            T = convert_units(value)
         elif param == "ic":
-            ic = value
+            ic = convert_units(value)
         elif param == "off":
-            if not len(value):
+            if value == "":
                 off = True
             else:
                 off = convert_boolean(value)
@@ -745,7 +744,7 @@ def parse_elem_diode(line, circ, models=None):
     if model_label not in models:
         raise NetlistParseError("parse_elem_diode(): Unknown model id: " + model_label)
     elem = diode.diode(part_id=line_elements[0], n1=n1, n2=n2, model=models[
-                       model_label], AREA=Area, ic=ic, off=off)
+                       model_label], AREA=Area, T=T, ic=ic, off=off)
     return [elem]
 
 
-- 
2.43.0


From eb6a94e43abccda61fdb61abb0751188b350cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 40/79] fix: pole-zero analysis with singularities at infinity
 or at the origin, coupled inductors, null transfer functions, calculate_poles

---
 ahkab/pz.py | 261 +++++++++++++++++++++++++---------------------------
 1 file changed, 125 insertions(+), 136 deletions(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index f51e77b..a6cebe6 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -37,9 +37,9 @@ and:
     *Proceedings of the 34th Midwest Symposium on*, pp.380,
     383 vol.1, 14-17 May 1991
 
-Frequency sweeping -- or shifting -- is performed with a random frequency
-kick, currently, hoping not to kick so hard that we end up on the negative side.
-A bisection method would be better and hopefully will be implemented soon.
+The equations are expanded around a real frequency, the *shift*. If they are
+singular there, or if the transfer function has a zero there, another frequency
+is selected.
 
 Overview
 ~~~~~~~~
@@ -61,6 +61,7 @@ from __future__ import (unicode_literals, absolute_import,
 import copy
 
 import numpy as np
+from scipy import linalg
 
 from . import circuit
 from . import dc_analysis
@@ -108,12 +109,40 @@ specs = {'pz': {'tokens': ({
                }
         }
 
-def _enlarge_matrix(M):
-    if M is None:
-        return np.zeros((1, 1))
-    else:
-        return np.vstack((np.hstack((M, np.zeros((M.shape[0], 1)))),
-                         np.zeros((1, M.shape[1] + 1))))
+def _is_regular(M):
+    """Is the matrix regular, whatever the units of its rows and columns?"""
+    M = np.abs(M), M
+    for _ in range(3):
+        for axis in (0, 1):
+            scale = np.sqrt(M[0].max(axis=axis, keepdims=True))
+            if not np.all(scale):
+                return False
+            M = M[0]/scale, M[1]/scale
+    return np.linalg.cond(M[1]) < 1e13
+
+def _select_shift(MNA, D, shift):
+    """Find a frequency at which the circuit equations are regular."""
+    for s in [shift] + [shift + 1.37*10.**k for k in (3, 6, 0, 9, -3, 12)]:
+        if _is_regular(MNA + s*D):
+            return s
+    raise ValueError("PZ: the circuit equations are singular at any frequency.")
+
+def _eigvals_to_singularities(M, shift):
+    """Get the finite singularities from the eigenvalues of a time constant matrix
+
+    A null eigenvalue corresponds to a singularity at infinity. The eigenvalues
+    that, given the numerical precision, are undistinguishable from zero (they
+    share the pseudospectrum of a null eigenvalue) are disregarded.
+    """
+    M = linalg.matrix_balance(M)[0]
+    noise = 100.*M.shape[0]*np.finfo(float).eps*np.linalg.norm(M)
+
+    def is_null(eigval):
+        return all(linalg.svdvals(M - t*eigval*np.eye(M.shape[0]))[-1] <= noise
+                   for t in (0., .25, .5, .75))
+
+    eigvals = np.array([e for e in linalg.eigvals(M) if not is_null(e)])
+    return 1./(2.*np.pi)*(1./eigvals + shift)
 
 def calculate_poles(mc, MNA=None, x0=None, outfile=None, verbose=0):
     """Calculate the circuit poles.
@@ -138,8 +167,9 @@ def calculate_poles(mc, MNA=None, x0=None, outfile=None, verbose=0):
     pz_sol : pz_solution instance
         The PZ solution, with no zeros.
     """
-    return calculate_singularities(mc, input_source=None, output_port=None, 
-                                   MNA=None, shift=0)[0]
+    return calculate_singularities(mc, input_source=None, output_port=None,
+                                   MNA=MNA, x0=x0, shift=0, outfile=outfile,
+                                   verbose=verbose)
 
 def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                             x0=None, shift=0, outfile=None, verbose=0):
@@ -186,11 +216,9 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
             input_source = input_source.part_id
         if type(output_port) in py3compat.string_types:
             output_port = plotting._split_netlist_label(output_port)[0] 
-            output_port = [o[1:] for o in output_port]
-            output_port = [o.lower() for o in output_port]
-            if len(output_port) == 1:
-                # we refer to the ground implicitely
-                output_port += ['0']
+            # with one node only, we refer to the ground implicitely
+            output_port = [o[1:] if o else '0' for o in output_port]
+            output_port = [o if o in mc.nodes_dict else o.lower() for o in output_port]
         if np.isscalar(output_port):
             output_port = (output_port, mc.gnd)
         if (type(output_port) == tuple or type(output_port) == list) \
@@ -198,13 +226,12 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
             output_port = [mc.ext_node_to_int(o) for o in output_port]
         we_got_source = False
         for e in mc:
-            if e.part_id == input_source:
+            if e.part_id.lower() == input_source.lower():
+                input_source = e.part_id
                 we_got_source = True
                 break
         if not we_got_source:
             raise ValueError('Source %s not found in circuit.' % input_source)
-        RIIN = []
-        ROUT = []
     if MNA is None:
         MNA, N = dc_analysis.generate_mna_and_N(mc)
         if mc.is_nonlinear():
@@ -222,128 +249,90 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
             J, _ = dc_analysis.build_J_and_Tx(x0, MNA.shape[0]-1, mc, time=0., sparse=False)
             MNA[1:, 1:] += J
     D = transient.generate_D(mc, MNA[1:, 1:].shape)
-    MNAinv = np.linalg.inv(MNA[1:, 1:] + shift*D[1:, 1:])
+    MNA_r, D_r = MNA[1:, 1:], D[1:, 1:]
+    shift = _select_shift(MNA_r, D_r, shift)
     nodes_m1 = mc.get_nodes_number() - 1
-    vde1 = -1
-    MC = np.zeros((MNA.shape[0] - 1, 1))
-    TCM = None
-    dei_source = 0
-    for e1 in mc:
-        if circuit.is_elem_voltage_defined(e1):
-            vde1 += 1
-        if isinstance(e1, components.Capacitor):
-            MC[e1.n1 - 1, 0] += 1. if e1.n1 > 0 else 0.
-            MC[e1.n2 - 1, 0] -= 1. if e1.n2 > 0 else 0.
-        elif isinstance(e1, components.Inductor):
-            MC[nodes_m1 + vde1] += -1.
-        elif calc_zeros and e1.part_id == input_source:
-            if isinstance(e1, components.sources.VSource):
-                MC[nodes_m1 + vde1] += -1.
-            elif isinstance(e1, components.sources.ISource):
-                MC[e1.n1 - 1, 0] += 1. if e1.n1 > 0 else 0.
-                MC[e1.n2 - 1, 0] -= 1. if e1.n2 > 0 else 0.
-            else:
-                raise Exception("Unknown input source type %s" % input_source)
+    # incidence of the reactive elements and of the input source
+    vde = -1
+    reactive = []
+    source = None
+    for e in mc:
+        if circuit.is_elem_voltage_defined(e):
+            vde += 1
+        v = np.zeros((MNA_r.shape[0],))
+        if isinstance(e, (components.Capacitor, components.sources.ISource)):
+            if e.n1:
+                v[e.n1 - 1] += 1.
+            if e.n2:
+                v[e.n2 - 1] -= 1.
+        elif isinstance(e, (components.Inductor, components.sources.VSource)):
+            v[nodes_m1 + vde] = -1.
         else:
             continue
-        TV = -1. * np.dot(MNAinv, MC)
-        dei_victim = 0
-        vde2 = -1
-        for e2 in mc:
-            if circuit.is_elem_voltage_defined(e2):
-                vde2 += 1
-            if isinstance(e2, components.Capacitor):
-                v = 0
-                if e2.n1:
-                    v += TV[e2.n1 - 1, 0]
-                if e2.n2:
-                    v -= TV[e2.n2 - 1, 0]
-            elif isinstance(e2, components.Inductor):
-                v = TV[nodes_m1 + vde2, 0]                
-            else:
+        if isinstance(e, (components.Capacitor, components.Inductor)):
+            reactive.append((e, v))
+        elif calc_zeros and e.part_id == input_source:
+            source = v
+    if calc_zeros and source is None:
+        raise ValueError("Unknown input source type %s" % input_source)
+    nr = len(reactive)
+    # the capacitances and the inductances, coupling included
+    L = np.zeros((nr, nr))
+    for i, (e1, _) in enumerate(reactive):
+        L[i, i] = e1.value
+        if not isinstance(e1, components.Inductor):
+            continue
+        for cd in e1.coupling_devices:
+            for j, (e2, _) in enumerate(reactive):
+                if isinstance(e2, components.Inductor) and e2 is not e1 \
+                   and cd.get_other_inductor(e1.part_id) == e2.part_id:
+                    L[i, j] += cd.M
+    excitation = np.array([v for _, v in reactive]).reshape((nr, -1)).T
+    # voltage across the capacitors, current through the inductors
+    sense = np.array([v if isinstance(e, components.Capacitor) else -v
+                      for e, v in reactive]).reshape((nr, -1))
+
+    def get_TCM(shift):
+        TV = -1.*np.linalg.solve(MNA_r + shift*D_r, excitation)
+        return np.dot(np.dot(sense, TV), L), TV
+
+    def get_scale(poles):
+        """A frequency in the range of the poles (rad/s)"""
+        mag = np.abs(poles)
+        mag = mag[(mag > 0) & (mag < options.pz_max)]
+        return 2.*np.pi*np.exp(np.log(mag).mean()) if len(mag) else 1e3
+
+    poles, zeros = [], []
+    if nr:
+        poles = _eigvals_to_singularities(get_TCM(shift)[0], shift)
+        scale = get_scale(poles)
+        if shift and not 1e-2 < abs(shift)/scale < 1e2 and \
+           _is_regular(MNA_r + 1.37*scale*D_r):
+            # the shift is far away from the poles: repeat in their range
+            shift = 1.37*scale
+            poles = _eigvals_to_singularities(get_TCM(shift)[0], shift)
+            scale = get_scale(poles)
+    if nr and calc_zeros:
+        out = np.zeros((MNA_r.shape[0],))
+        for o, sign in zip(output_port, (1., -1.)):
+            if o:
+                out[o - 1] += sign
+        for s in [shift] + [1.37*scale*3.**k for k in (0, 1, -1, 2, -2, 3, -3)]:
+            if not _is_regular(MNA_r + s*D_r):
                 continue
-            if calc_zeros and e1.part_id == input_source:
-                RIIN += [v]
-            else:
-                if not dei_source:
-                    TCM = _enlarge_matrix(TCM)
-                TCM[dei_victim, dei_source] = v*e1.value
-                dei_victim += 1
-        if calc_zeros and e1.part_id == input_source:
-            ROUTIN = 0
-            o1, o2 = output_port
-            if o1:
-                ROUTIN += TV[o1 - 1, 0]
-            if o2:
-               ROUTIN -= TV[o2 - 1, 0]
-        else:
-            dei_source += 1
-        # reset, get ready to restart
-        MC[:, :] = 0.
-    if TCM is not None:
-        if np.linalg.det(TCM):
-            poles = 1./(2.*np.pi)*(1./np.linalg.eigvals(TCM) + shift)
-        else:
-            return calculate_singularities(mc, input_source, output_port, MNA=MNA,
-                                           outfile=outfile, 
-                                           shift=shift+np.abs(1+np.random.uniform())*1e3)
-    else:
-        poles = []
-    if calc_zeros and TCM is not None:
-        # re-loop, get the ROUT elements
-        vde1 = -1
-        MC = np.zeros((MNA.shape[0] - 1, 1))
-        ROUT = []
-        for e1 in mc:
-            if circuit.is_elem_voltage_defined(e1):
-                vde1 += 1
-            if isinstance(e1, components.Capacitor):
-                MC[e1.n1 - 1, 0] += 1. if e1.n1 > 0 else 0.
-                MC[e1.n2 - 1, 0] -= 1. if e1.n2 > 0 else 0.
-            elif isinstance(e1, components.Inductor):
-                MC[nodes_m1 + vde1, 0] += -1.
-            else:
+            TCM, TV = get_TCM(s)
+            TVin = -1.*np.linalg.solve(MNA_r + s*D_r, source)
+            RIIN = np.dot(sense, TVin)
+            ROUT = np.dot(np.dot(out, TV), L)
+            if not ROUT.any():
+                # the output doesn't depend on the reactive elements
+                break
+            ROUTIN = np.dot(out, TVin)
+            if np.abs(ROUTIN) <= 1e-12*np.abs(TVin[:nodes_m1]).max():
+                # a zero, or close to one.
                 continue
-            TV = -1.*np.dot(MNAinv, MC)
-            v = 0
-            o1, o2 = output_port
-            if o1:
-                v += TV[o1 - 1, 0]
-            if o2:
-               v -= TV[o2 - 1, 0]
-            ROUT += [v*e1.value]
-            # reset, get ready to restart
-            MC[:, :] = 0.
-        # Reshape the matrices and evaluate the zero correction.
-        RIIN = np.array(RIIN).reshape((-1, 1))
-        RIIN = np.tile(RIIN, (1, RIIN.shape[0]))
-        ROUT = np.diag(np.atleast_1d(np.array(ROUT)))
-        if ROUT.any():
-            try:
-                if not np.all(ROUTIN) or not np.isfinite(ROUTIN):
-                    # immediate catch
-                    raise ValueError("ROUT-IN is either Inf, NaN or null")
-                ZTCM = TCM - np.dot(RIIN, ROUT)/ROUTIN
-                if not (np.isfinite(ZTCM).all()):
-                    raise ValueError("Array contains infs, NaNs or both")
-                    # immediate catch
-                eigvals = np.linalg.eigvals(ZTCM)
-                if not np.all(eigvals) or not np.isfinite(eigvals).all():
-                    # immediate catch
-                    raise ValueError("ZTCM eigenvalues contain either Inf, NaN or null values")
-                zeros = 1./(2.*np.pi)*(1./np.linalg.eigvals(ZTCM) + shift)
-            except ValueError:
-                return calculate_singularities(mc, input_source, output_port, 
-                                           MNA=MNA, outfile=outfile,
-                                           shift=shift+np.abs(np.random.uniform()+1)*1e3)
-        elif shift < 1e12:
-            return calculate_singularities(mc, input_source, output_port, 
-                                       MNA=MNA, outfile=outfile,
-                                       shift=shift*np.abs(np.random.uniform()+1)*10)
-        else:
-            zeros = []
-    else:
-        zeros = []
+            zeros = _eigvals_to_singularities(TCM - np.outer(RIIN, ROUT)/ROUTIN, s)
+            break
     poles = np.array([a for a in poles if np.abs(a) < options.pz_max], dtype=np.complex_)
     zeros = np.array([a for a in zeros if np.abs(a) < options.pz_max], dtype=np.complex_)
     poles = np.sort_complex(poles)
-- 
2.43.0


From 1d11e92c7f166fb04db1c09c12536e37af7ff342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 41/79] fix: netlists read from stdin, mixed case names of
 included files, plot labels with node names such as in+

---
 ahkab/netlist_parser.py | 16 +++++++++-------
 ahkab/plotting.py       |  8 ++++----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 02c7593..9f4a135 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -164,11 +164,11 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
     else:
         buf = ""
         for aline in sys.stdin:
-            buf += aline + "\n"
+            buf += aline
         ffile = StringIO(buf)
 
     file_list = [(ffile, "unknown", not read_netlist_from_stdin)]
-    netlist_wd = os.path.split(filename)[0]
+    netlist_wd = "" if read_netlist_from_stdin else os.path.split(filename)[0]
     file_index = 0
     directives = []
     model_directives = []
@@ -186,14 +186,16 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
                 if len(line) == 0:
                     break  # check for EOF
                 line_n = line_n + 1
-                line = line.strip().lower()
+                line = line.strip()
                 if line_n == 1:
                     # the first line is always the title
-                    circ.title = line
+                    circ.title = line.lower()
                     continue
                 elif len(line) == 0:
                     continue  # empty line is really empty after strip()
-                line = join_lines(ffile, line)
+                # the netlist is case-insensitive, file names are not
+                line_mixed_case = join_lines(ffile, line)
+                line = line_mixed_case.lower()
                 if line[0] == "*":  # comments start with *
                     continue
 
@@ -216,7 +218,7 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
                         current_subckt_temp = []
                     elif line_elements[0] == '.include':
                         file_list.append(
-                            parse_include_directive(line, netlist_wd))
+                            parse_include_directive(line_mixed_case, netlist_wd))
                     elif line_elements[0] == ".end":
                         break
                     elif line_elements[0] == ".plot":
@@ -1821,7 +1823,7 @@ def join_lines(fp, line):
     while True:
         last_pos = fp.tell()
         next = fp.readline()
-        next = next.strip().lower()
+        next = next.strip()
         if not next:
             break
         elif next[0] == '+':
diff --git a/ahkab/plotting.py b/ahkab/plotting.py
index 2a3ee53..c90b6bd 100644
--- a/ahkab/plotting.py
+++ b/ahkab/plotting.py
@@ -49,7 +49,7 @@ except ImportError:
 def _split_netlist_label(labels_string):
     labels_string = labels_string.strip().upper()
     ret_labels = []
-    p = re.compile(r'V\s*\(\s*(\w*)\s*,\s*(\w*)\s*\)', re.IGNORECASE)
+    p = re.compile(r'V\s*\(\s*([^\s,()]+)\s*,\s*([^\s,()]+)\s*\)', re.IGNORECASE)
     labels_list = p.findall(labels_string)
     for i in range(len(labels_list)):
         l2 = "V" + labels_list[i][0]
@@ -57,14 +57,14 @@ def _split_netlist_label(labels_string):
         if l1 != 'V0':
             ret_labels.append((l2, l1))
         else:
-            ret_labels.append((l2,))
-    p = re.compile(r'V\s*\(\s*(\w*)\s*\)', re.IGNORECASE)
+            ret_labels.append((l2, None))
+    p = re.compile(r'V\s*\(\s*([^\s,()]+)\s*\)', re.IGNORECASE)
     labels_list = p.findall(labels_string)
     for i in range(len(labels_list)):
         l2 = "V" + labels_list[i]
         l1 = None
         ret_labels.append((l2, l1))
-    p = re.compile(r'I\s*\(\s*(\w*)\s*\)', re.IGNORECASE)
+    p = re.compile(r'I\s*\(\s*([^\s,()]+)\s*\)', re.IGNORECASE)
     labels_list = p.findall(labels_string)
     for i in range(len(labels_list)):
         l2 = "I(" + labels_list[i] + ")"
-- 
2.43.0


From 737e5449b19427740fffdd7fc806fefe3a22e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 42/79] fix: pole-zero results without zeros not accessible nor
 saved, node name as output of .pz calls, unit of the singularities

---
 ahkab/pz.py      |  2 +-
 ahkab/results.py | 21 +++++++++++----------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index a6cebe6..8a2e434 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -214,7 +214,7 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
     if calc_zeros:
         if type(input_source) not in py3compat.string_types:
             input_source = input_source.part_id
-        if type(output_port) in py3compat.string_types:
+        if type(output_port) in py3compat.string_types and '(' in output_port:
             output_port = plotting._split_netlist_label(output_port)[0] 
             # with one node only, we refer to the ground implicitely
             output_port = [o[1:] if o else '0' for o in output_port]
diff --git a/ahkab/results.py b/ahkab/results.py
index 4e8bd1b..1f23dde 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -1181,21 +1181,22 @@ class pz_solution(solution, _mutable_data):
         if np.prod(self.zeros.shape):
             for i in range(self.zeros.shape[0]):
                 self.variables += ['z%d' % i]
-            for v in self.variables:
-                self.units.update({v: "rad/s"})
-            self.csv_headers = []
-            for i in range(len(self.variables)):
-                self.csv_headers.append("Re(%s)" % self.variables[i])
-                self.csv_headers.append("Im(%s)" % self.variables[i])
+        for v in self.variables:
+            self.units.update({v: "Hz"})
+        self.csv_headers = []
+        for i in range(len(self.variables)):
+            self.csv_headers.append("Re(%s)" % self.variables[i])
+            self.csv_headers.append("Im(%s)" % self.variables[i])
 
+        if len(self.variables):
             # save in Re/Im form
             sdata = data.reshape(-1).view(np.float_).reshape((-1, 1))
             self._add_data(sdata)
 
-            # store local data too:
-            self.data = case_insensitive_dict()
-            for i in range(len(self.variables)):
-                self.data.update({self.variables[i]: data[i, 0]})
+        # store local data too:
+        self.data = case_insensitive_dict()
+        for i in range(len(self.variables)):
+            self.data.update({self.variables[i]: data[i, 0]})
 
     def _add_data(self, data):
         """Remember to call this method with REAL data - already split in RE and IM."""
-- 
2.43.0


From a95c93904d6ac55a67e5776e68b940f1f2dbe9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:18 +0000
Subject: [PATCH 43/79] fix: pole-zero analysis of non-linear circuits,
 multiple zeros at infinity, null transfer functions, mixed case node names

---
 ahkab/pz.py | 108 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 78 insertions(+), 30 deletions(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 8a2e434..54c8a73 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -63,10 +63,10 @@ import copy
 import numpy as np
 from scipy import linalg
 
+from . import ac
 from . import circuit
 from . import dc_analysis
 from . import components
-from . import transient
 from . import plotting
 from . import printing
 from . import py3compat
@@ -127,22 +127,43 @@ def _select_shift(MNA, D, shift):
             return s
     raise ValueError("PZ: the circuit equations are singular at any frequency.")
 
-def _eigvals_to_singularities(M, shift):
+def _eigvals_to_singularities(M, shift, noise=0.):
     """Get the finite singularities from the eigenvalues of a time constant matrix
 
-    A null eigenvalue corresponds to a singularity at infinity. The eigenvalues
-    that, given the numerical precision, are undistinguishable from zero (they
-    share the pseudospectrum of a null eigenvalue) are disregarded.
+    A null eigenvalue corresponds to a singularity at infinity. They are deflated
+    first, as the eigenvalues of a Jordan block are very sensitive to the errors
+    affecting ``M`` (``noise``, in addition to those due to its representation).
     """
-    M = linalg.matrix_balance(M)[0]
-    noise = 100.*M.shape[0]*np.finfo(float).eps*np.linalg.norm(M)
-
-    def is_null(eigval):
-        return all(linalg.svdvals(M - t*eigval*np.eye(M.shape[0]))[-1] <= noise
-                   for t in (0., .25, .5, .75))
-
-    eigvals = np.array([e for e in linalg.eigvals(M) if not is_null(e)])
-    return 1./(2.*np.pi)*(1./eigvals + shift)
+    eps = np.finfo(float).eps
+    if not M.any():
+        return np.zeros((0,))
+    mag = np.abs(M)
+    noise = noise + 100.*eps*np.sqrt(mag.max(axis=1, keepdims=True)*
+                                     mag.max(axis=0, keepdims=True))
+    eigvals = []
+    # the states that do not interact with the others
+    links = (mag > noise) & ~np.eye(M.shape[0], dtype=bool)
+    left = np.arange(M.shape[0])
+    while True:
+        sub = links[np.ix_(left, left)]
+        isolated = ~(sub.any(axis=0) & sub.any(axis=1))
+        if not isolated.any():
+            break
+        i = left[isolated][0]
+        if mag[i, i] > noise[i, i]:
+            eigvals.append(M[i, i])
+        left = left[left != i]
+    M, noise = M[np.ix_(left, left)], noise[np.ix_(left, left)]
+    noise = np.linalg.norm(noise) + 100.*M.shape[0]*eps*np.linalg.norm(M)
+    while M.shape[0]:
+        _, sv, Vh = linalg.svd(M)
+        rank = np.count_nonzero(sv > noise)
+        if rank == M.shape[0]:
+            break
+        M = np.dot(np.dot(Vh, M), Vh.T)[:rank, :rank]
+    if M.shape[0]:
+        eigvals = np.append(eigvals, linalg.eigvals(M))
+    return 1./(2.*np.pi)*(1./np.array(eigvals) + shift)
 
 def calculate_poles(mc, MNA=None, x0=None, outfile=None, verbose=0):
     """Calculate the circuit poles.
@@ -218,7 +239,10 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
             output_port = plotting._split_netlist_label(output_port)[0] 
             # with one node only, we refer to the ground implicitely
             output_port = [o[1:] if o else '0' for o in output_port]
-            output_port = [o if o in mc.nodes_dict else o.lower() for o in output_port]
+            # plot labels are case-insensitive
+            output_port = [([n for n in mc.nodes_dict if n == o] +
+                            [n for n in mc.nodes_dict if str(n).upper() == o] +
+                            [o])[0] for o in output_port]
         if np.isscalar(output_port):
             output_port = (output_port, mc.gnd)
         if (type(output_port) == tuple or type(output_port) == list) \
@@ -246,11 +270,9 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                     # hopefully x0 is an ndarray!
                 printing.print_info_line(("Using the supplied op as " +
                                       "linearization point.", 5), verbose)
-            J, _ = dc_analysis.build_J_and_Tx(x0, MNA.shape[0]-1, mc, time=0., sparse=False)
-            MNA[1:, 1:] += J
-    D = transient.generate_D(mc, MNA[1:, 1:].shape)
-    MNA_r, D_r = MNA[1:, 1:], D[1:, 1:]
-    shift = _select_shift(MNA_r, D_r, shift)
+            MNA[1:, 1:] += ac._generate_J(xop=x0, circ=mc,
+                                          reduced_mna_size=MNA.shape[0]-1)
+    MNA_r = MNA[1:, 1:]
     nodes_m1 = mc.get_nodes_number() - 1
     # incidence of the reactive elements and of the input source
     vde = -1
@@ -287,10 +309,20 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                 if isinstance(e2, components.Inductor) and e2 is not e1 \
                    and cd.get_other_inductor(e1.part_id) == e2.part_id:
                     L[i, j] += cd.M
-    excitation = np.array([v for _, v in reactive]).reshape((nr, -1)).T
+    excitation = np.array([v for _, v in reactive]).reshape((nr, MNA_r.shape[0])).T
     # voltage across the capacitors, current through the inductors
     sense = np.array([v if isinstance(e, components.Capacitor) else -v
-                      for e, v in reactive]).reshape((nr, -1))
+                      for e, v in reactive]).reshape((nr, MNA_r.shape[0]))
+
+    D_r = np.dot(np.dot(excitation, L), sense)
+    # from here on, voltages and currents are scaled to the square root of
+    # the energy they correspond to
+    energy = np.sqrt(np.abs(np.diag(L)))
+    energy = np.where(energy > 0, energy, 1.)
+    excitation = excitation*energy
+    sense = sense*energy.reshape((-1, 1))
+    L = L/energy/energy.reshape((-1, 1))
+    shift = _select_shift(MNA_r, D_r, shift)
 
     def get_TCM(shift):
         TV = -1.*np.linalg.solve(MNA_r + shift*D_r, excitation)
@@ -299,7 +331,9 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
     def get_scale(poles):
         """A frequency in the range of the poles (rad/s)"""
         mag = np.abs(poles)
-        mag = mag[(mag > 0) & (mag < options.pz_max)]
+        mag = mag[mag < options.pz_max]
+        # those at the origin tell nothing about it
+        mag = mag[mag > 1e-9*max(mag.max(), np.abs(shift))] if len(mag) else mag
         return 2.*np.pi*np.exp(np.log(mag).mean()) if len(mag) else 1e3
 
     poles, zeros = [], []
@@ -317,22 +351,36 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
         for o, sign in zip(output_port, (1., -1.)):
             if o:
                 out[o - 1] += sign
+        best = None
         for s in [shift] + [1.37*scale*3.**k for k in (0, 1, -1, 2, -2, 3, -3)]:
             if not _is_regular(MNA_r + s*D_r):
                 continue
+            MNA_s = MNA_r + s*D_r
             TCM, TV = get_TCM(s)
-            TVin = -1.*np.linalg.solve(MNA_r + s*D_r, source)
+            TVin = -1.*np.linalg.solve(MNA_s, source)
             RIIN = np.dot(sense, TVin)
             ROUT = np.dot(np.dot(out, TV), L)
-            if not ROUT.any():
-                # the output doesn't depend on the reactive elements
-                break
             ROUTIN = np.dot(out, TVin)
-            if np.abs(ROUTIN) <= 1e-12*np.abs(TVin[:nodes_m1]).max():
+            # the error on ROUTIN that the numerical precision may cause
+            adj = np.linalg.solve(MNA_s.T, out)
+            error = np.dot(np.abs(adj), np.dot(np.abs(MNA_s), np.abs(TVin)))
+            error = np.finfo(float).eps*max(error, 10.*np.abs(TVin[:nodes_m1]).max())
+            error = max(error, np.abs(ROUTIN + np.dot(adj, source)))
+            if not source[nodes_m1:].any():
+                # a current source: ROUTIN is an impedance
+                error = max(error, 10.*np.finfo(float).eps/np.abs(MNA_s[:nodes_m1, :nodes_m1]).max())
+            if np.abs(ROUTIN) <= 100.*error:
                 # a zero, or close to one.
                 continue
-            zeros = _eigvals_to_singularities(TCM - np.outer(RIIN, ROUT)/ROUTIN, s)
-            break
+            feedback = np.outer(RIIN, ROUT)/ROUTIN
+            noise = 10.*np.abs(feedback)*error/np.abs(ROUTIN)
+            amplification = np.linalg.norm(feedback)/np.linalg.norm(TCM)
+            if best is None or amplification < best[0]:
+                best = (amplification, TCM - feedback, s, noise)
+            if amplification < 100.:
+                break
+        if best is not None and best[0]:
+            zeros = _eigvals_to_singularities(*best[1:])
     poles = np.array([a for a in poles if np.abs(a) < options.pz_max], dtype=np.complex_)
     zeros = np.array([a for a in zeros if np.abs(a) < options.pz_max], dtype=np.complex_)
     poles = np.sort_complex(poles)
-- 
2.43.0


From 3987a75b1fb6ab152332a9a049fb227a798224e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:48 +0000
Subject: [PATCH 44/79] fix: controlled sources and coupled inductors in
 subcircuits refer to ids outside of the instance, ports starting with 0
 refused

---
 ahkab/netlist_parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 9f4a135..c5a4ce5 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -1714,7 +1714,7 @@ def parse_sub_declaration(subckt_lines):
                 called on non-subckt text. (line" + str(line_n) + ")")
             name = line_elements[1]
             for node_name in line_elements[2:]:
-                if node_name[0] == '0':
+                if node_name == '0':
                     raise NetlistParseError("subckt " + name + \
                         " has a connection node named '0' (line" + str(
                             line_n) + ")")
@@ -1787,9 +1787,16 @@ def parse_sub_instance(line, circ, subckts_dict, models=None):
 
     # Every subckt adds elements with the _same description_ (elem.part_id[1:])
     # We modify it so that each description is unique for every instance
+    new_ids = {}
     for element in elements_list:
-        element.part_id = element.part_id[0] + \
-                          "-" + wrapped_circ.prefix + element.part_id[1:]
+        new_ids[element.part_id] = element.part_id[0] + \
+                                   "-" + wrapped_circ.prefix + element.part_id[1:]
+        element.part_id = new_ids[element.part_id]
+    # the elements that refer to others of the same instance follow
+    for element in elements_list:
+        for ref in ('source_id', 'L1', 'L2'):
+            if getattr(element, ref, None) in new_ids:
+                setattr(element, ref, new_ids[getattr(element, ref)])
 
     return elements_list
 
-- 
2.43.0


From fcf60737c0afd5b0452143ead59a14614c6f2693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 45/79] fix: removing and refusing elements leaves circuits
 consistent

Node numbers were reused after a removal, nodes still used as sensing
or gate terminals were purged, couplings of removed K elements stayed
with their inductors, refused devices left their nodes behind, nodes
whose name contains INT were taken for internal ones and
create_node of the ground node failed.
---
 ahkab/circuit.py | 114 +++++++++++++++++++++++------------------------
 1 file changed, 57 insertions(+), 57 deletions(-)

diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index 200786b..3fff244 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -119,7 +119,6 @@ Reference
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
-import copy
 import math
 
 from . import components
@@ -192,19 +191,29 @@ class Circuit(list):
         if type(name) not in py3compat.string_types:
             raise TypeError("The node %s should have been of text type" %
                             name)
-        got_ref = 0 in self.nodes_dict
         if name not in self.nodes_dict:
             if name == '0':
                 int_node = 0
             else:
-                int_node = int(len(self.nodes_dict)/2) + 1*(not got_ref)
+                int_node = self._get_free_int_node()
             self.nodes_dict.update({int_node:name})
             self.nodes_dict.update({name:int_node})
-        else:
+        elif name != '0':
             raise ValueError('Impossible to create new node %s: node exists!'
                              % name)
         return name
 
+    def _get_free_int_node(self):
+        """The first internal id that is not in use (removing elements may
+        free some of them), ground excluded."""
+        got_ref = 0 in self.nodes_dict
+        int_node = int(len(self.nodes_dict)/2) + 1*(not got_ref)
+        if int_node in self.nodes_dict:
+            int_node = 1
+            while int_node in self.nodes_dict:
+                int_node = int_node + 1
+        return int_node
+
     def add_node(self, ext_name):
         """Adds the supplied node to the circuit, if needed.
 
@@ -245,8 +254,7 @@ class Circuit(list):
             if ext_name == '0':
                 int_node = 0
             else:
-                got_ref = 0 in self.nodes_dict
-                int_node = int(len(self.nodes_dict)/2) + 1*(not got_ref)
+                int_node = self._get_free_int_node()
             self.nodes_dict.update({int_node:ext_name})
             self.nodes_dict.update({ext_name:int_node})
         else:
@@ -271,6 +279,9 @@ class Circuit(list):
         """
 
         ext_node = "INT" + str(self.internal_nodes)
+        while ext_node in self.nodes_dict:
+            self.internal_nodes = self.internal_nodes + 1
+            ext_node = "INT" + str(self.internal_nodes)
         self.internal_nodes = self.internal_nodes + 1
         self.create_node(ext_node)
         return ext_node
@@ -298,7 +309,8 @@ class Circuit(list):
         if type(int_node) is not int:
             raise TypeError('Expecting an INTERNAL node of type int, got %s.' %
                             type(int_node))
-        return self.nodes_dict[int_node].find("INT") > -1
+        ext_node = self.nodes_dict[int_node]
+        return ext_node.startswith("INT") and ext_node[3:].isdigit()
 
     def is_nonlinear(self):
         """Check whether the circuit is non-linear or not.
@@ -698,13 +710,14 @@ class Circuit(list):
         off : bool, optional
             Consider the diode to be initially off.
         """
-        n1 = self.add_node(n1)
-        n2 = self.add_node(n2)
         if models is None:
             models = self.models
         if model_label not in models:
             raise ModelError("Unknown diode model id: " + model_label)
 
+        n1 = self.add_node(n1)
+        n2 = self.add_node(n2)
+
         elem = diode.diode(part_id=part_id, n1=n1, n2=n2, model=models[
                            model_label], AREA=Area, T=T, ic=ic, off=off)
         self.append(elem)
@@ -740,17 +753,17 @@ class Circuit(list):
         n : int, optional
             Series multiplier value, not always supported. Defaults to 1.
         """
-        nd = self.add_node(nd)
-        ng = self.add_node(ng)
-        ns = self.add_node(ns)
-        nb = self.add_node(nb)
-
         if models is None:
             models = self.models
 
         if model_label not in models:
             raise ModelError("Unknown model id: " + model_label)
 
+        nd = self.add_node(nd)
+        ng = self.add_node(ng)
+        ns = self.add_node(ns)
+        nb = self.add_node(nb)
+
         if isinstance(models[model_label], ekv.ekv_mos_model):
             elem = ekv.ekv_device(part_id, nd, ng, ns, nb, w, l,
                                   models[model_label], m, n)
@@ -955,16 +968,16 @@ class Circuit(list):
             instances. If not set or ``None``, the circuit models will be used (recommended).
         """
 
-        n1 = self.add_node(n1)
-        n2 = self.add_node(n2)
-        sn1 = self.add_node(sn1)
-        sn2 = self.add_node(sn2)
-
         if models is None:
             models = self.models
         if model_label not in models:
             raise ModelError("Unknown switch model id: " + model_label)
 
+        n1 = self.add_node(n1)
+        n2 = self.add_node(n2)
+        sn1 = self.add_node(sn1)
+        sn2 = self.add_node(sn2)
+
         elem = switch.switch_device(part_id=part_id, n1=n1, n2=n2, sn1=sn1,
                                     sn2=sn2, model=models[model_label],
                                     ic=ic)
@@ -1032,45 +1045,17 @@ class Circuit(list):
             # we got the element
             elem = elem_or_id
         self.remove(elem)
-        nodes = []
-        if hasattr(elem, 'n1') and elem.n1 != 0:
-            nodes = nodes + [elem.n1]
-        if hasattr(elem, 'n2') and elem.n2 != 0 and elem.n2 not in nodes:
-            nodes = nodes + [elem.n2]
-        if elem.is_nonlinear:
-            for n1, n2 in elem.ports:
-                if n1 != 0 and n1 not in nodes:
-                    nodes = nodes + [n1]
-                if n2 != 0 and n2 not in nodes:
-                    nodes = nodes + [n2]
-        # check if then nodes are needed by other elements
-        remove_list = copy.copy(nodes)
-        for n in nodes:
+        if isinstance(elem, components.InductorCoupling):
             for e in self:
-                if hasattr(elem, 'n1') and e.n1 == n or \
-                   hasattr(elem, 'n2') and e.n2 == n or \
-                   hasattr(elem, 'sn1') and e.sn1 == n or \
-                   hasattr(elem, 'sn2') and e.sn2 == n:
-                    remove_list.remove(n)
-                    break
-                if elem.is_nonlinear:
-                    oports = elem.get_output_ports()
-                    # check output ports
-                    for n1, n2 in oports:
-                        if n1 == n or n2 == n:
-                            remove_list.remove(n)
-                            break
-                    if n not in remove_list:
-                        break
-                    # check the ports that drive them
-                    for i in range(len(oports)):
-                        dports = elem.get_drive_ports(i)
-                        for n1, n2 in oports:
-                            if n1 == n or n2 == n:
-                                remove_list.remove(n)
-                                break
-                        if n not in remove_list:
-                            break
+                if isinstance(e, components.Inductor) and \
+                   elem in e.coupling_devices:
+                    e.coupling_devices.remove(elem)
+        # check whether the nodes are needed by other elements
+        in_use = set()
+        for e in self:
+            in_use.update(_get_elem_nodes(e))
+        remove_list = [n for n in _get_elem_nodes(elem)
+                       if n != 0 and n not in in_use]
 
         for n in remove_list:
             self.nodes_dict.pop(self.nodes_dict[n])
@@ -1148,6 +1133,21 @@ class Circuit(list):
 
 
 # STATIC METHODS
+def _get_elem_nodes(elem):
+    """The set of the internal nodes an element is connected to, including
+    those it senses."""
+    nodes = set(getattr(elem, terminal) for terminal in
+                ('n1', 'n2', 'sn1', 'sn2') if hasattr(elem, terminal))
+    if elem.is_nonlinear:
+        oports = elem.get_output_ports()
+        ports = list(oports)
+        for index in range(len(oports)):
+            ports += list(elem.get_drive_ports(index))
+        for port in ports:
+            nodes.update(port)
+    return nodes
+
+
 def is_elem_voltage_defined(elem):
     """Check if an element needs its own KCL equation
 
-- 
2.43.0


From ecea1f6a90cff37f70d098bfb69404a26d989bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:16 +0000
Subject: [PATCH 46/79] fix: numeric helpers do what they document

remove_row_and_col(None, None) returned None, remove_row(None) failed,
check_step_and_points lost a point to rounding, the memoize cache
dropped the newest entry, case_insensitive_dict.update kept keys that
differ only in their case.
---
 ahkab/results.py   |  7 ++++++-
 ahkab/utilities.py | 14 +++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 1f23dde..c8be91d 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -1328,7 +1328,12 @@ class case_insensitive_dict(object):
     def update(self, adict):
         """Update the dictionary contents with the mapping in the dictionary ``adict``.
         """
-        return self._dict.update(adict)
+        for key, value in dict(adict).items():
+            for old in list(self._dict.keys()):
+                if old.upper() == key.upper():
+                    # the same key, possibly written with a different case
+                    del self._dict[old]
+            self._dict[key] = value
 
     # iterator methods
     def __iter__(self):
diff --git a/ahkab/utilities.py b/ahkab/utilities.py
index ee30470..29bf167 100644
--- a/ahkab/utilities.py
+++ b/ahkab/utilities.py
@@ -129,6 +129,7 @@ def remove_row_and_col(matrix, rrow=0, rcol=0):
         return np.vstack((matrix[:rrow, :], matrix[rrow+1:, :]))
     elif rcol is not None:
         return np.hstack((matrix[:, :rcol], matrix[:, rcol+1:]))
+    return matrix
 
 
 def remove_row(matrix, rrow=0):
@@ -151,6 +152,8 @@ def remove_row(matrix, rrow=0):
     matrix : ndarray
         A reference to the modified matrix.
     """
+    if rrow is None:
+        return matrix
     return np.vstack((matrix[:rrow, :], matrix[rrow+1:, :]))
 
 
@@ -583,12 +586,13 @@ def check_step_and_points(step=None, points=None, period=None,
         step = float(period)/(points - 1)
     else:
         points = float(period)/step
-        if points % 1 != 0:
-            step = step + (step * (points % 1)) / int(points)
-            points = int(float(period)/step)
+        # a ratio which is an integer except for rounding needs no adapting
+        if abs(points - round(points)) > 1e-9*points:
+            points = int(points)
+            step = float(period)/points
             printing.print_warning("adapted step is %g" % (step,))
         else:
-            points = int(points)
+            points = int(round(points))
         # 0 - N where xN is in reality the first point of the second period!!
         points = points + 1
 
@@ -725,7 +729,7 @@ def memoize(f):
             ret = self[key] = f(*key)
             # set options.cache_len to None to disable any size limit.
             if options.cache_len is not None and len(self) > options.cache_len:
-                self.popitem() #FIFO pop
+                self.popitem(last=False) # FIFO pop
             return ret
     return memodict().__getitem__
 
-- 
2.43.0


From 3842261d529353dc9d25ce2fc86b2652ea0f1b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:05 +0000
Subject: [PATCH 47/79] fix: results iterate, list and load from file
 consistently

load_csv counted the header line as a skipped sample and got EOF wrong,
write_headers could not write, iterators of a result shared one
position, the values of a one-variable operating point were a scalar,
items() of AC results could be read once, as_symbol of transfer
functions crashed.
---
 ahkab/csvlib.py  | 16 ++++++----------
 ahkab/results.py | 26 ++++++++++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/ahkab/csvlib.py b/ahkab/csvlib.py
index 205d259..e4f4bcf 100644
--- a/ahkab/csvlib.py
+++ b/ahkab/csvlib.py
@@ -52,7 +52,6 @@ from __future__ import (unicode_literals, absolute_import,
 
 import io
 import sys
-import copy
 import os
 import numpy as np
 
@@ -114,15 +113,11 @@ def write_headers(filename, headers):
 
     """
     fp = _get_fp(filename, mode="wb")
-    headers = copy.copy(headers)
+    headers = list(headers)
     if not headers[0][0] == '#':
         headers[0] = '#' + headers[0]
-    for hi in range(len(headers)):
-        fp.write(headers[hi])
-        if hi < len(headers) - 1:
-            fp.write(SEPARATOR)
-        else:
-            fp.write("\n")
+    fp.write((SEPARATOR.join(headers) + "\n").encode('utf-8'))
+    _close_fp(fp, filename)
 
 
 def _get_fp(filename, mode="r"):
@@ -262,11 +257,12 @@ def load_csv(filename, load_headers=None, nsamples=None, skip=0, verbose=3):
         raise ValueError("Specified header not found")
 
     fp = _get_fp(filename)
-    data = np.loadtxt(fp, delimiter=SEPARATOR, usecols=his, unpack=True, skiprows=skip, ndmin=2)
+    # the first line holds the headers
+    data = np.loadtxt(fp, delimiter=SEPARATOR, usecols=his, unpack=True, skiprows=skip + 1, ndmin=2)
     _close_fp(fp, filename)
 
     # prepare return values
-    EOF = (nsamples is None) or (nsamples == data.shape[1])
+    EOF = (nsamples is None) or (nsamples >= data.shape[1])
     if nsamples is not None:
         data = data[:, :min(nsamples, data.shape[1])]
     pos = skip + data.shape[1]
diff --git a/ahkab/results.py b/ahkab/results.py
index c8be91d..cd5af83 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -96,6 +96,7 @@ Module reference
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
+import copy
 import sys
 import time
 import pickle
@@ -223,7 +224,8 @@ class solution(object):
     def __iter__(self):
         self.iter_index = 0
         self.iter_data, self.iter_headers, _, _ = csvlib.load_csv(self.filename)
-        return self
+        # every iteration has its own position
+        return copy.copy(self)
 
     def next(self):
         return self.__next__()
@@ -516,7 +518,7 @@ class op_solution(solution, _mutable_data):
 
     def values(self):
         """Get all of the results set's variables values."""
-        return np.squeeze(self.x).tolist()
+        return np.reshape(self.x, (-1,)).tolist()
 
     def items(self):
         vlist = []
@@ -527,7 +529,8 @@ class op_solution(solution, _mutable_data):
     # iterator methods
     def __iter__(self):
         self._iter_index = 0
-        return self
+        # every iteration has its own position
+        return copy.copy(self)
 
     def next(self):
         if self._iter_index == len(self.variables):
@@ -700,14 +703,15 @@ class ac_solution(solution, _mutable_data):
 
     def items(self):
         values = self.values()
-        return zip(self.variables, values)
+        return list(zip(self.variables, values))
 
     # iterator methods
     def __iter__(self):
         self.iter_index = 0
         self.iter_data = self.values()
         self.iter_headers = self.variables
-        return self
+        # every iteration has its own position
+        return copy.copy(self)
 
 class dc_solution(solution, _mutable_data):
     """DC results
@@ -1005,7 +1009,8 @@ class symbolic_solution(object):
             In case no such symbol is found.
         """
 
-        symbs = [x for x in self._symbols if x.name.lower() == variable.lower()]
+        symbs = [x for x in self._symbols
+                 if getattr(x, 'name', '').lower() == variable.lower()]
         if len(symbs) == 0:
             raise ValueError("No symbol %s in the results set."%(variable,))
         else:
@@ -1139,7 +1144,8 @@ class symbolic_solution(object):
     # iterator methods
     def __iter__(self):
         self.iter_index = -1
-        return self
+        # every iteration has its own position
+        return copy.copy(self)
 
     def __next__(self):
         """Iterator method."""
@@ -1148,8 +1154,7 @@ class symbolic_solution(object):
             raise StopIteration
         else:
             self.iter_index += 1
-        return list(self.results.keys())[self.iter_index], \
-               self.results[self._symbols[self.iter_index]]
+        return list(self.results.items())[self.iter_index]
 
     def next(self):
         return self.__next__()
@@ -1246,7 +1251,8 @@ class pz_solution(solution, _mutable_data):
         # take into account that we increment first, then return
         # the value
         self.iter_index = -1
-        return self
+        # every iteration has its own position
+        return copy.copy(self)
 
     def __next__(self):
         # redefine this or the superclass method will be used on
-- 
2.43.0


From 2498c2174a78e2fbc0f7243f05637bd98b090c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 48/79] fix: the netlist text of circuits parses back to the
 same circuit

Values keep all their digits, initial conditions, DC and negative AC values,
sine phases and diode model parameters are written in the form the parser
reads, and attributes it refuses are not written.
---
 ahkab/components/Capacitor.py        | 20 ++++++++++++++++
 ahkab/components/Component.py        |  2 +-
 ahkab/components/Inductor.py         | 22 ++++++++++++++++-
 ahkab/components/sources/EVSource.py |  2 +-
 ahkab/components/sources/FISource.py |  2 +-
 ahkab/components/sources/GISource.py |  2 +-
 ahkab/components/sources/HVSource.py |  2 +-
 ahkab/components/sources/ISource.py  |  8 ++++---
 ahkab/components/sources/VSource.py  |  6 +++--
 ahkab/diode.py                       | 36 +++++++++++++++++-----------
 ahkab/ekv.py                         |  6 ++---
 ahkab/mosq.py                        |  6 ++---
 ahkab/switch.py                      |  5 ++--
 ahkab/time_functions.py              | 16 ++++++-------
 14 files changed, 90 insertions(+), 45 deletions(-)

diff --git a/ahkab/components/Capacitor.py b/ahkab/components/Capacitor.py
index 254fef6..4dee8f2 100644
--- a/ahkab/components/Capacitor.py
+++ b/ahkab/components/Capacitor.py
@@ -61,6 +61,26 @@ class Capacitor(Component):
     def d(self, v, time=0):
         return self.value
 
+    def get_netlist_elem_line(self, nodes_dict):
+        """A netlist line that, parsed, evaluates to the same instance
+
+        **Parameters:**
+
+        nodes_dict : dict
+            The nodes dictionary of the circuit, so that the method
+            can convert its internal node IDs to the corresponding
+            external ones.
+
+        **Returns:**
+
+        ntlst_line : string
+            The netlist line.
+        """
+        rep = Component.get_netlist_elem_line(self, nodes_dict)
+        if self.ic is not None:
+            rep += " ic=%s" % self.ic
+        return rep
+
     def get_op_info(self, ports_v):
         """Information regarding the Operating Point (OP)
 
diff --git a/ahkab/components/Component.py b/ahkab/components/Component.py
index 1d25a32..85bb9bc 100644
--- a/ahkab/components/Component.py
+++ b/ahkab/components/Component.py
@@ -178,5 +178,5 @@ class Component(object):
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %g" % (self.part_id, nodes_dict[self.n1],
+        return "%s %s %s %s" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], self.value)
diff --git a/ahkab/components/Inductor.py b/ahkab/components/Inductor.py
index c2ca6d2..871a0ba 100644
--- a/ahkab/components/Inductor.py
+++ b/ahkab/components/Inductor.py
@@ -51,6 +51,26 @@ class Inductor(Component):
         self.is_nonlinear = False
         self.is_symbolic = True
 
+    def get_netlist_elem_line(self, nodes_dict):
+        """A netlist line that, parsed, evaluates to the same instance
+
+        **Parameters:**
+
+        nodes_dict : dict
+            The nodes dictionary of the circuit, so that the method
+            can convert its internal node IDs to the corresponding
+            external ones.
+
+        **Returns:**
+
+        ntlst_line : string
+            The netlist line.
+        """
+        rep = Component.get_netlist_elem_line(self, nodes_dict)
+        if self.ic is not None:
+            rep += " ic=%s" % self.ic
+        return rep
+
     def get_op_info(self, ports_v, current):
         """Information regarding the Operating Point (OP)
 
@@ -147,5 +167,5 @@ class InductorCoupling(Component):
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %g" % (self.part_id, self.L1, self.L2, self.K)
+        return "%s %s %s %s" % (self.part_id, self.L1, self.L2, self.K)
 
diff --git a/ahkab/components/sources/EVSource.py b/ahkab/components/sources/EVSource.py
index ec65549..bd4dad2 100644
--- a/ahkab/components/sources/EVSource.py
+++ b/ahkab/components/sources/EVSource.py
@@ -81,7 +81,7 @@ class EVSource(Component):
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %s %s %g" % (self.part_id, nodes_dict[self.n1],
+        return "%s %s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], nodes_dict[self.sn1],
                                 nodes_dict[self.sn2], self.alpha)
 
diff --git a/ahkab/components/sources/FISource.py b/ahkab/components/sources/FISource.py
index 50e7d0a..2df879c 100644
--- a/ahkab/components/sources/FISource.py
+++ b/ahkab/components/sources/FISource.py
@@ -84,7 +84,7 @@ class FISource(Component):
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %s %g" % (self.part_id, nodes_dict[self.n1],
+        return "%s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], self.source_id,
                                 self.alpha)
 
diff --git a/ahkab/components/sources/GISource.py b/ahkab/components/sources/GISource.py
index 8e72b20..9618c8f 100644
--- a/ahkab/components/sources/GISource.py
+++ b/ahkab/components/sources/GISource.py
@@ -89,7 +89,7 @@ class GISource(Component):
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %s %s %g" % (self.part_id, nodes_dict[self.n1],
+        return "%s %s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], nodes_dict[self.sn1],
                                 nodes_dict[self.sn2], self.alpha)
 
diff --git a/ahkab/components/sources/HVSource.py b/ahkab/components/sources/HVSource.py
index a70c316..48d43b3 100644
--- a/ahkab/components/sources/HVSource.py
+++ b/ahkab/components/sources/HVSource.py
@@ -83,7 +83,7 @@ class HVSource(Component):  # H
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %s %g" % (self.part_id, nodes_dict[self.n1],
+        return "%s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], self.source_id,
                                 self.alpha)
 
diff --git a/ahkab/components/sources/ISource.py b/ahkab/components/sources/ISource.py
index 8bcffed..8191ebc 100644
--- a/ahkab/components/sources/ISource.py
+++ b/ahkab/components/sources/ISource.py
@@ -116,10 +116,12 @@ class ISource(Component):
         rep += "%s %s %s " % (self.part_id, nodes_dict[self.n1],
                              nodes_dict[self.n2])
         if self.dc_value is not None:
-            rep = rep + "type=idc value=" + str(self.dc_value) + " "
+            rep = rep + "type=idc idc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
-            rep = rep + "iac=" + \
-                str(self.abs_ac) + " " + "arg=" + str(self.arg_ac) + " "
+            #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
+            #   a phase of 180 degrees can be written as a negative value.
+            ac_value = self.abs_ac if np.cos(self.arg_ac) > -1 else -self.abs_ac
+            rep = rep + "iac=" + str(ac_value) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
diff --git a/ahkab/components/sources/VSource.py b/ahkab/components/sources/VSource.py
index 70e5cc2..52c1ee8 100644
--- a/ahkab/components/sources/VSource.py
+++ b/ahkab/components/sources/VSource.py
@@ -115,10 +115,12 @@ class VSource(Component):
         rep += "%s %s %s " % (self.part_id, nodes_dict[self.n1],
                              nodes_dict[self.n2])
         if self.dc_value is not None:
-            rep = rep + "type=vdc value=" + str(self.dc_value) + " "
+            rep = rep + "type=vdc vdc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
             #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
-            rep = rep + "vac=" + str(self.abs_ac) + " "
+            #   a phase of 180 degrees can be written as a negative value.
+            ac_value = self.abs_ac if np.cos(self.arg_ac) > -1 else -self.abs_ac
+            rep = rep + "vac=" + str(ac_value) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
diff --git a/ahkab/diode.py b/ahkab/diode.py
index a56beae..ad8477e 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -237,11 +237,12 @@ class diode(object):
         ret = "%s %s %s %s" % (self.part_id, ext_n1, ext_n2, self.model.name)
         # append the optional part:
         # [<AREA=float> <T=float> <IC=float> <OFF=boolean>]
-        ret += " AREA=%g" % self.device.AREA
+        ret += " AREA=%s" % self.device.AREA
         if self.device.T is not None:
-            ret += " T=%g" % self.device.T
-        if self.ic is not None:
-            ret += " IC=%g" % self.ic
+            ret += " T=%s" % self.device.T
+        # OFF sets a null IC
+        if self.ic is not None and not (self.off and self.ic == 0):
+            ret += " IC=%s" % self.ic
         if self.off:
             ret += " OFF=1"
         return ret
@@ -264,7 +265,7 @@ IKF_DEFAULT = float('inf') # high-injection knee current A
 KF_DEFAULT = .0 # flicker noise coefficient
 AF_DEFAULT = 1. # flicker noise exponent
 FFE_DEFAULT = 1. # flicker noise frequency exponent
-TEMP_DEFAULT = 26.85 # temperature
+TEMP_DEFAULT = utilities.Celsius2Kelvin(26.85) # temperature
 XTI_DEFAULT = 3.0 # saturation current exponent
 EG_DEFAULT = 1.11 # band gap
 TBV_DEFAULT = 0.0 # BV linear temperature coefficient 1/◦C
@@ -343,15 +344,22 @@ class diode_model(object):
         self.material=material
 
     def print_model(self):
-        strm = ".model diode %s IS=%g N=%g ISR=%g NR=%g RS=%g CJ0=%g M=%g " + \
-               "VJ=%g FC=%g CP=%g TT=%g BV=%g IBV=%g KF=%g AF=%g FFE=%g " + \
-               "TEMP=%g XTI=%g EG=%g TBV=%g TRS=%g TTT1=%g TTT2=%g TM1=%g " + \
-               "TM2=%g"
-        print(strm % (self.name, self.IS, self.N, self.ISR, self.NR, self.RS,
-                      self.CJ0, self.M, self.VJ, self.FC, self.CP, self.TT,
-                      self.BV, self.IBV, self.KF, self.AF, self.FFE, self.TEMP,
-                      self.XTI, self.EG, self.TBV, self.TRS, self.TTT1,
-                      self.TTT2, self. TM1, self. TM2))
+        # IS, BV and RS depend on the temperature: print the nominal values
+        IS, BV, RS = self._nominal
+        params = (('IS', IS), ('N', self.N), ('NBV', self.NBV),
+                  ('ISR', self.ISR), ('NR', self.NR), ('RS', RS),
+                  ('CJ0', self.CJ0), ('M', self.M), ('VJ', self.VJ),
+                  ('FC', self.FC), ('CP', self.CP), ('TT', self.TT),
+                  ('BV', BV), ('IBV', self.IBV), ('IKF', self.IKF),
+                  ('KF', self.KF), ('AF', self.AF), ('FFE', self.FFE),
+                  ('TEMP', utilities.Kelvin2Celsius(self.TEMP)),
+                  ('XTI', self.XTI), ('EG', self.EG), ('TBV', self.TBV),
+                  ('TRS', self.TRS), ('TTT1', self.TTT1), ('TTT2', self.TTT2),
+                  ('TM1', self.TM1), ('TM2', self.TM2))
+        # the parameters that are infinite are so by default
+        print(".model diode %s " % self.name +
+              " ".join("%s=%s" % (label, value) for label, value in params
+                       if value != float('inf')))
 
     @utilities.memoize
     def get_i(self, vext, dev):
diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 8337a7b..642491b 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -350,12 +350,10 @@ class ekv_device:
         return get_value
 
     def get_netlist_elem_line(self, nodes_dict):
-        mos_type = self._get_mos_type()
-        return "%s %s %s %s %s %s type=%s w=%g l=%g m=%g n=%g" % \
+        return "%s %s %s %s %s %s w=%s l=%s m=%s n=%s" % \
               (self.part_id, nodes_dict[self.n1], nodes_dict[self.ng],
               nodes_dict[self.n2], nodes_dict[self.nb], self.ekv_model.name,
-              mos_type, self.device.W, self.device.L, self.device.M,
-              self.device.N)
+              self.device.W, self.device.L, self.device.M, self.device.N)
 
 
 class scaling_holder:
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index c659401..1b3e293 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -423,12 +423,10 @@ class mosq_device(object):
 
     def get_netlist_elem_line(self, nodes_dict):
         """Get the element netlist entry"""
-        mos_type = self._get_mos_type()
-        return "%s %s %s %s %s %s type=%s w=%g l=%g m=%g n=%g" % \
+        return "%s %s %s %s %s %s w=%s l=%s m=%s n=%s" % \
               (self.part_id, nodes_dict[self.n1], nodes_dict[self.ng],
               nodes_dict[self.n2], nodes_dict[self.nb], self.mosq_model.name,
-              mos_type, self.device.W, self.device.L, self.device.M,
-              self.device.N)
+              self.device.W, self.device.L, self.device.M, self.device.N)
 
 
 class mosq_mos_model(object):
diff --git a/ahkab/switch.py b/ahkab/switch.py
index 736220c..b20062e 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -263,10 +263,9 @@ class switch_device:
 
     def get_netlist_elem_line(self, nodes_dict):
         """Return a netlist line corresponding to the switch."""
-        return "%s %s %s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
+        return "%s %s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], nodes_dict[self.sn1],
-                                nodes_dict[self.sn2], self.model.name, \
-                                str(self.device.is_on))
+                                nodes_dict[self.sn2], self.model.name)
 
 
 VT_DEFAULT = 0.0
diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index b62a5ac..b1fe60d 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -538,7 +538,7 @@ class sin(object):
             self._type.lower() + "o=" + str(self.vo) + " " + \
             self._type.lower() + "a=" + str(self.va) + \
             " freq=" + str(self.freq) + " theta=" + str(self.theta) + \
-            " td=" + str(self.td)
+            " td=" + str(self.td) + " phase=" + str(self.phi)
 
 
 class exp(object):
@@ -676,7 +676,7 @@ class sffm(object):
                                               )
 
     def __str__(self):
-        return "type=sffm vo=%g va=%g fc=%g mdi=%g fs=%g td=%g" % \
+        return "type=sffm vo=%s va=%s fc=%s mdi=%s fs=%s td=%s" % \
                 (self.vo, self.va, self.fc, self.mdi, self.fs, self.td)
 
 class am(object):
@@ -734,7 +734,7 @@ class am(object):
                    math.sin(2*math.pi*self.fc*(time - self.td))
 
     def __str__(self):
-        return "type=am sa=%g oc=%g fm=%g fc=%g td=%g" % \
+        return "type=am sa=%s oc=%s fm=%s fc=%s td=%s" % \
                 (self.sa, self.oc, self.fm, self.fc, self.td)
 
 class pwl(object):
@@ -837,14 +837,12 @@ class pwl(object):
         return time
 
     def __str__(self):
-        pwl_str = "type=pwl"
-        tv = " "
+        pwl_str = "type=pwl "
         for x, y in zip(self.x, self.y):
-            tv += "%g %g "
-        pwl_str += tv
+            pwl_str += "%s %s " % (x, y)
         if self.td:
-            pwl_str += "td=%g " % self.td
+            pwl_str += "td=%s " % self.td
         if self.repeat:
-            pwl_str = "RPT=%g " % self.repeat_time
+            pwl_str += "RPT=%s " % self.repeat_time
         return pwl_str[:-1]
 
-- 
2.43.0


From 8750f26c3fcfeef90325feea4858a3a965b0edfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:00 +0000
Subject: [PATCH 49/79] fix: devices follow the simulation temperature

set_temperature() had no effect on the transistor models and diodes that
already existed, the temperature updates of the transistor models were
cumulative and left stale cached evaluations behind, and the EKV model
used the thermal voltage of the reference temperature.
---
 ahkab/ahkab.py |  3 ++-
 ahkab/diode.py | 16 ++++++++++++-
 ahkab/ekv.py   | 62 +++++++++++++++++++++++++++++++++++++-------------
 ahkab/mosq.py  | 33 ++++++++++++++++++++++++---
 4 files changed, 93 insertions(+), 21 deletions(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index 22e2a14..8c07c51 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -803,7 +803,8 @@ def set_temperature(T):
     """Set the simulation temperature, in Celsius."""
     T = float(T)
     if T > 300:
-        printing.print_warning("The temperature will be set to %f \xB0 C.")
+        printing.print_warning("The temperature will be set to %f \xB0 C." %
+                               T)
     constants.T = utilities.Celsius2Kelvin(T)
 
 
diff --git a/ahkab/diode.py b/ahkab/diode.py
index ad8477e..d151217 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -89,6 +89,8 @@ class diode(object):
         self.n2 = n2
         self.ports = ((self.n1, self.n2),)
         self.model = model
+        # unless it has its own, the device has the circuit temperature
+        self._has_own_T = T is not None
         if self.device.T is None:
             self.device.T = constants.T
 
@@ -106,6 +108,7 @@ class diode(object):
                 print("(W): you may want to check the initial value.")
 
     def _get_T(self):
+        self._follow_temperature()
         return self.device.T
 
     def set_temperature(self, T):
@@ -116,6 +119,13 @@ class diode(object):
         # if it changes, the old cache will return misses.
         self.device = copy.copy(self.device)
         self.device.T = T
+        self._has_own_T = True
+
+    def _follow_temperature(self):
+        """Follow the circuit temperature, unless the device has its own"""
+        if not self._has_own_T and self.device.T != constants.T:
+            self.device = copy.copy(self.device)
+            self.device.T = constants.T
 
     def __str__(self):
         rep = "%s area=%g T=%g" % (
@@ -150,6 +160,7 @@ class diode(object):
             It has no effect here. Set it to None during DC analysis.
 
         """
+        self._follow_temperature()
         v = ports_v[0]
         i = self.model.get_i(self.model, v, self.device)
         istamp = np.array((i, -i), dtype=np.float64)
@@ -161,6 +172,7 @@ class diode(object):
         return indices, istamp
 
     def i(self, op_index, ports_v, time=0):  # with gmin added
+        self._follow_temperature()
         v = ports_v[0]
         i = self.model.get_i(self.model, v, self.device)
         return i
@@ -177,6 +189,7 @@ class diode(object):
         """
         indices = ([self.n1 - 1]*2 + [self.n2 - 1]*2,
                    [self.n1 - 1, self.n2 - 1]*2)
+        self._follow_temperature()
         gm = self.model.get_gm(self.model, 0, utilities.tuplinator(ports_v), 0, self.device)
         if gm == 0:
             gm = options.gmin*2
@@ -204,6 +217,7 @@ class diode(object):
     def g(self, op_index, ports_v, port_index, time=0):
         if not port_index == 0:
             raise Exception("Attepted to evaluate a diode's gm on an unknown port.")
+        self._follow_temperature()
         gm = self.model.get_gm(self.model, op_index, utilities.tuplinator(ports_v), port_index, self.device)
         return gm
 
@@ -238,7 +252,7 @@ class diode(object):
         # append the optional part:
         # [<AREA=float> <T=float> <IC=float> <OFF=boolean>]
         ret += " AREA=%s" % self.device.AREA
-        if self.device.T is not None:
+        if self._has_own_T:
             ret += " T=%s" % self.device.T
         # OFF sets a null IC
         if self.ic is not None and not (self.off and self.ic == 0):
diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 642491b..1c5226a 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -74,8 +74,9 @@ Patches to implement the above are welcome!
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
-import scipy, scipy.optimize
+import copy
 import math
+import scipy, scipy.optimize
 
 from . import constants
 from . import options
@@ -149,6 +150,7 @@ class ekv_device:
         self.device.L = float(L)  # channel length -
         self.device.W = float(W)  # channel width -
         self.device.M = int(M)  # parallel multiple device number
+        self.device.T = model.TEMP # the temperature of the evaluations
         self.device.N = int(N)  # series multiple device number
         self.ekv_model = model
         self.opdict = {}
@@ -187,6 +189,19 @@ class ekv_device:
 
         return rep
 
+    def _follow_temperature(self):
+        """Follow the temperature of the model and of the circuit"""
+        self.ekv_model.follow_circuit_temperature()
+        if self.device.T != self.ekv_model.TEMP:
+            # what has been evaluated so far is obsolete, including what the
+            # model cached for this instance of self.device.
+            self.device = copy.copy(self.device)
+            self.device.T = self.ekv_model.TEMP
+            self.opdict = {
+                'state': (float('nan'), float('nan'), float('nan')),
+                'ifn': self.INIT_IFRN_GUESS, 'irn': self.INIT_IFRN_GUESS,
+                'ip_abs_err': self.ekv_model.get_ip_abs_err(self.device)}
+
     def _get_mos_type(self):
         """Returns N or P (capitalized)
         """
@@ -202,12 +217,14 @@ class ekv_device:
               It has no effect here. Set it to None during DC analysis.
 
         """
+        self._follow_temperature()
         ret, j1, j2 = self.ekv_model.get_ids(self.device, ports_v,
                                              self.opdict)
 
         return ret
 
     def update_status_dictionary(self, ports_v):
+        self._follow_temperature()
         if self.opdict is None:
             self.opdict = {}
         if not (self.opdict['state'] == ports_v[0] and 'gmd' in self.opdict) or \
@@ -229,7 +246,7 @@ class ekv_device:
         if ids == 0:
             TEF = float('nan')
         else:
-            TEF = abs(gms * constants.Vth() / ids)
+            TEF = abs(gms * constants.Vth(self.ekv_model.TEMP) / ids)
         self.opdict['TEF'] = TEF
 
     def get_op_info(self, ports_v):
@@ -318,6 +335,7 @@ class ekv_device:
 
         assert op_index == 0
         assert port_index < 3
+        self._follow_temperature()
 
         if port_index == 0:
             g = self.ekv_model.get_gmd(self.device, ports_v, self.opdict)
@@ -431,6 +449,9 @@ class ekv_mos_model:
             float(TCV) if TCV is not None else self.NPMOS * TCV_DEFAULT
         self.BEX = float(BEX) if BEX is not None else BEX_DEFAULT
 
+        # the values at TNOM
+        self._nominal = (self.VTO, self.KP, self.PHI)
+        self._circuit_T = constants.T
         self.set_device_temperature(constants.T)
 
         # Setup switches
@@ -448,12 +469,21 @@ class ekv_mos_model:
         Correspondingly, ``VTO``, ``KP`` and ``PHI`` get updated.
         """
         self.TEMP = T
-        self.VTO = self.VTO - self.TCV * (T - self.TNOM)
-        self.KP = self.KP * (T / self.TNOM) ** self.BEX
-        self.PHI = self.PHI * T / self.TNOM + 3.0 * constants.Vth(self.TNOM) * math.log(T / self.TNOM) \
+        # always start from the values at TNOM, so that the result does not
+        # depend on which temperatures were set before
+        VTO, KP, PHI = self._nominal
+        self.VTO = VTO - self.TCV * (T - self.TNOM)
+        self.KP = KP * (T / self.TNOM) ** self.BEX
+        self.PHI = PHI * T / self.TNOM + 3.0 * constants.Vth(self.TNOM) * math.log(T / self.TNOM) \
             - constants.si.Eg(
                 self.TNOM) * T / self.TNOM + constants.si.Eg(T)
 
+    def follow_circuit_temperature(self):
+        """Update the model, if the circuit temperature changed."""
+        if self._circuit_T != constants.T:
+            self._circuit_T = constants.T
+            self.set_device_temperature(constants.T)
+
     def get_device_temperature(self):
         """Returns the temperature of the device - in K.
         """
@@ -514,7 +544,7 @@ class ekv_mos_model:
           Gs, the specific transconductance,
           Qs, the specific charge.
         """
-        self.scaling.Ut = constants.Vth()
+        self.scaling.Ut = constants.Vth(self.TEMP)
         self.scaling.Is = 2 * nq * \
             self.scaling.Ut ** 2 * self.KP * device.W / device.L
         self.scaling.Gs = 2 * nq * \
@@ -628,24 +658,24 @@ class ekv_mos_model:
         return Ids, qf, qr
 
     def get_leq_virp(self, device, xxx_todo_changeme1, Vp, Leff, ifn):
-        # if ifn > 0 and Vp - constants.Vth()*vd > 0:
+        # if ifn > 0 and Vp - constants.Vth(self.TEMP)*vd > 0:
         (vd, vg, vs) = xxx_todo_changeme1
         assert vd >= vs
         Vc = self.UCRIT * device.N * Leff
         Vdss  = Vc * \
-            (math.sqrt(.25 + constants.Vth() / Vc * math.sqrt(ifn)) - .5)
+            (math.sqrt(.25 + constants.Vth(self.TEMP) / Vc * math.sqrt(ifn)) - .5)
              # eq. 46
         # Drain-to-source saturation voltage for reverse normalized current,
         # eq. 47
-        Vdssp = Vc * (math.sqrt(.25 + constants.Vth() / Vc * (math.sqrt(ifn) - .75 * math.log(ifn))) - .5) + \
-            constants.Vth() * (math.log(.5 * Vc / constants.Vth()) - .6)
+        Vdssp = Vc * (math.sqrt(.25 + constants.Vth(self.TEMP) / Vc * (math.sqrt(ifn) - .75 * math.log(ifn))) - .5) + \
+            constants.Vth(self.TEMP) * (math.log(.5 * Vc / constants.Vth(self.TEMP)) - .6)
 
         # channel length modulation
-        vser_1 = math.sqrt(ifn) - Vdss / constants.Vth()
+        vser_1 = math.sqrt(ifn) - Vdss / constants.Vth(self.TEMP)
         # if vser_1 < 0:
         #   vser_1 = 0
-        Vds = (vd - vs) * .5 * constants.Vth()
-        delta_v = 4.0 * constants.Vth() * math.sqrt(
+        Vds = (vd - vs) * .5 * constants.Vth(self.TEMP)
+        delta_v = 4.0 * constants.Vth(self.TEMP) * math.sqrt(
             self.LAMBDA * vser_1 + 1.0 / 64)  # eq. 48
         Vip = math.sqrt(Vdss ** 2 + delta_v ** 2) - math.sqrt(
             (Vds - Vdss) ** 2 + delta_v ** 2)  # eq 50
@@ -662,10 +692,10 @@ class ekv_mos_model:
         assert not math.isnan(Vdssp)
         assert not math.isnan(delta_v)
 
-        v_irp = (Vp - Vds - vs * constants.Vth() - math.sqrt(Vdssp ** 2 + delta_v ** 2)
-                 + math.sqrt((Vds - Vdssp) ** 2 + delta_v ** 2)) / constants.Vth()
+        v_irp = (Vp - Vds - vs * constants.Vth(self.TEMP) - math.sqrt(Vdssp ** 2 + delta_v ** 2)
+                 + math.sqrt((Vds - Vdssp) ** 2 + delta_v ** 2)) / constants.Vth(self.TEMP)
         # else:
-        #   v_irp = Vp/constants.Vth() - vd
+        #   v_irp = Vp/constants.Vth(self.TEMP) - vd
         #   Leq = Leff
 
         return Leq, v_irp
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 1b3e293..ac4eba2 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -51,6 +51,7 @@ Module reference
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
+import copy
 import math
 import numpy as np
 
@@ -117,6 +118,7 @@ class mosq_device(object):
         self.device.L = float(L)  # channel length -
         self.device.W = float(W)  # channel width -
         self.device.M = int(M)  # parallel multiple device number
+        self.device.T = model.TEMP # the temperature of the evaluations
         self.device.N = int(N)  # series multiple device number
         self.device.mckey = None
         self.device.part_id = part_id
@@ -210,6 +212,16 @@ class mosq_device(object):
               str(self.device.N)
         return rep
 
+    def _follow_temperature(self):
+        """Follow the temperature of the model and of the circuit"""
+        self.mosq_model.follow_circuit_temperature()
+        if self.device.T != self.mosq_model.TEMP:
+            # what has been evaluated so far is obsolete, including what the
+            # model cached for this instance of self.device.
+            self.device = copy.copy(self.device)
+            self.device.T = self.mosq_model.TEMP
+            self.opdict = {'state': (float('nan'), float('nan'), float('nan'))}
+
     def _get_mos_type(self):
         """Returns N or P (capitalized), depending on the device type.
         """
@@ -232,6 +244,7 @@ class mosq_device(object):
             It has no effect here. Set it to ``None`` during DC analysis.
 
         """
+        self._follow_temperature()
         sw_vect, CS = self.mosq_model.get_voltages(*ports_v)
         ids = self.mosq_model.get_ids(self.mosq_model, self.device, sw_vect)
         istamp = np.array((CS*ids, -CS*ids), dtype=np.float64)
@@ -249,6 +262,7 @@ class mosq_device(object):
         several pieces of information that may be of interest regarding the
         biasing of the MOS device.
         """
+        self._follow_temperature()
         if self.opdict is None:
             self.opdict = {}
         if self.opdict['state'] != tuple(ports_v[0]) or 'gmd' not in self.opdict \
@@ -365,6 +379,7 @@ class mosq_device(object):
         indices = ([self.n1 - 1]*4 + [self.ng - 1]*4 + [self.n2 - 1]*4 + [self.nb - 1]*4,
                    [self.n1 - 1, self.ng - 1, self.n2 - 1, self.nb - 1]*4)
 
+        self._follow_temperature()
         sw_vect, CS = self.mosq_model.get_voltages(*ports_v)
         gmd = self.mosq_model.get_gmd(self.mosq_model, self.device, sw_vect)
         gmg = self.mosq_model.get_gm(self.mosq_model, self.device, sw_vect)
@@ -499,6 +514,9 @@ class mosq_mos_model(object):
         self.AVT = AVT if AVT is not None else AVT_DEFAULT
         self.AKP = AKP if AKP is not None else AKP_DEFAULT
 
+        # the values at TNOM
+        self._nominal = (self.VTO, self.KP, self.PHI)
+        self._circuit_T = constants.T
         self.set_device_temperature(constants.T)
 
         sc, sc_reason = self._self_check()
@@ -519,12 +537,21 @@ class mosq_mos_model(object):
         Correspondingly, ``VTO``, ``KP`` and ``PHI`` get updated.
         """
         self.TEMP = T
-        self.VTO = self.VTO - self.TCV * (T - self.TNOM)
-        self.KP = self.KP * (T / self.TNOM) ** self.BEX
-        self.PHI = (self.PHI * T / self.TNOM + 3 * constants.Vth(self.TNOM) *
+        # always start from the values at TNOM, so that the result does not
+        # depend on which temperatures were set before
+        VTO, KP, PHI = self._nominal
+        self.VTO = VTO - self.TCV * (T - self.TNOM)
+        self.KP = KP * (T / self.TNOM) ** self.BEX
+        self.PHI = (PHI * T / self.TNOM + 3 * constants.Vth(self.TNOM) *
                     math.log(T / self.TNOM) - constants.si.Eg(self.TNOM) * T /
                     self.TNOM + constants.si.Eg(T))
 
+    def follow_circuit_temperature(self):
+        """Update the model, if the circuit temperature changed."""
+        if self._circuit_T != constants.T:
+            self._circuit_T = constants.T
+            self.set_device_temperature(constants.T)
+
     def get_device_temperature(self):
         """Returns the temperature of the device - in K.
         """
-- 
2.43.0


From 67c8d57cf5fd3864fc111af87f5dad0ae49aaf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:52 +0000
Subject: [PATCH 50/79] fix: values that are not numbers in element and model
 lines are reported as parse errors

---
 ahkab/ekv.py            |  4 +--
 ahkab/mosq.py           |  2 +-
 ahkab/netlist_parser.py | 64 +++++++++++++++++++++++++----------------
 ahkab/switch.py         |  2 +-
 4 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 1c5226a..1ad4454 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -168,7 +168,7 @@ class ekv_device:
 
         devcheck, reason = self.ekv_model._device_check(self.device)
         if not devcheck:
-            raise Exception(reason + " out of boundaries.")
+            raise ValueError(reason + " out of boundaries.")
 
     def get_drive_ports(self, op):
         """Returns a tuple of tuples of ports nodes, as:
@@ -461,7 +461,7 @@ class ekv_mos_model:
 
         sc, sc_reason = self._self_check()
         if not sc:
-            raise Exception(sc_reason + " out of range")
+            raise ValueError(sc_reason + " out of range")
 
     def set_device_temperature(self, T):
         """Change the temperature of the device.
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index ac4eba2..8221853 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -521,7 +521,7 @@ class mosq_mos_model(object):
 
         sc, sc_reason = self._self_check()
         if not sc:
-            raise Exception(sc_reason + " out of range")
+            raise ValueError(sc_reason + " out of range")
         self.T1 = np.array(((0, 0, 1, 0),
                             (0, 1, 0, 0),
                             (1, 0, 0, 0),
diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index c5a4ce5..e2fa1df 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -302,11 +302,14 @@ def main_netlist_parser(circ, netlist_lines, subckts_dict, models):
             # appropriate parsing function
             # we always use normal convention V opposite to I
             # n1 is +, n2 is -, current flows from + to -
-            try:
-                elements += parse_function[line[0]](line)
-            except KeyError:
+            if line[0] not in parse_function:
                 raise NetlistParseError("Parser: do not know how to parse" +
                                         " '%s' elements." % line[0])
+            try:
+                elements += parse_function[line[0]](line)
+            except ValueError as err:
+                # eg a value which isn't a number
+                raise NetlistParseError("%s: %s" % (line.split()[0], err))
     #   Handle errors from individual parse functions
     except NetlistParseError as npe:
         (msg,) = npe.args
@@ -344,26 +347,36 @@ def parse_models(models_lines):
             if tokens[index][0] == "*":
                 break
             (label, value) = parse_param_value_from_string(tokens[index])
+            if label != 'type' and not isinstance(value, float):
+                raise NetlistParseError("parse_models(): unable to parse the" +
+                                        " parameter " + tokens[index] +
+                                        " on line " + str(line_n) +
+                                        ".\n\t" + line)
             model_parameters.update({label.upper(): value})
-        if model_type == "ekv":
-            model_iter = ekv.ekv_mos_model(**model_parameters)
-            model_iter.name = model_label
-        elif model_type == "mosq":
-            model_iter = mosq.mosq_mos_model(**model_parameters)
-            model_iter.name = model_label
-        elif model_type == "diode" or model_type == 'd':
-            model_parameters.update({'name': model_label})
-            model_iter = diode.diode_model(**model_parameters)
-        elif model_type == "sw":
-            model_parameters.update({'name': model_label})
-            model_iter = switch.vswitch_model(**model_parameters)
-        # elif model_type == "csw":
-        #   model_parameters.update({'name':model_label})
-        #   model_iter = switch.iswitch_model(**model_parameters)
-        else:
-            raise NetlistParseError("parse_models(): Unknown model (" +
-                                    model_type + ") on line " + str(line_n) +
-                                    ".\n\t" + line,)
+        try:
+            if model_type == "ekv":
+                model_iter = ekv.ekv_mos_model(**model_parameters)
+                model_iter.name = model_label
+            elif model_type == "mosq":
+                model_iter = mosq.mosq_mos_model(**model_parameters)
+                model_iter.name = model_label
+            elif model_type == "diode" or model_type == 'd':
+                model_parameters.update({'name': model_label})
+                model_iter = diode.diode_model(**model_parameters)
+            elif model_type == "sw":
+                model_parameters.update({'name': model_label})
+                model_iter = switch.vswitch_model(**model_parameters)
+            # elif model_type == "csw":
+            #   model_parameters.update({'name':model_label})
+            #   model_iter = switch.iswitch_model(**model_parameters)
+            else:
+                raise NetlistParseError("parse_models(): Unknown model (" +
+                                        model_type + ") on line " +
+                                        str(line_n) + ".\n\t" + line,)
+        except (TypeError, ValueError) as err:
+            # unknown parameters, unacceptable values
+            raise NetlistParseError("parse_models(): %s on line %s.\n\t%s" %
+                                    (err, line_n, line))
         models.update({model_label: model_iter})
     return models
 
@@ -1209,7 +1222,8 @@ def parse_time_function(ftype, line_elements, stype):
         assigned = False
         for t in prot_params:
             if (label is None and t['pos'] == i) or label == t['label']:
-                fun_params.update({t['dest']: convert(value, t['type'])})
+                fun_params.update({t['dest']: convert(value, t['type'],
+                                                      raise_exception=True)})
                 assigned = True
                 break
         if assigned:
@@ -1260,7 +1274,7 @@ def convert_units(string_value):
     if type(string_value) is float:
         return string_value  # not actually a string!
     if not len(string_value):
-        raise NetlistParseError("")
+        raise NetlistParseError("a value is missing.")
 
     index = 0
     string_value = string_value.strip().upper()
@@ -1666,7 +1680,7 @@ def convert_boolean(value):
     elif value == 'yes' or value == 'true' or value == '1' or value == 1:
         return_value = True
     else:
-        raise NetlistParseError("invalid boolean: " + value)
+        raise NetlistParseError("invalid boolean: %s" % (value,))
 
     return return_value
 
diff --git a/ahkab/switch.py b/ahkab/switch.py
index b20062e..78f9131 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -323,7 +323,7 @@ class vswitch_model:
 
     def _get_VTVH_from_VONVOFF(self, VON, VOFF):
         if VON is None or VOFF is None:
-            raise ValueError
+            raise ValueError("VON and VOFF have to be set together")
         VT = (VON - VOFF) / 2.0 + VOFF
         return VT, VT * 1e-3
 
-- 
2.43.0


From a88c0390f2ccf9785a075c2453ae0186cd050243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 51/79] fix: malformed element lines, diodes with models of
 other devices and impossible couplings are refused with a reason

---
 ahkab/netlist_parser.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index e2fa1df..908db8a 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -531,6 +531,14 @@ def parse_elem_inductor_coupling(line, circ, elements=[]):
             raise NetlistParseError("parse_elem_inductor_coupling(): unknown parameter " + label)
         Kvalue = convert_units(value)
 
+    if abs(Kvalue) > 1:
+        raise NetlistParseError("parse_elem_inductor_coupling(): the coupling" +
+                                " factor has to be less than 1: " +
+                                line_elements[3])
+    if L1 == L2:
+        raise NetlistParseError("parse_elem_inductor_coupling(): %s is" % L1 +
+                                " coupled to itself.")
+
     L1elem, L2elem = None, None
 
     for e in elements:
@@ -728,7 +736,7 @@ def parse_elem_diode(line, circ, models=None):
 
     line_elements = line.split()
     if len(line_elements) < 4:
-        raise NetlistParseError("")
+        raise NetlistParseError("parse_elem_diode(): malformed line")
 
     model_label = line_elements[3]
 
@@ -758,6 +766,8 @@ def parse_elem_diode(line, circ, models=None):
 
     if model_label not in models:
         raise NetlistParseError("parse_elem_diode(): Unknown model id: " + model_label)
+    if not isinstance(models[model_label], diode.diode_model):
+        raise NetlistParseError("parse_elem_diode(): not a diode model: " + model_label)
     elem = diode.diode(part_id=line_elements[0], n1=n1, n2=n2, model=models[
                        model_label], AREA=Area, T=T, ic=ic, off=off)
     return [elem]
@@ -867,7 +877,7 @@ def parse_elem_vcvs(line, circ):
     """
     line_elements = line.split()
     if len(line_elements) < 6 or (len(line_elements) > 6 and not line_elements[6][0] == "*"):
-        raise NetlistParseError("")
+        raise NetlistParseError("parse_elem_vcvs(): malformed line")
 
     ext_n1 = line_elements[1]
     ext_n2 = line_elements[2]
@@ -912,7 +922,7 @@ def parse_elem_ccvs(line, circ):
     line_elements = line.split()
     if len(line_elements) < 5 or (len(line_elements) > 5 and not
                                   line_elements[5][0] == "*"):
-        raise NetlistParseError("")
+        raise NetlistParseError("parse_elem_ccvs(): malformed line")
 
     ext_n1 = line_elements[1]
     ext_n2 = line_elements[2]
@@ -952,7 +962,7 @@ def parse_elem_vccs(line, circ):
     line_elements = line.split()
     if len(line_elements) < 6 or (len(line_elements) > 6
        and not line_elements[6][0] == "*"):
-        raise NetlistParseError("")
+        raise NetlistParseError("parse_elem_vccs(): malformed line")
 
     ext_n1 = line_elements[1]
     ext_n2 = line_elements[2]
@@ -994,7 +1004,7 @@ def parse_elem_cccs(line, circ):
     line_elements = line.split()
     if len(line_elements) < 5 or (len(line_elements) > 5
        and not line_elements[5][0] == "*"):
-        raise NetlistParseError("")
+        raise NetlistParseError("parse_elem_cccs(): malformed line")
 
     ext_n1 = line_elements[1]
     ext_n2 = line_elements[2]
@@ -1033,7 +1043,7 @@ def parse_elem_switch(line, circ, models=None):
     """
     line_elements = line.split()
     if len(line_elements) < 6 or (len(line_elements) > 6 and not line_elements[6][0] == "*"):
-        raise NetlistParseError("")
+        raise NetlistParseError("parse_elem_switch(): malformed line")
 
     ext_n1 = line_elements[1]
     ext_n2 = line_elements[2]
@@ -1103,7 +1113,7 @@ def parse_elem_user_defined(line, circ):
     line_elements = line.split()
 
     if len(line_elements) < 4:
-        raise NetlistParseError("")
+        raise NetlistParseError("parse_elem_user_defined(): malformed line")
 
     param_dict = {}
     for index in range(3, len(line_elements)):
@@ -1757,7 +1767,7 @@ def parse_sub_instance(line, circ, subckts_dict, models=None):
     """
     line_elements = line.split()
     if len(line_elements) < 2:
-        raise NetlistParseError("")
+        raise NetlistParseError("parse_sub_instance(): malformed line")
 
     param_value_dict = {}
     name = None
@@ -1821,7 +1831,7 @@ def parse_include_directive(line, netlist_wd):
     line_elements = line.split()
     if not len(line_elements) > 1 or \
             (len(line_elements) > 2 and not line_elements[2][0] == '*'):
-        raise NetlistParseError("")
+        raise NetlistParseError("parse_include_directive(): malformed line")
 
     path = line_elements[1]
     if not os.path.isabs(path):
-- 
2.43.0


From 74d440d02a6b76128606087d63d41657993a2aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:52 +0000
Subject: [PATCH 52/79] fix: recursive subcircuits and includes, unlabelled
 subcircuits and missing include files are parse errors

---
 ahkab/netlist_parser.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 908db8a..4b007b7 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -169,6 +169,8 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
 
     file_list = [(ffile, "unknown", not read_netlist_from_stdin)]
     netlist_wd = "" if read_netlist_from_stdin else os.path.split(filename)[0]
+    # for each of the files, the chain of .include that leads to it
+    parents = [() if read_netlist_from_stdin else (os.path.abspath(filename),)]
     file_index = 0
     directives = []
     model_directives = []
@@ -217,8 +219,14 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
                         subckts_list_temp.append(current_subckt_temp)
                         current_subckt_temp = []
                     elif line_elements[0] == '.include':
-                        file_list.append(
-                            parse_include_directive(line_mixed_case, netlist_wd))
+                        new_file = parse_include_directive(line_mixed_case,
+                                                           netlist_wd)
+                        if os.path.abspath(new_file[1]) in parents[file_index]:
+                            raise NetlistParseError("%s includes itself" %
+                                                    new_file[1])
+                        parents.append(parents[file_index] +
+                                       (os.path.abspath(new_file[1]),))
+                        file_list.append(new_file)
                     elif line_elements[0] == ".end":
                         break
                     elif line_elements[0] == ".plot":
@@ -1736,6 +1744,9 @@ def parse_sub_declaration(subckt_lines):
             if line_elements[0] != '.subckt':
                 raise RuntimeError("BUG? parse_sub_declaration() \
                 called on non-subckt text. (line" + str(line_n) + ")")
+            if len(line_elements) < 2 or line_elements[1][0] == '*':
+                raise NetlistParseError(".subckt without a label (line " +
+                                        str(line_n) + ")")
             name = line_elements[1]
             for node_name in line_elements[2:]:
                 if node_name == '0':
@@ -1788,6 +1799,8 @@ def parse_sub_instance(line, circ, subckts_dict, models=None):
 
     name = param_value_dict['name']
     subckt = subckts_dict[name]
+    if subckt is None:
+        raise NetlistParseError("subckt " + name + " calls itself")
     connection_nodes_dict = {}
 
     for param, value in param_value_dict.items():
@@ -1806,8 +1819,10 @@ def parse_sub_instance(line, circ, subckts_dict, models=None):
     wrapped_circ = circuit._circuit_wrapper(circ, connection_nodes_dict,
                                             subckt.name, line_elements[0])
 
+    # the subcircuit is not available within itself
     elements_list = main_netlist_parser(wrapped_circ, subckt.code,
-                                        subckts_dict, models)
+                                        dict(subckts_dict, **{name: None}),
+                                        models)
 
     # Every subckt adds elements with the _same description_ (elem.part_id[1:])
     # We modify it so that each description is unique for every instance
@@ -1838,8 +1853,10 @@ def parse_include_directive(line, netlist_wd):
         # the user did not specify the full path.
         # the path is then assumed to be relative to the netlist location
         path = os.path.join(netlist_wd, path)
-    if not utilities.check_file(path):
-        raise RuntimeError("")
+    try:
+        utilities.check_file(path)
+    except IOError as err:
+        raise NetlistParseError("parse_include_directive(): %s" % err)
 
     fnew = open(path, "r")
 
-- 
2.43.0


From b8e55d7fd993253f480e5426da1bbf2828a27a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 53/79] fix: non-numeric, missing and malformed parameters of
 directives are parse errors

---
 ahkab/netlist_parser.py | 52 ++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 4b007b7..fd40d73 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -126,7 +126,7 @@ from .dc_analysis import specs as dc_spec
 from .ac import specs as ac_spec
 from .transient import specs as tran_spec
 from .pss import specs as pss_spec
-from .py3compat import StringIO
+from .py3compat import StringIO, text_type
 from .pz import specs as pz_specs
 from .symbolic import specs as symbolic_spec
 from .time_functions import time_fun_specs
@@ -1347,6 +1347,8 @@ def parse_postproc(circ, postproc_direc):
             line_elements = line.split()
             # plot
             if line_elements[0] == ".plot":
+                if len(line_elements) < 2:
+                    raise NetlistParseError(".plot: missing analysis type")
                 plot_postproc = {}
                 plot_postproc["type"] = "plot"
                 plot_postproc["analysis"] = line_elements[1]
@@ -1355,9 +1357,9 @@ def parse_postproc(circ, postproc_direc):
                         plot_postproc["analysis"] == "ac" or
                         plot_postproc["analysis"] == "dc"
                         ):
-                    printing.print_general_error("Plotting is unsupported for" +
-                                                 "analysis type " +
-                                                 plot_postproc["analysis"])
+                    raise NetlistParseError("Plotting is unsupported for " +
+                                            "analysis type " +
+                                            plot_postproc["analysis"])
 
                 graph_labels = ""
                 for glabel in line_elements[2:]:
@@ -1382,10 +1384,8 @@ def parse_postproc(circ, postproc_direc):
                 postproc_list.append(plot_postproc)
             # fourier
             elif line_elements[0] == ".four":
-                if type(convert_units(line_elements[1])) is not float:
-                    raise NetlistParseError('postprocessing(): fourier' +
-                                            ' fundamental \'%s\'?' %
-                                            line_elements[1])
+                if len(line_elements) < 2:
+                    raise NetlistParseError('.four: missing fundamental')
                 fpv = {'type':'four',
                        'fund':convert_units(line_elements[1])}
                 variables = []
@@ -1409,7 +1409,8 @@ def parse_postproc(circ, postproc_direc):
                     assigned = False
                     for t in params:
                         if (label is None and t['pos'] == i) or label == t['label']:
-                            fpv.update({t['dest']: convert(value, t['type'])})
+                            fpv.update({t['dest']: convert(value, t['type'],
+                                                           raise_exception=True)})
                             assigned = True
                             break
                     if assigned:
@@ -1417,7 +1418,7 @@ def parse_postproc(circ, postproc_direc):
                         continue
                     else:
                         raise NetlistParseError("Unknown .%s parameter: pos %d (%s=)%s" % \
-                                                 (fpv[type].upper(), i, label, value))
+                                                 (fpv['type'].upper(), i, label, value))
                 # is there anything required which is missing?
                 missing = []
                 for t in params:
@@ -1435,8 +1436,8 @@ def parse_postproc(circ, postproc_direc):
             else:
                 raise NetlistParseError("Unknown postproc directive %s." %
                                         line_elements[0])
-        except NetlistParseError as npe:
-            (msg,) = npe.args
+        except (NetlistParseError, ValueError) as npe:
+            msg = str(npe)
             if len(msg):
                 printing.print_general_error(msg)
             printing.print_parse_error(line_n, line)
@@ -1526,6 +1527,9 @@ def parse_single_analysis(line):
             (label, value) = token.split('=')
         else:
             label, value = None, token
+        if token.count('=') > 1:
+            raise NetlistParseError(".%s: malformed parameter %s" %
+                                    (an_type.upper(), token))
         assigned = False
         if an_type == 'op' and label == 'guess' and \
            value not in ('yes', 'no', 'true', 'false', '0', '1'):
@@ -1534,7 +1538,12 @@ def parse_single_analysis(line):
         for t in params:
             if (label is None and t['pos'] == i) or \
                (label is not None and label in (t['label'],) + t.get('aliases', ())):
-                an.update({t['dest']: convert(value, t['type'])})
+                try:
+                    an.update({t['dest']: convert(value, t['type'],
+                                                  raise_exception=True)})
+                except ValueError as err:
+                    raise NetlistParseError(".%s: %s in %s" %
+                                            (an_type.upper(), err, token))
                 assigned = True
                 break
         if assigned:
@@ -1557,7 +1566,7 @@ def parse_single_analysis(line):
 
     # ad-hoc code for tran ... :(
     if an['type'] == 'tran':
-        uic = int(an.pop('uic'))
+        uic = an.pop('uic')
         if uic == 0:
             an['x0'] = None
         elif uic == 1:
@@ -1565,9 +1574,11 @@ def parse_single_analysis(line):
         elif uic == 2:
             an['x0'] = 'op+ic'
         elif uic == 3:
-            pass  # already set by ic_label
+            # already set by ic_label
+            if not isinstance(an['x0'], text_type):
+                raise NetlistParseError(".TRAN: UIC=3 requires IC_LABEL")
         else:
-            raise NetlistParseError("Unknown UIC value: %d" % uic)
+            raise NetlistParseError(".TRAN: unknown UIC value: %g" % uic)
     # ... and pz :(
     if an['type'] == 'pz':
         an.update({'x0':'op'})
@@ -1713,7 +1724,7 @@ def parse_ic_directive(line):
         if token[0] == "*":
             break
 
-        (label, value) = parse_param_value_from_string(token)
+        (label, value) = parse_param_value_from_string(token, rtype=str)
         if label == "name" and name is None:
             name = value
             continue
@@ -1721,12 +1732,15 @@ def parse_ic_directive(line):
         # V(node)=10u
         # or something like:
         # I(Vtest)=100e-6
-        ic_dict.update({label: convert_units(value)})
+        try:
+            ic_dict.update({label: convert_units(value)})
+        except (NetlistParseError, ValueError) as err:
+            raise NetlistParseError(".IC: %s in %s" % (err, token))
         # We may decide to check if the node exists and/or if the syntax
         # is correct and raise NetlistParseError if needed.
 
     if name is None:
-        raise NetlistParseError("The 'name' parameter is missing")
+        raise NetlistParseError(".IC: the 'name' parameter is missing")
 
     return {name: ic_dict}
 
-- 
2.43.0


From 324374a28d9553b06dcd98832ed5acdc7f41168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:07 +0000
Subject: [PATCH 54/79] fix: references to missing objects and impossible
 analysis parameters are reported by name

---
 ahkab/ac.py             |  2 ++
 ahkab/ahkab.py          | 18 ++++++++++++++++++
 ahkab/circuit.py        |  5 ++++-
 ahkab/dc_analysis.py    | 14 +++++++++-----
 ahkab/ekv.py            |  9 +++++----
 ahkab/netlist_parser.py | 14 +++++++++++---
 ahkab/symbolic.py       |  1 +
 ahkab/transient.py      |  4 ++--
 8 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/ahkab/ac.py b/ahkab/ac.py
index 1022720..3d62739 100644
--- a/ahkab/ac.py
+++ b/ahkab/ac.py
@@ -203,6 +203,8 @@ def ac_analysis(circ, start, points, stop, sweep_type=None,
     # check step/start/stop parameters
     if start == 0:
         raise ValueError("AC analysis has start frequency = 0")
+    if start < 0:
+        raise ValueError("AC analysis has start frequency < 0")
     if start > stop:
         raise ValueError("AC analysis has start > stop")
     if points < 2 and not start == stop:
diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index 8c07c51..e3659df 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -840,6 +840,7 @@ def process_postproc(postproc_list, title, results, outfilename):
             break
     for index, postproc in enumerate(postproc_list):
         if postproc['type'] == "plot" and not skip_plots:
+            _check_postproc(postproc, (), results, postproc["analysis"])
             plotting.plot_results(title, postproc["l2l1"],
                                   results[postproc["analysis"]],
                                   "%s-%d.%s" % (outfilename, index,
@@ -847,10 +848,12 @@ def process_postproc(postproc_list, title, results, outfilename):
             show_plots = True
         elif postproc['type'] == "four":
             for v in postproc['variables']:
+                _check_postproc(postproc, v, results, 'tran')
                 f, F, THD = fourier.fourier(v, results['tran'],
                                             postproc['fund'])
                 printing.print_fourier(v, f, F, THD, outfile='stdout')
         elif postproc['type'] == "fft":
+            _check_postproc(postproc, postproc['label'], results, 'tran')
             postproc.pop('type') # get rid of spurious entry
             f, F, THD = fourier.spicefft(tran_results=results['tran'],
                                          **postproc)
@@ -862,6 +865,21 @@ def process_postproc(postproc_list, title, results, outfilename):
     if show_plots and options.plotting_show_plots:
         plotting.show_plots()
 
+def _check_postproc(postproc, variables, results, an_type):
+    """Check that the results needed by a post-processing operation are there
+
+    :raises ValueError: if the analysis or any of the variables is missing.
+    """
+    if results.get(an_type, None) is None:
+        raise ValueError(".%s: no results from a %s analysis." %
+                         (postproc['type'].upper(), an_type.upper()))
+    for v in variables:
+        if v is not None and v not in results[an_type]:
+            raise ValueError(".%s: %s is not among the results of the %s "
+                             "analysis." % (postproc['type'].upper(), v,
+                                            an_type.upper()))
+
+
 analysis = {'op': dc_analysis.op_analysis, 'dc': dc_analysis.dc_analysis,
             'tran': transient.transient_analysis, 'ac': ac.ac_analysis,
             'pss': pss.pss_analysis, 'symbolic': symbolic.symbolic_analysis,
diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index 3fff244..bd9c270 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -360,7 +360,10 @@ class Circuit(list):
         int_node : int
             The internal node associated.
 
+        :raises ValueError: if there is no such node.
         """
+        if ext_node not in self.nodes_dict:
+            raise ValueError('Node %s not found' % ext_node)
         return self.nodes_dict[ext_node]
 
     def int_node_to_ext(self, int_node):
@@ -390,7 +393,7 @@ class Circuit(list):
         chk : boolean
             The result of the check.
         """
-        all_ids = tuple(map(lambda e: e.part_id, self))
+        all_ids = tuple(map(lambda e: e.part_id.lower(), self))
         return len(set(all_ids)) != len(all_ids)
 
     def get_ground_node(self):
diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 2eeeb01..f63ffa6 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -515,7 +515,12 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     elem_type, elem_descr = source[0].lower(), source.lower() # eg. 'v', 'v34'
     sweep_label = elem_type[0].upper() + elem_descr[1:]
 
+    if sweep_type.upper()[:3] not in (options.dc_lin_step, options.dc_log_step):
+        printing.print_general_error("Unknown sweep type: %s" % (sweep_type,))
+        sys.exit(1)
     sweep_type = sweep_type.upper()[:3]
+    if step == 0 and start != stop:
+        raise ValueError("DC analysis with a step of zero.")
     if sweep_type == options.dc_log_step and stop - start < 0:
         printing.print_general_error(
             "DC analysis has log sweeping and negative stepping.")
@@ -543,15 +548,12 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
         dc_iter = utilities.lin_axis_iterator(start, start, points=1)
     elif sweep_type == options.dc_log_step:
         dc_iter = utilities.log_axis_iterator(start, last, points=points)
-    elif sweep_type == options.dc_lin_step:
-        dc_iter = utilities.lin_axis_iterator(start, last, points=points)
     else:
-        printing.print_general_error("Unknown sweep type: %s" % (sweep_type,))
-        sys.exit(1)
+        dc_iter = utilities.lin_axis_iterator(start, last, points=points)
 
     if elem_type != 'v' and elem_type != 'i':
         printing.print_general_error(
-            "Sweeping is possible only with voltage and current sources. (" + str(elem_type) + ")")
+            "Sweeping is possible only with voltage and current sources. (" + str(source) + ")")
         sys.exit(1)
 
     source_elem = None
@@ -1153,6 +1155,8 @@ def build_x0_from_user_supplied_ic(circ, icdict):
             x0[int_node, 0] = value
         elif Iregex.search(label):
             element_name = Iregex.findall(label)[0]
+            if element_name.lower() not in voltage_defined_elem_names:
+                raise ValueError("No current through %s" % element_name)
             index = voltage_defined_elem_names.index(element_name.lower())
             x0[nv + index, 0] = value
         else:
diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 1ad4454..2f4335e 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -153,6 +153,9 @@ class ekv_device:
         self.device.T = model.TEMP # the temperature of the evaluations
         self.device.N = int(N)  # series multiple device number
         self.ekv_model = model
+        devcheck, reason = self.ekv_model._device_check(self.device)
+        if not devcheck:
+            raise ValueError(reason + " out of boundaries.")
         self.opdict = {}
         self.opdict.update(
             {'state': (float('nan'), float('nan'), float('nan'))})
@@ -166,10 +169,6 @@ class ekv_device:
         self.dc_guess = [self.ekv_model.VTO * (
             0.1) * self.ekv_model.NPMOS, self.ekv_model.VTO * (1.1) * self.ekv_model.NPMOS, 0]
 
-        devcheck, reason = self.ekv_model._device_check(self.device)
-        if not devcheck:
-            raise ValueError(reason + " out of boundaries.")
-
     def get_drive_ports(self, op):
         """Returns a tuple of tuples of ports nodes, as:
         (port0, port1, port2...)
@@ -817,6 +816,8 @@ class ekv_mos_model:
             ret = (False, "GAMMA " + str(self.GAMMA))
         elif not self.PHI > 0.1:
             ret = (False, "PHI " + str(self.PHI))
+        elif not self.KP > 0:
+            ret = (False, "KP " + str(self.KP))
         return ret
 
     def _device_check(self, adev):
diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index fd40d73..12f511d 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -354,8 +354,12 @@ def parse_models(models_lines):
         for index in range(3, len(tokens)):
             if tokens[index][0] == "*":
                 break
-            (label, value) = parse_param_value_from_string(tokens[index])
-            if label != 'type' and not isinstance(value, float):
+            try:
+                (label, value) = parse_param_value_from_string(tokens[index])
+            except NetlistParseError:
+                # no value
+                (label, value) = tokens[index], None
+            if isinstance(value, float) == (label == 'type'):
                 raise NetlistParseError("parse_models(): unable to parse the" +
                                         " parameter " + tokens[index] +
                                         " on line " + str(line_n) +
@@ -1541,7 +1545,7 @@ def parse_single_analysis(line):
                 try:
                     an.update({t['dest']: convert(value, t['type'],
                                                   raise_exception=True)})
-                except ValueError as err:
+                except (NetlistParseError, ValueError) as err:
                     raise NetlistParseError(".%s: %s in %s" %
                                             (an_type.upper(), err, token))
                 assigned = True
@@ -1724,6 +1728,8 @@ def parse_ic_directive(line):
         if token[0] == "*":
             break
 
+        if not is_valid_value_param_string(token):
+            raise NetlistParseError(".IC: unknown parameter %s" % token)
         (label, value) = parse_param_value_from_string(token, rtype=str)
         if label == "name" and name is None:
             name = value
@@ -1803,6 +1809,8 @@ def parse_sub_instance(line, circ, subckts_dict, models=None):
 
         param, value = parse_param_value_from_string(line_elements[index],
                                                      rtype=str)
+        if not value:
+            raise NetlistParseError("missing value in subckt call: " + param)
         param_value_dict.update({param:value})
 
     if "name" not in param_value_dict:
diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index c36d3ab..5830f21 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -193,6 +193,7 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
             printing.print_symbolic_results(sol)
 
     if source is not None:
+        circ.get_elem_by_name(source) # ValueError if there's no such source
         src = _symbol_factory(source.upper())
         printing.print_info_line(("Calculating small-signal symbolic transfer functions (%s))..." %
                                  (str(src),), 2), verbose, print_nl=False)
diff --git a/ahkab/transient.py b/ahkab/transient.py
index 192aa3c..d5996fe 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -153,8 +153,8 @@ def transient_analysis(circ, tstart, tstep, tstop, method=options.default_tran_m
     if tstart > tstop:
         printing.print_general_error("tstart > tstop")
         sys.exit(1)
-    if tstep < 0:
-        printing.print_general_error("tstep < 0")
+    if tstep <= 0:
+        printing.print_general_error("tstep <= 0")
         sys.exit(1)
 
     if verbose > 4:
-- 
2.43.0


From 535eefd587586279c9bf386eeecd7bfc3aee9be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:54 +0000
Subject: [PATCH 55/79] fix: model parameters that lead to divisions by zero
 are parse errors

---
 ahkab/netlist_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 12f511d..f3236d9 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -385,7 +385,7 @@ def parse_models(models_lines):
                 raise NetlistParseError("parse_models(): Unknown model (" +
                                         model_type + ") on line " +
                                         str(line_n) + ".\n\t" + line,)
-        except (TypeError, ValueError) as err:
+        except (ArithmeticError, TypeError, ValueError) as err:
             # unknown parameters, unacceptable values
             raise NetlistParseError("parse_models(): %s on line %s.\n\t%s" %
                                     (err, line_n, line))
-- 
2.43.0


From fec07997ac9e10eb58a9d9681f33b72cd6b7cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:45 +0000
Subject: [PATCH 56/79] fix: voltage-defined elements with both terminals on
 one node have a zero voltage, not the last stamp written

---
 ahkab/dc_analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index f63ffa6..bcd620d 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1063,11 +1063,11 @@ def generate_mna_and_N(circ, verbose=3):
             mna = utilities.expand_matrix(mna, add_a_row=True, add_a_col=True)
             N = utilities.expand_matrix(N, add_a_row=True, add_a_col=False)
             # KCL
-            mna[elem.n1, index] = 1.0
-            mna[elem.n2, index] = -1.0
+            mna[elem.n1, index] += 1.0
+            mna[elem.n2, index] -= 1.0
             # KVL
-            mna[index, elem.n1] = +1.0
-            mna[index, elem.n2] = -1.0
+            mna[index, elem.n1] += 1.0
+            mna[index, elem.n2] -= 1.0
             if isinstance(elem, components.sources.VSource) and not elem.is_timedependent:
                 # corretto, se e' def una parte tempo-variabile ci pensa
                 # mdn_solver a scegliere quella giusta da usare.
-- 
2.43.0


From 4d0e9e50c2f532297270a8937402ccea4ba768a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:45 +0000
Subject: [PATCH 57/79] fix: circuits without a reference node are reported
 instead of crashing on an index

---
 ahkab/dc_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index bcd620d..07870b5 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1017,6 +1017,8 @@ def generate_mna_and_N(circ, verbose=3):
         The MNA matrix and constant term vector computed as per above.
 
     """
+    if len(circ) and 0 not in circ.nodes_dict:
+        raise ValueError("The circuit has no reference node (%s)." % circ.gnd)
     n_of_nodes = circ.get_nodes_number()
     mna = np.zeros((n_of_nodes, n_of_nodes))
     N = np.zeros((n_of_nodes, 1))
-- 
2.43.0


From 0867f6d8d4e2a09e8835fb6201de18839419470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:41 +0000
Subject: [PATCH 58/79] fix: equations singular to working precision are
 reported as such, not answered with amplified rounding errors

---
 ahkab/dc_analysis.py | 51 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 07870b5..ecb6d81 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -847,8 +847,14 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
                     _update_J_and_Tx(J, Tx, x, elem, time)
         residuo = mna.dot(x) + T + nonlinear_circuit*Tx
 
+        if not nonlinear_circuit and _is_singular(mna):
+            # the solution, if any, is not unique: rounding errors would decide
+            raise np.linalg.LinAlgError("Singular matrix")
         if sparse:
-            lu = scipy.sparse.linalg.splu(scipy.sparse.csc_matrix(mna + nonlinear_circuit*J))
+            try:
+                lu = scipy.sparse.linalg.splu(scipy.sparse.csc_matrix(mna + nonlinear_circuit*J))
+            except RuntimeError as e:  # exactly singular factor
+                raise np.linalg.LinAlgError(str(e))
             dx = lu.solve(-residuo)
         else:
             dx = np.linalg.solve(mna + nonlinear_circuit*J, -residuo)
@@ -874,6 +880,49 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
     return (x, residuo, converged, iteration, convergence_by_node)
 
 
+def _is_singular(mna):
+    """Is the matrix singular to working precision?
+
+    The equations are first equilibrated, so that the answer does not depend on
+    the units and on the impedance level of the circuit.
+
+    **Parameters:**
+
+    mna : ndarray or sparse matrix
+        The (square) matrix to be checked.
+
+    **Returns:**
+
+    singular : boolean
+        ``True`` if the (equilibrated) matrix has no significant inverse.
+    """
+    sparse = scipy.sparse.issparse(mna)
+    B = scipy.sparse.csc_matrix(mna) if sparse else np.asarray(mna)
+    for _ in range(3):
+        for axis in (1, 0):
+            scale = abs(B).max(axis=axis)
+            scale = np.sqrt(scale.toarray().ravel() if sparse else scale)
+            if not np.isfinite(scale).all() or not scale.all():
+                return True
+            if sparse:
+                D = scipy.sparse.diags(1.0/scale, 0)
+                B = scipy.sparse.csc_matrix(D.dot(B) if axis else B.dot(D))
+            else:
+                B = B/(scale[:, np.newaxis] if axis else scale)
+    if not sparse:
+        cond = np.linalg.cond(B, 1)
+    else:
+        try:
+            lu = scipy.sparse.linalg.splu(B)
+        except RuntimeError:  # exactly singular factor
+            return True
+        Binv = scipy.sparse.linalg.LinearOperator(
+            B.shape, dtype=B.dtype, matvec=lu.solve,
+            rmatvec=lambda b: lu.solve(b, trans='H'))
+        cond = abs(B).sum(axis=0).max()*scipy.sparse.linalg.onenormest(Binv)
+    return not cond < 1.0/np.finfo(float).eps
+
+
 def _update_J_and_Tx(J, Tx, x, elem, time):
     out_ports = elem.get_output_ports()
     for index in range(len(out_ports)):
-- 
2.43.0


From c55d63706e9c82305aed0a32337e7d27713af109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:54 +0000
Subject: [PATCH 59/79] fix: a failed analysis does not leave the rest of the
 queue to the next circuit

---
 ahkab/ahkab.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index e3659df..f4d22cb 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -700,7 +700,10 @@ def run(circ, an_list=None):
     results = {}
 
     if not an_list:
-        an_list = _queue
+        # the queue is emptied first: if an analysis fails, the following ones
+        # shall not be left for the next circuit
+        an_list = _queue[:]
+        del _queue[:]
     else:
         an_list = copy.deepcopy(an_list)
         if type(an_list) == tuple:
-- 
2.43.0


From 53f4cf8cf3cbf4cb1dc3b39cd04663cfba111501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:54 +0000
Subject: [PATCH 60/79] fix: decks do not start from the initial states of the
 decks simulated before them

---
 ahkab/ahkab.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index f4d22cb..c57bfe1 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -962,6 +962,9 @@ def main(filename, outfile="stdout", verbose=3):
             circ.models[m].print_model()
         print("")
 
+    # the initial states of the circuits simulated before are not of this one
+    _x0s.clear()
+    _x0s[None] = None
     ic_list = netlist_parser.parse_ics(directives)
     _handle_netlist_ics(circ, an_list=[], ic_list=ic_list)
     results = {}
-- 
2.43.0


From f412f916aa2ba892c483e82f7eaa09afc00d8136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:20 +0000
Subject: [PATCH 61/79] fix: an interrupted DC sweep gives the swept source its
 value back

---
 ahkab/dc_analysis.py | 50 +++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index ecb6d81..5c42fbe 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -592,38 +592,36 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     # tarocca il generatore di tensione, avvia DC silenziosa, ritarocca etc
     index = 0
     solved = False
-    for sweep_value in dc_iter:
-        index = index + 1
-        if isinstance(source_elem, components.sources.VSource):
-            source_elem.dc_value = sweep_value
-        else:
-            source_elem.dc_value = sweep_value
-        # silently calculate the op
-        x = op_analysis(circ, x0=x, guess=guess, verbose=0)
-        if x is None:
-            tick.hide(verbose > 2)
-            if not options.dc_sweep_skip_allowed:
-                print("Could't solve the circuit for sweep value:", start + index * step)
-                solved = False
-                break
+    try:
+        for sweep_value in dc_iter:
+            index = index + 1
+            if isinstance(source_elem, components.sources.VSource):
+                source_elem.dc_value = sweep_value
             else:
-                print("Skipping sweep value:", start + index * step)
-                continue
-        solved = True
-        sol.add_op(sweep_value, x)
-
-        tick.step()
+                source_elem.dc_value = sweep_value
+            # silently calculate the op
+            x = op_analysis(circ, x0=x, guess=guess, verbose=0)
+            if x is None:
+                tick.hide(verbose > 2)
+                if not options.dc_sweep_skip_allowed:
+                    print("Could't solve the circuit for sweep value:", start + index * step)
+                    solved = False
+                    break
+                else:
+                    print("Skipping sweep value:", start + index * step)
+                    continue
+            solved = True
+            sol.add_op(sweep_value, x)
+
+            tick.step()
+    finally:
+        # clean up, even if the sweep is interrupted
+        source_elem.dc_value = initial_value
 
     tick.hide(verbose > 2)
     if solved:
         printing.print_info_line(("done", 3), verbose)
 
-    # clean up
-    if isinstance(source_elem, components.sources.VSource):
-        source_elem.dc_value = initial_value
-    else:
-        source_elem.dc_value = initial_value
-
     return sol if solved else None
 
 
-- 
2.43.0


From 696d4cf2586f7ea6e0c9ee9673f233ff577dbf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:37 +0000
Subject: [PATCH 62/79] fix: switches with hysteresis start every analysis from
 their own initial status

---
 ahkab/ahkab.py  | 7 +++++++
 ahkab/switch.py | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index c57bfe1..eddeb37 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -186,6 +186,7 @@ from . import fourier
 # data display
 from . import plotting
 from . import printing
+from . import switch
 
 #py3 compat
 from .py3compat import text_type
@@ -718,6 +719,12 @@ def run(circ, an_list=None):
             printing.print_warning("%s has x0 set to %s, unavailable. Using 'None'." %
                                    (an_type.upper(), an_item['x0']))
             an_item['x0'] = None
+        if an_item.get('x0') is None:
+            # starting from scratch: the status of the switches with hysteresis
+            # shall not depend on what was simulated before
+            for elem in circ:
+                if isinstance(elem, switch.switch_device):
+                    elem.reset_status()
         r = analysis[an_type](circ, **an_item)
         results.update({an_type: r})
         if an_type == 'op':
diff --git a/ahkab/switch.py b/ahkab/switch.py
index 78f9131..4c2771c 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -104,7 +104,8 @@ class switch_device:
         class dev_class:
             pass
         self.device = dev_class()
-        self.device.is_on = ic if ic is not None else False
+        self._ic = ic if ic is not None else False
+        self.reset_status()
         self.sn1 = sn1
         self.sn2 = sn2
         self.n1 = n1
@@ -118,6 +119,10 @@ class switch_device:
         self.is_symbolic = True
         self.dc_guess = self.model.get_dc_guess(self.device.is_on)
 
+    def reset_status(self):
+        """Bring the switch back to its initial status."""
+        self.device.is_on = self._ic
+
     def get_drive_ports(self, op):
         """Get the ports that drive the output ports.
 
-- 
2.43.0


From 59f553189ec63741c615c3a6edf1612b2f34a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:43 +0000
Subject: [PATCH 63/79] fix: loops of voltage-defined elements are reported in
 nonlinear circuits too

---
 ahkab/dc_analysis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 5c42fbe..5323a7d 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -863,6 +863,10 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
             break
         x = x + get_td(dx, locked_nodes, n=iteration) * dx
         if convergence_check(x, dx, residuo, nv - 1)[0]:
+            # whatever the conductances of the nonlinear elements are, a loop of
+            # voltage-defined elements leaves their currents undetermined
+            if _is_singular(mna + build_gmin_matrix(circ, 1e-3, mna_size, 0)):
+                raise np.linalg.LinAlgError("Singular matrix")
             converged = True
             break
         # if vector_norm(dx) == np.nan: #Overflow
-- 
2.43.0


From cd93fda757f263f033225caddbd373b1988f0683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:43 +0000
Subject: [PATCH 64/79] fix: cached device evaluations are not reused after the
 options they depend on changed

---
 ahkab/utilities.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ahkab/utilities.py b/ahkab/utilities.py
index 29bf167..3dedb14 100644
--- a/ahkab/utilities.py
+++ b/ahkab/utilities.py
@@ -35,7 +35,6 @@ import operator
 
 import numpy as np
 
-from functools import wraps
 
 from . import printing
 from . import py3compat
@@ -722,15 +721,15 @@ def memoize(f):
     """
     class memodict(collections.OrderedDict):
         __slots__ = ()
-        @wraps(f)
-        def __getitem__(self, *key):
-            return dict.__getitem__(self, key)
+        def __call__(self, *key):
+            # the device equations depend on these options too
+            return self[key + (options.gmin, options.iea, options.vea)]
         def __missing__(self, key):
-            ret = self[key] = f(*key)
+            ret = self[key] = f(*key[:-3])
             # set options.cache_len to None to disable any size limit.
             if options.cache_len is not None and len(self) > options.cache_len:
                 self.popitem(last=False) # FIFO pop
             return ret
-    return memodict().__getitem__
+    return memodict()
 
 
-- 
2.43.0


From bb5ee63d9653edd919382b3aabd5d5d6e2918c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:38 +0000
Subject: [PATCH 65/79] fix: symbolic results are printed on Python 3

---
 ahkab/printing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/printing.py b/ahkab/printing.py
index e08f460..e47d578 100644
--- a/ahkab/printing.py
+++ b/ahkab/printing.py
@@ -279,7 +279,7 @@ def print_symbolic_results(x):
 
     """
     keys = list(x.keys())
-    keys.sort(lambda x, y: cmp(str(x), str(y)))
+    keys.sort(key=str)
     for key in keys:
         print(str(key) + "\t = " + str(x[key]))
 
@@ -299,7 +299,7 @@ def print_symbolic_transfer_functions(x):
         expressions of the singularities.
     """
     keys = list(x.keys())
-    keys.sort(lambda x, y: cmp(str(x), str(y)))
+    keys.sort(key=str)
     for key in keys:
         print(str(key) + " = " + str(x[key]['gain']))
         print('\tDC: ' + str(x[key]['gain0']))
-- 
2.43.0


From 35664a42d3975d0d484b0b277cf300bd6b37774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:38 +0000
Subject: [PATCH 66/79] fix: --dc-guess none disables the initial guess

---
 ahkab/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/__main__.py b/ahkab/__main__.py
index db00f8d..06f96b4 100755
--- a/ahkab/__main__.py
+++ b/ahkab/__main__.py
@@ -147,7 +147,7 @@ def _cli():
         sys.exit(23)
 
     options.transient_no_step_control = cli_options.no_step_control
-    options.dc_use_guess = cli_options.dc_guess
+    options.dc_use_guess = cli_options.dc_guess.lower() != 'none'
     options.cli = True
     ahkab._print = cli_options.print_circuit
 
-- 
2.43.0


From a798ef916eecddd56619cd98ed52c33f0b67942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:53 +0000
Subject: [PATCH 67/79] fix: the exit status tells whether all the analyses
 succeeded

---
 ahkab/ahkab.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index eddeb37..04e1dc0 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -975,6 +975,7 @@ def main(filename, outfile="stdout", verbose=3):
     ic_list = netlist_parser.parse_ics(directives)
     _handle_netlist_ics(circ, an_list=[], ic_list=ic_list)
     results = {}
+    failed = []
     for an in netlist_parser.parse_analysis(circ, directives):
         if 'outfile' not in list(an.keys()) or not an['outfile']:
             an.update(
@@ -987,11 +988,17 @@ def main(filename, outfile="stdout", verbose=3):
             printing.print_info_line(("Requested an.:", 4), verbose)
             printing.print_analysis(an)
         results.update(run(circ, [an]))
+        if an['type'] != 'temp' and results[an['type']] is None:
+            failed.append(an['type'].upper())
 
     postproc_list = netlist_parser.parse_postproc(circ, postproc_direct)
     if len(postproc_list) > 0 and len(results):
         process_postproc(postproc_list, circ.title, results, outfile)
 
+    if failed and options.cli:
+        printing.print_general_error("Failed analyses: %s." % ", ".join(failed))
+        sys.exit(2)
+
     return results
 
 
-- 
2.43.0


From 504012fee18f913d5202e3caea9cadee10cd4f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:41 +0000
Subject: [PATCH 68/79] fix: results printed to the standard output follow what
 was printed before

---
 ahkab/csvlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ahkab/csvlib.py b/ahkab/csvlib.py
index e4f4bcf..690705c 100644
--- a/ahkab/csvlib.py
+++ b/ahkab/csvlib.py
@@ -123,6 +123,8 @@ def write_headers(filename, headers):
 def _get_fp(filename, mode="r"):
     if filename == 'stdout' or filename == '-' or filename == sys.stdout:
         if mode == 'w' or mode == 'a' or mode == 'wb' or mode == 'ab':
+            # what was printed so far comes before the data
+            sys.stdout.flush()
             fp = sys.stdout if not hasattr(sys.stdout, 'buffer') else sys.stdout.buffer
         else:
             print("(EE) Mode %s is not supported for stdout." % (mode,))
-- 
2.43.0


From ea50b501cb545a6b1e37801c5c5eb0f94fc72ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:41 +0000
Subject: [PATCH 69/79] fix: .FOUR uses whole periods of the data at integer
 array lengths

---
 ahkab/fourier.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ahkab/fourier.py b/ahkab/fourier.py
index 3740f30..23f41fc 100644
--- a/ahkab/fourier.py
+++ b/ahkab/fourier.py
@@ -192,21 +192,22 @@ def fourier(label, tran_results, fund):
         else:
             data = tran_results[label[0]] - tran_results[label[1]]
             label = '%s - %s' % (label[0], label[1])
-    ps = []
-    for i in range(1, 10, 2):
-        ps += [(tran_results.tstop - tran_results.tstart) // (i/fund)]
-    ps = [i for i in ps if i > 0]
-    nperiods = ps[int(np.ceil(len(ps)-1))]
+    # the 1e-6 is there because of the finite precision of the product
+    available = (tran_results.tstop - tran_results.tstart)*fund + 1e-6
+    if available < 1:
+        raise ValueError("fourier(): the data is shorter than one period at "
+                         "%g Hz" % fund)
+    nperiods = max(1, int(available/2))
     # setup start & stop accordingly
     start = tran_results.tstop - nperiods/fund
     stop = tran_results.tstop
     # 10 points, remember?
     sampling = 1./(2*10*fund)
-    t = np.linspace(start, stop, (stop-start)//sampling, endpoint=False)
+    t = np.linspace(start, stop, 2*10*nperiods, endpoint=False)
     idata = InterpolatedUnivariateSpline(tran_results.get_x(), data, k=2)
     f = fft.fftfreq(len(t), sampling)[::nperiods]
     F = fft.rfft(idata(t))[:-1:nperiods]
-    f = f[:len(f)/2]
+    f = f[:len(f)//2]
     THD = np.sqrt(sum(abs(F[2:])**2))/abs(F[1])
     return f, F, THD
 
-- 
2.43.0


From b2b6163dc03915c3f90df2dbaa0fddb9fed43b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:42 +0000
Subject: [PATCH 70/79] fix: the harmonic analysis of spicefft returns DC and
 the first nine harmonics

---
 ahkab/fourier.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ahkab/fourier.py b/ahkab/fourier.py
index 23f41fc..e0d61a2 100644
--- a/ahkab/fourier.py
+++ b/ahkab/fourier.py
@@ -355,7 +355,7 @@ def spicefft(label, tran_results, freq=None, **args):
     else:
         stop = tran_results.tstop
 
-    if 'np' not in args:
+    if args.get('np') is None:
         np2 = 1024
     else:
         # round to the nearest power of two
@@ -384,13 +384,17 @@ def spicefft(label, tran_results, freq=None, **args):
     fmax = args['fmax'] if 'fmax' in args else None
 
     if freq:
-        nperiods = int((stop-start)*freq)
+        # the 1e-6 is there because of the finite precision of the product
+        nperiods = int((stop-start)*freq + 1e-6)
+        if nperiods < 1:
+            raise ValueError("fft(): the data is shorter than one period at "
+                             "%g Hz" % freq)
         # adjust start so we have an integer number
         # of periods
         start = stop - nperiods/freq
-        sampling = 1./(2*freq*nperiods)
-        t = np.linspace(start, stop, ((stop-start)//sampling + 1),
-                        endpoint=False)
+        # DC and the harmonics up to the 9th
+        sampling = 1./(2*10*freq)
+        t = np.linspace(start, stop, 2*10*nperiods, endpoint=False)
     else:
         sampling = (stop-start)/np2
         t = np.linspace(start, stop, np2, endpoint=False)
@@ -405,7 +409,7 @@ def spicefft(label, tran_results, freq=None, **args):
               options.GAUSS_WINDOW: lambda x: gaussian(x, std=alpha),
               options.KAISER_WINDOW: lambda x: kaiser(x, beta=alpha)}
     f = fft.fftfreq(len(t), sampling)
-    f = f[:len(f)/2]
+    f = f[:len(f)//2]
     F = fft.rfft(idata(t)*window[window_type](len(t)))[:-1]
     if freq:
         # downsample
-- 
2.43.0


From 2700da2d3d33718bd0fb108b0b6f3bdf433c2845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:42 +0000
Subject: [PATCH 71/79] fix: start, stop and np of .FFT reach the analysis

---
 ahkab/fourier.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/ahkab/fourier.py b/ahkab/fourier.py
index e0d61a2..dbf804d 100644
--- a/ahkab/fourier.py
+++ b/ahkab/fourier.py
@@ -53,7 +53,7 @@ specs = {'fft':{'tokens':({
                           'pos':None,
                           'type':float,
                           'needed':False,
-                          'dest':'stop',
+                          'dest':'start',
                           'default':None
                          },
                          {
@@ -61,7 +61,7 @@ specs = {'fft':{'tokens':({
                           'pos':None,
                           'type':float,
                           'needed':False,
-                          'dest':'start',
+                          'dest':'stop',
                           'default':None
                          },
                          {
@@ -86,7 +86,7 @@ specs = {'fft':{'tokens':({
                           'type':float,
                           'needed':False,
                           'dest':'np',
-                          'default':0
+                          'default':None
                          },
                          {
                           'label':'format',
@@ -337,20 +337,16 @@ def spicefft(label, tran_results, freq=None, **args):
         else:
             data = tran_results[label[0]] - tran_results[label[1]]
             label = '%s - %s' % (label[0], label[1])
-    if 'start' not in args and 'from' not in args:
-        start = tran_results.tstart
-    elif 'start' in args and args['start'] is not None:
+    if args.get('start') is not None:
         start = args['start']
-    elif args['from'] is not None:
+    elif args.get('from') is not None:
         start = args['from']
     else:
         start = tran_results.tstart
 
-    if 'stop' not in args and 'to' not in args:
-        stop = tran_results.tstop
-    elif 'stop' in args and args['stop'] is not None:
+    if args.get('stop') is not None:
         stop = args['stop']
-    elif args['to'] is not None:
+    elif args.get('to') is not None:
         stop = args['to']
     else:
         stop = tran_results.tstop
-- 
2.43.0


From 88d0498cb4745d3ce900e8418b352031151cadf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:24 +0000
Subject: [PATCH 72/79] fix: .FFT accepts its ALFA parameter

---
 ahkab/netlist_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index f3236d9..45187d3 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -1408,6 +1408,8 @@ def parse_postproc(circ, postproc_direc):
                         break
                     if is_valid_value_param_string(token):
                         label, value = token.split('=')
+                        if label == 'alfa':
+                            label = 'alpha'
                     else:
                         label, value = None, token
                     assigned = False
-- 
2.43.0


From f8fc8f358a65d2c0618a0491d97d565f9577c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:15 +0000
Subject: [PATCH 73/79] fix: the unknowns of the symbolic analysis are not
 confused with the sources having the same symbol

The voltage of node 1 (or of node in) and the source V1 (Vin) have the same
symbol: the equations were solved as if they were the same variable.
---
 ahkab/symbolic.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 5830f21..a0b9bef 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -165,6 +165,12 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
     printing.print_info_line(("N matrix (reduced):", 5), verbose)
     printing.print_info_line((sympy.sstr(N), 5), verbose)
 
+    # An unknown may have the same symbol as an element of the circuit (eg the
+    # voltage of the node 'IN' and the source VIN): tell them apart.
+    known = mna.free_symbols | N.free_symbols
+    aliases = dict((symb, sympy.Dummy(symb.name)) for symb in x if symb in known)
+    x = x.xreplace(aliases)
+
     printing.print_info_line(("Building equations...", 3), verbose)
     eq = []
     for i in _to_real_list(mna * x + N):
@@ -181,8 +187,8 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
     sol = sympy.solve(
             eq, x, manual=options.symb_sympy_manual_solver, simplify=True)
 
-    for ks in list(sol.keys()):
-        sol.update({ks: sol[ks].subs(subs_g)})
+    aliases = dict((dummy, symb) for symb, dummy in aliases.items())
+    sol = dict((aliases.get(ks, ks), sol[ks].subs(subs_g)) for ks in sol)
 
     if sol == {}:
         printing.print_warning("No solutions. Check the netlist.")
-- 
2.43.0


From 35fb2ad33e8bea217e47fad740c95b74dc0c183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:15 +0000
Subject: [PATCH 74/79] fix: the symbolic analysis handles the results of
 sympy's manual solver and the absence of solutions

sympy.solve() returns lists in those cases.
---
 ahkab/symbolic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index a0b9bef..e7d0639 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -185,9 +185,11 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
     printing.print_info_line(("Solving...", 1), verbose)
 
     sol = sympy.solve(
-            eq, x, manual=options.symb_sympy_manual_solver, simplify=True)
+            eq, x, manual=options.symb_sympy_manual_solver, simplify=True,
+            dict=True)
 
     aliases = dict((dummy, symb) for symb, dummy in aliases.items())
+    sol = sol[0] if len(sol) else {}
     sol = dict((aliases.get(ks, ks), sol[ks].subs(subs_g)) for ks in sol)
 
     if sol == {}:
-- 
2.43.0


From 657be23087de86d986f3218faa517ea14ea4f846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:15 +0000
Subject: [PATCH 75/79] fix: symbolic stamps of voltage-defined elements with
 both terminals on one node

---
 ahkab/symbolic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index e7d0639..2df29af 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -480,11 +480,11 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
             mna = _expand_matrix(mna, add_a_row=True, add_a_col=True)
             N = _expand_matrix(N, add_a_row=True, add_a_col=False)
             # KCL
-            mna[elem.n1, index] = +1
-            mna[elem.n2, index] = -1
+            mna[elem.n1, index] += +1
+            mna[elem.n2, index] += -1
             # KVL
-            mna[index, elem.n1] = +1
-            mna[index, elem.n2] = -1
+            mna[index, elem.n1] += +1
+            mna[index, elem.n2] += -1
             if isinstance(elem, components.sources.VSource):
                 if elem.is_symbolic:
                     VDC = _symbol_factory(elem.part_id.upper())
-- 
2.43.0


From 8176568661022bce3949e8a1b47527b064288b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:15 +0000
Subject: [PATCH 76/79] fix: non-symbolic VCCS, inductors and couplings in the
 symbolic analysis

They crashed (missing attributes) or used the coupling coefficient as mutual
inductance.
---
 ahkab/symbolic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 2df29af..f4c0d0f 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -421,7 +421,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 if alpha in subs:  # instant substitution
                     alpha = subs[alpha]
             else:
-                alpha = elem.value
+                alpha = elem.alpha
             mna[elem.n1, elem.sn1] = mna[elem.n1, elem.sn1] + alpha
             mna[elem.n1, elem.sn2] = mna[elem.n1, elem.sn2] - alpha
             mna[elem.n2, elem.sn1] = mna[elem.n2, elem.sn1] - alpha
@@ -514,7 +514,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                         if L in subs:  # instant substitution
                             L = subs[L]
                     else:
-                        L = elem.L
+                        L = elem.value
                     mna[index, index] = -s * L
                 else:
                     pass
@@ -537,7 +537,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                     if M in subs:  # instant substitution
                         M = subs[M]
                 else:
-                    M = cd.K
+                    M = cd.M
                 # get `part_id` of the other inductor (eg. "L32")
                 other_id_wdescr = cd.get_other_inductor(elem.part_id)
                 # find its index to know which column corresponds to
-- 
2.43.0


From 2324c780d3feac957bc9eec80d0a63c604a1ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:15 +0000
Subject: [PATCH 77/79] fix: symbolic substitutions apply to every type of
 element

The symbols of the substitutions had other assumptions than those of the
circuit (sources, VCCS, and resistors with symb_formulate_with_gs).
---
 ahkab/symbolic.py | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index f4c0d0f..11e4cd8 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -597,12 +597,6 @@ def _parse_substitutions(sdict):
 
     This method is typically called by :func:`symbolic_analysis`.
 
-    .. note::
-
-        For what regards the resistors, the method will check the value
-        of ``options.symb_formulate_with_gs`` and convert the resistors
-        to conductances as needed, according to the option value.
-
     **Parameters:**
 
     sdict : a dict of strings
@@ -618,21 +612,11 @@ def _parse_substitutions(sdict):
     """
     subs = {}
     for v1, v2 in py3compat.iteritems(sdict):
-        if v1[0].upper() == 'R' and options.symb_formulate_with_gs:
-            letter_id1 = 'G' + _COND_POSTFIX
-            letter_id2 = 'G' + _COND_POSTFIX
-        else:
-            letter_id1 = v1[0].upper()
-            letter_id2 = v2[0].upper()
-        if letter_id1[0] in ('R', 'G', 'L', 'C', 'M'):
-            s1 = _symbol_factory(letter_id1 + v1[1:], real=True, positive=True)
-        else:
-            s1 = _symbol_factory(letter_id1 + v1[1:], real=True)
-        if letter_id2[0] in ('R', 'G', 'L', 'C', 'M'):
-            s2 = _symbol_factory(letter_id2 + v2[1:], real=True, positive=True)
-        else:
-            s2 = _symbol_factory(letter_id2 + v2[1:], real=True)
-        subs.update({s1:s2})
+        # the symbols of different types of elements have different assumptions
+        # (eg none for the sources, positive for the resistors)
+        for assumptions in ({}, {'real':True}, {'real':True, 'positive':True}):
+            subs.update({_symbol_factory(v1, **assumptions):
+                         _symbol_factory(v2, **assumptions)})
     return subs
 
 def _symbol_factory(name, **options):
-- 
2.43.0


From 77be20fc09f4f50508823a2a8f4a2037740c9b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:12 +0000
Subject: [PATCH 78/79] fix: the brute-force PSS runs with current versions of
 numpy

Float indices are an error, and with dense matrices the residual was computed
with an element by element product.
---
 ahkab/bfpss.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ahkab/bfpss.py b/ahkab/bfpss.py
index 5275eae..ce0cf7b 100644
--- a/ahkab/bfpss.py
+++ b/ahkab/bfpss.py
@@ -156,12 +156,9 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
     nv_indices = []
     ni_indices = []
     nv_1 = circ.get_nodes_number() - 1
-    ni = n_of_var - nv_1
     for i in range(points):
-        nv_indices += (i * mna.shape[0] * np.ones(nv_1) + \
-                      np.arange(nv_1)).tolist()
-        ni_indices += (i * mna.shape[0] * np.ones(ni) + \
-                      np.arange(nv_1, n_of_var)).tolist()
+        nv_indices += (i * n_of_var + np.arange(nv_1)).tolist()
+        ni_indices += (i * n_of_var + np.arange(nv_1, n_of_var)).tolist()
 
     converged = False
 
@@ -233,7 +230,7 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
                                             elem.g(opindex, v_ports, dpindex)
 
         J = J + CMAT
-        residuo = CMAT*x + T + Tf + Tt
+        residuo = CMAT.dot(x) + T + Tf + Tt
         if sparse:
             J = scipy.sparse.csc_matrix(J)
             lu = scipy.sparse.linalg.splu(J)
-- 
2.43.0


From 87908a250d1e199477d6d581df3c37d1e5d576af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:12 +0000
Subject: [PATCH 79/79] fix: quadratic law transistors in periodic steady state
 analyses

Elements offering gstamp() and istamp() only were not supported.
---
 ahkab/bfpss.py    | 47 +++++------------------------------------------
 ahkab/shooting.py | 43 +++++--------------------------------------
 2 files changed, 10 insertions(+), 80 deletions(-)

diff --git a/ahkab/bfpss.py b/ahkab/bfpss.py
index ce0cf7b..80c5153 100644
--- a/ahkab/bfpss.py
+++ b/ahkab/bfpss.py
@@ -183,51 +183,14 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
             T[:, 0] = 0
             td[:, 0] = 0
         for index in range(1, points):
+            block = slice(index * n_of_var, (index + 1) * n_of_var)
+            Jn = np.zeros((n_of_var, n_of_var))
             for elem in circ:
                 # build all dT(xn)/dxn (stored in J) and T(x)
                 if elem.is_nonlinear:
-                    oports = elem.get_output_ports()
-                    for opindex in range(len(oports)):
-                        dports = elem.get_drive_ports(opindex)
-                        v_ports = []
-                        for dpindex in range(len(dports)):
-                            dn1, dn2 = dports[dpindex]
-                            # build v: remember we trashed the
-                            # 0 row and 0 col of mna -> -1
-                            v = 0
-                            if dn1:
-                                v = v + x[index * n_of_var + dn1 - 1, 0]
-                            if dn2:
-                                v = v - x[index * n_of_var + dn2 - 1, 0]
-                            v_ports.append(v)
-                        # all drive ports are ready.
-                        n1, n2 = oports[opindex][0], oports[opindex][1]
-                        if n1:
-                            T[index * n_of_var + n1 - 1, 0] = T[index * n_of_var + n1 - 1, 0] + \
-                                                              elem.i(opindex, v_ports)
-                        if n2:
-                            T[index * n_of_var + n2 - 1, 0] = T[index * n_of_var + n2 - 1, 0] - \
-                                                              elem.i(opindex, v_ports)
-                        for dpindex in range(len(dports)):
-                            dn1, dn2 = dports[dpindex]
-                            if n1:
-                                if dn1:
-                                    J[index * n_of_var + n1 - 1, index * n_of_var + dn1 - 1] = \
-                                        J[index * n_of_var + n1 - 1, index * n_of_var + dn1 - 1] + \
-                                            elem.g(opindex, v_ports, dpindex)
-                                if dn2:
-                                    J[index * n_of_var + n1 - 1, index * n_of_var + dn2 - 1] =\
-                                        J[index * n_of_var + n1 - 1, index * n_of_var + dn2 - 1] - 1.0 * \
-                                            elem.g(opindex, v_ports, dpindex)
-                            if n2:
-                                if dn1:
-                                    J[index * n_of_var + n2 - 1, index * n_of_var + dn1 - 1] = \
-                                        J[index * n_of_var + n2 - 1, index * n_of_var + dn1 - 1] - 1.0 * \
-                                            elem.g(opindex, v_ports, dpindex)
-                                if dn2:
-                                    J[index * n_of_var + n2 - 1, index * n_of_var + dn2 - 1] =\
-                                        J[index * n_of_var + n2 - 1, index * n_of_var + dn2 - 1] + \
-                                            elem.g(opindex, v_ports, dpindex)
+                    dc_analysis._update_J_and_Tx(Jn, T[block], x[block], elem,
+                                                 index * step)
+            J[block, block] = Jn
 
         J = J + CMAT
         residuo = CMAT.dot(x) + T + Tf + Tt
diff --git a/ahkab/shooting.py b/ahkab/shooting.py
index 5cbf928..691cf65 100644
--- a/ahkab/shooting.py
+++ b/ahkab/shooting.py
@@ -195,7 +195,7 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
             else:
                 xn_minus_1 = x[index - 1]
             MAass_variable, Tass_variable = _get_variable_MAass_and_Tass(circ,
-                    x[index], xn_minus_1, mna, D, step, n_of_var)
+                    x[index], xn_minus_1, mna, D, step, n_of_var, index * step)
             MAass_variable_vector.append(MAass_variable + MAass_static)
             Tass_variable_vector.append(Tass_variable +
                                         Tass_static_vector[index])
@@ -308,50 +308,17 @@ def _build_Tass_static_vector(circ, Tf, points, step, tick, n_of_var, verbose=3)
     return Tass_vector
 
 
-def _get_variable_MAass_and_Tass(circ, xi, xi_minus_1, M, D, step, n_of_var):
-    Tass = np.zeros((n_of_var,))
+def _get_variable_MAass_and_Tass(circ, xi, xi_minus_1, M, D, step, n_of_var, time):
+    Tass = np.zeros((n_of_var, 1))
     J = np.zeros((n_of_var, n_of_var))
     (C1, C0) = implicit_euler.get_df_coeff(step)
 
     for elem in circ:
         # build all dT(xn)/dxn (stored in J) and T(x)
         if elem.is_nonlinear:
-            output_ports = elem.get_output_ports()
-            for index in range(len(output_ports)):
-                n1, n2 = output_ports[index]
-                ports = elem.get_drive_ports(index)
-                v_ports = []
-                for port in ports:
-                    v = 0  # build v: remember we trashed the 0 row and 0 col of mna -> -1
-                    if port[0]:
-                        v = v + xi[port[0] - 1]
-                    if port[1]:
-                        v = v - xi[port[1] - 1]
-                    v_ports.append(v)
-                if n1:
-                    Tass[n1 - 1] = Tass[n1 - 1] + elem.i(index, v_ports)
-                if n2:
-                    Tass[n2 - 1] = Tass[n2 - 1] - elem.i(index, v_ports)
-                for pindex in range(len(ports)):
-                    if n1:
-                        if ports[pindex][0]:
-                            J[n1 - 1, ports[pindex][0] - 1] = \
-                                J[n1 - 1, ports[pindex][0] - 1] + \
-                                elem.g(index, v_ports, pindex)
-                        if ports[pindex][1]:
-                            J[n1 - 1, ports[pindex][1] - 1] = \
-                                J[n1 - 1, ports[pindex][1] - 1] - \
-                                elem.g(index, v_ports, pindex)
-                    if n2:
-                        if ports[pindex][0]:
-                            J[n2 - 1, ports[pindex][0] - 1] = \
-                                J[n2 - 1, ports[pindex][0] - 1] - \
-                                elem.g(index, v_ports, pindex)
-                        if ports[pindex][1]:
-                            J[n2 - 1, ports[pindex][1] - 1] = \
-                                J[n2 - 1, ports[pindex][1] - 1] + \
-                                elem.g(index, v_ports, pindex)
+            dc_analysis._update_J_and_Tx(J, Tass, xi.reshape(-1, 1), elem, time)
 
+    Tass = Tass.reshape(-1)
     Tass = Tass + np.dot(D*C1, xi) + np.dot(M, xi) + np.dot(D * C0, xi_minus_1)
 
     return J, Tass
-- 
2.43.0

