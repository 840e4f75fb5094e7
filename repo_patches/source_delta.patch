From e0e23b6f65262058bc4424130cc05e4c664daaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 01/32] fix: vapor(ice=True) indexes the temperature profile
 instead of calling it

---
 pyrtlib/rt_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/rt_equation.py b/pyrtlib/rt_equation.py
index fd55cc1..11d2013 100644
--- a/pyrtlib/rt_equation.py
+++ b/pyrtlib/rt_equation.py
@@ -66,7 +66,7 @@ class RTEquation:
         if ice:
             # over ice if tk < 263.16
             indx = np.nonzero(t < 263.16)
-            y = 273.16 / t(indx)
+            y = 273.16 / t[indx]
             es[indx] = np.dot(-9.09718, (y - 1.0)) - np.dot(
                 3.56654, np.log10(y)) + np.dot(0.876793, (1.0 - (1.0 / y))) + np.log10(6.1071)
 
-- 
2.43.0


From 2c946c63ca5f2a9ee3e380ebc868bed8d129ec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 02/32] fix: cloud_integrated_density includes the layer below
 the cloud top

---
 pyrtlib/rt_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/rt_equation.py b/pyrtlib/rt_equation.py
index 11d2013..e51e4eb 100644
--- a/pyrtlib/rt_equation.py
+++ b/pyrtlib/rt_equation.py
@@ -356,7 +356,7 @@ class RTEquation:
         ncld = len(lbase)
         scld = 0.0
         for i in range(0, ncld):
-            for j in range(int(lbase[i]) + 1, int(ltop[i])):
+            for j in range(int(lbase[i]) + 1, int(ltop[i]) + 1):
                 scld += np.dot(ds[j],
                                (np.dot(0.5, (dencld[j] + dencld[j - 1]))))
 
-- 
2.43.0


From 175c52adf5efb9311507de32235a6ef0a645787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 03/32] fix: self-continuum temperature exponent in the R23SD
 and R24 water vapour models

---
 pyrtlib/absorption_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index dab65a8..ca47218 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -534,7 +534,7 @@ class H2OAbsModel(AbsModel):
                 if self.h2oll.cs > 0:
 
                     # npp_cs = np.zeros(1)
-                    con = self.h2oll.cs * ti * self.h2oll.xcs
+                    con = self.h2oll.cs * ti ** self.h2oll.xcs
                     # for i in len(frq):
                     npp_cs = con
                 else:
-- 
2.43.0


From 9dc7c6d3a7e00cfc983fe1a8e9465e66881162c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 04/32] fix: liquid water absorption is available for every
 implemented model

---
 pyrtlib/absorption_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index ca47218..861aa64 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -163,7 +163,8 @@ class LiqAbsModel(AbsModel):
             fs = np.dot(39.8, fp)
             eps = (eps0 - eps1) / complex(1.0, freq / fp) + \
                 (eps1 - eps2) / complex(1.0, freq / fs) + eps2
-        elif LiqAbsModel.model in ['R17', 'R16', 'R19', 'R20', 'R19SD', 'R22SD', 'R23', 'R23SD', 'R24']:
+        elif LiqAbsModel.model in ['R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22', 'R22SD', 'R23', 'R23SD',
+                                   'R24', 'MWL24']:
             eps = dilec12(freq, temp)
         else:
             raise ValueError(
-- 
2.43.0


From c99576e7bfc443b3a8c51700cf503e4fb0428953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 05/32] fix: detect decreasing and non-monotonic height
 profiles

---
 pyrtlib/tb_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 5ec702c..cb8b6e2 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -66,9 +66,9 @@ class TbCloudRTE(object):
         self.amu = amu
 
         dz = np.ediff1d(self.z)
-        if all(dz) > 0:
+        if np.all(dz > 0):
             pass
-        elif all(dz) < 0:
+        elif np.all(dz < 0):
             self.z = z[::-1]
             self.p = p[::-1]
             self.tk = t[::-1]
-- 
2.43.0


From 3a222ee2257b4c2c31e0e7e7d7cb6b7d5c42ed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 06/32] fix: flip the ozone profile together with the other
 profiles

---
 pyrtlib/tb_spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index cb8b6e2..9e3db0b 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -73,6 +73,7 @@ class TbCloudRTE(object):
             self.p = p[::-1]
             self.tk = t[::-1]
             self.rh = rh[::-1]
+            self.o3n = o3n[::-1] if isinstance(o3n, np.ndarray) else o3n
             print("Profile flipped up/douwn")
         else:
             raise SystemExit("ERROR: input profile seems incorrect. "
-- 
2.43.0


From 53737b321121bdd5adb34993f6cd8a8b4634d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 07/32] fix: do not modify the caller's height profile

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 9e3db0b..0a5d637 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -100,7 +100,7 @@ class TbCloudRTE(object):
 
         # convert height profile to (km above antenna height)
         self.z0 = self.z[0]
-        self.z -= self.z0
+        self.z = self.z - self.z0
 
         # Allocation
         self.sptaudry = np.zeros((self.nf, self.nang))
-- 
2.43.0


From 4ef1e8487baa9a9853a6e25af59ac9cad38021a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 08/32] fix: absorption model given at creation

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 0a5d637..7daf969 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -125,7 +125,7 @@ class TbCloudRTE(object):
         self.sice = np.zeros((1, self.nang))
 
         if absmdl:
-            self.init_absmdll(absmdl)
+            self.init_absmdl(absmdl)
 
     @property
     def satellite(self) -> bool:
-- 
2.43.0


From 480b7faf1cbd0db439297bd040da3718c15e2a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 09/32] fix: every run starts from fresh results

---
 pyrtlib/tb_spectrum.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 7daf969..39268e7 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -102,6 +102,13 @@ class TbCloudRTE(object):
         self.z0 = self.z[0]
         self.z = self.z - self.z0
 
+        self._init_results()
+
+        if absmdl:
+            self.init_absmdl(absmdl)
+
+    def _init_results(self) -> None:
+        """Allocate the results of a run."""
         # Allocation
         self.sptaudry = np.zeros((self.nf, self.nang))
         self.sptauwet = np.zeros((self.nf, self.nang))
@@ -124,9 +131,6 @@ class TbCloudRTE(object):
         self.sliq = np.zeros((1, self.nang))
         self.sice = np.zeros((1, self.nang))
 
-        if absmdl:
-            self.init_absmdl(absmdl)
-
     @property
     def satellite(self) -> bool:
         """If :code:`True` computes an upward-propagating brightness-temperature spectrum
@@ -307,6 +311,7 @@ class TbCloudRTE(object):
         """
 
         self._init_linelist()
+        self._init_results()
 
         if self.cloudy and LiqAbsModel.model in ['R98', 'R03']:
             warnings.warn(
-- 
2.43.0


From ccd575669816749bdbb6fd6fa50901baaf642570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 10/32] fix: spectroscopic parameters of every implemented
 model

---
 pyrtlib/absorption_model.py               | 16 ++++++++-------
 pyrtlib/uncertainty/absmod_uncertainty.py | 25 +++++++++++++++--------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index 861aa64..7a7219d 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -455,7 +455,7 @@ class H2OAbsModel(AbsModel):
 
         """
         if amu:
-            if H2OAbsModel.model > 'R17':
+            if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
                 self.h2oll.cf = amu['con_Cf'].value
                 self.h2oll.cs = amu['con_Cs'].value
             else:
@@ -469,12 +469,12 @@ class H2OAbsModel(AbsModel):
             self.h2oll.w0s = amu['gamma_w'].value / 1000.0
             self.h2oll.x = amu['n_a'].value
             self.h2oll.xs = amu['n_w'].value
-            if H2OAbsModel.model > 'R17':
+            if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
                 self.h2oll.sh = amu['delta_a'].value / 1000.0
                 self.h2oll.shs = amu['delta_w'].value / 1000.0
                 self.h2oll.xh = amu['n_da'].value
                 self.h2oll.xhs = amu['n_dw'].value
-            else:
+            elif H2OAbsModel.model != 'R98':
                 self.h2oll.sr = amu['SR'].value
             self.h2oll.fl = amu['FL'].value
 
@@ -782,16 +782,18 @@ class O2AbsModel(AbsModel):
             self.o2ll.x = amu['X05'].value
             self.o2ll.snr = amu['Snr'].value
             self.o2ll.ns = amu['O2_nS'].value
-            if O2AbsModel.model > 'R19':
-                self.o2ll.y0 = amu['y0'].value
+            if O2AbsModel.model not in ['R98', 'R03', 'R17', 'R18', 'R19', 'R19SD']:
                 self.o2ll.y1 = amu['y1'].value
                 self.o2ll.dnu0 = amu['dnu0'].value
                 self.o2ll.dnu1 = amu['dnu1'].value
             else:
-                self.o2ll.y300 = amu['Y300'].value
-                self.o2ll.y300[34:49] = amu['Y300_NL'].value[34:49]
                 self.o2ll.v = amu['O2_V'].value
                 self.o2ll.v[34:49] = amu['O2_V_NL'].value[34:49]
+            if O2AbsModel.model not in ['R98', 'R03', 'R17', 'R18', 'R19', 'R19SD', 'R23', 'R24']:
+                self.o2ll.y0 = amu['y0'].value
+            else:
+                self.o2ll.y300 = amu['Y300'].value
+                self.o2ll.y300[34:49] = amu['Y300_NL'].value[34:49]
 
         # *** add the following lines *************************
         db2np = np.log(10.0) * 0.1
diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index 362b28c..ae4dc10 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -124,7 +124,7 @@ class SpectroscopicParameter:
 
             "wv_nS": SpectroscopicParameter(value=.0, uncer=.0, name='Intensity temperature-dependence exponent'),
         }
-        if H2OAbsModel.model > 'R17':
+        if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
             h2o_sp_ = {
                 "con_Cf_factr": SpectroscopicParameter(value=1, uncer=.0, units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
                 "con_Cs_factr": SpectroscopicParameter(value=1, uncer=.0, units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
@@ -135,10 +135,11 @@ class SpectroscopicParameter:
             }
         else:
             h2o_sp_ = {
-                "SR": SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift to width ratio'),
                 "con_Cf_factr": SpectroscopicParameter(value=1.11, uncer=np.sqrt(0.098 ** 2 + 0.03 ** 2), units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
                 "con_Cs_factr": SpectroscopicParameter(value=0.79, uncer=np.sqrt(0.17 ** 2 + 0.06 ** 2), units='unitless', refer='Turner et al., TGRSS, 2009', name=''), }
 
+            if H2OAbsModel.model != 'R98':
+                h2o_sp_["SR"] = SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift to width ratio')
         h2o_sp = {**h2o_sp, **h2o_sp_}
 
         return h2o_sp
@@ -172,19 +173,27 @@ class SpectroscopicParameter:
             "O2_nS": SpectroscopicParameter(value=2.0, uncer=.0, units='unitless',  name='Intensity temperature-dependence exponent'),
             "w2a": SpectroscopicParameter(value=1.2, uncer=.0, units='unitless', name='Water-to-air broadening ratio'),
         }
-        if O2AbsModel.model > 'R19':
+        if O2AbsModel.model in ['R98', 'R03', 'R17', 'R18', 'R19', 'R19SD']:
             o2_sp_ = {
-                "y0": SpectroscopicParameter(value=ll.y0, uncer=.0, name=''),
+                "O2_V": SpectroscopicParameter(value=ll.v, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='O2 line mixing temperature dependence'),
+                "O2_V_NL": SpectroscopicParameter(value=ll.v, uncer=.0, units='1/mb', name='O2 line mixing temperature dependence for neglected lines (NL)'),
+                "Y300": SpectroscopicParameter(value=ll.y300, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='Line mixing coefficients (single lines)'),
+                "Y300_NL": SpectroscopicParameter(value=ll.y300, uncer=.0, units='1/mb', name='Line mixing coefficients for neglected lines (NL)'),
+            }
+        elif O2AbsModel.model in ['R23', 'R24']:
+            o2_sp_ = {
+                "Y300": SpectroscopicParameter(value=ll.y300, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='Line mixing coefficients (single lines)'),
+                "Y300_NL": SpectroscopicParameter(value=ll.y300, uncer=.0, units='1/mb', name='Line mixing coefficients for neglected lines (NL)'),
                 "y1": SpectroscopicParameter(value=ll.y1, uncer=.0, name=''),
                 "dnu0": SpectroscopicParameter(value=ll.dnu0, uncer=.0, name=''),
                 "dnu1": SpectroscopicParameter(value=ll.dnu1, uncer=.0, name=''),
             }
         else:
             o2_sp_ = {
-                "O2_V": SpectroscopicParameter(value=ll.v, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='O2 line mixing temperature dependence'),
-                "O2_V_NL": SpectroscopicParameter(value=ll.v, uncer=.0, units='1/mb', name='O2 line mixing temperature dependence for neglected lines (NL)'),
-                "Y300": SpectroscopicParameter(value=ll.y300, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='Line mixing coefficients (single lines)'),
-                "Y300_NL": SpectroscopicParameter(value=ll.y300, uncer=.0, units='1/mb', name='Line mixing coefficients for neglected lines (NL)'),
+                "y0": SpectroscopicParameter(value=ll.y0, uncer=.0, name=''),
+                "y1": SpectroscopicParameter(value=ll.y1, uncer=.0, name=''),
+                "dnu0": SpectroscopicParameter(value=ll.dnu0, uncer=.0, name=''),
+                "dnu1": SpectroscopicParameter(value=ll.dnu1, uncer=.0, name=''),
             }
         o2_sp = {**o2_sp, **o2_sp_}
 
-- 
2.43.0


From 14e736c50e185beef6c55b3f6aa9487dc163016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 11/32] fix: absorption does not overwrite the given line
 mixing parameters

---
 pyrtlib/absorption_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index 7a7219d..bb49fdc 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -787,12 +787,12 @@ class O2AbsModel(AbsModel):
                 self.o2ll.dnu0 = amu['dnu0'].value
                 self.o2ll.dnu1 = amu['dnu1'].value
             else:
-                self.o2ll.v = amu['O2_V'].value
+                self.o2ll.v = amu['O2_V'].value.copy()
                 self.o2ll.v[34:49] = amu['O2_V_NL'].value[34:49]
             if O2AbsModel.model not in ['R98', 'R03', 'R17', 'R18', 'R19', 'R19SD', 'R23', 'R24']:
                 self.o2ll.y0 = amu['y0'].value
             else:
-                self.o2ll.y300 = amu['Y300'].value
+                self.o2ll.y300 = amu['Y300'].value.copy()
                 self.o2ll.y300[34:49] = amu['Y300_NL'].value[34:49]
 
         # *** add the following lines *************************
-- 
2.43.0


From d379350e3c9d73aa07e57502225fb64e76794123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 12/32] fix: spectroscopic parameters do not share storage

---
 pyrtlib/uncertainty/absmod_uncertainty.py | 64 +++++++++++------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index ae4dc10..3c5cc21 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -113,14 +113,14 @@ class SpectroscopicParameter:
             "con_Xf": SpectroscopicParameter(value=ll.xcf, uncer=.0, units='unitless', name='Foreign broadening temperature dependence exponents'),
             "con_Xs": SpectroscopicParameter(value=ll.xcs, uncer=.0, units='unitless', name='Self broadening temperature dependence exponents'),
 
-            "FL": SpectroscopicParameter(value=ll.fl, uncer=np.zeros(len(ll.fl)), units='GHz', name='Central frequency line'),
-            "S": SpectroscopicParameter(value=ll.s1, uncer=np.zeros(len(ll.fl)), units='Hz*cm^2', name='Line intensity (or strength)'),
-            "B2": SpectroscopicParameter(value=ll.b2, uncer=.0, units='unitless', name='Temperature coefficient of intensity'),
+            "FL": SpectroscopicParameter(value=np.copy(ll.fl), uncer=np.zeros(len(ll.fl)), units='GHz', name='Central frequency line'),
+            "S": SpectroscopicParameter(value=np.copy(ll.s1), uncer=np.zeros(len(ll.fl)), units='Hz*cm^2', name='Line intensity (or strength)'),
+            "B2": SpectroscopicParameter(value=np.copy(ll.b2), uncer=.0, units='unitless', name='Temperature coefficient of intensity'),
 
             "gamma_a": SpectroscopicParameter(value=ll.w0*1e3, uncer=np.zeros(len(ll.fl)), units='MHz/mb', name='Air induced broadening coefficients'),
             "gamma_w": SpectroscopicParameter(value=ll.w0s*1e3, uncer=np.zeros(len(ll.fl)), units='MHz/mb', name='Water induced broadening coefficients'),
-            "n_a": SpectroscopicParameter(value=ll.x, uncer=np.zeros(len(ll.fl)), units='unitless', name='Temperature-dependence exponent of air'),
-            "n_w": SpectroscopicParameter(value=ll.xs, uncer=np.zeros(len(ll.fl)), units='unitless', name='Temperature-dependence exponent of water'),
+            "n_a": SpectroscopicParameter(value=np.copy(ll.x), uncer=np.zeros(len(ll.fl)), units='unitless', name='Temperature-dependence exponent of air'),
+            "n_w": SpectroscopicParameter(value=np.copy(ll.xs), uncer=np.zeros(len(ll.fl)), units='unitless', name='Temperature-dependence exponent of water'),
 
             "wv_nS": SpectroscopicParameter(value=.0, uncer=.0, name='Intensity temperature-dependence exponent'),
         }
@@ -128,8 +128,8 @@ class SpectroscopicParameter:
             h2o_sp_ = {
                 "con_Cf_factr": SpectroscopicParameter(value=1, uncer=.0, units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
                 "con_Cs_factr": SpectroscopicParameter(value=1, uncer=.0, units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
-                "n_da": SpectroscopicParameter(value=ll.xh, uncer=np.zeros(len(ll.fl)), name='T-exponent of air-shifting'),
-                "n_dw": SpectroscopicParameter(value=ll.xhs, uncer=np.zeros(len(ll.fl)), name='T-exponent of water-shifting'),
+                "n_da": SpectroscopicParameter(value=np.copy(ll.xh), uncer=np.zeros(len(ll.fl)), name='T-exponent of air-shifting'),
+                "n_dw": SpectroscopicParameter(value=np.copy(ll.xhs), uncer=np.zeros(len(ll.fl)), name='T-exponent of water-shifting'),
                 "delta_a": SpectroscopicParameter(value=ll.sh*1e3, uncer=np.zeros(len(ll.fl)), units='MHz/mb', name='Air induced shifting coefficient'),
                 "delta_w": SpectroscopicParameter(value=ll.shs*1e3, uncer=np.zeros(len(ll.fl)), units='MHz/mb', name='Water induced shifting coefficient'),
             }
@@ -139,7 +139,7 @@ class SpectroscopicParameter:
                 "con_Cs_factr": SpectroscopicParameter(value=0.79, uncer=np.sqrt(0.17 ** 2 + 0.06 ** 2), units='unitless', refer='Turner et al., TGRSS, 2009', name=''), }
 
             if H2OAbsModel.model != 'R98':
-                h2o_sp_["SR"] = SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift to width ratio')
+                h2o_sp_["SR"] = SpectroscopicParameter(value=np.copy(ll.sr), uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift to width ratio')
         h2o_sp = {**h2o_sp, **h2o_sp_}
 
         return h2o_sp
@@ -160,11 +160,11 @@ class SpectroscopicParameter:
         ll = O2AbsModel.o2ll
 
         o2_sp = {
-            "O2FL": SpectroscopicParameter(value=ll.f, uncer=.0, units='GHz', name='Line frequency'),
-            "O2S": SpectroscopicParameter(value=ll.s300, uncer=np.zeros(len(ll.f)), units='cm2*Hz', name='Line intensity (or strength)'),
-            "O2BE": SpectroscopicParameter(value=ll.be, uncer=.0, units='unitless', name='Temperature exponent for intensity'),
-            "O2gamma": SpectroscopicParameter(value=ll.w300, uncer=np.zeros(len(ll.f)), units='MHz/mb', name='Self broadening temperature dependence exponents'),
-            "O2gamma_NL": SpectroscopicParameter(value=ll.w300, uncer=.0, units='MHz/mb', name='Self broadening temperature dependence exponents for neglected lines (NL)'),
+            "O2FL": SpectroscopicParameter(value=np.copy(ll.f), uncer=.0, units='GHz', name='Line frequency'),
+            "O2S": SpectroscopicParameter(value=np.copy(ll.s300), uncer=np.zeros(len(ll.f)), units='cm2*Hz', name='Line intensity (or strength)'),
+            "O2BE": SpectroscopicParameter(value=np.copy(ll.be), uncer=.0, units='unitless', name='Temperature exponent for intensity'),
+            "O2gamma": SpectroscopicParameter(value=np.copy(ll.w300), uncer=np.zeros(len(ll.f)), units='MHz/mb', name='Self broadening temperature dependence exponents'),
+            "O2gamma_NL": SpectroscopicParameter(value=np.copy(ll.w300), uncer=.0, units='MHz/mb', name='Self broadening temperature dependence exponents for neglected lines (NL)'),
             "Snr": SpectroscopicParameter(value=1.6e-17, uncer=.0, units='Hz*cm2/GHz2', name='Line intensity of non-resonant pseudo-line'),
             "WB300": SpectroscopicParameter(value=ll.wb300, uncer=.0, units='MHz/mb', name='Pressure broadening of non-resonant pseudo-line'),
             "X11": SpectroscopicParameter(value=0.785, uncer=.0, units='unitless', name='Temperature dependence of broadening coefficient'),
@@ -175,25 +175,25 @@ class SpectroscopicParameter:
         }
         if O2AbsModel.model in ['R98', 'R03', 'R17', 'R18', 'R19', 'R19SD']:
             o2_sp_ = {
-                "O2_V": SpectroscopicParameter(value=ll.v, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='O2 line mixing temperature dependence'),
-                "O2_V_NL": SpectroscopicParameter(value=ll.v, uncer=.0, units='1/mb', name='O2 line mixing temperature dependence for neglected lines (NL)'),
-                "Y300": SpectroscopicParameter(value=ll.y300, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='Line mixing coefficients (single lines)'),
-                "Y300_NL": SpectroscopicParameter(value=ll.y300, uncer=.0, units='1/mb', name='Line mixing coefficients for neglected lines (NL)'),
+                "O2_V": SpectroscopicParameter(value=np.copy(ll.v), uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='O2 line mixing temperature dependence'),
+                "O2_V_NL": SpectroscopicParameter(value=np.copy(ll.v), uncer=.0, units='1/mb', name='O2 line mixing temperature dependence for neglected lines (NL)'),
+                "Y300": SpectroscopicParameter(value=np.copy(ll.y300), uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='Line mixing coefficients (single lines)'),
+                "Y300_NL": SpectroscopicParameter(value=np.copy(ll.y300), uncer=.0, units='1/mb', name='Line mixing coefficients for neglected lines (NL)'),
             }
         elif O2AbsModel.model in ['R23', 'R24']:
             o2_sp_ = {
-                "Y300": SpectroscopicParameter(value=ll.y300, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='Line mixing coefficients (single lines)'),
-                "Y300_NL": SpectroscopicParameter(value=ll.y300, uncer=.0, units='1/mb', name='Line mixing coefficients for neglected lines (NL)'),
-                "y1": SpectroscopicParameter(value=ll.y1, uncer=.0, name=''),
-                "dnu0": SpectroscopicParameter(value=ll.dnu0, uncer=.0, name=''),
-                "dnu1": SpectroscopicParameter(value=ll.dnu1, uncer=.0, name=''),
+                "Y300": SpectroscopicParameter(value=np.copy(ll.y300), uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='Line mixing coefficients (single lines)'),
+                "Y300_NL": SpectroscopicParameter(value=np.copy(ll.y300), uncer=.0, units='1/mb', name='Line mixing coefficients for neglected lines (NL)'),
+                "y1": SpectroscopicParameter(value=np.copy(ll.y1), uncer=.0, name=''),
+                "dnu0": SpectroscopicParameter(value=np.copy(ll.dnu0), uncer=.0, name=''),
+                "dnu1": SpectroscopicParameter(value=np.copy(ll.dnu1), uncer=.0, name=''),
             }
         else:
             o2_sp_ = {
-                "y0": SpectroscopicParameter(value=ll.y0, uncer=.0, name=''),
-                "y1": SpectroscopicParameter(value=ll.y1, uncer=.0, name=''),
-                "dnu0": SpectroscopicParameter(value=ll.dnu0, uncer=.0, name=''),
-                "dnu1": SpectroscopicParameter(value=ll.dnu1, uncer=.0, name=''),
+                "y0": SpectroscopicParameter(value=np.copy(ll.y0), uncer=.0, name=''),
+                "y1": SpectroscopicParameter(value=np.copy(ll.y1), uncer=.0, name=''),
+                "dnu0": SpectroscopicParameter(value=np.copy(ll.dnu0), uncer=.0, name=''),
+                "dnu1": SpectroscopicParameter(value=np.copy(ll.dnu1), uncer=.0, name=''),
             }
         o2_sp = {**o2_sp, **o2_sp_}
 
@@ -215,12 +215,12 @@ class SpectroscopicParameter:
         ll = O3AbsModel.o3ll
 
         o3_sp = {
-            "O3_FL": SpectroscopicParameter(value=ll.fl, uncer=np.zeros(len(ll.fl)), units='GHz', name='Line frequency'),
-            "O3_S1": SpectroscopicParameter(value=ll.s1, uncer=np.zeros(len(ll.fl)), units='Hz*cm^2', name='Line intensity (or strength)'),
-            "O3_B": SpectroscopicParameter(value=ll.b, uncer=np.zeros(len(ll.fl)), units='unitless', name='Temperature Coefficient of intensity'),
-            "O3_W": SpectroscopicParameter(value=ll.w, uncer=np.zeros(len(ll.fl)), units='GHz/mb', name='Air-pressure broadening'),
-            "O3_X": SpectroscopicParameter(value=ll.x, uncer=np.zeros(len(ll.fl)), units='unitless', name='Temperature exponent of air broadening'),
-            "O3_SR": SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift-to-width ratio'),
+            "O3_FL": SpectroscopicParameter(value=np.copy(ll.fl), uncer=np.zeros(len(ll.fl)), units='GHz', name='Line frequency'),
+            "O3_S1": SpectroscopicParameter(value=np.copy(ll.s1), uncer=np.zeros(len(ll.fl)), units='Hz*cm^2', name='Line intensity (or strength)'),
+            "O3_B": SpectroscopicParameter(value=np.copy(ll.b), uncer=np.zeros(len(ll.fl)), units='unitless', name='Temperature Coefficient of intensity'),
+            "O3_W": SpectroscopicParameter(value=np.copy(ll.w), uncer=np.zeros(len(ll.fl)), units='GHz/mb', name='Air-pressure broadening'),
+            "O3_X": SpectroscopicParameter(value=np.copy(ll.x), uncer=np.zeros(len(ll.fl)), units='unitless', name='Temperature exponent of air broadening'),
+            "O3_SR": SpectroscopicParameter(value=np.copy(ll.sr), uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift-to-width ratio'),
         }
 
         return o3_sp
-- 
2.43.0


From cd5d141b16bd449416996893156924a6b0743f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 13/32] fix: reload the ozone line list at every run

---
 pyrtlib/tb_spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 39268e7..37cf725 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -12,7 +12,7 @@ from typing import Dict, Tuple, Union, Optional
 import numpy as np
 import pandas as pd
 
-from .absorption_model import O2AbsModel, H2OAbsModel, N2AbsModel, LiqAbsModel
+from .absorption_model import O2AbsModel, H2OAbsModel, N2AbsModel, LiqAbsModel, O3AbsModel
 from .rt_equation import RTEquation
 
 
@@ -197,6 +197,8 @@ class TbCloudRTE(object):
     def _init_linelist(self):
         H2OAbsModel.set_ll()
         O2AbsModel.set_ll()
+        if isinstance(self.o3n, np.ndarray) and O3AbsModel.model in O3AbsModel.implemented_models()['Ozone']:
+            O3AbsModel.set_ll()
 
     def init_cloudy(self, cldh: np.ndarray, denice: np.ndarray, denliq: np.ndarray) -> None:
         """Initialize cloudy conditions parameters.
-- 
2.43.0


From 9ab21c65ca6c13b2370d84bf9769dad8192ba3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 14/32] fix: extrapolation of profiles reaching 50 km, and
 repeated extrapolations

---
 pyrtlib/climatology/extrapolation.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index e185918..5a51592 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -311,34 +311,33 @@ class ProfileExtrapolation:
             Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray]: Height, Pressure, Temperature, RH extrapolated profiles
         """
 
+        h_km = z
         if np.max(z) < 50:
             h_km = np.append(z, np.arange(max(z)+3.2, 50, 3.2))
-            idx = np.where(self._height > np.max(h_km))
-            self._height = np.append(h_km, self._height[idx])
-        else:
-            self._height = np.append(z, self._height[idx])
+        idx = np.where(self._height > np.max(h_km))
+        height = np.append(h_km, self._height[idx])
 
         season = self._get_season(lat, month)
-        idx = np.where(self._height > np.max(z))
+        idx = np.where(height > np.max(z))
 
         p, t, rh = q
 
         if season != 'standard':
-            tt = self.temperature(lat, self._height, season)
-            pp = self.pressure(lat, self._height, season)
-            wvd = self.water_vapour_density(lat, self._height, season)
+            tt = self.temperature(lat, height, season)
+            pp = self.pressure(lat, height, season)
+            wvd = self.water_vapour_density(lat, height, season)
         else:
-            tt = self.instance.standard_temperature(self._height)
-            pp = self.instance.standard_pressure(self._height)
+            tt = self.instance.standard_temperature(height)
+            pp = self.instance.standard_pressure(height)
             wvd = self.instance.standard_water_vapour_density(
-                self._height)
+                height)
 
         pres = np.append(p, pp[idx])
         temp = np.append(t, tt[idx])
         _rh = rho2rh(wvd, temp, pres)[0]
         rh = np.append(rh, _rh[idx])
 
-        return self._height, pres, temp, rh
+        return height, pres, temp, rh
 
 
 class _ITU835_6():
-- 
2.43.0


From 6af9571f944fb0a285fff7270b0b8dbf5f504486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 15/32] fix: extrapolated relative humidity is a fraction like
 the given one

---
 pyrtlib/climatology/extrapolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index 5a51592..d44fa8c 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -335,7 +335,7 @@ class ProfileExtrapolation:
         pres = np.append(p, pp[idx])
         temp = np.append(t, tt[idx])
         _rh = rho2rh(wvd, temp, pres)[0]
-        rh = np.append(rh, _rh[idx])
+        rh = np.append(rh, _rh[idx] / 100)
 
         return height, pres, temp, rh
 
-- 
2.43.0


From 708b6d83e4fbba3c044af882e7721ea4333da909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 16/32] fix: mean frequency of each channel in the weighting
 functions plot

---
 pyrtlib/weighting_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index 9100e7a..57c69b2 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -228,10 +228,11 @@ class WeightingFunctions(object):
         # plt.rc('mathtext', fontset='cm')
         # plt.rc('axes.formatter', use_mathtext=False)
 
+        frequencies = self.frequencies
         if self.bandpass is not None:
             wgt = self._mean_channel(wgt, self.bandpass)
-            self.frequencies = np.array(
-                [np.mean(self.frequencies[i:i+j]) for i, j in enumerate(self.bandpass)])
+            frequencies = self._mean_channel(
+                frequencies[:, np.newaxis], self.bandpass)[:, 0]
 
         # if yaxis == 'p':
         #     y = self.pinterp[:-1]
@@ -247,7 +248,7 @@ class WeightingFunctions(object):
 
         plt.figure(figsize=kwargs.get('figsize', (5, 10)),
                    dpi=kwargs.get('dpi', 150))
-        for i, frequenciy in enumerate(self.frequencies):
+        for i, frequenciy in enumerate(frequencies):
             if self.satellite:
                 line_s = 'dashed' if y[np.argmax(wgt[i, 1:])] == 0. else None
                 plt.plot(wgt[i, 1:]/normalize[i], y, linestyle=line_s,
-- 
2.43.0


From bf119a18d78fe2591d9615ea6e68f198603b061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 17/32] fix: plot more weighting functions than levels

---
 pyrtlib/weighting_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index 57c69b2..0a57f21 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -244,7 +244,7 @@ class WeightingFunctions(object):
         units = 'km'
 
         normalize = np.max(
-            wgt, axis=1) if normalized else np.ones(wgt.shape[1])
+            wgt, axis=1) if normalized else np.ones(wgt.shape[0])
 
         plt.figure(figsize=kwargs.get('figsize', (5, 10)),
                    dpi=kwargs.get('dpi', 150))
-- 
2.43.0


From 74ac2e6a5e2775ac6373a80a5fec5bf7c2d913d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 18/32] fix: opposite sideband of the MWS 57.290344+-0.217 GHz
 channel

---
 pyrtlib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index 2e6682a..aa25498 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -995,7 +995,7 @@ def get_frequencies_sat(instrument: str) -> np.ndarray:
         freq = np.array([23.8, 31.4, 50.3, 52.8,
                         53.246-0.08, 53.246+0.08, 53.596-0.115, 53.596+0.115, 53.948-0.081, 53.948+0.081,
                         54.4, 54.94, 55.5, cf57,
-                        cf57-0.217, cf57-0.217,
+                        cf57-0.217, cf57+0.217,
                         cf57-0.3222-0.048, cf57-0.3222+0.048, cf57+0.3222-0.048, cf57+0.3222+0.048,
                         cf57-0.3222-0.022, cf57-0.3222+0.022, cf57+0.3222-0.022, cf57+0.3222+0.022,
                         cf57-0.3222-0.010, cf57-0.3222+0.010, cf57+0.3222-0.010, cf57+0.3222+0.010,
-- 
2.43.0


From 6d3fd49d9c3e127d6fd4e9e6b51c66a3433a66d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 19/32] fix: offset of the narrowest MWS oxygen channel is 4.5
 MHz

---
 pyrtlib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index aa25498..d92ff2c 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -999,7 +999,7 @@ def get_frequencies_sat(instrument: str) -> np.ndarray:
                         cf57-0.3222-0.048, cf57-0.3222+0.048, cf57+0.3222-0.048, cf57+0.3222+0.048,
                         cf57-0.3222-0.022, cf57-0.3222+0.022, cf57+0.3222-0.022, cf57+0.3222+0.022,
                         cf57-0.3222-0.010, cf57-0.3222+0.010, cf57+0.3222-0.010, cf57+0.3222+0.010,
-                        cf57-0.3222-0.045, cf57-0.3222+0.045, cf57+0.3222-0.045, cf57+0.3222+0.045,
+                        cf57-0.3222-0.0045, cf57-0.3222+0.0045, cf57+0.3222-0.0045, cf57+0.3222+0.0045,
                         89,
                         cf165-0.725, cf165+0.725,
                         cf-7.0, cf-4.5, cf-3.0, cf-1.8, cf-1.0, cf+1.0, cf+1.8, cf+3.0, cf+4.5, cf+7.0,
-- 
2.43.0


From 9c31fdf57b4f3c233253786ee25346d5f5978761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 20/32] fix: mass of an unknown gas is a ValueError

---
 pyrtlib/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index d92ff2c..baa3186 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -135,6 +135,7 @@ def gas_mass(gasid: int) -> float:
         float: The mass of the HITRAN gas ID.
     """
 
+    amus = None
     if gasid == 0:
         amus = np.dot(2, 1) + 16
     if gasid == 1:
@@ -202,6 +203,9 @@ def gas_mass(gasid: int) -> float:
     if gasid == 99:
         amus = 28.9402753669
 
+    if amus is None:
+        raise ValueError(f"Unknown gas ID: {gasid}")
+
     mass_proton = 1.6726485e-27
     mass_molecule = np.dot(mass_proton, amus)
 
-- 
2.43.0


From fd0ee753a5a8eb43ba20451206548bb82609961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:19 +0000
Subject: [PATCH 21/32] fix: an unknown atmosphere profile is a ValueError

---
 pyrtlib/climatology/atmospheric_profiles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrtlib/climatology/atmospheric_profiles.py b/pyrtlib/climatology/atmospheric_profiles.py
index 9163bc5..c84e19a 100644
--- a/pyrtlib/climatology/atmospheric_profiles.py
+++ b/pyrtlib/climatology/atmospheric_profiles.py
@@ -209,6 +209,9 @@ class AtmosphericProfiles:
             # 45.5397
             mtx = np.loadtxt(os.path.join(path, "us_standard.dat"))
 
+        else:
+            raise ValueError(f"Unknown atmosphere profile: {atm}")
+
         # Altitude (km)
         a = mtx[:, 0]
         # Pressue (mb)
-- 
2.43.0


From 27e4637f37374b9427e9be94238c07a87d319274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:19 +0000
Subject: [PATCH 22/32] fix: accept only the ids of the minor and trace gases
 in the file and keep the caller's ids

---
 pyrtlib/climatology/atmospheric_profiles.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/climatology/atmospheric_profiles.py b/pyrtlib/climatology/atmospheric_profiles.py
index c84e19a..7c4f48b 100644
--- a/pyrtlib/climatology/atmospheric_profiles.py
+++ b/pyrtlib/climatology/atmospheric_profiles.py
@@ -266,11 +266,13 @@ class AtmosphericProfiles:
 
         path = os.path.dirname(os.path.abspath(__file__))
         mtx = np.loadtxt(os.path.join(path, "gas_minor.dat"))
-        gas_minor -= 7
+        column = gas_minor - 7
+        if np.any(column < 0) or np.any(column >= mtx.shape[1]):
+            raise ValueError(f"Not a minor gas: {gas_minor}")
         # CONSTITUENT PROFILES FOR THE MINOR ABSORBING ATMOSPHERIC GASES
         #
         # MINGAS
-        g = mtx[:, gas_minor]
+        g = mtx[:, column]
 
         return g
 
@@ -324,7 +326,9 @@ class AtmosphericProfiles:
 
         path = os.path.dirname(os.path.abspath(__file__))
         mtx = np.loadtxt(os.path.join(path, "gas_trace.dat"))
-        gas_trace -= 28
+        column = gas_trace - 28
+        if np.any(column < 0) or np.any(column >= mtx.shape[1]):
+            raise ValueError(f"Not a trace gas: {gas_trace}")
         #  COF2 & SF6
         #   0 - 14   ATMOS SS Rinsland 1990: ConsAt 14 value
         #  14 -120   ATMOS SS Rinsland 1990: LinExLogMix until 1.0E-15
@@ -338,6 +342,6 @@ class AtmosphericProfiles:
         #  11 - 30   ATMOS SS: LinExLogMix
         #  30 - 75   ATMOS SS: ConsAt 31.5 value
         #  75 -120   1.0E-15
-        g = mtx[:, gas_trace]
+        g = mtx[:, column]
 
         return g
-- 
2.43.0


From 08ad841ce4e375fd096dd06fb7aa5a8aae9364dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 23/32] fix: read the release time HHMM of IGRA2 headers from
 its own four digits

---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 13be2f6..4850a92 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -253,7 +253,7 @@ class IGRAUpperAir(HTTPEndPoint):
         def _ctime(strformat: str = 'MMMSS'):
             """Return a function converting a string from MMMSS or HHMM to seconds."""
             def _ctime_strformat(val):
-                time = val.strip().zfill(5)
+                time = val.strip().zfill(len(strformat))
 
                 if int(time) < 0:
                     return np.nan
-- 
2.43.0


From 66bcb20d15b10f95a6a51b835d9f519041adae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 24/32] fix: coordinates of IGRA2 stations within a tenth of a
 degree of zero

---
 pyrtlib/apiwebservices/igra2.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 4850a92..a50f6b9 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -275,10 +275,7 @@ class IGRAUpperAir(HTTPEndPoint):
             return _ctime_strformat
 
         def _clatlon(x):
-            n = len(x)
-            deg = x[0:n - 4]
-            dec = x[n - 4:]
-            return float(deg + '.' + dec)
+            return float(x) / 10**4
 
         if self.suffix == '-drvd.txt':
             names_body = ['pressure', 'reported_height', 'calculated_height',
-- 
2.43.0


From a67c2ecb0156ea50708a01d231470d00778f1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 25/32] fix: full columns of the IGRA2 inversion pressure and v
 wind gradient

---
 pyrtlib/apiwebservices/igra2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index a50f6b9..44ee1b9 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -290,7 +290,7 @@ class IGRAUpperAir(HTTPEndPoint):
             colspecs_body = [(0, 7), (8, 15), (16, 23), (24, 31), (32, 39),
                              (40, 47), (48, 55), (56, 63), (64, 71), (72, 79),
                              (80, 87), (88, 95), (96, 103), (104, 111), (112, 119),
-                             (120, 127), (128, 135), (137, 143), (144, 151)]
+                             (120, 127), (128, 135), (136, 143), (144, 151)]
 
             conv_body = {'pressure': _cdec(power=2),
                          'reported_height': int,
@@ -322,7 +322,7 @@ class IGRAUpperAir(HTTPEndPoint):
                             'cape', 'convective_inhibition']
 
             colspecs_header = [(1, 12), (13, 17), (18, 20), (21, 23), (24, 26),
-                               (27, 31), (31, 36), (37, 43), (43, 48), (49, 55),
+                               (27, 31), (31, 36), (37, 43), (43, 49), (49, 55),
                                (55, 61), (61, 67), (67, 73), (73, 79), (79, 85),
                                (85, 91), (91, 97), (97,
                                                     103), (103, 109), (109, 115),
-- 
2.43.0


From 87f636059df23b12e8557a68f37f0fa93ffc16b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 26/32] fix: leave out IGRA2 soundings without hour that lie
 outside the range between matched ones

---
 pyrtlib/apiwebservices/igra2.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 44ee1b9..eaf9d43 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -209,18 +209,14 @@ class IGRAUpperAir(HTTPEndPoint):
             # Could improve this later by showing the date range for the station.
             raise ValueError('No dates match selection.')
 
-        # Compress body of data into a string
-        begin_idx = min(headers)
-        end_idx = max(headers) + num_lev[-1]
-
-        # Make a boolean vector that selects only list indices within the time range
+        # Make a boolean vector that selects only the levels of the matched soundings
         selector = np.zeros(len(lines), dtype=bool)
-        selector[begin_idx:end_idx + 1] = True
-        selector[headers] = False
-        body = ''.join(itertools.compress(lines, selector))
+        for idx, levels in zip(headers, num_lev):
+            selector[idx + 1:idx + levels + 1] = True
 
-        selector[begin_idx:end_idx + 1] = ~selector[begin_idx:end_idx + 1]
-        header = ''.join(itertools.compress(lines, selector))
+        # Compress body of data and headers into strings
+        body = ''.join(itertools.compress(lines, selector))
+        header = ''.join(lines[idx] for idx in headers)
 
         # expand date vector to match length of the body dataframe.
         dates_long = np.repeat(dates, num_lev)
-- 
2.43.0


From 22aaf1d61165e263fe065043c6138cc2c44600dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 27/32] fix: request the derived IGRA2 files by their own
 suffix

---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index eaf9d43..7de4d6b 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -107,7 +107,7 @@ class IGRAUpperAir(HTTPEndPoint):
 
         if derived:
             igra2.folder = 'derived-por/'
-            igra2.suffix = igra2.suffix + '-drvd.txt'
+            igra2.suffix = '-drvd.txt'
 
         if isinstance(time, datetime):
             igra2.begin_date = time
-- 
2.43.0


From 2a25466c0e8b907e99e6e8dca829fb3e8ba01589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:02 +0000
Subject: [PATCH 28/32] fix: keep IGRA2 soundings without hour that follow a
 later sounding of the last day of the range

---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 7de4d6b..a6ef958 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -201,7 +201,7 @@ class IGRAUpperAir(HTTPEndPoint):
                     headers.append(idx)
                     num_lev.append(int(line[32:36]))
                     dates.append(date)
-                if date > self.end_date:
+                if date.date() > self.end_date.date():
                     break
 
         if len(dates) == 0:
-- 
2.43.0


From 3a1f978fd79b2ab1997a8f6ee512206e18db7ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 29/32] fix: units of the IGRA2 derived vapor pressures, which
 are given in hPa

---
 pyrtlib/apiwebservices/igra2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index a6ef958..cdebea7 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -420,8 +420,8 @@ class IGRAUpperAir(HTTPEndPoint):
                                  'potential_temperature_gradient': 'Kelvin / kilometer',
                                  'virtual_temperature': 'Kelvin',
                                  'virtual_potential_temperature': 'Kelvin',
-                                 'vapor_pressure': 'Pascal',
-                                 'saturation_vapor_pressure': 'Pascal',
+                                 'vapor_pressure': 'hPa',
+                                 'saturation_vapor_pressure': 'hPa',
                                  'reported_relative_humidity': 'percent',
                                  'calculated_relative_humidity': 'percent',
                                  'relative_humidity_gradient': 'percent / kilometer',
-- 
2.43.0


From d0154da1d29460fdc1000d2d156270b1ccab2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 30/32] fix: Wyoming soundings with missing entries keep every
 value in its own column

---
 pyrtlib/apiwebservices/wyomingupperair.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/apiwebservices/wyomingupperair.py b/pyrtlib/apiwebservices/wyomingupperair.py
index 7dbc72c..6f50116 100644
--- a/pyrtlib/apiwebservices/wyomingupperair.py
+++ b/pyrtlib/apiwebservices/wyomingupperair.py
@@ -141,10 +141,9 @@ class WyomingUpperAir(HTTPEndPoint):
         tabular_data = StringIO(soup.find_all('pre')[0].contents[0])
         title = soup.find_all('h2')[0].contents[0]
         col_names = ['pressure', 'height', 'temperature', 'dewpoint', 'rh', 'mixr']
-        # df = pd.read_fwf(tabular_data, skiprows=5, usecols=[0, 1, 2, 3, 4, 5], names=col_names, infer_rows=300)
-        # change to read_csv function as some data column (e.g. height) couls be corrupted
-        # To be further investigated in order to catch the issue
-        df = pd.read_csv(tabular_data, header=None, skiprows=5, delim_whitespace=True, usecols=[0, 1, 2, 3, 4, 5], names=col_names)
+        # every column is seven characters wide; a missing entry is blank
+        df = pd.read_fwf(tabular_data, header=None, skiprows=5, colspecs=[(0, 7), (7, 14), (14, 21), (21, 28), (28, 35), (35, 42)],
+                         names=col_names)
         # Drop any rows with all NaN values for T, Td, winds
         df = df.dropna(subset=('temperature', 'dewpoint'), how='any').reset_index(drop=True)
 
-- 
2.43.0


From 9d0c0b527d6e97ee9616709e661a150456ca665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 31/32] fix: ERA5 relative humidity is labelled as the fraction
 it is

---
 pyrtlib/apiwebservices/erafive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/erafive.py b/pyrtlib/apiwebservices/erafive.py
index 7826882..dccaf52 100644
--- a/pyrtlib/apiwebservices/erafive.py
+++ b/pyrtlib/apiwebservices/erafive.py
@@ -56,7 +56,7 @@ class ERA5Reanalysis:
                 {'p': 'hPa',
                 'z': 'km',
                 't': 'K',
-                'rh': '%',
+                'rh': 'fraction',
                 'clwc': 'kg kg-1',
                 'ciwc': 'kg kg-1',
                 'crwc': 'kg kg-1',
@@ -107,7 +107,7 @@ class ERA5Reanalysis:
         df.attrs['units'] = {'p': 'hPa',
                              'z': 'km',
                              't': 'K',
-                             'rh': '%',
+                             'rh': 'fraction',
                              'clwc': 'kg kg-1',
                              'ciwc': 'kg kg-1',
                              'crwc': 'kg kg-1',
-- 
2.43.0


From 15ea864b2aada2c7afc721e13289b51c7cda8580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:42 +0000
Subject: [PATCH 32/32] fix: put cloud densities in the order of a flipped
 profile

---
 pyrtlib/tb_spectrum.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 37cf725..28500a8 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -65,6 +65,7 @@ class TbCloudRTE(object):
         self.o3n = o3n
         self.amu = amu
 
+        self._flipped = False
         dz = np.ediff1d(self.z)
         if np.all(dz > 0):
             pass
@@ -74,6 +75,7 @@ class TbCloudRTE(object):
             self.tk = t[::-1]
             self.rh = rh[::-1]
             self.o3n = o3n[::-1] if isinstance(o3n, np.ndarray) else o3n
+            self._flipped = True
             print("Profile flipped up/douwn")
         else:
             raise SystemExit("ERROR: input profile seems incorrect. "
@@ -222,8 +224,9 @@ class TbCloudRTE(object):
                     if self.z[i] == self.cldh[1, j]:
                         self.endlev[j] = i
 
-            self.denice = denice
-            self.denliq = denliq
+            # in the order of the profile
+            self.denice = denice[::-1] if self._flipped else denice
+            self.denliq = denliq[::-1] if self._flipped else denliq
         else:
             warnings.warn("It seems that TbCloudRTE.cloudy attribute is not set to True. "
                           "Sets it to True for running model in cloudy condition.")
-- 
2.43.0

