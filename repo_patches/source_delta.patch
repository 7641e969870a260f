From 43f8d66150bdcae6ce8b4266b9e98011a9132587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 01/67] fix: make the flux cache key complete and keep cached
 results private

The key left out the default distance (so distance=0 returned the 1 kpc
flux), the type of the particle distribution, any distribution that does not
declare param_names (TableModel, functions), and abbreviated array parameters.
Callers also received the cached array itself.
---
 src/naima/model_utils.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/naima/model_utils.py b/src/naima/model_utils.py
index 634b875..6ca83a1 100644
--- a/src/naima/model_utils.py
+++ b/src/naima/model_utils.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 # Licensed under a 3-clause BSD style license - see LICENSE.rst
+import copy
 import hashlib
+import sys
 import warnings
 
 import numpy as np
@@ -41,24 +43,31 @@ def memoize(func):
             data = [hashlib.sha256(bstr).hexdigest()]
 
             data.append(energy.unit.to_string())
-            data.append(str(kwargs.get("distance", 0)))
+            data.append(str(kwargs.get("distance", "")))
 
-            if args:
-                data.append(str(args))
             if hasattr(cls, "particle_distribution"):
                 models = [cls, cls.particle_distribution]
             else:
                 models = [cls]
-            for model in models:
-                if hasattr(model, "param_names"):
-                    for par in model.param_names:
-                        data.append(str(getattr(model, par)))
+            # the default print options abbreviate and round arrays
+            with np.printoptions(precision=17, threshold=sys.maxsize):
+                if args:
+                    data.append(str(args))
+                for model in models:
+                    if hasattr(model, "param_names"):
+                        data.append(str(type(model)))
+                        for par in model.param_names:
+                            data.append(str(getattr(model, par)))
+                    else:
+                        # no way to know whether the state of the model changed
+                        memoize = False
 
-            token = "".join(data)
+        if memoize:
+            token = "|".join(data)
             digest = hashlib.sha256(token.encode()).hexdigest()
 
             if digest in cache:
-                return cache[digest]
+                return copy.copy(cache[digest])
 
         result = func(cls, energy, *args, **kwargs)
 
@@ -69,7 +78,7 @@ def memoize(func):
                 cache.pop(key, None)
             # save last result to cache
             queue.append(digest)
-            cache[digest] = result
+            cache[digest] = copy.copy(result)
 
         return result
 
-- 
2.43.0


From 7f3dd6a871322f3640106be6b73c32aefcda91e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 02/67] fix: do not share the PionDecayKelner06 flux cache
 between instances

---
 src/naima/radiative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 3db562e..6b5c6cd 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1574,8 +1574,6 @@ class PionDecayKelner06(BaseRadiative):
     # This class doesn't inherit from BaseProton
     param_names = ["nh", "Etrans"]
     _memoize = True
-    _cache = {}
-    _queue = []
 
     def __init__(
         self, particle_distribution, nh=1.0 / u.cm**3, Etrans=0.1 * u.TeV, **kwargs
@@ -1585,6 +1583,8 @@ class PionDecayKelner06(BaseRadiative):
         self.Etrans = validate_scalar(
             "Etrans", Etrans, domain="positive", physical_type="energy"
         )
+        self._cache = {}
+        self._queue = []
 
         self.__dict__.update(**kwargs)
 
-- 
2.43.0


From 2968b6a24cc9c153c1be9515773338422b005f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 03/67] fix: InverseCompton flux of a single seed after a
 cached flux call

self.specic held the spectra of whatever energies were last computed.
---
 src/naima/radiative.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 6b5c6cd..1702e96 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -754,7 +754,12 @@ class InverseCompton(BaseElectron):
                 dfac = 1
                 out_unit = "1/(s eV)"
 
-            model = (self.specic[seed] / dfac).to(out_unit)
+            # self.specic may belong to a previous call if flux was cached
+            spec = self._calc_specic(
+                list(self.seed_photon_fields.keys())[seed],
+                _validate_ene(photon_energy),
+            )
+            model = (spec / dfac).to(out_unit)
 
         return model
 
-- 
2.43.0


From cfb47cc141c721b3a65d9012fdbd98edec136eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 04/67] fix: reject an InverseCompton seed number equal to the
 number of seeds

---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 1702e96..c35306b 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -739,7 +739,7 @@ class InverseCompton(BaseElectron):
                     )
                 else:
                     seed = list(self.seed_photon_fields.keys()).index(seed)
-            elif seed > len(self.seed_photon_fields):
+            elif seed >= len(self.seed_photon_fields):
                 raise ValueError(
                     "Provided seed photon field number is larger"
                     " than the number of seed photon fields defined in the"
-- 
2.43.0


From 20fe10bc5a13a4ec9085de7b098d9c14dadfc1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 05/67] fix: accept tables and dicts in InverseCompton.sed with
 a seed

---
 src/naima/radiative.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index c35306b..eecfc91 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -788,6 +788,8 @@ class InverseCompton(BaseElectron):
             else:
                 out_unit = "erg/s"
 
+            photon_energy = _validate_ene(photon_energy)
+
             sed = (
                 self.flux(photon_energy, distance=distance, seed=seed)
                 * photon_energy**2.0
-- 
2.43.0


From b0eda7bf0de2b34560237e8685d6b9220b92a6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 06/67] fix: allow zero weights in Bremsstrahlung

weight_ep = 0 is the documented way to get pure electron-electron
bremsstrahlung, but the null emissivity had units of energy.
---
 src/naima/radiative.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index eecfc91..c5c1abe 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -949,7 +949,7 @@ class Bremsstrahlung(BaseElectron):
         Electron-electron bremsstrahlung emissivity per unit photon energy
         """
         if self.weight_ee == 0.0:
-            return np.zeros_like(Eph)
+            return np.zeros(Eph.shape) * u.cm**3 / u.s / Eph.unit
 
         gam = np.vstack(self._gam)
         # compute integral with electron distribution
@@ -965,7 +965,7 @@ class Bremsstrahlung(BaseElectron):
         Electron-proton bremsstrahlung emissivity per unit photon energy
         """
         if self.weight_ep == 0.0:
-            return np.zeros_like(Eph)
+            return np.zeros(Eph.shape) * u.cm**3 / u.s / Eph.unit
 
         gam = np.vstack(self._gam)
         eps = (Eph / mec2).decompose().value
-- 
2.43.0


From bf3faa24a00ec37cc6262ea3de51e4a5791def48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 07/67] fix: accept scalar photon energies in all radiative
 models

---
 src/naima/radiative.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index c5c1abe..ac9ed95 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -99,7 +99,8 @@ class BaseRadiative:
             luminosity will be returned. Default is 1 kpc.
         """
 
-        spec = self._spectrum(photon_energy)
+        # the spectrum calculations need an array of energies
+        spec = self._spectrum(np.atleast_1d(_validate_ene(photon_energy)))
 
         if distance != 0:
             distance = validate_scalar("distance", distance, physical_type="length")
@@ -757,7 +758,7 @@ class InverseCompton(BaseElectron):
             # self.specic may belong to a previous call if flux was cached
             spec = self._calc_specic(
                 list(self.seed_photon_fields.keys())[seed],
-                _validate_ene(photon_energy),
+                np.atleast_1d(_validate_ene(photon_energy)),
             )
             model = (spec / dfac).to(out_unit)
 
-- 
2.43.0


From 2ea40aed9ac15382bd9ca3e3cc4800a8dc500cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 08/67] fix: set_We and set_Wp must not modify the amplitude
 given by the user

---
 src/naima/radiative.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index ac9ed95..bdbe563 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -221,7 +221,11 @@ class BaseElectron(BaseRadiative):
 
         if amplitude_name is None:
             try:
-                self.particle_distribution.amplitude *= (We / oldWe).decompose()
+                oldampl = self.particle_distribution.amplitude
+                # not in place: the array may be shared with other objects
+                self.particle_distribution.amplitude = (
+                    oldampl * (We / oldWe).decompose()
+                )
             except AttributeError:
                 log.error(
                     "The particle distribution does not have an attribute"
@@ -1088,7 +1092,11 @@ class BaseProton(BaseRadiative):
 
         if amplitude_name is None:
             try:
-                self.particle_distribution.amplitude *= (Wp / oldWp).decompose()
+                oldampl = self.particle_distribution.amplitude
+                # not in place: the array may be shared with other objects
+                self.particle_distribution.amplitude = (
+                    oldampl * (Wp / oldWp).decompose()
+                )
             except AttributeError:
                 log.error(
                     "The particle distribution does not have an attribute"
-- 
2.43.0


From 25f3a4fdb40e7edb33456c4d1dfd2cb502840cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 09/67] fix: PionDecay without lookup table gave NaN for
 protons below threshold

---
 src/naima/radiative.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index bdbe563..cef27bd 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1461,10 +1461,15 @@ class PionDecay(BaseProton):
         """
         Tp = Ep - self._m_p
 
-        diffsigma = self._Amax(Tp) * self._F(Tp, Egamma)
+        # the cross section is null below the pion production threshold
+        diffsigma = np.zeros_like(Tp)
+        idx = np.where(Tp > self._Tth)
+        Tp = Tp[idx]
+
+        diffsigma[idx] = self._Amax(Tp) * self._F(Tp, Egamma)
 
         if self.nuclear_enhancement:
-            diffsigma *= self._nuclear_factor(Tp)
+            diffsigma[idx] *= self._nuclear_factor(Tp)
 
         return diffsigma
 
-- 
2.43.0


From 73a0316ad5285501f35d9a30ab6afe55d17fcc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 10/67] fix: do not extrapolate the PionDecay lookup table

Photon energies outside 10 MeV-1 PeV got the cross section at the edge of the
table, up to orders of magnitude away.
---
 src/naima/radiative.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index cef27bd..ded715c 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1547,7 +1547,11 @@ class PionDecay(BaseProton):
 
         specpp = []
         for Eg in Egamma:
-            diffsigma = self.diffsigma(Ep.value, Eg.value) * u.Unit("cm2/GeV")
+            if self.useLUT and not self.diffsigma.covers(Eg.value):
+                diffsigma = self._diffsigma(Ep.value, Eg.value)
+            else:
+                diffsigma = self.diffsigma(Ep.value, Eg.value)
+            diffsigma = diffsigma * u.Unit("cm2/GeV")
             specpp.append(trapz_loglog(diffsigma * J, Ep))
 
         self.specpp = u.Quantity(specpp)
@@ -1813,6 +1817,11 @@ class LookupTable:
         lut = f_lut.f.lut
         self.int_lut = RectBivariateSpline(X, Y, 10**lut, kx=3, ky=3, s=0)
         self.fname = filename
+        self.Yrange = 10 ** Y[0], 10 ** Y[-1]
+
+    def covers(self, Y):
+        """Whether Y is inside of the lookup table"""
+        return self.Yrange[0] <= np.min(Y) and np.max(Y) <= self.Yrange[1]
 
     def __call__(self, X, Y):
         return self.int_lut(np.log10(X), np.log10(Y)).flatten()
-- 
2.43.0


From 4bb2f7d233d9c34e3afbb1c84aa69f93a43f0068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 11/67] fix: EBL transmission above 100 TeV

It was set to 0.023 for any redshift: opaque at z=0 and, for the rest, more
transparent than at 100 TeV.
---
 src/naima/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/models.py b/src/naima/models.py
index aed3e17..23bf394 100644
--- a/src/naima/models.py
+++ b/src/naima/models.py
@@ -546,7 +546,8 @@ class EblAbsorptionModel(TableModel):
             if e[i].to("GeV").value < 1.0:
                 taus[i] = 0.0
             elif e[i].to("TeV").value > 100.0:
-                taus[i] = np.log10(6000.0)
+                # beyond the table, opacity is at least that at its end
+                taus[i] = np.log10(self(100 * u.TeV))
             else:
                 taus[i] = np.log10(self(e[i]))
         return np.exp(-taus)
-- 
2.43.0


From a4b64a3189c45d42b19b6c9881086c087ecc02a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 12/67] fix: normal_prior is the logarithm of a normal
 distribution of width sigma

---
 src/naima/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index c397c6a..e32057d 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -41,7 +41,7 @@ def uniform_prior(value, umin, umax):
 
 def normal_prior(value, mean, sigma):
     """Normal prior distribution."""
-    return -0.5 * (2 * np.pi * sigma) - (value - mean) ** 2 / (2.0 * sigma)
+    return -0.5 * np.log(2 * np.pi * sigma**2) - (value - mean) ** 2 / (2.0 * sigma**2)
 
 
 def log_uniform_prior(value, umin=0, umax=None):
-- 
2.43.0


From dd52a818c11506c8296780e84a1ee1f6725e96d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 13/67] fix: log_uniform_prior returns the logarithm of 1/value

---
 src/naima/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index e32057d..6a366e2 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -49,11 +49,11 @@ def log_uniform_prior(value, umin=0, umax=None):
     if value > 0 and value >= umin:
         if umax is not None:
             if value <= umax:
-                return 1 / value
+                return -np.log(value)
             else:
                 return -np.inf
         else:
-            return 1 / value
+            return -np.log(value)
     else:
         return -np.inf
 
-- 
2.43.0


From 796dd0bc699838658737c429170796cc742e7143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 14/67] fix: use the confidence level of each violated upper
 limit in the likelihood

The number of violated limits was used as index: the CL of an unrelated point,
or an IndexError when all the points were violated limits.
---
 src/naima/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 6a366e2..4449bf3 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -88,8 +88,8 @@ def lnprobmodel(model, data):
 
     if np.sum(ul) > 0:
         # deal with upper limits at CL set by data['cl']
-        violated_uls = np.sum(model[ul] > data["flux"][ul])
-        totallogprob += violated_uls * np.log(1.0 - data["cl"][violated_uls])
+        violated_uls = model[ul] > data["flux"][ul]
+        totallogprob += np.sum(np.log(1.0 - data["cl"][ul][violated_uls]))
 
     return totallogprob
 
-- 
2.43.0


From 5113b4bf46c44cad9a6babf2bef2c7571fdcf31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 15/67] fix: keep the confidence levels of an already validated
 table

Plots and the interactive fitter validate the data again, and set all to 90%.
---
 src/naima/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index e12bbf1..bf8e662 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -202,6 +202,11 @@ def _validate_single_data_table(data_table, group=0):
             CL = validate_scalar("cl", data_table.meta["keywords"]["cl"]["value"])
             data["cl"] = [CL] * len(data["energy"])
 
+    if not HAS_CL and "cl" in data_table.colnames:
+        # table that was already validated
+        HAS_CL = True
+        data["cl"] = data_table["cl"]
+
     if not HAS_CL:
         data["cl"] = [0.9] * len(data["energy"])
         if np.sum(data["ul"]) > 0:
-- 
2.43.0


From 4b98b73290fb328d2c280e42848064eb301ca56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 16/67] fix: energy edges of arrays that are not sorted in
 energy

---
 src/naima/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index bf8e662..6808f7c 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -362,13 +362,17 @@ def trapz_loglog(y, x, axis=-1, intervals=False):
 
 def _generate_energy_edges_single(ene):
     """Generate energy edges for single group"""
+    # edges lie between neighbours in energy, whatever the order of the array
+    order = np.argsort(ene)
+    ene = ene[order]
     midene = np.sqrt((ene[1:] * ene[:-1]))
     elo, ehi = np.zeros(len(ene)) * ene.unit, np.zeros(len(ene)) * ene.unit
     elo[1:] = ene[1:] - midene
     ehi[:-1] = midene - ene[:-1]
     elo[0] = ene[0] * (1 - ene[0] / (ene[0] + ehi[0]))
     ehi[-1] = elo[-1]
-    return u.Quantity([elo, ehi])
+    inverse = np.argsort(order)
+    return u.Quantity([elo[inverse], ehi[inverse]])
 
 
 def generate_energy_edges(ene, groups=None):
-- 
2.43.0


From c44e88cf8914569a7e834baaacca448f9aaddea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 17/67] fix: save_results_table(last_step=True) uses the last
 step

It used all the steps of the last walker.
---
 src/naima/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 70d500b..b1a4b00 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -239,7 +239,7 @@ def save_results_table(
     labels = sampler.labels
 
     if last_step:
-        dists = sampler.get_chain()[:, -1, :]
+        dists = sampler.get_chain()[-1]
     else:
         dists = sampler.get_chain(flat=True)
 
-- 
2.43.0


From 77517a7dcaa89f2bed702d7412a26055316345e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 18/67] fix: number of samples needed to constrain the highest
 confidence band

It was never above 100, but 3 sigma needs 740 (and the limit is 1000).
---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 72c610d..6618846 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -457,7 +457,7 @@ def _calc_CI(
     # We limit it to 1000 samples and warn that it might not be enough
     if e_range is not None:
         maxconf = np.max(confs)
-        minsamples = min(100, int(1 / stats.norm.cdf(-maxconf) + 1))
+        minsamples = max(100, int(1 / stats.norm.cdf(-maxconf) + 1))
         if minsamples > 1000:
             log.warning(
                 "In order to sample the confidence band for {0} sigma,"
-- 
2.43.0


From 56cd8c58a0f21decbab014ff8025accabd7dcf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 19/67] fix: plots must not modify confs, ulim_opts or the data
 they are given

The default ulim_opts kept the elinewidth of the first call for all later ones.
---
 src/naima/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 6618846..388e42e 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -559,7 +559,7 @@ def plot_CI(
         Whether to only use the positions in the final step of the run (True,
         default) or the whole chain (False).
     """
-    confs.sort(reverse=True)
+    confs = sorted(confs, reverse=True)
 
     modelx, CI = _calc_CI(
         sampler,
@@ -1034,6 +1034,7 @@ def _plot_data_to_ax(
     f_unit, sedf = sed_conversion(data_all["energy"], data_all["flux"].unit, sed)
 
     if "group" not in data_all.keys():
+        data_all = data_all.copy()
         data_all["group"] = np.zeros(len(data_all))
 
     groups = np.unique(data_all["group"])
@@ -1080,7 +1081,7 @@ def _plot_data_to_ax(
 
         if np.any(ul):
             if "elinewidth" in errorbar_opts:
-                ulim_opts["elinewidth"] = errorbar_opts["elinewidth"]
+                ulim_opts = {**ulim_opts, "elinewidth": errorbar_opts["elinewidth"]}
 
             _plot_ulims(
                 ax1,
@@ -1132,6 +1133,7 @@ def _plot_residuals_to_ax(
 ):
     """Function to compute and plot residuals in units of the uncertainty"""
     if "group" not in data_all.keys():
+        data_all = data_all.copy()
         data_all["group"] = np.zeros(len(data_all))
 
     groups = np.unique(data_all["group"])
-- 
2.43.0


From d17e8fa36d2d94e9075a96516e7b0e9edc7f471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 20/67] fix: plot data where all the points are compatible with
 zero

---
 src/naima/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 388e42e..1f7ba7c 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1103,7 +1103,8 @@ def _plot_data_to_ax(
     ax1.set_xlim(xmin, xmax)
     # avoid autoscaling to errorbars to 0
     notul = ~data_all["ul"]
-    if np.any(data_all["flux_error_lo"][notul] >= data_all["flux"][notul]):
+    baderr = data_all["flux_error_lo"][notul] >= data_all["flux"][notul]
+    if np.any(baderr) and not np.all(baderr):
         elo = (data_all["flux"][notul] * sedf[notul]).to(f_unit).value - (
             data_all["flux_error_lo"][notul] * sedf[notul]
         ).to(f_unit).value
-- 
2.43.0


From d7a29c9286b4b926d49b590abbe265c40994b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 21/67] fix: plot_fit of a run read from file without a model
 function

The results of read_run do have blobs: there is no need to compute the model.
---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 1f7ba7c..f2c1dde 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -840,7 +840,7 @@ def plot_fit(
 
     data = sampler.data
 
-    if e_range is None and not hasattr(sampler, "blobs"):
+    if e_range is None and sampler.get_blobs() is None:
         e_range = data["energy"][[0, -1]] * np.array((1.0 / 3.0, 3.0))
 
     if plotdata is None and len(model_ML[0]) == len(data["energy"]):
-- 
2.43.0


From 26ad133a1bdaa2dd89f3adef2e56d08d900824cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 22/67] fix: format values and uncertainties that are zero

The summary plots of a chain with a null median or a null uncertainty raised
OverflowError.
---
 src/naima/plot.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index f2c1dde..73fc834 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -73,15 +73,20 @@ def round2(x, n):
 
 
 def _latex_value_error(val, elo, ehi=0, tol=0.25):
-    order = int(np.log10(abs(val)))
+    # null values and uncertainties have no order of magnitude
+    order = int(np.log10(abs(val))) if val != 0 else 0
+    if elo == 0 and ehi == 0:
+        return "${0} \\pm 0$".format(_latex_float(val))
     if order > 2 or order < -2:
         val /= 10**order
         elo /= 10**order
         ehi /= 10**order
     else:
         order = 0
-    nlo = -int(np.floor(np.log10(elo)))
-    if elo * 10**nlo < 2:
+    # quote a null uncertainty with the precision of the other
+    prec = elo if elo != 0 else ehi
+    nlo = -int(np.floor(np.log10(prec)))
+    if prec * 10**nlo < 2:
         nlo += 1
     if ehi:
         # elo = round(elo,nlo)
-- 
2.43.0


From ed7a6dc8f99cde385f722eb84848b88d1fcb3b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 23/67] fix: allow to continue a run after the multiprocessing
 pool is closed

---
 src/naima/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/naima/core.py b/src/naima/core.py
index 4449bf3..54ccf60 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -534,5 +534,7 @@ def run_sampler(nrun=100, sampler=None, pos=None, **kwargs):
         sampler._naima_pool.close()
         sampler._naima_pool.join()
         sampler._naima_pool = None
+        # the sampler can still be run further, but not with the closed pool
+        sampler.pool = None
 
     return sampler, pos
-- 
2.43.0


From 83b1de9c178d1c5dde6c2d924ed2e67b55cbdd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 24/67] fix: get_sampler must not modify the p0 and labels it
 is given

The normalization guess was also truncated in p0 arrays of integers.
---
 src/naima/core.py         | 7 ++++++-
 src/naima/model_fitter.py | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 54ccf60..1a65350 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -346,7 +346,12 @@ def get_sampler(
         # First is normalization
         labels = ["norm"] + ["par{0}".format(i) for i in range(1, len(p0))]
     elif len(labels) < len(p0):
-        labels += ["par{0}".format(i) for i in range(len(labels), len(p0))]
+        labels = list(labels) + [
+            "par{0}".format(i) for i in range(len(labels), len(p0))
+        ]
+
+    # do not modify the array or list given by the user
+    p0 = np.array(p0, dtype=float)
 
     # Check that the model returns fluxes in same physical type as data
     modelout = model(p0, data)
diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index 6f96389..e86cfdb 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -74,7 +74,9 @@ class InteractiveModelFitter:
         if labels is None:
             labels = ["par{0}".format(i) for i in range(npars)]
         elif len(labels) < npars:
-            labels += ["par{0}".format(i) for i in range(len(labels), npars)]
+            labels = list(labels) + [
+                "par{0}".format(i) for i in range(len(labels), npars)
+            ]
 
         self.hasdata = data is not None
         self.data = None
-- 
2.43.0


From 3b9050a7c84fdc006de3801b19560035df8fe36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 25/67] fix: normalization guess of log parameters with labels
 in other case

---
 src/naima/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 1a65350..1158e2f 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -405,9 +405,10 @@ def get_sampler(
                 data["energy"],
             )
             ratio = dataFlux / currFlux
-            if labels[idxs[0]].startswith("log("):
+            # same case-insensitive comparison as above
+            if labels[idxs[0]].lower().startswith("log("):
                 p0[idxs[0]] += np.log(ratio)
-            elif labels[idxs[0]].startswith("log10("):
+            elif labels[idxs[0]].lower().startswith("log10("):
                 p0[idxs[0]] += np.log10(ratio)
             else:
                 p0[idxs[0]] *= ratio
-- 
2.43.0


From d9b349b04711634b9103ef3fa2ec87de71b062a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 26/67] fix: Nelder-Mead fit starting from integer parameters

The simplex was truncated to integers.
---
 src/naima/extern/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/extern/minimize.py b/src/naima/extern/minimize.py
index a4ebaeb..3cdbec1 100644
--- a/src/naima/extern/minimize.py
+++ b/src/naima/extern/minimize.py
@@ -77,7 +77,7 @@ def _minimize_neldermead(
     retall = return_all
 
     fcalls, func = wrap_function(func, args)
-    x0 = asarray(x0).flatten()
+    x0 = asarray(x0, dtype=float).flatten()
     N = len(x0)
     rank = len(x0.shape)
     if not -1 < rank < 2:
-- 
2.43.0


From 137be3e361fb2fbf0a3034345852d813f4481d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 27/67] fix: keep units and shape of blobs with the same length

A model returning several arrays of the same length (e.g. total and single
component fluxes) had its blobs merged by emcee into a unitless array.
---
 src/naima/core.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 1158e2f..ff9e298 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -105,7 +105,8 @@ def lnprob(pars, data, modelfunc, priorfunc):
     # Save blobs or save model if no blobs given
     if isinstance(modelout, Iterable) and not isinstance(modelout, np.ndarray):
         model = modelout[0]
-        blob = modelout
+        # as below, add a dummy blob if there is only one
+        blob = modelout if len(modelout) > 1 else (*modelout, np.nan)
     else:
         model = modelout
         # Avoid squeezing of the model output in order to retain units by
@@ -121,6 +122,19 @@ def lnprob(pars, data, modelfunc, priorfunc):
     return (total_lnprob, *blob)
 
 
+def _lnprob_emcee(*args):
+    """
+    lnprob with all blobs inside an array of objects. Otherwise, outputs of the
+    same length would be merged by emcee into a single array without units.
+    """
+    total_lnprob, *blob = lnprob(*args)
+    blobs = np.empty(len(blob), dtype=object)
+    for i, item in enumerate(blob):
+        blobs[i] = item
+
+    return total_lnprob, blobs
+
+
 # Sampler funcs
 
 
@@ -456,7 +470,7 @@ def get_sampler(
     sampler = emcee.EnsembleSampler(
         nwalkers,
         len(p0),
-        lnprob,
+        _lnprob_emcee,
         args=[data, model, prior],
         pool=pool,
         blobs_dtype=np.dtype(object),
-- 
2.43.0


From d81bda245667962d1b7cde8a3db2c7a493ab451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 28/67] fix: read_run returns all the blobs in the file

It stopped at the first blob that could not be saved, dropped all but the first
two arrays of tuples, and merged blobs of the same length.
---
 src/naima/analysis.py | 54 ++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index b1a4b00..f829e75 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -425,7 +425,7 @@ def save_run(filename, sampler, compression=True, clobber=False):
             else:
                 log.warning(
                     "blob number {0} has unknown format and cannot be saved "
-                    "in HDF5 file"
+                    "in HDF5 file".format(idx)
                 )
                 continue
 
@@ -533,46 +533,42 @@ def read_run(filename, modelfn=None):
     result.log_prob = np.array(f["mcmc/log_prob"])
 
     # blobs
-    result_blobs = []
     nsteps, nwalkers, nblobs = result.chain.shape
     blobs = []
     blobrank = []
-    for i in range(100):
+    blobidxs = [int(key[4:]) for key in f["mcmc"] if key.startswith("blob")]
+    for i in range(max(blobidxs, default=-1) + 1):
+        if i not in blobidxs:
+            # this blob could not be saved, keep its place
+            blobrank.append(0)
+            blobs.append([None] * (nsteps * nwalkers))
+            continue
         # first read each of the blobs and convert to Quantities
-        try:
-            ds = f["mcmc/blob{0}".format(i)]
-            rank = np.ndim(ds[0])
-            blobrank.append(rank)
-            if rank <= 1:
-                blobs.append(u.Quantity(ds[()], unit=ds.attrs["unit"]))
-            else:
-                blob = []
-                for j in range(np.ndim(ds[0])):
-                    blob.append(
-                        u.Quantity(ds[:, j, :], unit=ds.attrs["unit{0}".format(j)])
-                    )
-                blobs.append(blob)
-        except KeyError:
-            break
-
-    # Now organize in an awful list of lists of arrays
+        ds = f["mcmc/blob{0}".format(i)]
+        rank = np.ndim(ds[0])
+        blobrank.append(rank)
+        if rank <= 1:
+            blobs.append(u.Quantity(ds[()], unit=ds.attrs["unit"]))
+        else:
+            blob = []
+            for j in range(ds.shape[1]):
+                unit = "unit{0}".format(j) if ds.shape[1] > 1 else "unit"
+                blob.append(u.Quantity(ds[:, j, :], unit=ds.attrs[unit]))
+            blobs.append(blob)
+
+    # Now organize in an array of objects
+    result._blobs = np.empty((nsteps, nwalkers, len(blobs)), dtype=object)
     for step in range(nsteps):
-        steplist = []
         for walker in range(nwalkers):
             n = step * nwalkers + walker
-            walkerblob = []
             for j in range(len(blobs)):
                 if blobrank[j] <= 1:
-                    walkerblob.append(blobs[j][n])
+                    result._blobs[step, walker, j] = blobs[j][n]
                 else:
                     blob = []
-                    for k in range(blobrank[j]):
+                    for k in range(len(blobs[j])):
                         blob.append(blobs[j][k][n])
-                    walkerblob.append(blob)
-            steplist.append(walkerblob)
-        result_blobs.append(steplist)
-
-    result._blobs = np.array(result_blobs, dtype=np.dtype("object"))
+                    result._blobs[step, walker, j] = blob
 
     # run info
     result.run_info = dict(f["mcmc"].attrs)
-- 
2.43.0


From 31f1c20b0ce251bb79961d5ef7f89d3150aa6457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 29/67] fix: Bremsstrahlung flux at photon energies equal to an
 electron energy

---
 src/naima/radiative.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index ded715c..7c07c76 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -857,7 +857,9 @@ class Bremsstrahlung(BaseElectron):
         s1 = 4 * r0**2 * alpha / eps / mec2_unit
         s2 = 1 + (1.0 / 3.0 - eps / gam) * (1 - eps / gam)
         s3 = np.log(2 * gam * (gam - eps) / eps) - 1.0 / 2.0
-        s3[np.where(gam < eps)] = 0.0
+        # the logarithm diverges at the kinematic limit: also zero if gam and
+        # eps are equal up to rounding errors
+        s3[np.where(gam * (1 - 1e-12) <= eps)] = 0.0
         return s1 * s2 * s3
 
     @staticmethod
-- 
2.43.0


From 098f588215c1a95999eb528d6bbb841a2a311aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 30/67] fix: TypeError for tables of differential flux and of
 luminosity

---
 src/naima/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 6808f7c..60263c3 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -92,9 +92,8 @@ def validate_data_table(data_table, sed=None):
 
     for dt in data_list[1:]:
         nf_pt = dt["flux"].unit.physical_type
-        if ("flux" in nf_pt and "power" in f_pt) or (
-            "power" in nf_pt and "flux" in f_pt
-        ):
+        power_types = ["power", "differential power"]
+        if (nf_pt in power_types) != (f_pt in power_types):
             raise TypeError(
                 "The physical types of the data tables could not be "
                 "matched: Some are in flux and others in luminosity units"
-- 
2.43.0


From 10c7728d8796e86c9820c1e67673f51b37be05f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 31/67] fix: UnitsError if the model cannot be compared to the
 data

---
 src/naima/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index ff9e298..27de96c 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -381,8 +381,10 @@ def get_sampler(
     try:
         # If both can be converted to differential flux, they can be compared
         # Otherwise, sed_conversion will raise a u.UnitsError
-        sed_conversion(data["energy"], spec.unit, False)
-        sed_conversion(data["energy"], data["flux"].unit, False)
+        munit, _ = sed_conversion(data["energy"], spec.unit, False)
+        dunit, _ = sed_conversion(data["energy"], data["flux"].unit, False)
+        # as will do the conversion, e.g., of a luminosity to a flux
+        munit.to(dunit)
     except u.UnitsError:
         raise u.UnitsError(
             "The physical type of the model and data units are not compatible,"
-- 
2.43.0


From 5cc6b0a19ee51721f2d810cec038a03c254445fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 32/67] fix: reject the ratio of a luminosity to a flux in
 estimate_B

---
 src/naima/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 60263c3..3328dc5 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -543,8 +543,8 @@ def estimate_B(xray_table, vhe_table, photon_energy_density=0.261 * u.eV / u.cm*
 
     uph = (photon_energy_density.to("erg/cm3")).value
 
-    B0 = (np.sqrt((xray_lum / vhe_lum).decompose().value * 8 * np.pi * uph) * u.G).to(
-        "uG"
-    )
+    # fails for the ratio of a luminosity to a flux
+    lum_ratio = (xray_lum / vhe_lum).to(u.dimensionless_unscaled).value
+    B0 = (np.sqrt(lum_ratio * 8 * np.pi * uph) * u.G).to("uG")
 
     return B0
-- 
2.43.0


From d66470e563e1ccd0c0c4b1fdcdef8211dd93b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 33/67] fix: units of the SED conversion of differential number
 densities

---
 src/naima/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 3328dc5..cb042c5 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -230,6 +230,7 @@ def sed_conversion(energy, model_unit, sed):
         u.get_physical_type("power"),
         u.get_physical_type("energy"),
         u.get_physical_type("energy flux"),
+        u.get_physical_type("energy density"),
     }
     is_differential = model_pt in {
         u.get_physical_type("differential flux"),
@@ -261,12 +262,18 @@ def sed_conversion(energy, model_unit, sed):
         u.get_physical_type("energy flux"),
         u.get_physical_type("differential flux"),
     }
+    is_density = model_pt in {
+        u.get_physical_type("energy density"),
+        u.get_physical_type("differential number density"),
+    }
 
     if sed:
         if is_energy_flux:
             f_unit = u.erg
         elif is_particle_flux:
             f_unit = u.erg / u.s / u.cm**2
+        elif is_density:
+            f_unit = u.erg / u.cm**3
         else:
             f_unit = u.erg / u.s
     else:
@@ -274,6 +281,8 @@ def sed_conversion(energy, model_unit, sed):
             f_unit = u.Unit("1/TeV")
         elif is_particle_flux:
             f_unit = u.Unit("1/(s TeV cm2)")
+        elif is_density:
+            f_unit = u.Unit("1/(TeV cm3)")
         else:
             f_unit = u.Unit("1/(s TeV)")
 
-- 
2.43.0


From 7d9ca5dac211662e03c316bd43d14aedba063ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 34/67] fix: no normalization guess from a flux ratio that is
 not positive and finite

---
 src/naima/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 27de96c..9aca73e 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -420,9 +420,14 @@ def get_sampler(
                 data["energy"] * (data["flux"] * sedf).to(nunit),
                 data["energy"],
             )
-            ratio = dataFlux / currFlux
+            ratio = (dataFlux / currFlux).to("").value
             # same case-insensitive comparison as above
-            if labels[idxs[0]].lower().startswith("log("):
+            if not (np.isfinite(ratio) and ratio > 0):
+                log.warning(
+                    "Could not obtain the ratio of data to model flux:"
+                    " not applying normalization guess."
+                )
+            elif labels[idxs[0]].lower().startswith("log("):
                 p0[idxs[0]] += np.log(ratio)
             elif labels[idxs[0]].lower().startswith("log10("):
                 p0[idxs[0]] += np.log10(ratio)
-- 
2.43.0


From 57cfe61b8667df51e9f8bc920bcd0123c62aff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 35/67] fix: plot data with negative fluxes

---
 src/naima/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 73fc834..533cf3f 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1059,7 +1059,8 @@ def _plot_data_to_ax(
         yerr_lo = data["flux_error_lo"][notul]
         y = data["flux"][notul].to(yerr_lo.unit)
         bad_err = np.where((y - yerr_lo) <= 0.0)
-        yerr_lo[bad_err] = y[bad_err] * (1.0 - 1e-7)
+        # errors cannot be negative if the flux is
+        yerr_lo[bad_err] = np.maximum(y[bad_err], 0 * y.unit) * (1.0 - 1e-7)
         yerr = u.Quantity((yerr_lo, data["flux_error_hi"][notul]))
         xerr = u.Quantity((data["energy_error_lo"], data["energy_error_hi"]))
 
-- 
2.43.0


From 5653703bcb19ec458fa875546ee2f0d02bd45728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 36/67] fix: plot_fit on a figure that is not the current one

---
 src/naima/plot.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 533cf3f..02a0fef 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -877,10 +877,8 @@ def plot_fit(
         f = figure
 
     if plotdata and plotresiduals:
-        ax1 = plt.subplot2grid((4, 1), (0, 0), rowspan=3)
-        ax2 = plt.subplot2grid((4, 1), (3, 0), sharex=ax1)
-        for subp in [ax1, ax2]:
-            f.add_subplot(subp)
+        ax1 = plt.subplot2grid((4, 1), (0, 0), rowspan=3, fig=f)
+        ax2 = plt.subplot2grid((4, 1), (3, 0), sharex=ax1, fig=f)
     else:
         ax1 = f.add_subplot(111)
 
-- 
2.43.0


From 8f03cdaa7a084835130e795935640a8530eeaa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 37/67] fix: plot_data in the energy units of the figure it is
 given

---
 src/naima/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 02a0fef..27f94a3 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1276,7 +1276,9 @@ def plot_data(
 
     # try to get units from previous plot in figure
     try:
-        old_e_unit = u.Unit(ax1.get_xlabel().split("[")[-1].split("]")[0])
+        old_e_unit = ax1.get_xlabel().split("[")[-1].split("]")[0]
+        # the unit is in latex_inline format
+        old_e_unit = u.Unit(old_e_unit.replace("$\\mathrm{", "").replace("}$", ""))
     except ValueError:
         old_e_unit = u.Unit("")
 
-- 
2.43.0


From 70e1ffaad8e7a88c78e9c5b5923eb4fa1c130cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 38/67] fix: residuals of models with their own energies

---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 27f94a3..beeb4f9 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1151,7 +1151,7 @@ def _plot_residuals_to_ax(
 
     interp = False
     if data_all["energy"].size != MLene.size or not np.allclose(
-        data_all["energy"].value, MLene.value
+        data_all["energy"].to(e_unit).value, MLene.value, rtol=1e-9, atol=0
     ):
         interp = True
         from scipy.interpolate import interp1d
-- 
2.43.0


From 34b92dbb42c61cda8a67285a045cc6240603630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 39/67] fix: convert only parameters that are a logarithm

---
 src/naima/analysis.py | 4 ++--
 src/naima/plot.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index f829e75..f187fc5 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -285,9 +285,9 @@ def save_results_table(
 
         t.add_row((label, med, lo, hi))
 
-        if convert_log and ("log10(" in label or "log(" in label):
+        ltype = label.split("(")[0] if "(" in label else None
+        if convert_log and ltype in ["log10", "log"]:
             nlabel = label.split("(")[-1].split(")")[0]
-            ltype = label.split("(")[0]
             if ltype == "log10":
                 new_dist = 10**dist
             elif ltype == "log":
diff --git a/src/naima/plot.py b/src/naima/plot.py
index beeb4f9..84c74bc 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -246,9 +246,9 @@ def _plot_chain_func(sampler, p, last_step=False):
 
     chain_props += info_line
 
-    if "log10(" in label or "log(" in label:
+    ltype = label.split("(")[0] if "(" in label else None
+    if ltype in ["log10", "log"]:
         nlabel = label.split("(")[-1].split(")")[0]
-        ltype = label.split("(")[0]
         if ltype == "log10":
             new_dist = 10**dist
         elif ltype == "log":
-- 
2.43.0


From 64634f9fa83e11014be3f4130ea71f1485f4c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 40/67] fix: labels with non-ASCII characters in the results
 table

---
 src/naima/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index f187fc5..e9cf452 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -247,7 +247,7 @@ def save_results_table(
     # Do we need more info on the distributions?
     t = Table(
         names=["label", "median", "unc_lo", "unc_hi"],
-        dtype=["S72", "f8", "f8", "f8"],
+        dtype=["U72", "f8", "f8", "f8"],
     )
     t["label"].description = "Name of the parameter"
     t["median"].description = "Median of the posterior distribution function"
-- 
2.43.0


From 6d4dedd6a19f0af8e59781361d83d888adf3855a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 41/67] fix: save and read blobs of any shape

---
 src/naima/analysis.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index e9cf452..36663bc 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -413,8 +413,11 @@ def save_run(filename, sampler, compression=True, clobber=False):
                 units = [item.unit.to_string()]
             elif isinstance(item, float):
                 units = [""]
-            elif (isinstance(item, tuple) or isinstance(item, list)) and np.all(
-                [isinstance(x, np.ndarray) for x in item]
+            elif (
+                (isinstance(item, tuple) or isinstance(item, list))
+                and np.all([isinstance(x, np.ndarray) for x in item])
+                # all of the same shape, so that they can be saved in a dataset
+                and len({np.shape(x) for x in item}) == 1
             ):
                 units = []
                 for x in item:
@@ -434,13 +437,19 @@ def save_run(filename, sampler, compression=True, clobber=False):
             blob = []
             for step in sampler.get_blobs():
                 for walkerblob in step:
-                    blob.append(walkerblob[idx])
-            blob = u.Quantity(blob).value
+                    value = walkerblob[idx]
+                    if isinstance(item, (tuple, list)):
+                        value = [
+                            u.Quantity(x, unit).value for x, unit in zip(value, units)
+                        ]
+                    else:
+                        value = u.Quantity(value, units[0]).value
+                    blob.append(value)
 
             blobdataset = group.create_dataset(
                 "blob{0}".format(idx), data=blob, compression=compression
             )
-            if len(units) > 1:
+            if isinstance(item, (tuple, list)):
                 for j, unit in enumerate(units):
                     blobdataset.attrs["unit{0}".format(j)] = unit
             else:
@@ -546,14 +555,16 @@ def read_run(filename, modelfn=None):
         # first read each of the blobs and convert to Quantities
         ds = f["mcmc/blob{0}".format(i)]
         rank = np.ndim(ds[0])
-        blobrank.append(rank)
-        if rank <= 1:
+        # a single array in a tuple had no number in earlier versions
+        is_array = "unit" in ds.attrs and (rank <= 1 or ds.shape[1] > 1)
+        blobrank.append(1 if is_array else 2)
+        if is_array:
             blobs.append(u.Quantity(ds[()], unit=ds.attrs["unit"]))
         else:
             blob = []
             for j in range(ds.shape[1]):
-                unit = "unit{0}".format(j) if ds.shape[1] > 1 else "unit"
-                blob.append(u.Quantity(ds[:, j, :], unit=ds.attrs[unit]))
+                unit = "unit{0}".format(j) if "unit0" in ds.attrs else "unit"
+                blob.append(u.Quantity(ds[:, j], unit=ds.attrs[unit]))
             blobs.append(blob)
 
     # Now organize in an array of objects
-- 
2.43.0


From b92f7c88c11e19708be23ffd839523b336920d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 42/67] fix: save_diagnostic_plots must not modify the labels
 it is given

---
 src/naima/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 36663bc..bfc0548 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -133,7 +133,9 @@ def save_diagnostic_plots(
     elif len(blob_labels) < len(modelidxs):
         # Add labels
         n = len(blob_labels)
-        blob_labels += ["Model output {0}".format(idx) for idx in modelidxs[n:]]
+        blob_labels = list(blob_labels) + [
+            "Model output {0}".format(idx) for idx in modelidxs[n:]
+        ]
 
     for modelidx, plot_sed, label in zip(modelidxs, sed, blob_labels):
         try:
-- 
2.43.0


From 54d44f35c44b06087efed5fe2be2791f55960a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 43/67] fix: restore the line width if plot_corner fails

---
 src/naima/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 84c74bc..e1ff079 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1442,7 +1442,7 @@ def plot_corner(sampler, show_ML=True, **kwargs):
     except ImportError:
         log.warning("The corner package is not installed; corner plot not available")
         f = None
-
-    plt.rcParams["lines.linewidth"] = oldlw
+    finally:
+        plt.rcParams["lines.linewidth"] = oldlw
 
     return f
-- 
2.43.0


From 28319c8b1055a752e814722c1b5420636472b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 44/67] fix: format a null upper uncertainty

---
 src/naima/plot.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index e1ff079..a5d9192 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -72,15 +72,16 @@ def round2(x, n):
     return y
 
 
-def _latex_value_error(val, elo, ehi=0, tol=0.25):
+def _latex_value_error(val, elo, ehi=None, tol=0.25):
     # null values and uncertainties have no order of magnitude
     order = int(np.log10(abs(val))) if val != 0 else 0
-    if elo == 0 and ehi == 0:
+    if elo == 0 and not ehi:
         return "${0} \\pm 0$".format(_latex_float(val))
     if order > 2 or order < -2:
         val /= 10**order
         elo /= 10**order
-        ehi /= 10**order
+        if ehi is not None:
+            ehi /= 10**order
     else:
         order = 0
     # quote a null uncertainty with the precision of the other
@@ -88,10 +89,11 @@ def _latex_value_error(val, elo, ehi=0, tol=0.25):
     nlo = -int(np.floor(np.log10(prec)))
     if prec * 10**nlo < 2:
         nlo += 1
-    if ehi:
+    if ehi is not None:
         # elo = round(elo,nlo)
-        nhi = -int(np.floor(np.log10(ehi)))
-        if ehi * 10**nhi < 2:
+        prec = ehi if ehi != 0 else elo
+        nhi = -int(np.floor(np.log10(prec)))
+        if prec * 10**nhi < 2:
             nhi += 1
         # ehi = round(ehi,nhi)
         if np.abs(elo - ehi) / ((elo + ehi) / 2.0) > tol:
-- 
2.43.0


From 4ed7d157d10a0bbc54fab77bb7eb9213a4474716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 45/67] fix: shade confidence bands of any confidence level

The gray level of the band was outside of [0, 1], and plotting failed, for
levels below 0.31 or above 6 sigma.
---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index a5d9192..37fdfde 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -581,7 +581,7 @@ def plot_CI(
     f_unit, sedf = sed_conversion(modelx, CI[0][0].unit, sed)
 
     for (ymin, ymax), conf in zip(CI, confs):
-        color = np.log(conf) / np.log(20) + 0.4
+        color = np.clip(np.log(conf) / np.log(20) + 0.4, 0, 1)
         ax.fill_between(
             modelx.to(e_unit).value,
             (ymax * sedf).to(f_unit).value,
-- 
2.43.0


From 5f2d79328ecf066d306c824a7c2c5c0f9bfced11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 46/67] fix: find the best fit model of samplers without blobs

Models that return a single array were taken for a list of outputs.
---
 src/naima/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 37fdfde..8ef7b87 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -691,8 +691,11 @@ def find_ML(sampler, modelidx):
         else:
             raise TypeError("Model {0} has wrong blob format".format(modelidx))
     elif modelidx is not None and hasattr(sampler, "modelfn"):
+        modelout = sampler.modelfn(MLp, sampler.data)
+        if isinstance(modelout, np.ndarray):
+            modelout = [modelout]
         blob = _process_blob(
-            [sampler.modelfn(MLp, sampler.data)],
+            [modelout],
             modelidx,
             energy=sampler.data["energy"],
         )
-- 
2.43.0


From 24314eeab6d3042ac43fcccb371b949ae36bf608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 47/67] fix: plot data given as a dict

plot_data documents dicts of validated columns as input, but selects rows from
them.
---
 src/naima/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 8ef7b87..7720ce5 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -4,6 +4,7 @@ from multiprocessing import Pool
 import astropy.units as u
 import numpy as np
 from astropy import log
+from astropy.table import QTable
 from emcee import autocorr
 
 from .extern.validator import validate_array
@@ -1261,7 +1262,7 @@ def plot_data(
         if hasattr(input_data, "data"):
             data = input_data.data
         elif isinstance(input_data, dict) and "energy" in input_data.keys():
-            data = input_data
+            data = QTable(input_data)
         else:
             log.warning(
                 "input_data format unknown, no plotting data! "
-- 
2.43.0


From d92f5e7e431838e0143532c0526ff88e2a8c2fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 48/67] fix: slider ranges of negative, null and large
 parameters

The range did not include the initial value, which was moved into it without
notice at the first update.
---
 src/naima/model_fitter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index e86cfdb..f47e7bb 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -203,6 +203,11 @@ class InteractiveModelFitter:
                 # only linear
                 pmin, pmax = valinit / 100, valinit * 100
 
+            # sliders move values out of their range into it
+            pmin, pmax = min(pmin, pmax, valinit), max(pmin, pmax, valinit)
+            if pmin == pmax:
+                pmin, pmax = valinit - 1, valinit + 1
+
             slider = Slider(
                 parax, label, pmin, pmax, valinit=valinit, valfmt="%.4g", **slider_props
             )
-- 
2.43.0


From 2a127dc5c3092382dbb83aeb4e9fd8b2f7f6c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 49/67] fix: show the parameters of a fit that did not converge

The parameters of the interactive fitter, and then of the sampler, were those
of the fit, but sliders and model line stayed at the previous ones.
---
 src/naima/model_fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/naima/model_fitter.py b/src/naima/model_fitter.py
index f47e7bb..d60289b 100644
--- a/src/naima/model_fitter.py
+++ b/src/naima/model_fitter.py
@@ -267,10 +267,10 @@ class InteractiveModelFitter:
         self.pars, P0_IS_ML = _prefit(self.pars, self.data, self.modelfn, None)
         autoupdate = self.autoupdate
         self.autoupdate = False
-        if P0_IS_ML:
-            for slider, val in zip(self.parsliders, self.pars):
-                slider.set_val(val)
-            self.update("after_fit")
+        # the parameters have changed too if the fit did not converge
+        for slider, val in zip(self.parsliders, self.pars):
+            slider.set_val(val)
+        self.update("after_fit")
         self.autoupdate = autoupdate
         self.P0_IS_ML = P0_IS_ML
 
-- 
2.43.0


From 6a897d977e76d683562ce6d3f4a482b760300428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 50/67] fix: accept the confidence level as a number in data
 table metadata

The documentation of get_sampler sets data.meta['keywords']['cl']=0.99, which
raised TypeError: only a mapping with a value, as read from IPAC tables, was
accepted.
---
 src/naima/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index cb042c5..6759738 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -198,7 +198,11 @@ def _validate_single_data_table(data_table, group=0):
     if "keywords" in data_table.meta.keys():
         if "cl" in data_table.meta["keywords"].keys():
             HAS_CL = True
-            CL = validate_scalar("cl", data_table.meta["keywords"]["cl"]["value"])
+            CL = data_table.meta["keywords"]["cl"]
+            if isinstance(CL, dict):
+                # as read from IPAC tables
+                CL = CL["value"]
+            CL = validate_scalar("cl", CL)
             data["cl"] = [CL] * len(data["energy"])
 
     if not HAS_CL and "cl" in data_table.colnames:
-- 
2.43.0


From f5ae92dfd9d6c7d7402cb5f9fe7485f99e1b6651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:19 +0000
Subject: [PATCH 51/67] fix: restore the PDF font type after saving diagnostic
 plots

---
 src/naima/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index bfc0548..cf5dcfe 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -77,6 +77,7 @@ def save_diagnostic_plots(
     # This function should never be interactive
     old_interactive = plt.rcParams["interactive"]
     plt.rcParams["interactive"] = False
+    old_fonttype = plt.rcParams["pdf.fonttype"]
 
     if pdf:
         plt.rc("pdf", fonttype=42)
@@ -160,8 +161,9 @@ def save_diagnostic_plots(
     if pdf:
         outpdf.close()
 
-    # set interactive back to original
+    # set interactive and pdf fonts back to original
     plt.rcParams["interactive"] = old_interactive
+    plt.rcParams["pdf.fonttype"] = old_fonttype
 
 
 def save_results_table(
-- 
2.43.0


From 5aa47e4021faa162d4d42b5986b66e262c0ec07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 52/67] fix: save a chain plot for parameters with slashes in
 or sharing their label

---
 src/naima/analysis.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index cf5dcfe..eb76815 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -88,6 +88,7 @@ def save_diagnostic_plots(
 
     # Chains
 
+    filenames = []
     for par, label in zip(range(sampler.get_chain().shape[-1]), sampler.labels):
         try:
             log.info("Plotting chain of parameter {0}...".format(label))
@@ -97,7 +98,13 @@ def save_diagnostic_plots(
             else:
                 if "log(" in label or "log10(" in label:
                     label = label.split("(")[-1].split(")")[0]
-                f.savefig("{0}_chain_{1}.png".format(outname, label), dpi=dpi)
+                # labels may include units (1/cm3) and be repeated
+                label = label.replace("/", "_")
+                filename = "{0}_chain_{1}.png".format(outname, label)
+                if filename in filenames:
+                    filename = "{0}_chain_{1}_par{2}.png".format(outname, label, par)
+                filenames.append(filename)
+                f.savefig(filename, dpi=dpi)
             f.clf()
             plt.close(f)
         except Exception as e:
-- 
2.43.0


From ea7103a7ee7680ea5f959418dd804ef690d121b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 53/67] fix: reject target densities of other physical types in
 PionDecayKelner06

---
 src/naima/radiative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 7c07c76..2b74a5a 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1789,7 +1789,7 @@ class PionDecayKelner06(BaseRadiative):
                 else:
                     self.specpp[i] = self._calc_specpp_loE(Egamma)
 
-        density_factor = (self.nh / (1 * u.Unit("1/cm3"))).decompose().value
+        density_factor = self.nh.to("1/cm3").value
 
         return density_factor * self.specpp.to("1/(s eV)")
 
-- 
2.43.0


From 8257777f23cb167845be0abe36f97cb81e2d4be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 54/67] fix: plot_fit without data of models with a deep cutoff

The y limit was taken from the autoscaled axis, whose margin may put it above
the maximum of the model, and plot_fit failed with ValueError.
---
 src/naima/plot.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 7720ce5..166e1bd 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -962,14 +962,17 @@ def plot_fit(
             ndecades = 20
         # restrict y axis to ndecades to avoid autoscaling deep exponentials
         xmin, xmax, ymin, ymax = ax1.axis()
-        ymin = max(ymin, ymax / 10**ndecades)
+        f_unit, sedf = sed_conversion(model_ML[0], model_ML[1].unit, sed)
+        y_ML = (model_ML[1] * sedf).to(f_unit).value
+        # the margin of the axis may put ymax many decades above the model
+        ymin = max(ymin, min(ymax, np.max(y_ML)) / 10**ndecades)
         ax1.set_ylim(bottom=ymin)
         # scale x axis to largest model_ML x point within ndecades decades of
         # maximum
-        f_unit, sedf = sed_conversion(model_ML[0], model_ML[1].unit, sed)
-        hi = np.where((model_ML[1] * sedf).to(f_unit).value > ymin)
-        xmax = np.max(model_ML[0][hi])
-        ax1.set_xlim(right=10 ** np.ceil(np.log10(xmax.to(e_unit).value)))
+        hi = np.where(y_ML > ymin)
+        if hi[0].size > 0:
+            xmax = np.max(model_ML[0][hi])
+            ax1.set_xlim(right=10 ** np.ceil(np.log10(xmax.to(e_unit).value)))
 
     if e_range is not None:
         # ensure that xmin/xmax contains e_range
-- 
2.43.0


From 1e06dd3ea31ef23649800f71999e4052b7a63a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 55/67] fix: accept any iterable of seed photon fields, as
 documented

A tuple or an array of seed photon fields raised AttributeError.
---
 src/naima/radiative.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 2b74a5a..19fdef3 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -448,8 +448,10 @@ class InverseCompton(BaseElectron):
 
         # Allow for seed_photon_fields definitions of the type 'CMB-NIR-FIR' or
         # 'CMB'
-        if type(seed_photon_fields) is not list:
+        if isinstance(seed_photon_fields, str):
             seed_photon_fields = seed_photon_fields.split("-")
+        elif isinstance(seed_photon_fields, dict):
+            raise TypeError("seed_photon_fields should be a list, not a dictionary")
 
         result = OrderedDict()
 
-- 
2.43.0


From 9181495fd4d353b908cf0f927cdf7873ace6739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:06 +0000
Subject: [PATCH 56/67] fix: plot_blob of a scalar blob with a single data
 point

It was taken for the spectrum at the energy of the data point.
---
 src/naima/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index 166e1bd..a022482 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -300,7 +300,7 @@ def _process_blob(sampler, modelidx, last_step=False, energy=None):
         last_step = True
 
     if isinstance(blob0, u.Quantity):
-        if blob0.size == energy.size:
+        if blob0.size == energy.size and not blob0.isscalar:
             # Energy array for blob is not provided, use data['energy']
             modelx = energy
         elif blob0.size == 1:
-- 
2.43.0


From f919d7e18ae13728573af276361bbfd6bf012b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:11 +0000
Subject: [PATCH 57/67] fix: InverseCompton took negative seed numbers and
 rejected numpy integers

flux(e, seed=-1) silently returned the last seed photon field, numbers further
below zero raised IndexError and numpy integers a ValueError about a name.
---
 src/naima/radiative.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 19fdef3..2038884 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -738,7 +738,7 @@ class InverseCompton(BaseElectron):
 
         if seed is not None:
             # Test seed argument
-            if not isinstance(seed, int):
+            if not isinstance(seed, (int, np.integer)):
                 if seed not in self.seed_photon_fields:
                     raise ValueError(
                         "Provided seed photon field name is not in"
@@ -746,9 +746,9 @@ class InverseCompton(BaseElectron):
                     )
                 else:
                     seed = list(self.seed_photon_fields.keys()).index(seed)
-            elif seed >= len(self.seed_photon_fields):
+            elif not 0 <= seed < len(self.seed_photon_fields):
                 raise ValueError(
-                    "Provided seed photon field number is larger"
+                    "Provided seed photon field number is negative or larger"
                     " than the number of seed photon fields defined in the"
                     " InverseCompton instance"
                 )
-- 
2.43.0


From 62da9e728173e9b19e2a138e834454ef6da5185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:11 +0000
Subject: [PATCH 58/67] fix: InverseCompton silently dropped seed photon fields
 of repeated name

The fields are stored by name, so that of two fields of the same name only the
last one contributed to the spectrum.
---
 src/naima/radiative.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index 2038884..f970e3a 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -547,6 +547,11 @@ class InverseCompton(BaseElectron):
                     "Unable to process seed photon field: {0}".format(inseed)
                 )
 
+            if name in result:
+                # would silently replace the other field
+                raise ValueError(
+                    "There is more than one seed photon field called {0}".format(name)
+                )
             result[name] = seed
 
         return result
-- 
2.43.0


From 70366777f20daead760794bbd49107443ef7e0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 59/67] fix: save_results_table mixed up the units of a blob

Values of a scalar blob were taken without converting them to the unit stated
in the table, so that those of samples in other units were wrong.
---
 src/naima/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index eb76815..e3be4fd 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -334,7 +334,7 @@ def save_results_table(
                         for walkerblob in step:
                             blobl.append(walkerblob[idx])
                 if unit:
-                    dist = np.array([b.value for b in blobl])
+                    dist = np.array([b.to(unit).value for b in blobl])
                     metadata["blob{0}_unit".format(idx)] = unit.to_string()
                 else:
                     dist = np.array(blobl)
-- 
2.43.0


From aa0e83cb160f9f54dc0c57f5cb5f050c6a66ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 60/67] fix: save_results_table cut labels longer than 72
 characters

---
 src/naima/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index e3be4fd..495296e 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -258,7 +258,8 @@ def save_results_table(
     # Do we need more info on the distributions?
     t = Table(
         names=["label", "median", "unc_lo", "unc_hi"],
-        dtype=["U72", "f8", "f8", "f8"],
+        # do not cut long labels
+        dtype=["U{0}".format(max([72, *map(len, labels)])), "f8", "f8", "f8"],
     )
     t["label"].description = "Name of the parameter"
     t["median"].description = "Median of the posterior distribution function"
-- 
2.43.0


From dbf1046dabbaa76ff54cffd5d9940c291c02a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:48 +0000
Subject: [PATCH 61/67] fix: labels given as array or iterator failed in
 get_sampler and save_run

---
 src/naima/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/naima/core.py b/src/naima/core.py
index 9aca73e..6a36904 100644
--- a/src/naima/core.py
+++ b/src/naima/core.py
@@ -359,10 +359,10 @@ def get_sampler(
     if labels is None:
         # First is normalization
         labels = ["norm"] + ["par{0}".format(i) for i in range(1, len(p0))]
-    elif len(labels) < len(p0):
-        labels = list(labels) + [
-            "par{0}".format(i) for i in range(len(labels), len(p0))
-        ]
+    else:
+        # any iterable of strings, e.g. an array
+        labels = [str(label) for label in labels]
+        labels += ["par{0}".format(i) for i in range(len(labels), len(p0))]
 
     # do not modify the array or list given by the user
     p0 = np.array(p0, dtype=float)
-- 
2.43.0


From 7a2eaa6945b544b5ea59cb466c1a95f0477473d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 62/67] fix: pion decay lookup table misused for protons
 outside of its energies

---
 src/naima/radiative.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index f970e3a..a3af35d 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -1560,6 +1560,10 @@ class PionDecay(BaseProton):
                 diffsigma = self._diffsigma(Ep.value, Eg.value)
             else:
                 diffsigma = self.diffsigma(Ep.value, Eg.value)
+                if self.useLUT:
+                    # protons outside of the table
+                    out = ~self.diffsigma.inside(Ep.value)
+                    diffsigma[out] = self._diffsigma(Ep.value[out], Eg.value)
             diffsigma = diffsigma * u.Unit("cm2/GeV")
             specpp.append(trapz_loglog(diffsigma * J, Ep))
 
@@ -1826,8 +1830,13 @@ class LookupTable:
         lut = f_lut.f.lut
         self.int_lut = RectBivariateSpline(X, Y, 10**lut, kx=3, ky=3, s=0)
         self.fname = filename
+        self.Xrange = 10 ** X[0], 10 ** X[-1]
         self.Yrange = 10 ** Y[0], 10 ** Y[-1]
 
+    def inside(self, X):
+        """Which of the X are inside of the lookup table"""
+        return (self.Xrange[0] <= X) & (X <= self.Xrange[1])
+
     def covers(self, Y):
         """Whether Y is inside of the lookup table"""
         return self.Yrange[0] <= np.min(Y) and np.max(Y) <= self.Yrange[1]
-- 
2.43.0


From 774b49bb7dba64023353353e2bc5faefcdcfcb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:39 +0000
Subject: [PATCH 63/67] fix: corner and diagnostic plots failed for models with
 a single parameter

---
 src/naima/plot.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/naima/plot.py b/src/naima/plot.py
index a022482..08edbdd 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -1447,7 +1447,15 @@ def plot_corner(sampler, show_ML=True, **kwargs):
 
         corner_opts.update(kwargs)
 
-        f = corner(sampler.get_chain(flat=True), **corner_opts)
+        truths = corner_opts["truths"]
+        if sampler.get_chain().shape[-1] == 1 and truths is not None:
+            # corner fails to draw the truths of a single parameter
+            corner_opts["truths"] = None
+            f = corner(sampler.get_chain(flat=True), **corner_opts)
+            if truths[0] is not None:
+                f.axes[0].axvline(truths[0], color=corner_opts["truth_color"])
+        else:
+            f = corner(sampler.get_chain(flat=True), **corner_opts)
     except ImportError:
         log.warning("The corner package is not installed; corner plot not available")
         f = None
-- 
2.43.0


From 994f7192a272c6a6882d2d0013aa60dbabd8676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 64/67] fix: name of exponentiated parameters whose labels have
 units in parentheses

---
 src/naima/analysis.py |  6 +++---
 src/naima/plot.py     | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/naima/analysis.py b/src/naima/analysis.py
index 495296e..0cad311 100644
--- a/src/naima/analysis.py
+++ b/src/naima/analysis.py
@@ -9,7 +9,7 @@ from astropy import log
 from astropy.io.misc.hdf5 import read_table_hdf5, write_table_hdf5
 from astropy.table import Table
 
-from .plot import find_ML
+from .plot import _inner_label, find_ML
 
 try:
     import yaml  # noqa
@@ -97,7 +97,7 @@ def save_diagnostic_plots(
                 f.savefig(outpdf, format="pdf", dpi=dpi)
             else:
                 if "log(" in label or "log10(" in label:
-                    label = label.split("(")[-1].split(")")[0]
+                    label = _inner_label(label)
                 # labels may include units (1/cm3) and be repeated
                 label = label.replace("/", "_")
                 filename = "{0}_chain_{1}.png".format(outname, label)
@@ -299,7 +299,7 @@ def save_results_table(
 
         ltype = label.split("(")[0] if "(" in label else None
         if convert_log and ltype in ["log10", "log"]:
-            nlabel = label.split("(")[-1].split(")")[0]
+            nlabel = _inner_label(label)
             if ltype == "log10":
                 new_dist = 10**dist
             elif ltype == "log":
diff --git a/src/naima/plot.py b/src/naima/plot.py
index 08edbdd..8742675 100644
--- a/src/naima/plot.py
+++ b/src/naima/plot.py
@@ -116,6 +116,17 @@ def _latex_value_error(val, elo, ehi=None, tol=0.25):
     return "$" + string + "$"
 
 
+def _inner_label(label):
+    """Text in the first parentheses of a label, which may contain others"""
+    start = label.index("(") + 1
+    depth = 1
+    for end, char in enumerate(label[start:], start):
+        depth += {"(": 1, ")": -1}.get(char, 0)
+        if depth == 0:
+            return label[start:end]
+    return label[start:]
+
+
 def _plot_chain_func(sampler, p, last_step=False):
     chain = sampler.get_chain()
     label = sampler.labels[p]
@@ -251,7 +262,7 @@ def _plot_chain_func(sampler, p, last_step=False):
 
     ltype = label.split("(")[0] if "(" in label else None
     if ltype in ["log10", "log"]:
-        nlabel = label.split("(")[-1].split(")")[0]
+        nlabel = _inner_label(label)
         if ltype == "log10":
             new_dist = 10**dist
         elif ltype == "log":
-- 
2.43.0


From fffa10c6d7eb91043846d1a9483b378e7df60c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:49 +0000
Subject: [PATCH 65/67] fix: upper limit flags of FITS tables (integers of any
 size, byte strings) were rejected

---
 src/naima/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 6759738..462f355 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -173,7 +173,10 @@ def _validate_single_data_table(data_table, group=0):
     if "ul" in data_table.keys():
         # Check if it is a integer or boolean flag
         ul_col = data_table["ul"]
-        if ul_col.dtype.type is np.int_ or ul_col.dtype.type is np.bool_:
+        if ul_col.dtype.kind == "S":
+            # strings as read from FITS or HDF5 files
+            ul_col = np.array(ul_col).astype(str)
+        if ul_col.dtype.kind in "iub":
             data["ul"] = np.array(ul_col, dtype=bool)
         elif ul_col.dtype.type is np.str_:
             strbool = True
-- 
2.43.0


From e49b428326f8141627e2e753cb3df658558ed81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:45 +0000
Subject: [PATCH 66/67] fix: trapz_loglog overflow between values many decades
 apart

x2 y1 (x2 / x1)^b can overflow although it equals x2 y2, so that the flux of
InverseCompton was infinite at some energies.
---
 src/naima/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/naima/utils.py b/src/naima/utils.py
index 462f355..c3f25bd 100644
--- a/src/naima/utils.py
+++ b/src/naima/utils.py
@@ -359,8 +359,7 @@ def trapz_loglog(y, x, axis=-1, intervals=False):
         # normal powerlaw integration
         trapzs = np.where(
             np.abs(b + 1.0) > 1e-10,
-            (y[slice1] * (x[slice2] * (x[slice2] / x[slice1]) ** b - x[slice1]))
-            / (b + 1),
+            (x[slice2] * y[slice2] - x[slice1] * y[slice1]) / (b + 1),
             x[slice1] * y[slice1] * np.log(x[slice2] / x[slice1]),
         )
 
-- 
2.43.0


From cea8697ce7272d414c8593da3364c98551dff578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:06 +0000
Subject: [PATCH 67/67] fix: InverseCompton ignored the angle of monochromatic
 and tabulated seed photon fields

---
 src/naima/radiative.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/naima/radiative.py b/src/naima/radiative.py
index a3af35d..41b07f0 100644
--- a/src/naima/radiative.py
+++ b/src/naima/radiative.py
@@ -620,12 +620,14 @@ class InverseCompton(BaseElectron):
 
     @staticmethod
     def _iso_ic_on_monochromatic(
-        electron_energy, seed_energy, seed_edensity, gamma_energy
+        electron_energy, seed_energy, seed_edensity, gamma_energy, theta=None
     ):
         """
         IC cross-section for an isotropic interaction with a monochromatic
         photon spectrum following Eq. 22 of Aharonian & Atoyan 1981, Ap&SS 79,
-        321 (`http://adsabs.harvard.edu/abs/1981Ap%26SS..79..321A`_)
+        321 (`http://adsabs.harvard.edu/abs/1981Ap%26SS..79..321A`_), or for
+        an interaction at the angle `theta` (in radians), of which it is the
+        average over angles, if it is given.
         """
         photE0 = (seed_energy / mec2).decompose().value
         phn = seed_edensity
@@ -638,13 +640,18 @@ class InverseCompton(BaseElectron):
         b = 4 * photE0 * electron_energy
         w = gamma_energy / electron_energy
         q = w / (b * (1 - w))
-        fic = (
-            2 * q * np.log(q)
-            + (1 + 2 * q) * (1 - q)
-            + (1.0 / 2.0) * (b * q) ** 2 * (1 - q) / (1 + b * q)
-        )
+        if theta is None:
+            qmax = q
+            fic = (
+                2 * q * np.log(q)
+                + (1 + 2 * q) * (1 - q)
+                + (1.0 / 2.0) * (b * q) ** 2 * (1 - q) / (1 + b * q)
+            )
+        else:
+            qmax = 2 * q / (1 - np.cos(theta))
+            fic = 1 + w**2 / (2 * (1 - w)) - 2 * qmax + 2 * qmax**2
 
-        gamint = fic * heaviside(1 - q) * heaviside(q - 1.0 / (4 * electron_energy**2))
+        gamint = fic * heaviside(1 - qmax) * heaviside(q - 1.0 / (4 * electron_energy**2))
         gamint[np.isnan(gamint)] = 0.0
 
         if phn.size > 1:
@@ -686,11 +693,15 @@ class InverseCompton(BaseElectron):
                     )
             else:
                 uf = 1
+                theta = None
+                if not self.seed_photon_fields[seed]["isotropic"]:
+                    theta = self.seed_photon_fields[seed]["theta"].to("rad").value
                 gamint = self._iso_ic_on_monochromatic(
                     self._gam,
                     self.seed_photon_fields[seed]["energy"],
                     self.seed_photon_fields[seed]["photon_density"],
                     Eph,
+                    theta,
                 )
 
             lum = uf * Eph * trapz_loglog(self._nelec * gamint, self._gam)
-- 
2.43.0

