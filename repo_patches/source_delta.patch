From 596acf90c3cea08b0ea6285f75c04b0dde6563c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:16 +0000
Subject: [PATCH 001/118] fix: write prng n_threads and normal_modes fft_* as
 XML attributes

They were declared as tag values, so a checkpoint of a run that sets them
contained a tag inside the opening tag and could not be parsed back.
---
 ipi/inputs/normalmodes.py | 6 ++----
 ipi/inputs/prng.py        | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/ipi/inputs/normalmodes.py b/ipi/inputs/normalmodes.py
index 4742540..e1fd6a3 100644
--- a/ipi/inputs/normalmodes.py
+++ b/ipi/inputs/normalmodes.py
@@ -159,21 +159,19 @@ class InputNormalModes(Input):
             },
         ),
         "fft_threads": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": int,
                 "default": 1,
                 "help": "The number of threads to be used for the FFT.",
-                "dimension": None,
             },
         ),
         "fft_float32": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": bool,
                 "default": False,
                 "help": "Whether to use single precision FFT.",
-                "dimension": None,
             },
         ),
     }
diff --git a/ipi/inputs/prng.py b/ipi/inputs/prng.py
index 5a66027..54d42d2 100644
--- a/ipi/inputs/prng.py
+++ b/ipi/inputs/prng.py
@@ -34,7 +34,7 @@ class InputRandom(Input):
 
     attribs = {
         "n_threads": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": int,
                 "default": 1,
-- 
2.43.0


From 56fdd2b685a44a7a25308989af65846e52edf8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:15 +0000
Subject: [PATCH 002/118] fix: re-apply constraints after the last Suzuki-Chin
 momentum update in BAOAB

With the baoab splitting the |f|^2 kick closes the step, and fixcom (and fixed
atoms) were not enforced after it: momenta were left unconstrained at the end
of every step, and the removal done when restarting changed the conserved
quantity.
---
 ipi/engine/motion/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index bc9b281..8cc76fe 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -754,6 +754,7 @@ class SCIntegrator(NVTIntegrator):
             self.pconstraints()
             self.mtsprop_ab(0)
             self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pconstraints()
 
 
 class SCNPTIntegrator(SCIntegrator):
@@ -827,3 +828,4 @@ class SCNPTIntegrator(SCIntegrator):
             self.mtsprop_ab(0)
             self.barostat.pscstep()
             self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pconstraints()
-- 
2.43.0


From 84a5457de7189588a5fdf578de2910c4fbec2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:15 +0000
Subject: [PATCH 003/118] fix: flexible-cell barostats mishandle cell
 velocities with repeated diagonal entries

The Taylor branch lacked the factor dt, and velocity matrices with two equal
(e.g. fixed) diagonal entries are defective so the eigendecomposition fails.
---
 ipi/engine/barostats.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 328db00..0fe46a9 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1110,9 +1110,10 @@ class BaroRGB(Barostat):
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
         # check eigen vector exists
-        if np.count_nonzero(v.diagonal()) == 0:
+        if len(np.unique(v.diagonal())) < 3:
             # compute sinhv/v by directly taylor, if eigen vector not exists
-            sinh = mat_taylor(v * halfdt, function="sinhx/x")
+            # (an upper-triangular v with repeated eigenvalues can be defective)
+            sinh = halfdt * mat_taylor(v * halfdt, function="sinhx/x")
         else:
             eigvals, eigvecs = np.linalg.eig(v)
             ieigvecs = np.linalg.inv(eigvecs)
@@ -1400,9 +1401,10 @@ class BaroMTK(Barostat):
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
         # check eigen vector exists
-        if np.count_nonzero(v.diagonal()) == 0:
+        if len(np.unique(v.diagonal())) < 3:
             # compute sinhv/v by directly taylor, if eigen vector not exists
-            sinh = mat_taylor(v * halfdt, function="sinhx/x")
+            # (an upper-triangular v with repeated eigenvalues can be defective)
+            sinh = halfdt * mat_taylor(v * halfdt, function="sinhx/x")
         else:
             eigvals, eigvecs = np.linalg.eig(v)
             ieigvecs = np.linalg.inv(eigvecs)
-- 
2.43.0


From 067be20d3741e7ebf15c897f8e5a948aa79993b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:36 +0000
Subject: [PATCH 004/118] fix: centroid propagation ignores changes of the
 masses and of the time step

---
 ipi/engine/motion/dynamics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 8cc76fe..438df20 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -320,6 +320,7 @@ class DummyIntegrator:
             name="qdt_on_m",
             value=np.zeros(3 * self.beads.natoms),
             func=lambda: self.qdt / dstrip(self.beads.m3)[0],
+            dependencies=[self._qdt, self.beads._m3],
         )
         self._pdt = depend_array(
             name="pdt",
-- 
2.43.0


From b58f72d3da8dff1fe69e393ddc75f32d49fb5d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:36 +0000
Subject: [PATCH 005/118] fix: CMD-like normal mode masses do not follow
 changes of the temperature

---
 ipi/engine/normalmodes.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index e3c6afd..1951781 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -285,14 +285,14 @@ class NormalModes:
             name="nm_factor",
             value=np.zeros(self.nbeads, float),
             func=self.get_nmm,
-            dependencies=[self._nm_freqs, self._mode],
+            dependencies=[self._nm_freqs, self._mode, self._omegak],
         )
         # add o_nm_factor for the dynamical mass in the case of open paths
         self._o_nm_factor = depend_array(
             name="nmm",
             value=np.zeros(self.nbeads, float),
             func=self.get_o_nmm,
-            dependencies=[self._nm_freqs, self._mode],
+            dependencies=[self._nm_freqs, self._mode, self._o_omegak],
         )
         self._dynm3 = depend_array(
             name="dynm3",
@@ -588,6 +588,7 @@ class NormalModes:
         # also checks that the frequencies and the mode given in init are
         # consistent with the beads and ensemble
 
+        omegak = self.omegak
         dmf = np.ones(self.nbeads, float)
         if self.mode == "rpmd":
             if len(self.nm_freqs) > 0:
@@ -598,7 +599,7 @@ class NormalModes:
                     "Manual path mode requires (nbeads-1) frequencies, one for each internal mode of the path."
                 )
             for b in range(1, self.nbeads):
-                sk = self.omegak[b] / self.nm_freqs[b - 1]
+                sk = omegak[b] / self.nm_freqs[b - 1]
                 dmf[b] = sk**2
         elif self.mode == "pa-cmd":
             if len(self.nm_freqs) > 1:
@@ -611,14 +612,14 @@ class NormalModes:
                     "PA-CMD mode requires the target frequency of all the internal modes."
                 )
             for b in range(1, self.nbeads):
-                sk = self.omegak[b] / self.nm_freqs[0]
+                sk = omegak[b] / self.nm_freqs[0]
                 info(
                     " ".join(
                         [
                             "NM FACTOR",
                             str(b),
                             str(sk),
-                            str(self.omegak[b]),
+                            str(omegak[b]),
                             str(self.nm_freqs[0]),
                         ]
                     ),
@@ -640,8 +641,8 @@ class NormalModes:
             for b in range(1, self.nbeads):
                 sk = 1.0 / np.sqrt(
                     (wt) ** 2
-                    * (1 + (wmax / self.omegak[1]) ** 2)
-                    / (wmax**2 + (self.omegak[b]) ** 2)
+                    * (1 + (wmax / omegak[1]) ** 2)
+                    / (wmax**2 + (omegak[b]) ** 2)
                 )
                 dmf[b] = sk**2
 
@@ -655,6 +656,7 @@ class NormalModes:
         # also checks that the frequencies and the mode given in init are
         # consistent with the beads and ensemble
 
+        omegak = self.o_omegak
         dmf = np.ones(self.nbeads, float)
         if self.mode == "rpmd":
             if len(self.nm_freqs) > 0:
@@ -665,7 +667,7 @@ class NormalModes:
                     "Manual path mode requires (nbeads-1) frequencies, one for each internal mode of the path."
                 )
             for b in range(1, self.nbeads):
-                sk = self.o_omegak[b] / self.nm_freqs[b - 1]
+                sk = omegak[b] / self.nm_freqs[b - 1]
                 dmf[b] = sk**2
         elif self.mode == "pa-cmd":
             if len(self.nm_freqs) > 1:
@@ -678,14 +680,14 @@ class NormalModes:
                     "PA-CMD mode requires the target frequency of all the internal modes."
                 )
             for b in range(1, self.nbeads):
-                sk = self.o_omegak[b] / self.nm_freqs[0]
+                sk = omegak[b] / self.nm_freqs[0]
                 info(
                     " ".join(
                         [
                             "NM FACTOR",
                             str(b),
                             str(sk),
-                            str(self.o_omegak[b]),
+                            str(omegak[b]),
                             str(self.nm_freqs[0]),
                         ]
                     ),
@@ -707,8 +709,8 @@ class NormalModes:
             for b in range(1, self.nbeads):
                 sk = 1.0 / np.sqrt(
                     (wt) ** 2
-                    * (1 + (wmax / self.o_omegak[1]) ** 2)
-                    / (wmax**2 + (self.o_omegak[b]) ** 2)
+                    * (1 + (wmax / omegak[1]) ** 2)
+                    / (wmax**2 + (omegak[b]) ** 2)
                 )
                 dmf[b] = sk**2
 
-- 
2.43.0


From 7bb7da45769e3f6cb33c26b6a30a756b37c98753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:55 +0000
Subject: [PATCH 006/118] fix: writing part of a stale synchronized array keeps
 stale values in the rest

---
 ipi/utils/depend.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index bae8afe..da18267 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -486,6 +486,10 @@ class depend_array(depend_base):
 
     def __setitem__(self, index, value):
         with self._threadlock:
+            # A partial write to a stale synchronized array must start from
+            # up-to-date values, or the other entries would stay stale.
+            if self._tainted[0] and self._synchro is not None:
+                self._refresh()
             self._value[index] = value
             # Skip update_man() on plain leaf-storage arrays (no synchro,
             # no computed func) — there is nothing for it to do.
@@ -502,6 +506,14 @@ class depend_array(depend_base):
         silently desync any existing slice's `_value` from the parent's.
         """
         with self._threadlock:
+            # Setting a slice-view is a partial write to its parent
+            if (
+                manual
+                and self._parent is not None
+                and self._synchro is not None
+                and self._tainted[0]
+            ):
+                self._refresh()
             self._value[...] = value
             if manual and (self._synchro is not None or self._func is not None):
                 self.update_man()
-- 
2.43.0


From 352ac7f4882f2a37c2ebfc45370b6bde33dddc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:49 +0000
Subject: [PATCH 007/118] fix: Suzuki-Chin virial is not updated when positions
 or cell change

---
 ipi/engine/forces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index ca356dc..4b637ce 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -984,7 +984,7 @@ class Forces:
 
         self._virsc = depend_value(
             name="virsc",
-            dependencies=[self._potssc],
+            dependencies=[self._virssc],
             func=(lambda: np.sum(self.virssc, axis=0)),
         )
 
-- 
2.43.0


From b1413de9ab1e0ce6d8869c43a9ac30458a500528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:29 +0000
Subject: [PATCH 008/118] fix: spring forces are not updated when the masses
 change

---
 ipi/engine/beads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/beads.py b/ipi/engine/beads.py
index be569ad..f5fdc9b 100644
--- a/ipi/engine/beads.py
+++ b/ipi/engine/beads.py
@@ -138,7 +138,7 @@ class Beads:
             name="fpath",
             value=np.zeros((nbeads, 3 * natoms), float),
             func=self.get_fpath,
-            dependencies=[self._q],
+            dependencies=[self._q, self._m3],
         )
 
         # create proxies to access the individual beads as Atoms objects
-- 
2.43.0


From a7ca68895e26100544d0f252bf5991e5b72d1eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 009/118] fix: number of beads of a planetary simulation is
 lost in the restart file

---
 ipi/inputs/motion/planetary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipi/inputs/motion/planetary.py b/ipi/inputs/motion/planetary.py
index 5a15ccd..f5a30f7 100644
--- a/ipi/inputs/motion/planetary.py
+++ b/ipi/inputs/motion/planetary.py
@@ -132,6 +132,7 @@ class InputPlanetary(InputDictionary):
         self.thermostat.store(plan.ccdyn.thermostat)
         self.nmts.store(plan.ccdyn.nmts)
         self.nsamples.store(plan.nsamples)
+        self.nbeads.store(plan.nbeads)
         self.stride.store(plan.stride)
         self.screen.store(plan.screen)
 
-- 
2.43.0


From 06ff18da5f868c7cc4e145d37a038923dd2b416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 010/118] fix: wthreshold, precheck and checkweights of scp are
 lost in the restart file

---
 ipi/inputs/motion/scphonons.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/inputs/motion/scphonons.py b/ipi/inputs/motion/scphonons.py
index 093093c..6b87e1d 100644
--- a/ipi/inputs/motion/scphonons.py
+++ b/ipi/inputs/motion/scphonons.py
@@ -182,6 +182,9 @@ class InputSCPhonons(InputDictionary):
         self.displace_mode.store(phonons.displace_mode)
         self.nparallel.store(phonons.nparallel)
         self.batch_weight_exponent.store(phonons.batch_weight_exponent)
+        self.wthreshold.store(phonons.wthreshold)
+        self.precheck.store(phonons.precheck)
+        self.checkweights.store(phonons.checkweights)
 
     def fetch(self):
         rv = super(InputSCPhonons, self).fetch()
-- 
2.43.0


From 5fe66a6d46c2a2105b02982741da64a857dcf6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 011/118] fix: max_workers, consolidate_messages and batch_size
 are ignored by ffcavphsocket

---
 ipi/inputs/forcefields.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index a285c3f..c5dac48 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -1322,7 +1322,10 @@ class InputFFCavPhSocket(InputFFSocket):
                 mode=self.mode.fetch(),
                 timeout=self.timeout.fetch(),
                 match_mode=self.matching.fetch(),
+                max_workers=self.max_workers.fetch(),
                 exit_on_disconnect=self.exit_on_disconnect.fetch(),
+                consolidate_messages=self.consolidate_messages.fetch(),
+                batch_size=self.batch_size.fetch(),
             ),
             charge_array=self.charge_array.fetch(),
             apply_photon=self.apply_photon.fetch(),
-- 
2.43.0


From 6cffbe6f4f2f9457cd4d7a4e7b047e1a41065c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 012/118] fix: a committee of ffdirect forcefields cannot be
 written to a restart file

---
 ipi/inputs/forcefields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index c5dac48..cd9cdc3 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -1019,6 +1019,10 @@ class InputFFCommittee(InputForceField):
                     _iobj = InputFFSocket()
                     _iobj.store(_obj)
                     self.extra[_ii] = ("ffsocket", _iobj)
+                elif isinstance(_obj, FFDirect):
+                    _iobj = InputFFDirect()
+                    _iobj.store(_obj)
+                    self.extra[_ii] = ("ffdirect", _iobj)
                 elif isinstance(_obj, FFLennardJones):
                     _iobj = InputFFLennardJones()
                     _iobj.store(_obj)
-- 
2.43.0


From 0182e1aa3debfc84f0c8661d8ac0539f1897fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:50 +0000
Subject: [PATCH 013/118] fix: constrained dynamics cannot be set up from the
 input file

---
 ipi/engine/motion/constrained_dynamics.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ipi/engine/motion/constrained_dynamics.py b/ipi/engine/motion/constrained_dynamics.py
index 3749d82..d59294d 100644
--- a/ipi/engine/motion/constrained_dynamics.py
+++ b/ipi/engine/motion/constrained_dynamics.py
@@ -62,7 +62,7 @@ class ConstrainedDynamics(Dynamics):
         thermostat=None,
         barostat=None,
         fixcom=False,
-        fixatoms=None,
+        fixatoms_dof=None,
         nmts=None,
         nsteps_geo=1,
         nsteps_o=1,
@@ -77,7 +77,7 @@ class ConstrainedDynamics(Dynamics):
                 motion will be constrained or not. Defaults to False.
         """
 
-        super(Dynamics, self).__init__(fixcom=fixcom, fixatoms=fixatoms)
+        super(Dynamics, self).__init__(fixcom=fixcom, fixatoms_dof=fixatoms_dof)
         self._dt = depend_value(name="dt", value=timestep)
 
         if thermostat is None:
@@ -137,11 +137,7 @@ class ConstrainedDynamics(Dynamics):
                 "Cannot simultaneously fix cell CoM and enforce Eckart constraints!"
             )
 
-        if fixatoms is None:
-            self.fixatoms = np.zeros(0, int)
-        else:
-            self.fixatoms = fixatoms
-        if len(self.fixatoms) > 0:
+        if len(self.fixatoms_dof) > 0:
             raise ValueError("Cannot fix atoms together with constrained MD")
 
         if csolver is None:
-- 
2.43.0


From 812896ad8aa00998b01926718dfed05e52cb8107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:16 +0000
Subject: [PATCH 014/118] fix: with open paths the forces on closed paths are
 expanded with the open-path transform

---
 ipi/utils/nmtransform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/nmtransform.py b/ipi/utils/nmtransform.py
index f826a87..91324d8 100644
--- a/ipi/utils/nmtransform.py
+++ b/ipi/utils/nmtransform.py
@@ -323,8 +323,8 @@ class nm_rescale(object):
                         q_scal[:, 3 * io + 2] = np.tensordot(
                             self._o_b2tob1, q[:, 3 * io + 2], axes=(1, 0)
                         )
-                    else:
-                        q_scal = np.tensordot(self._o_b2tob1, q, axes=(1, 0))
+                else:
+                    q_scal = np.tensordot(self._o_b2tob1, q, axes=(1, 0))
         return q_scal
 
 
-- 
2.43.0


From e1a8f065ede2b25c213e222e49d1344184bd037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:16 +0000
Subject: [PATCH 015/118] fix: contraction of open paths keeps the stiffest
 modes instead of the softest ones

---
 ipi/utils/nmtransform.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ipi/utils/nmtransform.py b/ipi/utils/nmtransform.py
index 91324d8..204fcfe 100644
--- a/ipi/utils/nmtransform.py
+++ b/ipi/utils/nmtransform.py
@@ -123,15 +123,9 @@ def mk_o_rs_matrix(nb1, nb2):
 
         # builds the "reduction" matrix that picks the normal modes we want to keep
         b1_b2 = np.zeros((nb2, nb1), float)
-        b1_b2[0, 0] = 1.0
-        for i in range(1, nb2 // 2 + 1):
+        # (the modes of an open path are not degenerate, and are sorted by frequency)
+        for i in range(nb2):
             b1_b2[i, i] = 1.0
-            b1_b2[nb2 - i, nb1 - i] = 1.0
-        if nb2 % 2 == 0:
-            # if we are contracting down to an even number of beads, then we have to
-            # pick just one of the last degenerate modes to match onto the single
-            # stiffest mode in the new path
-            b1_b2[nb2 // 2, nb1 - nb2 // 2] = 0.0
 
         rs_b1_b2 = np.dot(nm_b2, np.dot(b1_b2, b1_nm))
         return rs_b1_b2 * np.sqrt(float(nb2) / float(nb1))
-- 
2.43.0


From 13c900d1181d355c73aa061e5e4d1b6d67db1450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:57 +0000
Subject: [PATCH 016/118] fix: the Cayley propagator ignores the normal mode
 frequencies that were asked for

---
 ipi/engine/normalmodes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index 1951781..46b1f57 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -502,11 +502,11 @@ class NormalModes:
         if self.propagator == "cayley":
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.nm_factor[b])
-                square = (self.omegak[b] * dt / 2) ** 2
+                square = (self.omegak[b] * dt / (2 * sk)) ** 2
                 pqk[b, 0, 0] = (1 - square) / (1 + square)
                 pqk[b, 1, 1] = (1 - square) / (1 + square)
-                pqk[b, 0, 1] = -(4 * square / dt * sk) / (1 + square)
-                pqk[b, 1, 0] = dt / sk / (1 + square)
+                pqk[b, 0, 1] = -(4 * square / dt * sk**2) / (1 + square)
+                pqk[b, 1, 0] = dt / sk**2 / (1 + square)
         else:  # exact propagator
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.nm_factor[b])
@@ -552,11 +552,11 @@ class NormalModes:
         if self.propagator == "cayley":
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.o_nm_factor[b])
-                square = (self.o_omegak[b] * dt / 2) ** 2
+                square = (self.o_omegak[b] * dt / (2 * sk)) ** 2
                 pqk[b, 0, 0] = (1 - square) / (1 + square)
                 pqk[b, 1, 1] = (1 - square) / (1 + square)
-                pqk[b, 0, 1] = -(4 * square / dt * sk) / (1 + square)
-                pqk[b, 1, 0] = dt / sk / (1 + square)
+                pqk[b, 0, 1] = -(4 * square / dt * sk**2) / (1 + square)
+                pqk[b, 1, 0] = dt / sk**2 / (1 + square)
         else:  # exact propagator
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.o_nm_factor[b])
-- 
2.43.0


From f30d004a2e2a9b991ac7739100938bc6481729b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:57 +0000
Subject: [PATCH 017/118] fix: kinetic energy of open paths uses the mode
 masses of closed paths

---
 ipi/engine/normalmodes.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index 46b1f57..be1e6bd 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -298,7 +298,7 @@ class NormalModes:
             name="dynm3",
             value=np.zeros((self.nbeads, 3 * self.natoms), float),
             func=self.get_dynm3,
-            dependencies=[self._nm_factor, self.beads._m3],
+            dependencies=[self._nm_factor, self._o_nm_factor, self.beads._m3],
         )
         self._dynomegak = depend_array(
             name="dynomegak",
@@ -355,7 +355,7 @@ class NormalModes:
             name="kins",
             value=np.zeros(self.nbeads, float),
             func=self.get_kins,
-            dependencies=[self._pnm, self.beads._sm3, self._nm_factor],
+            dependencies=[self._pnm, self._dynm3],
         )
         self._kin = depend_value(
             name="kin", func=self.get_kin, dependencies=[self._kins]
@@ -364,7 +364,7 @@ class NormalModes:
             name="kstress",
             value=np.zeros((3, 3), float),
             func=self.get_kstress,
-            dependencies=[self._pnm, self.beads._sm3, self._nm_factor],
+            dependencies=[self._pnm, self._dynm3],
         )
 
         self._vspring_and_fspring = depend_value(
@@ -927,8 +927,7 @@ class NormalModes:
 
         """
         # include the partially adiabatic CMD mass scaling
-        pnm = dstrip(self.pnm) / dstrip(self.beads.sm3)
-        kmd = 0.5 * (pnm**2).sum(axis=1) / dstrip(self.nm_factor)
+        kmd = 0.5 * (dstrip(self.pnm) ** 2 / dstrip(self.dynm3)).sum(axis=1)
 
         return kmd
 
@@ -955,9 +954,7 @@ class NormalModes:
         """
 
         # computes mass and nm_scaling-scaled momenta
-        spnm = (dstrip(self.pnm) / np.sqrt(dstrip(self.nm_factor)[:, None])) / dstrip(
-            self.beads.sm3
-        )
+        spnm = dstrip(self.pnm) / np.sqrt(dstrip(self.dynm3))
         spnm = spnm.reshape(-1, 3)  # reshape for quick outer product
         return spnm.T @ spnm
 
-- 
2.43.0


From 77477286f1c1892083a04c9161d2d9cd459655de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:57 +0000
Subject: [PATCH 018/118] fix: the bab propagator moves the normal modes with
 the wrong masses

---
 ipi/engine/normalmodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index be1e6bd..9617ff8 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -819,7 +819,7 @@ class NormalModes:
 
             for j in range(0, self.nmts):
                 self.beads.p += 0.5 * dt * self.fspring
-                self.beads.q += dt * self.beads.p / dstrip(self.beads.m3)
+                self.qnm += dt * dstrip(self.pnm) / dstrip(self.dynm3)
                 # The depend machinery will take care of automatically calculating
                 # the forces at the updated positions.
                 self.beads.p += 0.5 * dt * self.fspring
-- 
2.43.0


From 671d8e032b4aa2967bf4923cf560a84897e21343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:54 +0000
Subject: [PATCH 019/118] fix: extras are not updated when the weight of a
 force component changes

---
 ipi/engine/forces.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 4b637ce..2aaab8c 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -995,6 +995,7 @@ class Forces:
             self._f.add_dependency(fc._weight)
             self._pots.add_dependency(fc._weight)
             self._virs.add_dependency(fc._weight)
+            self._extras.add_dependency(fc._weight)
 
     def clone(self, beads, cell):
         """Duplicates the force object, so that it can be used to compute forces
-- 
2.43.0


From a54cbfa98be18f6f84ba49bc8f46b0d970724755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:39 +0000
Subject: [PATCH 020/118] fix: combining the raw extras of several components
 modifies those of the first

---
 ipi/engine/forces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 2aaab8c..b8bfa04 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1542,7 +1542,7 @@ class Forces:
                                 for ib in range(self.nbeads):
                                     re["raw"][ib] += v[ib]
                             else:
-                                re["raw"] = v
+                                re["raw"] = list(v)
                         else:
                             if e in re:
                                 warning(
-- 
2.43.0


From a947f71628b2ee469452a7c6103c8b11bcfe177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:24 +0000
Subject: [PATCH 021/118] fix: Hamiltonian weights switch the bias forces off
 instead of on

---
 ipi/engine/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index 20f067e..59b392b 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -205,7 +205,7 @@ class Ensemble:
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
-                len(self.bcomp) > 0 and np.mean((self.hweights - 1) ** 2) < 1e-20
+                len(self.bcomp) > 0 or np.mean((self.hweights - 1) ** 2) > 1e-20
             ),
             dependencies=[self._hweights],
         )
-- 
2.43.0


From 054c0ae79e84da0af30a4e4072e85bc886044372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:13 +0000
Subject: [PATCH 022/118] fix: multi-threaded random numbers are never written
 to the array that is returned

---
 ipi/utils/prng.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/prng.py b/ipi/utils/prng.py
index 890907f..a41aa0a 100644
--- a/ipi/utils/prng.py
+++ b/ipi/utils/prng.py
@@ -188,7 +188,7 @@ class Random(object):
             out: The array to be filled.
         """
 
-        out_flat = out.flatten()
+        out_flat = out.reshape(-1)  # a view, so that out is filled
         step_size = np.ceil(len(out_flat) / self.n_threads).astype(int)
         if step_size < _MIN_STEP_THREADED:
             # falls back to serial if the vector is too small
-- 
2.43.0


From e01256731feff0eeca0e215480914005a4aa267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:13 +0000
Subject: [PATCH 023/118] fix: thermostats in a multi thermostat are not told
 that the centre of mass is fixed

---
 ipi/engine/thermostats.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index abba0d8..e0f9d73 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -1330,7 +1330,15 @@ class MultiThermo(Thermostat):
 
         # just binds all the sub-thermostats
         for t in self.tlist:
-            t.bind(beads=beads, atoms=atoms, pm=pm, nm=nm, prng=prng, fixdof=fixdof)
+            t.bind(
+                beads=beads,
+                atoms=atoms,
+                pm=pm,
+                nm=nm,
+                prng=prng,
+                fixdof=fixdof,
+                fixcom=fixcom,
+            )
             self._ethermo.add_dependency(t._ethermo)
 
         self._ethermo._func = self.get_ethermo
-- 
2.43.0


From 18c8ecd24076de9a54646cb89f7833a91ca21e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:13 +0000
Subject: [PATCH 024/118] fix: the global centroid thermostat of nm_gle_g
 counts constrained degrees of freedom

---
 ipi/engine/thermostats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index e0f9d73..f27ca14 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -1044,8 +1044,11 @@ class ThermoNMGLEG(ThermoNMGLE):
 
         t = ThermoSVR(self.temp, self.dt, self.tau)
 
+        # the centroid has one bead's worth of fixed degrees of freedom, plus the COM (see ThermoPILE_G)
+        ncom = 3 if fixcom else 0
+        fixdof0 = None if fixdof is None else (fixdof - ncom) // nm.nbeads + ncom
         t.bind(
-            pm=(nm.pnm[0, :], nm.dynm3[0, :]), prng=self.prng
+            pm=(nm.pnm[0, :], nm.dynm3[0, :]), prng=self.prng, fixdof=fixdof0
         )  # bind global thermostat to centroid
 
         # pipes temp and dt
-- 
2.43.0


From f60eff133e934d804f323f57f5b595fdad96f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:08 +0000
Subject: [PATCH 025/118] fix: np.array() of a depend_array shares its memory
 instead of copying it

---
 ipi/utils/depend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index da18267..ab85dc1 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -332,13 +332,13 @@ class depend_array(depend_base):
     def __array__(self, dtype=None, copy=None):
         """Lets np.asarray / np.* accept us transparently.
 
-        Zero-copy fast path when the dtype matches.
+        Zero-copy fast path when the dtype matches, unless a copy is asked for.
         """
         if self._tainted[0]:
             self._refresh()
         v = self._value
         if dtype is None or dtype == v.dtype:
-            return v
+            return v.copy() if copy else v
         return v.astype(dtype)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
-- 
2.43.0


From f81d202c03147c1c59c843241c06d579583247f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:51 +0000
Subject: [PATCH 026/118] fix: with baoab splitting the cell thermostat moves
 cell components that are held fixed

---
 ipi/engine/barostats.py       | 19 +++++++++++++++++--
 ipi/engine/motion/dynamics.py |  4 ++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 0fe46a9..44ae01f 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -402,6 +402,11 @@ class Barostat:
 
         pass
 
+    def pconstraints(self):
+        """Dummy constraint on the cell momenta."""
+
+        pass
+
 
 dproperties(
     Barostat,
@@ -1097,7 +1102,12 @@ class BaroRGB(Barostat):
                 * self.beads.nbeads
             )
 
-        # now apply the mask (and accumulate the associated change in conserved quantity)
+        self.pconstraints()
+
+    def pconstraints(self):
+        """Removes the momentum of the cell components that are held fixed."""
+
+        # apply the mask (and accumulate the associated change in conserved quantity)
         # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
         self.thermostat.ethermo += self.kin
         self.p *= self.hmask
@@ -1384,7 +1394,12 @@ class BaroMTK(Barostat):
                 * self.beads.nbeads
             )
 
-        # now apply the mask (and accumulate the associated change in conserved quantity)
+        self.pconstraints()
+
+    def pconstraints(self):
+        """Removes the momentum of the cell components that are held fixed."""
+
+        # apply the mask (and accumulate the associated change in conserved quantity)
         # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
         self.thermostat.ethermo += self.kin
         self.p *= self.hmask
diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 438df20..29deee0 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -653,6 +653,10 @@ class NPTIntegrator(NVTIntegrator):
 
         self.thermostat.step()
         self.barostat.thermostat.step()
+        if self.splitting == "baoab":
+            # the cell moves right after this, before the next pstep has a chance
+            # to discard the noise on the components that are held fixed
+            self.barostat.pconstraints()
         # self.pconstraints()
 
 
-- 
2.43.0


From d300f1564a8f794532e98695118ff831c54fa45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:26 +0000
Subject: [PATCH 027/118] fix: the Suzuki-Chin virial contains a spurious
 |f|^2/m term

---
 ipi/engine/forces.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index b8bfa04..1a9feb0 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -971,7 +971,12 @@ class Forces:
         self._virssc_part_2 = depend_array(
             name="virssc_part_2",
             value=np.zeros((self.nbeads, 3, 3), float),
-            dependencies=[self._coeffsc_part_2, self._vir_4th_order],
+            dependencies=[
+                self._coeffsc_part_2,
+                self._vir_4th_order,
+                self._f,
+                self.beads._m3,
+            ],
             func=self.get_virssc_part_2,
         )
 
@@ -1602,8 +1607,16 @@ class Forces:
 
     def get_virssc_part_2(self):
         """Obtains the quadratic component of Suzuki-Chin correction to the virial."""
-        return self.coeffsc_part_2.reshape((self.beads.nbeads, 1, 1)) * dstrip(
-            self.vir_4th_order
+
+        # the change of the virial upon displacing the atoms along the force also
+        # contains the change of the positions, which is not part of the strain
+        # derivative of |f|^2/m
+        f = dstrip(self.f).reshape((self.nbeads, self.natoms, 3))
+        m3 = dstrip(self.beads.m3).reshape((self.nbeads, self.natoms, 3))
+        ff = np.einsum("bni,bnj->bij", f / m3, f)
+
+        return self.coeffsc_part_2.reshape((self.beads.nbeads, 1, 1)) * (
+            dstrip(self.vir_4th_order) + 2.0 * ff
         )
 
     def get_fsc(self):
-- 
2.43.0


From 898a534b336591ef01e0b636285f3c3ad1c6f790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:58 +0000
Subject: [PATCH 028/118] fix: an extra string that is a bare JSON number or
 list stops the evaluation of forces

---
 ipi/interfaces/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/interfaces/utils.py b/ipi/interfaces/utils.py
index 8fe8962..06ad57c 100644
--- a/ipi/interfaces/utils.py
+++ b/ipi/interfaces/utils.py
@@ -19,6 +19,9 @@ def parse_extra(mxtra):
     except Exception:
         # not JSON: still expose the literal string under 'raw'
         mxtradict = {}
+    if not isinstance(mxtradict, dict):
+        # valid JSON, but without fields (e.g. a plain number or a list)
+        mxtradict = {}
     if "raw" in mxtradict:
         raise ValueError(
             "'raw' cannot be used as a field in a JSON-formatted extra string"
-- 
2.43.0


From db8fdffb1547b1515cfd1ba916456032c9860dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:58 +0000
Subject: [PATCH 029/118] fix: the length of the initialization string counts
 characters instead of bytes

---
 ipi/interfaces/sockets.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index b3ff674..84a63ff 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -375,12 +375,11 @@ class Driver(DriverSocket):
                     # it checks if there are several parameters just in case
                     sep = "," if pars.strip() else ""
                     pars = pars + "%s batch_size:%d" % (sep, self.batch_size)
+                # the length that is sent is in bytes, not in characters
+                bpars = pars.encode()
                 # combines all messages in one to reduce latency
                 self.sendall(
-                    MESSAGE["init"]
-                    + np.int32(rid)
-                    + np.int32(len(pars))
-                    + pars.encode()
+                    MESSAGE["init"] + np.int32(rid) + np.int32(len(bpars)) + bpars
                 )
             except:
                 self.get_status()
-- 
2.43.0


From 40bcd22bdbe8458b10f23ebc1b83bc7586632718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:13 +0000
Subject: [PATCH 030/118] fix: a socket forcefield shared by systems of
 different size sends the atoms of the first one only

---
 ipi/engine/forcefields.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 111c60a..c2164ce 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -166,7 +166,11 @@ class ForceField:
         # Indexes come from input in a per atom basis and we need to make a per atom-coordinate basis
         # Reformat indexes for full system (default) or piece of system
         # active atoms do not change but we only know how to build this array once we get the positions once
-        if self.iactive is None:
+        # (the default must follow the system, as the forcefield can be shared)
+        activehere = self.iactive
+        if activehere is None or (
+            self.active[0] == -1 and len(activehere) != len(pbcpos)
+        ):
             if self.active[0] == -1:
                 activehere = np.arange(len(pbcpos))
             else:
@@ -189,7 +193,7 @@ class ForceField:
         fields = {
             "id": reqid,
             "pos": pbcpos,
-            "active": self.iactive,
+            "active": activehere,
             "cell": (dstrip(cell.h).copy(), dstrip(cell.ih).copy()),
             "pars": par_str,
             "result": None,
-- 
2.43.0


From 70e37c8d6de69d7d8ac40753768ef8ce74f6b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:33 +0000
Subject: [PATCH 031/118] fix: a connection reset while receiving forces kills
 the polling thread instead of re-queueing the request

---
 ipi/interfaces/sockets.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 84a63ff..612a87f 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -192,6 +192,9 @@ class DriverSocket(socket.socket):
                     )
                     raise Disconnected()
                 pass
+            except OSError:
+                # e.g. connection reset by a client that died
+                raise Disconnected()
 
             if not timeout and bpart == 0:
                 raise Disconnected()
@@ -704,6 +707,9 @@ class Driver(DriverSocket):
                     )
                     raise Disconnected()
                 continue
+            except OSError:
+                # e.g. connection reset by a client that died
+                raise Disconnected()
             if bpart == 0:
                 raise Disconnected()
             bpos += bpart
@@ -748,6 +754,8 @@ class Driver(DriverSocket):
                     if ntimeout > NTIMEOUT:
                         raise Disconnected()
                     continue
+                except OSError:
+                    raise Disconnected()
                 if bpart == 0:
                     raise Disconnected()
                 bpos += bpart
-- 
2.43.0


From b3d879ec88d50c14693702aaca03f2675670d6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:33 +0000
Subject: [PATCH 032/118] fix: endless loop when a client disconnects before
 sending FORCEREADY

---
 ipi/interfaces/sockets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 612a87f..4de3edf 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -455,7 +455,7 @@ class Driver(DriverSocket):
                     " @SOCKET:   Unexpected getforce reply: %s" % (reply),
                     verbosity.low,
                 )
-            if reply == "":
+            if len(reply) == 0:
                 raise Disconnected()
 
     def _recv_force_data(self):
-- 
2.43.0


From 9e31722ec5145c68066663e02105b3aa770f8ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:33 +0000
Subject: [PATCH 033/118] fix: a request is lost if the client dies while a
 dispatch thread is sending to it

---
 ipi/interfaces/sockets.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 4de3edf..da0ad7b 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -534,7 +534,11 @@ class Driver(DriverSocket):
             return
 
         r["start"] = time.time()
-        self.sendpos(r["pos"][r["active"]], r["cell"])
+        try:
+            self.sendpos(r["pos"][r["active"]], r["cell"])
+        except OSError:
+            self.status = Status.Disconnected
+            return
 
         self.get_status()
         if not (self.status & Status.HasData):
@@ -546,7 +550,7 @@ class Driver(DriverSocket):
 
         try:
             r["result"] = self.getforce()
-        except Disconnected:
+        except (Disconnected, OSError):
             self.status = Status.Disconnected
             return
 
-- 
2.43.0


From 7f955a9d3d092cf84ac41e0ff4c7ab70a423f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:33 +0000
Subject: [PATCH 034/118] fix: a request that times out in a dispatch thread is
 never evaluated again

---
 ipi/interfaces/sockets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index da0ad7b..43e0ac8 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1540,7 +1540,8 @@ class InterfaceSocket(object):
                 nfinished += 1
                 finished_ids.append(ijob)
             elif chk == 0:
-                self.poll_iter = UPDATEFREQ  # client disconnected. force a pool_update
+                # client disconnected. re-queues the request and forces a pool_update
+                self._requeue_disconnected(r, c)
                 finished_ids.append(ijob)
             nchecked += 1
         # batch removal of finished/disconnected jobs (reverse order to preserve indices)
@@ -1820,6 +1821,6 @@ class InterfaceSocket(object):
                 pass
             c.close()
             c.status = Status.Disconnected
-            return 0  # client will be cleared and request resuscitated in poll_update
+            return 0  # client will be cleared in pool_update
 
         return -1
-- 
2.43.0


From 0daee9bed5abceaf64fb879d9a5e296d4db3ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:33 +0000
Subject: [PATCH 035/118] fix: removing a dead client waits for the jobs of all
 the other clients

---
 ipi/interfaces/sockets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 43e0ac8..5115d5a 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1409,8 +1409,8 @@ class InterfaceSocket(object):
                 self.clients.remove(c)
                 # requeue jobs that have been left hanging
                 for [k, j, tc] in self.jobs[:]:
-                    tc.result()
                     if j is c:
+                        tc.result()
                         self.jobs = [
                             w for w in self.jobs if not (w[0] is k and w[1] is j)
                         ]  # removes pair in a robust way
-- 
2.43.0


From 44dcc16079bf89f233b4f1215c10f9d67aa28307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:26 +0000
Subject: [PATCH 036/118] fix: endless loop in the dispatch of requests when a
 disconnected client is still in the list

---
 ipi/interfaces/sockets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 5115d5a..798fa70 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1503,11 +1503,13 @@ class InterfaceSocket(object):
         ndispatch = 0
         tdispatch -= time.time()
         while len(freec) > 0 and len(self.prlist) > 0:
+            dispatched_this_round = False
             for match_ids in match_seq:
                 for fc in freec[:]:
                     if self.dispatch_free_client(fc, match_ids):
                         freec.remove(fc)
                         ndispatch += 1
+                        dispatched_this_round = True
 
                     if len(self.prlist) == 0:
                         break
@@ -1518,6 +1520,9 @@ class InterfaceSocket(object):
 
             if len(freec) > 0:
                 self.prlist = [r for r in self.requests if r["status"] == "Queued"]
+            # the clients that are left (e.g. disconnected ones) cannot take any request
+            if not dispatched_this_round:
+                break
         tdispatch += time.time()
 
         # now check for client status
-- 
2.43.0


From 135ec8d8afd19348cfe12e1ad0b6cb4e4f8486fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:56 +0000
Subject: [PATCH 037/118] fix: a connection that is reset before it is accepted
 kills the polling thread

---
 ipi/interfaces/sockets.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 798fa70..05c6dc7 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1431,7 +1431,16 @@ class InterfaceSocket(object):
             if self.server in readable:
                 client, address = self.server.accept()
                 client.settimeout(TIMEOUT)
-                driver = SHMDriver(client) if self.mode == "shm" else Driver(client)
+                try:
+                    driver = SHMDriver(client) if self.mode == "shm" else Driver(client)
+                except OSError:
+                    # the client is already gone
+                    warning(
+                        " @SOCKET:   Connection lost before handshaking.",
+                        verbosity.low,
+                    )
+                    client.close()
+                    continue
                 driver.batch_size = self.batch_size
                 info(
                     " @interfacesocket.pool_update:   Client asked for connection from "
-- 
2.43.0


From cacd226be588e99a086624de3c2fbbae5490b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:48 +0000
Subject: [PATCH 038/118] fix: the Python driver sends the length of the extra
 string in characters instead of bytes

---
 drivers/py/driver.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index dbb4ed5..6d33a57 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -213,9 +213,9 @@ def run_driver(
                 shm_views["vir"][i] = np.asarray(res[2]).reshape(3, 3)
             sock.sendall(Message("FORCEREADY"))
             for res in results_batch:
-                extra = res[3]
+                extra = res[3].encode("utf-8")
                 send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                sock.sendall(extra)
             f_data = False
         elif header == Message("GETFORCE") and batch_n > 1:
             sock.sendall(Message("FORCEREADY"))
@@ -235,9 +235,9 @@ def run_driver(
             )
             send_data(sock, virs)
             for res in results_batch:
-                extra = res[3]
+                extra = res[3].encode("utf-8")
                 send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                sock.sendall(extra)
             f_data = False
         elif header == Message("GETFORCE"):
             sock.sendall(Message("FORCEREADY"))
@@ -270,8 +270,9 @@ def run_driver(
             send_data(sock, np.int32(nat))
             send_data(sock, force)
             send_data(sock, vir)
+            extras = extras.encode("utf-8")
             send_data(sock, np.int32(len(extras)))
-            sock.sendall(extras.encode("utf-8"))
+            sock.sendall(extras)
 
             f_data = False
         elif header == Message("EXIT"):
-- 
2.43.0


From 6ceca252c247547936cac64174592ebbc0bf49ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:48 +0000
Subject: [PATCH 039/118] fix: the Python driver spins forever if i-PI
 disconnects, and ignores messages that arrive in pieces

---
 drivers/py/driver.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index 6d33a57..c72d0fc 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -47,6 +47,19 @@ def send_data(sock, data):
 HDRLEN = 12  # number of characters of the default message strings
 
 
+def recv_header(sock):
+    """Fetches a message header, which may arrive in pieces.
+    Returns an empty string if the connection was closed."""
+
+    header = b""
+    while len(header) < HDRLEN:
+        part = sock.recv(HDRLEN - len(header))
+        if len(part) == 0:
+            return b""
+        header += part
+    return header
+
+
 def Message(mystr):
     """Returns a header of standard length HDRLEN."""
 
@@ -98,7 +111,7 @@ def run_driver(
     force = np.zeros(0, float)
     vir = np.zeros((3, 3), float)
     while True:  # ah the infinite loop!
-        header = sock.recv(HDRLEN)
+        header = recv_header(sock)
         if f_verbose:
             print("Received ", header)
         if header == Message("STATUS"):
@@ -275,8 +288,11 @@ def run_driver(
             sock.sendall(extras)
 
             f_data = False
-        elif header == Message("EXIT"):
-            print("Received exit message from i-PI. Bye bye!")
+        elif header == Message("EXIT") or header == b"":
+            if header == b"":
+                print("Lost the connection to i-PI. Bye bye!")
+            else:
+                print("Received exit message from i-PI. Bye bye!")
             if shm:
                 for handle in shm_handles.values():
                     try:
-- 
2.43.0


From 567ec6fa78942afaefeb2ca4e96a3817e0ca3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:46 +0000
Subject: [PATCH 040/118] fix: coordinates in PDB files are read one column
 off, losing the sign of large negative ones

---
 ipi/utils/io/backends/io_pdb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipi/utils/io/backends/io_pdb.py b/ipi/utils/io/backends/io_pdb.py
index 45c0077..57ff1cd 100644
--- a/ipi/utils/io/backends/io_pdb.py
+++ b/ipi/utils/io/backends/io_pdb.py
@@ -182,9 +182,9 @@ def read_pdb(filedesc):
         name = body[12:16].strip()
         names.append(name)
         masses.append(Elements.mass(name))
-        x = float(body[31:39])
-        y = float(body[39:47])
-        z = float(body[47:55])
+        x = float(body[30:38])
+        y = float(body[38:46])
+        z = float(body[46:54])
         qatoms.append(x)
         qatoms.append(y)
         qatoms.append(z)
-- 
2.43.0


From 12ecdd2cd7f91e69b60b2fef201359219732c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:46 +0000
Subject: [PATCH 041/118] fix: a truncated frame of an xyz file is read as if
 the missing atoms were at the origin

---
 ipi/utils/io/backends/io_xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/io/backends/io_xyz.py b/ipi/utils/io/backends/io_xyz.py
index ffd2c60..4f85f9b 100644
--- a/ipi/utils/io/backends/io_xyz.py
+++ b/ipi/utils/io/backends/io_xyz.py
@@ -150,7 +150,7 @@ def read_xyz(filedesc):
         if atom_counter == natoms:
             break
 
-    if natoms != len(names):
+    if natoms != atom_counter:
         raise ValueError(
             "The number of atom records does not match the header of the xyz file."
         )
-- 
2.43.0


From c7a8d11e390ce9252ebf77856bf042b224d18b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:46 +0000
Subject: [PATCH 042/118] fix: units such as m/s or ev/ang in the header of a
 trajectory are ignored when it is read

---
 ipi/utils/io/io_units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/io/io_units.py b/ipi/utils/io/io_units.py
index aece708..0e62b97 100755
--- a/ipi/utils/io/io_units.py
+++ b/ipi/utils/io/io_units.py
@@ -14,10 +14,10 @@ from ipi.engine.properties import Trajectories as Traj
 
 __all__ = ["auto_units", "process_units"]
 # Regular expressions initialization for read_xyz function
-cell_unit_re = re.compile(r"cell\{([A-Za-z_]*)\}")  # cell unit pattern
+cell_unit_re = re.compile(r"cell\{([^{}]*)\}")  # cell unit pattern
 traj_dict = Traj().traj_dict  # trajectory dictionary
 traj_re = [
-    re.compile("%s%s" % (key, r"\{[A-Za-z_]*\}")) for key in list(traj_dict.keys())
+    re.compile("%s%s" % (key, r"\{[^{}]*\}")) for key in list(traj_dict.keys())
 ]  # trajectory patterns
 
 
-- 
2.43.0


From 335d8d4381588046f57cad5f8b1094f5a4dea56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:46 +0000
Subject: [PATCH 043/118] fix: a file in another directory cannot be backed up

---
 ipi/utils/io/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/utils/io/__init__.py b/ipi/utils/io/__init__.py
index b6efb56..446e442 100644
--- a/ipi/utils/io/__init__.py
+++ b/ipi/utils/io/__init__.py
@@ -448,9 +448,10 @@ def open_backup(filename, mode="r", buffering=-1):
         # If writing, make sure nothing is overwritten.
 
         i = 0
+        dirname, basename = os.path.split(filename)
         fn_backup = filename
         while os.path.isfile(fn_backup):
-            fn_backup = "#" + filename + "#%i#" % i
+            fn_backup = os.path.join(dirname, "#" + basename + "#%i#" % i)
             i += 1
 
         if fn_backup != filename:
-- 
2.43.0


From ebed03c157d2cb1a75d03b818ef3518c63704177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:14 +0000
Subject: [PATCH 044/118] fix: the units of positions, momenta and velocities
 given explicitly in initialize are ignored

---
 ipi/engine/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 5e7bb1c..cfd4c08 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -228,7 +228,7 @@ def init_vector(
         else:
             rq = init_beads(iif, nbeads).q
     elif mode == "manual":
-        rq = value
+        rq = value * unit_to_internal(dimension, units, 1.0)
 
     # determines the size of the input data
     if mode == "manual":
-- 
2.43.0


From 1625567cfcfd2fb5ba68eb5fd2d8797bb3257404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:14 +0000
Subject: [PATCH 045/118] fix: momenta initialized for a single bead are scaled
 by the square root of the number of beads

---
 ipi/engine/initializer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index cfd4c08..03741fa 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -549,7 +549,8 @@ class Initializer:
                         )
                     simul.beads.resize(natoms, self.nbeads)
 
-                rp *= np.sqrt(self.nbeads / nbeads)
+                if v.bead < 0:
+                    rp *= np.sqrt(self.nbeads / nbeads)
                 set_vector(v, simul.beads.p, rp)
                 fmom = True
             elif k == "velocities":
@@ -576,7 +577,8 @@ class Initializer:
                 else:
                     for ev in rv:
                         ev *= simul.beads.m3[0]
-                rv *= np.sqrt(self.nbeads / nbeads)
+                if v.bead < 0:
+                    rv *= np.sqrt(self.nbeads / nbeads)
                 set_vector(v, simul.beads.p, rv)
                 fmom = True
             elif k == "gle":
-- 
2.43.0


From ffced05ee1ebdcea57445845e20b3beac36078ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:14 +0000
Subject: [PATCH 046/118] fix: initializing velocities before the masses
 silently discards the positions

---
 ipi/engine/initializer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 03741fa..3529859 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -563,10 +563,9 @@ class Initializer:
 
                 # checks if we must initialize the simulation beads
                 if simul.beads.nbeads == 0 or not fmass:
-                    ValueError(
+                    raise ValueError(
                         "Cannot initialize velocities before the masses of the atoms are known"
                     )
-                    simul.beads.resize(natoms, self.nbeads)
 
                 warning(
                     "Initializing from velocities uses the previously defined masses -- not the masses inferred from the file -- to build momenta",
-- 
2.43.0


From 18b5e7b3ac9156d73603492761ced0441e8ac71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:14 +0000
Subject: [PATCH 047/118] fix: thermal momenta of open paths are drawn with the
 dynamical masses of closed ones

---
 ipi/engine/initializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 3529859..3c40cf7 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -506,12 +506,15 @@ class Initializer:
                 rbeads = Beads(rnatoms, simul.beads.nbeads)
                 if v.index < 0:
                     rbeads.m[:] = simul.beads.m
+                    ropen = simul.nm.open_paths
                 else:
                     rbeads.m[:] = simul.beads.m[v.index]
+                    ropen = [0] if v.index in simul.nm.open_paths else []
                 rnm = NormalModes(
                     mode=simul.nm.mode,
                     transform_method=simul.nm.transform_method,
                     freqs=simul.nm.nm_freqs,
+                    open_paths=ropen,
                 )
                 rens = Ensemble(temp=simul.ensemble.temp)
                 rmv = Motion()
-- 
2.43.0


From 6ac60a0194a38d0449b0a879935480503e0aa9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:14 +0000
Subject: [PATCH 048/118] fix: the additional momenta of a GLE thermostat
 cannot be initialized

---
 ipi/engine/initializer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 3c40cf7..2f62a5d 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -624,18 +624,18 @@ class Initializer:
 
             if k == "gle":
                 # read thermostat parameters from file
-                if not (hasattr(simul.ensemble, "thermostat")):
+                if not (hasattr(simul.motion, "thermostat")):
                     raise ValueError(
-                        "Ensemble does not have a thermostat to initialize"
+                        "Motion class does not have a thermostat to initialize"
                     )
-                if not (hasattr(simul.ensemble.thermostat, "s")):
+                if not (hasattr(simul.motion.thermostat, "s")):
                     raise ValueError(
                         "There is nothing to initialize in non-GLE thermostats"
                     )
-                ssimul = simul.ensemble.thermostat.s
+                ssimul = simul.motion.thermostat.s
                 if v.mode == "manual":
                     sinput = v.value.copy()
-                    if sinput.size() != ssimul.size():
+                    if sinput.size != ssimul.size:
                         raise ValueError(
                             "Size mismatch in thermostat initialization data"
                         )
-- 
2.43.0


From cc99e09f1947662605ab28cf06d07d061c0194e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:25 +0000
Subject: [PATCH 049/118] fix: momenta, velocities and cell cannot be
 initialized from a checkpoint file

---
 ipi/inputs/initializer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ipi/inputs/initializer.py b/ipi/inputs/initializer.py
index f3ff811..edee5ad 100644
--- a/ipi/inputs/initializer.py
+++ b/ipi/inputs/initializer.py
@@ -487,9 +487,7 @@ class InputInitializer(Input):
         super(InputInitializer, self).fetch()
         initlist = []
         for k, v in self.extra:
-            if v.mode.fetch() == "chk" and not v.fetch(
-                initclass=ei.InitIndexed
-            ).units in ["", "automatic"]:
+            if v.mode.fetch() == "chk" and v.units.fetch() not in ["", "automatic"]:
                 raise ValueError(
                     "Cannot specify units for initialization from a checkpoint file - units should be defined _inside_ the file."
                 )
-- 
2.43.0


From 7c57dbde65ff284f2949ba09be096eb77990b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:25 +0000
Subject: [PATCH 050/118] fix: velocities initialized from a checkpoint file
 are set to its positions

---
 ipi/engine/initializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 2f62a5d..fb72a5e 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -225,6 +225,9 @@ def init_vector(
     elif mode == "chk":
         if momenta:
             rq = init_beads(iif, nbeads).p
+        elif dimension == "velocity":
+            rbeads = init_beads(iif, nbeads)
+            rq = rbeads.p / rbeads.m3
         else:
             rq = init_beads(iif, nbeads).q
     elif mode == "manual":
-- 
2.43.0


From 479019808a57c69a476025a988105ddacf4acdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:52 +0000
Subject: [PATCH 051/118] fix: the center of mass velocity cannot be printed
 for a bead, nor with the documented argument label

---
 ipi/engine/properties.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index f8e3e86..8d64949 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1748,17 +1748,18 @@ class Properties:
 
         return tkcv
 
-    def get_vcom(self, latom="", bead=-1):
+    def get_vcom(self, label="", bead="-1"):
         """Computes the center of mass velocity for the system or for a specified species"""
 
+        bead = int(bead)
         if bead < 0:
             p = dstrip(self.beads.pc)
         else:
-            p = dstrip(self.beads[bead])
+            p = dstrip(self.beads.p)[bead]
         pcom = np.zeros(3)
         tm = 0
         for i in range(self.beads.natoms):
-            if latom != "" and latom != self.beads.names[i]:
+            if label != "" and label != self.beads.names[i]:
                 continue
 
             tm += self.beads.m[i]
-- 
2.43.0


From da1fba45a9bb7dcdbe0b2f9cb1628d052a565b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:52 +0000
Subject: [PATCH 052/118] fix: pot_component_raw of a contracted component is
 averaged over the wrong number of beads

---
 ipi/engine/properties.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 8d64949..da1ec15 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -405,8 +405,7 @@ class Properties:
                        discretization of the given component. Potential weights will not be applied. """,
                 "func": (
                     lambda index, bead="-1": (
-                        self.forces.pots_component(int(index), False, False).sum()
-                        / self.beads.nbeads
+                        self.forces.pots_component(int(index), False, False).mean()
                         if int(bead) < 0
                         else self.forces.pots_component(int(index), False, False)[
                             int(bead)
-- 
2.43.0


From 41884f112e6635ef9842a65520aa3f07be061f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:52 +0000
Subject: [PATCH 053/118] fix: atom_f_path is a force, but is converted as a
 length

---
 ipi/engine/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index da1ec15..daba17a 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -575,7 +575,7 @@ class Properties:
                 ),
             },
             "atom_f_path": {
-                "dimension": "length",
+                "dimension": "force",
                 "help": "The forces acting on all the beads of a particle given its index.",
                 "longhelp": """The forces acting on all the beads of a particle given its index. Takes arguments index
                        and bead (both zero based). If bead is not specified, refers to the centroid.""",
-- 
2.43.0


From 05d2e50f6b4f2ef533b9296f826c13903fab1ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:52 +0000
Subject: [PATCH 054/118] fix: the header of a property file counts atom_x_path
 and atom_f_path as a single column

---
 ipi/engine/properties.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index daba17a..f0d8355 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -565,6 +565,7 @@ class Properties:
                 "help": "The positions of all the beads of a particle given its index.",
                 "longhelp": """The positions of all the beads of a particle given its index.
                         Takes an argument index (zero based).""",
+                "size": "3*nbeads",
                 "func": (
                     lambda atom="": np.asarray(
                         [
@@ -579,6 +580,7 @@ class Properties:
                 "help": "The forces acting on all the beads of a particle given its index.",
                 "longhelp": """The forces acting on all the beads of a particle given its index. Takes arguments index
                        and bead (both zero based). If bead is not specified, refers to the centroid.""",
+                "size": "3*nbeads",
                 "func": (
                     lambda atom="": np.asarray(
                         [
@@ -989,6 +991,8 @@ class Properties:
         )  # lock to avoid concurrent access and messing up with dbeads
 
         self.property_dict["bead_potentials"]["size"] = self.beads.nbeads
+        self.property_dict["atom_x_path"]["size"] = 3 * self.beads.nbeads
+        self.property_dict["atom_f_path"]["size"] = 3 * self.beads.nbeads
         # self.properties_init()  # Initialize the properties here so that all
         # +all variables are accessible (for example to set
         # +the size of the hamiltonian_weights).
-- 
2.43.0


From 867394328840c0e38292c24f301f6a2826b4f9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:18 +0000
Subject: [PATCH 055/118] fix: virial_fq with different reference geometries
 always uses the first one

---
 ipi/engine/properties.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index f0d8355..65f40c9 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -985,7 +985,7 @@ class Properties:
         self.dbeads = system.beads.clone()
         self.dcell = system.cell.clone()
         self.dforces = system.forces.clone(self.dbeads, self.dcell)
-        self.fqref = None
+        self.fqref = {}  # reference geometries for virial_fq, one for each request
         self._threadlock = (
             system._propertylock
         )  # lock to avoid concurrent access and messing up with dbeads
@@ -1305,20 +1305,20 @@ class Properties:
         return acv
 
     def get_fqvirial(self, ref="", units=""):
-        if self.fqref is None:
+        if (ref, units) not in self.fqref:
             if ref == "":
-                self.fqref = np.zeros(3 * self.beads.natoms)
+                fqref = np.zeros(3 * self.beads.natoms)
             else:
-                self.fqref = np.loadtxt(ref).flatten() * unit_to_internal(
-                    "length", units, 1
-                )
-                if len(self.fqref) != 3 * self.beads.natoms:
+                fqref = np.loadtxt(ref).flatten() * unit_to_internal("length", units, 1)
+                if len(fqref) != 3 * self.beads.natoms:
                     raise ValueError(
                         "Atom number mismatch in reference file for virial_fq"
                     )
+            self.fqref[(ref, units)] = fqref
+        fqref = self.fqref[(ref, units)]
         fq = 0.0
         for b in range(self.beads.nbeads):
-            fq += np.dot(self.forces.f[b], self.beads.q[b] - self.fqref)
+            fq += np.dot(self.forces.f[b], self.beads.q[b] - fqref)
 
         return fq * 0.5 / self.beads.nbeads
 
-- 
2.43.0


From 605ff945466f3bb960a9c2b55cd5a55909829d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:38 +0000
Subject: [PATCH 056/118] fix: displaced-path and isotope estimators use the
 initial cell when the cell changes

---
 ipi/engine/properties.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 65f40c9..5814f4a 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1979,6 +1979,7 @@ class Properties:
             latom = atom
 
         beta = 1.0 / (self.ensemble.temp * Constants.kb)
+        self.dcell.h = self.cell.h
 
         u = np.array([float(ux), float(uy), float(uz)])
         u_size = np.dot(u, u)
@@ -2254,6 +2255,7 @@ class Properties:
         q = dstrip(self.beads.q)
         #        f = dstrip(self.forces.f)
         qc = dstrip(self.beads.qc)
+        self.dcell.h = self.cell.h
 
         for i in range(self.beads.natoms):
             # selects only the atoms we care about
@@ -2542,6 +2544,7 @@ class Properties:
         qc = dstrip(self.beads.qc)
         q = dstrip(self.beads.q)
         v0 = self.forces.pot
+        self.dcell.h = self.cell.h
         self.dbeads.q = q
 
         for i in range(self.beads.natoms):
@@ -2742,6 +2745,7 @@ class Properties:
         f = dstrip(self.forces.f)
         v0 = self.forces.pot
         pots = self.forces.pots
+        self.dcell.h = self.cell.h
 
         for i in range(self.beads.natoms):
             # selects only the atoms we care about
@@ -3309,6 +3313,7 @@ class Trajectories:
         qc = dstrip(self.system.beads.qc)
         q = dstrip(self.system.beads.q)
         v0 = self.system.forces.pot / nb
+        self.dcell.h = self.system.cell.h
         self.dbeads.q = q
 
         for i in range(nat):
-- 
2.43.0


From abf97094c0ca15397fdd48aff632dfd4834a019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:38 +0000
Subject: [PATCH 057/118] fix: sc_op_scaledcoords evaluates the displaced
 forces with outdated odd beads

---
 ipi/engine/properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 5814f4a..bd5e944 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -2027,7 +2027,8 @@ class Properties:
         q = dstrip(self.beads.q)
 
         self.dcell.h = self.cell.h
-        self.dbeads.q[::2] = self.beads.q[::2] + eps * (q - qc)[::2]
+        self.dbeads.q[:] = q
+        self.dbeads.q[::2] += eps * (q - qc)[::2]
 
         vir1 = (
             np.dot(((q - qc)[::2]).flatten(), (self.forces.f[::2]).flatten())
-- 
2.43.0


From da3857042b9c3e9e76578c86ea4afde6bcb67184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:38 +0000
Subject: [PATCH 058/118] fix: the Eforces trajectory has a single bead when
 there is no electric field

---
 ipi/engine/properties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index bd5e944..04ec618 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -2994,7 +2994,9 @@ class Trajectories:
                             self.system.motion.integrator.time
                         )
                         if isinstance(self.system.motion, DrivenDynamics)
-                        else np.zeros((self.system.beads.natoms * 3))
+                        else np.zeros(
+                            (self.system.beads.nbeads, self.system.beads.natoms * 3)
+                        )
                     )
                 ),
             },
-- 
2.43.0


From 83118b3267cb230f494b59d54b0a335ce857e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:06 +0000
Subject: [PATCH 059/118] fix: the DW potential returns one energy per atom
 instead of the total

---
 ipi/pes/doublewell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/pes/doublewell.py b/ipi/pes/doublewell.py
index 1ed69d8..f18a5f0 100644
--- a/ipi/pes/doublewell.py
+++ b/ipi/pes/doublewell.py
@@ -60,7 +60,9 @@ class DoubleWell_driver(Dummy_driver):
         force3 = np.zeros(pos.shape)
 
         # DW
-        pot += self.A * (pos3[:, 0] - self.delta) ** 2 + self.B * (pos3[:, 0] ** 4)
+        pot += (
+            self.A * (pos3[:, 0] - self.delta) ** 2 + self.B * (pos3[:, 0] ** 4)
+        ).sum()
         force3[:, 0] = -2.0 * self.A * (pos3[:, 0] - self.delta) - 4.0 * self.B * (
             pos3[:, 0] ** 3
         )
-- 
2.43.0


From 94e49168ca0f80fb15679ec3b0f1bfe30d82457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:06 +0000
Subject: [PATCH 060/118] fix: DW_friction ignores the double-well parameters
 it is given, and takes them in another order than documented

---
 ipi/pes/doublewell_with_friction.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/ipi/pes/doublewell_with_friction.py b/ipi/pes/doublewell_with_friction.py
index dad3779..6787f60 100644
--- a/ipi/pes/doublewell_with_friction.py
+++ b/ipi/pes/doublewell_with_friction.py
@@ -44,31 +44,27 @@ class DoubleWell_with_friction_driver(DoubleWell_driver):
         w_b=None,
         v0=None,
         m=None,
+        delta=None,
         eta0=None,
         eps1=None,
         eps2=None,
-        delta=None,
         deltaQ=None,
         *args,
         **kwargs
     ):
 
-        try:
-            w_b = w_b * invcm2au
-            v0 = v0 * invcm2au
-            self.delta = delta * A2au
-            self.eta0 = eta0
-            self.eps1 = eps1
-            self.eps2 = eps2
-            self.deltaQ = deltaQ
-            self.k = 1837.36223469 * (3800.0 / 219323.0) ** 2
-            self.A = -0.5 * m * (w_b) ** 2
-            self.B = ((m**2) * (w_b) ** 4) / (16 * v0)
-
-        except:
+        if any(
+            x is None for x in (w_b, v0, m, delta, eta0, eps1, eps2, deltaQ)
+        ):
             sys.exit(self.__doc__)
 
-        super().__init__(*args, **kwargs)
+        self.eta0 = eta0
+        self.eps1 = eps1
+        self.eps2 = eps2
+        self.deltaQ = deltaQ
+
+        # the base class sets up the double-well part
+        super().__init__(w_b, v0, m, delta, *args, **kwargs)
 
     def check_dimensions(self, pos):
         """Functions that checks dimensions of the received position"""
-- 
2.43.0


From decba4f2a99b932b763a97206b4700b55524de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:35 +0000
Subject: [PATCH 061/118] fix: ASE clients without stress fail on the shape of
 the default stress

---
 ipi/pes/_ase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/pes/_ase.py b/ipi/pes/_ase.py
index 1b131eb..d02ed5a 100644
--- a/ipi/pes/_ase.py
+++ b/ipi/pes/_ase.py
@@ -105,7 +105,7 @@ class ASEDriver(Dummy_driver):
             if "forces" in self.capabilities
             else np.zeros_like(structure.positions)
         )
-        stress = properties["stress"] if "stress" in self.capabilities else np.zeros(9)
+        stress = properties["stress"] if "stress" in self.capabilities else np.zeros((3, 3))
         if len(stress) == 6:
             # converts from voigt notation
             stress = np.array(stress[[0, 5, 4, 5, 1, 3, 4, 3, 2]])
-- 
2.43.0


From 29618f629a13ebebc0de4c45a409baf650b11272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:35 +0000
Subject: [PATCH 062/118] fix: the potentials with an explicit bath cannot be
 evaluated

---
 ipi/pes/bath.py                 |  6 +++---
 ipi/pes/doubledoublewell.py     | 14 ++++++--------
 ipi/pes/doublewell_with_bath.py |  9 +++------
 3 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/ipi/pes/bath.py b/ipi/pes/bath.py
index 20cdb79..2e88d9b 100644
--- a/ipi/pes/bath.py
+++ b/ipi/pes/bath.py
@@ -67,15 +67,15 @@ class Harmonic_Bath_explicit(object):
 
     def compute_structure(self, q, x):
         pot_bath = 0
-        fq_bath = np.zeros(q.shape)
+        fq_bath = 0
         fx = np.zeros(x.shape)
         assert x.size == self.nbath, "x.size {} , nbath {}".format(x.size, self.nbath)
 
         if self.w_c > 0:
             for i in range(self.nbath):
-                aux = x[i] - (self.coef[i] * self.S(q) / (self.m * self.omega2[i]))
+                aux = x[i, 0] - (self.coef[i] * self.S(q) / (self.m * self.omega2[i]))
                 pot_bath += 0.5 * self.m * self.omega2[i] * aux**2
                 fq_bath += aux * self.coef[i] * self.dSD_dq(q)
-                fx[i] -= (self.m * self.omega2[i] * aux).flatten()
+                fx[i] -= self.m * self.omega2[i] * aux
 
         return pot_bath, fq_bath, fx
diff --git a/ipi/pes/doubledoublewell.py b/ipi/pes/doubledoublewell.py
index 6035c8c..e76c6b2 100644
--- a/ipi/pes/doubledoublewell.py
+++ b/ipi/pes/doubledoublewell.py
@@ -89,7 +89,6 @@ class DDW_with_explicit_bath_driver(Dummy_driver):
             self.bath_parameters["eps2"] = eps2
             self.bath_parameters["deltaQ"] = deltaQ
             self.bath_parameters["w_c"] = w_c * invcm2au
-            self.bath_parameters["delta"] = self.delta
         # def __init__(self, nbath, m, eta0, eps1, eps2, deltaQ, w_c, *args, **kwargs):
 
         except:
@@ -109,23 +108,22 @@ class DDW_with_explicit_bath_driver(Dummy_driver):
             self.ndof = np.size(pos)
             assert self.ndof % 2 == 0, "Sorry we need an even number of ndof"
             self.nbath = (self.ndof - 2) // 2
-            self.bath1 = Harmonic_Bath_explicit(self.nbath, self.bath_parameters)
-            self.bath2 = Harmonic_Bath_explicit(self.nbath, self.bath_parameters)
+            self.bath1 = Harmonic_Bath_explicit(self.nbath, **self.bath_parameters)
+            self.bath2 = Harmonic_Bath_explicit(self.nbath, **self.bath_parameters)
             self.init = True
 
         pot = 0
-        q1 = pos.reshape(-1, 1)[0:1]
-        q2 = pos.reshape(-1, 1)[1:2]
+        q1, q2 = pos.flatten()[:2]
         x = pos.reshape(-1, 1)[2 : self.ndof // 2 + 1]
         y = pos.reshape(-1, 1)[self.ndof // 2 + 1 :]
-        assert self.ndof == q1.size + q2.size + x.size + y.size
+        assert self.ndof == 2 + x.size + y.size
 
         fx = np.zeros(x.shape)
         fy = np.zeros(x.shape)
 
         # Harmonic bath
-        pot_x, fq1, fx = self.bath1(q1, x)
-        pot_y, fq2, fy = self.bath2(q2, y)
+        pot_x, fq1, fx = self.bath1.compute_structure(q1, x)
+        pot_y, fq2, fy = self.bath2.compute_structure(q2, y)
 
         pot = pot_x + pot_y
 
diff --git a/ipi/pes/doublewell_with_bath.py b/ipi/pes/doublewell_with_bath.py
index 85f5920..e0b9188 100644
--- a/ipi/pes/doublewell_with_bath.py
+++ b/ipi/pes/doublewell_with_bath.py
@@ -84,23 +84,20 @@ class DoubleWell_with_explicit_bath_driver(Dummy_driver):
     def compute_structure(self, cell, pos):
         """DoubleWell potential"""
         pot = 0
-        q = pos.reshape(-1, 1)[0]
+        q = pos.flatten()[0]
         x = pos.reshape(-1, 1)[1:]
-        fq = np.zeros(q.shape)
-        fx = np.zeros(x.shape)
-
         if not self.init:
             self.nbath = np.size(x)
             self.bath = Harmonic_Bath_explicit(self.nbath, **self.bath_parameters)
 
         # Harmonic bath
-        pot, fq, fx = self.bath(q, x)
+        pot, fq, fx = self.bath.compute_structure(q, x)
 
         # DW
         pot += self.A * (q - self.delta) ** 2 + self.B * (q**4)
         fq += -2.0 * self.A * (q - self.delta) - 4.0 * self.B * (q**3)
 
-        force = np.concatenate((fq, fx.flatten())).reshape(pos.shape)
+        force = np.concatenate(([fq], fx.flatten())).reshape(pos.shape)
         vir = cell * 0.0  # makes a zero virial with same shape as cell
         extras = "empty"
 
-- 
2.43.0


From f97658ca14091347d3c80298006535959e5c4bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:35 +0000
Subject: [PATCH 063/118] fix: the forces of the spline potential are not the
 derivative of its energy

---
 ipi/pes/spline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipi/pes/spline.py b/ipi/pes/spline.py
index 698d3c5..3febe75 100644
--- a/ipi/pes/spline.py
+++ b/ipi/pes/spline.py
@@ -86,7 +86,10 @@ class Spline_driver(Dummy_driver):
         x = self.full2oneD(pos)
         force = np.zeros(pos.shape)
         d = 0.001
-        force[0, 0] = -(self.spline_e(x + d) - self.spline_e(x - d)) / (2 * d)
+        # the spline is a function of x = factor_coord * pos[0, 0]
+        force[0, 0] = (
+            -factor_coord * (self.spline_e(x + d) - self.spline_e(x - d)) / (2 * d)
+        )
         # force[0, 0] = self.spline_f[0](x) #+ self.spline_f[1](x) + self.spline_f[2](x)
         force[0, 1] = -self.k * pos[0, 1]
         force[0, 2] = -self.k * pos[0, 2]
-- 
2.43.0


From 8d184148b57d304fa1411a44c03abee235dde100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:17 +0000
Subject: [PATCH 064/118] fix: the Fortran driver refuses the three parameters
 of the Morse potentials

---
 drivers/f90/driver.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drivers/f90/driver.f90 b/drivers/f90/driver.f90
index 1fb714d..ede611d 100644
--- a/drivers/f90/driver.f90
+++ b/drivers/f90/driver.f90
@@ -352,7 +352,7 @@
             vpars(1) = 1.8323926 ! r0
             vpars(2) = 0.18748511263179304 ! D
             vpars(3) = 1.1562696428501682 ! a
-         ELSEIF ( 2/= par_count) THEN
+         ELSEIF ( 3/= par_count) THEN
             WRITE(*,*) "Error: parameters not initialized correctly."
             WRITE(*,*) "For morse potential use -o r0,D,a (in a.u.) "
             STOP "ENDED"
@@ -518,7 +518,7 @@
              vpars(1) = 1.8323926 ! r0
              vpars(2) = 0.18748511263179304 ! D
              vpars(3) = 1.1562696428501682 ! a
-         ELSEIF ( 2/= par_count) THEN
+         ELSEIF ( 3/= par_count) THEN
              WRITE(*,*) "Error: parameters not initialized correctly."
              WRITE(*,*) "For morse potential use -o r0,D,a (in a.u.) "
              STOP "ENDED"
-- 
2.43.0


From 5d36f462782db358ce155b289c7e96d8f2761bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:17 +0000
Subject: [PATCH 065/118] fix: the Fortran Mueller-Brown potential ignores its
 scaling parameter

---
 drivers/f90/pes/MB.f90 | 1 -
 1 file changed, 1 deletion(-)

diff --git a/drivers/f90/pes/MB.f90 b/drivers/f90/pes/MB.f90
index 4846fd1..5ef247c 100644
--- a/drivers/f90/pes/MB.f90
+++ b/drivers/f90/pes/MB.f90
@@ -13,7 +13,6 @@
 
       real(kind=8),dimension(4) :: A0,a,b,c,x0,y0,V,gx,gy
 
-      scaling = 0.004737803248674678
       k  = 1836*(3800.0d0/219323d0)**2
 
       A0  = (/ -200.0 , -100.0   , -170.0 , 15.0  /)
-- 
2.43.0


From ed5ac99bdf9749477ec8edc4d91d4b8897255722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:31 +0000
Subject: [PATCH 066/118] fix: the friction of the Fortran double wells is
 written out of bounds with several atoms

---
 drivers/f90/pes/doublewell.f90    | 4 ++--
 drivers/f90/pes/doublewell_1D.f90 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/drivers/f90/pes/doublewell.f90 b/drivers/f90/pes/doublewell.f90
index fbbfa8f..bab30b7 100644
--- a/drivers/f90/pes/doublewell.f90
+++ b/drivers/f90/pes/doublewell.f90
@@ -46,9 +46,9 @@
         DO i = 1,nat
             DO j = 1,nat
                 DO qi = 1,3
-                    coori = (i-1)*nat+qi
+                    coori = (i-1)*3+qi
                     DO qj = 1,3
-                        coorj = (j-1)*nat+qj
+                        coorj = (j-1)*3+qj
                         friction(coori,coorj) = q(i,qi)*q(j,qj)
                     END DO
                 END DO
diff --git a/drivers/f90/pes/doublewell_1D.f90 b/drivers/f90/pes/doublewell_1D.f90
index 9acef29..e3bf6f3 100644
--- a/drivers/f90/pes/doublewell_1D.f90
+++ b/drivers/f90/pes/doublewell_1D.f90
@@ -70,9 +70,9 @@
         DO i = 1,nat
             DO j = 1,nat
                 DO qi = 1,3
-                    coori = (i-1)*nat+qi
+                    coori = (i-1)*3+qi
                     DO qj = 1,3
-                        coorj = (j-1)*nat+qj
+                        coorj = (j-1)*3+qj
                         friction(coori,coorj) = q(i,qi)*q(j,qj)
                     END DO
                 END DO
-- 
2.43.0


From 0e579b44d4ece2e37d90d5e01db744939a69ece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:31 +0000
Subject: [PATCH 067/118] fix: the Fortran 1D double well returns the energy of
 the last atom only

---
 drivers/f90/pes/doublewell_1D.f90 | 2 --
 1 file changed, 2 deletions(-)

diff --git a/drivers/f90/pes/doublewell_1D.f90 b/drivers/f90/pes/doublewell_1D.f90
index e3bf6f3..f638197 100644
--- a/drivers/f90/pes/doublewell_1D.f90
+++ b/drivers/f90/pes/doublewell_1D.f90
@@ -17,8 +17,6 @@
            y = q(i,2)
            z = q(i,3)
 
-           pot            =  0.0
-           
            pot            = pot+ 0.5*k*y**2
            fy             = -k*y
            pot            = pot+ 0.5*k*z**2
-- 
2.43.0


From 234f351c1f3dcbfd21410e7b1a2ba7567b8849f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:45 +0000
Subject: [PATCH 068/118] fix: the forces of the Fortran LEPS potentials are
 not the derivatives of their energy

---
 drivers/f90/driver.f90   |  2 +-
 drivers/f90/pes/LEPS.f90 | 59 +++++++++++++++++++++++-----------------
 2 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/drivers/f90/driver.f90 b/drivers/f90/driver.f90
index ede611d..2bfdec4 100644
--- a/drivers/f90/driver.f90
+++ b/drivers/f90/driver.f90
@@ -1096,7 +1096,7 @@
                END IF
                CALL LEPS_M1(3, atoms, pot, forces)
             ELSEIF (vstyle == 10) THEN
-               IF (nat /= 3) THEN
+               IF (nat /= 4) THEN
                   WRITE(*,*) "Expecting 4 atoms for LEPS Model 2  potential, A B C D n"
                   STOP "ENDED"
                END IF
diff --git a/drivers/f90/pes/LEPS.f90 b/drivers/f90/pes/LEPS.f90
index 8961fc3..2ea3364 100644
--- a/drivers/f90/pes/LEPS.f90
+++ b/drivers/f90/pes/LEPS.f90
@@ -20,22 +20,23 @@ SUBROUTINE LEPS_M1(na,atoms,V,F)
   REAL(8), INTENT(OUT) :: V,F(3,3)
   REAL(8) :: V_plus, V_mins, moved_atoms(3,3)
   INTEGER, INTENT(IN) :: na
-  INTEGER :: i
+  INTEGER :: i, k
 
   CALL V_LEPS(atoms, acb, d, r_0, alpha, V)
 
   ! Compute numerical forces
   F = 0.0D0
-  do i=2,na
-     moved_atoms = atoms
-     moved_atoms(i,1) = atoms(i,1) + step
-     CALL V_LEPS(moved_atoms, acb, d, r_0, alpha, V_plus)
-     moved_atoms(i,1) = atoms(i,1) - step
-     CALL V_LEPS(moved_atoms, acb, d, r_0, alpha, V_mins)
-     F(i,1) = 1 * (V_plus - V_mins)/ (4*step)
+  do i=1,na
+     do k=1,3
+        moved_atoms = atoms
+        moved_atoms(i,k) = atoms(i,k) + step
+        CALL V_LEPS(moved_atoms, acb, d, r_0, alpha, V_plus)
+        moved_atoms(i,k) = atoms(i,k) - step
+        CALL V_LEPS(moved_atoms, acb, d, r_0, alpha, V_mins)
+        F(i,k) = -(V_plus - V_mins)/ (2*step)
+     end do
   end do
 
-
 END SUBROUTINE LEPS_M1
 
 SUBROUTINE LEPS_M2(na,atoms,V,F)
@@ -56,27 +57,35 @@ SUBROUTINE LEPS_M2(na,atoms,V,F)
   REAL(8), INTENT(IN) :: atoms(4,3) ! A=> atoms(1), B=> atoms(2) C=> atoms(3)
   REAL(8), INTENT(OUT) :: V,F(4,3)
   INTEGER, INTENT(IN) :: na
-  REAL(8) :: rab, rac, x, dist, moved_atoms(4,3), V_plus, V_mins
-  INTEGER :: i
+  REAL(8) :: moved_atoms(4,3), V_plus, V_mins
+  INTEGER :: i, k
 
-  CALL V_LEPS(atoms(1:3,:), acb, d, r_0, alpha, V)
-  rab = dist(atoms(1,:), atoms(2,:))
-  rac = dist(atoms(1,:), atoms(3,:))
-  x = atoms(2,1) - atoms(4,1)
-  V = V + 2 * kc * (rab - (rac/2 - x/c))**2
+  CALL V_M2(atoms, V)
 
-  ! Compute numerical forces
   F = 0.0D0
-  do i=2,na,2
-     moved_atoms = atoms
-     moved_atoms(i,1) = atoms(i,1) + step
-     CALL V_LEPS(moved_atoms, acb, d, r_0, alpha, V_plus)
-     moved_atoms(i,1) = atoms(i,1) - step
-     CALL V_LEPS(moved_atoms, acb, d, r_0, alpha, V_mins)
-     F(i,1) = -1 * (V_plus - V_mins)/ (4 * step)
+  do i=1,na
+     do k=1,3
+        moved_atoms = atoms
+        moved_atoms(i,k) = atoms(i,k) + step
+        CALL V_M2(moved_atoms, V_plus)
+        moved_atoms(i,k) = atoms(i,k) - step
+        CALL V_M2(moved_atoms, V_mins)
+        F(i,k) = -(V_plus - V_mins)/ (2*step)
+     end do
   end do
 
-  
+CONTAINS
+  SUBROUTINE V_M2(q, pot)
+    REAL(8), INTENT(IN) :: q(4,3)
+    REAL(8), INTENT(OUT) :: pot
+    REAL(8) :: rab, rac, x
+    REAL(8), EXTERNAL :: dist
+    CALL V_LEPS(q(1:3,:), acb, d, r_0, alpha, pot)
+    rab = dist(q(1,:), q(2,:))
+    rac = dist(q(1,:), q(3,:))
+    x = q(2,1) - q(4,1)
+    pot = pot + 2 * kc * (rab - (rac/2 - x/c))**2
+  END SUBROUTINE V_M2
 END SUBROUTINE LEPS_M2
 
 SUBROUTINE V_LEPS(atoms, acb, d, r_0, alpha, V)
-- 
2.43.0


From 39ad0b94e9c2776459a932ae4138057283c48e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:57 +0000
Subject: [PATCH 069/118] fix: the weights of the members of a committee
 forcefield are ignored

---
 ipi/engine/forcefields.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index c2164ce..bd8473c 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1485,32 +1485,38 @@ class FFCommittee(ForceField):
         all_have_frc = True
         all_have_vir = True
 
-        for ff_r in com_handles:
+        for ff_r, ffw in zip(com_handles, self.ffweights):
             # if required, tries to extract multiple committe members from the extras JSON string
             if "committee_pot" in ff_r["result"][3] and self.parse_json:
-                pots += ff_r["result"][3]["committee_pot"]
+                pots += [ffw * pot for pot in ff_r["result"][3]["committee_pot"]]
                 if "committee_force" in ff_r["result"][3]:
-                    frcs += ff_r["result"][3]["committee_force"]
+                    frcs += [
+                        ffw * np.asarray(frc)
+                        for frc in ff_r["result"][3]["committee_force"]
+                    ]
                     ff_r["result"][3].pop("committee_force")
                 else:
                     # if the commitee doesn't have forces, just add the mean force from this model
-                    frcs.append(ff_r["result"][1])
+                    frcs.append(ffw * ff_r["result"][1])
                     warning("JSON committee doesn't have forces", verbosity.medium)
                     all_have_frc = False
 
                 if "committee_virial" in ff_r["result"][3]:
-                    virs += ff_r["result"][3]["committee_virial"]
+                    virs += [
+                        ffw * np.asarray(vir)
+                        for vir in ff_r["result"][3]["committee_virial"]
+                    ]
                     ff_r["result"][3].pop("committee_virial")
                 else:
                     # if the commitee doesn't have virials, just add the mean virial from this model
-                    virs.append(ff_r["result"][2])
+                    virs.append(ffw * ff_r["result"][2])
                     warning("JSON committee doesn't have virials", verbosity.medium)
                     all_have_vir = False
 
             else:
-                pots.append(ff_r["result"][0])
-                frcs.append(ff_r["result"][1])
-                virs.append(ff_r["result"][2])
+                pots.append(ffw * ff_r["result"][0])
+                frcs.append(ffw * ff_r["result"][1])
+                virs.append(ffw * ff_r["result"][2])
 
         pots = np.array(pots)
         if len(pots) != len(frcs) and len(frcs) > 1:
-- 
2.43.0


From e036fdf89b1996a203dab15e0443f4112240534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:57 +0000
Subject: [PATCH 070/118] fix: committee extras contain those of the last
 member only

---
 ipi/engine/forcefields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index bd8473c..4e2a14e 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1518,6 +1518,8 @@ class FFCommittee(ForceField):
                 frcs.append(ffw * ff_r["result"][1])
                 virs.append(ffw * ff_r["result"][2])
 
+            xtrs.append(ff_r["result"][3])
+
         pots = np.array(pots)
         if len(pots) != len(frcs) and len(frcs) > 1:
             raise ValueError(
@@ -1531,8 +1533,6 @@ class FFCommittee(ForceField):
             )
         virs = np.array(virs).reshape(-1, 3, 3)
 
-        xtrs.append(ff_r["result"][3])
-
         # Computes the mean energetics
         mean_pot = np.mean(pots, axis=0)
         mean_frc = np.mean(frcs, axis=0)
@@ -1646,7 +1646,7 @@ class FFCommittee(ForceField):
                 )
             r["result"][3][("committee_" + k)] = []
             for x in xtrs:
-                r["result"][3][("committee_" + k)].append(x[k])
+                r["result"][3][("committee_" + k)].append(x.get(k, None))
 
         if self.active_thresh > 0.0 and std_pot > self.active_thresh:
             dumps = json.dumps(
-- 
2.43.0


From e4660ac7207dc6b1533a513eca45787faf780483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:30 +0000
Subject: [PATCH 071/118] fix: forcefields evaluated in threads are marked as
 done before the offset is applied

---
 ipi/engine/forcefields.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 4e2a14e..5a9e160 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -396,9 +396,11 @@ class FFEval(ForceField):
     """
 
     def _eval_thread(self, request):
-        """Evaluates a single request and applies the offset."""
+        """Evaluates a single request, applies the offset and marks it as done."""
         self.evaluate(request)
         request["result"][0] -= self.offset
+        request["status"] = "Done"
+        request._event_done.set()
 
     def poll(self):
         """Polls the forcefield checking if there are requests that should
@@ -429,8 +431,6 @@ class FFEval(ForceField):
             np.zeros((3, 3), float),
             {"raw": ""},
         ]
-        request["status"] = "Done"
-        request._event_done.set()
 
 
 class FFMPI(ForceField):
@@ -691,8 +691,6 @@ class FFLennardJones(FFEval):
         v *= self.epsfour
 
         r["result"] = [v, f.reshape(nat * 3), np.zeros((3, 3), float), {"raw": ""}]
-        r["status"] = "Done"
-        r._event_done.set()
 
 
 class FFdmd(FFEval):
@@ -792,8 +790,6 @@ class FFdmd(FFEval):
             #          Because this is "out of equilibrium" I still did not find a good benchmark. Change cell and look at variation of energy only for this term?
 
         r["result"] = [v, f.reshape(nat * 3), vir, ""]
-        r["status"] = "Done"
-        r._event_done.set()
 
     def dmd_update(self):
         """Updates time step when a full step is done. Can only be called after implementation goes into smotion mode..."""
@@ -873,8 +869,6 @@ class FFDebye(FFEval):
             np.zeros((3, 3), float),
             {"raw": ""},
         ]
-        r["status"] = "Done"
-        r._event_done.set()
         r["t_finished"] = time.time()
 
 
@@ -1060,8 +1054,6 @@ class FFPlumed(FFEval):
 
         # nb: the virial is a symmetric tensor, so we don't need to transpose
         r["result"] = [v, f, vir, extras]
-        r["status"] = "Done"
-        r._event_done.set()
 
     def mtd_update(self, pos, cell):
         """Makes updates to the potential that only need to be triggered
@@ -1216,8 +1208,6 @@ class FFYaff(FFEval):
         e = self.ff.compute(gpos, vtens)
 
         r["result"] = [e, -gpos.ravel(), -vtens, {"raw": ""}]
-        r["status"] = "Done"
-        r._event_done.set()
 
 
 class FFsGDML(FFEval):
@@ -1349,8 +1339,6 @@ class FFsGDML(FFEval):
             np.zeros((3, 3), float),
             {"raw": ""},
         ]
-        r["status"] = "Done"
-        r._event_done.set()
         r["t_finished"] = time.time()
 
 
-- 
2.43.0


From f985e5ecb0ed77e4ea1011c53412b2c11524907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:30 +0000
Subject: [PATCH 072/118] fix: ffdmd returns extras that are not a dictionary

---
 ipi/engine/forcefields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 5a9e160..71f7dca 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -789,7 +789,7 @@ class FFdmd(FFEval):
             # MR 2021: The virial looks correct and produces stable NPT simulations. It was not bullet-proof benchmarked, though.
             #          Because this is "out of equilibrium" I still did not find a good benchmark. Change cell and look at variation of energy only for this term?
 
-        r["result"] = [v, f.reshape(nat * 3), vir, ""]
+        r["result"] = [v, f.reshape(nat * 3), vir, {"raw": ""}]
 
     def dmd_update(self):
         """Updates time step when a full step is done. Can only be called after implementation goes into smotion mode..."""
-- 
2.43.0


From 07ca7c7a70b70a51ce177c2de16984128ff95768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:46 +0000
Subject: [PATCH 073/118] fix: a committee of JSON committees and single models
 crashes

---
 ipi/engine/forcefields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 71f7dca..8968652 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1479,7 +1479,7 @@ class FFCommittee(ForceField):
                 pots += [ffw * pot for pot in ff_r["result"][3]["committee_pot"]]
                 if "committee_force" in ff_r["result"][3]:
                     frcs += [
-                        ffw * np.asarray(frc)
+                        ffw * np.asarray(frc).flatten()
                         for frc in ff_r["result"][3]["committee_force"]
                     ]
                     ff_r["result"][3].pop("committee_force")
@@ -1491,7 +1491,7 @@ class FFCommittee(ForceField):
 
                 if "committee_virial" in ff_r["result"][3]:
                     virs += [
-                        ffw * np.asarray(vir)
+                        ffw * np.asarray(vir).reshape(3, 3)
                         for vir in ff_r["result"][3]["committee_virial"]
                     ]
                     ff_r["result"][3].pop("committee_virial")
-- 
2.43.0


From 01ddfe101e7c869c2eaae9cd6fdde2a6e430abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:46 +0000
Subject: [PATCH 074/118] fix: the time of a driven potential advances once per
 system rather than once per step

---
 ipi/engine/smotion/dmd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/smotion/dmd.py b/ipi/engine/smotion/dmd.py
index 5f53fc2..b6d282f 100644
--- a/ipi/engine/smotion/dmd.py
+++ b/ipi/engine/smotion/dmd.py
@@ -40,6 +40,7 @@ class DMD(Smotion):
     def step(self, step=None):
         """Updates driven md time step."""
 
+        updated = []  # forcefields can be shared between systems
         for s in self.syslist:
             for ik, bc in enumerate(s.ensemble.bcomp):
                 k = bc.ffield
@@ -51,4 +52,6 @@ class DMD(Smotion):
                 ):  # forcefield does not expose dmd_update interface
                     raise ValueError("The forcefield '%s' associated with driven MD \
                                       does not have a dmd_update interface" % (k))
-                f.dmd_update()  # updates the time step
+                if f not in updated:
+                    f.dmd_update()  # updates the time step
+                    updated.append(f)
-- 
2.43.0


From 2d444e8704cbf38a6e5a1ab420d544423d013b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:41 +0000
Subject: [PATCH 075/118] fix: ffcavphsocket subtracts its energy offset twice

---
 ipi/engine/forcefields.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 8968652..f72e2cb 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -2463,8 +2463,6 @@ class FFCavPhSocket(FFSocket):
             result_tot[1][2:ndim_tot:3] += fz_cav
             result_tot[1][ndim_tot:] = f_ph
 
-        result_tot[0] -= self.offset
-
         # At this moment, we have sucessfully gathered the CavMD forces
         newreq = ForceRequest(
             {
-- 
2.43.0


From 21f492b59c425afd05ff864d7abae33b6b037811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:45 +0000
Subject: [PATCH 076/118] fix: systems that share a ffcavphsocket get the
 results of each other

---
 ipi/engine/forcefields.py | 56 ++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index f72e2cb..7ef7080 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -2340,9 +2340,9 @@ class FFCavPhSocket(FFSocket):
             self.poll()
 
         # sleeps until all the new requests have been evaluated
-        for self.request in newreq_lst:
-            while self.request["status"] != "Done":
-                if self.request["status"] == "Exit" or softexit.triggered:
+        for request in newreq_lst:
+            while request["status"] != "Done":
+                if request["status"] == "Exit" or softexit.triggered:
                     # now, this is tricky. we are stuck here and we cannot return meaningful results.
                     # if we return, we may as well output wrong numbers, or mess up things.
                     # so we can only call soft-exit and wait until that is done. then kill the thread
@@ -2351,22 +2351,9 @@ class FFCavPhSocket(FFSocket):
                     while softexit.exiting:
                         time.sleep(self.latency)
                     sys.exit()
-                self.request._event_done.wait(timeout=1.0)
+                request._event_done.wait(timeout=1.0)
 
-            """
-            with self._threadlock:
-                self._getallcount -= 1
-
-            # releases just once, but wait for all requests to be complete
-            if self._getallcount == 0:
-                self.release(self.request)
-                self.request = None
-            else:
-                while self._getallcount > 0:
-                    time.sleep(self.latency)
-            """
-            self.release(self.request)
-            self.request = None
+            self.release(request)
 
         # ...atomic forces have been calculated at this point
 
@@ -2434,21 +2421,24 @@ class FFCavPhSocket(FFSocket):
                         charge_array_bath=self.charge_array,
                     )
 
-                # 5. calculate photonic contribution of total energy
-                e_ph = self.ph.get_ph_energy(dx_array=dx_array, dy_array=dy_array)
-                # 6. calculate photonic forces
-                f_ph = self.ph.get_ph_forces(dx_array=dx_array, dy_array=dy_array)
-                # 7. calculate cavity forces on nuclei
-                if self.dipole_surface:
-                    fx_cav, fy_cav, fz_cav = self.ph.get_nuc_cav_forces(
-                        dx_array=dx_array, dy_array=dy_array, dipole_der=dipole_der
-                    )
-                else:
-                    fx_cav, fy_cav, fz_cav = self.ph.get_nuc_cav_forces(
-                        dx_array=dx_array,
-                        dy_array=dy_array,
-                        charge_array_bath=self.charge_array,
-                    )
+                # other threads may be using the photon driver for other systems
+                with self._threadlock:
+                    self.ph.split_atom_ph_coord(pbcpos)
+                    # 5. calculate photonic contribution of total energy
+                    e_ph = self.ph.get_ph_energy(dx_array=dx_array, dy_array=dy_array)
+                    # 6. calculate photonic forces
+                    f_ph = self.ph.get_ph_forces(dx_array=dx_array, dy_array=dy_array)
+                    # 7. calculate cavity forces on nuclei
+                    if self.dipole_surface:
+                        fx_cav, fy_cav, fz_cav = self.ph.get_nuc_cav_forces(
+                            dx_array=dx_array, dy_array=dy_array, dipole_der=dipole_der
+                        )
+                    else:
+                        fx_cav, fy_cav, fz_cav = self.ph.get_nuc_cav_forces(
+                            dx_array=dx_array,
+                            dy_array=dy_array,
+                            charge_array_bath=self.charge_array,
+                        )
 
             # this is the path to avoid double counting of photonic contributions when multiple drivers are attached to i-pi
             else:
-- 
2.43.0


From 86d709f9f3480011bf24298dc3daace5df59006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:41 +0000
Subject: [PATCH 077/118] fix: exchanging Hamiltonian weights between replicas
 has no effect on the forces

---
 ipi/engine/ensembles.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index 59b392b..6ae5b2e 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -133,7 +133,7 @@ class Ensemble:
         # weights of the Hamiltonian scaling
         if hweights is None:
             hweights = np.ones(0)
-        self.hweights = np.asarray(hweights)
+        self._hweights = depend_array(name="hweights", value=np.asarray(hweights))
 
         # Internal time counter
         self._time = depend_value(name="time", value=time)
@@ -199,9 +199,10 @@ class Ensemble:
 
         # add Hamiltonian REM bias components
         if len(self.hweights) == 0:
-            self.hweights = np.ones(len(self.forces.mforces))
+            self._hweights = depend_array(
+                name="hweights", value=np.ones(len(self.forces.mforces))
+            )
 
-        self._hweights = depend_array(name="hweights", value=np.asarray(self.hweights))
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
@@ -290,6 +291,7 @@ dproperties(
         "pext",
         "eens",
         "bweights",
+        "hweights",
         "time",
         "econs",
         "has_bias",
-- 
2.43.0


From 0f0d64099a2dec1cdcb147ce5f38088bfa8d863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:39 +0000
Subject: [PATCH 078/118] fix: replica exchange rescales the GLE momenta as if
 they were energies

---
 ipi/engine/smotion/remd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/smotion/remd.py b/ipi/engine/smotion/remd.py
index 8061c27..a3f3233 100644
--- a/ipi/engine/smotion/remd.py
+++ b/ipi/engine/smotion/remd.py
@@ -165,8 +165,8 @@ class ReplicaExchange(Smotion):
                     )
 
                     # if we have GLE thermostats, we also have to exchange rescale the s!!!
-                    gle_scale(sl[i], (tj / ti))
-                    gle_scale(sl[j], (ti / tj))
+                    gle_scale(sl[i], np.sqrt(tj / ti))
+                    gle_scale(sl[j], np.sqrt(ti / tj))
 
                     t_eval -= time.time()
                     # we just have to carry on with the swapped ensembles, but we also keep track of the changes in econs
-- 
2.43.0


From d1f6e5145ed25b434dc6ca1a0b8d2518b866e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:09 +0000
Subject: [PATCH 079/118] fix: geometry optimization of a structure without
 forces gives NaN positions or hangs

---
 ipi/engine/motion/geop.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipi/engine/motion/geop.py b/ipi/engine/motion/geop.py
index cf31b59..0f1fa4f 100755
--- a/ipi/engine/motion/geop.py
+++ b/ipi/engine/motion/geop.py
@@ -162,6 +162,16 @@ class GeopMotion(Motion):
             )
 
     def step(self, step=None):
+        if not self.optimizer.converged and (
+            step == 0 or self.mode not in ["bfgs", "lbfgs"]
+        ):
+            # without any force on the free atoms there is no direction to move along
+            f = dstrip(self.forces.f).copy()
+            f[:, self.fixatoms_dof] = 0.0
+            if np.dot(f.flatten(), f.flatten()) == 0.0:
+                info(" @GEOP: There are no forces to minimize.", verbosity.low)
+                self.optimizer.converged = True
+
         if self.optimizer.converged:
             # if required, exit upon convergence. otherwise just return without action
             if self.conv_exit:
-- 
2.43.0


From e991e665f4b40fef3494bae54cdae1ad9ac7ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:33 +0000
Subject: [PATCH 080/118] fix: geometry optimization with fixed atoms fails
 with more than one bead

---
 ipi/engine/motion/geop.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/ipi/engine/motion/geop.py b/ipi/engine/motion/geop.py
index 0f1fa4f..c0c7e1a 100755
--- a/ipi/engine/motion/geop.py
+++ b/ipi/engine/motion/geop.py
@@ -264,6 +264,9 @@ class GradientMapper(object):
         if len(dumop.fixatoms_dof) > 0:
             self.fixatoms_mask[dumop.fixatoms_dof] = 0
 
+        # the same mask for arrays that run over the coordinates of all beads
+        self.fixatoms_mask_beads = np.tile(self.fixatoms_mask, dumop.beads.nbeads)
+
     def __call__(self, x):
         """computes energy and gradient for optimization step"""
 
@@ -459,7 +462,7 @@ class BFGSOptimizer(DummyOptimizer):
             masked_old_x = self.old_x[:, self.gm.fixatoms_mask]
             masked_d = self.d[:, self.gm.fixatoms_mask]
             masked_invhessian = self.invhessian[
-                np.ix_(self.gm.fixatoms_mask, self.gm.fixatoms_mask)
+                np.ix_(self.gm.fixatoms_mask_beads, self.gm.fixatoms_mask_beads)
             ]
 
             # Do one iteration of BFGS
@@ -478,7 +481,7 @@ class BFGSOptimizer(DummyOptimizer):
 
             # Restore dimensionality of d and invhessian
             self.d[:, self.gm.fixatoms_mask] = masked_d
-            self.invhessian[np.ix_(self.gm.fixatoms_mask, self.gm.fixatoms_mask)] = (
+            self.invhessian[np.ix_(self.gm.fixatoms_mask_beads, self.gm.fixatoms_mask_beads)] = (
                 masked_invhessian
             )
 
@@ -555,7 +558,7 @@ class BFGSTRMOptimizer(DummyOptimizer):
             # Reduce dimensionality
             masked_old_x = self.old_x[:, self.gm.fixatoms_mask]
             masked_hessian = self.hessian[
-                np.ix_(self.gm.fixatoms_mask, self.gm.fixatoms_mask)
+                np.ix_(self.gm.fixatoms_mask_beads, self.gm.fixatoms_mask_beads)
             ]
 
             # Do one iteration of BFGSTRM.
@@ -571,7 +574,7 @@ class BFGSTRMOptimizer(DummyOptimizer):
             )
 
             # Restore dimensionality of the hessian
-            self.hessian[np.ix_(self.gm.fixatoms_mask, self.gm.fixatoms_mask)] = (
+            self.hessian[np.ix_(self.gm.fixatoms_mask_beads, self.gm.fixatoms_mask_beads)] = (
                 masked_hessian
             )
         else:
@@ -662,8 +665,8 @@ class LBFGSOptimizer(DummyOptimizer):
             masked_old_x = self.old_x[:, self.gm.fixatoms_mask]
             masked_d = self.d[:, self.gm.fixatoms_mask]
             # self.gm is reduced inside its __init__() and __call__() functions
-            masked_qlist = self.qlist[:, self.gm.fixatoms_mask]
-            masked_glist = self.glist[:, self.gm.fixatoms_mask]
+            masked_qlist = self.qlist[:, self.gm.fixatoms_mask_beads]
+            masked_glist = self.glist[:, self.gm.fixatoms_mask_beads]
             fdf0 = (self.old_u, -self.old_f[:, self.gm.fixatoms_mask])
 
             # We update everything within L_BFGS (and all other calls).
@@ -684,8 +687,8 @@ class LBFGSOptimizer(DummyOptimizer):
 
             # Restore the dimensionality
             self.d[:, self.gm.fixatoms_mask] = masked_d
-            self.qlist[:, self.gm.fixatoms_mask] = masked_qlist
-            self.glist[:, self.gm.fixatoms_mask] = masked_glist
+            self.qlist[:, self.gm.fixatoms_mask_beads] = masked_qlist
+            self.glist[:, self.gm.fixatoms_mask_beads] = masked_glist
 
         else:
             fdf0 = (self.old_u, -self.old_f)
@@ -770,7 +773,7 @@ class Damped_BFGSOptimizer(DummyOptimizer):
             # Reduce dimensionality
             masked_old_x = self.old_x[:, self.gm.fixatoms_mask]
             masked_invhessian = self.invhessian[
-                np.ix_(self.gm.fixatoms_mask, self.gm.fixatoms_mask)
+                np.ix_(self.gm.fixatoms_mask_beads, self.gm.fixatoms_mask_beads)
             ]
 
             # Do one iteration of Damped_BFGS
@@ -785,7 +788,7 @@ class Damped_BFGSOptimizer(DummyOptimizer):
             )
 
             # Restore dimensionality of the invhessian
-            self.invhessian[np.ix_(self.gm.fixatoms_mask, self.gm.fixatoms_mask)] = (
+            self.invhessian[np.ix_(self.gm.fixatoms_mask_beads, self.gm.fixatoms_mask_beads)] = (
                 masked_invhessian
             )
 
-- 
2.43.0


From 90389515b108eed2e2ce655c491f938d3a121fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:27 +0000
Subject: [PATCH 081/118] fix: damped BFGS cannot optimize with single
 coordinates fixed

---
 ipi/engine/motion/geop.py |  1 +
 ipi/utils/mintools.py     | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/motion/geop.py b/ipi/engine/motion/geop.py
index c0c7e1a..07f7131 100755
--- a/ipi/engine/motion/geop.py
+++ b/ipi/engine/motion/geop.py
@@ -785,6 +785,7 @@ class Damped_BFGSOptimizer(DummyOptimizer):
                 fdf0,
                 masked_invhessian,
                 self.big_step,
+                self.gm.fixatoms_mask_beads,
             )
 
             # Restore dimensionality of the invhessian
diff --git a/ipi/utils/mintools.py b/ipi/utils/mintools.py
index 4d3a255..3cf581c 100644
--- a/ipi/utils/mintools.py
+++ b/ipi/utils/mintools.py
@@ -889,7 +889,7 @@ def L_BFGS(x0, d0, fdf, qlist, glist, fdf0, big_step, tol, itmax, m, scale, k):
 
 
 # Damped BFGS to use in NEB. Has no line search and no TRM.
-def Damped_BFGS(x0, fdf, fdf0, hessian, big_step):
+def Damped_BFGS(x0, fdf, fdf0, hessian, big_step, mask=None):
     """BFGS, damped as described in Nocedal, Wright (2nd ed.) Procedure 18.2
     The purpose is mostly using it for NEB optimization, but it is capable of
     plain geometry optimization also.
@@ -913,6 +913,8 @@ def Damped_BFGS(x0, fdf, fdf0, hessian, big_step):
       hessian: approximate Hessian for the BFGS algorithm
       big_step: limit on step length. It is defined differently
                   compared to other optimization algorithms, take care.
+      mask: which coordinates of the whole system x0 stands for. Needed to
+                  group them into atoms if single coordinates are fixed.
 
     Returns:
       quality: minus cosine of the (gradient, dx) angle.
@@ -945,8 +947,15 @@ def Damped_BFGS(x0, fdf, fdf0, hessian, big_step):
     quality = -np.dot(sk / np.linalg.norm(sk), g0 / np.linalg.norm(g0))
     info(" @DampedBFGS: Direction quality: %.4f." % quality, verbosity.debug)
 
+    def get_maxdispl(s):
+        if mask is not None:
+            full = np.zeros(mask.size)
+            full[mask] = s
+            s = full
+        return np.amax(np.linalg.norm(s.reshape(-1, 3), axis=1))
+
     # I use maximal cartesian atomic displacement as a measure of step length
-    maxdispl = np.amax(np.linalg.norm(sk.reshape(-1, 3), axis=1))
+    maxdispl = get_maxdispl(sk)
     info(" @DampedBFGS: big_step = %.6f" % big_step, verbosity.debug)
     if maxdispl > big_step:
         info(
@@ -956,8 +965,7 @@ def Damped_BFGS(x0, fdf, fdf0, hessian, big_step):
         sk *= big_step / maxdispl
 
     info(
-        " @DampedBFGS: maxdispl:                %.6f bohr"
-        % (np.amax(np.linalg.norm(sk.reshape(-1, 3), axis=1))),
+        " @DampedBFGS: maxdispl:                %.6f bohr" % get_maxdispl(sk),
         verbosity.debug,
     )
 
-- 
2.43.0


From 5089c38c89148b5c501e7c74b53f72d7c4b95c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:20 +0000
Subject: [PATCH 082/118] fix: L-BFGS is stuck for good once its search
 direction points uphill

---
 ipi/utils/mintools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/mintools.py b/ipi/utils/mintools.py
index 3cf581c..baab068 100644
--- a/ipi/utils/mintools.py
+++ b/ipi/utils/mintools.py
@@ -804,7 +804,7 @@ def L_BFGS(x0, d0, fdf, qlist, glist, fdf0, big_step, tol, itmax, m, scale, k):
     if np.dot(g0.flatten(), d0.flatten()) > 0.0:
         # reset search direction if we are moving uphill!
         info(" @MINIMIZE: moving uphill, resetting search direction! ", verbosity.debug)
-        d0 = g0 / np.sqrt(np.dot(g0.flatten(), g0.flatten()))
+        d0[:] = -g0 / np.sqrt(np.dot(g0.flatten(), g0.flatten()))
 
     print("@ GEOP step ", big_step)
     # Perform approximate line minimization in direction d0
-- 
2.43.0


From 283ff7007177845392c7b367274a75542c639c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:09 +0000
Subject: [PATCH 083/118] fix: line searches of SD and CG start from a slope of
 the wrong sign and can get stuck

---
 ipi/engine/motion/geop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/geop.py b/ipi/engine/motion/geop.py
index 07f7131..5220935 100755
--- a/ipi/engine/motion/geop.py
+++ b/ipi/engine/motion/geop.py
@@ -860,7 +860,7 @@ class SDOptimizer(DummyOptimizer):
         # Reuse initial value since we have energy and forces already
         u0, du0 = (
             self.forces.pot.copy(),
-            np.dot(dstrip(self.forces.f.flatten()), dq1_unit.flatten()),
+            -np.dot(dstrip(self.forces.f.flatten()), dq1_unit.flatten()),
         )
 
         # Do one SD iteration; return positions and energy
@@ -958,7 +958,7 @@ class CGOptimizer(DummyOptimizer):
         # Reuse initial value since we have energy and forces already
         u0, du0 = (
             self.forces.pot.copy(),
-            np.dot(dstrip(self.forces.f.flatten()), dq1_unit.flatten()),
+            -np.dot(dstrip(self.forces.f.flatten()), dq1_unit.flatten()),
         )
 
         # Do one CG iteration; return positions and energy
-- 
2.43.0


From 4e3e8738ebc290aecd8a7c4e436290063d26b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:15 +0000
Subject: [PATCH 084/118] fix: trust radius BFGS fills the Hessian with NaN if
 a step does not change the gradient

---
 ipi/utils/mintools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/utils/mintools.py b/ipi/utils/mintools.py
index baab068..bf97f3b 100644
--- a/ipi/utils/mintools.py
+++ b/ipi/utils/mintools.py
@@ -666,6 +666,10 @@ def TRM_UPDATE(dx, df, h):
     dg = -df[:, np.newaxis]
     dg_t = dg.T
 
+    # A step without any change of the gradient carries no information
+    if np.dot(dg_t, dx) == 0.0 or np.dot(dx_t, np.dot(h, dx)) == 0.0:
+        return
+
     # Bakken and Helgaker, JCP, 117,9160. Eq 44
     h1 = np.dot(dg, dg_t)
     h1 = h1 / (np.dot(dg_t, dx))
-- 
2.43.0


From b52a3e274dd29e73f078dfa5cec58c0c59f51d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:20 +0000
Subject: [PATCH 085/118] fix: a step is skipped after a soft exit that comes
 while the status is being stored

---
 ipi/engine/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/simulation.py b/ipi/engine/simulation.py
index ce4a3c9..40bb37a 100644
--- a/ipi/engine/simulation.py
+++ b/ipi/engine/simulation.py
@@ -313,9 +313,10 @@ class Simulation:
         written out.
         """
 
-        if self.step < self.tsteps:
-            self.step += 1
         if not self.rollback:
+            # the current step is complete, and a restart has to begin with the next one
+            if self.step < self.tsteps:
+                self.step += 1
             info(
                 " @simulation.softexit: Saving the latest status at the end of the step"
             )
-- 
2.43.0


From af5e7b95713f0f6d84deffa9ab7c7c2d9bbc2bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:39 +0000
Subject: [PATCH 086/118] fix: a soft exit in the middle of an output leaves an
 incomplete row or frame that the continued run appends to

---
 ipi/engine/outputs.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/outputs.py b/ipi/engine/outputs.py
index d8db273..c4a886c 100644
--- a/ipi/engine/outputs.py
+++ b/ipi/engine/outputs.py
@@ -9,6 +9,7 @@ and the restart files.
 # See the "licenses" directory for full license information.
 
 import os
+from io import StringIO
 
 import numpy as np
 
@@ -275,7 +276,9 @@ class PropertyOutput(BaseOutput):
 
         if not self.active():
             return
-        self.out.write("  ")
+        # The row is put together first and then written at once, so that it cannot be
+        # torn apart by a soft exit.
+        row = "  "
         for what in self.outlist:
             try:
                 quantity, dimension, unit = self.system.properties[what]
@@ -284,12 +287,14 @@ class PropertyOutput(BaseOutput):
             except KeyError:
                 raise KeyError(what + " is not a recognized property")
             if not hasattr(quantity, "__len__"):
-                self.out.write(write_type(float, quantity) + "   ")
+                row += write_type(float, quantity) + "   "
             else:
                 for el in quantity:
-                    self.out.write(write_type(float, el) + " ")
+                    row += write_type(float, el) + " "
 
-        self.out.write("\n")
+        if softexit.triggered:
+            return  # the exit has been requested while the properties were computed
+        self.out.write(row + "\n")
 
         self.nout += 1
         if self.flush > 0 and self.nout >= self.flush:
@@ -643,17 +648,23 @@ class TrajectoryOutput(BaseOutput):
             units = "automatic"
         if cell_units == "":
             cell_units = "automatic"
+        # Puts the frame together before writing it, so that a soft exit cannot tear it apart.
+        frame = stream if format == "bin" else StringIO()
         io.print_file(
             format,
             fatom,
             fcell,
-            stream,
+            frame,
             title=("Step:  %10d  Bead:   %5d " % (self.system.simul.step + 1, b)),
             key=key,
             dimension=dimension,
             units=units,
             cell_units=cell_units,
         )
+        if frame is not stream:
+            if softexit.triggered:
+                return
+            stream.write(frame.getvalue())
         if flush:
             stream.flush()
             os.fsync(stream)
-- 
2.43.0


From 40e3b78f064ff361ca996168a559ac749432cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:57 +0000
Subject: [PATCH 087/118] fix: a Hessian calculation cannot be resumed if the
 last temporary file is incomplete

---
 ipi/utils/hesstools.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ipi/utils/hesstools.py b/ipi/utils/hesstools.py
index 817e50c..a885bbd 100644
--- a/ipi/utils/hesstools.py
+++ b/ipi/utils/hesstools.py
@@ -209,28 +209,28 @@ def get_hessian(
 
     for i in range(ii, -1, -1):
         try:
-            b = np.loadtxt("hessian_" + str(i) + ".tmp")
-        except IOError:
+            b = np.loadtxt("hessian_" + str(i) + ".tmp", ndmin=2)
+        except (IOError, ValueError):
             pass
         else:
-            h[:, :] = b[:, :]
-            i0 = i
             print(("We have found a temporary file ( hessian_" + str(i) + ".tmp). "))
             if (
                 b.shape == h.shape
             ):  # Check that the last temporary file was properly written
+                h[:, :] = b[:, :]
+                i0 = i
                 break
             else:
                 continue
     if friction:
-        for i in range(ii, -1, -1):
+        ih = i0
+        i0 = -1
+        for i in range(ih, -1, -1):
             try:
                 b = np.loadtxt("hessianEta_" + str(i) + ".tmp")
-            except IOError:
+            except (IOError, ValueError):
                 pass
             else:
-                eta_h[:] = b.reshape((nbeads, ii, ii, ii))
-                i0 = i
                 print(
                     (
                         "We have found a temporary file ( hessianEta_"
@@ -239,8 +239,10 @@ def get_hessian(
                     )
                 )
                 if (
-                    b.shape == eta_h.shape
+                    b.size == eta_h.size
                 ):  # Check that the last temporary file was properly written
+                    eta_h[:] = b.reshape((nbeads, ii, ii, ii))
+                    i0 = i
                     break
                 else:
                     continue
-- 
2.43.0


From c0996576e12459720ec1c612e3b7d89d53d4c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:57 +0000
Subject: [PATCH 088/118] fix: output_shift of the vibrational analysis is
 ignored

---
 ipi/engine/motion/phonons.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/phonons.py b/ipi/engine/motion/phonons.py
index fc9feb5..b1240cc 100644
--- a/ipi/engine/motion/phonons.py
+++ b/ipi/engine/motion/phonons.py
@@ -108,7 +108,10 @@ class DynMatrixMover(Motion):
             self.phcalc.transform()
             self.refdynmatrix = self.apply_asr(self.refdynmatrix.copy())
             self.printall(
-                self.prefix, self.refdynmatrix.copy(), fixatoms_dof=self.fixatoms_dof
+                self.prefix,
+                self.refdynmatrix.copy(),
+                deltaw=self.deltaw,
+                fixatoms_dof=self.fixatoms_dof,
             )
             self.finish(
                 status="success",
-- 
2.43.0


From ffadae97519772a89ea2018f64acd468e76bb82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:57 +0000
Subject: [PATCH 089/118] fix: normal-mode finite differences discard the
 refined dynamical matrix

---
 ipi/engine/motion/phonons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/motion/phonons.py b/ipi/engine/motion/phonons.py
index b1240cc..11ab0a7 100644
--- a/ipi/engine/motion/phonons.py
+++ b/ipi/engine/motion/phonons.py
@@ -423,7 +423,7 @@ class NMFDPhononCalculator(FDPhononCalculator):
         self.dm.refdynmatrix = np.dot(
             self.dm.U, np.dot(self.dm.refdynmatrix, np.transpose(self.dm.U))
         )
-        rdm = self.dm.dynmatrix.copy()
+        rdm = self.dm.refdynmatrix.copy()
         self.dm.refdynmatrix = 0.50 * (rdm + rdm.T)
 
 
-- 
2.43.0


From a270835522f76e8bf7790370dbabb58c543df4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:57 +0000
Subject: [PATCH 090/118] fix: acoustic sum rule fails for linear molecules

---
 ipi/engine/motion/phonons.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/motion/phonons.py b/ipi/engine/motion/phonons.py
index 11ab0a7..75017ba 100644
--- a/ipi/engine/motion/phonons.py
+++ b/ipi/engine/motion/phonons.py
@@ -239,7 +239,7 @@ class DynMatrixMover(Motion):
             r = np.dot(transfmatrix.T, np.dot(dm, transfmatrix))
             return r
 
-        elif self.asr == "poly":
+        elif self.asr in ["poly", "lin"]:
             # Computes the centre of mass.
             com = (
                 np.dot(
@@ -259,7 +259,7 @@ class DynMatrixMover(Motion):
                     * self.m[k]
                 )
 
-            U = (np.linalg.eig(moi))[1]
+            U = (np.linalg.eigh(moi))[1]
             R = np.dot(qminuscom, U)
             D = np.zeros((6, 3 * self.beads.natoms), float)
 
@@ -280,9 +280,11 @@ class DynMatrixMover(Motion):
                     R[iatom, 0] * U[idof, 1] - R[iatom, 1] * U[idof, 0]
                 ) / self.ism[i]
 
-            # Computes unit vecs.
-            for k in range(6):
-                D[k] = D[k] / np.linalg.norm(D[k])
+            # Computes unit vecs. There is no rotation around the axis of a
+            # linear molecule, and none at all of a single atom.
+            norms = np.sqrt((D**2).sum(axis=1))
+            keep = norms > 1e-5 * norms[0]
+            D = D[keep] / norms[keep, np.newaxis]
 
             # Computes the transformation matrix.
             transfmatrix = np.eye(3 * self.beads.natoms) - np.dot(D.T, D)
-- 
2.43.0


From 7750e324648a3ccb1e3d5593a14640fe9042c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:49 +0000
Subject: [PATCH 091/118] fix: write temporary Hessian files in one piece

---
 ipi/utils/hesstools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/hesstools.py b/ipi/utils/hesstools.py
index a885bbd..f28de6e 100644
--- a/ipi/utils/hesstools.py
+++ b/ipi/utils/hesstools.py
@@ -274,15 +274,17 @@ def get_hessian(
             # COMBINE
             g = (f1 - f2) / (2 * d)
             h[j, :] = g.flatten()
-            f = open("hessian_" + str(j) + ".tmp", "w")
+            f = open("hessian_" + str(j) + ".tmp.part", "w")
             np.savetxt(f, h)
             f.close()
+            os.replace(f.name, "hessian_" + str(j) + ".tmp")
 
             if friction:
                 eta_h[:, :, :, j] = (eta1 - eta2) / (2 * d)
-                f = open("hessianEta_" + str(j) + ".tmp", "w")
+                f = open("hessianEta_" + str(j) + ".tmp.part", "w")
                 np.savetxt(f, eta_h.flatten())
                 f.close()
+                os.replace(f.name, "hessianEta_" + str(j) + ".tmp")
 
     u, g = gm(x0)  # Keep the mapper updated
 
-- 
2.43.0


From 8207550dc6b17987787feabe540e2e87431db7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:16 +0000
Subject: [PATCH 092/118] fix: constraints on the momenta broken by another
 motion class are removed differently in a continued run

---
 ipi/engine/motion/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 29deee0..c3405e3 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -240,6 +240,8 @@ class Dynamics(Motion):
     def step(self, step=None):
         """Advances the dynamics by one time step"""
 
+        # other motion classes may have changed the momenta since the last step
+        self.integrator.pconstraints()
         self.integrator.step(step)
         self.ensemble.time += self.dt  # increments internal time
 
-- 
2.43.0


From 40e26622996b315d26dfb0d6d951ecd0cf991dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 093/118] fix: constrained dynamics calls a function that does
 not exist

---
 ipi/engine/motion/constrained_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/motion/constrained_dynamics.py b/ipi/engine/motion/constrained_dynamics.py
index d59294d..c6fd6b9 100644
--- a/ipi/engine/motion/constrained_dynamics.py
+++ b/ipi/engine/motion/constrained_dynamics.py
@@ -398,7 +398,7 @@ class NVEConstrainedIntegrator(ConstrainedIntegrator):
 
     def step_B(self, level=0):
         """Unconstrained B-step (momentum integration)"""
-        self.beads.p[0] += self.forces.forces_mts(level)[0] * self.pdt[level]
+        self.beads.p[0] += dstrip(self.forces.mts_forces[level].f)[0] * self.pdt[level]
 
     def step_Bc(self, level=0):
         """Unconstrained B-step (momentum integration)
-- 
2.43.0


From 692fbd547d8a3005b5229a2df57b12b6bf2b09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:13 +0000
Subject: [PATCH 094/118] fix: constrained dynamics with the infinity norm
 cannot be restarted

---
 ipi/inputs/motion/constrained_dynamics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipi/inputs/motion/constrained_dynamics.py b/ipi/inputs/motion/constrained_dynamics.py
index cd297b3..ce630bf 100644
--- a/ipi/inputs/motion/constrained_dynamics.py
+++ b/ipi/inputs/motion/constrained_dynamics.py
@@ -63,7 +63,11 @@ class InputConstraintSolver(InputDictionary):
     def store(self, csolver):
         self.tolerance.store(csolver.tolerance)
         self.maxit.store(csolver.maxit)
-        self.norm_order.store(csolver.norm_order)
+        # the infinity norm is given as -1
+        if csolver.norm_order == float("inf"):
+            self.norm_order.store(-1)
+        else:
+            self.norm_order.store(csolver.norm_order)
 
     def fetch(self):
         return super(InputConstraintSolver, self).fetch()
-- 
2.43.0


From 97dcdae67d91491e6768defc6cdc60857163dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:55 +0000
Subject: [PATCH 095/118] fix: temperature does not account for the degrees of
 freedom removed by constrained dynamics

---
 ipi/engine/properties.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 04ec618..5d5a635 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1173,6 +1173,11 @@ class Properties:
                 )
                 eff_number_fixed_dof += np.sum(flags[dof_ids]) * eff_nbeads
 
+            if len(atom_ids) == self.beads.natoms:
+                # holonomic constraints (these cannot be shared out between atoms)
+                for c in getattr(self.motion, "constraint_list", []):
+                    eff_number_fixed_dof += c.ncons
+
             kemd += (
                 0.5 * Constants.kb * self.ensemble.temp * eff_number_fixed_dof
             )  # short for 0.5*N*kB*T * eff_number_fixed_dof / N, " / N " is bead-averaging to match the definition of kemd.
-- 
2.43.0


From 1d72406e2544836d745da2d048b7e453e81e4a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:56 +0000
Subject: [PATCH 096/118] fix: atom swaps ignore the bias and the ring polymer
 springs

Exchanging the positions of atoms with different masses changes the spring
energy, and the explicit bias is part of the sampled ensemble: both have to
enter the acceptance and the bookkeeping of the conserved quantity.
---
 ipi/engine/motion/atomswap.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/ipi/engine/motion/atomswap.py b/ipi/engine/motion/atomswap.py
index 98570e4..2a11174 100644
--- a/ipi/engine/motion/atomswap.py
+++ b/ipi/engine/motion/atomswap.py
@@ -64,9 +64,6 @@ class AtomSwap(Motion):
 
         super(AtomSwap, self).bind(ens, beads, cell, bforce, nm, prng, omaker)
         self.ensemble.add_econs(self._ealc)
-        self.dbeads = self.beads.clone()
-        self.dcell = self.cell.clone()
-        self.dforces = self.forces.clone(self.dbeads, self.dcell)
 
     def AXlist(self, atomtype):
         """This compile a list of atoms ready for exchanges."""
@@ -100,9 +97,6 @@ class AtomSwap(Motion):
 
         # this would be double-counting, we already have a bail-out condition above
         # if (1.0/self.nxc < self.prng.u) : return  # tries a round of exhanges with probability 1/nmc
-        self.dcell.h = (
-            self.cell.h
-        )  # just in case the cell gets updated in the other motion classes
         for x in range(ntries):
             i = self.prng.integers(0, lenlist)
             j = self.prng.integers(0, lenlist)
@@ -113,24 +107,28 @@ class AtomSwap(Motion):
             i = axlist[i]
             j = axlist[j]
 
-            old_energy = self.forces.pot
+            old_q = dstrip(self.beads.q).copy()
+            # the bias is part of the energy, and so are the springs of the ring
+            # polymers, that change if the atoms have different masses
+            old_energy = self.forces.pot + self.ensemble.bias.pot + self.nm.vspring
+            old_forces = self.forces.dump_state()
             # swap the atom positions
-            self.dbeads.q[:] = self.beads.q[:]
-            self.dbeads.q[:, 3 * i : 3 * i + 3] = self.beads.q[:, 3 * j : 3 * j + 3]
-            self.dbeads.q[:, 3 * j : 3 * j + 3] = self.beads.q[:, 3 * i : 3 * i + 3]
-            new_energy = self.dforces.pot
+            new_q = old_q.copy()
+            new_q[:, 3 * i : 3 * i + 3] = old_q[:, 3 * j : 3 * j + 3]
+            new_q[:, 3 * j : 3 * j + 3] = old_q[:, 3 * i : 3 * i + 3]
+            self.beads.q[:] = new_q
+            new_energy = self.forces.pot + self.ensemble.bias.pot + self.nm.vspring
             pexchange = np.exp(-betaP * (new_energy - old_energy))
 
             # attemps the exchange, and actually propagate the exchange if something has happened
             if pexchange > self.prng.u:
                 nexch += 1
 
-                # copy the exchanged beads position
-                self.beads.q[:] = self.dbeads.q[:]
-                # transfers the (already computed) status of the force, so we don't need to recompute
-                self.forces.transfer_forces(self.dforces)
-
                 self.ealc += -(new_energy - old_energy)
+            else:
+                # goes back, restoring the (already computed) status of the force, so we don't need to recompute
+                self.beads.q[:] = old_q
+                self.forces.load_state(old_forces)
 
 
 dproperties(AtomSwap, ["ealc"])
-- 
2.43.0


From d24bcfd27d1fe9dd6fba07f18001237d8847e72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:56 +0000
Subject: [PATCH 097/118] fix: exchanging atoms of a single species never ends

---
 ipi/engine/motion/alchemy.py  | 2 ++
 ipi/engine/motion/atomswap.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ipi/engine/motion/alchemy.py b/ipi/engine/motion/alchemy.py
index 3655f5c..a0321eb 100644
--- a/ipi/engine/motion/alchemy.py
+++ b/ipi/engine/motion/alchemy.py
@@ -94,6 +94,8 @@ class AlchemyMC(Motion):
         lenlist = len(axlist)
         if lenlist == 0:
             raise ValueError("Atoms exchange list is empty in alchemical sampler.")
+        if len(set(self.beads.names[i] for i in axlist)) < 2:
+            raise ValueError("There is only one species to exchange in alchemical sampler.")
         atomspring = np.zeros(lenlist)
         wk2 = dstrip(self.nm.omegak2)
 
diff --git a/ipi/engine/motion/atomswap.py b/ipi/engine/motion/atomswap.py
index 2a11174..35335d9 100644
--- a/ipi/engine/motion/atomswap.py
+++ b/ipi/engine/motion/atomswap.py
@@ -90,6 +90,8 @@ class AtomSwap(Motion):
         lenlist = len(axlist)
         if lenlist == 0:
             raise ValueError("Atoms exchange list is empty in MC atom swapper.")
+        if len(set(self.beads.names[i] for i in axlist)) < 2:
+            raise ValueError("There is only one species to exchange in MC atom swapper.")
 
         # does the exchange
         betaP = 1.0 / (Constants.kb * self.ensemble.temp * nb)
-- 
2.43.0


From 53fe597997c22cafee2a4a778eb5130895121c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:53 +0000
Subject: [PATCH 098/118] fix: the electric field is too weak with multiple
 time stepping

---
 ipi/engine/motion/driven_dynamics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/driven_dynamics.py b/ipi/engine/motion/driven_dynamics.py
index 82585bd..b94c271 100644
--- a/ipi/engine/motion/driven_dynamics.py
+++ b/ipi/engine/motion/driven_dynamics.py
@@ -122,7 +122,9 @@ class EDAIntegrator(DummyIntegrator):
             )
 
         edaforces = self.EDAforces(time)
-        self.beads.p += edaforces * self.pdt[level]
+        # this is called once at the beginning and once at the end of the step,
+        # irrespective of how the step is divided in a multiple time step algorithm
+        self.beads.p += edaforces * self.dt * 0.5
         self.pconstraints()
 
         pass
-- 
2.43.0


From 56bdcc1e8307ce11c71ad4351481550466aa4084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:34 +0000
Subject: [PATCH 099/118] fix: units given for a replayed trajectory are
 applied on top of those of the file

---
 ipi/engine/motion/replay.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/ipi/engine/motion/replay.py b/ipi/engine/motion/replay.py
index 35d7c83..4a18264 100644
--- a/ipi/engine/motion/replay.py
+++ b/ipi/engine/motion/replay.py
@@ -12,7 +12,6 @@ from fnmatch import fnmatch
 from ipi.engine.motion import Motion
 from ipi.utils.io import read_file, read_file_raw
 from ipi.utils.io.inputs.io_xml import xml_parse_file
-from ipi.utils.units import unit_to_internal
 from ipi.utils.messages import verbosity, info
 
 __all__ = ["Replay"]
@@ -109,30 +108,36 @@ class Replay(Motion):
                     verbosity.low,
                 )
                 raise ValueError("Error in replay input.")
+        # units given in the input take the place of those guessed from the file
+        units = {}
+        if self.intraj.units not in ["", "automatic"]:
+            units = {
+                "dimension": "length",
+                "units": self.intraj.units,
+                "cell_units": self.intraj.units,
+            }
+        if self.intraj.cell_units not in ["", "automatic"]:
+            units["cell_units"] = self.intraj.cell_units
         while True:
             self.rstep += 1
             try:
                 if self.intraj.mode == "xyz":
                     for bindex, b in enumerate(self.beads):
                         if wildcard_used:
-                            myframe = read_file("xyz", self.rfile[bindex])
+                            myframe = read_file("xyz", self.rfile[bindex], **units)
                         else:
-                            myframe = read_file("xyz", self.rfile)
+                            myframe = read_file("xyz", self.rfile, **units)
                         myatoms = myframe["atoms"]
                         mycell = myframe["cell"]
-                        myatoms.q *= unit_to_internal("length", self.intraj.units, 1.0)
-                        mycell.h *= unit_to_internal("length", self.intraj.units, 1.0)
                         b.q[:] = myatoms.q
                 elif self.intraj.mode == "pdb":
                     for bindex, b in enumerate(self.beads):
                         if wildcard_used:
-                            myframe = read_file("pdb", self.rfile[bindex])
+                            myframe = read_file("pdb", self.rfile[bindex], **units)
                         else:
-                            myframe = read_file("pdb", self.rfile)
+                            myframe = read_file("pdb", self.rfile, **units)
                         myatoms = myframe["atoms"]
                         mycell = myframe["cell"]
-                        myatoms.q *= unit_to_internal("length", self.intraj.units, 1.0)
-                        mycell.h *= unit_to_internal("length", self.intraj.units, 1.0)
                         b.q[:] = myatoms.q
                 elif self.intraj.mode == "ase":
                     for bindex, b in enumerate(self.beads):
-- 
2.43.0


From f12e85b67277e25132ca15ea3cb1e9a742d64e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:31 +0000
Subject: [PATCH 100/118] fix: dipole moments given as text in the extras are
 never read

---
 ipi/engine/motion/driven_dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/driven_dynamics.py b/ipi/engine/motion/driven_dynamics.py
index b94c271..04f9409 100644
--- a/ipi/engine/motion/driven_dynamics.py
+++ b/ipi/engine/motion/driven_dynamics.py
@@ -383,8 +383,8 @@ class ElectricDipole:
                             "wrong number of extracted values from the extra string: they should be 3."
                         )
                     else:
-                        dipole[n] = float(factor) * np.asarray(matches)
-                    return dipole
+                        dipole[n] = float(factor) * np.asarray(matches, float)
+                return dipole
             else:
                 raise ValueError(
                     "Error in '_get_dipole': can not extract dipole from the extra string."
-- 
2.43.0


From 2e7a4bd156cb699ea0e53ea8d2ac47289b3fdd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:39 +0000
Subject: [PATCH 101/118] fix: only the first digit of the step is read from
 trajectories

---
 ipi/scripting/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/scripting/parsing.py b/ipi/scripting/parsing.py
index 7f7a3eb..f527ae1 100644
--- a/ipi/scripting/parsing.py
+++ b/ipi/scripting/parsing.py
@@ -222,7 +222,7 @@ def read_trajectory(
                 # ... and the step
                 matches = step_regex.findall(ret["comment"])
                 if len(matches) >= 1:
-                    frame.info["step"] = int(matches[-1][0])
+                    frame.info["step"] = int(matches[-1])
 
                 # fetch the list of known traj types, cf. `engine/properties.py``
                 from ipi.engine.properties import Trajectories  # avoids circular import
-- 
2.43.0


From 9f83d3b95f434fb11ea22b79011d6721205c251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:58 +0000
Subject: [PATCH 102/118] fix: the thermostat given to motion_nvt_xml is not
 used

---
 ipi/scripting/templates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/scripting/templates.py b/ipi/scripting/templates.py
index 3a220cc..ea5385d 100644
--- a/ipi/scripting/templates.py
+++ b/ipi/scripting/templates.py
@@ -182,7 +182,9 @@ def motion_nvt_xml(timestep, thermostat=None, path_integrals=False):
     """
 
     # sets up thermostat
-    if thermostat is None:
+    if thermostat is not None:
+        xml_thermostat = thermostat
+    else:
         if path_integrals:
             # defaults to pile_g
             xml_thermostat = f"""
-- 
2.43.0


From fa194d71b4c1c58574fefe4835638a020e458bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:01 +0000
Subject: [PATCH 103/118] fix: masses of ASE structures are ignored by
 simulation_xml

---
 ipi/scripting/templates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/scripting/templates.py b/ipi/scripting/templates.py
index ea5385d..eb10695 100644
--- a/ipi/scripting/templates.py
+++ b/ipi/scripting/templates.py
@@ -80,7 +80,9 @@ def simulation_xml(
     beads = Beads(nbeads=nbeads, natoms=natoms)
     beads.q = q * unit_to_internal("length", "ase", 1.0)
     beads.names = np.array(structure.symbols)
-    if "mass" in structure.arrays:
+    if "masses" in structure.arrays:  # set with Atoms.set_masses
+        beads.m = structure.arrays["masses"] * unit_to_internal("mass", "ase", 1.0)
+    elif "mass" in structure.arrays:
         beads.m = structure.arrays["mass"] * unit_to_internal("mass", "ase", 1.0)
     else:
         beads.m = np.array([Elements.mass(n) for n in beads.names])
-- 
2.43.0


From e8b8f2cec8b92e6c306eeb5ffdd887ce9f115b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:22 +0000
Subject: [PATCH 104/118] fix: contract-trajectory writes the cell of files
 that are not in atomic units in wrong units

---
 tools/py/contract-trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/py/contract-trajectory.py b/tools/py/contract-trajectory.py
index b958716..caec8f0 100755
--- a/tools/py/contract-trajectory.py
+++ b/tools/py/contract-trajectory.py
@@ -96,7 +96,7 @@ def contract_trajectory(fns_in, fn_out_template, n_new, cell_units_in, cell_unit
                 raise ValueError(msg.format(0, i, i_frame))
 
         cell = Cell()
-        cell.h = frames[0]["cell"]
+        cell.h = frames[0]["cell"] * unit_to_internal("length", cell_units, 1)
         atoms = Atoms(natoms)
         atoms.names = frames[0]["names"]
 
-- 
2.43.0


From 7b43888d2c083642e46ce0950bc67ceea3d27dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:22 +0000
Subject: [PATCH 105/118] fix: mux-positions cannot wrap or unwrap positions

---
 tools/py/mux-positions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/py/mux-positions.py b/tools/py/mux-positions.py
index 66c125d..aeeb597 100755
--- a/tools/py/mux-positions.py
+++ b/tools/py/mux-positions.py
@@ -111,7 +111,7 @@ def main(fns_in, fn_out, begin, end, stride, wrap, unwrap):
 
 def wrap_positions(frame):
     pos = frame["atoms"].q.copy()
-    pos.shape = (len(pos) / 3, 3)
+    pos.shape = (len(pos) // 3, 3)
     cell = frame["cell"].h
     cell_inv = np.linalg.inv(cell)
     s = np.dot(cell_inv, pos.T)
@@ -125,10 +125,10 @@ def unwrap_positions(frame, framelast):
         return frame
 
     poslast_uwr = framelast["atoms"].q.copy()
-    poslast_uwr.shape = (len(poslast_uwr) / 3, 3)
+    poslast_uwr.shape = (len(poslast_uwr) // 3, 3)
 
     pos = frame["atoms"].q.copy()
-    pos.shape = (len(pos) / 3, 3)
+    pos.shape = (len(pos) // 3, 3)
 
     d = pos - poslast_uwr
 
-- 
2.43.0


From f71695505fa9ef71e76f124b4b029b83baba4711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:23 +0000
Subject: [PATCH 106/118] fix: kinetic2tag fails for any input

---
 tools/py/kinetic2tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/py/kinetic2tag.py b/tools/py/kinetic2tag.py
index d232576..570827f 100755
--- a/tools/py/kinetic2tag.py
+++ b/tools/py/kinetic2tag.py
@@ -39,7 +39,7 @@ def main(prefix, lag):
             ret = read_file("xyz", ikod)
             kod = dstrip(ret["atoms"].q)
             if natoms == 0:  # initializes vectors
-                natoms = len(kin) / 3
+                natoms = len(kin) // 3
                 ktbuf = np.zeros(
                     (cbuf, natoms, 3, 3), float
                 )  # implement the buffer as a circular one so one doesn't need to re-allocate and storage is continuous
-- 
2.43.0


From cca70f607251fdf449a54aa3dec2eef640c73440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:23 +0000
Subject: [PATCH 107/118] fix: committee-reweight swaps potentials and
 observables for several observable models

---
 tools/py/committee-reweight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/py/committee-reweight.py b/tools/py/committee-reweight.py
index fc3cfff..56c9e79 100755
--- a/tools/py/committee-reweight.py
+++ b/tools/py/committee-reweight.py
@@ -124,7 +124,7 @@ def uncertainty_CEA_multiple_models(pot, obs, kbT):
     """
     beta = 1.0 / kbT  # noqa
     obs_avg = np.mean(obs, axis=0)
-    obs_avg_CEA, _h_matrix = CEA(obs, pot, kbT)
+    obs_avg_CEA, _h_matrix = CEA(pot, obs, kbT)
     fac_a = (pot.shape[1] * (obs.shape[1] - 1)) / (pot.shape[1] * obs.shape[1] - 1)
     fac_aV = ((pot.shape[1] - 1) * obs.shape[1]) / (pot.shape[1] * obs.shape[1] - 1)
     sigma2_a = np.var(obs_avg, ddof=1)  # Eq.(27)
-- 
2.43.0


From 352a8a648f482d78c5bcb2ab73bd4a50cef13eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:23 +0000
Subject: [PATCH 108/118] fix: committee-reweight fails with a negative stride

---
 tools/py/committee-reweight.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/py/committee-reweight.py b/tools/py/committee-reweight.py
index 56c9e79..aa9cef7 100755
--- a/tools/py/committee-reweight.py
+++ b/tools/py/committee-reweight.py
@@ -173,6 +173,7 @@ def commitee_reweight(
     if stride > 0:
         potentials = np.loadtxt(pot_file)[::stride]
     elif stride < 0:
+        potentials = np.loadtxt(pot_file)
         stride = np.abs(stride)
         obs = obs[::stride]
     else:
-- 
2.43.0


From 253650adfe52495937b6c3a68ad67142b832944d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:23 +0000
Subject: [PATCH 109/118] fix: getproperty fails for properties with several
 columns or arguments

---
 tools/py/getproperty.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/py/getproperty.py b/tools/py/getproperty.py
index 7a57512..7e6481d 100755
--- a/tools/py/getproperty.py
+++ b/tools/py/getproperty.py
@@ -23,7 +23,8 @@ def main(inputfile, propertyname="potential", skip="0"):
     # opens & parses the input file
     ifile = open(inputfile, "r")
 
-    reprop = re.compile(" ([0-9]*) *--> " + propertyname)
+    # matches both "column  3 --> property" and "cols.  3-5 --> property"
+    reprop = re.compile(r" ([0-9]+)(?:-([0-9]+))? *--> " + re.escape(propertyname))
     #    reunit = re.compile("{(.*)}")
 
     # now reads the file one frame at a time, and outputs only the required column(s)
@@ -45,6 +46,7 @@ def main(inputfile, propertyname="potential", skip="0"):
                         )
                         raise EOFError
                     icol = int(rm.group(1)) - 1
+                    ecol = int(rm.group(2) or rm.group(1))
                 line = ifile.readline()
                 if len(line) == 0:
                     raise EOFError
@@ -53,7 +55,7 @@ def main(inputfile, propertyname="potential", skip="0"):
                 raise EOFError
             line = line.split()
             if step >= skip:
-                print(line[icol])
+                print(" ".join(line[icol:ecol]))
             step += 1
         except EOFError:
             break
-- 
2.43.0


From 2d7f691becd7f0cf8e5d4554140f58030119fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:19 +0000
Subject: [PATCH 110/118] fix: trimsim does not find the files of some
 trajectories

---
 tools/py/trimsim.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tools/py/trimsim.py b/tools/py/trimsim.py
index 115b5df..07340b5 100755
--- a/tools/py/trimsim.py
+++ b/tools/py/trimsim.py
@@ -84,7 +84,15 @@ def main(inputfile, outdir="trim"):
                 "positions",
                 "velocities",
                 "forces",
+                "forces_spring",
+                "Eforces",
                 "extras",
+                "extras_bias",
+                "forces_sc",
+                "momenta",
+                "becx",
+                "becy",
+                "becz",
             ]:  # multiple beads
                 nbeads = simul.syslist[0].beads.nbeads
                 for b in range(nbeads):
@@ -101,7 +109,7 @@ def main(inputfile, outdir="trim"):
                             filename = o.filename
                         ofilename = outdir + "/" + filename
                         if o.ibead < 0 or o.ibead == b:
-                            if getkey(o.what) == "extras":
+                            if getkey(o.what) in ["extras", "extras_bias"]:
                                 filename = filename + "_" + padb
                                 ofilename = ofilename + "_" + padb
                                 ntraj.append(
@@ -144,7 +152,10 @@ def main(inputfile, outdir="trim"):
                         filename = s.prefix + "_" + o.filename
                     else:
                         filename = o.filename
-                    filename = filename + "." + o.format
+                    extension = o.format
+                    if extension == "ase":  # special case
+                        extension = "extxyz"
+                    filename = filename + "." + extension
                     ofilename = outdir + "/" + filename
                     ntraj.append(
                         {
-- 
2.43.0


From 0c43f08229815bf892825b6f4d5b6fe30aeae55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:19 +0000
Subject: [PATCH 111/118] fix: remdsort does not find the files of some
 trajectories

---
 tools/py/remdsort.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/py/remdsort.py b/tools/py/remdsort.py
index 030107f..59f36fc 100755
--- a/tools/py/remdsort.py
+++ b/tools/py/remdsort.py
@@ -110,8 +110,15 @@ def main(inputfile, prefix="SRT_"):
                 "positions",
                 "velocities",
                 "forces",
+                "forces_spring",
+                "Eforces",
                 "extras",
                 "extras_bias",
+                "forces_sc",
+                "momenta",
+                "becx",
+                "becy",
+                "becz",
             ]:  # multiple beads
                 nbeads = simul.syslist[0].beads.nbeads
                 for b in range(nbeads):
-- 
2.43.0


From ddf2289e823266b4372f8a869a982613e62a55be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:19 +0000
Subject: [PATCH 112/118] fix: remdsort does not notice the end of trajectories

---
 tools/py/remdsort.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/py/remdsort.py b/tools/py/remdsort.py
index 59f36fc..d3051bf 100755
--- a/tools/py/remdsort.py
+++ b/tools/py/remdsort.py
@@ -225,11 +225,16 @@ def main(inputfile, prefix="SRT_"):
                         # reads one frame from the input file
                         ibuffer = []
                         if straj["format"] is None:
-                            ibuffer.append(straj["ifile"].readline())
+                            iline = straj["ifile"].readline()
+                            if len(iline) == 0:
+                                raise EOFError
+                            ibuffer.append(iline)
                             ibuffer.append(straj["ifile"].readline())
                             traj[irep[isys]]["ofile"].write("".join(ibuffer))
                         if straj["format"] in ["xyz", "ase"]:
                             iline = straj["ifile"].readline()
+                            if len(iline) == 0:
+                                raise EOFError
                             nat = int(iline)
                             ibuffer.append(iline)
                             ibuffer.append(straj["ifile"].readline())
@@ -238,6 +243,8 @@ def main(inputfile, prefix="SRT_"):
                             traj[irep[isys]]["ofile"].write("".join(ibuffer))
                         elif straj["format"] == "pdb":
                             iline = straj["ifile"].readline()
+                            if len(iline) == 0:
+                                raise EOFError
                             while iline.strip() != "" and iline.strip() != "END":
                                 ibuffer.append(iline)
                                 iline = straj["ifile"].readline()
-- 
2.43.0


From edf62d8c0175d26697c9383935ca60c99e195bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:58 +0000
Subject: [PATCH 113/118] fix: the bias from Hamiltonian weights is stale after
 a change of the force weights

---
 ipi/engine/forces.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 1a9feb0..bc5f258 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -745,6 +745,11 @@ class Forces:
         self._pots.add_dependency(nforces._pots)
         self._virs.add_dependency(nforces._virs)
         self._extras.add_dependency(nforces._extras)
+        # the weight is applied when the components are combined
+        self._f.add_dependency(nforces._weight)
+        self._pots.add_dependency(nforces._weight)
+        self._virs.add_dependency(nforces._weight)
+        self._extras.add_dependency(nforces._weight)
 
     def bind(self, beads, cell, fcomponents, fflist, open_paths, output_maker):
         """Binds beads, cell and forces to the forcefield.
-- 
2.43.0


From 53d5a6cb379e481abbe1a4789f92a73694c0fafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:52 +0000
Subject: [PATCH 114/118] fix: coordinates of ring polymers are written in
 wrong columns of pdb files

---
 ipi/utils/io/backends/io_pdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/io/backends/io_pdb.py b/ipi/utils/io/backends/io_pdb.py
index 57ff1cd..693aa31 100644
--- a/ipi/utils/io/backends/io_pdb.py
+++ b/ipi/utils/io/backends/io_pdb.py
@@ -34,7 +34,7 @@ def print_pdb_path(beads, cell, filedesc=sys.stdout, cell_conv=1.0, atoms_conv=1
 
     fmt_cryst = "CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f%s%4i\n"
     fmt_atom = (
-        "ATOM  %5i %4s%1s%3s %1s%4i%1s  %8.3f%8.3f%8.3f%6.2f%6.2f          %2s%2i\n"
+        "ATOM  %5i %4s%1s%3s %1s%4i%1s   %8.3f%8.3f%8.3f%6.2f%6.2f          %2s%2i\n"
     )
     fmt_conect = "CONECT%5i%5i\n"
 
-- 
2.43.0


From fb2500b7fa37adb70c7893dcfbe1370b35cecb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:10 +0000
Subject: [PATCH 115/118] fix: nvt-cc ignores bias, time-step levels and
 splitting

The integrator with constrained centroid did not apply the bias force, divided
the free motion by nmts without subdividing the step, and with the baoab
splitting applied the thermostat for twice the time step.
---
 ipi/engine/motion/dynamics.py | 37 +++++++----------------------------
 1 file changed, 7 insertions(+), 30 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index c3405e3..303a0fb 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -572,45 +572,22 @@ class NVTCCIntegrator(NVTIntegrator):
         thermostat: A thermostat object to keep the temperature constant.
     """
 
-    def pstep(self):
+    def pstep(self, level=0):
         """Velocity Verlet momenta propagator."""
 
-        # propagates in NM coordinates
-        self.nm.pnm += dstrip(self.nm.fnm) * (self.dt * 0.5)
-        # self.beads.p += dstrip(self.forces.f)*(self.dt*0.5)
-        # also adds the bias force
-        # self.beads.p += dstrip(self.bias.f)*(self.dt*0.5)
-
-    def step(self, step=None):
-        """Does one simulation time step."""
-
-        self.thermostat.step()
-        self.pconstraints()
-        # NB we only have to take into account the energy balance of zeroing centroid velocity when we had added energy through the thermostat
-        self.ensemble.eens += 0.5 * np.dot(
-            self.nm.pnm[0], self.nm.pnm[0] / self.nm.dynm3[0]
-        )
-        self.nm.pnm[0, :] = 0.0
-
-        self.pstep()
+        super(NVTCCIntegrator, self).pstep(level)
+        # the force on the centroid does no work, because the centroid is constrained
         self.nm.pnm[0, :] = 0.0
-        self.pconstraints()
-
-        # The centroid is constrained, so qcstep is skipped, but the internal
-        # ring-polymer modes still need the two half-step free propagations.
-        self.nm.free_qstep()
-        self.nm.free_qstep()
 
-        self.pstep()
-        self.nm.pnm[0, :] = 0.0
-        self.pconstraints()
+    def pconstraints(self):
+        """Zeroes the centroid momentum, on top of all other constraints."""
 
-        self.thermostat.step()
+        super(NVTCCIntegrator, self).pconstraints()
+        # NB we only have to take into account the energy balance of zeroing centroid velocity when we had added energy through the thermostat
         self.ensemble.eens += 0.5 * np.dot(
             self.nm.pnm[0], self.nm.pnm[0] / self.nm.dynm3[0]
         )
         self.nm.pnm[0, :] = 0.0
-        self.pconstraints()
 
 
 class NPTIntegrator(NVTIntegrator):
-- 
2.43.0


From e8c0c9058ef4d8668ad25ba4622c5ce5de315542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:48 +0000
Subject: [PATCH 116/118] fix: weights of the force are applied twice after a
 manual transfer of forces

---
 ipi/engine/forces.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index bc5f258..e7fee41 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1153,6 +1153,11 @@ class Forces:
             mq = new_q[k]
             mextra = new_x[k]
             mself = self.mforces[k]
+            # the contributions to the total are given, but the forces are stored before weighting
+            scale = mself.weight * mself.mts_weights.sum()
+            if scale != 0:
+                mv = mv / scale
+                mf = mf / scale
             assert mq.shape == mf.shape, msg
             assert mq.shape[0] == mv.shape[0], msg
             assert mself.nbeads == mv.shape[0], msg
-- 
2.43.0


From 25a0a2c37b9fd55d475b85c4ca139373ed6dd42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:20 +0000
Subject: [PATCH 117/118] fix: the force reported for the climbing image is its
 climbing gradient

---
 ipi/engine/motion/neb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/motion/neb.py b/ipi/engine/motion/neb.py
index 295c52e..489f673 100644
--- a/ipi/engine/motion/neb.py
+++ b/ipi/engine/motion/neb.py
@@ -920,7 +920,7 @@ class NEBMover(Motion):
             # so that recalculation won't be triggered after the step.
             tmp_f = self.full_f.copy()
             tmp_v = self.full_v.copy()
-            tmp_f[self.cl_indx, self.climbgm.fixatoms_mask] = self.nebgrad
+            tmp_f[self.cl_indx] = self.climbgm.rforces.f[0]
             tmp_v[self.cl_indx] = self.nebpot
             self.forces.transfer_forces_manual(
                 new_q=[
-- 
2.43.0


From 99f44e6e5b7fc903b5cd7ed9374064ea5d68c541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:29 +0000
Subject: [PATCH 118/118] fix: damped_bfgs fails for elastic bands with fixed
 coordinates

---
 ipi/engine/motion/neb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/engine/motion/neb.py b/ipi/engine/motion/neb.py
index 489f673..8be9c93 100644
--- a/ipi/engine/motion/neb.py
+++ b/ipi/engine/motion/neb.py
@@ -658,6 +658,9 @@ class NEBMover(Motion):
                     fdf0=(self.nebpot, self.nebgrad),
                     hessian=self.hessian,
                     big_step=self.big_step,
+                    mask=np.tile(
+                        self.nebgm.fixatoms_mask, self.beads.nbeads - 2
+                    ),
                 )
                 info(" @NEB: after Damped_BFGS() call", verbosity.debug)
 
@@ -859,6 +862,7 @@ class NEBMover(Motion):
                     fdf0=(self.nebpot, self.nebgrad),
                     hessian=self.hessian,
                     big_step=self.big_step,
+                    mask=self.climbgm.fixatoms_mask,
                 )
                 info(" @NEB_CLIMB: after Damped_BFGS() call", verbosity.debug)
 
-- 
2.43.0

