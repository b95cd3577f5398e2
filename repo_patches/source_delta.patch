From 27b4c100424cf90f46ca9422ad0146a7e79742de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:56 +0000
Subject: [PATCH 01/39] fix: array priors are not modified and always converted
 to a density

---
 bayesloop/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a84b573..36083fd 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -208,9 +208,9 @@ class Study(object):
         if isinstance(prior, np.ndarray):
             if np.all(prior.shape == self.grid[0].shape):
                 norm = np.sum(prior)
+                prior = prior/norm  # no in-place operation, as the array belongs to the user
+                prior /= np.prod(self.latticeConstant)
                 if norm != 1.:
-                    prior /= norm
-                    prior /= np.prod(self.latticeConstant)
                     if not silent:
                         print('    + Set prior (numpy array). Values have been re-normalized.')
                 else:
@@ -224,9 +224,9 @@ class Study(object):
         if hasattr(prior, '__call__'):
             values = prior(*self.grid)*np.ones(self.gridSize)  # last factor for cases like lambda x: 1.
             norm = np.sum(values)
+            values /= norm
+            values /= np.prod(self.latticeConstant)
             if norm != 1.:
-                values /= norm
-                values /= np.prod(self.latticeConstant)
                 if not silent:
                     print('    + Set prior (function): {}. Values have been re-normalized.'.format(prior.__name__))
             else:
-- 
2.43.0


From dc685281c9f6bf767d9b69a1d21ea8e771057e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:59 +0000
Subject: [PATCH 02/39] fix: hyper-parameter queries do not rescale the stored
 distribution

---
 bayesloop/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 36083fd..c938d65 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1566,7 +1566,7 @@ class HyperStudy(Study):
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
-        marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
         x = self.flatHyperParameters[paramIndex]
         if plot:
@@ -1642,7 +1642,7 @@ class HyperStudy(Study):
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
-        marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
         x, y = [self.flatHyperParameters[i] for i in paramIndices]
         if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
@@ -2756,7 +2756,7 @@ class OnlineStudy(HyperStudy):
         hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
-        marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstants[tmIndex])
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
-- 
2.43.0


From 7270c0a626cdab21026ac08af2d33b06333aeb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:02 +0000
Subject: [PATCH 03/39] fix: plotting the parameter evolution does not modify
 the posterior sequence

---
 bayesloop/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c938d65..6ffcea9 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1042,7 +1042,8 @@ class Study(object):
         except ValueError:
             raise PostProcessingError('Wrong parameter index to plot. Available indices: {}'
                                       .format(np.array(axesToMarginalize)-1))
-        marginalPosteriorSequence = np.squeeze(np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize))
+        marginalPosteriorSequence = np.squeeze(
+            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
 
         # clean up very small probability values, as they may create image artefacts
         pmax = np.amax(marginalPosteriorSequence)
-- 
2.43.0


From 49bcffe5527cc9ac524c483321e93d5545196689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:05 +0000
Subject: [PATCH 04/39] fix: OnlineStudy.getPD passes on the density option

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 6ffcea9..cd92f7d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2264,7 +2264,7 @@ class OnlineStudy(HyperStudy):
         """
         See :meth:`.OnlineStudy.getParameterDistribution`.
         """
-        return self.getParameterDistribution(t, name, plot=plot, **kwargs)
+        return self.getParameterDistribution(t, name, plot=plot, density=density, **kwargs)
 
     def getCurrentParameterDistribution(self, name, plot=False, density=True, **kwargs):
         """
-- 
2.43.0


From 42ca7746de166c09a27f8966898d15e066f25309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:09 +0000
Subject: [PATCH 05/39] fix: past parameter mean value uses the whole
 distribution of the time step

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index cd92f7d..a7a7ad8 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2540,7 +2540,7 @@ class OnlineStudy(HyperStudy):
 
         parameterDistribution = self.posteriorSequence[timeIndex]
 
-        mean = np.sum(parameterDistribution[t] * self.grid[paramIndex])
+        mean = np.sum(parameterDistribution * self.grid[paramIndex])
         return mean
 
     def getParameterMeanValues(self, name):
-- 
2.43.0


From b980cbd425bfa62b6ddda44e595bcc1b15534391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:13 +0000
Subject: [PATCH 06/39] fix: online steps apply the transition model at the
 previous time stamp

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a7a7ad8..dba714c 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2165,7 +2165,7 @@ class OnlineStudy(HyperStudy):
                     alphai = prior*likelihood
                 else:  # in all other time steps transform "old" alpha/posterior
                     alphai = self.transitionModel.computeForwardPrior(self.parameterPosterior[i][j],
-                                                                      len(self.formattedData)-1)*likelihood
+                                                                      self.formattedTimestamps[-2])*likelihood
                 ni = np.sum(alphai)
 
                 # update log-evidence list
-- 
2.43.0


From ad730dfe28410efb98ac5bcfb73dac8875638a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:17 +0000
Subject: [PATCH 07/39] fix: Bernoulli likelihood does not modify the parameter
 grid

---
 bayesloop/observationModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 10277c7..11da539 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -427,7 +427,7 @@ class Bernoulli(ObservationModel):
         Returns:
             ndarray: Discretized Bernoulli pdf (with same shape as grid)
         """
-        temp = grid[0][:]  # make copy of parameter grid
+        temp = grid[0].copy()  # make copy of parameter grid
         temp[temp > 1.] = 0.  # p < 1
         temp[temp < 0.] = 0.  # p > 0
 
-- 
2.43.0


From 8a910ca0a387bae6b00db5115c615effa9e20406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:21 +0000
Subject: [PATCH 08/39] fix: deterministic transition model stores list of
 hyper-priors

---
 bayesloop/transitionModels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index f8f494a..4023a9a 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -538,6 +538,7 @@ class Deterministic(TransitionModel):
                     raise ConfigurationError('{} priors are defined for transition model "{}", but model contains {}'
                                              'hyper-parameters.'
                                              .format(len(prior), self.function.__name__, len(argspec.defaults)))
+                self.prior = prior
             # if single prior is defined, pack it in a list
             else:
                 self.prior = [prior]
-- 
2.43.0


From 260976e4a9715731248521db2486081139effe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:24 +0000
Subject: [PATCH 09/39] fix: bivariate random walk converts list of correlation
 values

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 4023a9a..02de700 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -856,7 +856,7 @@ class BivariateRandomWalk(TransitionModel):
         if isinstance(value2, (list, tuple)):
             value2 = np.array(value2)
         if isinstance(value3, (list, tuple)):
-            value2 = np.array(value3)
+            value3 = np.array(value3)
 
         self.study = None
         self.latticeConstant = None
-- 
2.43.0


From 0fbbde82318c62e61b39e224443d39a52264b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:53 +0000
Subject: [PATCH 10/39] fix: online queries restore the history also if they
 fail

---
 bayesloop/core.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index dba714c..b6d9ce5 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2253,11 +2253,12 @@ class OnlineStudy(HyperStudy):
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorSequence = list(self.posteriorSequence)
         return x, p
 
     def getPD(self, t, name, plot=False, density=True, **kwargs):
@@ -2344,11 +2345,12 @@ class OnlineStudy(HyperStudy):
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorSequence = list(self.posteriorSequence)
         return x, p
 
     def getPDs(self, name, plot=False, density=True, **kwargs):
@@ -2377,12 +2379,13 @@ class OnlineStudy(HyperStudy):
         self.posteriorMeanValues = np.array(self.posteriorMeanValues).T
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorMeanValues = list(self.posteriorMeanValues.T)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorMeanValues = list(self.posteriorMeanValues.T)
+            self.posteriorSequence = list(self.posteriorSequence)
 
     def getCurrentTransitionModelDistribution(self, local=False):
         """
-- 
2.43.0


From 3318e7bd3320975b17eb6ee317911a8a9d51dbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:56 +0000
Subject: [PATCH 11/39] fix: cached random walk kernels depend on the parameter
 grid

---
 bayesloop/transitionModels.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 02de700..852eb8e 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -168,13 +168,14 @@ class AlphaStableRandomWalk(TransitionModel):
         """
 
         # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        axisToTransform = self.study.observationModel.parameterNames.index(self.selectedParameter)
+        kernelParameters = [self.hyperParameterValues, self.latticeConstant, self.study.gridSize, axisToTransform]
+        if not self.kernelParameters == kernelParameters:
             normedC = []
             for lc in self.latticeConstant:
                 normedC.append(self.hyperParameterValues[0] / lc)
             alpha = [self.hyperParameterValues[1]] * len(normedC)
 
-            axisToTransform = self.study.observationModel.parameterNames.index(self.selectedParameter)
             selectedC = normedC[axisToTransform]
             normedC = [0.]*len(normedC)
             normedC[axisToTransform] = selectedC
@@ -184,7 +185,7 @@ class AlphaStableRandomWalk(TransitionModel):
                 self.kernel *= self.createKernel(c, a, i+1)
 
             self.kernel = self.kernel.T
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = self.convolve(posterior)
         newPrior /= np.sum(newPrior)
@@ -883,12 +884,13 @@ class BivariateRandomWalk(TransitionModel):
         """
 
         # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        kernelParameters = [self.hyperParameterValues, self.latticeConstant]
+        if not self.kernelParameters == kernelParameters:
             normedSigma1 = self.hyperParameterValues[0] / self.latticeConstant[0]
             normedSigma2 = self.hyperParameterValues[1] / self.latticeConstant[1]
 
             self.kernel = self.createKernel(normedSigma1, normedSigma2, self.hyperParameterValues[2])
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = convolve2d(posterior, self.kernel, mode='same')
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From c34373f31fac6cad7590e063d36a25548184481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:41 +0000
Subject: [PATCH 12/39] fix: change-points and independent observations restore
 every kind of prior

---
 bayesloop/transitionModels.py | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 852eb8e..5f6ffab 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -299,13 +299,8 @@ class ChangePoint(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         if t == self.hyperParameterValues[0]:
-            # check if custom prior is used by observation model
-            if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
-            elif isinstance(self.study.observationModel.prior, np.ndarray):
-                prior = deepcopy(self.study.observationModel.prior)
-            else:
-                prior = np.ones(self.study.gridSize)  # flat prior
+            # use the same prior as the inference algorithm (all types of priors, always a new array)
+            prior = self.study._computePrior(silent=True)
 
             # normalize prior (necessary in case an improper prior is used)
             prior /= np.sum(prior)
@@ -348,13 +343,8 @@ class Independent(TransitionModel):
         Returns:
             ndarray: Prior parameter distribution for subsequent time step
         """
-        # check if custom prior is used by observation model
-        if hasattr(self.study.observationModel.prior, '__call__'):
-            prior = self.study.observationModel.prior(*self.study.grid)
-        elif isinstance(self.study.observationModel.prior, np.ndarray):
-            prior = deepcopy(self.study.observationModel.prior)
-        else:
-            prior = np.ones(self.study.gridSize)  # flat prior
+        # use the same prior as the inference algorithm (all types of priors, always a new array)
+        prior = self.study._computePrior(silent=True)
 
         # normalize prior (necessary in case an improper prior is used)
         prior /= np.sum(prior)
@@ -801,13 +791,8 @@ class SerialTransitionModel(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         if t in np.array(self.hyperParameterValues)[self.changePointMask]:
-            # check if custom prior is used by observation model
-            if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
-            elif isinstance(self.study.observationModel.prior, np.ndarray):
-                prior = deepcopy(self.study.observationModel.prior)
-            else:
-                prior = np.ones(self.study.gridSize)  # flat prior
+            # use the same prior as the inference algorithm (all types of priors, always a new array)
+            prior = self.study._computePrior(silent=True)
 
             # normalize prior (necessary in case an improper prior is used)
             prior /= np.sum(prior)
-- 
2.43.0


From d8b1b462d2fc5fbee0518026ec6ff6609bc50a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:44 +0000
Subject: [PATCH 13/39] fix: a fit sets the study and grid spacing of its
 transition model

---
 bayesloop/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index b6d9ce5..c550669 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -343,6 +343,10 @@ class Study(object):
         """
         self._checkConsistency()
 
+        # transition model may have been assigned to another study in the meantime
+        self.transitionModel.study = self
+        self.transitionModel.latticeConstant = self.latticeConstant
+
         if not silent:
             print('+ Started new fit:')
 
-- 
2.43.0


From 45364ba92c90b442c23b33ce9010f806107c3b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:47 +0000
Subject: [PATCH 14/39] fix: hyper-priors given as arrays are not modified and
 may be integer-valued

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c550669..a1a374a 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1197,7 +1197,7 @@ class HyperStudy(Study):
 
             elif hasattr(prior, '__call__'):  # prior specified by function
                 try:
-                    priorValues = np.array([prior(value) for value in values])
+                    priorValues = np.array([prior(value) for value in values], dtype=float)
                     norm = np.sum(priorValues)
                     priorValues /= norm
                     priorValues /= gridConst
@@ -1212,7 +1212,7 @@ class HyperStudy(Study):
             elif isinstance(prior, Iterable):  # prior specified by list/array
                 if len(prior) != len(values):
                     raise ConfigurationError('Failed to set hyper-prior for "{}" from list/array.'.format(name))
-                priorValues = prior
+                priorValues = np.array(prior, dtype=float)
                 norm = np.sum(priorValues)
                 priorValues /= norm
                 priorValues /= gridConst
-- 
2.43.0


From b27b9b97cf37904f987c82834e8cfca455747d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:49 +0000
Subject: [PATCH 15/39] fix: local evidence of hyper-studies accounts for the
 hyper-grid spacing

---
 bayesloop/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a1a374a..2457b2d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1412,7 +1412,8 @@ class HyperStudy(Study):
                 print('    + Log10-evidence of average model: {:.5f}'.format(self.logEvidence / np.log(10)))
 
             # compute local evidence of average model
-            self.localEvidence = np.sum((np.array(self.localEvidenceList).T*self.flatHyperPriorValues).T, axis=0)
+            self.localEvidence = np.sum((np.array(self.localEvidenceList).T*self.flatHyperPriorValues).T, axis=0) * \
+                np.prod(self.hyperGridConstant)
 
             if not silent:
                 print('    + Computed local evidence of average model')
-- 
2.43.0


From cb1f1893c8e2f0025f845e1db140e8779a958276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:53 +0000
Subject: [PATCH 16/39] fix: loading data with unusable timestamps sets default
 timestamps

---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 2457b2d..fb74002 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -115,6 +115,7 @@ class Study(object):
             else:
                 if not silent:
                     print('! WARNING: Number of timestamps does not match number of data points. Omitting timestamps.')
+                self.rawTimestamps = np.arange(len(self.rawData))
         else:  # set default timestamps (integer range)
             self.rawTimestamps = np.arange(len(self.rawData))
 
-- 
2.43.0


From fab58d2a2d47e5dc9864502c9b5640d44e299f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:56 +0000
Subject: [PATCH 17/39] fix: parser looks up the time stamp in the study a
 parameter belongs to

---
 bayesloop/parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index dfb3fe8..227b87f 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -285,9 +285,8 @@ class Parser:
                                                          study=study))
         else:
             # compute index of timestamp
-            timeIndex = list(self.studies[0].formattedTimestamps).index(t)
-
             for study in self.studies:
+                timeIndex = list(study.formattedTimestamps).index(t)
                 names = study.observationModel.parameterNames
                 for i, name in enumerate(names):
                     index = study.observationModel.parameterNames.index(name)
@@ -332,7 +331,7 @@ class Parser:
                         else:
                             if study.storeHistory:
                                 # compute index of timestamp
-                                timeIndex = list(self.studies[0].formattedTimestamps).index(t)
+                                timeIndex = list(study.formattedTimestamps).index(t)
 
                                 dist = study.hyperParameterSequence[timeIndex][j] / \
                                        np.sum(study.hyperParameterSequence[timeIndex][j])
-- 
2.43.0


From 6aa9620a5e75f36799587d07c075b5ffb28c966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:45 +0000
Subject: [PATCH 18/39] fix: incomplete hyper-/change-point studies raise a
 configuration error

---
 bayesloop/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index fb74002..184b8a2 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1268,6 +1268,7 @@ class HyperStudy(Study):
             customHyperGrid(bool): If set to true, the method "_createHyperGrid" is not called before starting the fit.
                 This is used by the class "ChangepointStudy", which employs a custom version of "_createHyperGrid".
         """
+        self._checkConsistency()
         self.fitWarningCounter = 0
 
         # format data/timestamps once, so number of data segments is known and _createGrid() works properly
@@ -1292,8 +1293,6 @@ class HyperStudy(Study):
                                                  'overlapping value intervals. Use "ChangepointStudy" instead of '
                                                  '"HyperStudy" for such cases.')
 
-        self._checkConsistency()
-
         if not evidenceOnly:
             # The average posterior distribution is stored in log-space for numerical stability. This way, it can be
             # updated iteratively without storing all individual posterior distributions (after the iteration over all
@@ -1786,6 +1785,8 @@ class ChangepointStudy(HyperStudy):
             silent(bool): If set to True, reduced output is generated by the fitting method.
             nJobs(int): Number of processes to employ. Multiprocessing is based on the 'pathos' module.
         """
+        self._checkConsistency()
+
         # format data/timestamps once, so number of data segments is known
         self.formattedData = movingWindow(self.rawData, self.observationModel.segmentLength)
         self.formattedTimestamps = self.rawTimestamps[self.observationModel.segmentLength - 1:]
-- 
2.43.0


From 2918519fac6fc7471642748b5d80981a48d1f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:48 +0000
Subject: [PATCH 19/39] fix: silent option suppresses all messages of
 successful calls

---
 bayesloop/core.py   | 13 ++++++++-----
 bayesloop/parser.py |  3 ---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 184b8a2..46a1aaf 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -147,8 +147,9 @@ class Study(object):
             if v is None:  # if user has not specified parameter values, we try to estimate them
                 try:
                     v = self.observationModel.estimateParameterValues(n, self.rawData)
-                    print('+ Estimated parameter interval for "{}": [{}, {}] ({} values).'
-                          .format(n, v[0], v[-1], len(v)))
+                    if not silent:
+                        print('+ Estimated parameter interval for "{}": [{}, {}] ({} values).'
+                              .format(n, v[0], v[-1], len(v)))
                 except:
                     raise ConfigurationError('Could not estimate parameter values for "{}".'.format(n))
 
@@ -1816,14 +1817,16 @@ class ChangepointStudy(HyperStudy):
 
         # create hyperGrid in the case of change-points
         if len(changepoints) > 0:
-            print('+ Detected {} change-point(s) in transition model: {}'.format(len(changepoints), changepoints))
+            if not silent:
+                print('+ Detected {} change-point(s) in transition model: {}'.format(len(changepoints), changepoints))
             points = changepoints
         else:
-            print('+ Detected {} break-point(s) in transition model: {}'.format(len(breakpoints), breakpoints))
+            if not silent:
+                print('+ Detected {} break-point(s) in transition model: {}'.format(len(breakpoints), breakpoints))
             points = breakpoints
 
         # first create standard hyper-grid
-        self._createHyperGrid()
+        self._createHyperGrid(silent=silent)
         self.allHyperGridValues = self.hyperGridValues[:]
         self.allHyperPriorValues = self.flatHyperPriorValues[:]
 
diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 227b87f..2f4d275 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -393,9 +393,6 @@ class Parser:
             dmax = np.nanmax(derivedParameter)
 
             # bin size is chosen as maximal difference between two derived values
-            print(f"dmax {dmax}")
-            print(f"dmin {dmin}")
-            print(np.diff(np.sort(derivedParameter)))
             nBins = int((dmax-dmin)/(np.nanmax(np.diff(np.sort(derivedParameter)))))
             bins = np.linspace(dmin, dmax, nBins)
             binnedValues = bins[:-1] + (bins[1]-bins[0])
-- 
2.43.0


From 6154060db7cf3232bd445c3b640f89a5751308bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:50 +0000
Subject: [PATCH 20/39] fix: interrupted and evidence-only fits leave no
 uninitialised or outdated results

---
 bayesloop/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 46a1aaf..7a7208d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -358,12 +358,14 @@ class Study(object):
             print('    + Formatted data.')
 
         # initialize array for posterior distributions
+        self.posteriorSequence = []
+        self.posteriorMeanValues = []
         if not evidenceOnly:
-            self.posteriorSequence = np.empty([len(self.formattedData)]+self.gridSize)
+            self.posteriorSequence = np.zeros([len(self.formattedData)]+self.gridSize)
 
         # initialize array for computed evidence (marginal likelihood)
         self.logEvidence = 0
-        self.localEvidence = np.empty(len(self.formattedData))
+        self.localEvidence = np.zeros(len(self.formattedData))
 
         # set prior distribution for forward-pass
         alpha = self._computePrior(silent=silent)
@@ -1300,6 +1302,8 @@ class HyperStudy(Study):
             # hyper-parameter values is done, it is transformed back to linear space)
             self.averagePosteriorSequence = np.zeros([len(self.formattedData)]+self.gridSize) - np.inf
 
+        self.posteriorSequence = []
+        self.posteriorMeanValues = []
         self.logEvidenceList = []
         self.localEvidenceList = []
 
-- 
2.43.0


From 802be5396b06a257fa30ac558740d02398978165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:54 +0000
Subject: [PATCH 21/39] fix: past hyper-parameter distributions are
 probabilities and can be averaged

---
 bayesloop/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 7a7208d..267c3e2 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2699,16 +2699,16 @@ class OnlineStudy(HyperStudy):
         # access hyper-parameter distribution
         if t == 'avg':
             # compute time-averaged distribution
-            hyperParameterDistribution = np.sum(self.hyperParameterSequence, axis=0)/len(self.hyperParameterSequence)
+            hyperParameterDistribution = np.sum([x[tmIndex] for x in self.hyperParameterSequence],
+                                                axis=0)/len(self.hyperParameterSequence)
         else:
             # try to access distribution of specified time step
             if t not in self.formattedTimestamps:
                 raise PostProcessingError('Supplied time ({}) does not exist in data or is out of range.'.format(t))
             timeIndex = list(self.formattedTimestamps).index(t)  # to select corresponding posterior distribution
 
-            hyperParameterDistribution = self.hyperParameterSequence[timeIndex]
+            hyperParameterDistribution = self.hyperParameterSequence[timeIndex][tmIndex]
 
-        hyperParameterDistribution = hyperParameterDistribution[tmIndex]
         axesToMarginalize = list(range(len(self.hyperParameterNames[tmIndex])))
         axesToMarginalize.remove(hpIndex)
 
@@ -2716,6 +2716,7 @@ class OnlineStudy(HyperStudy):
         hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = marginalDistribution*np.prod(self.hyperGridConstants[tmIndex])
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
-- 
2.43.0


From 2e22659d2cc38f126c97a7d03105b1604637acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:56 +0000
Subject: [PATCH 22/39] fix: Poisson likelihood accepts data of floating point
 type

---
 bayesloop/observationModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 11da539..a04b9ba 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -499,7 +499,7 @@ class Poisson(ObservationModel):
         Returns:
             ndarray: Discretized Poisson pdf (with same shape as grid)
         """
-        return (grid[0] ** dataSegment[0]) * (np.exp(-grid[0])) / (np.math.factorial(dataSegment[0]))
+        return (grid[0] ** dataSegment[0]) * (np.exp(-grid[0])) / factorial(dataSegment[0])
 
     def estimateParameterValues(self, name, rawData):
         """
-- 
2.43.0


From 29fe40cd971fdd7fbd612dedbe4b82bbe85107f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:59 +0000
Subject: [PATCH 23/39] fix: set() accepts instances of derived model classes

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 267c3e2..985bee8 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -313,13 +313,13 @@ class Study(object):
         tm = False
 
         for model in args:
-            if ObservationModel in model.__class__.__bases__:
+            if isinstance(model, ObservationModel):
                 if om:
                     raise ConfigurationError('More than one observation model supplied.')
                 om = True
                 self.setObservationModel(model, silent=silent)
 
-            elif TransitionModel in model.__class__.__bases__:
+            elif isinstance(model, TransitionModel):
                 if tm:
                     raise ConfigurationError('More than one transition model supplied.')
 
-- 
2.43.0


From d6cd18713eb2e602185a535f06ea453b69b14b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:02 +0000
Subject: [PATCH 24/39] fix: transition model prior accepts integers and
 rejects scalars properly

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 985bee8..9028ab7 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2063,9 +2063,9 @@ class OnlineStudy(HyperStudy):
         """
         if not (isinstance(transitionModelPrior, Iterable) and len(transitionModelPrior) == len(self.transitionModels)):
             raise ConfigurationError('Length of transition model prior ({}) does not fit number of transition models '
-                                     '({})'.format(len(transitionModelPrior), len(self.transitionModels)))
+                                     '({})'.format(np.size(transitionModelPrior), len(self.transitionModels)))
 
-        self.transitionModelPrior = np.array(transitionModelPrior)
+        self.transitionModelPrior = np.array(transitionModelPrior, dtype=float)
 
         if not np.sum(transitionModelPrior) == 1.:
             print('+ WARNING: Transition model prior does not sum up to one. Will re-normalize.')
-- 
2.43.0


From f15fb91fb24155ae061cb6d5dfd9e58b36a99a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:04 +0000
Subject: [PATCH 25/39] fix: a rejected first online step does not keep its
 data point

---
 bayesloop/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 9028ab7..a4ca528 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2102,7 +2102,11 @@ class OnlineStudy(HyperStudy):
 
             # check the model consistency the first time that 'step' is called
             self.rawData = np.array(dataPoint)
-            Study._checkConsistency(self)
+            try:
+                Study._checkConsistency(self)
+            except ConfigurationError:
+                self.rawData = np.array([])
+                raise
 
             self.rawTimestamps = np.array([0])
             self.formattedTimestamps = []
-- 
2.43.0


From fc9c051875df67c09a884830556b32a004f3fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:07 +0000
Subject: [PATCH 26/39] fix: free symbols of random variables have a fixed
 order

---
 bayesloop/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/helper.py b/bayesloop/helper.py
index f9fa49a..92315e8 100644
--- a/bayesloop/helper.py
+++ b/bayesloop/helper.py
@@ -139,4 +139,4 @@ def freeSymbols(rv):
     except AttributeError:
         symbols = rv._sorted_args[1].distribution.free_symbols
 
-    return list(symbols)
+    return sorted(symbols, key=str)
-- 
2.43.0


From 63a305c792513d31ca5c2ad7062849bd11ad5907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:16 +0000
Subject: [PATCH 27/39] fix: derived distributions include the largest value

---
 bayesloop/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 2f4d275..f35e797 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -407,6 +407,7 @@ class Parser:
             for lower, upper in it:
                 binnedProbs.append(np.sum(derivedParameter.prob[(derivedParameter >= lower) * (derivedParameter < upper)]))
             binnedProbs = np.array(binnedProbs)
+            binnedProbs[-1] += np.sum(derivedParameter.prob[derivedParameter == dmax])  # last bin is closed
 
             return binnedValues, binnedProbs
 
-- 
2.43.0


From e39efbd1123db048c8f84056482067ebade5c2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:36 +0000
Subject: [PATCH 28/39] fix: parameter names of SymPy models given as
 dictionary are a list

---
 bayesloop/observationModels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index a04b9ba..4ee9e74 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -322,8 +322,8 @@ class SymPy(ObservationModel):
                           "future version. Pass parameter names and values as successive arguments.",
                           DeprecationWarning)
             valueDict = args[0]
-            self.parameterNames = valueDict.keys()
-            self.parameterValues = valueDict.values()
+            self.parameterNames = list(valueDict.keys())
+            self.parameterValues = list(valueDict.values())
         else:
             self.parameterNames = args[::2]
             self.parameterValues = args[1::2]
-- 
2.43.0


From 88ca3949de06cbffc2aa6a1b9078c510d47c0e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:57 +0000
Subject: [PATCH 29/39] fix: hyper-studies restore the user's hyper-parameter
 values, also after failed fits

---
 bayesloop/core.py | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a4ca528..9f9a097 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1356,24 +1356,28 @@ class HyperStudy(Study):
                 else:
                     enum = enumerate(self.hyperGridValues)
 
-                for i, hyperParamValues in enum:
-                    self._setSelectedHyperParameters(hyperParamValues)
-
-                    # call fit method from parent class
-                    Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=True)
-
-                    self.logEvidenceList.append(self.logEvidence)
-                    self.localEvidenceList.append(self.localEvidence)
-
-                    if (not evidenceOnly) and np.isfinite(self.logEvidence):
-                        # For numerical stability, zeros in posterior distribution are replaced with small constant.
-                        # Note that this is typically only the case for hyper-parameter values with low likelihood. The
-                        # procedure therefore has no (measurable) effect on the average posterior sequence.
-                        self.posteriorSequence[self.posteriorSequence < 10.**-300] = 10.**-300
-                        self.averagePosteriorSequence = np.logaddexp(self.averagePosteriorSequence,
-                                                                     np.log(self.posteriorSequence) +
-                                                                     self.logEvidence +
-                                                                     np.log(self.flatHyperPriorValues[i]))
+                hyperParameters = self._unpackAllHyperParameters()  # user-defined values
+                try:
+                    for i, hyperParamValues in enum:
+                        self._setSelectedHyperParameters(hyperParamValues)
+
+                        # call fit method from parent class
+                        Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=True)
+
+                        self.logEvidenceList.append(self.logEvidence)
+                        self.localEvidenceList.append(self.localEvidence)
+
+                        if (not evidenceOnly) and np.isfinite(self.logEvidence):
+                            # For numerical stability, zeros in posterior distribution are replaced with small constant.
+                            # Note that this is typically only the case for hyper-parameter values with low likelihood. The
+                            # procedure therefore has no (measurable) effect on the average posterior sequence.
+                            self.posteriorSequence[self.posteriorSequence < 10.**-300] = 10.**-300
+                            self.averagePosteriorSequence = np.logaddexp(self.averagePosteriorSequence,
+                                                                         np.log(self.posteriorSequence) +
+                                                                         self.logEvidence +
+                                                                         np.log(self.flatHyperPriorValues[i]))
+                finally:
+                    self._setAllHyperParameters(hyperParameters)  # re-set values (also if a fit fails)
 
                 # remove progressbar correctly
                 if not silent:
@@ -1435,9 +1439,6 @@ class HyperStudy(Study):
             # clear localEvidenceList (to keep file size small for stored studies)
             self.localEvidenceList = []
 
-            # restore hyper-parameter values (individual values have been set during fitting)
-            self._setAllHyperParameters(self.flatHyperParameters)
-
             if not silent:
                 print('+ Finished fit.')
 
-- 
2.43.0


From 60c161981a171e47df45f7ba43f9d24ed1268385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:00 +0000
Subject: [PATCH 30/39] fix: hyper-studies with one combination of
 hyper-parameter values fit exactly this combination

---
 bayesloop/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 9f9a097..a931b30 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1450,7 +1450,16 @@ class HyperStudy(Study):
                 if len(self.hyperGridValues) == 0:
                     print('+ Transition model contains no hyper-parameters, switching to standard fit method.')
 
-            Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
+            hyperParameters = self._unpackAllHyperParameters()  # user-defined values
+            try:
+                if len(self.hyperGridValues) == 1:
+                    self._setAllHyperParameters(self.hyperGridValues[0])
+                Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
+            finally:
+                self._setAllHyperParameters(hyperParameters)  # re-set values (also if the fit fails)
+
+            # a single combination has probability one
+            self.hyperParameterDistribution = np.ones(len(self.hyperGridValues))/np.prod(self.hyperGridConstant)
 
     def _parallelFit(self, idx, nJobs, forwardOnly, evidenceOnly, silent):
         """
-- 
2.43.0


From b6e60debc1859dcd390ee35e8f2d081f18ca4dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:59 +0000
Subject: [PATCH 31/39] fix: alpha-stable kernel has the size of the padded
 grid for odd grid sizes, too

---
 bayesloop/transitionModels.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 5f6ffab..5c394e3 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -223,9 +223,10 @@ class AlphaStableRandomWalk(TransitionModel):
         else:
             raise ConfigurationError('Parameter grid must either be 1- or 2-dimensional.')
 
-        kernel_fft = np.exp(-np.abs(c*np.linspace(0, np.pi, int(3*l1/2+1)))**alpha)
-        kernel = np.fft.irfft(kernel_fft)
-        kernel = np.roll(kernel, int(3*l1/2-1))
+        n = 3*l1  # size of padded grid
+        kernel_fft = np.exp(-np.abs(c*2*np.pi/n*np.arange(n//2+1))**alpha)
+        kernel = np.fft.irfft(kernel_fft, n)
+        kernel = np.roll(kernel, (n-1)//2)
 
         if len(gs) == 2:
             kernel = np.array([kernel]*(3*l2))
-- 
2.43.0


From 1e10c09534bac84c6d50efd52dae00aa831a1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:10 +0000
Subject: [PATCH 32/39] fix: duration distribution for three or more
 change-points

---
 bayesloop/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a931b30..d2a4e1e 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1932,8 +1932,9 @@ class ChangepointStudy(HyperStudy):
         for i, values in enumerate(self.allHyperGridValues[:, paramIndices]):
             if values[1] > values[0]:
                 # get matching index in duration (rounding needed because of finite precision)
-                idx = np.where(duration.round(10) == (values[1]-values[0]).round(10))[0][0]
-                durationDistribution[idx] += self.hyperParameterDistribution[i]
+                idx = np.where(duration.round(10) == (values[1]-values[0]).round(10))[0]
+                if len(idx) > 0:  # other differences only occur in excluded (zero probability) combinations
+                    durationDistribution[idx[0]] += self.hyperParameterDistribution[i]
 
         # properly normalize duration distribution
         durationDistribution /= np.sum(durationDistribution)
-- 
2.43.0


From 72149657e80abb47a7c02ea03c5745e5e242999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:02 +0000
Subject: [PATCH 33/39] fix: reject wrong number of hyper-priors in
 hyper-studies

---
 bayesloop/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index d2a4e1e..b6479d5 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1160,6 +1160,9 @@ class HyperStudy(Study):
         self.flatHyperParameters = self._unpackAllHyperParameters()
         self.flatHyperParameterNames = self._unpackAllHyperParameters(values=False)
         self.flatHyperPriors = self._unpackAllHyperPriors()
+        if len(self.flatHyperPriors) != len(self.flatHyperParameters):
+            raise ConfigurationError('Transition model contains {} hyper-parameters, but {} hyper-priors were provided.'
+                                     .format(len(self.flatHyperParameters), len(self.flatHyperPriors)))
 
         # look if change/break-points have value 'all' and assign array of all time-stamps
         for i, v in enumerate(self.flatHyperParameters):
-- 
2.43.0


From 26cb4ec8251ec5f88939f1110e06ada0c86b447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:05 +0000
Subject: [PATCH 34/39] fix: accept function/array hyper-prior for a single
 hyper-parameter value

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index b6479d5..d9e2561 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1204,7 +1204,7 @@ class HyperStudy(Study):
 
             elif hasattr(prior, '__call__'):  # prior specified by function
                 try:
-                    priorValues = np.array([prior(value) for value in values], dtype=float)
+                    priorValues = np.array([prior(value) for value in np.atleast_1d(values)], dtype=float)
                     norm = np.sum(priorValues)
                     priorValues /= norm
                     priorValues /= gridConst
@@ -1217,7 +1217,7 @@ class HyperStudy(Study):
                     priorNamesList.append(prior.__name__)
 
             elif isinstance(prior, Iterable):  # prior specified by list/array
-                if len(prior) != len(values):
+                if len(prior) != np.size(values):
                     raise ConfigurationError('Failed to set hyper-prior for "{}" from list/array.'.format(name))
                 priorValues = np.array(prior, dtype=float)
                 norm = np.sum(priorValues)
-- 
2.43.0


From 84aab8e8b1807ff2b934a623b45ee412db387164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:53 +0000
Subject: [PATCH 35/39] fix: do not optimize change-/break-points if no other
 parameters exist

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index d9e2561..7fe381a 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -532,7 +532,7 @@ class Study(object):
             self.selectedHyperParameters = [x for x in allHyperParameters if x not in points]
 
         # create parameter list to set start values for optimization
-        x0 = self._unpackSelectedHyperParameters()
+        x0 = self._unpackSelectedHyperParameters() if self.selectedHyperParameters else []
 
         # check if valid parameter names were entered
         if len(x0) == 0:
-- 
2.43.0


From c82722eeedb37d0c06957ec05562283bb45e74c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:53 +0000
Subject: [PATCH 36/39] fix: combine parameters of different time steps as
 independent in queries

---
 bayesloop/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index f35e797..bd75878 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -236,9 +236,10 @@ class Parser:
             # compute compound distribution of two (hyper-)parameters
             if (type(a) == Parameter and type(b) == Parameter and (not (a.study is b.study) or
                                                                        (a.study is None and b.study is None) or
-                                                                       (a.name == b.name and not (a.time == b.time)))) or \
+                                                                       not (a.time == b.time))) or \
                     (type(a) == HyperParameter and type(b) == HyperParameter and (not (a.study is b.study) or
-                                                                                      (a.study is None and b.study is None))) or \
+                                                                                      (a.study is None and b.study is None) or
+                                                                                      not (a.time == b.time))) or \
                     ((type(a) == HyperParameter) and (type(b) == Parameter) or
                              (type(b) == HyperParameter) and (type(a) == Parameter)):
 
-- 
2.43.0


From a28f31e409eb5f57c8d0dc7586e7fc1dc59a6a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:57 +0000
Subject: [PATCH 37/39] fix: evaluate queries that consist of a single
 parameter or function

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index bd75878..4bbdb91 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -374,7 +374,7 @@ class Parser:
         # reduce equation
         splitQuery = re.split('>=|<=|==|>|<', query)
         if len(splitQuery) == 1:
-            reducedQuery = query
+            reducedQuery = '1*('+query+')'
         elif len(splitQuery) == 2:
             # last arithmetic may be omitted in some cases if right side is appended to the left, needs to come first
             #reducedQuery = '-'.join(splitQuery)
-- 
2.43.0


From 15e1d716fbf8945030b0505ee4ad0335f61e5242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:01 +0000
Subject: [PATCH 38/39] fix: reject queries with trailing or unknown symbols

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 4bbdb91..a57c6b7 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -384,7 +384,7 @@ class Parser:
                                      'or none to obtain derived distribution.')
 
         # evaluate left side
-        parsedString = self.expr.parseString(reducedQuery).asList()[0]
+        parsedString = self.expr.parseString(reducedQuery, parseAll=True).asList()[0]
         derivedParameter = self._evaluate(parsedString)
 
         # if no relational operator in query, compute derived distribution
-- 
2.43.0


From fe04ac8786de6f3e025859bfed7ae1432fd335ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:04 +0000
Subject: [PATCH 39/39] fix: treat hyper-parameters of different transition
 models of an online study as independent

---
 bayesloop/parser.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index a57c6b7..750ff53 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -20,12 +20,13 @@ class Parameter(np.ndarray):
     Behaves like a Numpy array, but features additional attributes. This allows us to apply arithmetic operations to
     the grid of parameter values while keeping track of the corresponding probability grid and the parameter's origin.
     """
-    def __new__(cls, values, prob, name=None, time=None, study=None):
+    def __new__(cls, values, prob, name=None, time=None, study=None, model=None):
         obj = np.asarray(values).view(cls)
         obj.prob = prob
         obj.name = name
         obj.time = time
         obj.study = study
+        obj.model = model
         return obj
 
     def __array_finalize__(self, obj):
@@ -36,6 +37,7 @@ class Parameter(np.ndarray):
         self.name = getattr(obj, 'name', None)
         self.time = getattr(obj, 'time', None)
         self.study = getattr(obj, 'study', None)
+        self.model = getattr(obj, 'model', None)
 
 
 class HyperParameter(Parameter):
@@ -239,7 +241,8 @@ class Parser:
                                                                        not (a.time == b.time))) or \
                     (type(a) == HyperParameter and type(b) == HyperParameter and (not (a.study is b.study) or
                                                                                       (a.study is None and b.study is None) or
-                                                                                      not (a.time == b.time))) or \
+                                                                                      not (a.time == b.time) or
+                                                                                      not (a.model is b.model))) or \
                     ((type(a) == HyperParameter) and (type(b) == Parameter) or
                              (type(b) == HyperParameter) and (type(a) == Parameter)):
 
@@ -321,14 +324,16 @@ class Parser:
                                 self.parameters.append(HyperParameter(study.hyperParameterValues[j][:, index],
                                                                       hps,
                                                                       name=name,
-                                                                      study=study))
+                                                                      study=study,
+                                                                      model=study.transitionModels[j]))
                             else:
                                 dist = study.hyperParameterDistribution[j]/np.sum(study.hyperParameterDistribution[j])
                                 self.parameters.append(HyperParameter(study.hyperParameterValues[j][:, index],
                                                                       dist,
                                                                       name=name,
                                                                       time=study.formattedTimestamps[-1],
-                                                                      study=study))
+                                                                      study=study,
+                                                                      model=study.transitionModels[j]))
                         else:
                             if study.storeHistory:
                                 # compute index of timestamp
@@ -341,7 +346,8 @@ class Parser:
                                                                       dist,
                                                                       name=name,
                                                                       time=t,
-                                                                      study=study))
+                                                                      study=study,
+                                                                      model=study.transitionModels[j]))
                             else:
                                 raise ConfigurationError('OnlineStudy instance is not configured to store history, '
                                                          'cannot access t={}.'.format(t))
-- 
2.43.0

