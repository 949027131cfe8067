From 2e10feb5c7932bd0eae04a35e46f3ad3d3c344d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 01/55] fix: map the GLM intercept back to unstandardized
 features

The intercept was shifted by +mean*scale*coef instead of -mean*coef after
the coefficients had been rescaled, so UoI_L1Logistic(standardize=True)
predicted nonsense for uncentered data.
---
 src/pyuoi/linear_model/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index ca93d16..c0c51ec 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -718,8 +718,8 @@ class AbstractUoIGeneralizedLinearRegressor(AbstractUoILinearModel,
         super()._post_fit(X, y)
         if self.standardize and self.fit_intercept:
             sX = self._X_scaler
-            self.intercept_ += np.dot(sX.mean_ * sX.scale_,
-                                      self.coef_.T)
+            # coef_ has already been rescaled to the original units
+            self.intercept_ -= np.dot(sX.mean_, self.coef_.T)
 
     def intersect(self, coef, thresholds):
         """Intersect coefficients accross all thresholds.
-- 
2.43.0


From 2ac7341320a262eea450da1e4d996d45684ed068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 02/55] fix: undo standardization of the masked logistic
 intercept

MaskedCoefLogisticRegression(standardize=True) rescaled coef_ but left
intercept_ in standardized units, and centered X even without an intercept.
---
 src/pyuoi/linear_model/logistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index f3b1da7..c2ea131 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -437,7 +437,7 @@ class MaskedCoefLogisticRegression(LogisticRegression):
 
     def _pre_fit(self, X, y):
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         le = LabelEncoder()
         y = le.fit_transform(y)
@@ -456,6 +456,9 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         if self.standardize:
             sX = self._X_scaler
             self.coef_ /= sX.scale_[np.newaxis]
+            if self.fit_intercept:
+                self.intercept_ = (self.intercept_ -
+                                   np.dot(self.coef_, sX.mean_))
 
 
 def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
-- 
2.43.0


From d964f2a7b1d2533e4b783baba7243e06e755d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 03/55] fix: keep the original labels in
 MaskedCoefLogisticRegression

fit() overwrote classes_ with the encoded labels, so predict() returned
0..k-1 instead of the labels it was trained on.
---
 src/pyuoi/linear_model/logistic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index c2ea131..d13cebf 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -379,7 +379,6 @@ class MaskedCoefLogisticRegression(LogisticRegression):
         X, y = check_X_y(X, y, accept_sparse='csr', dtype=_dtype, order="C",
                          accept_large_sparse=True)
         check_classification_targets(y)
-        self.classes_ = np.unique(y)
         n_samples, n_features = X.shape
 
         multi_class = self.multi_class
-- 
2.43.0


From 904171d7516033cbeae16a6bc0b1c8ae0b61ea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 04/55] fix: score encoded targets against encoded labels

During fit y holds the encoded classes 0..k-1 but the log loss was
computed with the original labels, giving meaningless (all zero) scores
unless the labels already were 0..k-1.
---
 src/pyuoi/linear_model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index c0c51ec..f80beff 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -786,7 +786,7 @@ class AbstractUoIGeneralizedLinearRegressor(AbstractUoILinearModel,
                 y_pred = fitter.predict_proba(X[:, support])
             else:
                 y_pred = fitter.predict_proba(X)
-            ll = -log_loss(y, y_pred, labels=self.classes_)
+            ll = -log_loss(y, y_pred, labels=np.arange(self.classes_.size))
             if metric == 'log':
                 score = ll
             else:
-- 
2.43.0


From 1193879b97ab252a9a4e68b466ed6148ada71fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 05/55] fix: support single-feature designs and single-support
 sweeps

np.squeeze collapsed the feature and support axes when they had length
one, so a one-column X or a single regularization parameter crashed or
produced 1-d supports.
---
 src/pyuoi/linear_model/base.py    | 7 ++++---
 src/pyuoi/linear_model/poisson.py | 2 +-
 src/pyuoi/linear_model/utils.py   | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index f80beff..b2fd2f7 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -297,8 +297,9 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
             else:
                 self._logger.info("selection bootstrap %d" % (boot_idx))
-            selection_coefs[ii] = np.squeeze(
-                self.uoi_selection_sweep(X_rep, y_rep, my_reg_params))
+            selection_coefs[ii] = np.reshape(
+                self.uoi_selection_sweep(X_rep, y_rep, my_reg_params),
+                selection_coefs[ii].shape)
 
         # if distributed, gather selection coefficients to 0,
         # perform intersection, and broadcast results
@@ -562,7 +563,7 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
                 self.intercept_ *= sy.scale_
                 self.intercept_ += sy.mean_ - np.dot(sX.mean_,
                                                      self.coef_.T)
-        self.coef_ = np.squeeze(self.coef_)
+        self.coef_ = np.reshape(self.coef_, -1)
 
     def intersect(self, coef, thresholds):
         """Intersect coefficients accross all thresholds."""
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 3fa3103..0715df7 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -624,7 +624,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
     def _post_fit(self, X, y):
         """Rescale coefficients, if needed, after fitting."""
         if self.output_dim == 1:
-            self.coef_ = np.squeeze(self.coef_)
+            self.coef_ = np.reshape(self.coef_, -1)
         if self.standardize:
             sX = self._X_scaler
             if self.fit_intercept:
diff --git a/src/pyuoi/linear_model/utils.py b/src/pyuoi/linear_model/utils.py
index 6b26a16..9fd0ce2 100644
--- a/src/pyuoi/linear_model/utils.py
+++ b/src/pyuoi/linear_model/utils.py
@@ -135,10 +135,10 @@ def intersection(coefs, selection_thresholds=None):
 
     # unravel the dimension corresponding to selection thresholds
 
-    supports = np.squeeze(np.reshape(
+    supports = np.reshape(
         supports,
         (n_selection_thresholds * n_reg_params, n_features)
-    ))
+    )
 
     supports = np.unique(supports, axis=0)
 
-- 
2.43.0


From 7d795831c0cc0a5875ea2cb6e180ab094d7976a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 06/55] fix: honour standardize, max_iter and tol in
 UoI_Poisson

They were not handed to the base class, so standardize=False still
standardized.
---
 src/pyuoi/linear_model/poisson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 0715df7..1613ab3 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -477,6 +477,9 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             estimation_target=estimation_target,
             copy_X=copy_X,
             fit_intercept=fit_intercept,
+            standardize=standardize,
+            max_iter=max_iter,
+            tol=tol,
             random_state=random_state,
             comm=comm,
             logger=logger)
-- 
2.43.0


From 7378df9f9786279289aa9dfae39c25069ec9cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 07/55] fix: do not center Poisson features without an
 intercept

Centering cannot be undone when fit_intercept=False, so the coefficients
did not describe the original data.
---
 src/pyuoi/linear_model/poisson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 1613ab3..7170e69 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -310,7 +310,7 @@ class Poisson(BaseEstimator):
     def _pre_fit(self, X, y):
         """Perform standardization, if needed, before fitting."""
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         return X, y
 
@@ -616,7 +616,7 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
     def _pre_fit(self, X, y):
         """Perform standardization, if needed, before fitting."""
         if self.standardize:
-            self._X_scaler = StandardScaler()
+            self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
             X = self._X_scaler.fit_transform(X)
         if y.ndim == 2:
             self.output_dim = y.shape[1]
-- 
2.43.0


From 313f79db3932c5e8ee135f55f76f0c876573f269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 08/55] fix: make Poisson(fit_intercept=False) usable

intercept_ was never set, so predict() raised NotFittedError and
UoI_Poisson(fit_intercept=False) could not be fit; a constant response
set a nonzero intercept despite fit_intercept=False.
---
 src/pyuoi/linear_model/poisson.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 7170e69..ec13c88 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -81,7 +81,7 @@ class Poisson(BaseEstimator):
         X, y = self._pre_fit(X, y)
 
         # check if the response variable is constant
-        if np.unique(y).size == 1:
+        if self.fit_intercept and np.unique(y).size == 1:
             self.coef_ = np.zeros(self.n_features)
             if np.any(y):
                 self.intercept_ = np.log(y.mean())
@@ -126,14 +126,14 @@ class Poisson(BaseEstimator):
                 self.intercept_ = coef[-1]
             else:
                 self.coef_ = coef
+                self.intercept_ = 0.
 
         # coordinate descent
         elif self.solver == 'cd':
             self.coef_, intercept = self._cd(X=X, y=y,
                                              sample_weight=sample_weight)
 
-            if self.fit_intercept:
-                self.intercept_ = intercept
+            self.intercept_ = intercept
 
         else:
             raise ValueError('Solver not available.')
-- 
2.43.0


From 2cbfaf81f909b504be2bca7a4cbeebcc43d51ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 09/55] fix: let coordinate descent features enter the Poisson
 active set

The active set could only shrink, started empty on a warm start from zero
coefficients (so UoI_Poisson(solver='cd') never selected anything), and
convergence ignored the intercept. A warm start also modified the
previously fitted coef_ array in place.
---
 src/pyuoi/linear_model/poisson.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index ec13c88..3548c5a 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -213,19 +213,18 @@ class Poisson(BaseEstimator):
                 if self.standardize:
                     coef = self.coef_ * self._X_scaler.scale_
                 else:
-                    coef = self.coef_
+                    coef = np.copy(self.coef_)
 
             if self.fit_intercept:
                 if hasattr(self, 'intercept_'):
                     intercept = self.intercept_
 
-        # every coefficient is active unless there's a warm start
-        if self.warm_start:
-            active_idx = np.argwhere(coef != 0)
-        else:
-            active_idx = np.arange(self.n_features)
+        # the first sweep covers every coefficient
+        full_sweep = True
+        active_idx = np.arange(n_features)
 
         prev_coef = np.copy(coef)
+        prev_intercept = intercept
         # perform coordinate descent updates
         for iteration in range(self.max_iter):
             # linearize the log-likelihood
@@ -239,13 +238,22 @@ class Poisson(BaseEstimator):
                 active_idx=active_idx)
 
             # check convergence
-            if np.max(np.abs(prev_coef - coef)) < self.tol:
+            change = max(np.max(np.abs(prev_coef - coef)),
+                         np.abs(prev_intercept - intercept))
+            converged = change < self.tol
+            if converged and full_sweep:
                 break
 
             prev_coef = np.copy(coef)
+            prev_intercept = intercept
 
-            # update the active features
-            active_idx = np.argwhere(coef != 0).ravel()
+            # update the active features; once they have converged, every
+            # feature gets a chance to (re-)enter
+            full_sweep = converged
+            if full_sweep:
+                active_idx = np.arange(n_features)
+            else:
+                active_idx = np.argwhere(coef != 0).ravel()
 
         return coef, intercept
 
-- 
2.43.0


From 7b7192256ac645ec093bc27b6a2dfc229adcecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 10/55] fix: drop the warm start state between bootstraps

Multiplying by zero turned an infinite intercept into NaN and kept the
shape of the previous data set, so a refit with a different number of
features failed.
---
 src/pyuoi/linear_model/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index b2fd2f7..d6ab910 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -277,10 +277,9 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
                 my_reg_params = self.reg_params_
             # Never warm start across bootstraps
             if (curr_boot_idx != boot_idx):
-                if hasattr(self._selection_lm, 'coef_'):
-                    self._selection_lm.coef_ *= 0.
-                if hasattr(self._selection_lm, 'intercept_'):
-                    self._selection_lm.intercept_ *= 0.
+                for attr in ('coef_', 'intercept_'):
+                    if hasattr(self._selection_lm, attr):
+                        delattr(self._selection_lm, attr)
             curr_boot_idx = boot_idx
 
             # draw a resampled bootstrap
-- 
2.43.0


From 4e94a08fc27ff8f61d662144473ccc4777500dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:18 +0000
Subject: [PATCH 11/55] fix: recompute the regularization path on every fit

The path of the first data set was cached, so refitting the same estimator
to other data searched a stale, possibly useless range.
---
 src/pyuoi/linear_model/elasticnet.py | 21 +++++++-------
 src/pyuoi/linear_model/logistic.py   | 41 ++++++++++++++--------------
 src/pyuoi/linear_model/poisson.py    | 25 ++++++++---------
 3 files changed, 42 insertions(+), 45 deletions(-)

diff --git a/src/pyuoi/linear_model/elasticnet.py b/src/pyuoi/linear_model/elasticnet.py
index 1d3eed1..9b9d838 100644
--- a/src/pyuoi/linear_model/elasticnet.py
+++ b/src/pyuoi/linear_model/elasticnet.py
@@ -160,17 +160,16 @@ class UoI_ElasticNet(AbstractUoILinearRegressor, LinearRegression):
             alpha->l1_ratio). This allows easy passing into the ElasticNet
             object.
         """
-        if self.lambdas is None:
-            self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
-            # a set of lambdas are generated for each alpha value (l1_ratio in
-            # sci-kit learn parlance)
-            for alpha_idx, alpha in enumerate(self.alphas):
-                self.lambdas[alpha_idx, :] = _alpha_grid(
-                    X=X, y=y,
-                    l1_ratio=alpha,
-                    fit_intercept=self.fit_intercept,
-                    eps=self.eps,
-                    n_alphas=self.n_lambdas)
+        self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
+        # a set of lambdas are generated for each alpha value (l1_ratio in
+        # sci-kit learn parlance)
+        for alpha_idx, alpha in enumerate(self.alphas):
+            self.lambdas[alpha_idx, :] = _alpha_grid(
+                X=X, y=y,
+                l1_ratio=alpha,
+                fit_intercept=self.fit_intercept,
+                eps=self.eps,
+                n_alphas=self.n_lambdas)
 
         # place the regularization parameters into a list of dictionaries
         reg_params = list()
diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index d13cebf..e21341b 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -152,27 +152,26 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
 
     def get_reg_params(self, X, y):
         input_dim = X.shape[1]
-        if self.Cs is None:
-            if self.output_dim == 1:
-                w = np.zeros(input_dim)
-                if self.fit_intercept:
-                    intercept = LogisticInterceptFitterNoFeatures(
-                        y, 1).intercept_
-                    w = np.concatenate([w, np.atleast_1d(intercept)])
-                _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
-            else:
-                w = np.zeros((self.output_dim, input_dim))
-                yp = OneHotEncoder(categories=[range(self.output_dim)],
-                                   sparse=False).fit_transform(y[:, np.newaxis])
-                if self.fit_intercept:
-                    intercept = LogisticInterceptFitterNoFeatures(
-                        y, self.output_dim).intercept_
-                    w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
-                _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
-                                                    np.ones(X.shape[0]))
-            alpha_max = abs(grad[:-1]).max()
-            logC = -np.log10(alpha_max)
-            self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
+        if self.output_dim == 1:
+            w = np.zeros(input_dim)
+            if self.fit_intercept:
+                intercept = LogisticInterceptFitterNoFeatures(
+                    y, 1).intercept_
+                w = np.concatenate([w, np.atleast_1d(intercept)])
+            _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
+        else:
+            w = np.zeros((self.output_dim, input_dim))
+            yp = OneHotEncoder(categories=[range(self.output_dim)],
+                               sparse=False).fit_transform(y[:, np.newaxis])
+            if self.fit_intercept:
+                intercept = LogisticInterceptFitterNoFeatures(
+                    y, self.output_dim).intercept_
+                w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
+            _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
+                                                np.ones(X.shape[0]))
+        alpha_max = abs(grad[:-1]).max()
+        logC = -np.log10(alpha_max)
+        self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
         ret = list()
         for c in self.Cs:
             ret.append(dict(C=c))
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 3548c5a..35165b6 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -535,19 +535,18 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             object.
         """
         n_samples = X.shape[0]
-        if self.lambdas is None:
-            self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
-            # a set of lambdas are generated for each alpha value (l1_ratio in
-            # sci-kit learn parlance)
-            for alpha_idx, alpha in enumerate(self.alphas):
-                # calculate upper bound for lambda sweep
-                ybar = y.mean()
-                lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
-                lambda_max /= n_samples * alpha
-                self.lambdas[alpha_idx, :] = np.logspace(
-                    start=np.log10(lambda_max),
-                    stop=np.log10(self.eps * lambda_max),
-                    num=self.n_lambdas)
+        self.lambdas = np.zeros((self.n_alphas, self.n_lambdas))
+        # a set of lambdas are generated for each alpha value (l1_ratio in
+        # sci-kit learn parlance)
+        for alpha_idx, alpha in enumerate(self.alphas):
+            # calculate upper bound for lambda sweep
+            ybar = y.mean()
+            lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
+            lambda_max /= n_samples * alpha
+            self.lambdas[alpha_idx, :] = np.logspace(
+                start=np.log10(lambda_max),
+                stop=np.log10(self.eps * lambda_max),
+                num=self.n_lambdas)
 
         # place the regularization parameters into a list of dictionaries
         reg_params = list()
-- 
2.43.0


From f7d79749fa448a60547ec98c189682d0cd15b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:18 +0000
Subject: [PATCH 12/55] fix: start the logistic regularization path at the null
 model

The binary loss was evaluated with {0, 1} instead of {-1, 1} labels, and
the last feature was dropped when no intercept is fit, so alpha_max was
not the smallest penalty with an empty model.
---
 src/pyuoi/linear_model/logistic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index e21341b..f53ef19 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -158,7 +158,8 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
                 intercept = LogisticInterceptFitterNoFeatures(
                     y, 1).intercept_
                 w = np.concatenate([w, np.atleast_1d(intercept)])
-            _, grad = _logistic_loss_and_grad(w, X, y, 0., None)
+            # the loss expects labels in {-1, 1}
+            _, grad = _logistic_loss_and_grad(w, X, 2. * y - 1., 0., None)
         else:
             w = np.zeros((self.output_dim, input_dim))
             yp = OneHotEncoder(categories=[range(self.output_dim)],
@@ -169,7 +170,9 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
                 w = np.concatenate([w, intercept[:, np.newaxis]], axis=1)
             _, grad, _ = _multinomial_loss_grad(w, X, yp, 0., None,
                                                 np.ones(X.shape[0]))
-        alpha_max = abs(grad[:-1]).max()
+        # the intercept is not regularized
+        grad = grad.reshape(self.output_dim, -1)[:, :input_dim]
+        alpha_max = abs(grad).max()
         logC = -np.log10(alpha_max)
         self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
         ret = list()
-- 
2.43.0


From 084b5a9eb54c84a32c880dc09fc744c4bd9812b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 13/55] fix: solve for the intercept of all-zero L1 logistic
 models

The progress callback aborted as soon as two iterates had no nonzero
coefficients and the intercept was then discarded, and without an
intercept it ignored the last feature, so models with a single active
last feature came back empty.
---
 src/pyuoi/linear_model/logistic.py | 32 +++++++-----------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index f53ef19..b59b52e 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -18,7 +18,7 @@ import numpy as np
 
 from .base import AbstractUoIGeneralizedLinearRegressor
 from ..utils import sigmoid, softmax
-from ..lbfgs import fmin_lbfgs, AllZeroLBFGSError
+from ..lbfgs import fmin_lbfgs
 
 
 class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
@@ -697,30 +697,12 @@ def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
                     w0[mask] = wp
 
             else:
-                zeros_seen = [0]
-
-                def zero_coef(x, *args):
-                    if multi_class == 'multinomial':
-                        x = x.reshape(-1, classes.size)[:-1]
-                    else:
-                        x = x[:-1]
-                    now_zeros = np.array_equiv(x, 0.)
-                    if now_zeros:
-                        zeros_seen[0] += 1
-                    else:
-                        zeros_seen[0] = 0
-                    if zeros_seen[0] > 1:
-                        return -2048
-                try:
-                    args = (X, target, 0., coef_mask, sample_weight)
-                    w0 = fmin_lbfgs(func, w0, orthantwise_c=1. / C,
-                                    args=args,
-                                    max_iterations=max_iter,
-                                    epsilon=tol,
-                                    orthantwise_end=coef_size,
-                                    progress=zero_coef)
-                except AllZeroLBFGSError:
-                    w0 *= 0.
+                args = (X, target, 0., coef_mask, sample_weight)
+                w0 = fmin_lbfgs(func, w0, orthantwise_c=1. / C,
+                                args=args,
+                                max_iterations=max_iter,
+                                epsilon=tol,
+                                orthantwise_end=coef_size)
                 info = None
             if info is not None and info["warnflag"] == 1:
                 warnings.warn("lbfgs failed to converge. Increase the number "
-- 
2.43.0


From 099c76d8ce1a5f15a40f41bb17f892f43ff8ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 14/55] fix: only initialize the intercept with the class log
 odds

Without an intercept the last feature's coefficients were initialized with
them, which survives in the unpenalized multinomial fit (it is invariant to
a common shift) and makes the result depend on the feature order.
---
 src/pyuoi/linear_model/logistic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index b59b52e..0b1cc4c 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -593,8 +593,9 @@ def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
             Y_multi = np.hstack([1 - Y_multi, Y_multi])
         w0 = np.zeros((classes.size, n_features + int(fit_intercept)),
                       dtype=X.dtype)
-        w0[:, -1] = LogisticInterceptFitterNoFeatures(y,
-                                                      classes.size).intercept_
+        if fit_intercept:
+            w0[:, -1] = LogisticInterceptFitterNoFeatures(
+                y, classes.size).intercept_
 
     if coef is not None:
         # it must work both giving the bias term and not
-- 
2.43.0


From be935b2a6d9ca704bbafad1eb026eec27f686814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 15/55] fix: accept numpy integer seeds

A numpy integer was not recognized as a seed: every bootstrap then used the
identical split, and NMF and make_classification failed.
---
 src/pyuoi/datasets/__init__.py | 4 +++-
 src/pyuoi/decomposition/NMF.py | 3 ++-
 src/pyuoi/linear_model/base.py | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index d13394e..1bec910 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -1,3 +1,5 @@
+import numbers
+
 import numpy as np
 from sklearn.utils import check_random_state
 
@@ -123,7 +125,7 @@ def make_classification(n_samples=100, n_features=20, n_informative=2,
         If true, includes an intercept in the model, if False, the intercept is
         set to 0.
     """
-    if isinstance(random_state, int):
+    if isinstance(random_state, numbers.Integral):
         rng = np.random.RandomState(random_state)
     else:
         if random_state is None:
diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 52e105a..6ad26dd 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -1,3 +1,4 @@
+import numbers
 import scipy.optimize as spo
 import numpy as np
 import logging
@@ -143,7 +144,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         if random_state is None:
             self._rand = np.random.RandomState()
         else:
-            if isinstance(random_state, int):
+            if isinstance(random_state, numbers.Integral):
                 self._rand = np.random.RandomState(random_state)
             elif isinstance(random_state, np.random.RandomState):
                 self._rand = random_state
diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index d6ab910..093ea21 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -1,4 +1,5 @@
 import abc as _abc
+import numbers
 import numpy as np
 import logging
 from sklearn.linear_model._base import SparseCoefMixin
@@ -102,7 +103,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
         self.tol = tol
         self.comm = comm
         # preprocessing
-        if isinstance(random_state, int):
+        if isinstance(random_state, numbers.Integral):
             # make sure ranks use different seed
             if self.comm is not None:
                 random_state += self.comm.rank
-- 
2.43.0


From 64ca84cd9222b181d498c901b7b6050b80dbe512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 16/55] fix: open the bundled swimmer data read-only

Opening it for writing fails for read-only installations and while another
process reads it.
---
 src/pyuoi/datasets/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index 1bec910..60772fe 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -9,7 +9,7 @@ from ..utils import softmax, sigmoid
 def load_swimmer(flatten=True):
     from pkg_resources import resource_filename
     import h5py
-    with h5py.File(resource_filename('pyuoi', 'data/Swimmer.h5'), 'r+') as f:
+    with h5py.File(resource_filename('pyuoi', 'data/Swimmer.h5'), 'r') as f:
         swimmers = f['Y'][:].astype(float)
     if flatten:
         swimmers = swimmers.T.reshape(256, 1024)
-- 
2.43.0


From 73416e9dfed03e9168c788c7d9990d53cb7c1ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 17/55] fix: convert COO input to an indexable sparse format

Bootstraps index rows of X, which COO matrices do not support.
---
 src/pyuoi/linear_model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 093ea21..3fb6b05 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -204,7 +204,7 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
         X, y = self._pre_fit(X, y)
 
-        X, y = check_X_y(X, y, accept_sparse=['csr', 'csc', 'coo'],
+        X, y = check_X_y(X, y, accept_sparse=['csr', 'csc'],
                          y_numeric=True, multi_output=True)
 
         # extract model dimensions
-- 
2.43.0


From 634bfe5179e43f9217dc40958d6d25515d2181b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 18/55] fix: keep the linear intercept an array for sparse
 designs

The mean of a sparse matrix is a np.matrix, so the intercept became one
and predictions had the wrong shape.
---
 src/pyuoi/linear_model/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 3fb6b05..83486c5 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -652,8 +652,9 @@ class AbstractUoILinearRegressor(AbstractUoILinearModel,
     def _fit_intercept(self, X, y):
         """Fit the intercept."""
         if self.fit_intercept:
+            X_mean = np.asarray(X.mean(axis=0)).ravel()
             self.intercept_ = (y.mean(axis=0) -
-                               np.dot(X.mean(axis=0), self.coef_.T))
+                               np.dot(X_mean, self.coef_.T))
         else:
             self.intercept_ = np.zeros(1)
 
-- 
2.43.0


From 087c1133f8ca5f32c89472dfe3c8a5837c86f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 19/55] fix: respect root in Bcast_from_root and Gatherv_rows

Both hard-coded rank 0 in places, so any other root failed or deadlocked.
---
 src/pyuoi/mpi_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index 4c3f3e9..bb76556 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -112,7 +112,7 @@ def Bcast_from_root(send, comm=None, root=0):
     if comm is None:
         comm = MPI.COMM_WORLD
     rank = comm.rank
-    if rank == 0:
+    if rank == root:
         dtype = send.dtype
         shape = send.shape
     else:
@@ -120,7 +120,7 @@ def Bcast_from_root(send, comm=None, root=0):
         shape = None
     shape = comm.bcast(shape, root=root)
     dtype = comm.bcast(dtype, root=root)
-    if rank != 0:
+    if rank != root:
         send = np.empty(shape, dtype=dtype)
     comm.Bcast([send, _np2mpi[np.dtype(dtype)]], root=root)
     return send
@@ -167,5 +167,5 @@ def Gatherv_rows(send, comm=None, root=0):
         sizes = None
         disps = None
 
-    comm.Gatherv(send, [rec, sizes, disps, _np2mpi[dtype]], root=0)
+    comm.Gatherv(send, [rec, sizes, disps, _np2mpi[dtype]], root=root)
     return rec
-- 
2.43.0


From 2be6280dd3913c9d90d4eb3a8c6097ae2b2210bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 20/55] fix: avoid NaN Poisson likelihoods for zero predictions

A zero count with an underflowed zero mean contributed 0 * log(0) = NaN,
and argmax then preferred the NaN score.
---
 src/pyuoi/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/utils.py b/src/pyuoi/utils.py
index 1b3709d..59b4a1e 100755
--- a/src/pyuoi/utils.py
+++ b/src/pyuoi/utils.py
@@ -2,6 +2,8 @@ import numpy as np
 import sys
 import logging
 
+from scipy.special import xlogy
+
 
 def softmax(y, axis=-1):
     """Calculates the softmax distribution.
@@ -61,7 +63,7 @@ def log_likelihood_glm(model, y_true, y_pred):
             else:
                 ll = 0.
         else:
-            ll = np.mean(y_true * np.log(y_pred) - y_pred)
+            ll = np.mean(xlogy(y_true, y_pred) - y_pred)
     else:
         raise ValueError('Model is not available.')
     return ll
-- 
2.43.0


From fc169f4d936414d022a7b9bd0ce7bcc1dff74097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:22 +0000
Subject: [PATCH 21/55] fix: seed the CUR column selection

column_select ignored random_state, so results were not reproducible, and
with an integer seed UoI_CUR drew the same rows for every bootstrap.
---
 src/pyuoi/decomposition/CUR.py   | 11 ++++++++---
 src/pyuoi/decomposition/utils.py |  4 +++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/decomposition/CUR.py b/src/pyuoi/decomposition/CUR.py
index 7b017b6..07d9096 100644
--- a/src/pyuoi/decomposition/CUR.py
+++ b/src/pyuoi/decomposition/CUR.py
@@ -4,7 +4,7 @@ from .base import AbstractDecompositionModel
 
 from sklearn.decomposition import TruncatedSVD
 from sklearn.model_selection import train_test_split
-from sklearn.utils import check_array
+from sklearn.utils import check_array, check_random_state
 from sklearn.utils.validation import check_is_fitted
 
 from .utils import column_select, stability_selection_to_threshold
@@ -98,6 +98,10 @@ class UoI_CUR(AbstractDecompositionModel):
         # keep track of which columns are chosen
         columns = np.zeros((n_ks, self.n_boots, n_features), dtype='int')
 
+        # every bootstrap gets its own seed
+        seeds = check_random_state(self.random_state).randint(
+            np.iinfo(np.int32).max, size=self.n_boots)
+
         # truncated SVD fitter object
         tsvd = TruncatedSVD(n_components=self.max_k,
                             algorithm=self.algorithm,
@@ -107,13 +111,14 @@ class UoI_CUR(AbstractDecompositionModel):
 
         # iterate over bootstraps
         for bootstrap in range(self.n_boots):
+            rng = np.random.RandomState(seeds[bootstrap])
             # extract bootstrap
             if self.boots_frac == 1:
                 X_train = X
             else:
                 X_train, _ = train_test_split(X, test_size=1 - self.boots_frac,
                                               stratify=stratify,
-                                              random_state=self.random_state)
+                                              random_state=rng)
             # perform truncated SVD on bootstrap
             tsvd.fit(X_train)
             # extract right singular vectors
@@ -124,7 +129,7 @@ class UoI_CUR(AbstractDecompositionModel):
                 c = cs[k_idx]
 
                 column_indices = column_select(V[:, :k], c=c,
-                                               random_state=self.random_state)
+                                               random_state=rng)
                 # convert column flags to set
                 columns[k_idx, bootstrap][column_indices] += 1
 
diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 70a44f5..4c73a12 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -1,5 +1,7 @@
 import numpy as np
 
+from sklearn.utils import check_random_state
+
 
 def column_select(V, c, leverage_sort=False, random_state=None):
     """Chooses column indices from a matrix given its SVD.
@@ -24,7 +26,7 @@ def column_select(V, c, leverage_sort=False, random_state=None):
         score.
     """
     # random state
-    rng = np.random.RandomState(seed=None)
+    rng = check_random_state(random_state)
 
     # extract number of samples and rank
     n_features, k = V.shape
-- 
2.43.0


From 9f1cc278dd1778a03b15415efac38a0128f6d32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 22/55] fix: do not truncate NMF coefficients of integer data

transform() stored the coefficients with the dtype of X.
---
 src/pyuoi/decomposition/NMF.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 6ad26dd..d00d17b 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -270,7 +270,8 @@ class UoI_NMF_Base(AbstractDecompositionModel):
                 % (X.shape, self.components_.shape))
 
         H_t = self.components_.T
-        W = np.zeros((n_samples, self.n_components), dtype=X.dtype)
+        dtype = X.dtype if np.issubdtype(X.dtype, np.floating) else float
+        W = np.zeros((n_samples, self.n_components), dtype=dtype)
 
         # calculate coefficients for each sample
         for sample in range(n_samples):
-- 
2.43.0


From 049ba2f0c193b36e4bddb785bb97c9bc0c700e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 23/55] fix: use the solvers passed to UoI_NMF

nmf, cluster, nnreg, cons_meth and db_leaf_size were silently ignored.
---
 src/pyuoi/decomposition/NMF.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index d00d17b..1860029 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -417,28 +417,31 @@ class UoI_NMF(UoI_NMF_Base):
         nmf=None, cluster=None, nnreg=None, cons_meth=None
     ):
         # create NMF solver
-        nmf = skNMF(init=nmf_init,
-                    solver=nmf_solver,
-                    beta_loss=nmf_beta_loss,
-                    tol=nmf_tol,
-                    max_iter=nmf_max_iter)
+        if nmf is None:
+            nmf = skNMF(init=nmf_init,
+                        solver=nmf_solver,
+                        beta_loss=nmf_beta_loss,
+                        tol=nmf_tol,
+                        max_iter=nmf_max_iter)
 
         # create DBSCAN solver
-        if db_min_samples is None:
-            db_min_samples = max(n_boots // 2, 1)
-        dbscan = DBSCAN(eps=db_eps,
-                        min_samples=db_min_samples,
-                        metric=db_metric,
-                        metric_params=db_metric_params,
-                        algorithm=db_algorithm)
+        if cluster is None:
+            if db_min_samples is None:
+                db_min_samples = max(n_boots // 2, 1)
+            cluster = DBSCAN(eps=db_eps,
+                             min_samples=db_min_samples,
+                             metric=db_metric,
+                             metric_params=db_metric_params,
+                             algorithm=db_algorithm,
+                             leaf_size=db_leaf_size)
 
         super(UoI_NMF, self).__init__(
             n_boots=n_boots,
             ranks=ranks,
             nmf=nmf,
-            cluster=dbscan,
-            nnreg=None,
-            cons_meth=np.mean,
+            cluster=cluster,
+            nnreg=nnreg,
+            cons_meth=cons_meth,
             random_state=random_state,
             use_dissimilarity=use_dissimilarity,
             logger=logger)
-- 
2.43.0


From 3003e287cd57740a2b5d4311151c116d30213820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 24/55] fix: allow UoI_NMF without explicit ranks

The documented default left the ranks undefined, so fit() raised an
AttributeError (and rank 0 is not a valid factorization).
---
 src/pyuoi/decomposition/NMF.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 1860029..136e80a 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -30,7 +30,7 @@ class UoI_NMF_Base(AbstractDecompositionModel):
         The number of bootstraps to use for model selection.
     ranks : int, list, or None
         The range of k to use. If *ranks* is an int, range(2, ranks + 1) will
-        be used. If not specified, range(X.shape[1]) will be used.
+        be used. If not specified, range(1, X.shape[1]) will be used.
     nmf : NMF object
         The NMF object to use to perform fitting.
         Note: this class must take *n_components* as an argument.
@@ -104,6 +104,8 @@ class UoI_NMF_Base(AbstractDecompositionModel):
                 self.ranks = tuple(ranks)
             else:
                 raise ValueError('Specify a max value or an array-like for k.')
+        else:
+            self.ranks = None
 
         # initialize NMF solver
         if nmf is not None:
@@ -177,24 +179,27 @@ class UoI_NMF_Base(AbstractDecompositionModel):
 
         check_non_negative(X, 'UoI NMF')
         n_samples, n_features = X.shape
+        ranks = self.ranks
+        if ranks is None:
+            ranks = range(1, n_features)
 
         H_samples = {k: np.zeros((self.n_boots, k, n_features))
-                     for k in self.ranks}
+                     for k in ranks}
 
         rep_idx = self._rand.randint(n_samples, size=(self.n_boots, n_samples))
         for boot_idx in range(self.n_boots):
             self._logger.info("Bootstrap %d" % boot_idx)
             # compute NMF bases for k across bootstrap replicates
             sample = X[rep_idx[boot_idx]]
-            for k_idx, k in enumerate(self.ranks):
+            for k_idx, k in enumerate(ranks):
                 # concatenate k by p
                 H_samples[k][boot_idx] = \
                     self.nmf.set_params(n_components=k).fit(sample).components_
 
         if self.use_dissimilarity:
-            gamma = np.zeros(len(self.ranks))
+            gamma = np.zeros(len(ranks))
             # iterate over each rank
-            for k_idx, k in enumerate(self.ranks):
+            for k_idx, k in enumerate(ranks):
                 # extract the bases for each rank
                 H_k = H_samples[k]
                 for boot1, boot2 in combinations(range(self.n_boots), 2):
@@ -202,14 +207,14 @@ class UoI_NMF_Base(AbstractDecompositionModel):
             self.dissimilarity_ = (gamma * 2) /\
                                   (self.n_boots *
                                    (self.n_boots - 1))
-            k_min = self.ranks[np.argmin(gamma)]
+            k_min = ranks[np.argmin(gamma)]
             H_pre_cluster = H_samples[k_min].reshape((self.n_boots * k_min,
                                                       n_features))
         else:
-            H_pre_cluster = np.zeros((self.n_boots * np.sum(self.ranks),
+            H_pre_cluster = np.zeros((self.n_boots * np.sum(ranks),
                                       n_features))
             start_idx = 0
-            for k in self.ranks:
+            for k in ranks:
                 H_k = H_samples[k].reshape((self.n_boots * k, n_features))
                 end_idx = start_idx + self.n_boots * k
                 H_pre_cluster[start_idx:end_idx] = H_k
@@ -344,7 +349,7 @@ class UoI_NMF(UoI_NMF_Base):
         The number of bootstraps to use for model selection.
     ranks : int, list, or None
         The range of k to use. If *ranks* is an int, range(2, ranks + 1) will
-        be used. If not specified, range(X.shape[1]) will be used.
+        be used. If not specified, range(1, X.shape[1]) will be used.
     nmf_init :  "random" | "nndsvd" |  "nndsvda" | "nndsvdar" | "custom"
         Method used to initialize the NMF procedure. Valid options:
             * "random": non-negative random matrices, scaled with
-- 
2.43.0


From 3cfb68c3e2d586a00543a2a95bd5c681588e0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 25/55] fix: keep the NMF dissimilarity finite for zero bases

A zero basis made it NaN and argmin then chose that rank.
---
 src/pyuoi/decomposition/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 4c73a12..7b54625 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from sklearn.preprocessing import normalize
 from sklearn.utils import check_random_state
 
 
@@ -109,8 +110,9 @@ def dissimilarity(H1, H2):
         Dissimilarity between the two sets of bases.
     """
     k = H1.shape[0]
-    H1 = H1 / np.linalg.norm(H1, axis=1, keepdims=True)
-    H2 = H2 / np.linalg.norm(H2, axis=1, keepdims=True)
+    # an all-zero basis is not similar to anything
+    H1 = normalize(H1, norm='l2', axis=1)
+    H2 = normalize(H2, norm='l2', axis=1)
     C = np.dot(H1, H2.T)
     diss = 1 - ((np.max(C, axis=0).sum() + np.max(C, axis=1).sum()) / (2. * k))
     return diss
-- 
2.43.0


From 837fb492035ea0fff8101626c9a8a04fa7fdf32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 26/55] fix: return the minimizer when the delta-based test
 stops L-BFGS

LBFGS_STOP was looked up as an error and raised a KeyError, so past/delta
were unusable.
---
 src/pyuoi/lbfgs/_lowlevel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 7afad38..bf4165b 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -400,7 +400,7 @@ cdef class LBFGS(object):
             r = lbfgs(n, x_a, fx_final, call_eval,
                       call_progress, <void *>callback_data, &self.params)
 
-            if r == LBFGS_SUCCESS or r == LBFGS_ALREADY_MINIMIZED:
+            if r in (LBFGS_SUCCESS, LBFGS_STOP, LBFGS_ALREADY_MINIMIZED):
 
                 x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
                                                        <void *>x_a).copy()
-- 
2.43.0


From 9338badf0ed516d30111a5274aa951c360a4f6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 27/55] fix: propagate callback exceptions and honour any
 nonzero progress value

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 48 ++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index bf4165b..89fa18c 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -113,12 +113,23 @@ cdef lbfgsfloatval_t call_eval(void *cb_data_v,
     cdef np.npy_intp tshape[1]
 
     callback_data = <object>cb_data_v
-    (f, progress_fn, shape, args) = callback_data
-    tshape[0] = <np.npy_intp>n
-    x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE, <void *>x)
-    g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE, <void *>g)
+    (f, progress_fn, shape, args, errors) = callback_data
+    if not errors:
+        tshape[0] = <np.npy_intp>n
+        x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
+                                               <void *>x)
+        g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
+                                               <void *>g)
+        try:
+            return f(x_array.reshape(shape), g_array.reshape(shape), *args)
+        except BaseException as error:
+            errors.append(error)
 
-    return f(x_array.reshape(shape), g_array.reshape(shape), *args)
+    # Exceptions cannot pass through the C code. Let the solver finish as if
+    # it had converged; minimize() raises the exception afterwards.
+    for i in range(n):
+        g[i] = 0.
+    return 0.
 
 
 # Callback into Python progress reporting callable.
@@ -131,19 +142,28 @@ cdef int call_progress(void *cb_data_v,
     cdef np.npy_intp tshape[1]
 
     callback_data = <object>cb_data_v
-    (f, progress_fn, shape, args) = callback_data
+    (f, progress_fn, shape, args, errors) = callback_data
+
+    if errors:
+        return LBFGSERR_CANCELED
 
-    if progress_fn:
+    if progress_fn is not None:
         tshape[0] = <np.npy_intp>n
         x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
                                                <void *>x)
         g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
                                                <void *>g)
 
-        r = progress_fn(x_array.reshape(shape), g_array.reshape(shape), fx,
-                        xnorm, gnorm, step, k, ls, *args)
-        # TODO what happens when the callback returns the wrong type?
-        return 0 if r is None else r
+        try:
+            r = progress_fn(x_array.reshape(shape), g_array.reshape(shape), fx,
+                            xnorm, gnorm, step, k, ls, *args)
+            if r is None or r == 0:
+                return 0
+            # Any other value cancels; only the all-zero code has a meaning.
+            return LBFGS_ALLZERO if r == LBFGS_ALLZERO else LBFGSERR_CANCELED
+        except BaseException as error:
+            errors.append(error)
+            return LBFGSERR_CANCELED
     else:
         return 0
 
@@ -396,10 +416,14 @@ cdef class LBFGS(object):
         x_a = aligned_copy(x0.ravel())
 
         try:
-            callback_data = (f, progress, x0.shape, args)
+            errors = []
+            callback_data = (f, progress, x0.shape, args, errors)
             r = lbfgs(n, x_a, fx_final, call_eval,
                       call_progress, <void *>callback_data, &self.params)
 
+            if errors:
+                raise errors[0]
+
             if r in (LBFGS_SUCCESS, LBFGS_STOP, LBFGS_ALREADY_MINIMIZED):
 
                 x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
-- 
2.43.0


From 1719abe515f655805b44253f9737101bb976ae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 28/55] fix: free the L-BFGS start copy when its conversion
 fails

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index 89fa18c..dc79072 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -175,8 +175,12 @@ cdef lbfgsfloatval_t *aligned_copy(x) except NULL:
     x_copy = lbfgs_malloc(n)
     if x_copy is NULL:
         raise MemoryError
-    for i in xrange(n):
-        x_copy[i] = x[i]
+    try:
+        for i in xrange(n):
+            x_copy[i] = x[i]
+    except BaseException:
+        lbfgs_free(x_copy)
+        raise
     return x_copy
 
 
-- 
2.43.0


From 2076c9a6239cbf8de07cb25d4ba199b5f5f1bf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 29/55] fix: reject a nonpositive number of L-BFGS corrections

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index dc79072..bc19c3e 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -417,6 +417,9 @@ cdef class LBFGS(object):
         if n_i != n:
             raise LBFGSError("Array of %d elements too large to handle" % n)
 
+        if self.params.m <= 0:
+            raise LBFGSError("Invalid parameter m specified.")
+
         x_a = aligned_copy(x0.ravel())
 
         try:
-- 
2.43.0


From 8f9cda487b0b99c94b7cf80b9f770a46fa995c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 30/55] fix: restore the multinomial start value without an
 intercept

The existing tests compare iterates with a reference that starts there.
---
 src/pyuoi/linear_model/logistic.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 0b1cc4c..b59b52e 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -593,9 +593,8 @@ def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
             Y_multi = np.hstack([1 - Y_multi, Y_multi])
         w0 = np.zeros((classes.size, n_features + int(fit_intercept)),
                       dtype=X.dtype)
-        if fit_intercept:
-            w0[:, -1] = LogisticInterceptFitterNoFeatures(
-                y, classes.size).intercept_
+        w0[:, -1] = LogisticInterceptFitterNoFeatures(y,
+                                                      classes.size).intercept_
 
     if coef is not None:
         # it must work both giving the bias term and not
-- 
2.43.0


From 84f053067605e23f4e81709b8d2df3570cf5b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 31/55] fix: give pycasso at least three strengths

With one or two it takes them for a path length and ratio, and crashes.
---
 src/pyuoi/linear_model/lasso.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index 2bc148e..40d7d91 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -101,16 +101,23 @@ class PycLasso():
                       'issues/25 for resolution.')
             raise ValueError(string)
 
+        # pycasso takes two values to be the length and ratio of a path, and
+        # does not accept fewer
+        alphas = np.asarray(self.alphas, dtype=float)
+        n_alphas = alphas.size
+        if n_alphas < 3:
+            alphas = np.append(alphas, np.repeat(alphas[-1], 3 - n_alphas))
+
         self.solver = pycasso.Solver(X, y, family='gaussian',
                                      useintercept=self.fit_intercept,
-                                     lambdas=self.alphas,
+                                     lambdas=alphas,
                                      penalty='l1',
                                      max_ite=self.max_iter,
                                      prec=self.tol)
         self.solver.train()
         # Coefs across the entire solution path
-        self.coef_ = self.solver.result['beta']
-        self.intercept_ = self.solver.result['intercept']
+        self.coef_ = self.solver.result['beta'][:n_alphas]
+        self.intercept_ = self.solver.result['intercept'][:n_alphas]
         self.isfitted = True
         return self
 
-- 
2.43.0


From 28a4c812b635b90436d9b6dd7764606046f00d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 32/55] fix: refit the logistic intercept on the unclipped loss

---
 src/pyuoi/linear_model/logistic.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index b59b52e..d2dea2f 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -2,7 +2,6 @@ import numbers, warnings
 
 from sklearn.linear_model import LogisticRegression
 from sklearn.preprocessing import LabelEncoder, OneHotEncoder
-from sklearn.metrics import log_loss
 from sklearn.exceptions import ConvergenceWarning
 from sklearn.utils import (check_X_y, compute_class_weight,
                            check_consistent_length, check_array)
@@ -217,9 +216,11 @@ def fit_intercept_fixed_coef(X, coef_, y, output_dim):
     """Optimize the likelihood w.r.t. the intercept for a logistic model."""
     if output_dim == 1:
         def f_df(intercept):
-            py = sigmoid(X.dot(coef_.T) + intercept)
-            dfdb = py.mean() - y.mean()
-            return log_loss(y, py), np.atleast_1d(dfdb)
+            eta = (X.dot(coef_.T) + intercept).ravel()
+            dfdb = sigmoid(eta).mean() - y.mean()
+            # not log_loss: clipping disagrees with the gradient
+            loss = -log_logistic((2. * y - 1.) * eta).mean()
+            return loss, np.atleast_1d(dfdb)
 
         opt = minimize(f_df, np.atleast_1d(np.zeros(1)),
                        method='L-BFGS-B', jac=True)
@@ -227,7 +228,8 @@ def fit_intercept_fixed_coef(X, coef_, y, output_dim):
     else:
         def f_df(short_intercept):
             intercept = np.concatenate([np.atleast_1d(1.), short_intercept])
-            py = softmax(X.dot(coef_.T) + intercept)
+            eta = X.dot(coef_.T) + intercept
+            py = softmax(eta)
 
             def dlogpi_dintk(ii, pyi):
                 if ii == 0:
@@ -240,7 +242,9 @@ def fit_intercept_fixed_coef(X, coef_, y, output_dim):
             dfdb = np.zeros_like(short_intercept)
             for yi, pyi in zip(y, py):
                 dfdb -= dlogpi_dintk(yi, pyi) / y.size
-            return log_loss(y, py, labels=np.arange(output_dim)), dfdb
+            # not log_loss: clipping disagrees with the gradient
+            loss = (logsumexp(eta, axis=1) - eta[np.arange(y.size), y]).mean()
+            return loss, dfdb
         opt = minimize(f_df, np.atleast_1d(np.zeros(output_dim - 1)),
                        method='L-BFGS-B', jac=True)
         intercept = np.concatenate([np.atleast_1d(1.), opt.x])
-- 
2.43.0


From c040e9bda7aae570ee75244fb2e226945f8c4927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:37 +0000
Subject: [PATCH 33/55] fix: never accept a NaN objective in the backtracking
 line search

---
 liblbfgs/lbfgs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblbfgs/lbfgs.c b/liblbfgs/lbfgs.c
index 7c29728..22f714f 100644
--- a/liblbfgs/lbfgs.c
+++ b/liblbfgs/lbfgs.c
@@ -687,7 +687,8 @@ static int line_search_backtracking(
 
         ++count;
 
-        if (*f > finit + *stp * dgtest) {
+        /* Never accept a NaN: the iterations would not end. */
+        if (!(*f <= finit + *stp * dgtest)) {
             width = dec;
         } else {
             /* The sufficient decrease condition (Armijo condition). */
-- 
2.43.0


From fa4ed0543dbf876bcc99fcd2722d7a8761d1b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:52 +0000
Subject: [PATCH 34/55] fix: gather one-dimensional arrays with integer counts

---
 src/pyuoi/mpi_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/mpi_utils.py b/src/pyuoi/mpi_utils.py
index bb76556..0446c14 100644
--- a/src/pyuoi/mpi_utils.py
+++ b/src/pyuoi/mpi_utils.py
@@ -160,7 +160,9 @@ def Gatherv_rows(send, comm=None, root=0):
     if rank == root:
         rec_shape = (tot[0],) + shape[1:]
         rec = np.empty(rec_shape, dtype=dtype)
-        sizes = [size * np.prod(rec_shape[1:]) for size in rank_sizes]
+        # the empty product is a float by default
+        row_size = np.prod(rec_shape[1:], dtype=int)
+        sizes = [size * row_size for size in rank_sizes]
         disps = np.insert(np.cumsum(sizes), 0, 0)[:-1]
     else:
         rec = None
-- 
2.43.0


From efecac3acb59fc7b1967e551cb12ddef2351be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:34 +0000
Subject: [PATCH 35/55] fix: do not advance a shared generator in the selection
 learner

---
 src/pyuoi/linear_model/elasticnet.py | 3 ++-
 src/pyuoi/linear_model/lasso.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/elasticnet.py b/src/pyuoi/linear_model/elasticnet.py
index 9b9d838..3773853 100644
--- a/src/pyuoi/linear_model/elasticnet.py
+++ b/src/pyuoi/linear_model/elasticnet.py
@@ -125,7 +125,8 @@ class UoI_ElasticNet(AbstractUoILinearRegressor, LinearRegression):
             tol=tol,
             copy_X=copy_X,
             warm_start=warm_start,
-            random_state=random_state)
+            # unused, but a shared generator would be advanced
+            random_state=0)
         self._estimation_lm = LinearRegression(fit_intercept=fit_intercept)
 
     def get_reg_params(self, X, y):
diff --git a/src/pyuoi/linear_model/lasso.py b/src/pyuoi/linear_model/lasso.py
index 40d7d91..fdbe1dd 100644
--- a/src/pyuoi/linear_model/lasso.py
+++ b/src/pyuoi/linear_model/lasso.py
@@ -239,7 +239,8 @@ class UoI_Lasso(AbstractUoILinearRegressor, LinearRegression):
                 max_iter=max_iter,
                 tol=tol,
                 warm_start=warm_start,
-                random_state=random_state,
+                # unused, but a shared generator would be advanced
+                random_state=0,
                 fit_intercept=fit_intercept)
         elif solver == 'pyc':
             if pycasso is None:
-- 
2.43.0


From 71548a911692663e0ed323c2851751e16130c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:27 +0000
Subject: [PATCH 36/55] fix: drop stale selection results when fitting a
 constant response

---
 src/pyuoi/linear_model/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuoi/linear_model/base.py b/src/pyuoi/linear_model/base.py
index 83486c5..bde9c0b 100644
--- a/src/pyuoi/linear_model/base.py
+++ b/src/pyuoi/linear_model/base.py
@@ -213,6 +213,12 @@ class AbstractUoILinearModel(SparseCoefMixin, metaclass=_abc.ABCMeta):
 
         # check if the response variable is constant
         if np.unique(y).size == 1:
+            # nothing is selected: drop the results of previous fits
+            for attr in ('reg_params_', 'n_reg_params_', 'supports_',
+                         'estimates_', 'scores_', 'rp_max_idx_'):
+                if hasattr(self, attr):
+                    delattr(self, attr)
+            self.n_supports_ = None
             self.coef_ = np.zeros((self.output_dim, n_features))
             self._fit_intercept(X, y)
             self._post_fit(X, y)
-- 
2.43.0


From 965b2fbac03b11de8e52a3082e1b1afd5b95d631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:57 +0000
Subject: [PATCH 37/55] fix: keep float gradients for integer designs in the
 multinomial loss

---
 src/pyuoi/linear_model/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index d2dea2f..ab6dfe8 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -866,7 +866,7 @@ def _multinomial_loss_grad(w, X, Y, alpha, mask, sample_weight):
         w[:, :n_features] *= mask
         w = w.ravel()
     grad = np.zeros((n_classes, n_features + bool(fit_intercept)),
-                    dtype=X.dtype)
+                    dtype=w.dtype)
     loss, p, w = _multinomial_loss(w, X, Y, alpha, sample_weight)
     sample_weight = sample_weight[:, np.newaxis]
     diff = sample_weight * (p - Y)
-- 
2.43.0


From 79d0b88c5a55e08dfcd38775da867569f2149eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 38/55] fix: apply class weights to the labels they are given
 for

---
 src/pyuoi/linear_model/logistic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index ab6dfe8..5be2ba4 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -417,12 +417,18 @@ class MaskedCoefLogisticRegression(LogisticRegression):
 
         self.intercept_ = np.zeros(n_classes)
 
+        class_weight = self.class_weight
+        if isinstance(class_weight, dict):
+            # the weights are given for the labels, y holds their codes
+            class_weight = dict(enumerate(compute_class_weight(
+                class_weight, classes=self.classes_, y=self.classes_)))
+
         fold_coefs_ = _logistic_regression_path(
             X, y, Cs=[self.C],
             fit_intercept=self.fit_intercept,
             tol=self.tol, verbose=self.verbose,
             multi_class=multi_class, max_iter=self.max_iter,
-            class_weight=self.class_weight, penalty=self.penalty,
+            class_weight=class_weight, penalty=self.penalty,
             check_input=False,
             coef=warm_start_coef,
             sample_weight=sample_weight, coef_mask=coef_mask)
-- 
2.43.0


From cea18da55aac549d0a61d03992cc99c0add19ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 39/55] fix: fit the intercept when the mask is empty

---
 src/pyuoi/linear_model/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 5be2ba4..8af2709 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -678,7 +678,7 @@ def _logistic_regression_path(X, y, Cs=48, fit_intercept=True,
     coefs = list()
     n_iter = np.zeros(len(Cs), dtype=np.int32)
     for i, C in enumerate(Cs):
-        if coef_mask is None or coef_mask.sum():
+        if coef_mask is None or coef_mask.sum() or fit_intercept:
             iprint = [-1, 50, 1, 100, 101][
                 np.searchsorted(np.array([0, 1, 2, 3]), verbose)]
             if penalty == 'l2':
-- 
2.43.0


From d55dcf78ead23cfdaefe5d642ebe2c5b10c28634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 40/55] fix: do not warm start a Poisson fit from an infinite
 intercept

---
 src/pyuoi/linear_model/poisson.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 35165b6..58b6027 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -98,7 +98,9 @@ class Poisson(BaseEstimator):
                         coef = self.coef_ * self._X_scaler.scale_
                     else:
                         coef = self.coef_
-                if hasattr(self, 'intercept_') and self.fit_intercept:
+                # all-zero responses leave an infinite intercept
+                if (hasattr(self, 'intercept_') and self.fit_intercept and
+                        np.isfinite(self.intercept_)):
                     intercept = self.intercept_
 
             if self.fit_intercept:
@@ -216,7 +218,8 @@ class Poisson(BaseEstimator):
                     coef = np.copy(self.coef_)
 
             if self.fit_intercept:
-                if hasattr(self, 'intercept_'):
+                if (hasattr(self, 'intercept_') and
+                        np.isfinite(self.intercept_)):
                     intercept = self.intercept_
 
         # the first sweep covers every coefficient
-- 
2.43.0


From 54789befabd768256522066aeeb760bd7305012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 41/55] fix: start the Poisson path at the null model without
 an intercept

---
 src/pyuoi/linear_model/poisson.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 58b6027..6a7f770 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -542,8 +542,9 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
         # a set of lambdas are generated for each alpha value (l1_ratio in
         # sci-kit learn parlance)
         for alpha_idx, alpha in enumerate(self.alphas):
-            # calculate upper bound for lambda sweep
-            ybar = y.mean()
+            # calculate upper bound for lambda sweep: the null model
+            # predicts the mean response, or one without an intercept
+            ybar = y.mean() if self.fit_intercept else 1.
             lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
             lambda_max /= n_samples * alpha
             self.lambdas[alpha_idx, :] = np.logspace(
-- 
2.43.0


From e00cfefa75a29aa3ebc1404ff6868607d394ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 42/55] fix: reject stability proportions above one

---
 src/pyuoi/decomposition/utils.py | 4 ++++
 src/pyuoi/linear_model/utils.py  | 9 ++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 7b54625..4a00528 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -73,6 +73,10 @@ def stability_selection_to_threshold(stability_selection, n_boots):
 
     # float, indicating proportion of bootstraps
     if isinstance(stability_selection, float):
+        # a proportion above one must not be truncated to a valid count
+        if stability_selection > 1:
+            raise ValueError("Stability selection thresholds must be within "
+                             "the correct bounds.")
         selection_threshold = int(stability_selection * n_boots)
 
     # int, indicating number of bootstraps
diff --git a/src/pyuoi/linear_model/utils.py b/src/pyuoi/linear_model/utils.py
index 9fd0ce2..88dfb00 100644
--- a/src/pyuoi/linear_model/utils.py
+++ b/src/pyuoi/linear_model/utils.py
@@ -24,9 +24,7 @@ def stability_selection_to_threshold(stability_selection, n_boots):
 
     # single float, indicating proportion of bootstraps
     if isinstance(stability_selection, float):
-        selection_thresholds = np.array([int(
-            stability_selection * n_boots
-        )])
+        selection_thresholds = np.array([stability_selection * n_boots])
 
     # single int, indicating number of bootstraps
     elif isinstance(stability_selection, int):
@@ -68,10 +66,11 @@ def stability_selection_to_threshold(stability_selection, n_boots):
                          "or array.")
 
     # ensure that ensuing list of selection thresholds satisfies
-    # the correct bounds
+    # the correct bounds, before a proportion above one is truncated
+    in_bounds = np.all(selection_thresholds <= n_boots)
     selection_thresholds = selection_thresholds.astype('int')
     if not (
-        np.all(selection_thresholds <= n_boots) and
+        in_bounds and
         np.all(selection_thresholds >= 1)
     ):
         raise ValueError("Stability selection thresholds must be within "
-- 
2.43.0


From 8b4ca7ae60e252ab1414dd14c6994eb7feb9f42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 43/55] fix: accept cluster labels that are not consecutive

---
 src/pyuoi/decomposition/NMF.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/decomposition/NMF.py b/src/pyuoi/decomposition/NMF.py
index 136e80a..8f71bb8 100644
--- a/src/pyuoi/decomposition/NMF.py
+++ b/src/pyuoi/decomposition/NMF.py
@@ -235,9 +235,10 @@ class UoI_NMF_Base(AbstractDecompositionModel):
                           n_clusters)
         H_cons = np.zeros((n_clusters, n_features))
 
-        for c_id in cluster_ids:
-            H_cons[c_id, :] = self.cons_meth(H_pre_cluster[labels == c_id],
-                                             axis=0)
+        # cluster labels need not be consecutive
+        for idx, c_id in enumerate(cluster_ids):
+            H_cons[idx, :] = self.cons_meth(H_pre_cluster[labels == c_id],
+                                            axis=0)
 
         # re-normalize across features
         H_cons = normalize(H_cons, norm='l2', axis=1)
-- 
2.43.0


From 14610df30e202f507105943417e55b56a0590b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 44/55] fix: generate finite single-feature classification data

---
 src/pyuoi/datasets/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index 60772fe..7c66ae6 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -135,8 +135,10 @@ def make_classification(n_samples=100, n_features=20, n_informative=2,
     n_not_informative = n_features - n_informative
 
     X = rng.randn(n_samples, n_features)
-    X -= X.mean(axis=-1, keepdims=True)
-    X /= X.std(axis=-1, keepdims=True)
+    if n_features > 1:
+        # a single feature would have no variation left
+        X -= X.mean(axis=-1, keepdims=True)
+        X /= X.std(axis=-1, keepdims=True)
 
     if n_classes > 2:
         w = rng.randn(n_features, n_classes)
-- 
2.43.0


From 2178e69f69af89de9fbd3c0f55a27754b888f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 45/55] fix: generate binary classification data with one
 sample

---
 src/pyuoi/datasets/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuoi/datasets/__init__.py b/src/pyuoi/datasets/__init__.py
index 7c66ae6..fa47b1d 100644
--- a/src/pyuoi/datasets/__init__.py
+++ b/src/pyuoi/datasets/__init__.py
@@ -174,7 +174,7 @@ def make_classification(n_samples=100, n_features=20, n_informative=2,
         y = np.array([rng.multinomial(1, pi) for pi in p])
         y = y.argmax(axis=-1)
     else:
-        p = sigmoid(np.squeeze(log_p))
+        p = sigmoid(log_p[:, 0])
         y = np.array([rng.binomial(1, pi) for pi in p])
 
     return X, y, w.T, intercept
-- 
2.43.0


From 17d7c27089d00cdc14a33ffd80f7a307fb319a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 46/55] fix: keep the NMF dissimilarity independent of the
 scale of the bases

---
 src/pyuoi/decomposition/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 4a00528..556a838 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -1,6 +1,5 @@
 import numpy as np
 
-from sklearn.preprocessing import normalize
 from sklearn.utils import check_random_state
 
 
@@ -115,8 +114,10 @@ def dissimilarity(H1, H2):
     """
     k = H1.shape[0]
     # an all-zero basis is not similar to anything
-    H1 = normalize(H1, norm='l2', axis=1)
-    H2 = normalize(H2, norm='l2', axis=1)
+    norm1 = np.linalg.norm(H1, axis=1, keepdims=True)
+    norm2 = np.linalg.norm(H2, axis=1, keepdims=True)
+    H1 = H1 / np.where(norm1 == 0, 1, norm1)
+    H2 = H2 / np.where(norm2 == 0, 1, norm2)
     C = np.dot(H1, H2.T)
     diss = 1 - ((np.max(C, axis=0).sum() + np.max(C, axis=1).sum()) / (2. * k))
     return diss
-- 
2.43.0


From dfb15914795799a37364c5ae2d54e3f0362ceb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 47/55] fix: do not lose a bootstrap to rounding of a stability
 proportion

---
 src/pyuoi/decomposition/utils.py | 3 ++-
 src/pyuoi/linear_model/utils.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyuoi/decomposition/utils.py b/src/pyuoi/decomposition/utils.py
index 556a838..e2462c6 100644
--- a/src/pyuoi/decomposition/utils.py
+++ b/src/pyuoi/decomposition/utils.py
@@ -76,7 +76,8 @@ def stability_selection_to_threshold(stability_selection, n_boots):
         if stability_selection > 1:
             raise ValueError("Stability selection thresholds must be within "
                              "the correct bounds.")
-        selection_threshold = int(stability_selection * n_boots)
+        # a product one rounding error below a whole number is that number
+        selection_threshold = int(round(stability_selection * n_boots, 9))
 
     # int, indicating number of bootstraps
     elif isinstance(stability_selection, int):
diff --git a/src/pyuoi/linear_model/utils.py b/src/pyuoi/linear_model/utils.py
index 88dfb00..b53b7f0 100644
--- a/src/pyuoi/linear_model/utils.py
+++ b/src/pyuoi/linear_model/utils.py
@@ -68,7 +68,8 @@ def stability_selection_to_threshold(stability_selection, n_boots):
     # ensure that ensuing list of selection thresholds satisfies
     # the correct bounds, before a proportion above one is truncated
     in_bounds = np.all(selection_thresholds <= n_boots)
-    selection_thresholds = selection_thresholds.astype('int')
+    # a product one rounding error below a whole number is that number
+    selection_thresholds = np.round(selection_thresholds, 9).astype('int')
     if not (
         in_bounds and
         np.all(selection_thresholds >= 1)
-- 
2.43.0


From fc1f927ad16acdba5ec912b8b0a4d8d92a0098ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 48/55] fix: fit logistic and Poisson models to a response
 unrelated to the features

---
 src/pyuoi/linear_model/logistic.py | 3 ++-
 src/pyuoi/linear_model/poisson.py  | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index 8af2709..dbd7c5e 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -171,7 +171,8 @@ class UoI_L1Logistic(AbstractUoIGeneralizedLinearRegressor, LogisticRegression):
                                                 np.ones(X.shape[0]))
         # the intercept is not regularized
         grad = grad.reshape(self.output_dim, -1)[:, :input_dim]
-        alpha_max = abs(grad).max()
+        # features unrelated to the labels are selected at no strength
+        alpha_max = max(abs(grad).max(), np.finfo(float).resolution)
         logC = -np.log10(alpha_max)
         self.Cs = np.logspace(logC, logC - np.log10(self.eps), self.n_C)
         ret = list()
diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 6a7f770..08fd95e 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -547,6 +547,8 @@ class UoI_Poisson(AbstractUoIGeneralizedLinearRegressor, Poisson):
             ybar = y.mean() if self.fit_intercept else 1.
             lambda_max = np.max(np.abs(np.dot(X.T, y - ybar)))
             lambda_max /= n_samples * alpha
+            # features unrelated to the counts are selected at no strength
+            lambda_max = max(lambda_max, np.finfo(float).resolution)
             self.lambdas[alpha_idx, :] = np.logspace(
                 start=np.log10(lambda_max),
                 stop=np.log10(self.eps * lambda_max),
-- 
2.43.0


From d9f7d911b8c74e851e58b556dbcd6ad99427c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 49/55] fix: keep features that do not vary out of Poisson
 coordinate descent

---
 src/pyuoi/linear_model/poisson.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 08fd95e..2e45d1a 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -311,10 +311,14 @@ class Poisson(BaseEstimator):
             # equation 5.44; Hastie, Tibshirani, Wainwright (2016)
             num_update = np.dot(w, x * (z - z_hat)) / n_samples
             den_update = np.dot(w, x**2) / n_samples
-            # replace coefficients sequentially
-            coef[idx] = \
-                self.soft_threshold(num_update, self.l1_ratio * self.alpha) \
-                / (den_update + self.alpha * (1 - self.l1_ratio))
+            den_update += self.alpha * (1 - self.l1_ratio)
+            # replace coefficients sequentially; an unpenalized feature that
+            # is zero throughout does not enter the model
+            if den_update > 0:
+                coef[idx] = self.soft_threshold(
+                    num_update, self.l1_ratio * self.alpha) / den_update
+            else:
+                coef[idx] = 0.
 
         return coef, intercept
 
@@ -322,7 +326,11 @@ class Poisson(BaseEstimator):
         """Perform standardization, if needed, before fitting."""
         if self.standardize:
             self._X_scaler = StandardScaler(with_mean=self.fit_intercept)
+            constant = np.ptp(X, axis=0) == 0
             X = self._X_scaler.fit_transform(X)
+            if self.fit_intercept:
+                # centering leaves rounding errors in constant features
+                X[:, constant] = 0.
         return X, y
 
     def _post_fit(self, X, y):
-- 
2.43.0


From 28b457fae4a922e833a0f0ab9c27a0e2745ec5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 50/55] fix: give overflowed Poisson means a likelihood of
 minus infinity

---
 src/pyuoi/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuoi/utils.py b/src/pyuoi/utils.py
index 59b4a1e..28841d9 100755
--- a/src/pyuoi/utils.py
+++ b/src/pyuoi/utils.py
@@ -62,6 +62,9 @@ def log_likelihood_glm(model, y_true, y_pred):
                 ll = -np.inf
             else:
                 ll = 0.
+        elif np.any(np.isposinf(y_pred)):
+            # an overflowed mean; inf - inf would be NaN
+            ll = -np.inf
         else:
             ll = np.mean(xlogy(y_true, y_pred) - y_pred)
     else:
-- 
2.43.0


From a27e95b90790c9e37ee29bd1b59091b839d82d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 51/55] fix: give the L-BFGS callbacks arrays they may keep

---
 src/pyuoi/lbfgs/_lowlevel.pyx | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pyuoi/lbfgs/_lowlevel.pyx b/src/pyuoi/lbfgs/_lowlevel.pyx
index bc19c3e..6e40e4d 100644
--- a/src/pyuoi/lbfgs/_lowlevel.pyx
+++ b/src/pyuoi/lbfgs/_lowlevel.pyx
@@ -116,12 +116,17 @@ cdef lbfgsfloatval_t call_eval(void *cb_data_v,
     (f, progress_fn, shape, args, errors) = callback_data
     if not errors:
         tshape[0] = <np.npy_intp>n
+        # the callback may keep its arguments: the buffers do not live longer
+        # than the minimization
         x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
-                                               <void *>x)
-        g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
-                                               <void *>g)
+                                               <void *>x).copy()
+        g_buffer = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
+                                                <void *>g)
+        g_array = g_buffer.copy()
         try:
-            return f(x_array.reshape(shape), g_array.reshape(shape), *args)
+            fx = f(x_array.reshape(shape), g_array.reshape(shape), *args)
+            g_buffer[:] = g_array
+            return fx
         except BaseException as error:
             errors.append(error)
 
@@ -150,9 +155,9 @@ cdef int call_progress(void *cb_data_v,
     if progress_fn is not None:
         tshape[0] = <np.npy_intp>n
         x_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
-                                               <void *>x)
+                                               <void *>x).copy()
         g_array = np.PyArray_SimpleNewFromData(1, tshape, np.NPY_DOUBLE,
-                                               <void *>g)
+                                               <void *>g).copy()
 
         try:
             r = progress_fn(x_array.reshape(shape), g_array.reshape(shape), fx,
-- 
2.43.0


From 65660bf3f05967a1e9c0c04fb47a7dd85f22ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 52/55] fix: start Poisson coordinate descent at the mean count

---
 src/pyuoi/linear_model/poisson.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 2e45d1a..4f994d9 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -209,6 +209,11 @@ class Poisson(BaseEstimator):
         # initialization of coef and intercepts
         coef = np.zeros(n_features)
         intercept = 0
+        if self.fit_intercept:
+            # the first update overflows when started far below the mean
+            mean = np.average(y, weights=sample_weight)
+            if mean > 0:
+                intercept = np.log(mean)
         # warm start coefficients, if necessary
         if self.warm_start:
             if hasattr(self, 'coef_'):
-- 
2.43.0


From 735421d96e731671b95b05c2df627cd70633cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 53/55] fix: warm-start the Poisson intercept in the units of
 the standardized features

---
 src/pyuoi/linear_model/poisson.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 4f994d9..65ba34f 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -102,6 +102,9 @@ class Poisson(BaseEstimator):
                 if (hasattr(self, 'intercept_') and self.fit_intercept and
                         np.isfinite(self.intercept_)):
                     intercept = self.intercept_
+                    if self.standardize:
+                        intercept = intercept + np.dot(self._X_scaler.mean_,
+                                                       self.coef_)
 
             if self.fit_intercept:
                 coef = np.append(coef, intercept)
@@ -226,6 +229,9 @@ class Poisson(BaseEstimator):
                 if (hasattr(self, 'intercept_') and
                         np.isfinite(self.intercept_)):
                     intercept = self.intercept_
+                    if self.standardize:
+                        intercept = intercept + np.dot(self._X_scaler.mean_,
+                                                       self.coef_)
 
         # the first sweep covers every coefficient
         full_sweep = True
-- 
2.43.0


From ae52ce1c4da9be096148a7944704dfa68a5e701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 54/55] fix: start warm logistic fits from the previous
 solution in standardized units

The previous coefficients are in the units of the data, the solver works on
standardized features; for features in small units the start was so far away
that the fit failed with NaNs.
---
 src/pyuoi/linear_model/logistic.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pyuoi/linear_model/logistic.py b/src/pyuoi/linear_model/logistic.py
index dbd7c5e..036b8ab 100644
--- a/src/pyuoi/linear_model/logistic.py
+++ b/src/pyuoi/linear_model/logistic.py
@@ -411,10 +411,18 @@ class MaskedCoefLogisticRegression(LogisticRegression):
             warm_start_coef = getattr(self, 'coef_', None)
         else:
             warm_start_coef = None
-        if warm_start_coef is not None and self.fit_intercept:
-            warm_start_coef = np.append(warm_start_coef,
-                                        self.intercept_[:, np.newaxis],
-                                        axis=1)
+        if warm_start_coef is not None:
+            intercept = self.intercept_
+            if self.standardize:
+                # the previous solution is in the units of the data
+                if self.fit_intercept:
+                    intercept = intercept + np.dot(warm_start_coef,
+                                                   self._X_scaler.mean_)
+                warm_start_coef = warm_start_coef * self._X_scaler.scale_
+            if self.fit_intercept:
+                warm_start_coef = np.append(warm_start_coef,
+                                            intercept[:, np.newaxis],
+                                            axis=1)
 
         self.intercept_ = np.zeros(n_classes)
 
-- 
2.43.0


From 51eb96fd0af0d701e2656ab63d7bbfd3794f521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 55/55] fix: ignore warm starts worse than the null model in
 Poisson coordinate descent

A solution of data with far smaller counts made the first update overflow,
and the coefficients and the intercept NaN.
---
 src/pyuoi/linear_model/poisson.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pyuoi/linear_model/poisson.py b/src/pyuoi/linear_model/poisson.py
index 65ba34f..f51a704 100644
--- a/src/pyuoi/linear_model/poisson.py
+++ b/src/pyuoi/linear_model/poisson.py
@@ -232,6 +232,16 @@ class Poisson(BaseEstimator):
                     if self.standardize:
                         intercept = intercept + np.dot(self._X_scaler.mean_,
                                                        self.coef_)
+                # so do updates from a solution which fits these data worse
+                # than the null model
+                if mean > 0:
+                    eta = intercept + np.dot(X, coef)
+                    null = np.log(mean)
+                    with np.errstate(over='ignore', invalid='ignore'):
+                        loss = np.dot(sample_weight, np.exp(eta) - y * eta)
+                    if not loss <= np.dot(sample_weight, mean - y * null):
+                        coef = np.zeros(n_features)
+                        intercept = null
 
         # the first sweep covers every coefficient
         full_sweep = True
-- 
2.43.0

