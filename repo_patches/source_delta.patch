From 34f0ebeb64a845485196b6f9fda1e26de13e8824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 01/29] fix: treat all-zero pending and ignored points as
 excluded points

np.any() is False for a matrix of zeros, so a pending or ignored point at the origin was suggested again.
---
 GPyOpt/util/duplicate_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/util/duplicate_manager.py b/GPyOpt/util/duplicate_manager.py
index fe1807c..bc056d1 100644
--- a/GPyOpt/util/duplicate_manager.py
+++ b/GPyOpt/util/duplicate_manager.py
@@ -21,10 +21,10 @@ class DuplicateManager(object):
         self.unique_points = set()
         self.unique_points.update(tuple(x.flatten()) for x in zipped_X)
 
-        if np.any(pending_zipped_X):
+        if pending_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in pending_zipped_X)
 
-        if np.any(ignored_zipped_X):
+        if ignored_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in ignored_zipped_X)
 
 
-- 
2.43.0


From 6e0f7048a3a7eecb6195e2cf05d75e7c0c14a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 02/29] fix: keep an all-zero acquisition optimum in
 de-duplicated batches

---
 GPyOpt/core/evaluators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/evaluators/base.py b/GPyOpt/core/evaluators/base.py
index d2ab81f..8cfa11f 100644
--- a/GPyOpt/core/evaluators/base.py
+++ b/GPyOpt/core/evaluators/base.py
@@ -57,7 +57,7 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
 
         x0 = self.initialize_batch(duplicate_manager=duplicate_manager, context_manager = self.context_manager)
 
-        if np.any(x0):
+        if x0 is not None:
             batch.append(x0)
             already_suggested_points.add(self.zip_and_tuple(x0))
 
-- 
2.43.0


From a917ac3807966b511bd0eb458f432c5efa58722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 03/29] fix: never return more points than the batch size

A de-duplicated random batch of size one already holds the acquisition optimum before the loop, so the equality test after the first append never fired.
---
 GPyOpt/core/evaluators/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/core/evaluators/base.py b/GPyOpt/core/evaluators/base.py
index 8cfa11f..77ad87f 100644
--- a/GPyOpt/core/evaluators/base.py
+++ b/GPyOpt/core/evaluators/base.py
@@ -62,6 +62,9 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
             already_suggested_points.add(self.zip_and_tuple(x0))
 
         for a in anchor_points:
+            if len(batch) >= self.batch_size:
+                break
+
             x = self.optimize_anchor_point(a, duplicate_manager=duplicate_manager, context_manager = self.context_manager)
 
             # We first try to add the optimized anchor point; if we cannot, we then try the initial anchor point.
@@ -77,9 +80,6 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
                     batch.append(a)
                     already_suggested_points.add(zipped_a)
 
-            if len(batch) == self.batch_size:
-                break
-
         if len(batch) < self.batch_size:
             # Note that the case where anchor_points is empty is handled in self.get_anchor_points that would throw a FullyExploredOptimizationDomainError
             print("Warning: the batch of requested size {} could not be entirely filled in (only {} points)".format(self.batch_size, len(batch)))
-- 
2.43.0


From 9a98db90805f1f7f92b1dacd7432d7d592f398d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 04/29] fix: grid design on a domain without continuous
 variables

The integer root of order zero divided by zero; as in the other designs, the remaining variables are sampled at random.
---
 GPyOpt/experiment_design/grid_design.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPyOpt/experiment_design/grid_design.py b/GPyOpt/experiment_design/grid_design.py
index 9b82d85..3373049 100644
--- a/GPyOpt/experiment_design/grid_design.py
+++ b/GPyOpt/experiment_design/grid_design.py
@@ -20,6 +20,9 @@ class GridDesign(ExperimentDesign):
         # TODO: log this
         print('Note: in grid designs the total number of generated points is the smallest closest integer of n^d to the selected amount of points')
         continuous_dims = len(self.space.get_continuous_dims())
+        if continuous_dims == 0:
+            # there is no grid to build, all variables are sampled randomly
+            return init_points_count
         self.data_per_dimension = iroot(continuous_dims, init_points_count)
         return self.data_per_dimension**continuous_dims
 
-- 
2.43.0


From 5d27c522563167dd50f095bc968b008829ac8946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 05/29] fix: keep the cost model that the optimizer was given

BO wrapped an existing CostModel into a second one of type 'User defined cost', so with
cost_withGradients='evaluation_time' the model behind the acquisition was never updated and
its first use crashed. The times of the initial evaluations now reach the cost model too.
---
 GPyOpt/core/bo.py                       | 2 +-
 GPyOpt/core/task/cost.py                | 4 ++++
 GPyOpt/methods/bayesian_optimization.py | 6 ++++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 8fb0d93..3d098e4 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -50,7 +50,7 @@ class BO(object):
         self.model_update_interval = model_update_interval
         self.X = X_init
         self.Y = Y_init
-        self.cost = CostModel(cost)
+        self.cost = cost if isinstance(cost, CostModel) else CostModel(cost)
         self.normalization_type = 'stats' ## not added in the API
         self.de_duplication = de_duplication
         self.model_parameters_iterations = None
diff --git a/GPyOpt/core/task/cost.py b/GPyOpt/core/task/cost.py
index 946cc05..e319a1b 100644
--- a/GPyOpt/core/task/cost.py
+++ b/GPyOpt/core/task/cost.py
@@ -48,7 +48,11 @@ class  CostModel(object):
     def _cost_gp_withGradients(self,x):
         """
         Predicts the time cost and its gradient of evaluating the function at x.
+        The cost is constant until the first evaluation time is available.
         """
+        if self.num_updates == 0:
+            return constant_cost_withGradients(x)
+
         m, _, dmdx, _= self.cost_model.predict_withGradients(x)
         return np.exp(m), np.exp(m)*dmdx
 
diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index c3ad58b..2b6636b 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -192,10 +192,12 @@ class BayesianOptimization(BO):
         # Case 1:
         if self.X is None:
             self.X = initial_design(self.initial_design_type, self.space, self.initial_design_numdata)
-            self.Y, _ = self.objective.evaluate(self.X)
+            self.Y, cost_values = self.objective.evaluate(self.X)
+            self.cost.update_cost_model(self.X, cost_values)
         # Case 2
         elif self.X is not None and self.Y is None:
-            self.Y, _ = self.objective.evaluate(self.X)
+            self.Y, cost_values = self.objective.evaluate(self.X)
+            self.cost.update_cost_model(self.X, cost_values)
 
     def _sign(self,f):
          if self.maximize:
-- 
2.43.0


From 9f7f638732842b9662be295ef2d431143354ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 06/29] fix: accept the column of costs that parallel
 evaluation returns

A column of n costs was turned into one row, which does not match the n inputs of the cost model.
---
 GPyOpt/core/task/cost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/cost.py b/GPyOpt/core/task/cost.py
index e319a1b..8d5cabd 100644
--- a/GPyOpt/core/task/cost.py
+++ b/GPyOpt/core/task/cost.py
@@ -65,7 +65,7 @@ class  CostModel(object):
         """
 
         if self.cost_type == 'evaluation_time':
-            cost_evals = np.log(np.atleast_2d(np.asarray(cost_x)).T)
+            cost_evals = np.log(np.asarray(cost_x).reshape(-1,1))
 
             if self.num_updates == 0:
                 X_all = x
-- 
2.43.0


From c3301ac1fd21bcac43d1553fa3e0868b105bb8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 07/29] fix: train the cost model on encoded inputs

The acquisition evaluates the cost at model inputs, which have one column per category; the cost model was trained on the unencoded points.
---
 GPyOpt/core/bo.py                       | 4 ++--
 GPyOpt/methods/bayesian_optimization.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 3d098e4..28549d3 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -126,7 +126,7 @@ class BO(object):
         if self.X is not None and self.Y is None:
             self.Y, cost_values = self.objective.evaluate(self.X)
             if self.cost.cost_type == 'evaluation_time':
-                self.cost.update_cost_model(self.X, cost_values)
+                self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
         # --- Initialize iterations and running time
         self.time_zero = time.time()
@@ -200,7 +200,7 @@ class BO(object):
         Evaluates the objective
         """
         self.Y_new, cost_new = self.objective.evaluate(self.suggested_sample)
-        self.cost.update_cost_model(self.suggested_sample, cost_new)
+        self.cost.update_cost_model(self.space.unzip_inputs(self.suggested_sample), cost_new)
         self.Y = np.vstack((self.Y,self.Y_new))
 
     def _compute_results(self):
diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index 2b6636b..19c66c3 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -193,11 +193,11 @@ class BayesianOptimization(BO):
         if self.X is None:
             self.X = initial_design(self.initial_design_type, self.space, self.initial_design_numdata)
             self.Y, cost_values = self.objective.evaluate(self.X)
-            self.cost.update_cost_model(self.X, cost_values)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
         # Case 2
         elif self.X is not None and self.Y is None:
             self.Y, cost_values = self.objective.evaluate(self.X)
-            self.cost.update_cost_model(self.X, cost_values)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
     def _sign(self,f):
          if self.maximize:
-- 
2.43.0


From 0dfdb017d5817104b42c2f08faf149d45c2a55ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 08/29] fix: copy of the MCMC model

GPModel_MCMC.copy built a GPModel with arguments GPModel does not take, so it always raised.
---
 GPyOpt/models/gpmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 9310be8..27289b2 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -328,7 +328,7 @@ class GPModel_MCMC(BOModel):
         Makes a safe copy of the model.
         """
 
-        copied_model = GPModel( kernel = self.model.kern.copy(),
+        copied_model = GPModel_MCMC( kernel = self.model.kern.copy(),
                                 noise_var= self.noise_var ,
                                 exact_feval= self.exact_feval,
                                 n_samples = self.n_samples,
-- 
2.43.0


From 081cc6751744adf1d5bf76e1ceeabba3b8b10bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 09/29] fix: keep sparsity and mean function in the copy of a
 GP model

---
 GPyOpt/models/gpmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 27289b2..6e87eea 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -151,8 +151,11 @@ class GPModel(BOModel):
                             optimizer=self.optimizer,
                             max_iters=self.max_iters,
                             optimize_restarts=self.optimize_restarts,
+                            sparse=self.sparse,
+                            num_inducing=self.num_inducing,
                             verbose=self.verbose,
-                            ARD=self.ARD)
+                            ARD=self.ARD,
+                            mean_function=None if self.mean_function is None else self.mean_function.copy())
 
         copied_model._create_model(self.model.X,self.model.Y)
         copied_model.updateModel(self.model.X,self.model.Y, None, None)
-- 
2.43.0


From d17b865a13c063607eb19645fa8654c868d2223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 10/29] fix: random design with several bandit variables

The columns of a bandit variable were addressed by its position in the list of variables, leaving columns uninitialised when there is more than one bandit variable.
---
 GPyOpt/experiment_design/random_design.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/experiment_design/random_design.py b/GPyOpt/experiment_design/random_design.py
index 1b6f8e6..4c54b9a 100644
--- a/GPyOpt/experiment_design/random_design.py
+++ b/GPyOpt/experiment_design/random_design.py
@@ -40,7 +40,12 @@ class RandomDesign(ExperimentDesign):
         """
         init_points_count = samples.shape[0]
 
-        for (idx, var) in enumerate(self.space.space_expanded):
+        column = 0
+        for var in self.space.space_expanded:
+            idx = column
+            # bandit variables take several adjacent columns
+            column += var.dimensionality
+
             if isinstance(var, DiscreteVariable) or isinstance(var, CategoricalVariable) :
                 sample_var = np.atleast_2d(np.random.choice(var.domain, init_points_count))
                 samples[:,idx] = sample_var.flatten()
-- 
2.43.0


From 73875c6412f273defee299590decd471dc8bbce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 11/29] fix: accept bandit arms given as a list of tuples

This is the documented form, but the arms were used as a two-dimensional array without conversion.
---
 GPyOpt/core/task/variables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPyOpt/core/task/variables.py b/GPyOpt/core/task/variables.py
index 2681f2c..3587576 100644
--- a/GPyOpt/core/task/variables.py
+++ b/GPyOpt/core/task/variables.py
@@ -122,6 +122,7 @@ class BanditVariable(Variable):
         if not np.all(dims == dims[0]):
             raise InvalidConfigError('The dimensionalities of the bandit variable ' + name + ' have to be the same!')
 
+        domain = np.asarray(domain)
         if dimensionality is None:
             dimensionality = len(domain[0])
 
-- 
2.43.0


From d59869354442b3b40a04bbe3fa42d2a99aaf1e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 12/29] fix: rounding on domains with several bandit variables

round() returned a nested list, so the arms of several variables were stacked as rows instead of being joined into one point.
---
 GPyOpt/core/task/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/variables.py b/GPyOpt/core/task/variables.py
index 3587576..e1d148f 100644
--- a/GPyOpt/core/task/variables.py
+++ b/GPyOpt/core/task/variables.py
@@ -157,7 +157,7 @@ class BanditVariable(Variable):
         """
         distances = np.linalg.norm(np.array(self.domain) - value_array, axis=1)
         idx = np.argmin(distances)
-        return [self.domain[idx]]
+        return list(self.domain[idx])
 
 
 class DiscreteVariable(Variable):
-- 
2.43.0


From 14bd47bbfcc1da1d7e7b5a04fa47b5b4474dc3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 13/29] fix: gradient of the local penalizers

The derivative of the distance to a penalized point was missing its direction, so the gradient had one column and the wrong sign on one side of the point.
---
 GPyOpt/acquisitions/LP.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index 0686ec5..59c050d 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -99,7 +99,8 @@ class AcquisitionLP(AcquisitionBase):
 
         d = 1./(s_x0*np.sqrt(2*np.pi)*h_func)*np.exp(-np.square(z)/2)/nm
         d[h_func<1e-50] = 0.
-        d = d[:,:,None]
+        # gradient of the distance to each centre is the unit vector dx/nm
+        d = d[:,:,None]*dx
         return d.sum(axis=1)
 
     def acquisition_function(self, x):
-- 
2.43.0


From aabdfec9edf109531b13b18a6044e736c9c251b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 14/29] fix: evaluate the objective on the configured number of
 cores

The batch size was passed as the number of cores, and num_cores was ignored.
---
 GPyOpt/methods/bayesian_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index 19c66c3..d2b8ad1 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -103,7 +103,7 @@ class BayesianOptimization(BO):
         self.num_cores = num_cores
         if f is not None:
             self.f = self._sign(f)
-            self.objective = SingleObjective(self.f, self.batch_size,self.objective_name)
+            self.objective = SingleObjective(self.f, self.num_cores, self.objective_name)
         else:
             self.f = None
             self.objective = None
-- 
2.43.0


From 6905e2ced832b57d1a2a925eab8d9cf7f54cf144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 15/29] fix: local penalization with a user supplied penalized
 acquisition

---
 GPyOpt/util/arguments_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/util/arguments_manager.py b/GPyOpt/util/arguments_manager.py
index 7bbfc55..9cfe350 100644
--- a/GPyOpt/util/arguments_manager.py
+++ b/GPyOpt/util/arguments_manager.py
@@ -33,7 +33,9 @@ class ArgumentsManager(object):
             if model_type not in ['GP', 'sparseGP', 'GP_MCMC', 'warpedGP']:
                 raise InvalidConfigError('local_penalization evaluator can only be used with GP models')
 
-            if not isinstance(acquisition, AcquisitionLP):
+            if isinstance(acquisition, AcquisitionLP):
+                acquisition_lp = acquisition
+            else:
                 acquisition_lp = AcquisitionLP(model, space, acquisition_optimizer, acquisition, acquisition_transformation)
             return LocalPenalization(acquisition_lp, batch_size)
 
-- 
2.43.0


From 6d0fb2ce509c88a94a6a386e284ded431fcd37bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 16/29] fix: recognise an abnormal L-BFGS termination on
 current scipy

scipy reports the task as text, so the comparison with bytes never matched and a failed line search result was kept.
---
 GPyOpt/optimization/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index 5ca8f37..40b59e9 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -51,7 +51,10 @@ class OptLbfgs(Optimizer):
             res = scipy.optimize.fmin_l_bfgs_b(_f_df, x0=x0, bounds=self.bounds, maxiter=self.maxiter)
 
         ### --- We check here if the the optimizer moved. If it didn't we report x0 and f(x0) as scipy can return NaNs
-        if res[2]['task'] == b'ABNORMAL_TERMINATION_IN_LNSRCH':
+        task = res[2]['task']
+        if isinstance(task, bytes):
+            task = task.decode()
+        if task.startswith('ABNORMAL'):
             result_x  = np.atleast_2d(x0)
             result_fx =  np.atleast_2d(f(x0))
         else:
-- 
2.43.0


From e75f0eb15a41cca759496ec857874d790ce611cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 17/29] fix: candidates on a constrained domain with a context

The constraints were evaluated on points without the fixed variables, that is, on the wrong columns or beyond the last one.
---
 GPyOpt/optimization/anchor_points_generator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/optimization/anchor_points_generator.py b/GPyOpt/optimization/anchor_points_generator.py
index 22ca1c3..96a35b3 100644
--- a/GPyOpt/optimization/anchor_points_generator.py
+++ b/GPyOpt/optimization/anchor_points_generator.py
@@ -27,9 +27,12 @@ class AnchorPointsGenerator(object):
         ## --- We use the context handler to remove duplicates only over the non-context variables
         if context_manager and not self.space._has_bandit():
             space_configuration_without_context = [self.space.config_space_expanded[idx] for idx in context_manager.nocontext_index_obj]
-            space = Design_space(space_configuration_without_context, context_manager.space.constraints)
+            # The constraints refer to all the variables: if some are fixed, they are checked below, once the context has been added
+            check_constraints = len(context_manager.context_index) > 0 and context_manager.space.has_constraints()
+            space = Design_space(space_configuration_without_context, None if check_constraints else context_manager.space.constraints)
             add_context = lambda x : context_manager._expand_vector(x)
         else:
+            check_constraints = False
             space = self.space
             add_context = lambda x: x
 
@@ -45,6 +48,9 @@ class AnchorPointsGenerator(object):
         ## --- Add context variables
         X = add_context(X)
 
+        if check_constraints:
+            X = X[self.space.indicator_constraints(self.space.zip_inputs(X)).flatten() == 1, :]
+
         if duplicate_manager:
             is_duplicate = duplicate_manager.is_unzipped_x_duplicate
         else:
-- 
2.43.0


From bb3260b284c49f1965ad1111dfd0a69e1e85f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 18/29] fix: de-duplication in local penalization batches

The duplicate manager was ignored, so evaluated, pending and ignored points could be suggested again.
---
 GPyOpt/core/evaluators/batch_local_penalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/evaluators/batch_local_penalization.py b/GPyOpt/core/evaluators/batch_local_penalization.py
index e527581..a85cf79 100644
--- a/GPyOpt/core/evaluators/batch_local_penalization.py
+++ b/GPyOpt/core/evaluators/batch_local_penalization.py
@@ -29,7 +29,7 @@ class LocalPenalization(EvaluatorBase):
         self.acquisition.update_batches(None,None,None)
 
         # --- GET first element in the batch
-        X_batch = self.acquisition.optimize()[0]
+        X_batch = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
         k=1
 
         if self.batch_size >1:
@@ -40,7 +40,7 @@ class LocalPenalization(EvaluatorBase):
         # --- GET the remaining elements
         while k<self.batch_size:
             self.acquisition.update_batches(X_batch,L,Min)
-            new_sample = self.acquisition.optimize()[0]
+            new_sample = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
             X_batch = np.vstack((X_batch,new_sample))
             k +=1
 
-- 
2.43.0


From 0570b4f26c8d0fae34e75281baad88a109522bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 19/29] fix: do not hang when a parallel evaluation fails

The parent kept the sending end of every pipe open and waited forever for a worker that had raised; it now falls back to the sequential evaluation.
---
 GPyOpt/core/task/objective.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index 8118515..4b69705 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -89,6 +89,8 @@ class SingleObjective(Objective):
         pipe = [Pipe() for i in range(self.n_procs)]
         proc = [Process(target=spawn(self._eval_func),args=(c,k)) for k,(p,c) in zip(divided_samples,pipe)]
         [p.start() for p in proc]
+        # only the workers keep the sending ends, so that receiving from a failed one raises an error instead of blocking
+        [c.close() for (p,c) in pipe]
         [p.join() for p in proc]
 
         # --- time of evaluation is set to constant (=1). This is one of the hypothesis of synchronous batch methods.
-- 
2.43.0


From c4697210f696f73fc37390d6aa588e394efaf855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 20/29] fix: reject unknown model and evaluator names

The chooser returned None, which failed much later or not at all.
---
 GPyOpt/util/arguments_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GPyOpt/util/arguments_manager.py b/GPyOpt/util/arguments_manager.py
index 9cfe350..3c49d12 100644
--- a/GPyOpt/util/arguments_manager.py
+++ b/GPyOpt/util/arguments_manager.py
@@ -39,6 +39,8 @@ class ArgumentsManager(object):
                 acquisition_lp = AcquisitionLP(model, space, acquisition_optimizer, acquisition, acquisition_transformation)
             return LocalPenalization(acquisition_lp, batch_size)
 
+        else:
+            raise InvalidConfigError('Invalid evaluator selected.')
 
 
     def acquisition_creator(self, acquisition_type, model, space, acquisition_optimizer, cost_withGradients):
@@ -142,3 +144,6 @@ class ArgumentsManager(object):
             return InputWarpedGPModel(space, input_warping_function, kernel, noise_var,
                                       exact_feval, model_optimizer_type, max_iters,
                                       optimize_restarts, verbosity_model, ARD)
+
+        else:
+            raise InvalidConfigError('Invalid model selected.')
-- 
2.43.0


From 8bebf9708318a198063a1c56731268c2643050e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 21/29] fix: state the presence of constraints in the report

A list of constraints never equals True, so the report always said False.
---
 GPyOpt/core/bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 28549d3..ccb5db4 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -342,7 +342,7 @@ class BO(object):
             file.write('Number bandits               ' + str(self.space.get_bandit().shape[0]) +'\n')
             file.write('Noiseless evaluations:       ' + str(self.exact_feval) +'\n')
             file.write('Cost used:                   ' + self.cost.cost_type +'\n')
-            file.write('Constraints:                  ' + str(self.constraints==True) +'\n')
+            file.write('Constraints:                  ' + str(self.space.has_constraints()) +'\n')
 
             file.write('\n')
             file.write('------------------------------' + ' Optimization set up ' + '---------------------------------\n')
-- 
2.43.0


From 55817427d0b308f6f456295a2c6baadcf716f659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 22/29] fix: write the report of a modular optimization

The report used settings that only BayesianOptimization stores, so asking for one raised an AttributeError. The acquisition lines, written twice, are kept once.
---
 GPyOpt/core/bo.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index ccb5db4..d5b6324 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -316,6 +316,10 @@ class BO(object):
         :param report_file: name of the file in which the results of the optimization are saved.
         """
 
+        # --- settings that are unknown when the components were built by the user (modular optimization)
+        def setting(name):
+            return str(getattr(self, name, 'User defined'))
+
         with open(report_file,'w') as file:
             import GPyOpt
             import time
@@ -325,40 +329,37 @@ class BO(object):
             file.write('Date and time:               ' + time.strftime("%c")+'\n')
             if self.num_acquisitions==self.max_iter:
                 file.write('Optimization completed:      ' +'YES, ' + str(self.X.shape[0]).strip('[]') + ' samples collected.\n')
-                file.write('Number initial samples:      ' + str(self.initial_design_numdata) +' \n')
+                file.write('Number initial samples:      ' + setting('initial_design_numdata') +' \n')
             else:
                 file.write('Optimization completed:      ' +'NO,' + str(self.X.shape[0]).strip('[]') + ' samples collected.\n')
-                file.write('Number initial samples:      ' + str(self.initial_design_numdata) +' \n')
+                file.write('Number initial samples:      ' + setting('initial_design_numdata') +' \n')
 
             file.write('Tolerance:                   ' + str(self.eps) + '.\n')
             file.write('Optimization time:           ' + str(self.cum_time).strip('[]') +' seconds.\n')
 
             file.write('\n')
             file.write('--------------------------------' + ' Problem set up ' + '------------------------------------\n')
-            file.write('Problem name:                ' + self.objective_name +'\n')
+            file.write('Problem name:                ' + setting('objective_name') +'\n')
             file.write('Problem dimension:           ' + str(self.space.dimensionality) +'\n')
             file.write('Number continuous variables  ' + str(len(self.space.get_continuous_dims()) ) +'\n')
             file.write('Number discrete variables    ' + str(len(self.space.get_discrete_dims())) +'\n')
             file.write('Number bandits               ' + str(self.space.get_bandit().shape[0]) +'\n')
-            file.write('Noiseless evaluations:       ' + str(self.exact_feval) +'\n')
+            file.write('Noiseless evaluations:       ' + setting('exact_feval') +'\n')
             file.write('Cost used:                   ' + self.cost.cost_type +'\n')
             file.write('Constraints:                  ' + str(self.space.has_constraints()) +'\n')
 
             file.write('\n')
             file.write('------------------------------' + ' Optimization set up ' + '---------------------------------\n')
             file.write('Normalized outputs:          ' + str(self.normalize_Y) + '\n')
-            file.write('Model type:                  ' + str(self.model_type).strip('[]') + '\n')
+            file.write('Model type:                  ' + setting('model_type').strip('[]') + '\n')
             file.write('Model update interval:       ' + str(self.model_update_interval) + '\n')
-            file.write('Acquisition type:            ' + str(self.acquisition_type).strip('[]') + '\n')
-            file.write('Acquisition optimizer:       ' + str(self.acquisition_optimizer.optimizer_name).strip('[]') + '\n')
-
-            file.write('Acquisition type:            ' + str(self.acquisition_type).strip('[]') + '\n')
+            file.write('Acquisition type:            ' + setting('acquisition_type').strip('[]') + '\n')
             if hasattr(self, 'acquisition_optimizer') and hasattr(self.acquisition_optimizer, 'optimizer_name'):
                 file.write('Acquisition optimizer:       ' + str(self.acquisition_optimizer.optimizer_name).strip('[]') + '\n')
             else:
                 file.write('Acquisition optimizer:       None\n')
-            file.write('Evaluator type (batch size): ' + str(self.evaluator_type).strip('[]') + ' (' + str(self.batch_size) + ')' + '\n')
-            file.write('Cores used:                  ' + str(self.num_cores) + '\n')
+            file.write('Evaluator type (batch size): ' + setting('evaluator_type').strip('[]') + ' (' + setting('batch_size') + ')' + '\n')
+            file.write('Cores used:                  ' + setting('num_cores') + '\n')
 
             file.write('\n')
             file.write('---------------------------------' + ' Summary ' + '------------------------------------------\n')
-- 
2.43.0


From ce8e6239c4f4dd7c0375418830ea6346e974825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:59 +0000
Subject: [PATCH 23/29] fix: variable type queries on domains with
 multidimensional bandits

A bandit variable is one entry of the expanded space but counts with all its columns in the dimensionality, so listing the continuous or discrete dimensions ran past the end.
---
 GPyOpt/core/task/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index e5f0b6a..c91c9da 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -365,7 +365,7 @@ class Design_space(object):
         Returns the dimension of the continuous components of the domain.
         """
         continuous_dims = []
-        for i in range(self.dimensionality):
+        for i in range(len(self.space_expanded)):
             if self.space_expanded[i].type == 'continuous':
                 continuous_dims += [i]
         return continuous_dims
@@ -400,7 +400,7 @@ class Design_space(object):
         Returns the dimension of the discrete components of the domain.
         """
         discrete_dims = []
-        for i in range(self.dimensionality):
+        for i in range(len(self.space_expanded)):
             if self.space_expanded[i].type == 'discrete':
                 discrete_dims += [i]
         return discrete_dims
-- 
2.43.0


From 04e2ef8e7cc411d9c74bb69125c94e579feca4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:30 +0000
Subject: [PATCH 24/29] fix: constant outputs were standardised to +-1 when the
 mean was subject to rounding

---
 GPyOpt/util/general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/util/general.py b/GPyOpt/util/general.py
index b280496..9e1a625 100644
--- a/GPyOpt/util/general.py
+++ b/GPyOpt/util/general.py
@@ -219,7 +219,8 @@ def normalize(Y, normalization_type='stats'):
     if normalization_type == 'stats':
         Y_norm = Y - Y.mean()
         std = Y.std()
-        if std > 0:
+        # the sdev. of constant data may differ from zero because of rounding
+        if std > 0 and np.ptp(Y) > 0:
             Y_norm /= std
     elif normalization_type == 'maxmin':
         Y_norm = Y - Y.min()
-- 
2.43.0


From 39cda3f137bdd4c11f0cf7031990ad59b9265d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:22 +0000
Subject: [PATCH 25/29] fix: evaluating a large batch on several cores
 deadlocked

The workers were joined before their results were received, but a worker cannot end while its result does not fit in the pipe.
---
 GPyOpt/core/task/objective.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index 4b69705..4c7e3ec 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -91,14 +91,16 @@ class SingleObjective(Objective):
         [p.start() for p in proc]
         # only the workers keep the sending ends, so that receiving from a failed one raises an error instead of blocking
         [c.close() for (p,c) in pipe]
+        # results are received before joining, since a worker cannot finish while its result does not fit in the pipe
+        results = [p.recv()[0] for (p,c) in pipe] # throw away costs
         [p.join() for p in proc]
 
         # --- time of evaluation is set to constant (=1). This is one of the hypothesis of synchronous batch methods.
         f_evals = np.zeros((x.shape[0],1))
         cost_evals = np.ones((x.shape[0],1))
         i = 0
-        for (p,c) in pipe:
-            f_evals[i::self.n_procs] = p.recv()[0] # throw away costs
+        for f_eval in results:
+            f_evals[i::self.n_procs] = f_eval
             i += 1
         return f_evals, cost_evals
 
-- 
2.43.0


From 7ce9e432910654b7e40e8c238c050716029183c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:11 +0000
Subject: [PATCH 26/29] fix: the first recorded surrogate state was overwritten
 by the next one

get_model_parameters returned a view of the parameters of the regression, so the first line of the models file changed when the surrogate was updated.
---
 GPyOpt/models/gpmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 6e87eea..220a9a3 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -165,7 +165,7 @@ class GPModel(BOModel):
         """
         Returns a 2D numpy array with the parameters of the model
         """
-        return np.atleast_2d(self.model[:])
+        return np.atleast_2d(self.model[:]).copy()
 
     def get_model_parameters_names(self):
         """
@@ -349,7 +349,7 @@ class GPModel_MCMC(BOModel):
         """
         Returns a 2D numpy array with the parameters of the model
         """
-        return np.atleast_2d(self.model[:])
+        return np.atleast_2d(self.model[:]).copy()
 
     def get_model_parameters_names(self):
         """
-- 
2.43.0


From b3e3127c33b595dc434a432138ae3b3d61cd81b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:22 +0000
Subject: [PATCH 27/29] fix: write the report when there are several bandits
 with different dimensionalities

---
 GPyOpt/core/bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index d5b6324..d946c79 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -343,7 +343,7 @@ class BO(object):
             file.write('Problem dimension:           ' + str(self.space.dimensionality) +'\n')
             file.write('Number continuous variables  ' + str(len(self.space.get_continuous_dims()) ) +'\n')
             file.write('Number discrete variables    ' + str(len(self.space.get_discrete_dims())) +'\n')
-            file.write('Number bandits               ' + str(self.space.get_bandit().shape[0]) +'\n')
+            file.write('Number bandits               ' + str(sum(len(v.domain) for v in self.space.space_expanded if v.type == 'bandit')) +'\n')
             file.write('Noiseless evaluations:       ' + setting('exact_feval') +'\n')
             file.write('Cost used:                   ' + self.cost.cost_type +'\n')
             file.write('Constraints:                  ' + str(self.space.has_constraints()) +'\n')
-- 
2.43.0


From d98edb1ed77f6058805dbf78eeeb9aa60ae2c0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:29 +0000
Subject: [PATCH 28/29] fix: a nested option given over a plain default is
 merged instead of raising

---
 GPyOpt/interface/config_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/interface/config_parser.py b/GPyOpt/interface/config_parser.py
index 7f3bdc6..cb97225 100644
--- a/GPyOpt/interface/config_parser.py
+++ b/GPyOpt/interface/config_parser.py
@@ -66,7 +66,7 @@ def update_config(config_new, config_default):
     '''
     if any([isinstance(v, dict) for v in list(config_new.values())]):
         for k,v in list(config_new.items()):
-            if isinstance(v,dict) and k in config_default:
+            if isinstance(v,dict) and isinstance(config_default.get(k),dict):
                 update_config(config_new[k],config_default[k])
             else:
                 config_default[k] = v
-- 
2.43.0


From 3219df9370480e592c894445773e18910b152106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:15 +0000
Subject: [PATCH 29/29] fix: posterior covariance between two sets of points
 without likelihood noise (entropy search could not be evaluated)

---
 GPyOpt/models/gpmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 220a9a3..8baee76 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -177,7 +177,8 @@ class GPModel(BOModel):
         """
         Given the current posterior, computes the covariance between two sets of points.
         """
-        return self.model.posterior_covariance_between_points(x1, x2)
+        # covariance of the latent function: the two sets of points may differ in size, so no noise can be added to it
+        return self.model.posterior.covariance_between_points(self.model.kern, self.model.X, x1, x2)
 
 
 class GPModel_MCMC(BOModel):
-- 
2.43.0

