From 9aa04ffd820ed5447c6ec5ff1ea4dc4baa63acd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:59 +0000
Subject: [PATCH 01/65] fix: honour pending/ignored configurations whose
 entries are all zero

---
 GPyOpt/util/duplicate_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/util/duplicate_manager.py b/GPyOpt/util/duplicate_manager.py
index fe1807c..bc056d1 100644
--- a/GPyOpt/util/duplicate_manager.py
+++ b/GPyOpt/util/duplicate_manager.py
@@ -21,10 +21,10 @@ class DuplicateManager(object):
         self.unique_points = set()
         self.unique_points.update(tuple(x.flatten()) for x in zipped_X)
 
-        if np.any(pending_zipped_X):
+        if pending_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in pending_zipped_X)
 
-        if np.any(ignored_zipped_X):
+        if ignored_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in ignored_zipped_X)
 
 
-- 
2.43.0


From 696434818194b18acdfa20aa401d922b07f388d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:59 +0000
Subject: [PATCH 02/65] fix: keep the optimized first batch element when all
 its coordinates are zero

---
 GPyOpt/core/evaluators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/evaluators/base.py b/GPyOpt/core/evaluators/base.py
index d2ab81f..8cfa11f 100644
--- a/GPyOpt/core/evaluators/base.py
+++ b/GPyOpt/core/evaluators/base.py
@@ -57,7 +57,7 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
 
         x0 = self.initialize_batch(duplicate_manager=duplicate_manager, context_manager = self.context_manager)
 
-        if np.any(x0):
+        if x0 is not None:
             batch.append(x0)
             already_suggested_points.add(self.zip_and_tuple(x0))
 
-- 
2.43.0


From 95be91973238b4fbc1de5e259f9443f9cf3331cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:59 +0000
Subject: [PATCH 03/65] fix: accept a user supplied local penalization
 acquisition

---
 GPyOpt/util/arguments_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPyOpt/util/arguments_manager.py b/GPyOpt/util/arguments_manager.py
index 7bbfc55..2745dc4 100644
--- a/GPyOpt/util/arguments_manager.py
+++ b/GPyOpt/util/arguments_manager.py
@@ -33,6 +33,7 @@ class ArgumentsManager(object):
             if model_type not in ['GP', 'sparseGP', 'GP_MCMC', 'warpedGP']:
                 raise InvalidConfigError('local_penalization evaluator can only be used with GP models')
 
+            acquisition_lp = acquisition
             if not isinstance(acquisition, AcquisitionLP):
                 acquisition_lp = AcquisitionLP(model, space, acquisition_optimizer, acquisition, acquisition_transformation)
             return LocalPenalization(acquisition_lp, batch_size)
-- 
2.43.0


From 2fb3515dc638538fd277cf9d5b928c9ce36faf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:34 +0000
Subject: [PATCH 04/65] fix: accept evaluation costs given as a column
 (parallel evaluations) in the cost model

---
 GPyOpt/core/task/cost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/cost.py b/GPyOpt/core/task/cost.py
index 946cc05..a5fa554 100644
--- a/GPyOpt/core/task/cost.py
+++ b/GPyOpt/core/task/cost.py
@@ -61,7 +61,7 @@ class  CostModel(object):
         """
 
         if self.cost_type == 'evaluation_time':
-            cost_evals = np.log(np.atleast_2d(np.asarray(cost_x)).T)
+            cost_evals = np.log(np.asarray(cost_x).reshape(-1, 1))
 
             if self.num_updates == 0:
                 X_all = x
-- 
2.43.0


From 74d66bf8a83d3a96327bb8737ce9fe6e42171814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:34 +0000
Subject: [PATCH 05/65] fix: train the evaluation-time cost model on every
 timed evaluation of the run

---
 GPyOpt/core/bo.py                       | 6 +++---
 GPyOpt/core/task/cost.py                | 4 ++++
 GPyOpt/methods/bayesian_optimization.py | 6 ++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 8fb0d93..28549d3 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -50,7 +50,7 @@ class BO(object):
         self.model_update_interval = model_update_interval
         self.X = X_init
         self.Y = Y_init
-        self.cost = CostModel(cost)
+        self.cost = cost if isinstance(cost, CostModel) else CostModel(cost)
         self.normalization_type = 'stats' ## not added in the API
         self.de_duplication = de_duplication
         self.model_parameters_iterations = None
@@ -126,7 +126,7 @@ class BO(object):
         if self.X is not None and self.Y is None:
             self.Y, cost_values = self.objective.evaluate(self.X)
             if self.cost.cost_type == 'evaluation_time':
-                self.cost.update_cost_model(self.X, cost_values)
+                self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
         # --- Initialize iterations and running time
         self.time_zero = time.time()
@@ -200,7 +200,7 @@ class BO(object):
         Evaluates the objective
         """
         self.Y_new, cost_new = self.objective.evaluate(self.suggested_sample)
-        self.cost.update_cost_model(self.suggested_sample, cost_new)
+        self.cost.update_cost_model(self.space.unzip_inputs(self.suggested_sample), cost_new)
         self.Y = np.vstack((self.Y,self.Y_new))
 
     def _compute_results(self):
diff --git a/GPyOpt/core/task/cost.py b/GPyOpt/core/task/cost.py
index a5fa554..be79bee 100644
--- a/GPyOpt/core/task/cost.py
+++ b/GPyOpt/core/task/cost.py
@@ -49,6 +49,10 @@ class  CostModel(object):
         """
         Predicts the time cost and its gradient of evaluating the function at x.
         """
+        if self.num_updates == 0:
+            # no evaluation has been timed yet
+            return constant_cost_withGradients(np.atleast_2d(x))
+
         m, _, dmdx, _= self.cost_model.predict_withGradients(x)
         return np.exp(m), np.exp(m)*dmdx
 
diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index c3ad58b..19c66c3 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -192,10 +192,12 @@ class BayesianOptimization(BO):
         # Case 1:
         if self.X is None:
             self.X = initial_design(self.initial_design_type, self.space, self.initial_design_numdata)
-            self.Y, _ = self.objective.evaluate(self.X)
+            self.Y, cost_values = self.objective.evaluate(self.X)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
         # Case 2
         elif self.X is not None and self.Y is None:
-            self.Y, _ = self.objective.evaluate(self.X)
+            self.Y, cost_values = self.objective.evaluate(self.X)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
     def _sign(self,f):
          if self.maximize:
-- 
2.43.0


From f14e03e24994e12a7e83d0e68988c076b2c0f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:59 +0000
Subject: [PATCH 06/65] fix: evaluate the objective on num_cores processes, not
 on batch_size processes

---
 GPyOpt/methods/bayesian_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index 19c66c3..d2b8ad1 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -103,7 +103,7 @@ class BayesianOptimization(BO):
         self.num_cores = num_cores
         if f is not None:
             self.f = self._sign(f)
-            self.objective = SingleObjective(self.f, self.batch_size,self.objective_name)
+            self.objective = SingleObjective(self.f, self.num_cores, self.objective_name)
         else:
             self.f = None
             self.objective = None
-- 
2.43.0


From 9097871fc28ef5229af593b71e87996e76b41c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:28 +0000
Subject: [PATCH 07/65] fix: parallel evaluation neither hangs on a failing
 child nor on results larger than the pipe buffer

---
 GPyOpt/core/task/objective.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index 8118515..8de0f6c 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -86,18 +86,25 @@ class SingleObjective(Objective):
 
         # --- parallel evaluation of the function
         divided_samples = [x[i::self.n_procs] for i in range(self.n_procs)]
-        pipe = [Pipe() for i in range(self.n_procs)]
-        proc = [Process(target=spawn(self._eval_func),args=(c,k)) for k,(p,c) in zip(divided_samples,pipe)]
-        [p.start() for p in proc]
-        [p.join() for p in proc]
+        pipe, proc = [], []
+        for k in divided_samples:
+            p, c = Pipe()
+            process = Process(target=spawn(self._eval_func),args=(c,k))
+            process.start()
+            c.close() # only the child keeps its end, so that its failure is seen as the end of the data
+            pipe.append(p)
+            proc.append(process)
 
         # --- time of evaluation is set to constant (=1). This is one of the hypothesis of synchronous batch methods.
         f_evals = np.zeros((x.shape[0],1))
         cost_evals = np.ones((x.shape[0],1))
-        i = 0
-        for (p,c) in pipe:
-            f_evals[i::self.n_procs] = p.recv()[0] # throw away costs
-            i += 1
+        # the results are received before joining: a child only ends once its result has been read
+        try:
+            for i, p in enumerate(pipe):
+                f_evals[i::self.n_procs] = p.recv()[0] # throw away costs
+        finally:
+            [p.close() for p in pipe]
+            [p.join() for p in proc]
         return f_evals, cost_evals
 
     def _asyncronous_batch_evaluation(self,x):
-- 
2.43.0


From 6bd3aaa393de21731271d8701374542d440cd642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:01 +0000
Subject: [PATCH 08/65] fix: parallel evaluation neither hangs on a failing
 child nor on results larger than the pipe buffer

---
 GPyOpt/core/task/objective.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index 8de0f6c..3cfa579 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -102,9 +102,13 @@ class SingleObjective(Objective):
         try:
             for i, p in enumerate(pipe):
                 f_evals[i::self.n_procs] = p.recv()[0] # throw away costs
+        except:
+            # a child failed: the others may be waiting to send results that nobody is going to read
+            [p.terminate() for p in proc]
+            raise
         finally:
-            [p.close() for p in pipe]
             [p.join() for p in proc]
+            [p.close() for p in pipe]
         return f_evals, cost_evals
 
     def _asyncronous_batch_evaluation(self,x):
-- 
2.43.0


From 82af56dd999099b0a5964ebe277ac91784515aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 09/65] fix: accept unnamed variables that specify a
 dimensionality

---
 GPyOpt/core/task/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index e5f0b6a..d41f3fb 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -115,8 +115,9 @@ class Design_space(object):
         """
         self.config_space_expanded = []
 
-        for variable in self.config_space:
+        for i, variable in enumerate(self.config_space):
             variable_dic = variable.copy()
+            variable_dic['name'] = variable_dic.get('name', 'var_' + str(i))
             if 'dimensionality' in variable_dic.keys():
                 dimensionality = variable_dic['dimensionality']
                 variable_dic['dimensionality'] = 1
-- 
2.43.0


From a3d0b5a4d6bcff6c7d2136a429534e8f47b49a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 10/65] fix: do not share the compiled constraint between
 threads through a module global

---
 GPyOpt/core/task/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index d41f3fb..bcabd82 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -303,7 +303,7 @@ class Design_space(object):
         if self.constraints is not None:
             for d in self.constraints:
                 try:
-                    exec('constraint = lambda x:' + d['constraint'], globals())
+                    constraint = eval('lambda x:' + d['constraint'], globals())
                     ind_x = (constraint(x) <= 0) * 1
                     I_x *= ind_x.reshape(x.shape[0],1)
                 except:
-- 
2.43.0


From 5b20f19ea93be8eb849e713c87cafdf126dfc8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 11/65] fix: Design_space.fromConfig does not modify the given
 configuration

---
 GPyOpt/core/task/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index bcabd82..ba3ea0b 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -91,8 +91,9 @@ class Design_space(object):
         import six
         from ast import literal_eval
 
+        space = deepcopy(space)
         for d in space:
-            if isinstance(d['dimensionality'],six.string_types):
+            if isinstance(d.get('dimensionality'),six.string_types):
                 d['dimensionality'] = int(d['dimensionality'])
             d['domain'] = literal_eval(d['domain'])
         return Design_space(space, None if len(constraints)==0 else constraints)
-- 
2.43.0


From f8a73c6be24c007d16a2bb7db26c7c3145621b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 12/65] fix: accept bandit domains given as a list of arms, as
 documented

---
 GPyOpt/core/task/variables.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPyOpt/core/task/variables.py b/GPyOpt/core/task/variables.py
index 2681f2c..3587576 100644
--- a/GPyOpt/core/task/variables.py
+++ b/GPyOpt/core/task/variables.py
@@ -122,6 +122,7 @@ class BanditVariable(Variable):
         if not np.all(dims == dims[0]):
             raise InvalidConfigError('The dimensionalities of the bandit variable ' + name + ' have to be the same!')
 
+        domain = np.asarray(domain)
         if dimensionality is None:
             dimensionality = len(domain[0])
 
-- 
2.43.0


From 45b233913db0409d422983de20ac842e2f6c0f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:44 +0000
Subject: [PATCH 13/65] fix: continuous/discrete dimensions of a bandit space
 are empty instead of an IndexError

---
 GPyOpt/core/task/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index ba3ea0b..66e6474 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -367,7 +367,7 @@ class Design_space(object):
         Returns the dimension of the continuous components of the domain.
         """
         continuous_dims = []
-        for i in range(self.dimensionality):
+        for i in range(len(self.space_expanded)):
             if self.space_expanded[i].type == 'continuous':
                 continuous_dims += [i]
         return continuous_dims
@@ -402,7 +402,7 @@ class Design_space(object):
         Returns the dimension of the discrete components of the domain.
         """
         discrete_dims = []
-        for i in range(self.dimensionality):
+        for i in range(len(self.space_expanded)):
             if self.space_expanded[i].type == 'discrete':
                 discrete_dims += [i]
         return discrete_dims
-- 
2.43.0


From 0615a4f68da6a795e4b2adc882e94003ab29a149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:04 +0000
Subject: [PATCH 14/65] fix: sample and round spaces with several bandit
 variables

---
 GPyOpt/core/task/variables.py             | 2 +-
 GPyOpt/experiment_design/random_design.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/task/variables.py b/GPyOpt/core/task/variables.py
index 3587576..d0c67c1 100644
--- a/GPyOpt/core/task/variables.py
+++ b/GPyOpt/core/task/variables.py
@@ -157,7 +157,7 @@ class BanditVariable(Variable):
         """
         distances = np.linalg.norm(np.array(self.domain) - value_array, axis=1)
         idx = np.argmin(distances)
-        return [self.domain[idx]]
+        return self.domain[idx]
 
 
 class DiscreteVariable(Variable):
diff --git a/GPyOpt/experiment_design/random_design.py b/GPyOpt/experiment_design/random_design.py
index 1b6f8e6..e8570c9 100644
--- a/GPyOpt/experiment_design/random_design.py
+++ b/GPyOpt/experiment_design/random_design.py
@@ -40,7 +40,8 @@ class RandomDesign(ExperimentDesign):
         """
         init_points_count = samples.shape[0]
 
-        for (idx, var) in enumerate(self.space.space_expanded):
+        idx = 0
+        for var in self.space.space_expanded:
             if isinstance(var, DiscreteVariable) or isinstance(var, CategoricalVariable) :
                 sample_var = np.atleast_2d(np.random.choice(var.domain, init_points_count))
                 samples[:,idx] = sample_var.flatten()
@@ -52,6 +53,8 @@ class RandomDesign(ExperimentDesign):
                 bandit_idx = np.arange(idx, idx + var.domain.shape[1])
                 samples[:, bandit_idx] = var.domain[idx_samples,:]
 
+            idx += var.domain.shape[1] if isinstance(var, BanditVariable) else 1
+
 
     def get_samples_without_constraints(self, init_points_count):
         samples = np.empty((init_points_count, self.space.dimensionality))
-- 
2.43.0


From 2d96deba025e9cd78bd556b5152eb9f503d631db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 15/65] fix: encode categorical variables by the values of
 their domain, as they are sampled

---
 GPyOpt/core/task/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/task/variables.py b/GPyOpt/core/task/variables.py
index d0c67c1..1f9bc52 100644
--- a/GPyOpt/core/task/variables.py
+++ b/GPyOpt/core/task/variables.py
@@ -199,13 +199,13 @@ class CategoricalVariable(Variable):
 
     def objective_to_model(self, x_objective):
         entry = [0] * self.dimensionality_in_model
-        entry[int(x_objective)] = 1
+        entry[list(self.domain).index(x_objective)] = 1
         return entry
 
     def model_to_objective(self, x_model, index_in_model):
         vardim = self.dimensionality_in_model
         original_entry = x_model[0, index_in_model:(index_in_model+vardim)]
-        entry = sum(x * y for x, y in zip(range(vardim), original_entry))
+        entry = sum(x * y for x, y in zip(self.domain, original_entry))
         return [entry]
 
     def get_bounds(self):
-- 
2.43.0


From 2b884ce488cc53d2951f169a294e41b697eb4705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 16/65] fix: grid design of a space without continuous
 variables

---
 GPyOpt/experiment_design/grid_design.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPyOpt/experiment_design/grid_design.py b/GPyOpt/experiment_design/grid_design.py
index 9b82d85..ee052c8 100644
--- a/GPyOpt/experiment_design/grid_design.py
+++ b/GPyOpt/experiment_design/grid_design.py
@@ -20,6 +20,9 @@ class GridDesign(ExperimentDesign):
         # TODO: log this
         print('Note: in grid designs the total number of generated points is the smallest closest integer of n^d to the selected amount of points')
         continuous_dims = len(self.space.get_continuous_dims())
+        if continuous_dims == 0:
+            # there is no grid: all the variables are sampled at random
+            return init_points_count
         self.data_per_dimension = iroot(continuous_dims, init_points_count)
         return self.data_per_dimension**continuous_dims
 
-- 
2.43.0


From 3902b188ad40f3853c137c1967b5a24d52ff064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 17/65] fix: evaluate the constraints with the context
 variables in place when sampling anchor points

---
 GPyOpt/optimization/anchor_points_generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GPyOpt/optimization/anchor_points_generator.py b/GPyOpt/optimization/anchor_points_generator.py
index 22ca1c3..1bd9949 100644
--- a/GPyOpt/optimization/anchor_points_generator.py
+++ b/GPyOpt/optimization/anchor_points_generator.py
@@ -29,6 +29,10 @@ class AnchorPointsGenerator(object):
             space_configuration_without_context = [self.space.config_space_expanded[idx] for idx in context_manager.nocontext_index_obj]
             space = Design_space(space_configuration_without_context, context_manager.space.constraints)
             add_context = lambda x : context_manager._expand_vector(x)
+
+            if context_manager.context_index and self.space.has_constraints():
+                # the constraints are written in terms of all the variables, the ones of the context included
+                space.indicator_constraints = lambda x : self.space.indicator_constraints(self.space.zip_inputs(add_context(space.unzip_inputs(x))))
         else:
             space = self.space
             add_context = lambda x: x
-- 
2.43.0


From 7b4c3baf51f9d728a7297b988fe1b25d7e957e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 18/65] fix: never suggest a point that became infeasible by
 the local optimization or the rounding

---
 GPyOpt/optimization/optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index 5ca8f37..576e718 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -162,8 +162,11 @@ def apply_optimizer(optimizer, x0, f=None, df=None, f_df=None, duplicate_manager
     suggested_x_with_context = add_context(optimized_x)
     suggested_x_with_context_rounded = space.round_optimum(suggested_x_with_context)
 
-    ## --- Run duplicate_manager
-    if duplicate_manager and duplicate_manager.is_unzipped_x_duplicate(suggested_x_with_context_rounded):
+    ## --- The optimized point is discarded if it is a duplicate or (e.g. due to the rounding) not feasible
+    is_duplicate = duplicate_manager and duplicate_manager.is_unzipped_x_duplicate(suggested_x_with_context_rounded)
+    is_feasible = np.all(space.indicator_constraints(space.zip_inputs(suggested_x_with_context_rounded)) == 1)
+
+    if is_duplicate or not is_feasible:
         suggested_x, suggested_fx = x0, np.atleast_2d(f(x0))
     else:
         suggested_x, suggested_fx = suggested_x_with_context_rounded, f(suggested_x_with_context_rounded)
-- 
2.43.0


From 659bc552b79fa161d41972b4cd69e478e0a2ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 19/65] fix: OptLbfgs with separate objective and gradient

---
 GPyOpt/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index 576e718..d5f00f5 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -41,7 +41,7 @@ class OptLbfgs(Optimizer):
         :param f_df: returns both the function to optimize and its gradient.
         """
         import scipy.optimize
-        if f_df is None and df is not None: f_df = lambda x: float(f(x)), df(x)
+        if f_df is None and df is not None: f_df = lambda x: (float(f(x)), df(x))
         if f_df is not None:
             def _f_df(x):
                 return f(x), f_df(x)[1][0]
-- 
2.43.0


From 5660e8f6aa8bf937fb0fe7eaf2901ab1dd842c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 20/65] fix: recognise the abnormal termination of L-BFGS when
 scipy reports it as text

---
 GPyOpt/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index d5f00f5..5d2a5d5 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -51,7 +51,7 @@ class OptLbfgs(Optimizer):
             res = scipy.optimize.fmin_l_bfgs_b(_f_df, x0=x0, bounds=self.bounds, maxiter=self.maxiter)
 
         ### --- We check here if the the optimizer moved. If it didn't we report x0 and f(x0) as scipy can return NaNs
-        if res[2]['task'] == b'ABNORMAL_TERMINATION_IN_LNSRCH':
+        if res[2]['task'] in (b'ABNORMAL_TERMINATION_IN_LNSRCH', 'ABNORMAL_TERMINATION_IN_LNSRCH'):
             result_x  = np.atleast_2d(x0)
             result_fx =  np.atleast_2d(f(x0))
         else:
-- 
2.43.0


From bf42c127984951470ef4fbf7bf76ea7695f02c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 21/65] fix: gradient of the local penalizers (direction of the
 derivative of the distance)

---
 GPyOpt/acquisitions/LP.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index 0686ec5..920cc64 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -99,7 +99,8 @@ class AcquisitionLP(AcquisitionBase):
 
         d = 1./(s_x0*np.sqrt(2*np.pi)*h_func)*np.exp(-np.square(z)/2)/nm
         d[h_func<1e-50] = 0.
-        d = d[:,:,None]
+        d[nm==0] = 0. # the penalizer is not differentiable at its center
+        d = d[:,:,None]*dx
         return d.sum(axis=1)
 
     def acquisition_function(self, x):
-- 
2.43.0


From 3c7065229fc12598b7ee59f104c3c74b764f8863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:06 +0000
Subject: [PATCH 22/65] fix: width of the local penalizers (square root of the
 standard deviation)

---
 GPyOpt/acquisitions/LP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index 920cc64..b07d570 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -54,7 +54,7 @@ class AcquisitionLP(AcquisitionBase):
         m = model.predict(x0)[0]
         pred = model.predict(x0)[1].copy()
         pred[pred<1e-16] = 1e-16
-        s = np.sqrt(pred)
+        s = pred # the models already predict standard deviations
         r_x0 = (m-Min)/L
         s_x0 = s/L
         r_x0 = r_x0.flatten()
-- 
2.43.0


From cc43415d0ef0383f2c88986a2e70e1b6c0516833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:45 +0000
Subject: [PATCH 23/65] fix: honour de_duplication in the local penalization
 batches

---
 GPyOpt/core/evaluators/batch_local_penalization.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/evaluators/batch_local_penalization.py b/GPyOpt/core/evaluators/batch_local_penalization.py
index e527581..6e24fc4 100644
--- a/GPyOpt/core/evaluators/batch_local_penalization.py
+++ b/GPyOpt/core/evaluators/batch_local_penalization.py
@@ -2,6 +2,7 @@
 # Licensed under the BSD 3-clause license (see LICENSE.txt)
 
 from .base import EvaluatorBase
+from ..errors import FullyExploredOptimizationDomainError
 import scipy
 from ...util.general import samples_multidimensional_uniform
 import numpy as np
@@ -29,7 +30,7 @@ class LocalPenalization(EvaluatorBase):
         self.acquisition.update_batches(None,None,None)
 
         # --- GET first element in the batch
-        X_batch = self.acquisition.optimize()[0]
+        X_batch = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
         k=1
 
         if self.batch_size >1:
@@ -40,7 +41,14 @@ class LocalPenalization(EvaluatorBase):
         # --- GET the remaining elements
         while k<self.batch_size:
             self.acquisition.update_batches(X_batch,L,Min)
-            new_sample = self.acquisition.optimize()[0]
+            if duplicate_manager:
+                # the points of the batch must be different too
+                duplicate_manager.unique_points.update(tuple(x) for x in self.acquisition.space.zip_inputs(X_batch))
+            try:
+                new_sample = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
+            except FullyExploredOptimizationDomainError:
+                print("Warning: the batch of requested size {} could not be entirely filled in (only {} points)".format(self.batch_size, k))
+                break
             X_batch = np.vstack((X_batch,new_sample))
             k +=1
 
-- 
2.43.0


From 8abeb2a75fdbba387c9168d042866db8dbd63786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:01 +0000
Subject: [PATCH 24/65] fix: predicted covariances keep their sign

---
 GPyOpt/models/gpmodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 9310be8..d79819a 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -96,7 +96,12 @@ class GPModel(BOModel):
         if X.ndim == 1:
             X = X[None,:]
         m, v = self.model.predict(X, full_cov=full_cov, include_likelihood=include_likelihood)
-        v = np.clip(v, 1e-10, np.inf)
+        if full_cov:
+            # only variances have to be positive, covariances can be negative
+            v = np.array(v)
+            np.fill_diagonal(v, np.clip(np.diagonal(v), 1e-10, np.inf))
+        else:
+            v = np.clip(v, 1e-10, np.inf)
         return m, v
 
     def predict(self, X, with_noise=True):
-- 
2.43.0


From 9953731ba698fef37756bd3c511cd6521512b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:59 +0000
Subject: [PATCH 25/65] fix: a failing evaluation does not leave inputs without
 output in the evaluations

---
 GPyOpt/core/bo.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 28549d3..614650b 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -149,10 +149,7 @@ class BO(object):
 
             self.suggested_sample = self._compute_next_evaluations()
 
-            # --- Augment X
-            self.X = np.vstack((self.X,self.suggested_sample))
-
-            # --- Evaluate *f* in X, augment Y and update cost function (if needed)
+            # --- Evaluate *f* in X, augment X and Y and update cost function (if needed)
             self.evaluate_objective()
 
             # --- Update current evaluation time and function evaluations
@@ -201,7 +198,9 @@ class BO(object):
         """
         self.Y_new, cost_new = self.objective.evaluate(self.suggested_sample)
         self.cost.update_cost_model(self.space.unzip_inputs(self.suggested_sample), cost_new)
-        self.Y = np.vstack((self.Y,self.Y_new))
+
+        # X and Y grow together: a failing evaluation does not leave inputs without output
+        self.X, self.Y = np.vstack((self.X,self.suggested_sample)), np.vstack((self.Y,self.Y_new))
 
     def _compute_results(self):
         """
-- 
2.43.0


From c7159e28d949e048eb3c1e609671e488e1e4c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 26/65] fix: run the optimization with models that have no
 parameters to save

---
 GPyOpt/core/bo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 614650b..6005805 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -260,6 +260,9 @@ class BO(object):
         self._save_model_parameter_values()
 
     def _save_model_parameter_values(self):
+        if not hasattr(self.model, 'get_model_parameters'):
+            # optional in the models (only the GP models have parameters to save)
+            return
         if self.model_parameters_iterations is None:
             self.model_parameters_iterations = self.model.get_model_parameters()
         else:
-- 
2.43.0


From db612a67d19fa720a41b7bc4376b4bae976e8e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:10 +0000
Subject: [PATCH 27/65] fix: update the warped GP with new observations

---
 GPyOpt/models/warpedgpmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/warpedgpmodel.py b/GPyOpt/models/warpedgpmodel.py
index fd80d50..f6e9e76 100644
--- a/GPyOpt/models/warpedgpmodel.py
+++ b/GPyOpt/models/warpedgpmodel.py
@@ -53,7 +53,9 @@ class WarpedGPModel(BOModel):
         if self.model is None:
             self._create_model(X_all, Y_all)
         else:
-            self.model.set_XY(X_all, Y_all)
+            # the number of observations of a GPy.models.WarpedGP is fixed
+            self.kernel = self.model.kern.copy()
+            self._create_model(X_all, Y_all)
 
         self.model.optimize(optimizer = self.optimizer, messages=self.verbose, max_iters=self.max_iters)
 
-- 
2.43.0


From ef8d0b822124063fd3fe3fb2f9b7ca2220ef236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 28/65] fix: a copy of a GP model predicts as the original (and
 exists for GP_MCMC models)

---
 GPyOpt/models/gpmodel.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index d79819a..70af19a 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -156,11 +156,15 @@ class GPModel(BOModel):
                             optimizer=self.optimizer,
                             max_iters=self.max_iters,
                             optimize_restarts=self.optimize_restarts,
+                            sparse=self.sparse,
+                            num_inducing=self.num_inducing,
                             verbose=self.verbose,
-                            ARD=self.ARD)
+                            ARD=self.ARD,
+                            mean_function=None if self.mean_function is None else self.mean_function.copy())
 
         copied_model._create_model(self.model.X,self.model.Y)
-        copied_model.updateModel(self.model.X,self.model.Y, None, None)
+        # same parameters, hence the same predictions
+        copied_model.model[:] = self.model.param_array
         return copied_model
 
     def get_model_parameters(self):
@@ -333,7 +337,7 @@ class GPModel_MCMC(BOModel):
         Makes a safe copy of the model.
         """
 
-        copied_model = GPModel( kernel = self.model.kern.copy(),
+        copied_model = GPModel_MCMC( kernel = self.model.kern.copy(),
                                 noise_var= self.noise_var ,
                                 exact_feval= self.exact_feval,
                                 n_samples = self.n_samples,
@@ -344,7 +348,9 @@ class GPModel_MCMC(BOModel):
                                 verbose= self.verbose)
 
         copied_model._create_model(self.model.X,self.model.Y)
-        copied_model.updateModel(self.model.X,self.model.Y, None, None)
+        # same parameters and samples of the parameters, hence the same predictions
+        copied_model.model[:] = self.model.param_array
+        copied_model.hmc_samples = self.hmc_samples.copy()
         return copied_model
 
     def get_model_parameters(self):
-- 
2.43.0


From c7c6fdc4ccc8a30adb37f0f72c8fbcaa99f38ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:04 +0000
Subject: [PATCH 29/65] fix: gradient of the penalized acquisition where the
 acquisition vanishes and for several rows

---
 GPyOpt/acquisitions/LP.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index b07d570..b6dd9fa 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -117,11 +117,11 @@ class AcquisitionLP(AcquisitionBase):
         x = np.atleast_2d(x)
 
         if self.transform=='softplus':
-            fval = -self.acq.acquisition_function(x)[:,0]
+            fval = -self.acq.acquisition_function(x)
             scale = 1./(np.log1p(np.exp(fval))*(1.+np.exp(-fval)))
         elif self.transform=='none':
-            fval = -self.acq.acquisition_function(x)[:,0]
-            scale = 1./fval
+            fval = -self.acq.acquisition_function(x)
+            scale = 1./(fval+1e-50) # as in the logarithm of the penalized acquisition
         else:
             scale = 1.
 
-- 
2.43.0


From afcf0dd95f01e7fc271a2a1dd5caa57b2a20f5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:01 +0000
Subject: [PATCH 30/65] fix: run the objective of a configuration file, one
 argument per variable

---
 GPyOpt/interface/driver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index de1144f..4e287aa 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -27,9 +27,14 @@ class BODriver(object):
         Imports the acquisition function.
         """
         obj_func = self.obj_func
+        splits = np.cumsum([v.dimensionality for v in space.space])[:-1]
+
+        def unfolded_obj_func(x):
+            # the objective takes one argument per variable of the space
+            return obj_func(*np.split(x, splits, axis=1))
         
         from ..core.task import SingleObjective
-        return SingleObjective(obj_func, self.config['resources']['cores'], space=space, unfold_args=True)
+        return SingleObjective(unfolded_obj_func, self.config['resources']['cores'], space=space)
         
     def _get_space(self):
         """
-- 
2.43.0


From a6a7cc6cb9db355d8c6bb66ab5e30b052e6537c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:01 +0000
Subject: [PATCH 31/65] fix: load the objective of a configuration file in
 python 3.12

---
 GPyOpt/interface/func_loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/interface/func_loader.py b/GPyOpt/interface/func_loader.py
index 6456a51..af61174 100644
--- a/GPyOpt/interface/func_loader.py
+++ b/GPyOpt/interface/func_loader.py
@@ -15,8 +15,10 @@ def load_objective(config):
     os.chdir(config['prjpath'])
     if config['language'].lower()=='python':
         assert config['main-file'].endswith('.py'), 'The python problem file has to end with .py!'
-        import imp
-        m = imp.load_source(config['main-file'][:-3], os.path.join(config['prjpath'],config['main-file']))
+        from importlib.util import spec_from_file_location, module_from_spec # the module imp was removed in python 3.12
+        spec = spec_from_file_location(config['main-file'][:-3], os.path.join(config['prjpath'],config['main-file']))
+        m = module_from_spec(spec)
+        spec.loader.exec_module(m)
         func = m.__dict__[config['main-file'][:-3]]
     return func
 
-- 
2.43.0


From 54ccf389582ed199fa313fc8c010de5b49fc14dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:01 +0000
Subject: [PATCH 32/65] fix: max-run-time of the configuration files is given
 in minutes

---
 GPyOpt/interface/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index 4e287aa..6265a46 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -119,6 +119,6 @@ class BODriver(object):
         from ..methods import ModularBayesianOptimization
         bo = ModularBayesianOptimization(model, space, obj_func, acq, acq_eval, X_init)
                 
-        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'], max_time = self.config['resources']['max-run-time'] if self.config['resources']['max-run-time']!="NA" else np.inf,
+        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'], max_time = self.config['resources']['max-run-time']*60. if self.config['resources']['max-run-time']!="NA" else np.inf,
                               eps = self.config['resources']['tolerance'], verbosity=True)        
         return bo
-- 
2.43.0


From 97f27a68f9a057afcd104447f2f2f642ef14c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 33/65] fix: report of the modular optimization, and of whether
 there are constraints

---
 GPyOpt/core/bo.py                               |  5 +----
 GPyOpt/methods/modular_bayesian_optimization.py | 11 +++++++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 6005805..396f69a 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -344,16 +344,13 @@ class BO(object):
             file.write('Number bandits               ' + str(self.space.get_bandit().shape[0]) +'\n')
             file.write('Noiseless evaluations:       ' + str(self.exact_feval) +'\n')
             file.write('Cost used:                   ' + self.cost.cost_type +'\n')
-            file.write('Constraints:                  ' + str(self.constraints==True) +'\n')
+            file.write('Constraints:                  ' + str(self.space.has_constraints()) +'\n')
 
             file.write('\n')
             file.write('------------------------------' + ' Optimization set up ' + '---------------------------------\n')
             file.write('Normalized outputs:          ' + str(self.normalize_Y) + '\n')
             file.write('Model type:                  ' + str(self.model_type).strip('[]') + '\n')
             file.write('Model update interval:       ' + str(self.model_update_interval) + '\n')
-            file.write('Acquisition type:            ' + str(self.acquisition_type).strip('[]') + '\n')
-            file.write('Acquisition optimizer:       ' + str(self.acquisition_optimizer.optimizer_name).strip('[]') + '\n')
-
             file.write('Acquisition type:            ' + str(self.acquisition_type).strip('[]') + '\n')
             if hasattr(self, 'acquisition_optimizer') and hasattr(self.acquisition_optimizer, 'optimizer_name'):
                 file.write('Acquisition optimizer:       ' + str(self.acquisition_optimizer.optimizer_name).strip('[]') + '\n')
diff --git a/GPyOpt/methods/modular_bayesian_optimization.py b/GPyOpt/methods/modular_bayesian_optimization.py
index 45439a0..ff34c0a 100644
--- a/GPyOpt/methods/modular_bayesian_optimization.py
+++ b/GPyOpt/methods/modular_bayesian_optimization.py
@@ -26,6 +26,17 @@ class ModularBayesianOptimization(BO):
         self.initial_iter = True
         self.modular_optimization = True
 
+        # --- Description of the elements, used in the report
+        self.initial_design_numdata = X_init.shape[0]
+        self.objective_name = getattr(objective, 'objective_name', 'no_name')
+        self.exact_feval = getattr(model, 'exact_feval', False)
+        self.model_type = type(model).__name__
+        self.acquisition_type = type(acquisition).__name__
+        self.acquisition_optimizer = getattr(acquisition, 'optimizer', None)
+        self.evaluator_type = type(evaluator).__name__
+        self.batch_size = getattr(evaluator, 'batch_size', 1)
+        self.num_cores = getattr(objective, 'n_procs', 1)
+
         # --- Create optimization space
         super(ModularBayesianOptimization ,self).__init__(  model                  = model,
                                                             space                  = space,
-- 
2.43.0


From f5387de0187c63649e4ae699b41c84d6bf62fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 34/65] fix: maximum-iterations 'NA' in the configuration files

---
 GPyOpt/interface/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index 6265a46..b1609ea 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -119,6 +119,6 @@ class BODriver(object):
         from ..methods import ModularBayesianOptimization
         bo = ModularBayesianOptimization(model, space, obj_func, acq, acq_eval, X_init)
                 
-        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'], max_time = self.config['resources']['max-run-time']*60. if self.config['resources']['max-run-time']!="NA" else np.inf,
+        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'] if self.config['resources']['maximum-iterations']!="NA" else np.inf, max_time = self.config['resources']['max-run-time']*60. if self.config['resources']['max-run-time']!="NA" else np.inf,
                               eps = self.config['resources']['tolerance'], verbosity=True)        
         return bo
-- 
2.43.0


From 0e93dd8629c92fb065d525aa5647fc520a2652b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 35/65] fix: entropy search follows the updates of the model

---
 GPyOpt/acquisitions/ES.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/GPyOpt/acquisitions/ES.py b/GPyOpt/acquisitions/ES.py
index a0378c6..017281f 100644
--- a/GPyOpt/acquisitions/ES.py
+++ b/GPyOpt/acquisitions/ES.py
@@ -111,6 +111,16 @@ class AcquisitionEntropySearch(AcquisitionBase):
         # add a second dimension to the array
         self.logP = np.reshape(self.logP, (self.logP.shape[0], 1))
 
+    def optimize(self, duplicate_manager=None):
+        """
+        Optimizes the acquisition function, for the current state of the model.
+        """
+        # The model may have changed since the parameters were computed: they are computed again when first needed
+        self.repr_points = None
+        self.repr_points_log = None
+        self.logP = None
+        return super(AcquisitionEntropySearch, self).optimize(duplicate_manager=duplicate_manager)
+
     def _required_parameters_initialized(self):
         """
         Checks if all required parameters are initialized.
-- 
2.43.0


From 983fb254b4ad49bada2bfdbe3e88582eb29feb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 36/65] fix: shape of the noisy evaluations of alpine1

---
 GPyOpt/objective_examples/experimentsNd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/objective_examples/experimentsNd.py b/GPyOpt/objective_examples/experimentsNd.py
index 2d34b25..5904d56 100644
--- a/GPyOpt/objective_examples/experimentsNd.py
+++ b/GPyOpt/objective_examples/experimentsNd.py
@@ -32,7 +32,7 @@ class alpine1:
         if self.sd ==0:
             noise = np.zeros(n).reshape(n,1)
         else:
-            noise = np.random.normal(0,self.sd,n)
+            noise = np.random.normal(0,self.sd,n).reshape(n,1)
         return fval.reshape(n,1) + noise
 
 
-- 
2.43.0


From 52e672d29352a4426ab21fa2958df5939793f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:53 +0000
Subject: [PATCH 37/65] fix: ackley does not print its inputs

---
 GPyOpt/objective_examples/experimentsNd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/GPyOpt/objective_examples/experimentsNd.py b/GPyOpt/objective_examples/experimentsNd.py
index 5904d56..36efbdb 100644
--- a/GPyOpt/objective_examples/experimentsNd.py
+++ b/GPyOpt/objective_examples/experimentsNd.py
@@ -122,7 +122,6 @@ class ackley:
 
     def f(self,X):
         X = reshape(X,self.input_dim)
-        print(X)
         n = X.shape[0]
         fval = (20+np.exp(1)-20*np.exp(-0.2*np.sqrt((X**2).sum(1)/self.input_dim))-np.exp(np.cos(2*np.pi*X).sum(1)/self.input_dim))
         
-- 
2.43.0


From 77857be79458faedd3b6fb4e8d1c647ae78e9cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 38/65] fix: reject unknown models and evaluators

---
 GPyOpt/util/arguments_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GPyOpt/util/arguments_manager.py b/GPyOpt/util/arguments_manager.py
index 2745dc4..86f3fc7 100644
--- a/GPyOpt/util/arguments_manager.py
+++ b/GPyOpt/util/arguments_manager.py
@@ -38,6 +38,8 @@ class ArgumentsManager(object):
                 acquisition_lp = AcquisitionLP(model, space, acquisition_optimizer, acquisition, acquisition_transformation)
             return LocalPenalization(acquisition_lp, batch_size)
 
+        else:
+            raise InvalidConfigError('Invalid evaluator selected: {}'.format(evaluator_type))
 
 
     def acquisition_creator(self, acquisition_type, model, space, acquisition_optimizer, cost_withGradients):
@@ -141,3 +143,6 @@ class ArgumentsManager(object):
             return InputWarpedGPModel(space, input_warping_function, kernel, noise_var,
                                       exact_feval, model_optimizer_type, max_iters,
                                       optimize_restarts, verbosity_model, ARD)
+
+        else:
+            raise InvalidConfigError('Invalid model selected: {}'.format(model_type))
-- 
2.43.0


From cf224ed01d42e426b83621f57c3697a5e70a0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:52 +0000
Subject: [PATCH 39/65] fix: evaluation times of zero in the cost model

---
 GPyOpt/core/task/cost.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/cost.py b/GPyOpt/core/task/cost.py
index be79bee..dcce12a 100644
--- a/GPyOpt/core/task/cost.py
+++ b/GPyOpt/core/task/cost.py
@@ -65,7 +65,8 @@ class  CostModel(object):
         """
 
         if self.cost_type == 'evaluation_time':
-            cost_evals = np.log(np.asarray(cost_x).reshape(-1, 1))
+            # the clock may not advance during a short evaluation: its logarithm has to be finite
+            cost_evals = np.log(np.maximum(np.asarray(cost_x).reshape(-1, 1), 1e-7))
 
             if self.num_updates == 0:
                 X_all = x
-- 
2.43.0


From 00c4d753f2c07d2891048b1c8b1eb388e92815ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:07 +0000
Subject: [PATCH 40/65] fix: end the evaluation processes when one of them
 cannot be started

---
 GPyOpt/core/task/objective.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index 3cfa579..20fe72a 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -87,23 +87,22 @@ class SingleObjective(Objective):
         # --- parallel evaluation of the function
         divided_samples = [x[i::self.n_procs] for i in range(self.n_procs)]
         pipe, proc = [], []
-        for k in divided_samples:
-            p, c = Pipe()
-            process = Process(target=spawn(self._eval_func),args=(c,k))
-            process.start()
-            c.close() # only the child keeps its end, so that its failure is seen as the end of the data
-            pipe.append(p)
-            proc.append(process)
-
         # --- time of evaluation is set to constant (=1). This is one of the hypothesis of synchronous batch methods.
         f_evals = np.zeros((x.shape[0],1))
         cost_evals = np.ones((x.shape[0],1))
         # the results are received before joining: a child only ends once its result has been read
         try:
+            for k in divided_samples:
+                p, c = Pipe()
+                process = Process(target=spawn(self._eval_func),args=(c,k))
+                process.start()
+                c.close() # only the child keeps its end, so that its failure is seen as the end of the data
+                pipe.append(p)
+                proc.append(process)
             for i, p in enumerate(pipe):
                 f_evals[i::self.n_procs] = p.recv()[0] # throw away costs
         except:
-            # a child failed: the others may be waiting to send results that nobody is going to read
+            # a child failed or could not be started: the others may be waiting to send results that nobody is going to read
             [p.terminate() for p in proc]
             raise
         finally:
-- 
2.43.0


From 4ba56542d0e9c77d1981ddac2bdf5f903c5a58b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:49 +0000
Subject: [PATCH 41/65] fix: gradient of the local penalizers deep inside of
 the exclusion zones

---
 GPyOpt/acquisitions/LP.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index b6dd9fa..3fcb768 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -5,6 +5,7 @@ from .base import AcquisitionBase
 from .LCB import AcquisitionLCB
 from .LCB_mcmc import AcquisitionLCB_MCMC
 import numpy as np
+from scipy.special import erfcx
 from scipy.stats import norm
 
 class AcquisitionLP(AcquisitionBase):
@@ -95,10 +96,9 @@ class AcquisitionLP(AcquisitionBase):
         dx = np.atleast_2d(x)[:,None,:]-np.atleast_2d(X_batch)[None,:,:]
         nm = np.sqrt((np.square(dx)).sum(-1))
         z = (nm- r_x0)/s_x0
-        h_func = norm.cdf(z)
 
-        d = 1./(s_x0*np.sqrt(2*np.pi)*h_func)*np.exp(-np.square(z)/2)/nm
-        d[h_func<1e-50] = 0.
+        # density over distribution of the normal at z, without underflow deep inside of the exclusion zone
+        d = np.sqrt(2/np.pi)/(s_x0*erfcx(-z/np.sqrt(2)))/np.where(nm==0, 1., nm)
         d[nm==0] = 0. # the penalizer is not differentiable at its center
         d = d[:,:,None]*dx
         return d.sum(axis=1)
-- 
2.43.0


From f67ea5832d9fc85a3f8ef959b325474ed72e97fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:15 +0000
Subject: [PATCH 42/65] fix: softplus of very large and very negative
 acquisitions in the local penalization

---
 GPyOpt/acquisitions/LP.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/GPyOpt/acquisitions/LP.py b/GPyOpt/acquisitions/LP.py
index 3fcb768..64f4479 100644
--- a/GPyOpt/acquisitions/LP.py
+++ b/GPyOpt/acquisitions/LP.py
@@ -5,7 +5,7 @@ from .base import AcquisitionBase
 from .LCB import AcquisitionLCB
 from .LCB_mcmc import AcquisitionLCB_MCMC
 import numpy as np
-from scipy.special import erfcx
+from scipy.special import erfcx, expit
 from scipy.stats import norm
 
 class AcquisitionLP(AcquisitionBase):
@@ -77,9 +77,8 @@ class AcquisitionLP(AcquisitionBase):
         fval = -self.acq.acquisition_function(x)[:,0]
 
         if self.transform=='softplus':
-            fval_org = fval.copy()
-            fval[fval_org>=40.] = np.log(fval_org[fval_org>=40.])
-            fval[fval_org<40.] = np.log(np.log1p(np.exp(fval_org[fval_org<40.])))
+            # the logarithm of the softplus of a very negative value is the value itself
+            fval = np.where(fval<-40., fval, np.log(np.logaddexp(0., np.maximum(fval, -40.))))
         elif self.transform=='none':
             fval = np.log(fval+1e-50)
 
@@ -118,7 +117,7 @@ class AcquisitionLP(AcquisitionBase):
 
         if self.transform=='softplus':
             fval = -self.acq.acquisition_function(x)
-            scale = 1./(np.log1p(np.exp(fval))*(1.+np.exp(-fval)))
+            scale = np.where(fval<-40., 1., expit(fval)/np.logaddexp(0., np.maximum(fval, -40.)))
         elif self.transform=='none':
             fval = -self.acq.acquisition_function(x)
             scale = 1./(fval+1e-50) # as in the logarithm of the penalized acquisition
-- 
2.43.0


From f3d73d51b28871ab5f2baf85d2217e556155c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:14 +0000
Subject: [PATCH 43/65] fix: covariance between different sets of points
 (entropy search with a GP model)

---
 GPyOpt/models/gpmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 70af19a..b8f7eab 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -183,7 +183,7 @@ class GPModel(BOModel):
         """
         Given the current posterior, computes the covariance between two sets of points.
         """
-        return self.model.posterior_covariance_between_points(x1, x2)
+        return self.model.posterior_covariance_between_points(x1, x2, include_likelihood=False)
 
 
 class GPModel_MCMC(BOModel):
-- 
2.43.0


From c8ffb6b83352cf1f15ae8be6215a76b7ea4d8fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:29 +0000
Subject: [PATCH 44/65] fix: copy of a sparse GP model keeps its inducing
 inputs

---
 GPyOpt/models/gpmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index b8f7eab..4dc6c69 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -163,8 +163,8 @@ class GPModel(BOModel):
                             mean_function=None if self.mean_function is None else self.mean_function.copy())
 
         copied_model._create_model(self.model.X,self.model.Y)
-        # same parameters, hence the same predictions
-        copied_model.model[:] = self.model.param_array
+        # same parameters (and inducing inputs, if sparse), hence the same predictions
+        copied_model.model = self.model.copy()
         return copied_model
 
     def get_model_parameters(self):
-- 
2.43.0


From 82f75bd497e8640aa147c1b080fb1b1f8a4003f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:02 +0000
Subject: [PATCH 45/65] fix: parameters of the GP models are a copy (the first
 row of the models file was overwritten)

---
 GPyOpt/models/gpmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 4dc6c69..f36062d 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -171,7 +171,7 @@ class GPModel(BOModel):
         """
         Returns a 2D numpy array with the parameters of the model
         """
-        return np.atleast_2d(self.model[:])
+        return np.atleast_2d(np.array(self.model[:]))
 
     def get_model_parameters_names(self):
         """
@@ -357,7 +357,7 @@ class GPModel_MCMC(BOModel):
         """
         Returns a 2D numpy array with the parameters of the model
         """
-        return np.atleast_2d(self.model[:])
+        return np.atleast_2d(np.array(self.model[:]))
 
     def get_model_parameters_names(self):
         """
-- 
2.43.0


From c2e128fea8ab227675f8cd88dafba117b70f2447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:02 +0000
Subject: [PATCH 46/65] fix: one name per saved parameter of the GP models,
 fixed and vector ones included

---
 GPyOpt/models/gpmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index f36062d..836031f 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -177,7 +177,7 @@ class GPModel(BOModel):
         """
         Returns a list with the names of the parameters of the model
         """
-        return self.model.parameter_names_flat().tolist()
+        return self.model.parameter_names_flat(include_fixed=True).tolist()
 
     def get_covariance_between_points(self, x1, x2):
         """
@@ -363,4 +363,4 @@ class GPModel_MCMC(BOModel):
         """
         Returns a list with the names of the parameters of the model
         """
-        return self.model.parameter_names()
+        return self.model.parameter_names_flat(include_fixed=True).tolist()
-- 
2.43.0


From ea42b52023cf8baa10f7b4f4688fc1623b9f5775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:02 +0000
Subject: [PATCH 47/65] fix: report of spaces with bandits of different
 dimension

---
 GPyOpt/core/bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 396f69a..1352567 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -341,7 +341,7 @@ class BO(object):
             file.write('Problem dimension:           ' + str(self.space.dimensionality) +'\n')
             file.write('Number continuous variables  ' + str(len(self.space.get_continuous_dims()) ) +'\n')
             file.write('Number discrete variables    ' + str(len(self.space.get_discrete_dims())) +'\n')
-            file.write('Number bandits               ' + str(self.space.get_bandit().shape[0]) +'\n')
+            file.write('Number bandits               ' + str(sum(len(d.domain) for d in self.space.space if d.type == 'bandit')) +'\n')
             file.write('Noiseless evaluations:       ' + str(self.exact_feval) +'\n')
             file.write('Cost used:                   ' + self.cost.cost_type +'\n')
             file.write('Constraints:                  ' + str(self.space.has_constraints()) +'\n')
-- 
2.43.0


From 379f75c19599bca60ea5991df24ac94d8746b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:02 +0000
Subject: [PATCH 48/65] fix: number of initial samples in the report

---
 GPyOpt/methods/bayesian_optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index d2b8ad1..5f1672a 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -199,6 +199,9 @@ class BayesianOptimization(BO):
             self.Y, cost_values = self.objective.evaluate(self.X)
             self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
+        # number of samples actually used (given by the user, or by the size of a grid)
+        self.initial_design_numdata = self.X.shape[0]
+
     def _sign(self,f):
          if self.maximize:
              f_copy = f
-- 
2.43.0


From 035c42fae1cdf99014bc15a1834fbbc4e83000b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:08 +0000
Subject: [PATCH 49/65] fix: a configuration that names an integrated
 acquisition does not get the plain one

---
 GPyOpt/acquisitions/EI.py  | 6 +++---
 GPyOpt/acquisitions/MPI.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/GPyOpt/acquisitions/EI.py b/GPyOpt/acquisitions/EI.py
index 8844293..2a20eaa 100644
--- a/GPyOpt/acquisitions/EI.py
+++ b/GPyOpt/acquisitions/EI.py
@@ -25,9 +25,9 @@ class AcquisitionEI(AcquisitionBase):
         super(AcquisitionEI, self).__init__(model, space, optimizer, cost_withGradients=cost_withGradients)
         self.jitter = jitter
 
-    @staticmethod
-    def fromConfig(model, space, optimizer, cost_withGradients, config):
-        return AcquisitionEI(model, space, optimizer, cost_withGradients, jitter=config['jitter'])
+    @classmethod
+    def fromConfig(cls, model, space, optimizer, cost_withGradients, config):
+        return cls(model, space, optimizer, cost_withGradients, jitter=config['jitter'])
 
     def _compute_acq(self, x):
         """
diff --git a/GPyOpt/acquisitions/MPI.py b/GPyOpt/acquisitions/MPI.py
index 176a039..a5482e0 100644
--- a/GPyOpt/acquisitions/MPI.py
+++ b/GPyOpt/acquisitions/MPI.py
@@ -25,9 +25,9 @@ class AcquisitionMPI(AcquisitionBase):
         super(AcquisitionMPI, self).__init__(model, space, optimizer, cost_withGradients=cost_withGradients)
         self.jitter = jitter
         
-    @staticmethod
-    def fromConfig(model, space, optimizer, cost_withGradients, config):
-        return AcquisitionMPI(model, space, optimizer, cost_withGradients, jitter=config['jitter'])
+    @classmethod
+    def fromConfig(cls, model, space, optimizer, cost_withGradients, config):
+        return cls(model, space, optimizer, cost_withGradients, jitter=config['jitter'])
 
     def _compute_acq(self, x):
         """
-- 
2.43.0


From 623e96ed3e505e6601f676b9704371a365b51c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:23 +0000
Subject: [PATCH 50/65] fix: forward the options of the surrogate to the warped
 GP

---
 GPyOpt/util/arguments_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/util/arguments_manager.py b/GPyOpt/util/arguments_manager.py
index 86f3fc7..36e4868 100644
--- a/GPyOpt/util/arguments_manager.py
+++ b/GPyOpt/util/arguments_manager.py
@@ -127,7 +127,7 @@ class ArgumentsManager(object):
         # --- Initialize WapedGP in the outputs
         # --------
         elif model_type =='warpedGP':
-            return WarpedGPModel()
+            return WarpedGPModel(kernel, noise_var, exact_feval, model_optimizer_type, max_iters, optimize_restarts, verbose=verbosity_model)
 
         # --------
         # --- Initialize WapedGP in the inputs
-- 
2.43.0


From 6a100af226cf1c10ee395e577e2c3ba494c1752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:41 +0000
Subject: [PATCH 51/65] fix: second derivative of the normalized probability of
 the minimum

The correction for the normalization is the outer product of the mean gradient with itself, not its elementwise square.
---
 GPyOpt/util/epmgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/util/epmgp.py b/GPyOpt/util/epmgp.py
index e9514a4..6d2659d 100644
--- a/GPyOpt/util/epmgp.py
+++ b/GPyOpt/util/epmgp.py
@@ -113,7 +113,7 @@ def joint_min(mu, var, with_derivatives=False, **kwargs):
 
     ff = np.einsum('ki,kj->kij', dlogPdMuold, dlogPdMuold)
     gg = np.einsum('kij,k->ij', dlogPdMudMuold + ff, np.exp(logPold)) / Z
-    Zij = Zm.T * Zm
+    Zij = np.outer(Zm, Zm)
     adds = np.reshape(-gg + Zij, (1, D, D))
     dlogPdMudMu = dlogPdMudMuold + adds
     return logP, dlogPdMu, dlogPdSigma, dlogPdMudMu
-- 
2.43.0


From 7fa35b1f30463984a5cc2cfadd13004060436afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 52/65] fix: do not scale the rounding error of equal outputs

The mean of equal values may differ from them in the last digit, and the output was then normalized to ones.
---
 GPyOpt/util/general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/util/general.py b/GPyOpt/util/general.py
index b280496..35920e0 100644
--- a/GPyOpt/util/general.py
+++ b/GPyOpt/util/general.py
@@ -219,7 +219,8 @@ def normalize(Y, normalization_type='stats'):
     if normalization_type == 'stats':
         Y_norm = Y - Y.mean()
         std = Y.std()
-        if std > 0:
+        # The mean of equal values may differ from them by a rounding error
+        if std > 0 and np.ptp(Y) > 0:
             Y_norm /= std
     elif normalization_type == 'maxmin':
         Y_norm = Y - Y.min()
-- 
2.43.0


From 8d405f62e424b0bee793a0d3d301bd17cf8a0c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 53/65] fix: the declared minimizer of ackley has one
 coordinate per dimension

---
 GPyOpt/objective_examples/experimentsNd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/objective_examples/experimentsNd.py b/GPyOpt/objective_examples/experimentsNd.py
index 36efbdb..0b2fc28 100644
--- a/GPyOpt/objective_examples/experimentsNd.py
+++ b/GPyOpt/objective_examples/experimentsNd.py
@@ -112,7 +112,7 @@ class ackley:
         else: 
             self.bounds = bounds
 
-        self.min = [(0.)*self.input_dim]
+        self.min = [(0.)]*self.input_dim
         self.fmin = 0
         
         if sd==None: 
-- 
2.43.0


From 18f0451e512318a11115327934878a07709851c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 54/65] fix: sign of the drop-wave function and its minimum

It was negated twice, so that its declared minimizer was its maximizer.
---
 GPyOpt/objective_examples/experiments2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/objective_examples/experiments2d.py b/GPyOpt/objective_examples/experiments2d.py
index 8264afb..862201b 100644
--- a/GPyOpt/objective_examples/experiments2d.py
+++ b/GPyOpt/objective_examples/experiments2d.py
@@ -119,7 +119,7 @@ class dropwave(function2d):
         if bounds is  None: self.bounds = [(-1,1),(-1,1)]
         else: self.bounds = bounds
         self.min = [(0, 0)]
-        self.fmin = 0
+        self.fmin = -1
         if sd==None: self.sd = 0
         else: self.sd=sd
         self.name = 'dropwave'
@@ -135,7 +135,7 @@ class dropwave(function2d):
                 noise = np.zeros(n).reshape(n,1)
             else:
                 noise = np.random.normal(0,self.sd,n).reshape(n,1)
-            return -fval.reshape(n,1) + noise
+            return fval.reshape(n,1) + noise
 
 
 class cosines(function2d):
-- 
2.43.0


From 85ded4f347206253b3f71ea0e2b22baeda7ea614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:06 +0000
Subject: [PATCH 55/65] fix: size of a batch of one point without duplicates

The random evaluator did not stop after its first point, and suggested all the anchor points.
---
 GPyOpt/core/evaluators/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/core/evaluators/base.py b/GPyOpt/core/evaluators/base.py
index 8cfa11f..bc248d5 100644
--- a/GPyOpt/core/evaluators/base.py
+++ b/GPyOpt/core/evaluators/base.py
@@ -62,6 +62,9 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
             already_suggested_points.add(self.zip_and_tuple(x0))
 
         for a in anchor_points:
+            if len(batch) == self.batch_size:
+                break
+
             x = self.optimize_anchor_point(a, duplicate_manager=duplicate_manager, context_manager = self.context_manager)
 
             # We first try to add the optimized anchor point; if we cannot, we then try the initial anchor point.
@@ -77,9 +80,6 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
                     batch.append(a)
                     already_suggested_points.add(zipped_a)
 
-            if len(batch) == self.batch_size:
-                break
-
         if len(batch) < self.batch_size:
             # Note that the case where anchor_points is empty is handled in self.get_anchor_points that would throw a FullyExploredOptimizationDomainError
             print("Warning: the batch of requested size {} could not be entirely filled in (only {} points)".format(self.batch_size, len(batch)))
-- 
2.43.0


From 24c9c470eb103ff94f74d4714391752e82f3ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:37 +0000
Subject: [PATCH 56/65] fix: warp the columns of the numerical variables when
 there are categorical ones

---
 GPyOpt/models/input_warped_gpmodel.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/input_warped_gpmodel.py b/GPyOpt/models/input_warped_gpmodel.py
index 0e88020..048fa5b 100644
--- a/GPyOpt/models/input_warped_gpmodel.py
+++ b/GPyOpt/models/input_warped_gpmodel.py
@@ -75,11 +75,19 @@ class InputWarpedGPModel(GPModel):
         else:
             self.kernel = self.kernel
 
+        # --- columns of the numerical variables (a categorical variable has one column per category)
+        warping_columns = []
+        i = 0
+        for var in self.space.space_expanded:
+            if var.type == 'continuous' or var.type == 'discrete':
+                warping_columns.append(i)
+            i += var.dimensionality_in_model
+
         # --- define model
         noise_var = Y.var()*0.01 if self.noise_var is None else self.noise_var
 
         self.model = GPy.models.InputWarpedGP(X, Y, kernel=self.kernel, warping_function=self.warping_function,
-                                              warping_indices=self.warping_indices, Xmin=X.min(axis=0), Xmax=X.max(axis=0))
+                                              warping_indices=warping_columns, Xmin=X.min(axis=0), Xmax=X.max(axis=0))
 
         # --- restrict variance if exact evaluations of the objective
         if self.exact_feval:
-- 
2.43.0


From 964aa0a9d2a2afd08577944c1c5253aa22778f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:43 +0000
Subject: [PATCH 57/65] fix: use the noise variance given for the input warped
 GP

---
 GPyOpt/models/input_warped_gpmodel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPyOpt/models/input_warped_gpmodel.py b/GPyOpt/models/input_warped_gpmodel.py
index 048fa5b..ea62d02 100644
--- a/GPyOpt/models/input_warped_gpmodel.py
+++ b/GPyOpt/models/input_warped_gpmodel.py
@@ -88,6 +88,7 @@ class InputWarpedGPModel(GPModel):
 
         self.model = GPy.models.InputWarpedGP(X, Y, kernel=self.kernel, warping_function=self.warping_function,
                                               warping_indices=warping_columns, Xmin=X.min(axis=0), Xmax=X.max(axis=0))
+        self.model.Gaussian_noise.variance = noise_var
 
         # --- restrict variance if exact evaluations of the objective
         if self.exact_feval:
-- 
2.43.0


From 73b43d42482ad037e031d388c54a2b7a84d4c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:18 +0000
Subject: [PATCH 58/65] fix: the space does not modify the constraints of the
 user nor follow later changes of them

---
 GPyOpt/core/task/space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index 66e6474..16ef87e 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -78,6 +78,7 @@ class Design_space(object):
         self.model_input_dims = [v.dimensionality_in_model for v in self.space_expanded]
         self.model_dimensionality = sum(self.model_input_dims)
 
+        constraints = deepcopy(constraints) # the dictionaries of the user are not modified
         # Because of the misspelling API used to expect "constrain" as a key
         # This fixes the API but also supports the old form
         if constraints is not None:
-- 
2.43.0


From 19b1eb1eaf8c7cdc49a096cd5a82ed7211e0faa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:26 +0000
Subject: [PATCH 59/65] fix: copy the initial data (changes of the arrays of
 the user reached the optimization)

---
 GPyOpt/core/bo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 1352567..61b73ba 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -48,8 +48,8 @@ class BO(object):
         self.evaluator = evaluator
         self.normalize_Y = normalize_Y
         self.model_update_interval = model_update_interval
-        self.X = X_init
-        self.Y = Y_init
+        self.X = None if X_init is None else np.array(X_init) # the arrays of the user may be reused
+        self.Y = None if Y_init is None else np.array(Y_init)
         self.cost = cost if isinstance(cost, CostModel) else CostModel(cost)
         self.normalization_type = 'stats' ## not added in the API
         self.de_duplication = de_duplication
-- 
2.43.0


From e38b7b6bd79da58fa6de97a99bdbf5a33eb4b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:26 +0000
Subject: [PATCH 60/65] fix: the plot of the acquisition does not reset the
 run, and shows the encoded data and suggestions

---
 GPyOpt/core/bo.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 61b73ba..b774d4b 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -277,24 +277,18 @@ class BO(object):
         :param label_x: Graph's x-axis label, if None it is renamed to 'x' (1D) or 'X1' (2D)
         :param label_y: Graph's y-axis label, if None it is renamed to 'f(x)' (1D) or 'X2' (2D)
         """
-        if self.model.model is None:
-            from copy import deepcopy
-            model_to_plot = deepcopy(self.model)
-            if self.normalize_Y:
-                Y = normalize(self.Y, self.normalization_type)
-            else:
-                Y = self.Y
-            model_to_plot.updateModel(self.X, Y, self.X, Y)
-        else:
-            model_to_plot = self.model
+        # the suggestion updates the model, but it is not a part of the run
+        state = self.model_parameters_iterations, self.num_acquisitions, self.context
+        suggested_locations = self.suggest_next_locations()
+        self.model_parameters_iterations, self.num_acquisitions, self.context = state
 
         return plot_acquisition(self.acquisition.space.get_bounds(),
-                                model_to_plot.model.X.shape[1],
-                                model_to_plot.model,
-                                model_to_plot.model.X,
-                                model_to_plot.model.Y,
+                                self.model.model.X.shape[1],
+                                self.model.model,
+                                self.model.model.X,
+                                self.model.model.Y,
                                 self.acquisition.acquisition_function,
-                                self.suggest_next_locations(),
+                                self.space.unzip_inputs(suggested_locations),
                                 filename,
                                 label_x,
                                 label_y)
-- 
2.43.0


From 9df36556582d304e222dd7803a6d033272cbb350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:26 +0000
Subject: [PATCH 61/65] fix: the plot of the convergence shows the data
 recorded so far

---
 GPyOpt/core/bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index b774d4b..17cc71f 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -300,7 +300,7 @@ class BO(object):
             plot 2: Iterations vs. the mean of the current model in the selected sample.
         :param filename: name of the file where the plot is saved
         """
-        return plot_convergence(self.X,self.Y_best,filename)
+        return plot_convergence(self.X,best_value(self.Y),filename)
 
     def get_evaluations(self):
         return self.X.copy(), self.Y.copy()
-- 
2.43.0


From c8bb9a61eeeed2ec0c50a2d2047b47e071fa33aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:20 +0000
Subject: [PATCH 62/65] fix: use the noise variance given for the sparse GP

---
 GPyOpt/models/gpmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 836031f..b82f2f4 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -67,6 +67,8 @@ class GPModel(BOModel):
             self.model = GPy.models.GPRegression(X, Y, kernel=kern, noise_var=noise_var, mean_function=self.mean_function)
         else:
             self.model = GPy.models.SparseGPRegression(X, Y, kernel=kern, num_inducing=self.num_inducing, mean_function=self.mean_function)
+            if self.noise_var is not None:
+                self.model.Gaussian_noise.variance = self.noise_var
 
         # --- restrict variance if exact evaluations of the objective
         if self.exact_feval:
-- 
2.43.0


From dc10cff6f9e3fef53de3730465fbb9fb756da0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:41 +0000
Subject: [PATCH 63/65] fix: the curves of the plot cover the domain at any
 scale

---
 GPyOpt/plotting/plots_bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/plotting/plots_bo.py b/GPyOpt/plotting/plots_bo.py
index 16771c8..1b61ad1 100644
--- a/GPyOpt/plotting/plots_bo.py
+++ b/GPyOpt/plotting/plots_bo.py
@@ -54,7 +54,7 @@ def plot_acquisition(bounds, input_dim, model, Xdata, Ydata, acquisition_functio
         if not label_y:
             label_y = 'f(x)'
 
-        x_grid = np.arange(bounds[0][0], bounds[0][1], 0.001)
+        x_grid = np.linspace(bounds[0][0], bounds[0][1], 1000)
         x_grid = x_grid.reshape(len(x_grid),1)
         acqu = acquisition_function(x_grid)
         acqu_normalized = (-acqu - min(-acqu))/(max(-acqu - min(-acqu)))
-- 
2.43.0


From 64f6bfa806ed9e23e574bc5337bc13a3e716cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:02 +0000
Subject: [PATCH 64/65] fix: initial data with equal outputs gave the surrogate
 a noise variance of 5e5

---
 GPyOpt/models/gpmodel.py              | 3 ++-
 GPyOpt/models/input_warped_gpmodel.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index b82f2f4..61879bb 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -61,7 +61,8 @@ class GPModel(BOModel):
             self.kernel = None
 
         # --- define model
-        noise_var = Y.var()*0.01 if self.noise_var is None else self.noise_var
+        # (a value outside of the bounds of the noise would be replaced by their middle, 5e5)
+        noise_var = np.clip((Y.var() or 1.)*0.01, 1e-9, 1e6) if self.noise_var is None else self.noise_var
 
         if not self.sparse:
             self.model = GPy.models.GPRegression(X, Y, kernel=kern, noise_var=noise_var, mean_function=self.mean_function)
diff --git a/GPyOpt/models/input_warped_gpmodel.py b/GPyOpt/models/input_warped_gpmodel.py
index ea62d02..06921e1 100644
--- a/GPyOpt/models/input_warped_gpmodel.py
+++ b/GPyOpt/models/input_warped_gpmodel.py
@@ -84,7 +84,8 @@ class InputWarpedGPModel(GPModel):
             i += var.dimensionality_in_model
 
         # --- define model
-        noise_var = Y.var()*0.01 if self.noise_var is None else self.noise_var
+        # (a value outside of the bounds of the noise would be replaced by their middle, 5e5)
+        noise_var = np.clip((Y.var() or 1.)*0.01, 1e-9, 1e6) if self.noise_var is None else self.noise_var
 
         self.model = GPy.models.InputWarpedGP(X, Y, kernel=self.kernel, warping_function=self.warping_function,
                                               warping_indices=warping_columns, Xmin=X.min(axis=0), Xmax=X.max(axis=0))
-- 
2.43.0


From ec632022e6944495bdd4e15c163fc770e1bc9dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:10 +0000
Subject: [PATCH 65/65] fix: the noise variance given by the user did not reach
 the warped surrogate

GPy.models.WarpedGP takes no noise variance, so it is set after its creation, as in the sparse model.
---
 GPyOpt/models/warpedgpmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/models/warpedgpmodel.py b/GPyOpt/models/warpedgpmodel.py
index f6e9e76..8da737c 100644
--- a/GPyOpt/models/warpedgpmodel.py
+++ b/GPyOpt/models/warpedgpmodel.py
@@ -39,9 +39,9 @@ class WarpedGPModel(BOModel):
             self.kernel = self.kernel
 
         # --- define model
-        noise_var = Y.var()*0.01 if self.noise_var is None else self.noise_var
-
         self.model = GPy.models.WarpedGP(X, Y, kernel=self.kernel, warping_function=self.warping_function, warping_terms=self.warping_terms )
+        if self.noise_var is not None:
+            self.model.Gaussian_noise.variance = self.noise_var
 
         # --- restrict variance if exact evaluations of the objective
         if self.exact_feval:
-- 
2.43.0

