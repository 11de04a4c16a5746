From 47fb668fa8283bfff5d6bf0fe5fa2480a2e83044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:51 +0000
Subject: [PATCH 01/19] fix: k-point crossover exchanges every second segment
 between crossover points

---
 eckity/genetic_operators/crossovers/vector_k_point_crossover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/crossovers/vector_k_point_crossover.py b/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
index d58fb19..5c3e589 100644
--- a/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
+++ b/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
@@ -85,4 +85,4 @@ class VectorKPointsCrossover(GeneticOperator):
             replaced_part = vector1[start_idx:end_idx]
             vector1[start_idx:end_idx] = vector2[start_idx:end_idx]
             vector2[start_idx:end_idx] = replaced_part
-            start_idx = xo_points[i + 1] if end_idx < len(xo_points) else -1
+            start_idx = xo_points[i + 1] if i + 1 < len(xo_points) else -1
-- 
2.43.0


From d1bcfeb2bfef919d3fb7bb254a834acd6269b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 02/19] fix: population evaluator stores scores, not
 individuals, in submit mode

---
 eckity/evaluators/simple_population_evaluator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eckity/evaluators/simple_population_evaluator.py b/eckity/evaluators/simple_population_evaluator.py
index e0f1b54..d61c6ef 100644
--- a/eckity/evaluators/simple_population_evaluator.py
+++ b/eckity/evaluators/simple_population_evaluator.py
@@ -48,9 +48,7 @@ class SimplePopulationEvaluator(PopulationEvaluator):
 
         if self.executor_method == "submit":
             eval_futures = [
-                self.executor.submit(
-                    sp_eval.evaluate, ind, sub_population.individuals
-                )
+                self.executor.submit(sp_eval.evaluate_individual, ind)
                 for ind in sub_population.individuals
             ]
             eval_results = [future.result() for future in eval_futures]
-- 
2.43.0


From 32be9497cf0d2a46f2b5c1a5fe9eb3c1de41a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 03/19] fix: NSGA2Fitness.better_than prefers the lower front
 rank, as documented

---
 eckity/multi_objective_evolution/nsga2_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_fitness.py b/eckity/multi_objective_evolution/nsga2_fitness.py
index 3bc7714..a5c29d5 100644
--- a/eckity/multi_objective_evolution/nsga2_fitness.py
+++ b/eckity/multi_objective_evolution/nsga2_fitness.py
@@ -82,7 +82,7 @@ class NSGA2Fitness(Fitness):
             self.check_comparable_fitnesses(other_fitness, ind, other_ind)
             if self.front_rank == other_ind.fitness.front_rank:
                 return self.crowding > other_ind.fitness.crowding
-            return self.front_rank > other_ind.fitness.front_rank
+            return self.front_rank < other_ind.fitness.front_rank
 
     def equal_to(self, ind, other_fitness, other_ind):
         return (
-- 
2.43.0


From f19fd5c7d18769b6e89ee40befcf5a5c53b9f015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 04/19] fix: elites reach the next generation unmodified by
 genetic operators

---
 eckity/breeders/simple_breeder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eckity/breeders/simple_breeder.py b/eckity/breeders/simple_breeder.py
index 6836646..bcd1dcb 100644
--- a/eckity/breeders/simple_breeder.py
+++ b/eckity/breeders/simple_breeder.py
@@ -49,6 +49,7 @@ class SimpleBreeder(Breeder):
                     )
 
             nextgen_population = []
+            elites = []
 
             num_elites = subpopulation.n_elite
             if num_elites > 0:
@@ -59,6 +60,7 @@ class SimpleBreeder(Breeder):
                 elitism_sel.apply_operator(
                     (subpopulation.individuals, nextgen_population)
                 )
+                elitism_sel.apply_operator((subpopulation.individuals, elites))
 
             self.selected_individuals = subpopulation.get_selection_methods()[
                 0
@@ -70,6 +72,9 @@ class SimpleBreeder(Breeder):
                 self.selected_individuals,
             )
 
+            # elites are copied as-is, operators must not alter them
+            nextgen_population[:num_elites] = elites
+
             subpopulation.individuals = nextgen_population
 
     def _apply_operators(self, operator_seq, individuals_to_apply_on):
-- 
2.43.0


From 386f95937f669b6054f2a7629b83c78c2feede18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 05/19] fix: VectorNPointMutation returns the individuals when
 all attempts fail

---
 eckity/genetic_operators/mutations/vector_n_point_mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 253c623..2674d7d 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -133,4 +133,4 @@ class VectorNPointMutation(FailableOperator):
         payload : object
             relevant data for on_fail (usually the individuals that the mutation was attempted to be applied on)
         """
-        pass
+        return payload
-- 
2.43.0


From 24e197c7df90439e816198c2d0a68085c504e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 06/19] fix: default_mut_val_getter passes only the cell index

---
 eckity/genetic_operators/mutations/vector_n_point_mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 2674d7d..e0fe527 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -69,7 +69,7 @@ class VectorNPointMutation(FailableOperator):
 
     @staticmethod
     def default_mut_val_getter(vec: Vector, idx: int) -> Union[int, float]:
-        return vec.get_random_number_in_bounds(vec, idx)
+        return vec.get_random_number_in_bounds(idx)
 
     @staticmethod
     def default_success_checker(old_vec: Vector, new_vec: Vector) -> bool:
-- 
2.43.0


From bbea8d15e238b4c3670645c376254cabfba724ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 07/19] fix: check_if_in_bounds handles per-cell bounds of
 two-cell vectors

---
 eckity/genetic_encodings/ga/vector_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/ga/vector_individual.py b/eckity/genetic_encodings/ga/vector_individual.py
index 8e6939e..42f015b 100644
--- a/eckity/genetic_encodings/ga/vector_individual.py
+++ b/eckity/genetic_encodings/ga/vector_individual.py
@@ -89,7 +89,7 @@ class Vector(Individual):
             True if all vector cells are in bounds, False otherwise
         """
         for i in range(self.size()):
-            if len(self.bounds) == 2:
+            if type(self.bounds) == tuple:
                 if (self.vector[i] < self.bounds[0]) or (
                     self.vector[i] > self.bounds[1]
                 ):
-- 
2.43.0


From 01d81189328d86d9eb588ed06260f3000c1d758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 08/19] fix: IntVector default bounds were swapped

---
 eckity/genetic_encodings/ga/int_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eckity/genetic_encodings/ga/int_vector.py b/eckity/genetic_encodings/ga/int_vector.py
index aa99d3f..2324e76 100644
--- a/eckity/genetic_encodings/ga/int_vector.py
+++ b/eckity/genetic_encodings/ga/int_vector.py
@@ -6,8 +6,8 @@ from random import randint
 
 from eckity.genetic_encodings.ga.vector_individual import Vector
 
-MIN_BOUND = 2**31 - 1
-MAX_BOUND = -(2**31)
+MIN_BOUND = -(2**31)
+MAX_BOUND = 2**31 - 1
 
 
 class IntVector(Vector):
-- 
2.43.0


From 6d37a46234717aff5eca434ca059efb03b72bf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 09/19] fix: an operator with probability 0 is never applied

---
 eckity/genetic_operators/genetic_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/genetic_operator.py b/eckity/genetic_operators/genetic_operator.py
index 95220c1..9e440b2 100644
--- a/eckity/genetic_operators/genetic_operator.py
+++ b/eckity/genetic_operators/genetic_operator.py
@@ -42,7 +42,7 @@ class GeneticOperator(Operator, ABC):
         List[Individual]
             The individuals after applying the operator.
         """
-        if random.random() <= self.probability:
+        if random.random() < self.probability:
             # Fitness is irrelevant once the operator is applied
             for individual in individuals:
                 individual.set_fitness_not_evaluated()
-- 
2.43.0


From 22a33da7ce145934a6cbd7f4f104175fdd9f78c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 10/19] fix: registering without a callback registers a
 callable

---
 eckity/before_after_publisher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index fc507a5..b65e936 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -20,7 +20,7 @@ class BeforeAfterPublisher:
     def register(self, event, callback=None):
         # TODO warning if register to a fake event
         if callback is None:
-            callback = {lambda _: None}
+            callback = lambda *_: None
         self._get_subscribers(event)[self.customers_id] = callback
         self.customers_id += 1
         return self.customers_id - 1
-- 
2.43.0


From 27df3a2560c269c6771e332d13735eb9f893b889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 11/19] fix: selection methods build a subscribers dictionary
 so act() can publish

---
 eckity/genetic_operators/selections/selection_method.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eckity/genetic_operators/selections/selection_method.py b/eckity/genetic_operators/selections/selection_method.py
index 149579f..835be34 100644
--- a/eckity/genetic_operators/selections/selection_method.py
+++ b/eckity/genetic_operators/selections/selection_method.py
@@ -5,9 +5,7 @@ from eckity.event_based_operator import Operator
 
 class SelectionMethod(Operator):
     def __init__(self, events=None, higher_is_better=False):
-        if events is None:
-            events = ["after_selection"]
-        super().__init__(events=events)
+        super().__init__(events=events, event_names=["after_selection"])
         self.higher_is_better = higher_is_better
         self.selected_individuals = None
 
-- 
2.43.0


From 50b56eb42a023b84e01a39300e1d2d4aae7fbaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 12/19] fix: HalfCreator passes its bloat weight to the grow
 and full creators

---
 eckity/creators/gp_creators/half.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/creators/gp_creators/half.py b/eckity/creators/gp_creators/half.py
index f24ed9a..55302a5 100644
--- a/eckity/creators/gp_creators/half.py
+++ b/eckity/creators/gp_creators/half.py
@@ -63,6 +63,7 @@ class HalfCreator(GPTreeCreator):
                 init_depth=self.init_depth,
                 function_set=self.function_set,
                 terminal_set=self.terminal_set,
+                bloat_weight=bloat_weight,
                 events=self.events,
                 root_type=root_type,
                 erc_range=self.erc_range,
@@ -72,6 +73,7 @@ class HalfCreator(GPTreeCreator):
                 init_depth=self.init_depth,
                 function_set=self.function_set,
                 terminal_set=self.terminal_set,
+                bloat_weight=bloat_weight,
                 events=self.events,
                 root_type=root_type,
                 erc_range=self.erc_range,
-- 
2.43.0


From 7f6618995adbd22ead0919b2545844110f43e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 13/19] fix: NSGA-II front removal keeps the individuals order
 (reproducible runs)

---
 eckity/multi_objective_evolution/nsga2_front_sorting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_front_sorting.py b/eckity/multi_objective_evolution/nsga2_front_sorting.py
index 3e34ef2..e4deb71 100644
--- a/eckity/multi_objective_evolution/nsga2_front_sorting.py
+++ b/eckity/multi_objective_evolution/nsga2_front_sorting.py
@@ -58,7 +58,8 @@ class NSGA2FrontSorting():
 		for dominating_ind in pareto_front:
 			for dominated_ind in self.domination_dict[dominating_ind].dominates:
 				self.domination_dict[dominated_ind].domination_counter -= 1
-		return list(set(source_inds) - set(pareto_front))
+		removed = set(pareto_front)
+		return [ind for ind in source_inds if ind not in removed]
 
 	def _update_new_pareto_front_rank(self, new_pareto_front: List[Individual], front_rank: int):
 		for ind in new_pareto_front:
-- 
2.43.0


From 42bdf5e767e17aec17cad51da877656e96373195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 14/19] fix: random_terminal returns terminals of the requested
 type only

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 58fa8d4..e7abd79 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -203,7 +203,7 @@ class Tree(Individual):
         ]
 
         if self.erc_range is not None and (
-            node_type is None or issubclass(node_type, Number)
+            node_type is None or node_type is self.erc_type
         ):
             relevant_terminals.append(
                 random.uniform(*self.erc_range)
@@ -217,11 +217,6 @@ class Tree(Individual):
 
         terminal = random.choice(relevant_terminals)
 
-        # erc terminal will be typeless in untyped case,
-        # and int/float in typed case
-        default_type = None if node_type is None else type(terminal)
-        node_type = self.terminal_set.get(terminal, default_type)
-
         return TerminalNode(terminal, node_type=node_type)
 
     def execute(self, *args, **kwargs) -> object:
-- 
2.43.0


From ed48dfc5e979d728ec4c9200f0c9b6b286e54ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 15/19] fix: constants in the terminal set are not required as
 execute arguments

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index e7abd79..101bc99 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -264,7 +264,11 @@ class Tree(Individual):
                 f"received variable arguments not in terminal set: {bad_vars}"
             )
 
-        missing_vars = [item for item in self.terminal_set if item not in kw]
+        missing_vars = [
+            item
+            for item in self.terminal_set
+            if not isinstance(item, Number) and item not in kw
+        ]
         if len(missing_vars) > 0:
             raise ValueError(
                 f"Missing variable terminals as execute kwargs: {missing_vars}"
-- 
2.43.0


From 80d14e5de11d2a0bf0284c2fffaec636a0d43c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 16/19] fix: constant programs are not truncated to the dtype
 of an integer input

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 101bc99..3fa79b2 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -278,7 +278,9 @@ class Tree(Individual):
 
         if reshape and (isinstance(res, Number) or res.shape == np.shape(0)):
             # sometimes a tree degenrates to a scalar value
-            res = np.full_like(X[:, 0], res)
+            res = np.full_like(
+                X[:, 0], res, dtype=np.result_type(X, res)
+            )
         return res
 
     def _execute(self, pos, **kwargs):
-- 
2.43.0


From d1d917a9a9b40718863d5269f6819f3eb846ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 17/19] fix: final_generation_ is set when the generation limit
 ends the run

---
 eckity/algorithms/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/algorithms/algorithm.py b/eckity/algorithms/algorithm.py
index fdb24fb..99e7258 100644
--- a/eckity/algorithms/algorithm.py
+++ b/eckity/algorithms/algorithm.py
@@ -285,8 +285,8 @@ class Algorithm(Operator, ABC):
 
             self.set_generation_seed(self.next_seed())
             self.generation_iteration(gen)
+            self.final_generation_ = gen
             if self.should_terminate(self.population, self.best_of_run_, gen):
-                self.final_generation_ = gen
                 self.publish("after_generation")
                 break
             self.publish("after_generation")
-- 
2.43.0


From 14f2bb2275ec4c141f442303647c8914e8b4bb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:50 +0000
Subject: [PATCH 18/19] fix: printing a tree with constants in an untyped
 terminal set does not raise

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 3fa79b2..7d0b4ac 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -500,7 +500,7 @@ class Tree(Individual):
             return typed_add(1.0, 2.0)
         """
         args = (
-            list(self.terminal_set.keys())
+            [str(term) for term in self.terminal_set]
             if None in self.terminal_set.values()
             else [f"{k}: {v.__name__}" for k, v in self.terminal_set.items()]
         )
-- 
2.43.0


From f4da46e87f036af58573bbc9a2be1042d798a889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:04 +0000
Subject: [PATCH 19/19] fix: NSGA2Evolution shuts its executor down when the
 run finishes

---
 eckity/multi_objective_evolution/nsga2_evolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index fd26bea..b7a7a69 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -154,6 +154,7 @@ class NSGA2Evolution(Algorithm):
         """
         Finish the evolutionary run by showing the best individual and printing the best fitness
         """
+        super().finish()
         self.best_of_run_.show()
         logger.info(self.best_of_run_.get_pure_fitness())
 
-- 
2.43.0

