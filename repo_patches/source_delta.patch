From 4e77c8ec514878076300864bf83eb7db3d148888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:19 +0000
Subject: [PATCH 01/26] fix: insertion_selection lets every offspring compete,
 not just the first

---
 leap_ec/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 4a098de..8be52c0 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -990,7 +990,7 @@ def insertion_selection(offspring: List, parents: List, key = None) -> List:
                                                         copied_parents[
                                                             selected_parent_index])
 
-        return copied_parents
+    return copied_parents
 
 
 ##############################
-- 
2.43.0


From 4c479feccc0c10aa3b3e45619b76d8edacbcf538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:19 +0000
Subject: [PATCH 02/26] fix: UniformCrossover handles genomes of unequal length

---
 leap_ec/ops.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 8be52c0..583624a 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -491,10 +491,12 @@ class UniformCrossover(Crossover):
         min_length = min(parent_a.genome.shape[0], parent_b.genome.shape[0])
         indices_to_swap = random_bernoulli_vector(min_length, self.p_swap)
 
-        # perform swap
-        tmp = parent_a.genome[indices_to_swap]
-        parent_a.genome[indices_to_swap] = parent_b.genome[indices_to_swap]
-        parent_b.genome[indices_to_swap] = tmp
+        # perform swap (only over the loci that both genomes have)
+        head_a = parent_a.genome[:min_length]
+        head_b = parent_b.genome[:min_length]
+        tmp = head_a[indices_to_swap]
+        head_a[indices_to_swap] = head_b[indices_to_swap]
+        head_b[indices_to_swap] = tmp
 
         return parent_a, parent_b
 
-- 
2.43.0


From f7e675a73813275276dd7abb3098abe9e858de46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:19 +0000
Subject: [PATCH 03/26] fix: NAryCrossover no longer drops the tail of a longer
 second parent

---
 leap_ec/ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 583624a..a99c5dc 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -592,6 +592,9 @@ class NAryCrossover(Crossover):
 
         # Pick crossover points
         xpts = self._pick_crossover_points(len(parent_a.genome))
+        # The last section runs to the end of the longer genome, so that no
+        # genes get lost when parent_b is longer than parent_a
+        xpts[-1] = max(len(parent_a.genome), len(parent_b.genome))
 
         for start, stop in toolz.itertoolz.sliding_window(2, xpts):
             genome1_sections.append(children[src1].genome[start:stop])
-- 
2.43.0


From 85035c26c18276a7e59e7da54eb9a6d570b0bdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:19 +0000
Subject: [PATCH 04/26] fix: clones do not inherit the parent's decoded phenome

---
 leap_ec/individual.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leap_ec/individual.py b/leap_ec/individual.py
index b734ada..1451aed 100644
--- a/leap_ec/individual.py
+++ b/leap_ec/individual.py
@@ -144,6 +144,7 @@ class Individual:
         cloned = copy(self)
         cloned.genome = deepcopy(self.genome)
         cloned.fitness = None
+        cloned._phenome = None  # must be decoded from the clone's own genome
 
         cloned.uuid = uuid.uuid4()
         cloned.parents = {self.uuid}
-- 
2.43.0


From 89739ae48ca4451cc42f5d69d5c5dd34b704b647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:19 +0000
Subject: [PATCH 05/26] fix: grouped_evaluate works with every Problem and
 decodes current genomes

---
 leap_ec/ops.py     |  2 +-
 leap_ec/problem.py | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index a99c5dc..3393691 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -290,7 +290,7 @@ def grouped_evaluate(population: list, max_individuals_per_chunk: int = None) ->
     for chunk in chunks(population, max_individuals_per_chunk):
         # XXX Always passing individuals along to the problem.
         #     Does this create problems with dask, even when we aren't using individuals?
-        fit = problem.evaluate_multiple([c.phenome for c in chunk], individuals=chunk)
+        fit = problem.evaluate_multiple([c.decode() for c in chunk], individuals=chunk)
         fitnesses.extend(fit)
 
     for fit, ind in zip(fitnesses, population):
diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index 71adc50..f94e0c9 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -55,7 +55,7 @@ class Problem(ABC):
         """
         raise NotImplementedError
 
-    def evaluate_multiple(self, phenomes):
+    def evaluate_multiple(self, phenomes, *args, **kwargs):
         """Evaluate multiple phenomes all at once, returning a list of fitness
         values.
 
@@ -344,7 +344,7 @@ class AverageFitnessProblem(Problem):
         fitnesses = [ self.wrapped_problem.evaluate(phenome) for _ in range(self.n) ]
         return np.mean(fitnesses)
 
-    def evaluate_multiple(self, phenomes: list):
+    def evaluate_multiple(self, phenomes: list, individuals: list = None):
         """
         Evaluate a collections of phenomes by creating n jobs for each phenome,
         sending all the jobs to the wrapped evaluate_multiple() function, and then
@@ -362,7 +362,11 @@ class AverageFitnessProblem(Problem):
         expanded_phenomes = [ p for p in phenomes for _ in range(self.n) ]
 
         # Evaluate them
-        fitnesses = self.wrapped_problem.evaluate_multiple(expanded_phenomes)
+        if individuals is None:
+            fitnesses = self.wrapped_problem.evaluate_multiple(expanded_phenomes)
+        else:
+            expanded_individuals = [ i for i in individuals for _ in range(self.n) ]
+            fitnesses = self.wrapped_problem.evaluate_multiple(expanded_phenomes, individuals=expanded_individuals)
 
         # Average the copies back together
         contracted_phenomes = mean_by_chunk(fitnesses)
-- 
2.43.0


From 649c81ab9a5b1296aa26a3ba021794408650c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:19 +0000
Subject: [PATCH 06/26] fix: CooperativeProblem can log its collaborations

---
 leap_ec/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index f94e0c9..6ba247b 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -536,8 +536,8 @@ class CooperativeProblem(Problem):
                              'subpopulation'             : context['leap']['current_subpopulation'],
                              'individual_type'           : 'Collaborator',
                              'collaborator_subpopulation': i,
-                             'genome'                    : collab.genome,
-                             'fitness'                   : collab.fitness})
+                             'genome'                    : collab,
+                             'fitness'                   : None})
 
         writer.writerow({'generation'                : context['leap']['generation'],
                          'subpopulation'             : context['leap']['current_subpopulation'],
-- 
2.43.0


From bd94f5a2c8baee244e6eb17edfdf7f88008868d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:07 +0000
Subject: [PATCH 07/26] fix: copy_segment inserts a copy instead of an alias of
 the segment

---
 leap_ec/segmented_rep/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/leap_ec/segmented_rep/ops.py b/leap_ec/segmented_rep/ops.py
index daa8b6e..809cfca 100644
--- a/leap_ec/segmented_rep/ops.py
+++ b/leap_ec/segmented_rep/ops.py
@@ -3,6 +3,7 @@
     Segmented representation specific pipeline operators.
 """
 from typing import Iterator, Callable
+from copy import deepcopy
 import random
 
 import numpy as np
@@ -203,8 +204,9 @@ def copy_segment(next_individual: Iterator,
         individual = next(next_individual)
 
         if random.random() < probability:
-            copied_segment = \
-                individual.genome[random.randrange(len(individual.genome))]
+            # A true copy, so that the two segments can evolve independently
+            copied_segment = deepcopy(
+                individual.genome[random.randrange(len(individual.genome))])
 
             if append:
                 individual.genome.append(copied_segment)
-- 
2.43.0


From 519c40069c750b3bb2695a0eb26f6f73a632bd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:07 +0000
Subject: [PATCH 08/26] fix: birth_brander brands every individual of a
 pipeline or population

---
 leap_ec/util.py | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/leap_ec/util.py b/leap_ec/util.py
index e45e889..0c633a8 100644
--- a/leap_ec/util.py
+++ b/leap_ec/util.py
@@ -326,10 +326,6 @@ def birth_brander():
     # incremented with each birth
     num_births = itertools.count()
 
-    # sometimes next_thing is a population, so we need this to track that
-    # the next individual in the population
-    iterator = None
-
     def brand(individual):
         """ brand the given individual
         :param individual: to be branded
@@ -358,22 +354,8 @@ def birth_brander():
         :param next_thing: either the next individual in the pipeline or a population of individuals to be branded
         :return: branded individual
         """
-        nonlocal num_births
-        nonlocal iterator
-
-        while True:
-            if is_iterable(next_thing):
-                # We're being passed in a single individual in a pipeline
-                next_thing = next(next_thing)
-            else:
-                # We're being passed a test_sequence/population
-                if iterator is None:
-                    iterator = iter(next_thing)
-                next_thing = next(iterator)
-
-            next_thing = brand(next_thing)
-
-            yield next_thing
+        for individual in next_thing:
+            yield brand(individual)
 
     do_birth_branding.brand_population = brand_population
 
-- 
2.43.0


From 77df194d78c857dd01d699c9a407e15c7a9f6f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:07 +0000
Subject: [PATCH 09/26] fix: crowding distance calculation keeps fronts with
 identical fitnesses

---
 leap_ec/multiobjective/ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/multiobjective/ops.py b/leap_ec/multiobjective/ops.py
index 3f9749c..a8010b1 100644
--- a/leap_ec/multiobjective/ops.py
+++ b/leap_ec/multiobjective/ops.py
@@ -209,7 +209,8 @@ def per_rank_crowding_calc(ranked_population: list, is_maximizing) -> list:
 
     objective_ranges = f_max - f_min
 
-    sorted_pop = []
+    # if there is no spread in any objective, the population is returned as-is
+    sorted_pop = list(ranked_population)
 
     for objective in range(num_objectives):
         if objective_ranges[objective] == 0:
-- 
2.43.0


From dada79ed977bdf64b512dff1dbeb24cf5716a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:07 +0000
Subject: [PATCH 10/26] fix: incremental ranking only pushes down a layer that
 is truly dominated

---
 leap_ec/multiobjective/asynchronous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/multiobjective/asynchronous.py b/leap_ec/multiobjective/asynchronous.py
index b208aff..a219a9f 100644
--- a/leap_ec/multiobjective/asynchronous.py
+++ b/leap_ec/multiobjective/asynchronous.py
@@ -90,8 +90,8 @@ def enlu_inds_rank(start_point, layer_pops):
         # Further check if those individuals are properly dominated
         true_dominated = _set_domination(moving_points, dominated)
 
-        # CASE III: If nondominated is empty, insert moving points as a layer and re-update all ranks
-        if not nondominated:
+        # CASE III: If the whole layer is truly dominated, insert moving points as a layer and re-update all ranks
+        if not nondominated and all(true_dominated):
             layer_pops.insert(depth, moving_points)
             for i, lp in enumerate(layer_pops[depth:]):
                 for ind in lp:
-- 
2.43.0


From 3828bd26e8b46eeace79ba4e6a3c14be2b9ab6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:07 +0000
Subject: [PATCH 11/26] fix: random_search counts evaluations in the given
 context

---
 leap_ec/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/algorithm.py b/leap_ec/algorithm.py
index 380207d..dc31ad4 100644
--- a/leap_ec/algorithm.py
+++ b/leap_ec/algorithm.py
@@ -355,7 +355,8 @@ def random_search(evaluations, problem, representation, pipeline,
 
     # Set up an evaluation counter that records the current generation to
     # context; start at 1 to account for individual we already created.
-    evaluation_counter = util.inc_generation(start_generation=1)
+    evaluation_counter = util.inc_generation(start_generation=1,
+                                             context=context)
 
     while evaluation_counter.generation() < evaluations:
         # Apply the provided reproductive operators to create a new individual.
-- 
2.43.0


From 34c0fabe8a9ab922d2148ba37b340716996a4805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:07 +0000
Subject: [PATCH 12/26] fix: GaussianProblem honours its width and height
 parameters

---
 leap_ec/real_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/real_rep/problems.py b/leap_ec/real_rep/problems.py
index 9bf44bd..da8db4d 100644
--- a/leap_ec/real_rep/problems.py
+++ b/leap_ec/real_rep/problems.py
@@ -934,8 +934,8 @@ class GaussianProblem(ScalarProblem):
     def __init__(self, width=1, height=1, maximize=True):
         assert(width > 0)
         super().__init__(maximize)
-        self.width = 1
-        self.height = 1
+        self.width = width
+        self.height = height
 
     def evaluate(self, phenome):
         assert(phenome is not None)
-- 
2.43.0


From 3bf38ddbb2fa99fb8a74fc163bc92c892989e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:07 +0000
Subject: [PATCH 13/26] fix: random_orthonormal_matrix supports one dimension

---
 leap_ec/real_rep/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/real_rep/problems.py b/leap_ec/real_rep/problems.py
index da8db4d..5b60dc5 100644
--- a/leap_ec/real_rep/problems.py
+++ b/leap_ec/real_rep/problems.py
@@ -1410,7 +1410,7 @@ def random_orthonormal_matrix(dimensions: int):
                             f"norm of {np.linalg.norm(matrix[0])}, " \
                             f"but it should always be approximately 1.0. "
     # Any pair of vectors will be linearly independent
-    assert (abs(round(np.dot(matrix[0], matrix[1]), 5)) ==
+    assert (dimensions < 2 or abs(round(np.dot(matrix[0], matrix[1]), 5)) ==
             0.0), f"A pair of columns in the transformation matrix has " \
                     f"dot product of {round(np.dot(matrix[0], matrix[1]),5)},"\
                     f" but it should always be approximately 0.0. "
-- 
2.43.0


From a7467790626c0d0e6010f3b6926a97bd85b5b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:25 +0000
Subject: [PATCH 14/26] fix: fitness-proportionate selection handles
 populations of all-zero value

---
 leap_ec/ops.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 3393691..6d4afbd 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -670,6 +670,10 @@ def proportional_selection(population: List, offset=0, exponent: int = 1,
     if (values < 0.0).any():
         raise ValueError('negative value found after applying offset.')
 
+    # if every value is zero there is nothing to tell individuals apart by
+    if not values.any():
+        values = np.ones(values.shape)
+
     population_total = np.sum(values)
     proportions = values / population_total
 
@@ -746,6 +750,10 @@ def sus_selection(population: List, n=None, shuffle: bool = True,
     if (values < 0.0).any():
         raise ValueError('negative value found after applying offset.')
 
+    # if every value is zero there is nothing to tell individuals apart by
+    if not values.any():
+        values = np.ones(values.shape)
+
     population_total = np.sum(values)
     even_spacing = population_total / n
     random_start = np.random.uniform(low=0.0, high=even_spacing)
-- 
2.43.0


From d30cd2c71507662b253715fcf1df68208e05a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:25 +0000
Subject: [PATCH 15/26] fix: ELAConvexity.linear_p compares against the
 magnitude of its threshold

---
 leap_ec/landscape_features/exploratory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/landscape_features/exploratory.py b/leap_ec/landscape_features/exploratory.py
index 3bf2d0d..74002e7 100644
--- a/leap_ec/landscape_features/exploratory.py
+++ b/leap_ec/landscape_features/exploratory.py
@@ -246,7 +246,7 @@ class ELAConvexity():
 
         .. math::
 
-            | \\delta | < \\tau
+            | \\delta | < | \\tau |
 
         where :math:`\\tau` is a small negative threshold (typically :math:`-10^{-10}`).
 
@@ -255,7 +255,7 @@ class ELAConvexity():
         assert(threshold < 0)
         lessthan_count = 0
         for d in self.deltas:
-            if np.abs(d) < threshold:
+            if np.abs(d) < np.abs(threshold):
                 lessthan_count += 1
         
         ratio = lessthan_count/len(self.deltas)
-- 
2.43.0


From 5ba9346f3a806b21488dc0036047cebc34fc0fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:25 +0000
Subject: [PATCH 16/26] fix: EnvironmentProblem reports its number of inputs
 and outputs

---
 leap_ec/executable_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/executable_rep/problems.py b/leap_ec/executable_rep/problems.py
index 008312b..7bb67a7 100644
--- a/leap_ec/executable_rep/problems.py
+++ b/leap_ec/executable_rep/problems.py
@@ -41,12 +41,12 @@ class EnvironmentProblem(ScalarProblem):
     @property
     def num_inputs(self):
         """Return the number of dimensions in the environment's input space."""
-        self.space_dimensions(self.environment.observation_space)
+        return self.space_dimensions(self.environment.observation_space)
 
     @property
     def num_outputs(self):
         """Return the number of dimensions in the environment's action space."""
-        self.space_dimensions(self.environment.action_space)
+        return self.space_dimensions(self.environment.action_space)
 
     @classmethod
     def _reward_fitness(cls, observations, rewards):
-- 
2.43.0


From 056960b6074a5588cf4ee9c0904dd4053f41dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:25 +0000
Subject: [PATCH 17/26] fix: PlotPittRuleProbe updates every modulo generations
 instead of crashing

---
 leap_ec/executable_rep/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index 5a915ec..87b13b4 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -847,7 +847,7 @@ class PlotPittRuleProbe:
         if self.modulo > 1:
             assert ('generation' in self.context['leap'])
             step = self.context['leap']['generation']
-            if step % modulo == 0:
+            if step % self.modulo != 0:
                 return population
 
         # Otherwise, do our thang!
-- 
2.43.0


From 638a709c1adf3e928fa0db1f84d55f77834c674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:25 +0000
Subject: [PATCH 18/26] fix: PittRulesDecoder pairs up condition bounds for
 multi-dimensional inputs

---
 leap_ec/executable_rep/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index 87b13b4..b2588bc 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -227,8 +227,8 @@ class PittRulesDecoder(Decoder):
             def create_rule():
                 "Initialize a rule by sampling all its conditions and actions."
                 # Sample values uniformly within each variable's range
-                low = self.input_space.sample()
-                high = self.input_space.sample()
+                low = self.input_space.sample().flatten()
+                high = self.input_space.sample().flatten()
                 condition_pairs = list(zip(low, high))
                 condition_genes = np.array(condition_pairs).flatten()
 
-- 
2.43.0


From 3a9976f19444e4eade12142ba8f0af85d14d202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 19/26] fix: ea_solve returns the best individual found, even
 from the initial population

---
 leap_ec/simple.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/leap_ec/simple.py b/leap_ec/simple.py
index 350d4dd..3f961eb 100644
--- a/leap_ec/simple.py
+++ b/leap_ec/simple.py
@@ -122,5 +122,6 @@ def ea_solve(function, bounds, generations=100, pop_size=cpu_count(),
 
                          pipeline=pipeline)
 
-    # Return the genome of the best-found individual
-    return bsf_probe.bsf.genome
+    # Return the genome of the best-found individual; elitism keeps it in the
+    # population (bsf_probe never sees the initial population)
+    return max(final_pop).genome
-- 
2.43.0


From d14523eea892b7db441ec2870f1d8f16d6d7da52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:30 +0000
Subject: [PATCH 20/26] fix: MaxOnes and LeadingOnes report a target-length
 mismatch instead of a NameError

---
 leap_ec/binary_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/binary_rep/problems.py b/leap_ec/binary_rep/problems.py
index c5e045e..33e85e3 100644
--- a/leap_ec/binary_rep/problems.py
+++ b/leap_ec/binary_rep/problems.py
@@ -55,7 +55,7 @@ class MaxOnes(ScalarProblem):
                               f"Got {type(phenome)}."))
         # If we've 
         if self.target_string is not None:
-            assert(len(phenome) == len(self.target_string)), f"Fitness function target string has {len(self.target_string)} dimensions, but received a phenome with {len(individual.phenome)} dimensions."
+            assert(len(phenome) == len(self.target_string)), f"Fitness function target string has {len(self.target_string)} dimensions, but received a phenome with {len(phenome)} dimensions."
             return np.sum(phenome == self.target_string)
         else:
             return np.count_nonzero(phenome == 1)
@@ -106,7 +106,7 @@ class LeadingOnes(ScalarProblem):
                               f"Got {type(phenome)}."))
         
         if self.target_string is not None:
-            assert(len(phenome) == len(self.target_string)), f"Fitness function target string has {len(self.target_string)} dimensions, but received a phenome with {len(individual.phenome)} dimensions."
+            assert(len(phenome) == len(self.target_string)), f"Fitness function target string has {len(self.target_string)} dimensions, but received a phenome with {len(phenome)} dimensions."
             match_str = (phenome == self.target_string)
         else:
             match_str = (phenome == 1)
-- 
2.43.0


From 5cf4218fc108df49b3464ad19a07248d12b8b0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:52 +0000
Subject: [PATCH 21/26] fix: CGPWithParametersDecoder reports a wrong parameter
 count instead of an AttributeError

---
 leap_ec/executable_rep/cgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/cgp.py b/leap_ec/executable_rep/cgp.py
index 6039c5f..c334b8a 100644
--- a/leap_ec/executable_rep/cgp.py
+++ b/leap_ec/executable_rep/cgp.py
@@ -569,7 +569,7 @@ class CGPWithParametersDecoder(CGPDecoder):
         executable = super().decode(circuit_genome)
 
         # Add the parameter attributes to each node of the phenotype
-        assert(len(parameters_genome) == self.num_parameters_per_node*self.nodes_per_layer*self.num_layers), f"Expected the parameter segment of the genome to contain {self.num_parameters_per_node*self.cgp_decoder.nodes_per_layer*self.cgp_decoder.num_layers} parameters ({self.num_parameters_per_node} for each computational node), but found {len(parameters_genome)}."
+        assert(len(parameters_genome) == self.num_parameters_per_node*self.nodes_per_layer*self.num_layers), f"Expected the parameter segment of the genome to contain {self.num_parameters_per_node*self.nodes_per_layer*self.num_layers} parameters ({self.num_parameters_per_node} for each computational node), but found {len(parameters_genome)}."
         for layer in range(self.num_layers):
             for node in range(self.nodes_per_layer):
                 computational_node_id = layer*self.nodes_per_layer + node
-- 
2.43.0


From a8313176d417d870d5b53c66d25c71b2681beca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:52 +0000
Subject: [PATCH 22/26] fix: PlotPittRuleProbe plots the dimensions it was
 asked for

---
 leap_ec/executable_rep/rules.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index b2588bc..9eb8260 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -778,7 +778,7 @@ class PlotPittRuleProbe:
         assert(len(plot_dimensions) == 2)
         self.decoder = decoder
         if self.decoder.num_inputs > 2:
-            logging.warn(f"The given rule system specification has more than 2 dimensions per rule, but {PlotPittRuleProbe.__name__} will only visualize the first two conditions on each rule.")
+            logging.warn(f"The given rule system specification has more than 2 dimensions per rule, but {PlotPittRuleProbe.__name__} will only visualize two conditions on each rule.")
         if self.decoder.num_outputs > 1:
             logging.warn(f"The given rule system specification has more than 1 output action per rule, but {PlotPittRuleProbe.__name__} will only use the first action to determine box color.")
 
@@ -816,9 +816,10 @@ class PlotPittRuleProbe:
             if len(rule.conditions) < 2:
                 raise ValueError(f"Found a rule with less than two input dimensions when trying to run {PlotPittRuleProbe.__name__}.  We need at least two conditions to plot a rule box!")
                 
-            # Get bounds for the first two conditions
-            x_low, x_high = rule.conditions[0]
-            y_low, y_high = rule.conditions[1]
+            # Get bounds for the two conditions we've been asked to visualize
+            x_dim, y_dim = self.plot_dimensions
+            x_low, x_high = rule.conditions[x_dim]
+            y_low, y_high = rule.conditions[y_dim]
 
             # Visualize wildcard rules as covering the whole range
             if x_low > x_high:
-- 
2.43.0


From 5623ec7a49bbd9432d16478d6fe99e7fafc768f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:03 +0000
Subject: [PATCH 23/26] fix: segmented_mutate reports a segment-count mismatch
 instead of a NameError

---
 leap_ec/segmented_rep/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/segmented_rep/ops.py b/leap_ec/segmented_rep/ops.py
index 809cfca..858b9ae 100644
--- a/leap_ec/segmented_rep/ops.py
+++ b/leap_ec/segmented_rep/ops.py
@@ -75,7 +75,7 @@ def segmented_mutate(next_individual: Iterator, mutator_functions: list):
     """
     while True:
         individual = next(next_individual)
-        assert(len(individual.genome) == len(mutator_functions)), f"Found {len(individual.genome)} segments in this genome, but we've got {len(mutators)} mutators."
+        assert(len(individual.genome) == len(mutator_functions)), f"Found {len(individual.genome)} segments in this genome, but we've got {len(mutator_functions)} mutators."
 
         mutated_genome = []
         for segment, m in zip(individual.genome, mutator_functions):
-- 
2.43.0


From e41221c8293acd23ac4839ddfe94ec9aad103b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:03 +0000
Subject: [PATCH 24/26] fix: ParetoPlotProbe2D creates its own axes when none
 are given

---
 leap_ec/multiobjective/probe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/multiobjective/probe.py b/leap_ec/multiobjective/probe.py
index 23e1de5..04668b6 100644
--- a/leap_ec/multiobjective/probe.py
+++ b/leap_ec/multiobjective/probe.py
@@ -41,7 +41,7 @@ class ParetoPlotProbe2D(PopulationMetricsPlotProbe):
                          title=title, modulo=step,
                          context=context)
 
-        self.scatterplot = ax.scatter([], []) # scatterplot for fitnesses
+        self.scatterplot = self.ax.scatter([], []) # scatterplot for fitnesses
 
     def __call__(self, population):
         assert (population is not None)
-- 
2.43.0


From f9d045dd65959ad566efffd85ee07317d7a707e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:10 +0000
Subject: [PATCH 25/26] fix: stochastic_chisquare tolerates rounding in
 fractional expected counts

---
 leap_ec/statistical_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/statistical_helpers.py b/leap_ec/statistical_helpers.py
index c046daf..baa5cbf 100644
--- a/leap_ec/statistical_helpers.py
+++ b/leap_ec/statistical_helpers.py
@@ -74,7 +74,8 @@ def stochastic_chisquare(expected_distribution, distribution):
     >>> stochastic_chisquare(expected_distribution, distribution)
     1.0
     """
-    assert(sum(expected_distribution.values()) == sum(distribution.values())), f"The distributions have {sum(expected_distribution.values())} and {sum(distribution.values())} samples, respectively, but must be equal."
+    # Expected counts are often fractional, so their sum may be off by rounding error
+    assert(np.isclose(sum(expected_distribution.values()), sum(distribution.values()), rtol=1e-9)), f"The distributions have {sum(expected_distribution.values())} and {sum(distribution.values())} samples, respectively, but must be equal."
     
     values, expected_values = _normalize_dicts(distribution, expected_distribution)
 
-- 
2.43.0


From b199e42f148c8d690ec50792556a3f0182b1d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:41 +0000
Subject: [PATCH 26/26] fix: metric plot probes draw on their own lines when
 the axes already hold others

---
 leap_ec/probe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/leap_ec/probe.py b/leap_ec/probe.py
index bd58cd1..9eb5a93 100644
--- a/leap_ec/probe.py
+++ b/leap_ec/probe.py
@@ -650,7 +650,7 @@ class PopulationMetricsPlotProbe:
 
             for i, m in enumerate(self.metrics):
                 self.y[i] = np.append(self.y[i], m(population))
-                line = self.ax.lines[i]
+                line = self.lines[i]
                 line.set_xdata(self.x)
                 line.set_ydata(self.y[i])
 
@@ -664,8 +664,8 @@ class PopulationMetricsPlotProbe:
         # Create an empty line for each metric
         self.x = np.array([])
         self.y = [ np.array([]) for _ in range(len(self.metrics)) ]
-        for _ in range(len(self.metrics)):
-            self.ax.plot([], [])
+        if not hasattr(self, 'lines'):  # The axes may hold other lines, too, so remember our own
+            self.lines = [ self.ax.plot([], [])[0] for _ in range(len(self.metrics)) ]
 
     def _rescale_ax(self):
         l = np.min(self.x)
-- 
2.43.0

