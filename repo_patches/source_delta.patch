From c6ae78dee7a66e168fb94cd7cad79272420f3ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 01/90] fix: break tournament ties with the run's random state
 (NSGA-III, U-NSGA-III, NicheGA)

---
 pymoo/algorithms/moo/nsga3.py                | 1 +
 pymoo/algorithms/moo/unsga3.py               | 1 +
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 4 +++-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/nsga3.py b/pymoo/algorithms/moo/nsga3.py
index 6bcfd31..f54b6fd 100644
--- a/pymoo/algorithms/moo/nsga3.py
+++ b/pymoo/algorithms/moo/nsga3.py
@@ -40,6 +40,7 @@ def comp_by_cv_then_random(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible just set random
diff --git a/pymoo/algorithms/moo/unsga3.py b/pymoo/algorithms/moo/unsga3.py
index 2c79694..c88becf 100644
--- a/pymoo/algorithms/moo/unsga3.py
+++ b/pymoo/algorithms/moo/unsga3.py
@@ -39,6 +39,7 @@ def comp_by_rank_and_ref_line_dist(pop, P, random_state=None, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # both solutions are feasible
diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 727e76c..2979bed 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -60,7 +60,7 @@ class NicheTermination(DefaultTermination):
 # =========================================================================================================
 
 
-def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
+def comp_by_cv_and_clearing_fitness(pop, P, random_state=None, **kwargs):
     S = np.full(P.shape[0], np.nan)
 
     for i in range(P.shape[0]):
@@ -75,6 +75,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                 pop[b].CV,
                 method="smaller_is_better",
                 return_random_if_equal=True,
+                random_state=random_state,
             )
 
         # first compare by the round the individual was selected
@@ -90,6 +91,7 @@ def comp_by_cv_and_clearing_fitness(pop, P, **kwargs):
                     pop[b].get("rank"),
                     method="smaller_is_better",
                     return_random_if_equal=True,
+                    random_state=random_state,
                 )
 
     return S[:, None].astype(int)
-- 
2.43.0


From 19508886e10a19510ba0a63320216a499f7dff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 02/90] fix: pattern search explores in an order drawn from the
 run's random state

---
 pymoo/algorithms/soo/nonconvex/pattern.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/pattern.py b/pymoo/algorithms/soo/nonconvex/pattern.py
index aa0dd66..02a22ed 100644
--- a/pymoo/algorithms/soo/nonconvex/pattern.py
+++ b/pymoo/algorithms/soo/nonconvex/pattern.py
@@ -77,7 +77,9 @@ class PatternSearch(LocalSearch):
             self._rho = self.init_rho**self.n_not_improved
 
             # explore around the current center - try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._center, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem, self._center, self._sign, self._delta, self._rho, random_state=self.random_state
+            )
 
         # if we have found a direction in the last iteration to be worth following
         else:
@@ -94,7 +96,9 @@ class PatternSearch(LocalSearch):
             self._sign = calc_sign(self._direction)
 
             # explore around the current center to try finding a suitable direction
-            self._explr = yield from exploration_move(self.problem, self._trial, self._sign, self._delta, self._rho)
+            self._explr = yield from exploration_move(
+                self.problem, self._trial, self._sign, self._delta, self._rho, random_state=self.random_state
+            )
 
         self.pop = Population.create(self._center, self._explr)
 
-- 
2.43.0


From a01e3fca8003bdbfd32b6fd5705861323c1a4a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 03/90] fix: random out-of-bounds repairs use the random state
 of the operator

---
 pymoo/operators/crossover/dex.py          | 2 +-
 pymoo/operators/mutation/gauss.py         | 2 +-
 pymoo/operators/repair/inverse_penalty.py | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymoo/operators/crossover/dex.py b/pymoo/operators/crossover/dex.py
index 71ce93c..b768ce1 100644
--- a/pymoo/operators/crossover/dex.py
+++ b/pymoo/operators/crossover/dex.py
@@ -114,7 +114,7 @@ class DEX(Crossover):
                 Xp[m] = de_differential(X[:, m], F, random_state=random_state)
 
             # if still infeasible do a random initialization
-            Xp = repair_random_init(Xp, X[0], *problem.bounds())
+            Xp = repair_random_init(Xp, X[0], *problem.bounds(), random_state=random_state)
 
         if self.variant == "bin":
             M = mut_binomial(
diff --git a/pymoo/operators/mutation/gauss.py b/pymoo/operators/mutation/gauss.py
index 57417f4..4d1b324 100644
--- a/pymoo/operators/mutation/gauss.py
+++ b/pymoo/operators/mutation/gauss.py
@@ -31,7 +31,7 @@ def mut_gauss(X, xl, xu, sigma, prob, random_state=None):
 
     Xp[mut] = random_state.normal(X[mut], sigma * (_xu - _xl))
 
-    Xp = repair_random_init(Xp, X, xl, xu)
+    Xp = repair_random_init(Xp, X, xl, xu, random_state=random_state)
 
     return Xp
 
diff --git a/pymoo/operators/repair/inverse_penalty.py b/pymoo/operators/repair/inverse_penalty.py
index 98f4bca..484a8dc 100644
--- a/pymoo/operators/repair/inverse_penalty.py
+++ b/pymoo/operators/repair/inverse_penalty.py
@@ -77,13 +77,14 @@ def inverse_penality_by_problem(problem, x, p, **kwargs):  # noqa: D417
 class InversePenaltyOutOfBoundsRepair(BoundsRepair):
     """Inverse penalty repair operator for out-of-bounds variables."""
 
-    def repair_out_of_bounds(self, problem, X, P=None, **kwargs):  # noqa: D417
+    def repair_out_of_bounds(self, problem, X, P=None, random_state=None, **kwargs):  # noqa: D417
         """Repair out-of-bounds variables using inverse penalty.
 
         Args:
             problem: The optimization problem.
             X: Population variables to repair.
             P: Parent solutions within bounds.
+            random_state: Random state for reproducibility.
 
         Returns:
             Repaired population.
@@ -94,7 +95,7 @@ class InversePenaltyOutOfBoundsRepair(BoundsRepair):
         n = len(X)
 
         for k in range(n):
-            X[k] = inverse_penality_by_problem(problem, X[k], P[k])
+            X[k] = inverse_penality_by_problem(problem, X[k], P[k], random_state=random_state)
 
         return X
 
-- 
2.43.0


From 27e4faddddfd89b888ea3f5de19b80c6c3bd4ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 04/90] fix: DE bound repairs never fall back to numpy's global
 random state

---
 pymoo/operators/crossover/dex.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pymoo/operators/crossover/dex.py b/pymoo/operators/crossover/dex.py
index b768ce1..75d5753 100644
--- a/pymoo/operators/crossover/dex.py
+++ b/pymoo/operators/crossover/dex.py
@@ -154,17 +154,16 @@ def rnd_F(m, random_state=None):
 # =========================================================================================================
 
 
+@default_random_state
 def bounce_back(X, Xb, xl, xu, random_state=None):
     XL = xl[None, :].repeat(len(X), axis=0)
     XU = xu[None, :].repeat(len(X), axis=0)
     i, j = np.where(X < XL)
     if len(i) > 0:
-        rs = random_state if random_state is not None else np.random
-        X[i, j] = XL[i, j] + rs.random(len(i)) * (Xb[i, j] - XL[i, j])
+        X[i, j] = XL[i, j] + random_state.random(len(i)) * (Xb[i, j] - XL[i, j])
     i, j = np.where(X > XU)
     if len(i) > 0:
-        rs = random_state if random_state is not None else np.random
-        X[i, j] = XU[i, j] - rs.random(len(i)) * (XU[i, j] - Xb[i, j])
+        X[i, j] = XU[i, j] - random_state.random(len(i)) * (XU[i, j] - Xb[i, j])
     return X
 
 
@@ -192,16 +191,16 @@ def to_bounds(X, Xb, xl, xu, random_state=None):
     return X
 
 
+@default_random_state
 def rand_init(X, Xb, xl, xu, random_state=None):
     XL = xl[None, :].repeat(len(X), axis=0)
     XU = xu[None, :].repeat(len(X), axis=0)
-    rs = random_state if random_state is not None else np.random
     i, j = np.where(X < XL)
     if len(i) > 0:
-        X[i, j] = XL[i, j] + rs.random(len(i)) * (XU[i, j] - XL[i, j])
+        X[i, j] = XL[i, j] + random_state.random(len(i)) * (XU[i, j] - XL[i, j])
     i, j = np.where(X > XU)
     if len(i) > 0:
-        X[i, j] = XU[i, j] - rs.random(len(i)) * (XU[i, j] - XL[i, j])
+        X[i, j] = XU[i, j] - random_state.random(len(i)) * (XU[i, j] - XL[i, j])
     return X
 
 
-- 
2.43.0


From 560de911eb875a5f80dae06744b9b58c4928890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 05/90] fix: ConstrRankAndCrowding sorts the splitting front
 with the run's random state

---
 pymoo/operators/survival/rank_and_crowding/classes.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pymoo/operators/survival/rank_and_crowding/classes.py b/pymoo/operators/survival/rank_and_crowding/classes.py
index 8db7899..d24ca6e 100644
--- a/pymoo/operators/survival/rank_and_crowding/classes.py
+++ b/pymoo/operators/survival/rank_and_crowding/classes.py
@@ -129,7 +129,7 @@ class ConstrRankAndCrowding(Survival):
         self.ranking = RankAndCrowding(nds=nds, crowding_func=crowding_func)
 
     def _do(  # type: ignore[override]
-        self, problem, pop, *args, n_survive=None, **kwargs
+        self, problem, pop, *args, random_state=None, n_survive=None, **kwargs
     ) -> Population:
         """Select survivors handling constraints and infeasibility.
 
@@ -137,6 +137,7 @@ class ConstrRankAndCrowding(Survival):
             problem: Optimization problem.
             pop: Population.
             *args: Additional positional arguments.
+            random_state: Random state for reproducibility.
             n_survive: Number of individuals to survive.
             **kwargs: Additional keyword arguments.
 
@@ -165,6 +166,7 @@ class ConstrRankAndCrowding(Survival):
                     pop[feas],
                     *args,
                     n_survive=min(len(feas), n_survive),
+                    random_state=random_state,
                     **kwargs,
                 )
 
@@ -192,7 +194,7 @@ class ConstrRankAndCrowding(Survival):
                     if len(survivors) + len(front) > n_survive:
                         # Obtain CV of front
                         CV = pop[infeas][front].get("CV").flatten()
-                        I = randomized_argsort(CV, order="ascending", method="numpy")  # noqa: E741
+                        I = randomized_argsort(CV, order="ascending", method="numpy", random_state=random_state)  # noqa: E741
                         I = I[: (n_survive - len(survivors))]  # noqa: E741
 
                     # Otherwise take the whole front unsorted
@@ -203,6 +205,8 @@ class ConstrRankAndCrowding(Survival):
                     survivors = Population.merge(survivors, pop[infeas][front[I]])
 
         else:
-            survivors = self.ranking.do(problem, pop, *args, n_survive=n_survive, **kwargs)
+            survivors = self.ranking.do(
+                problem, pop, *args, n_survive=n_survive, random_state=random_state, **kwargs
+            )
 
         return survivors
-- 
2.43.0


From f47cf85dda0d31b83cae04269f026b4834d7a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 06/90] fix: survival selection in DIRECT, BRKGA, ES, SRES and
 GDE3 uses the run's random state

---
 pymoo/algorithms/soo/nonconvex/brkga.py  | 4 +++-
 pymoo/algorithms/soo/nonconvex/direct.py | 6 +++++-
 pymoo/algorithms/soo/nonconvex/es.py     | 4 +++-
 pymoo/algorithms/soo/nonconvex/sres.py   | 4 +++-
 pymoo/experimental/algorithms/gde3.py    | 6 ++++--
 5 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/brkga.py b/pymoo/algorithms/soo/nonconvex/brkga.py
index 00159b3..89335bd 100755
--- a/pymoo/algorithms/soo/nonconvex/brkga.py
+++ b/pymoo/algorithms/soo/nonconvex/brkga.py
@@ -156,7 +156,9 @@ class BRKGA(GeneticAlgorithm):
         pop = Population.merge(pop[elites], infills)
 
         # the do survival selection - set the elites for the next round
-        self.pop = self.survival.do(self.problem, pop, n_survive=len(pop), algorithm=self)
+        self.pop = self.survival.do(
+            self.problem, pop, n_survive=len(pop), algorithm=self, random_state=self.random_state
+        )
 
 
 parse_doc_string(BRKGA.__init__)
diff --git a/pymoo/algorithms/soo/nonconvex/direct.py b/pymoo/algorithms/soo/nonconvex/direct.py
index 9e67415..fd0ad1f 100644
--- a/pymoo/algorithms/soo/nonconvex/direct.py
+++ b/pymoo/algorithms/soo/nonconvex/direct.py
@@ -109,7 +109,11 @@ class DIRECT(LocalSearch):
         else:
             if len(candidates) > self.n_max_candidates:
                 candidates = RankAndCrowdingSurvival().do(
-                    self.problem, pop, n_survive=self.n_max_candidates, algorithm=self
+                    self.problem,
+                    pop,
+                    n_survive=self.n_max_candidates,
+                    algorithm=self,
+                    random_state=self.random_state,
                 )
 
             return candidates
diff --git a/pymoo/algorithms/soo/nonconvex/es.py b/pymoo/algorithms/soo/nonconvex/es.py
index d1a2d00..61a1519 100644
--- a/pymoo/algorithms/soo/nonconvex/es.py
+++ b/pymoo/algorithms/soo/nonconvex/es.py
@@ -130,7 +130,9 @@ class ES(GeneticAlgorithm):
         if len(infills) < self.pop_size:
             infills = Population.merge(infills, self.pop)
 
-        self.pop = self.survival.do(self.problem, infills, n_survive=self.pop_size)
+        self.pop = self.survival.do(
+            self.problem, infills, n_survive=self.pop_size, random_state=self.random_state
+        )
 
     def _set_optimum(self):
         pop = self.pop if self.opt is None else Population.merge(self.opt, self.pop)
diff --git a/pymoo/algorithms/soo/nonconvex/sres.py b/pymoo/algorithms/soo/nonconvex/sres.py
index 99b3708..e7212c7 100644
--- a/pymoo/algorithms/soo/nonconvex/sres.py
+++ b/pymoo/algorithms/soo/nonconvex/sres.py
@@ -50,7 +50,9 @@ class SRES(ES):
         if len(infills) < self.pop_size:
             infills = Population.merge(infills, self.pop)
 
-        self.pop = self.survival.do(self.problem, infills, n_survive=self.pop_size)
+        self.pop = self.survival.do(
+            self.problem, infills, n_survive=self.pop_size, random_state=self.random_state
+        )
 
 
 parse_doc_string(SRES.__init__)
diff --git a/pymoo/experimental/algorithms/gde3.py b/pymoo/experimental/algorithms/gde3.py
index cb986e5..993261e 100644
--- a/pymoo/experimental/algorithms/gde3.py
+++ b/pymoo/experimental/algorithms/gde3.py
@@ -25,7 +25,7 @@ class GDE3(DE):
         self.termination = DefaultMultiObjectiveTermination()
 
     def _initialize_advance(self, infills=None, **kwargs):
-        RankAndCrowdingSurvival().do(self.problem, infills, return_indices=True)
+        RankAndCrowdingSurvival().do(self.problem, infills, return_indices=True, random_state=self.random_state)
 
     def _advance(self, infills=None, **kwargs):
         assert infills is not None, "This algorithms uses the AskAndTell interface thus 'infills' must to be provided."
@@ -51,7 +51,9 @@ class GDE3(DE):
 
         # set the rank and crowding in the current population
         pool = Population.create(*pool)
-        self.pop = RankAndCrowdingSurvival().do(self.problem, pool, n_survive=self.pop_size)
+        self.pop = RankAndCrowdingSurvival().do(
+            self.problem, pool, n_survive=self.pop_size, random_state=self.random_state
+        )
 
 
 parse_doc_string(GDE3.__init__)
-- 
2.43.0


From 2be802d6a96c581d987760ae4e26fc79b179186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 07/90] fix: pass the random state on in randomized_argsort,
 inversion mutation, rotation-invariant PSO and ref-dir reduction

---
 pymoo/algorithms/soo/nonconvex/pso_ep.py | 2 +-
 pymoo/operators/mutation/inversion.py    | 4 ++--
 pymoo/util/randomized_argsort.py         | 2 +-
 pymoo/util/ref_dirs/reduction.py         | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/pso_ep.py b/pymoo/algorithms/soo/nonconvex/pso_ep.py
index f43fdf5..623db3a 100644
--- a/pymoo/algorithms/soo/nonconvex/pso_ep.py
+++ b/pymoo/algorithms/soo/nonconvex/pso_ep.py
@@ -48,7 +48,7 @@ def pso_rotation_invariant(V, X, P_X, L_X, inertia, c1, c2, random_state=None):
     G = (X + p + local_pos) / 3
     r = np.linalg.norm(G - X, axis=1, keepdims=True)
 
-    Vp = inertia * V + alea_sphere(G, r) - X
+    Vp = inertia * V + alea_sphere(G, r, random_state=random_state) - X
 
     return Vp
 
diff --git a/pymoo/operators/mutation/inversion.py b/pymoo/operators/mutation/inversion.py
index 0a3f5c0..14fff5f 100644
--- a/pymoo/operators/mutation/inversion.py
+++ b/pymoo/operators/mutation/inversion.py
@@ -6,11 +6,11 @@ from pymoo.core.mutation import Mutation
 from pymoo.operators.crossover.ox import random_sequence
 
 
-def inversion_mutation(y, seq, inplace=True):
+def inversion_mutation(y, seq, inplace=True, random_state=None):
     y = y if inplace else np.copy(y)
 
     if seq is None:
-        seq = random_sequence(len(y))
+        seq = random_sequence(len(y), random_state=random_state)
     start, end = seq
 
     y[start : end + 1] = np.flip(y[start : end + 1])
diff --git a/pymoo/util/randomized_argsort.py b/pymoo/util/randomized_argsort.py
index 117b058..2aa5e86 100644
--- a/pymoo/util/randomized_argsort.py
+++ b/pymoo/util/randomized_argsort.py
@@ -14,7 +14,7 @@ def randomized_argsort(A, method="numpy", order="ascending", random_state=None):
         I = P[I]  # noqa: E741
 
     elif method == "quicksort":
-        I = quicksort(A)  # noqa: E741
+        I = quicksort(A, random_state=random_state)  # noqa: E741
 
     else:
         raise Exception("Randomized sort method not known.")
diff --git a/pymoo/util/ref_dirs/reduction.py b/pymoo/util/ref_dirs/reduction.py
index 1858967..ca6ea6a 100644
--- a/pymoo/util/ref_dirs/reduction.py
+++ b/pymoo/util/ref_dirs/reduction.py
@@ -129,7 +129,7 @@ class ReductionBasedReferenceDirectionFactory(ReferenceDirectionFactory):
         X = np.vstack([E, rnd])
 
         I = select_points_with_maximum_distance(  # noqa: E741
-            X, self.n_points, selected=list(range(len(E)))
+            X, self.n_points, selected=list(range(len(E))), random_state=random_state
         )
         centroids = X[I].copy()
 
-- 
2.43.0


From a669af947adb888c1cea33fb9c1201741ddab63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 08/90] fix: parameter control of DE and ParameterControlMating
 draws from the run's random state

---
 pymoo/algorithms/soo/nonconvex/de.py | 2 +-
 pymoo/operators/control.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/de.py b/pymoo/algorithms/soo/nonconvex/de.py
index d8eb143..744f6d1 100755
--- a/pymoo/algorithms/soo/nonconvex/de.py
+++ b/pymoo/algorithms/soo/nonconvex/de.py
@@ -93,7 +93,7 @@ class Variant(InfillCriterion):
         control.tell(pop=pop)
 
         # set the controlled parameter for the desired number of offsprings
-        control.do(n_offsprings)
+        control.do(n_offsprings, random_state=random_state)
 
         # find the different groups of selection schemes and order them by category
         sel, n_diffs = get(self.selection, self.n_diffs, size=n_offsprings)
diff --git a/pymoo/operators/control.py b/pymoo/operators/control.py
index 4b2d5dd..a39b368 100644
--- a/pymoo/operators/control.py
+++ b/pymoo/operators/control.py
@@ -166,7 +166,7 @@ class ParameterControlMating(InfillCriterion):
         # do the parameter control for the mating
         control = self.control
         control.tell(pop=pop)
-        control.do(n_matings)
+        control.do(n_matings, random_state=kwargs.get("random_state"))
 
         # if the parents for the mating are not provided directly - usually selection will be used
         if parents is None:
-- 
2.43.0


From 7df55e7194b0a937d16e6b89e88e8e6a01fd47b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 09/90] fix: D-NSGA-II version B mutates with the run's random
 state

---
 pymoo/algorithms/moo/dnsga2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/dnsga2.py b/pymoo/algorithms/moo/dnsga2.py
index 6bef2a4..954a0ee 100644
--- a/pymoo/algorithms/moo/dnsga2.py
+++ b/pymoo/algorithms/moo/dnsga2.py
@@ -54,7 +54,7 @@ class DNSGA2(NSGA2):
 
             # replace by mutations of existing solutions (this occurs inplace)
             elif self.version == "B":
-                self.mating.mutation(self.problem, pop[I])
+                self.mating.mutation(self.problem, pop[I], random_state=self.random_state)
             else:
                 raise Exception(f"Unknown version of D-NSGA-II: {self.version}")
 
-- 
2.43.0


From e71e5609d8723aeb401495f3ba523a42869e7c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 10/90] fix: pop_from_sampling passes the random state to the
 sampling

---
 pymoo/util/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/util/misc.py b/pymoo/util/misc.py
index 6af885c..f8acb6f 100644
--- a/pymoo/util/misc.py
+++ b/pymoo/util/misc.py
@@ -548,6 +548,7 @@ def pop_from_sampling(
     sampling: Any,
     n_initial_samples: int,
     pop: Optional[Population] = None,
+    random_state: Any = None,
 ) -> Optional[Population]:
     """Create population from sampling.
 
@@ -556,6 +557,7 @@ def pop_from_sampling(
         sampling: Sampling strategy or population.
         n_initial_samples: Number of initial samples.
         pop: Initial population.
+        random_state: Random state used by the sampling.
 
     Returns:
         Population.
@@ -571,7 +573,7 @@ def pop_from_sampling(
             pop = pop.new("X", sampling)
 
         elif isinstance(sampling, Sampling):
-            pop = sampling.do(problem, n_initial_samples, pop=pop)
+            pop = sampling.do(problem, n_initial_samples, pop=pop, random_state=random_state)
 
         else:
             return None
-- 
2.43.0


From 330f633d99005dfdca8594c89720b47456c40748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 11/90] fix: the WFG Pareto set and front are reproducible

---
 pymoo/problems/many/wfg.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pymoo/problems/many/wfg.py b/pymoo/problems/many/wfg.py
index b1cc6d1..0fdfbba 100644
--- a/pymoo/problems/many/wfg.py
+++ b/pymoo/problems/many/wfg.py
@@ -112,14 +112,14 @@ class WFG(Problem):
             ps[i, s] = 0
         return self._positional_to_optimal(ps)
 
-    def _calc_pareto_set_interior(self, n_points):
+    def _calc_pareto_set_interior(self, n_points, random_state=None):
         """Calculate interior points of the Pareto set."""
-        return self._positional_to_optimal(self._rand_optimal_position(n_points))
+        return self._positional_to_optimal(self._rand_optimal_position(n_points, random_state=random_state))
 
     def _calc_pareto_set(self, n_points=500, *args, **kwargs):
         """Calculate the Pareto set with extremes and interior points."""
         extremes = self._calc_pareto_set_extremes()
-        interior = self._calc_pareto_set_interior(n_points - len(extremes))
+        interior = self._calc_pareto_set_interior(n_points - len(extremes), random_state=np.random.default_rng(1))
         return np.vstack([extremes, interior])
 
     def _calc_pareto_front(
@@ -136,9 +136,12 @@ class WFG(Problem):
         if ref_dirs is None:
             ref_dirs = get_ref_dirs(self.n_obj)
 
+        # a fixed seed - the reference front must not differ from one call to the next
+        random_state = np.random.default_rng(1)
+
         for k in range(n_iterations):
             _pf = self.evaluate(
-                self._calc_pareto_set_interior(points_each_iteration),
+                self._calc_pareto_set_interior(points_each_iteration, random_state=random_state),
                 return_values_of=["F"],
             )
             pf = np.vstack([pf, _pf])
-- 
2.43.0


From d6620c7a89db93962db85c0c1229c22d3fdf8697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 12/90] fix: CMA-ES with seed=0 is reproducible

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 5460da9..f367bd8 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -165,7 +165,8 @@ class CMAES(LocalSearch):
             self.options["bounds"] = [xl, xu]
 
         seed = kwargs.get("seed", self.seed)
-        self.options["seed"] = seed
+        # cma seeds from the clock if the seed is zero - let `my_fmin` derive one from the random state then
+        self.options["seed"] = seed if seed != 0 else None
 
         if isinstance(self.termination, MaximumGenerationTermination):
             self.options["maxiter"] = self.termination.n_max_gen
@@ -270,7 +271,8 @@ class SimpleCMAES(LocalSearch):
         else:
             self.norm = NoNormalization()
             self.opts["bounds"] = [xl, xu]
-        self.opts["seed"] = self.seed
+        # cma seeds from the clock if the seed is zero - derive one from the random state then
+        self.opts["seed"] = self.seed if self.seed != 0 else int(self.random_state.integers(1, 2**31))
 
     def _initialize_advance(self, infills=None, **kwargs):
         super()._initialize_advance(infills, **kwargs)
-- 
2.43.0


From e84d29053c1b6e6bd6235f00e8e5010c9a9df219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 13/90] fix: archives are truncated with the run's random state

---
 pymoo/algorithms/moo/cmopso.py |  8 +++++---
 pymoo/core/algorithm.py        |  2 +-
 pymoo/util/archive.py          | 12 ++++++------
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pymoo/algorithms/moo/cmopso.py b/pymoo/algorithms/moo/cmopso.py
index babc38d..5cb7afa 100644
--- a/pymoo/algorithms/moo/cmopso.py
+++ b/pymoo/algorithms/moo/cmopso.py
@@ -192,7 +192,7 @@ class CMOPSO(Algorithm):
             raise Exception("Unknown velocity initialization.")
 
         self.pop.set("V", init_V)
-        self.elites = self.elites.add(self.pop)
+        self.elites = self.elites.add(self.pop, random_state=self.random_state)
 
     def _infill(self):
         (X, V) = self.pop.get("X", "V")
@@ -211,8 +211,10 @@ class CMOPSO(Algorithm):
         assert infills is not None, "This algorithm uses the AskAndTell interface thus 'infills' must to be provided."
 
         particles = Population.merge(self.pop, infills)
-        self.elites = self.elites.add(particles)
-        self.pop = self.survival.do(self.problem, particles, n_survive=self.pop_size)
+        self.elites = self.elites.add(particles, random_state=self.random_state)
+        self.pop = self.survival.do(
+            self.problem, particles, n_survive=self.pop_size, random_state=self.random_state
+        )
 
 
 parse_doc_string(CrowdingDistanceTournamentSurvival.__init__)
diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 2c9f20b..73b13c6 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -242,7 +242,7 @@ class Algorithm:
 
         # add the infill solutions to an archive
         if self.archive is not None and infills is not None:
-            self.archive = self.archive.add(infills)
+            self.archive = self.archive.add(infills, random_state=self.random_state)
 
         return ret
 
diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index b362e4a..9d92a1e 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -9,7 +9,7 @@ from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
 
 
 class Truncation:
-    def __call__(self, sols, k):
+    def __call__(self, sols, k, random_state=None):
         pass
 
 
@@ -32,8 +32,8 @@ class SurvivalTruncation(Truncation):
 
         self.problem = problem
 
-    def __call__(self, sols, k):
-        return self.survival.do(self.problem, sols, n_survive=k)
+    def __call__(self, sols, k, random_state=None):
+        return self.survival.do(self.problem, sols, n_survive=k, random_state=random_state)
 
 
 class Archive(Population):
@@ -68,7 +68,7 @@ class Archive(Population):
         self.truncation = truncation
         self.duplicate_elimination = duplicate_elimination
 
-    def add(self, sols):
+    def add(self, sols, random_state=None):
 
         if len(self) > 0:
             sols = merge(self, sols)
@@ -79,7 +79,7 @@ class Archive(Population):
             opt = self.duplicate_elimination.do(opt)
 
         if self.max_size and len(opt) > self.max_size:
-            opt = self.truncation(opt, self.truncate_size)
+            opt = self.truncation(opt, self.truncate_size, random_state=random_state)
 
         cls = self.__class__
         obj = cls.__new__(cls, individuals=opt, **self.view(Archive).__dict__)
@@ -90,7 +90,7 @@ class Archive(Population):
 
 
 class VoidArchive(Archive):
-    def add(self, sols):
+    def add(self, sols, random_state=None):
         return self
 
 
-- 
2.43.0


From 870d2ad3325edf814e1acaa2c848e6269182a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 14/90] fix: repairs are called with the run's random state

---
 pymoo/algorithms/moo/cmopso.py           | 2 +-
 pymoo/algorithms/soo/nonconvex/g3pcx.py  | 2 +-
 pymoo/algorithms/soo/nonconvex/nrbo.py   | 2 +-
 pymoo/algorithms/soo/nonconvex/pso.py    | 2 +-
 pymoo/algorithms/soo/nonconvex/pso_ep.py | 2 +-
 pymoo/core/operator.py                   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymoo/algorithms/moo/cmopso.py b/pymoo/algorithms/moo/cmopso.py
index 5cb7afa..00eb95c 100644
--- a/pymoo/algorithms/moo/cmopso.py
+++ b/pymoo/algorithms/moo/cmopso.py
@@ -203,7 +203,7 @@ class CMOPSO(Algorithm):
         # create the offspring population
         off = Population.new(X=Xp, V=Vp)
         off = self.mutation(self.problem, off, random_state=self.random_state)
-        off = self.repair(self.problem, off)
+        off = self.repair(self.problem, off, random_state=self.random_state)
 
         return off
 
diff --git a/pymoo/algorithms/soo/nonconvex/g3pcx.py b/pymoo/algorithms/soo/nonconvex/g3pcx.py
index ed06c7e..1e28756 100644
--- a/pymoo/algorithms/soo/nonconvex/g3pcx.py
+++ b/pymoo/algorithms/soo/nonconvex/g3pcx.py
@@ -96,7 +96,7 @@ class G3PCX(LoopwiseAlgorithm):
 
             off = self.mutation(self.problem, off, algorithm=self, random_state=self.random_state)
 
-            self.repair(self.problem, off, algorithm=self)
+            self.repair(self.problem, off, algorithm=self, random_state=self.random_state)
 
             off = yield off
 
diff --git a/pymoo/algorithms/soo/nonconvex/nrbo.py b/pymoo/algorithms/soo/nonconvex/nrbo.py
index ed4bb17..b4e402b 100644
--- a/pymoo/algorithms/soo/nonconvex/nrbo.py
+++ b/pymoo/algorithms/soo/nonconvex/nrbo.py
@@ -164,7 +164,7 @@ class NRBO(Algorithm):
 
         off = Population.new(X=off)
 
-        off = self.repair.do(self.problem, off)
+        off = self.repair.do(self.problem, off, random_state=self.random_state)
         return off
 
     def _advance(self, infills=None, **kwargs):
diff --git a/pymoo/algorithms/soo/nonconvex/pso.py b/pymoo/algorithms/soo/nonconvex/pso.py
index 980a613..519067c 100644
--- a/pymoo/algorithms/soo/nonconvex/pso.py
+++ b/pymoo/algorithms/soo/nonconvex/pso.py
@@ -263,7 +263,7 @@ class PSO(Algorithm):
             )[0]
             off[k].set("X", mutant.X)
 
-        self.repair(problem, off)
+        self.repair(problem, off, random_state=self.random_state)
         self.sbest = sbest
 
         return off
diff --git a/pymoo/algorithms/soo/nonconvex/pso_ep.py b/pymoo/algorithms/soo/nonconvex/pso_ep.py
index 623db3a..65c11a6 100644
--- a/pymoo/algorithms/soo/nonconvex/pso_ep.py
+++ b/pymoo/algorithms/soo/nonconvex/pso_ep.py
@@ -142,7 +142,7 @@ class Swarm(InfillCriterion):
         #         delta.clear()
 
         # repair the individuals if necessary - disabled if repair is NoRepair
-        off = self.repair(problem, off, **kwargs)
+        off = self.repair(problem, off, random_state=random_state, **kwargs)
 
         # advance the parameter control by attaching them to the offsprings
         control.advance(off)
diff --git a/pymoo/core/operator.py b/pymoo/core/operator.py
index a9d5ebc..dd9f08c 100644
--- a/pymoo/core/operator.py
+++ b/pymoo/core/operator.py
@@ -43,7 +43,7 @@ class Operator:
 
         # allow to have a built-in repair (can be useful to customize standard crossover)
         if self.repair is not None:
-            self.repair.do(problem, out)
+            self.repair.do(problem, out, random_state=kwargs.get("random_state"))
 
         if to_numpy:
             out = np.array([ind.X for ind in out])
-- 
2.43.0


From f64bd73a5a06eb118884ddda2c6a6fb8653d365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 15/90] fix: MOPSO-CD no longer binds a decorator as its random
 state

---
 pymoo/algorithms/moo/mopso_cd.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index 812f1bd..fb091a6 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -10,7 +10,6 @@ from pymoo.operators.repair.to_bound import set_to_bounds_if_outside
 from pymoo.operators.sampling.rnd import FloatRandomSampling
 from pymoo.operators.survival.rank_and_crowding.metrics import get_crowding_function
 from pymoo.termination.default import DefaultMultiObjectiveTermination
-from pymoo.util import default_random_state
 from pymoo.util.archive import MultiObjectiveArchive
 from pymoo.util.display.multi import MultiObjectiveOutput
 from pymoo.util.display.output import Output
@@ -67,7 +66,6 @@ class MOPSO_CD(Algorithm):
         self.velocities = None
         self.pbest = None
         self.pbest_f = None
-        self.random_state = default_random_state(kwargs.get("seed"))
 
     def _setup(self, problem, **kwargs):
         """Setup the algorithm for the given problem."""
-- 
2.43.0


From 3e659cccd23e43b82a85ff528401a881251c075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 16/90] fix: KKTPM leaves the ideal point it is given (or the
 problem's own) unchanged

---
 pymoo/indicators/kktpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/indicators/kktpm.py b/pymoo/indicators/kktpm.py
index bac58d5..35348e4 100644
--- a/pymoo/indicators/kktpm.py
+++ b/pymoo/indicators/kktpm.py
@@ -33,7 +33,7 @@ class KKTPM:
         # if not provided take the one defined in the problem
         if z is None:
             z = problem.ideal_point()
-        z -= utopian_eps
+        z = z - utopian_eps
 
         # for convenience get the counts directly
         n_solutions, n_obj, n_ieq_constr = (
-- 
2.43.0


From 699321da2530b0afbce7cfc98e5c846ca6fbc2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 17/90] fix: nadir point estimation and reference-direction
 helpers do not modify their arguments

---
 pymoo/algorithms/moo/nsga3.py     | 2 +-
 pymoo/util/normalization.py       | 2 +-
 pymoo/util/reference_direction.py | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymoo/algorithms/moo/nsga3.py b/pymoo/algorithms/moo/nsga3.py
index f54b6fd..07df506 100644
--- a/pymoo/algorithms/moo/nsga3.py
+++ b/pymoo/algorithms/moo/nsga3.py
@@ -369,7 +369,7 @@ def get_nadir_point(extreme_points, ideal_point, worst_point, worst_of_front, wo
 
     except LinAlgError:
         # fall back to worst of front otherwise
-        nadir_point = worst_of_front
+        nadir_point = worst_of_front.copy()
 
     # if the range is too small set it to worst of population
     b = nadir_point - ideal_point <= 1e-6
diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index 78ed451..ebd87f0 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -278,7 +278,7 @@ def get_nadir_point(extreme_points, ideal_point, worst_point, worst_of_front, wo
 
     except LinAlgError:
         # fall back to worst of front otherwise
-        nadir_point = worst_of_front
+        nadir_point = worst_of_front.copy()
 
     # if the range is too small set it to worst of population
     b = nadir_point - ideal_point <= 1e-6
diff --git a/pymoo/util/reference_direction.py b/pymoo/util/reference_direction.py
index 9954306..ba7cd94 100644
--- a/pymoo/util/reference_direction.py
+++ b/pymoo/util/reference_direction.py
@@ -372,7 +372,7 @@ def map_onto_unit_simplex(rnd: NDArray, method: str) -> NDArray:
     elif method == "kraemer":
         M = sys.maxsize
 
-        rnd *= M
+        rnd = rnd * M
         rnd = rnd[:, : n_dim - 1]
         rnd = np.column_stack([np.zeros(n_points), rnd, np.full(n_points, M)])
 
@@ -422,6 +422,9 @@ def select_points_with_maximum_distance(
     if selected is None:
         selected = []
 
+    # do not extend the list of the caller
+    selected = list(selected)
+
     n_points, n_dim = X.shape
 
     # calculate the distance matrix
-- 
2.43.0


From eb23ede2f8b8c062c9b2be0bda2a05413012f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 18/90] fix: Pareto fronts of the MW problems do not overwrite
 the reference directions

---
 pymoo/problems/multi/mw.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymoo/problems/multi/mw.py b/pymoo/problems/multi/mw.py
index f51b45d..d510d3f 100644
--- a/pymoo/problems/multi/mw.py
+++ b/pymoo/problems/multi/mw.py
@@ -79,7 +79,7 @@ class MW1(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 1 - 0.85 * F[:, 0]
         length = np.sqrt(2) * F[:, 1] - np.sqrt(2) * F[:, 0]
         c = 1 - F[:, 0] - F[:, 1] + 0.5 * np.sin(2 * np.pi * length) ** 8
@@ -105,7 +105,7 @@ class MW2(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 1 - F[:, 0]
         return F
 
@@ -129,7 +129,7 @@ class MW3(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 1 - F[:, 0]
         invalid = (0.85 - F[:, 0] - F[:, 1] + 0.3 * np.sin(0.75 * np.pi * np.sqrt(2) * (F[:, 1] - F[:, 0])) ** 2) > 0
         while invalid.any():
@@ -213,7 +213,7 @@ class MW6(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 1 - F[:, 0]
         F = F / np.sqrt(np.sum(F**2, axis=1) / 1.21).reshape((-1, 1))
         length = np.cos(6 * np.arctan(F[:, 1] / F[:, 0]) ** 4) ** 10
@@ -355,7 +355,7 @@ class MW12(MW):
             F = np.zeros((100, 2))
             F[:, 0] = np.linspace(0, 1, 100)
         else:
-            F = ref_dirs
+            F = np.array(ref_dirs)
         F[:, 1] = 0.85 - 0.8 * F[:, 0] - 0.08 * np.abs(np.sin(3.2 * np.pi * F[:, 0]))
 
         invalid = (1 - 0.8 * F[:, 0] - F[:, 1] + 0.08 * np.sin(2 * np.pi * (F[:, 1] - F[:, 0] / 1.5))) * (
-- 
2.43.0


From a59f055e3f365d355e2cab35b85c9a5f09c3aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 19/90] fix: value functions and stochastic ranking do not
 reorder the ranks or indices of the caller

---
 pymoo/functions/standard/stochastic_ranking.py |  2 ++
 pymoo/util/value_functions.py                  | 13 +++++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/pymoo/functions/standard/stochastic_ranking.py b/pymoo/functions/standard/stochastic_ranking.py
index be061ec..416c25e 100644
--- a/pymoo/functions/standard/stochastic_ranking.py
+++ b/pymoo/functions/standard/stochastic_ranking.py
@@ -34,6 +34,8 @@ def stochastic_ranking(f, phi, pr, I=None, random_state=None):  # noqa: E741
 
     if I is None:  # noqa: E741
         I = np.arange(_lambda)  # noqa: E741
+    else:
+        I = np.array(I)  # noqa: E741
 
     for i in range(_lambda):
         at_least_one_swap = False
diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index f34c003..fe971a5 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -30,7 +30,7 @@ def create_vf(
 ):
 
     if vf == "linear":
-        return create_linear_vf(P, ranks, delta, eps_max, method, verbose)
+        return create_linear_vf(P, ranks, delta, eps_max, method)
     elif vf == "poly":
         return create_poly_vf(P, ranks, delta, eps_max, method, verbose)
 
@@ -89,7 +89,7 @@ def create_vf_scipy_poly(P, ranks, delta, eps_max, method="trust-constr", verbos
         ineq_ub.append(0)
 
     P_sorted = _sort_P(P, ranks)
-    ranks.sort()
+    ranks = sorted(ranks)
 
     constr = NonlinearConstraint(_build_constr_poly(P_sorted, poly_vf, ranks, delta), ineq_lb, ineq_ub)
 
@@ -149,7 +149,7 @@ def create_vf_scipy_linear(P, ranks, delta, eps_max, method="trust-constr", verb
 
     # Sort P
     P_sorted = _sort_P(P, ranks)
-    ranks.sort()
+    ranks = sorted(ranks)
 
     # Inequality constraints
     lb = [-np.inf] * (P.shape[0] - 1)
@@ -600,12 +600,10 @@ class OptimizeLinearVF(Problem):
 
         self.P = _sort_P(P, ranks)
 
-        self.ranks = ranks
-        self.ranks.sort()
+        self.ranks = sorted(ranks)
 
         self.vf = vf
 
-        self.ranks = ranks
         self.delta = delta
 
         super().__init__(
@@ -692,8 +690,7 @@ class OptimizePolyVF(Problem):
 
         self.P = _sort_P(P, ranks)
 
-        self.ranks = ranks
-        self.ranks.sort()
+        self.ranks = sorted(ranks)
 
         self.vf = vf
 
-- 
2.43.0


From f02fb7d347c2d64ef2a9aca68176bd6aa8cb89ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 20/90] fix: ToReplacement ranks the merged population
 correctly and can be called at all

---
 pymoo/core/survival.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/survival.py b/pymoo/core/survival.py
index 4763738..d5e1d2e 100644
--- a/pymoo/core/survival.py
+++ b/pymoo/core/survival.py
@@ -127,6 +127,7 @@ class ToReplacement(Survival):
         problem: Any,
         pop: Any,
         off: Any,
+        n_survive: Optional[int] = None,  # noqa: ARG002
         random_state: Any = None,
         **kwargs: Any,
     ) -> Any:
@@ -140,8 +141,10 @@ class ToReplacement(Survival):
             random_state=random_state,
             **kwargs,
         )
-        merged.set("__rank__", indices)
+        # indices[k] is the solution on position k, the rank of a solution is its position
+        merged.set("__rank__", np.argsort(indices))
 
+        pop = pop.copy()
         for k in range(len(pop)):
             if off[k].get("__rank__") < pop[k].get("__rank__"):
                 pop[k] = off[k]
-- 
2.43.0


From e9aa0d1607a4f95b29702c2d31dcb31a3084ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 21/90] fix: warnings are only silenced where they are
 expected, not for the rest of the process

---
 pymoo/algorithms/moo/nsga3.py | 5 ++---
 pymoo/mcdm/high_tradeoff.py   | 9 +++++----
 pymoo/util/normalization.py   | 5 ++---
 pymoo/vendor/vendor_scipy.py  | 7 ++++---
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pymoo/algorithms/moo/nsga3.py b/pymoo/algorithms/moo/nsga3.py
index 07df506..9b8429b 100644
--- a/pymoo/algorithms/moo/nsga3.py
+++ b/pymoo/algorithms/moo/nsga3.py
@@ -1,6 +1,5 @@
 """NSGA-III algorithm for many-objective optimization."""
 
-import warnings
 
 import numpy as np
 from numpy.linalg import LinAlgError
@@ -353,8 +352,8 @@ def get_nadir_point(extreme_points, ideal_point, worst_point, worst_of_front, wo
         b = np.ones(extreme_points.shape[1])
         plane = np.linalg.solve(M, b)
 
-        warnings.simplefilter("ignore")
-        intercepts = 1 / plane
+        with np.errstate(all="ignore"):
+            intercepts = 1 / plane
 
         nadir_point = ideal_point + intercepts
 
diff --git a/pymoo/mcdm/high_tradeoff.py b/pymoo/mcdm/high_tradeoff.py
index a19fa46..4fb3be4 100644
--- a/pymoo/mcdm/high_tradeoff.py
+++ b/pymoo/mcdm/high_tradeoff.py
@@ -35,10 +35,11 @@ class HighTradeoffPoints(DecisionMaking):
             sacrifice = np.maximum(0, diff).sum(axis=1)
             gain = np.maximum(0, -diff).sum(axis=1)
 
-            warnings.filterwarnings("ignore")
-            tradeoff = sacrifice / gain
+            with warnings.catch_warnings():
+                warnings.simplefilter("ignore")
+                tradeoff = sacrifice / gain
 
-            # otherwise find the one with the smalled one
-            mu[i] = np.nanmin(tradeoff)
+                # otherwise find the one with the smalled one
+                mu[i] = np.nanmin(tradeoff)
 
         return find_outliers_upper_tail(mu)
diff --git a/pymoo/util/normalization.py b/pymoo/util/normalization.py
index ebd87f0..389ff80 100644
--- a/pymoo/util/normalization.py
+++ b/pymoo/util/normalization.py
@@ -1,6 +1,5 @@
 """Normalization and standardization of variables and objectives."""
 
-import warnings
 from abc import abstractmethod
 
 import numpy as np
@@ -262,8 +261,8 @@ def get_nadir_point(extreme_points, ideal_point, worst_point, worst_of_front, wo
         b = np.ones(extreme_points.shape[1])
         plane = np.linalg.solve(M, b)
 
-        warnings.simplefilter("ignore")
-        intercepts = 1 / plane
+        with np.errstate(all="ignore"):
+            intercepts = 1 / plane
 
         nadir_point = ideal_point + intercepts
 
diff --git a/pymoo/vendor/vendor_scipy.py b/pymoo/vendor/vendor_scipy.py
index 24ecf76..b96bb2e 100644
--- a/pymoo/vendor/vendor_scipy.py
+++ b/pymoo/vendor/vendor_scipy.py
@@ -116,10 +116,11 @@ class Optimizer(LocalSearch):
         x0 = self.opt[0].X
 
         # actually run the optimization
-        if not self.show_warnings:
-            warnings.simplefilter("ignore")
+        with warnings.catch_warnings():
+            if not self.show_warnings:
+                warnings.simplefilter("ignore")
 
-        res = scipy_minimize(fun_obj, x0, **kwargs)
+            res = scipy_minimize(fun_obj, x0, **kwargs)
 
         opt = Population.create(Individual(X=res.x))
         self.evaluator.eval(self.problem, opt, algorithm=self)
-- 
2.43.0


From 9b230a58aa8f0583c8ee2791adac5994bafa185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 22/90] fix: adaptive constraint handling reports the number of
 function evaluations

---
 pymoo/constraints/adaptive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymoo/constraints/adaptive.py b/pymoo/constraints/adaptive.py
index fff6017..bc610ff 100644
--- a/pymoo/constraints/adaptive.py
+++ b/pymoo/constraints/adaptive.py
@@ -43,6 +43,7 @@ class AttachConfigEvaluator(Evaluator):
             count_evals=count_evals,
             **kwargs,
         )
+        self.n_eval = self.wrapped.n_eval
         pop.apply(lambda ind: ind.set("config", self.config))
         return pop
 
-- 
2.43.0


From 0527bbfa2c18752ba5d7d6ddd7f0dfa27355ae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 23/90] fix: adaptive constraint handling sets up the wrapped
 algorithm

---
 pymoo/constraints/adaptive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/constraints/adaptive.py b/pymoo/constraints/adaptive.py
index bc610ff..2e44038 100644
--- a/pymoo/constraints/adaptive.py
+++ b/pymoo/constraints/adaptive.py
@@ -63,7 +63,8 @@ class AdaptiveConstraintHandling(MetaAlgorithm):
         self.default_config = deepcopy(self.config)
         self.adapted_config = deepcopy(self.config)
 
-    def _setup(self, _, **kwargs):
+    def _setup(self, problem, **kwargs):
+        super()._setup(problem, **kwargs)
         self.evaluator = AttachConfigEvaluator(self.evaluator, self.config)
 
     def _adapt_constraint_handling(self, config, infills=None, **kwargs):
-- 
2.43.0


From 415621ec336bcb89e685076c84bfc252e0cb15c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 24/90] fix: scipy optimizers are run once, in advance, not
 already when asked for candidates

---
 pymoo/vendor/vendor_scipy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/vendor/vendor_scipy.py b/pymoo/vendor/vendor_scipy.py
index b96bb2e..d40fdc5 100644
--- a/pymoo/vendor/vendor_scipy.py
+++ b/pymoo/vendor/vendor_scipy.py
@@ -53,6 +53,9 @@ class Optimizer(LocalSearch):
         self.termination = NoTermination()
         self.return_least_infeasible = True
 
+    def _infill(self):
+        return None
+
     def _advance(self, **kwargs):
         problem, evaluator = self.problem, self.evaluator
 
-- 
2.43.0


From d07504edd32ff76088a53d458885578984fca915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 25/90] fix: CMA-ES leaves the objective values of infeasible
 solutions as evaluated

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index f367bd8..724834b 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -213,12 +213,9 @@ class CMAES(LocalSearch):
             self.termination.force_termination = True
 
         else:
-            # set infeasible individual's objective values to np.nan - then CMAES can handle it
-            for ind in infills:
-                if not ind.feas:
-                    ind.F[:] = np.inf
-
-            F = infills.get("f").tolist()
+            # report infinity for infeasible individuals (the individuals keep their values) - then CMAES can handle it
+            f, feas = infills.get("f", "feas")
+            F = np.where(feas, f, np.inf).tolist()
             if not self.send_array_to_yield:
                 F = F[0]
 
-- 
2.43.0


From b46d9e635ea593def4678e800793f40dda7e2b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 26/90] fix: setting constraint values discards the cached
 constraint violation

---
 pymoo/core/individual.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/core/individual.py b/pymoo/core/individual.py
index d35cf3d..e85b115 100644
--- a/pymoo/core/individual.py
+++ b/pymoo/core/individual.py
@@ -206,6 +206,7 @@ class Individual:
             value: The inequality constraint vector for the individual.
         """
         self._G = value
+        self._CV = None
 
     @property
     def H(self) -> np.ndarray:
@@ -224,6 +225,7 @@ class Individual:
             value: The equality constraint vector for the individual.
         """
         self._H = value
+        self._CV = None
 
     @property
     def CV(self) -> np.ndarray:
-- 
2.43.0


From 22ef52ed113423934c2627d91493565d661878a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 27/90] fix: NoCrossover creates new individuals instead of
 handing out the parents to the mutation

---
 pymoo/operators/crossover/nox.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/operators/crossover/nox.py b/pymoo/operators/crossover/nox.py
index 82146a1..bf48734 100644
--- a/pymoo/operators/crossover/nox.py
+++ b/pymoo/operators/crossover/nox.py
@@ -1,5 +1,7 @@
 """No-crossover (pass-through) operator."""
 
+import copy
+
 from pymoo.core.crossover import Crossover
 from pymoo.core.population import Population
 
@@ -24,4 +26,6 @@ class NoCrossover(Crossover):
                 offsprings.extend(parents)
                 extra = self.n_offsprings - self.n_parents
                 offsprings.extend(random_state.choice(parents, size=extra, replace=True))
-        return Population.create(*offsprings)
+
+        # always new individuals - the parents must not be modified by what is done to the offsprings later on
+        return Population.new("X", [copy.deepcopy(ind.X) for ind in offsprings])
-- 
2.43.0


From faabad14415f7ada37657da53836cc2121e75b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 28/90] fix: bracket and line searches do not evaluate when
 asked for their infill solutions

---
 pymoo/algorithms/base/bracket.py | 10 ++--------
 pymoo/algorithms/base/line.py    |  8 +++-----
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/pymoo/algorithms/base/bracket.py b/pymoo/algorithms/base/bracket.py
index d202030..7e7ebdd 100644
--- a/pymoo/algorithms/base/bracket.py
+++ b/pymoo/algorithms/base/bracket.py
@@ -21,20 +21,14 @@ class BracketSearch(Algorithm):
         # the boundaries of the problem for initialization
         xl, xu = self.problem.bounds()
 
-        # take care of the lower bound - make sure it is an individual and make sure it is evaluated
+        # take care of the lower bound - make sure it is an individual (it is evaluated together with the other infills)
         if self.a is None:
             assert xl is not None, "Either provide a left bound or set the xl attribute in the problem."
             self.a = Individual(X=xl)
 
-        if self.a.F is None:
-            self.evaluator.eval(self.problem, self.a, algorithm=self)
-
-        # take care of the upper bound - make sure it is an individual and make sure it is evaluated
+        # take care of the upper bound - make sure it is an individual (it is evaluated together with the other infills)
         if self.b is None:
             assert xl is not None, "Either provide a right bound or set the xu attribute in the problem."
             self.b = Individual(X=xu)
 
-        if self.b.F is None:
-            self.evaluator.eval(self.problem, self.b, algorithm=self)
-
         assert self.a.X[0] <= self.b.X[0], "The left bound must be smaller than the left bound!"
diff --git a/pymoo/algorithms/base/line.py b/pymoo/algorithms/base/line.py
index 07cd012..46c0407 100644
--- a/pymoo/algorithms/base/line.py
+++ b/pymoo/algorithms/base/line.py
@@ -5,6 +5,7 @@ import numpy as np
 from pymoo.core.algorithm import Algorithm
 from pymoo.core.individual import Individual
 from pymoo.core.meta import Meta
+from pymoo.core.population import Population
 from pymoo.core.problem import Problem
 from pymoo.operators.repair.to_bound import set_to_bounds_if_outside
 
@@ -34,11 +35,8 @@ class LineSearch(Algorithm):
         if isinstance(self.point, np.ndarray):
             self.point = Individual(X=self.point)
 
-        # make sure it is evaluated - if not yet also get the gradient
-        if self.point.get("F") is None:
-            self.evaluator.eval(self.problem, self.point, algorithm=self)
-
-        self.infill = self.point
+        # the starting point is evaluated by whoever asks for the infill solutions
+        return Population.create(self.point)
 
 
 class LineSearchProblem(Meta, Problem):
-- 
2.43.0


From df690798b2501a104929fddf99ea11ba593333e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 29/90] fix: MOPSO-CD does not evaluate a population it
 discards during setup

---
 pymoo/algorithms/moo/mopso_cd.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index fb091a6..aafe628 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -84,9 +84,6 @@ class MOPSO_CD(Algorithm):
         self.pbest = self.pop.copy()  # Personal bests
         self.pbest_f = np.full((self.pop_size, problem.n_obj), np.inf)  # Initialize with inf
 
-        # Evaluate initial population to set personal best objectives
-        self.evaluator.eval(self.problem, self.pop)
-
     def _initialize_infill(self):
         """Initialize the population and velocities."""
         # Initialize population using sampling
-- 
2.43.0


From 7c38e30bb9514e9863e75c226f81bbf85affff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:35 +0000
Subject: [PATCH 30/90] fix: SPEA2 and KGB objects do not share the state held
 by their default arguments

---
 pymoo/algorithms/moo/kgb.py   | 4 ++--
 pymoo/algorithms/moo/spea2.py | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pymoo/algorithms/moo/kgb.py b/pymoo/algorithms/moo/kgb.py
index 98b8dfc..eaa8da5 100755
--- a/pymoo/algorithms/moo/kgb.py
+++ b/pymoo/algorithms/moo/kgb.py
@@ -23,7 +23,7 @@ class KGB(NSGA2):
         perc_diversity=0.3,
         c_size=13,
         eps=0.0,
-        ps={},
+        ps=None,
         perturb_dev=0.1,
         save_ps=False,
         **kwargs,
@@ -37,7 +37,7 @@ class KGB(NSGA2):
         self.save_ps = save_ps
 
         self.C_SIZE = c_size
-        self.ps = ps
+        self.ps = {} if ps is None else ps
         self.nr_rand_solutions = 50 * self.pop_size
         self.t = 0
 
diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index 29d7f64..00d9976 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -175,7 +175,7 @@ class SPEA2(GeneticAlgorithm):
         selection=TournamentSelection(spea_binary_tournament),
         crossover=SBX(),
         mutation=PM(),
-        survival=SPEA2Survival(normalize=True),
+        survival=None,
         eliminate_duplicates=True,
         n_offsprings=None,
         output=MultiObjectiveOutput(),
@@ -196,6 +196,10 @@ class SPEA2(GeneticAlgorithm):
             **kwargs: {kwargs}
 
         """
+        # the survival keeps track of normalization points, thus it must not be shared with another algorithm
+        if survival is None:
+            survival = SPEA2Survival(normalize=True)
+
         super().__init__(
             pop_size=pop_size,
             sampling=sampling,
-- 
2.43.0


From d38106988fb5d460b3d2bf005173c89a75530f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 31/90] fix: automatic differentiation switches the gradient
 backend back when the evaluation raises

---
 pymoo/gradient/automatic.py | 44 ++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/pymoo/gradient/automatic.py b/pymoo/gradient/automatic.py
index 18b53a6..7057f3f 100644
--- a/pymoo/gradient/automatic.py
+++ b/pymoo/gradient/automatic.py
@@ -16,17 +16,19 @@ class ElementwiseEvaluationFunctionWithGradient(ElementwiseEvaluationFunction):
         f = super().__call__
 
         activate(self.backend)
-        if self.backend == "jax":
-            from pymoo.gradient.grad_jax import jax_elementwise_value_and_grad
+        try:
+            if self.backend == "jax":
+                from pymoo.gradient.grad_jax import jax_elementwise_value_and_grad
 
-            out, grad = jax_elementwise_value_and_grad(f, x)
-        elif self.backend == "autograd":
-            from pymoo.gradient.grad_autograd import autograd_elementwise_value_and_grad
+                out, grad = jax_elementwise_value_and_grad(f, x)
+            elif self.backend == "autograd":
+                from pymoo.gradient.grad_autograd import autograd_elementwise_value_and_grad
 
-            out, grad = autograd_elementwise_value_and_grad(f, x)
-        else:
-            raise Exception("Unknown backend %s" % self.backend)
-        deactivate()
+                out, grad = autograd_elementwise_value_and_grad(f, x)
+            else:
+                raise Exception("Unknown backend %s" % self.backend)
+        finally:
+            deactivate()
 
         for k, v in grad.items():
             out["d" + k] = np.array(v)
@@ -69,17 +71,19 @@ class AutomaticDifferentiation(Meta, Problem):
         f = F(self.__object__)
 
         activate(self.backend)
-        if self.backend == "jax":
-            from pymoo.gradient.grad_jax import jax_vectorized_value_and_grad
-
-            out, grad = jax_vectorized_value_and_grad(f, x)
-        elif self.backend == "autograd":
-            from pymoo.gradient.grad_autograd import autograd_vectorized_value_and_grad
-
-            out, grad = autograd_vectorized_value_and_grad(f, x)
-        else:
-            raise Exception("Unknown backend %s" % self.backend)
-        deactivate()
+        try:
+            if self.backend == "jax":
+                from pymoo.gradient.grad_jax import jax_vectorized_value_and_grad
+
+                out, grad = jax_vectorized_value_and_grad(f, x)
+            elif self.backend == "autograd":
+                from pymoo.gradient.grad_autograd import autograd_vectorized_value_and_grad
+
+                out, grad = autograd_vectorized_value_and_grad(f, x)
+            else:
+                raise Exception("Unknown backend %s" % self.backend)
+        finally:
+            deactivate()
 
         for k, v in grad.items():
             out["d" + k] = v
-- 
2.43.0


From 188a641c92b3c886c4c58b322ab38a328f5b427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 32/90] fix: KKTPM of a problem without inequality constraints

---
 pymoo/indicators/kktpm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymoo/indicators/kktpm.py b/pymoo/indicators/kktpm.py
index 35348e4..267aae3 100644
--- a/pymoo/indicators/kktpm.py
+++ b/pymoo/indicators/kktpm.py
@@ -49,8 +49,9 @@ class KKTPM:
         for i in range(n_solutions):
             # get the corresponding values for this solution
             f, cv, df = F[i, :], CV[i], dF[i, :].swapaxes(1, 0)  # noqa: F841
+            g = G[i, :]
             if n_ieq_constr > 0:
-                g, dg = G[i, :], dG[i].T
+                dg = dG[i].T
 
             # if the solution that is provided is infeasible
             if cv > 0:
-- 
2.43.0


From a89ee945aab53f77990a0053c8576dba755fda3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 33/90] fix: scipy wrappers read the bounds when they are told
 not to use them

---
 pymoo/vendor/vendor_scipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/vendor/vendor_scipy.py b/pymoo/vendor/vendor_scipy.py
index d40fdc5..a132684 100644
--- a/pymoo/vendor/vendor_scipy.py
+++ b/pymoo/vendor/vendor_scipy.py
@@ -61,9 +61,9 @@ class Optimizer(LocalSearch):
 
         # add the box constraints defined in the problem
         bounds = None
+        xl, xu = self.problem.bounds()
         if self.use_bounds:
 
-            xl, xu = self.problem.bounds()
             if self.with_bounds:
                 bounds = np.column_stack([xl, xu])
             else:
-- 
2.43.0


From 3315a9e2749c63bdfb2792d20f774f56b048db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 34/90] fix: contour plots return their axes

---
 pymoo/visualization/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymoo/visualization/util.py b/pymoo/visualization/util.py
index 05d1245..fb14dff 100644
--- a/pymoo/visualization/util.py
+++ b/pymoo/visualization/util.py
@@ -293,6 +293,7 @@ def plot_problem_surface(
         elif plot_type == "contour":
             CS = plt.contour(X, Y, F)
             plt.clabel(CS, inline=1, fontsize=10)
+            ax = plt.gca()
         elif plot_type == "wireframe+contour":
             ax = fig.add_subplot(111, projection="3d")
             ax.plot_surface(X, Y, F, cmap=cmap, rstride=1, cstride=1)
-- 
2.43.0


From a1614bcd6e5b2891eeb18c54d0d80bc877c98bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 35/90] fix: a value function fit with an unknown kind of
 result raises the intended error

---
 pymoo/util/value_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index fe971a5..d3dbeb4 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -654,7 +654,7 @@ def _validate_vf(res, verbose):
         else:
             message = res.message
     else:
-        ValueError("Internal error: bad result objective given for validation")
+        raise ValueError("Internal error: bad result objective given for validation")
 
     if epsilon < 0 or not success:
         if verbose:
-- 
2.43.0


From fe2f66c3786a0553265912d56364deef8b656c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 36/90] fix: the Wolfe line search does not change the
 evaluator it is given

---
 pymoo/algorithms/soo/univariate/wolfe.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/wolfe.py b/pymoo/algorithms/soo/univariate/wolfe.py
index abafb25..d385dbb 100644
--- a/pymoo/algorithms/soo/univariate/wolfe.py
+++ b/pymoo/algorithms/soo/univariate/wolfe.py
@@ -36,7 +36,6 @@ class WolfeSearch(Algorithm):
     def _infill(self):
 
         problem, evaluator = self.problem, self.evaluator
-        evaluator.skip_already_evaluated = False
 
         sol, direction = self.problem.point, self.problem.direction
 
@@ -49,12 +48,12 @@ class WolfeSearch(Algorithm):
             while True:
                 _alpha = (alpha_high.get("alpha") + alpha_low.get("alpha")) / 2
                 _point = Individual(X=_alpha)
-                evaluator.eval(problem, _point, evaluate_values_of=["F", "CV"])
+                evaluator.eval(problem, _point, skip_already_evaluated=False, evaluate_values_of=["F", "CV"])
 
                 if _point.F[0] > sol_F + self.c1 * _alpha * sol_dF @ direction or _point.F[0] > alpha_low.F[0]:
                     alpha_high = _point
                 else:
-                    evaluator.eval(problem, _point, evaluate_values_of=["dF"])
+                    evaluator.eval(problem, _point, skip_already_evaluated=False, evaluate_values_of=["dF"])
                     point_dF = _point.get("dF")[0]
 
                     if np.abs(point_dF @ direction) <= -self.c2 * sol_dF @ direction:
@@ -72,7 +71,7 @@ class WolfeSearch(Algorithm):
 
         for i in range(1, self.max_iter + 1):
             # evaluate the solutions
-            evaluator.eval(problem, current, evaluate_values_of=["F", "CV"])
+            evaluator.eval(problem, current, skip_already_evaluated=False, evaluate_values_of=["F", "CV"])
 
             # get the values from the solution to be used to evaluate the conditions
             F, dF, _F = last.F[0], last.get("dF")[0], current.F[0]  # noqa: F841
@@ -82,7 +81,7 @@ class WolfeSearch(Algorithm):
                 return zoom(last, current)
 
             # for the other condition we need the gradient information
-            evaluator.eval(problem, current, evaluate_values_of=["dF"])
+            evaluator.eval(problem, current, skip_already_evaluated=False, evaluate_values_of=["dF"])
             _dF = current.get("dF")[0]
 
             if np.abs(_dF @ direction) <= -self.c2 * sol_dF @ direction:
@@ -101,7 +100,6 @@ class WolfeSearch(Algorithm):
 def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, evaluator=None):
     # initialize the evaluator to be used (this will make sure evaluations are counted)
     evaluator = evaluator if evaluator is not None else Evaluator()
-    evaluator.skip_already_evaluated = False
 
     # the function value and gradient of the initial solution
     sol.set("alpha", 0.0)
@@ -112,12 +110,12 @@ def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, eva
         while True:
             _alpha = (alpha_high.get("alpha") + alpha_low.get("alpha")) / 2
             _point = Individual(X=sol.X + _alpha * direction, alpha=_alpha)
-            evaluator.eval(problem, _point, evaluate_values_of=["F", "CV"])
+            evaluator.eval(problem, _point, skip_already_evaluated=False, evaluate_values_of=["F", "CV"])
 
             if _point.F[0] > sol_F + c1 * _alpha * sol_dF @ direction or _point.F[0] > alpha_low.F[0]:
                 alpha_high = _point
             else:
-                evaluator.eval(problem, _point, evaluate_values_of=["dF"])
+                evaluator.eval(problem, _point, skip_already_evaluated=False, evaluate_values_of=["dF"])
                 point_dF = _point.get("dF")[0]
 
                 if np.abs(point_dF @ direction) <= -c2 * sol_dF @ direction:
@@ -135,7 +133,7 @@ def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, eva
 
     for i in range(1, max_iter + 1):
         # evaluate the solutions
-        evaluator.eval(problem, current, evaluate_values_of=["F", "CV"])
+        evaluator.eval(problem, current, skip_already_evaluated=False, evaluate_values_of=["F", "CV"])
 
         # get the values from the solution to be used to evaluate the conditions
         F, dF, _F = last.F[0], last.get("dF")[0], current.F[0]  # noqa: F841
@@ -145,7 +143,7 @@ def wolfe_line_search(problem, sol, direction, c1=1e-4, c2=0.9, max_iter=10, eva
             return zoom(last, current)
 
         # for the other condition we need the gradient information
-        evaluator.eval(problem, current, evaluate_values_of=["dF"])
+        evaluator.eval(problem, current, skip_already_evaluated=False, evaluate_values_of=["dF"])
         _dF = current.get("dF")[0]
 
         if np.abs(_dF @ direction) <= -c2 * sol_dF @ direction:
-- 
2.43.0


From d9edcda643d09c8be7cdb8a2bafecbb5667f9004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 37/90] fix: an algorithm keeps its history, callback and
 display when copying it for the history fails

---
 pymoo/core/algorithm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 73b13c6..98666c7 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -323,9 +323,11 @@ class Algorithm:
             _hist, _callback, _display = self.history, self.callback, self.display
 
             self.history, self.callback, self.display = None, None, None  # type: ignore
-            obj = copy.deepcopy(self)
+            try:
+                obj = copy.deepcopy(self)
+            finally:
+                self.history, self.callback, self.display = _hist, _callback, _display
 
-            self.history, self.callback, self.display = _hist, _callback, _display
             self.history.append(obj)
 
         # if a callback function is provided it is called after each iteration
-- 
2.43.0


From d417769d34eb43d0d425412e378c175acaf72fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 38/90] fix: adaptive constraint handling puts the constraint
 configuration back when an iteration fails

---
 pymoo/constraints/adaptive.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pymoo/constraints/adaptive.py b/pymoo/constraints/adaptive.py
index 2e44038..b111fcd 100644
--- a/pymoo/constraints/adaptive.py
+++ b/pymoo/constraints/adaptive.py
@@ -72,18 +72,23 @@ class AdaptiveConstraintHandling(MetaAlgorithm):
 
     def _initialize_advance(self, infills=None, **kwargs):
         copy_to_dict(self.adapted_config, self.config)
-        super()._initialize_advance(infills=infills, **kwargs)
-        copy_to_dict(self.default_config, self.config)
+        try:
+            super()._initialize_advance(infills=infills, **kwargs)
+        finally:
+            copy_to_dict(self.default_config, self.config)
 
     def _advance(self, infills=None, **kwargs):
         copy_to_dict(self.adapted_config, self.config)
-        super()._advance(infills=infills, **kwargs)
-        copy_to_dict(self.default_config, self.config)
+        try:
+            super()._advance(infills=infills, **kwargs)
+        finally:
+            copy_to_dict(self.default_config, self.config)
 
         self._adapt_constraint_handling(self.adapted_config, infills=infills, **kwargs)
 
     def _infill(self):
         copy_to_dict(self.adapted_config, self.config)
-        pop = super()._infill()
-        copy_to_dict(self.default_config, self.config)
-        return pop
+        try:
+            return super()._infill()
+        finally:
+            copy_to_dict(self.default_config, self.config)
-- 
2.43.0


From d8fb2d036db6446195bd822434d1eeff78267013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 39/90] fix: functions with a default random state can be
 pickled

---
 pymoo/util/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/util/__init__.py b/pymoo/util/__init__.py
index 91f6efa..64447ff 100644
--- a/pymoo/util/__init__.py
+++ b/pymoo/util/__init__.py
@@ -1,5 +1,6 @@
 """Utility functions and decorators for pymoo."""
 
+import functools
 from typing import Any, Callable, Optional, TypeVar
 
 import numpy as np
@@ -26,6 +27,7 @@ def default_random_state(func_or_seed: Optional[Any] = None, *, seed: Optional[i
     """
 
     def decorator(func: F, default_seed: Optional[int] = None) -> Callable[..., Any]:
+        @functools.wraps(func)
         def wrapper(*args: Any, random_state: Any = None, **kwargs: Any) -> Any:
             if random_state is None:
                 seed_to_use = kwargs.pop("seed", default_seed)
-- 
2.43.0


From c776a8fda4702130141fea7a3c1f49fad770d5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 40/90] fix: NicheGA can be pickled

---
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 2979bed..2aeeeb6 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -25,10 +25,14 @@ from pymoo.util.misc import norm_eucl_dist
 # =========================================================================================================
 
 
+def count_niches(algorithm):
+    return len(algorithm.opt)
+
+
 class NicheOutput(SingleObjectiveOutput):
     def __init__(self):
         super().__init__()
-        self.n_niches = Column("n_niches", width=10, func=lambda algorithm: len(algorithm.opt))
+        self.n_niches = Column("n_niches", width=10, func=count_niches)
         self.columns += [self.n_niches]
 
 
-- 
2.43.0


From 90ad3845a1edc4d8f301de3187a84370067eb458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 41/90] fix: a restored CMAES has the attribute es

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 724834b..a8f3730 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -238,7 +238,7 @@ class CMAES(LocalSearch):
 
     def __setstate__(self, state):
         self.__dict__.update(state)
-        self.ers = None
+        self.es = None
 
 
 class SimpleCMAES(LocalSearch):
-- 
2.43.0


From fbad7465c1d991887bf731cf23ce29910e966b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 42/90] fix: a fitted value function can be pickled

---
 pymoo/util/value_functions.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/pymoo/util/value_functions.py b/pymoo/util/value_functions.py
index d3dbeb4..4af5232 100644
--- a/pymoo/util/value_functions.py
+++ b/pymoo/util/value_functions.py
@@ -1,6 +1,7 @@
 """Fit linear and polynomial value functions to ranked solutions (the preference model behind PINSGA2)."""
 
 import sys
+from functools import partial
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -131,10 +132,8 @@ def create_vf_scipy_poly(P, ranks, delta, eps_max, method="trust-constr", verbos
     )
 
     # package up results
-    def vf(P_in):  # noqa: ARG001
-        return poly_vf(P_in, res.x[0:-1])
-
     params = res.x[0:-1]
+    vf = partial(poly_vf, x=params)
     epsilon = res.x[-1]
 
     fit = _validate_vf(res, verbose)
@@ -196,10 +195,8 @@ def create_vf_scipy_linear(P, ranks, delta, eps_max, method="trust-constr", verb
     )
 
     # package up results
-    def vf(P_in):  # noqa: ARG001
-        return linear_vf(P_in, res.x[0:-1])
-
     params = res.x[0:-1]
+    vf = partial(linear_vf, x=params)
     epsilon = res.x[-1]
     fit = _validate_vf(res, verbose)
 
@@ -219,9 +216,6 @@ def create_vf_pymoo_linear(P, ranks, delta, eps_max, method="ES", verbose=False)
 
     res = moomin(vf_prob, algorithm, ("n_gen", 200), verbose=verbose, seed=1)
 
-    def vf(P_in):  # noqa: ARG001
-        return linear_vf(P_in, res.X[0:-1])
-
     if res.X is not None:
         params = res.X[0:-1]
         epsilon = res.X[-1]
@@ -229,6 +223,7 @@ def create_vf_pymoo_linear(P, ranks, delta, eps_max, method="ES", verbose=False)
         params = None
         epsilon = -1000
 
+    vf = partial(linear_vf, x=params)
     fit = _validate_vf(res, verbose)
 
     return vfResults(vf, params, epsilon, fit)
@@ -247,9 +242,6 @@ def create_vf_pymoo_poly(P, ranks, delta, eps_max, method="trust-constr", verbos
 
     res = moomin(vf_prob, algorithm, ("n_gen", 100), verbose=verbose, seed=1)
 
-    def vf(P_in):  # noqa: ARG001
-        return poly_vf(P_in, res.X[0:-1])
-
     if res.X is not None:
         params = res.X[0:-1]
         epsilon = res.X[-1]
@@ -257,6 +249,7 @@ def create_vf_pymoo_poly(P, ranks, delta, eps_max, method="trust-constr", verbos
         params = None
         epsilon = -1000
 
+    vf = partial(poly_vf, x=params)
     fit = _validate_vf(res, verbose)
 
     return vfResults(vf, params, epsilon, fit)
-- 
2.43.0


From cb791f57dee7047569fd1647419e8398f403ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 43/90] fix: a problem with a joblib runner can be copied and
 pickled

---
 pymoo/parallelization/joblib.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymoo/parallelization/joblib.py b/pymoo/parallelization/joblib.py
index ef47624..14a4ed4 100644
--- a/pymoo/parallelization/joblib.py
+++ b/pymoo/parallelization/joblib.py
@@ -11,17 +11,18 @@ class JoblibParallelization:
 
     def __init__(self, n_jobs: int = -1, **kwargs: object) -> None:
         try:
-            import joblib
+            import joblib  # noqa: F401
         except ImportError:
             raise ImportError("joblib must be installed: pip install joblib")
 
-        self.joblib = joblib
         self.n_jobs = n_jobs
         self.kwargs = kwargs
 
     def __call__(self, f, X):
-        with self.joblib.Parallel(n_jobs=self.n_jobs, **self.kwargs) as parallel:
-            return parallel(self.joblib.delayed(f)(x) for x in X)
+        import joblib
+
+        with joblib.Parallel(n_jobs=self.n_jobs, **self.kwargs) as parallel:
+            return parallel(joblib.delayed(f)(x) for x in X)
 
     def __getstate__(self):
         return self.__dict__.copy()
-- 
2.43.0


From 0caa581dd9be6e1a9773463df18f64d0bff4723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 44/90] fix: a problem with a ray runner can be copied and
 pickled

---
 pymoo/parallelization/ray.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymoo/parallelization/ray.py b/pymoo/parallelization/ray.py
index 943dad3..5c51ad5 100644
--- a/pymoo/parallelization/ray.py
+++ b/pymoo/parallelization/ray.py
@@ -12,18 +12,19 @@ class RayParallelization:
         if job_resources is None:
             job_resources = {"num_cpus": 1}
         try:
-            import ray
+            import ray  # noqa: F401
         except ImportError:
             raise ImportError("Ray must be installed: pip install ray")
 
-        self.ray = ray
         self.job_resources = job_resources
 
     def __call__(self, f, X):
-        runnable = self.ray.remote(f.__call__.__func__)
+        import ray
+
+        runnable = ray.remote(f.__call__.__func__)
         runnable = runnable.options(**self.job_resources)
         futures = [runnable.remote(f, x) for x in X]
-        return self.ray.get(futures)
+        return ray.get(futures)
 
     def __getstate__(self):
         return self.__dict__.copy()
-- 
2.43.0


From 43932858fd3f216520271b6028c66730507544a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 45/90] fix: the tree of the tree-based sorting can be pickled

---
 pymoo/functions/standard/non_dominated_sorting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymoo/functions/standard/non_dominated_sorting.py b/pymoo/functions/standard/non_dominated_sorting.py
index 64de372..18c95e1 100644
--- a/pymoo/functions/standard/non_dominated_sorting.py
+++ b/pymoo/functions/standard/non_dominated_sorting.py
@@ -334,12 +334,15 @@ class Tree:
             return self._parent()
 
     def __getstate__(self):
-        self._parent = None
+        state = self.__dict__.copy()
+        state["_parent"] = None
+        return state
 
     def __setstate__(self, state):
         self.__dict__ = state
         for child in self.children:
-            child._parent = weakref.ref(self)
+            if child is not None:
+                child._parent = weakref.ref(self)
 
     def traversal(self, visit=None, *args, **kwargs):
         if visit is not None:
-- 
2.43.0


From 78d4970dd7465626126bbd48fdabac0b443619a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 46/90] fix: archives keep their settings when they are pickled

---
 pymoo/util/archive.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pymoo/util/archive.py b/pymoo/util/archive.py
index 9d92a1e..11e9767 100644
--- a/pymoo/util/archive.py
+++ b/pymoo/util/archive.py
@@ -68,6 +68,16 @@ class Archive(Population):
         self.truncation = truncation
         self.duplicate_elimination = duplicate_elimination
 
+    def __reduce__(self):
+        # pickling an array does not include the attributes of a subclass
+        func, args, state = super().__reduce__()
+        return func, args, (state, self.__dict__)
+
+    def __setstate__(self, state):
+        state, attrs = state
+        super().__setstate__(state)
+        self.__dict__.update(attrs)
+
     def add(self, sols, random_state=None):
 
         if len(self) > 0:
-- 
2.43.0


From 07e450e78e78dff6093663bfa47805a803924bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:42 +0000
Subject: [PATCH 47/90] fix: wrapped problems and algorithms (Meta) can be
 pickled

---
 pymoo/core/meta.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pymoo/core/meta.py b/pymoo/core/meta.py
index 04ee4a3..71a5266 100644
--- a/pymoo/core/meta.py
+++ b/pymoo/core/meta.py
@@ -3,6 +3,16 @@
 from copy import deepcopy
 
 
+def _combine(clazz, base):
+    return type(clazz.__name__, tuple([clazz] + base.mro()), {"__parts__": (clazz, base)})
+
+
+def _restore(base, *parts):
+    for clazz in reversed(parts):
+        base = _combine(clazz, base)
+    return base.__new__(base)
+
+
 class Meta:
     """Dynamically wrap an object with mixin behavior from a target class."""
 
@@ -14,12 +24,18 @@ class Meta:
         if copy:
             wrapped = deepcopy(wrapped)
 
-        self.__class__ = type(  # noqa: E305
-            clazz.__name__,
-            tuple([clazz] + wrapped.__class__.mro()),
-            {},
-        )
+        self.__class__ = _combine(clazz, wrapped.__class__)
 
         self.__dict__ = wrapped.__dict__
         self.__object__ = object
         self.__super__ = wrapped
+
+    def __reduce_ex__(self, protocol):
+        # the class was created dynamically and can not be found by its name when unpickling
+        parts = []
+        base = self.__class__
+        while "__parts__" in base.__dict__:
+            clazz, base = base.__dict__["__parts__"]
+            parts.append(clazz)
+        state = self.__getstate__() if hasattr(self, "__getstate__") else self.__dict__
+        return _restore, (base, *parts), state
-- 
2.43.0


From 91ce409013a6884ce82daf31f5f08ab4cdbfaa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 48/90] fix: constraint wrappers evaluate problems without
 equality or inequality constraints

---
 pymoo/constraints/as_obj.py     | 4 ++--
 pymoo/constraints/as_penalty.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index 8488224..665377f 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -42,8 +42,8 @@ class ConstraintsAsObjective(Meta, Problem):
         else:
             out["F"] = CV
 
-        del out["G"]
-        del out["H"]
+        out.pop("G", None)
+        out.pop("H", None)
 
         return out
 
diff --git a/pymoo/constraints/as_penalty.py b/pymoo/constraints/as_penalty.py
index cf779f6..a605073 100644
--- a/pymoo/constraints/as_penalty.py
+++ b/pymoo/constraints/as_penalty.py
@@ -34,7 +34,7 @@ class ConstraintsAsPenalty(Meta, Problem):
         # set the penalized objective values
         out["F"] = F + self.penalty * np.reshape(CV, F.shape)
 
-        del out["G"]
-        del out["H"]
+        out.pop("G", None)
+        out.pop("H", None)
 
         return out
-- 
2.43.0


From ef98436b54a5ac4a6bb745236a81d75ba017d67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 49/90] fix: the termination by function value works for
 targets that are not positive

---
 pymoo/termination/fmin.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymoo/termination/fmin.py b/pymoo/termination/fmin.py
index 4b1043e..2a59869 100644
--- a/pymoo/termination/fmin.py
+++ b/pymoo/termination/fmin.py
@@ -14,4 +14,11 @@ class MinimumFunctionValueTermination(Termination):
         if not any(opt.get("feas")):
             return 0.0
         else:
-            return self.fmin / opt.get("F").min()
+            f = opt.get("F").min()
+
+            if f <= self.fmin:
+                return 1.0
+            elif self.fmin > 0:
+                return self.fmin / f
+            else:
+                return 1 / (1 + (f - self.fmin))
-- 
2.43.0


From 4d372c916c498db5b765f363c7c81371712b279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 50/90] fix: the termination by indicator stops when the
 threshold is reached from the start

---
 pymoo/termination/indicator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymoo/termination/indicator.py b/pymoo/termination/indicator.py
index 8a7f562..093d215 100644
--- a/pymoo/termination/indicator.py
+++ b/pymoo/termination/indicator.py
@@ -39,10 +39,14 @@ class IndicatorTermination(Termination):
         self._max = max(self._max, v)
         _min, _max = self._min, self._max
 
+        # check if the threshold has been reached already
+        if (v <= threshold) if self.goal == "minimize" else (v >= threshold):
+            return 1.0
+
         # depending on the goal either set the percentage
         if self.goal == "minimize":
             perc = 1 - (v - threshold) / (_max - threshold)
         else:
             perc = (v - _min) / (threshold - _min)
 
-        return perc
+        return max(0.0, perc)
-- 
2.43.0


From 2f39ed963affb9b331b9180cedfa08cc8144c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 51/90] fix: the termination by feasibility accepts an
 increasing constraint violation

---
 pymoo/termination/cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/termination/cv.py b/pymoo/termination/cv.py
index 383066e..7b9a240 100644
--- a/pymoo/termination/cv.py
+++ b/pymoo/termination/cv.py
@@ -45,4 +45,4 @@ class UntilFeasibleTermination(Termination):
             else:
                 self.initial_cv = cv
 
-        return 1 - cv / self.initial_cv
+        return max(0.0, 1 - cv / self.initial_cv)
-- 
2.43.0


From 592224ceb24eb4bd6a167160231f5f3fd2a2ece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 52/90] fix: RVEA uses up its budget of evaluations

---
 pymoo/algorithms/moo/rvea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rvea.py b/pymoo/algorithms/moo/rvea.py
index e3186bd..a35a789 100644
--- a/pymoo/algorithms/moo/rvea.py
+++ b/pymoo/algorithms/moo/rvea.py
@@ -79,7 +79,7 @@ class RVEA(GeneticAlgorithm):
 
         # if maximum functions termination convert it to generations
         if isinstance(self.termination, MaximumFunctionCallTermination):
-            n_gen = np.ceil((self.termination.n_max_evals - self.pop_size) / self.n_offsprings)
+            n_gen = 1 + np.ceil((self.termination.n_max_evals - self.pop_size) / self.n_offsprings)
             self.termination = MaximumGenerationTermination(n_gen)
 
         # check whether the n_gen termination is used - otherwise this algorithm can be not run
-- 
2.43.0


From ecf97d984cc9ba4d9d113230a697b675dda2a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 53/90] fix: PSO repairs its initial swarm

---
 pymoo/algorithms/soo/nonconvex/pso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/pso.py b/pymoo/algorithms/soo/nonconvex/pso.py
index 519067c..f7fb40a 100644
--- a/pymoo/algorithms/soo/nonconvex/pso.py
+++ b/pymoo/algorithms/soo/nonconvex/pso.py
@@ -164,7 +164,7 @@ class PSO(Algorithm):
         """
         super().__init__(output=output, **kwargs)
 
-        self.initialization = Initialization(sampling)
+        self.initialization = Initialization(sampling, repair=repair)
 
         self.pop_size = pop_size
         self.adaptive = adaptive
-- 
2.43.0


From 45dcf727c68d20f7eee6ea4b48d095b2a669b8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 54/90] fix: CMOPSO repairs its initial swarm

---
 pymoo/algorithms/moo/cmopso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/cmopso.py b/pymoo/algorithms/moo/cmopso.py
index 00eb95c..c7a1db2 100644
--- a/pymoo/algorithms/moo/cmopso.py
+++ b/pymoo/algorithms/moo/cmopso.py
@@ -162,7 +162,7 @@ class CMOPSO(Algorithm):
         self.pop_size = pop_size
         self.max_velocity_rate = max_velocity_rate
         self.elite_size = elite_size
-        self.initialization = Initialization(sampling)
+        self.initialization = Initialization(sampling, repair=repair)
         self.initial_velocity = initial_velocity
         self.repair = repair
         self._cd = get_crowding_function("cd")
-- 
2.43.0


From 0cd058c3708280ff4e8584ccc367f731be9a4b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 55/90] fix: the evolution strategies repair their offspring

---
 pymoo/algorithms/soo/nonconvex/es.py    | 3 +++
 pymoo/algorithms/soo/nonconvex/isres.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pymoo/algorithms/soo/nonconvex/es.py b/pymoo/algorithms/soo/nonconvex/es.py
index 61a1519..471a18c 100644
--- a/pymoo/algorithms/soo/nonconvex/es.py
+++ b/pymoo/algorithms/soo/nonconvex/es.py
@@ -122,6 +122,9 @@ class ES(GeneticAlgorithm):
         # create the population to proceed further
         off = Population.new(X=Xp, sigma=sigmap)
 
+        # repair the individuals if necessary - disabled if repair is NoRepair
+        off = self.repair(self.problem, off, random_state=self.random_state)
+
         return off
 
     def _advance(self, infills=None, **kwargs):
diff --git a/pymoo/algorithms/soo/nonconvex/isres.py b/pymoo/algorithms/soo/nonconvex/isres.py
index dbce4fe..11a44ca 100644
--- a/pymoo/algorithms/soo/nonconvex/isres.py
+++ b/pymoo/algorithms/soo/nonconvex/isres.py
@@ -68,6 +68,9 @@ class ISRES(SRES):
         # create the population to proceed further
         off = Population.new(X=Xp, sigma=sigmap)
 
+        # repair the individuals if necessary - disabled if repair is NoRepair
+        off = self.repair(self.problem, off, random_state=self.random_state)
+
         return off
 
 
-- 
2.43.0


From 3e4e70d79a2c2b6564da58701d1a6d165c8ed2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 56/90] fix: BRKGA repairs its mutants

---
 pymoo/algorithms/soo/nonconvex/brkga.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymoo/algorithms/soo/nonconvex/brkga.py b/pymoo/algorithms/soo/nonconvex/brkga.py
index 89335bd..cfac78e 100755
--- a/pymoo/algorithms/soo/nonconvex/brkga.py
+++ b/pymoo/algorithms/soo/nonconvex/brkga.py
@@ -143,6 +143,9 @@ class BRKGA(GeneticAlgorithm):
         # create the mutants randomly to fill the population with
         mutants = FloatRandomSampling().do(self.problem, self.n_mutants, algorithm=self, random_state=self.random_state)
 
+        # repair the mutants if necessary - disabled if repair is NoRepair
+        mutants = self.repair(self.problem, mutants, random_state=self.random_state)
+
         # evaluate all the new solutions
         return Population.merge(off, mutants)
 
-- 
2.43.0


From c9f8f995de51acf07ac1e8919dd92f0c4ad251c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 57/90] fix: NSDE and its variants repair their offspring

---
 pymoo/algorithms/moo/nsde.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/nsde.py b/pymoo/algorithms/moo/nsde.py
index b34343a..c9330bb 100644
--- a/pymoo/algorithms/moo/nsde.py
+++ b/pymoo/algorithms/moo/nsde.py
@@ -172,7 +172,9 @@ class NSDE(NSGA2):
         if survival is None:
             survival = RankAndCrowding()
 
-        mating = VariantDE(variant=variant, CR=CR, F=F, gamma=gamma, de_repair=de_repair)
+        mating = VariantDE(
+            variant=variant, CR=CR, F=F, gamma=gamma, de_repair=de_repair, repair=kwargs.get("repair")
+        )
 
         super().__init__(
             pop_size=pop_size,
-- 
2.43.0


From 4e277fb1beee3f6a942a6a01bf76500786381d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 58/90] fix: EPPSO repairs its particles

---
 pymoo/algorithms/soo/nonconvex/pso_ep.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/pso_ep.py b/pymoo/algorithms/soo/nonconvex/pso_ep.py
index 65c11a6..0fe8e6e 100644
--- a/pymoo/algorithms/soo/nonconvex/pso_ep.py
+++ b/pymoo/algorithms/soo/nonconvex/pso_ep.py
@@ -177,13 +177,16 @@ class EPPSO(GeneticAlgorithm):
         self,
         pop_size=100,
         sampling=FloatRandomSampling(),
-        swarm=Swarm(),
+        swarm=None,
         topology="star",
         init_V="zero",
         output=SingleObjectiveOutput(),
         **kwargs,
     ):
 
+        if swarm is None:
+            swarm = Swarm(repair=kwargs.get("repair"))
+
         super().__init__(
             pop_size=pop_size,
             sampling=sampling,
-- 
2.43.0


From 0e3189bff9f49c77210c1b40588f8f72cb5518c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 59/90] fix: MixedVariableGA repairs and compares its offspring
 as requested

---
 pymoo/core/mixed.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymoo/core/mixed.py b/pymoo/core/mixed.py
index 3a435c8..805ab97 100644
--- a/pymoo/core/mixed.py
+++ b/pymoo/core/mixed.py
@@ -186,11 +186,17 @@ class MixedVariableGA(GeneticAlgorithm):
         n_offsprings=None,
         output=SingleObjectiveOutput(),
         sampling=MixedVariableSampling(),
-        mating=MixedVariableMating(eliminate_duplicates=MixedVariableDuplicateElimination()),
+        mating=None,
         eliminate_duplicates=MixedVariableDuplicateElimination(),
         survival=FitnessSurvival(),
         **kwargs,
     ):
+        if mating is None:
+            mating = MixedVariableMating(
+                repair=kwargs.get("repair"),
+                eliminate_duplicates=eliminate_duplicates,
+            )
+
         super().__init__(
             pop_size=pop_size,
             n_offsprings=n_offsprings,
-- 
2.43.0


From e0902340716d07cb98a715daf3aa7e0f63d54a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 60/90] fix: MixedVariableMating accepts a boolean (its
 default) for the duplicate elimination

---
 pymoo/core/mixed.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pymoo/core/mixed.py b/pymoo/core/mixed.py
index 805ab97..0b1391c 100644
--- a/pymoo/core/mixed.py
+++ b/pymoo/core/mixed.py
@@ -37,6 +37,10 @@ class MixedVariableMating(InfillCriterion):
         **kwargs,
     ) -> None:
 
+        # a boolean value chooses the duplicate detection for mixed variables
+        if isinstance(eliminate_duplicates, bool):
+            eliminate_duplicates = MixedVariableDuplicateElimination() if eliminate_duplicates else None
+
         super().__init__(repair, eliminate_duplicates, n_max_iterations, **kwargs)
 
         if crossover is None:
@@ -191,6 +195,10 @@ class MixedVariableGA(GeneticAlgorithm):
         survival=FitnessSurvival(),
         **kwargs,
     ):
+        # a boolean value chooses the duplicate detection for mixed variables
+        if isinstance(eliminate_duplicates, bool):
+            eliminate_duplicates = MixedVariableDuplicateElimination() if eliminate_duplicates else None
+
         if mating is None:
             mating = MixedVariableMating(
                 repair=kwargs.get("repair"),
-- 
2.43.0


From 162b7f915c5cff1cb441e735fa390285e2c88d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 61/90] fix: the solutions introduced by D-NSGA-II and KGB
 after a change are repaired

---
 pymoo/algorithms/moo/dnsga2.py | 4 ++++
 pymoo/algorithms/moo/kgb.py    | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/pymoo/algorithms/moo/dnsga2.py b/pymoo/algorithms/moo/dnsga2.py
index 954a0ee..ac4e43d 100644
--- a/pymoo/algorithms/moo/dnsga2.py
+++ b/pymoo/algorithms/moo/dnsga2.py
@@ -58,6 +58,10 @@ class DNSGA2(NSGA2):
             else:
                 raise Exception(f"Unknown version of D-NSGA-II: {self.version}")
 
+            # repair the new individuals if necessary - disabled if repair is NoRepair
+            if len(I) > 0:
+                pop[I] = self.repair(self.problem, pop[I], random_state=self.random_state)
+
             # reevaluate because we know there was a change
             self.evaluator.eval(self.problem, pop)
 
diff --git a/pymoo/algorithms/moo/kgb.py b/pymoo/algorithms/moo/kgb.py
index eaa8da5..47d9508 100755
--- a/pymoo/algorithms/moo/kgb.py
+++ b/pymoo/algorithms/moo/kgb.py
@@ -414,6 +414,9 @@ class KGB(NSGA2):
             # recreate the current population without being evaluated
             pop = Population.new(X=init_pop)
 
+            # repair the individuals if necessary - disabled if repair is NoRepair
+            pop = self.repair(self.problem, pop, random_state=self.random_state)
+
             # reevaluate because we know there was a change
             self.evaluator.eval(self.problem, pop)
 
-- 
2.43.0


From 5bb24211cef8145c69cc3c496418e8a1e74c5813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 62/90] fix: the duplicate elimination by hash compares the
 values of the individuals

---
 pymoo/core/duplicate.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pymoo/core/duplicate.py b/pymoo/core/duplicate.py
index ff76312..8bf5871 100644
--- a/pymoo/core/duplicate.py
+++ b/pymoo/core/duplicate.py
@@ -129,8 +129,13 @@ def to_hash(x):
     return h
 
 
+def hash_of_design(ind):
+    X = ind.X
+    return to_hash(tuple(X.tolist()) if isinstance(X, np.ndarray) else X)
+
+
 class HashDuplicateElimination(DuplicateElimination):
-    def __init__(self, func=to_hash) -> None:
+    def __init__(self, func=hash_of_design) -> None:
         super().__init__()
         self.func = func
 
@@ -139,12 +144,10 @@ class HashDuplicateElimination(DuplicateElimination):
 
         if other is not None:
             for o in other:
-                val = self.func(o)
-                H.add(self.func(val))
+                H.add(to_hash(self.func(o)))
 
         for i, ind in enumerate(pop):
-            val = self.func(ind)
-            h = self.func(val)
+            h = to_hash(self.func(ind))
 
             if h in H:
                 is_duplicate[i] = True
-- 
2.43.0


From 3e51e0dd6330be6bc3db64cb3d0f9c6fa524ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:01 +0000
Subject: [PATCH 63/90] fix: keep the termination that is given to the
 constructor of an algorithm

---
 pymoo/algorithms/base/local.py               | 3 ++-
 pymoo/algorithms/moo/mopso_cd.py             | 3 ++-
 pymoo/algorithms/moo/nsga2.py                | 3 ++-
 pymoo/algorithms/moo/omni.py                 | 3 ++-
 pymoo/algorithms/moo/pinsga2.py              | 3 ++-
 pymoo/algorithms/moo/spea2.py                | 3 ++-
 pymoo/algorithms/soo/nonconvex/brkga.py      | 3 ++-
 pymoo/algorithms/soo/nonconvex/cmaes.py      | 8 ++++++--
 pymoo/algorithms/soo/nonconvex/de.py         | 3 ++-
 pymoo/algorithms/soo/nonconvex/es.py         | 3 ++-
 pymoo/algorithms/soo/nonconvex/ga.py         | 3 ++-
 pymoo/algorithms/soo/nonconvex/ga_niching.py | 3 ++-
 pymoo/algorithms/soo/nonconvex/nelder.py     | 3 ++-
 pymoo/algorithms/soo/nonconvex/pso_ep.py     | 3 ++-
 pymoo/algorithms/soo/univariate/exp.py       | 3 ++-
 pymoo/experimental/algorithms/gde3.py        | 3 ++-
 16 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/pymoo/algorithms/base/local.py b/pymoo/algorithms/base/local.py
index bd2d147..e8c56c7 100644
--- a/pymoo/algorithms/base/local.py
+++ b/pymoo/algorithms/base/local.py
@@ -21,7 +21,8 @@ class LocalSearch(LoopwiseAlgorithm, Algorithm):
         super().__init__(output=output, **kwargs)
 
         # the default termination if not specified otherwise
-        self.termination = RobustTermination(SingleObjectiveSpaceTermination(tol=1e-8), period=10)
+        if kwargs.get("termination") is None:
+            self.termination = RobustTermination(SingleObjectiveSpaceTermination(tol=1e-8), period=10)
 
         # the type of initial sampling
         initial = initial if "x0" not in kwargs else kwargs["x0"]
diff --git a/pymoo/algorithms/moo/mopso_cd.py b/pymoo/algorithms/moo/mopso_cd.py
index aafe628..c252406 100644
--- a/pymoo/algorithms/moo/mopso_cd.py
+++ b/pymoo/algorithms/moo/mopso_cd.py
@@ -57,7 +57,8 @@ class MOPSO_CD(Algorithm):
         self.sampling = sampling
 
         # Initialize termination if not provided
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
 
         # Initialize components
         self.nds = NonDominatedSorting()
diff --git a/pymoo/algorithms/moo/nsga2.py b/pymoo/algorithms/moo/nsga2.py
index 53b0b5b..70d9ec9 100644
--- a/pymoo/algorithms/moo/nsga2.py
+++ b/pymoo/algorithms/moo/nsga2.py
@@ -117,7 +117,8 @@ class NSGA2(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
         self.tournament_type = "comp_by_dom_and_crowding"
 
     def _set_optimum(self, **kwargs):
diff --git a/pymoo/algorithms/moo/omni.py b/pymoo/algorithms/moo/omni.py
index 80bc761..9d49e8f 100644
--- a/pymoo/algorithms/moo/omni.py
+++ b/pymoo/algorithms/moo/omni.py
@@ -424,7 +424,8 @@ class OmniOptimizer(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
         self.tournament_type = "comp_by_dom_and_crowding"
 
     def _set_optimum(self, **kwargs):
diff --git a/pymoo/algorithms/moo/pinsga2.py b/pymoo/algorithms/moo/pinsga2.py
index 207726f..df84e1a 100644
--- a/pymoo/algorithms/moo/pinsga2.py
+++ b/pymoo/algorithms/moo/pinsga2.py
@@ -80,7 +80,8 @@ class PINSGA2(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
         self.tournament_type = "comp_by_dom_and_crowding"
 
         self.ranking_type = ranking_type
diff --git a/pymoo/algorithms/moo/spea2.py b/pymoo/algorithms/moo/spea2.py
index 00d9976..15b5669 100644
--- a/pymoo/algorithms/moo/spea2.py
+++ b/pymoo/algorithms/moo/spea2.py
@@ -213,7 +213,8 @@ class SPEA2(GeneticAlgorithm):
             advance_after_initial_infill=True,
             **kwargs,
         )
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
 
 
 parse_doc_string(SPEA2.__init__)
diff --git a/pymoo/algorithms/soo/nonconvex/brkga.py b/pymoo/algorithms/soo/nonconvex/brkga.py
index cfac78e..89b0a87 100755
--- a/pymoo/algorithms/soo/nonconvex/brkga.py
+++ b/pymoo/algorithms/soo/nonconvex/brkga.py
@@ -126,7 +126,8 @@ class BRKGA(GeneticAlgorithm):
         self.n_elites = n_elites
         self.n_mutants = n_mutants
         self.bias = bias
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
     def _infill(self):
         pop = self.pop
diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index a8f3730..9521366 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -124,7 +124,8 @@ class CMAES(LocalSearch):
 
         super().__init__(x0=x0, output=output, **kwargs)
 
-        self.termination = NoTermination()
+        if kwargs.get("termination") is None:
+            self.termination = NoTermination()
 
         self.es = None
         self.cma = None
@@ -150,6 +151,8 @@ class CMAES(LocalSearch):
             tolx=tolx,
             **kwargs,
         )
+        # this is an option of the algorithm and not one of the library
+        self.options.pop("termination", None)
 
         self.send_array_to_yield = True
         self.parallelize = parallelize
@@ -244,7 +247,8 @@ class CMAES(LocalSearch):
 class SimpleCMAES(LocalSearch):
     def __init__(self, sigma=0.1, opts=None, normalize=True, **kwargs):
         super().__init__(**kwargs)
-        self.termination = NoTermination()
+        if kwargs.get("termination") is None:
+            self.termination = NoTermination()
         self.es = None
         self.sigma = sigma
         self.normalize = normalize
diff --git a/pymoo/algorithms/soo/nonconvex/de.py b/pymoo/algorithms/soo/nonconvex/de.py
index 744f6d1..86a6f85 100755
--- a/pymoo/algorithms/soo/nonconvex/de.py
+++ b/pymoo/algorithms/soo/nonconvex/de.py
@@ -266,7 +266,8 @@ class DE(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
     def _initialize_advance(self, infills=None, **kwargs):
         FitnessSurvival().do(self.problem, self.pop, return_indices=True)
diff --git a/pymoo/algorithms/soo/nonconvex/es.py b/pymoo/algorithms/soo/nonconvex/es.py
index 471a18c..b01f3e6 100644
--- a/pymoo/algorithms/soo/nonconvex/es.py
+++ b/pymoo/algorithms/soo/nonconvex/es.py
@@ -67,7 +67,8 @@ class ES(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
         self.phi = phi
         self.gamma = gamma
 
diff --git a/pymoo/algorithms/soo/nonconvex/ga.py b/pymoo/algorithms/soo/nonconvex/ga.py
index 595438a..76fa879 100644
--- a/pymoo/algorithms/soo/nonconvex/ga.py
+++ b/pymoo/algorithms/soo/nonconvex/ga.py
@@ -114,7 +114,8 @@ class GA(GeneticAlgorithm):
             **kwargs,
         )
 
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
 
 class BGA(GA):
diff --git a/pymoo/algorithms/soo/nonconvex/ga_niching.py b/pymoo/algorithms/soo/nonconvex/ga_niching.py
index 2aeeeb6..998ab0f 100644
--- a/pymoo/algorithms/soo/nonconvex/ga_niching.py
+++ b/pymoo/algorithms/soo/nonconvex/ga_niching.py
@@ -227,7 +227,8 @@ class NicheGA(GA):
         )
 
         # self.termination = NicheTermination()
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
         # whether with rank one after clearing or just the best should be considered as optimal
         self.return_all_opt = return_all_opt
diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index bbd5f96..7a79ef0 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -134,7 +134,8 @@ class NelderMead(LocalSearch):
         self.init_simplex_scale = init_simplex_scale
 
         # the termination used for nelder and mead if nothing else provided
-        self.termination = NelderAndMeadTermination()
+        if kwargs.get("termination") is None:
+            self.termination = NelderAndMeadTermination()
 
     def _setup(self, problem, **kwargs):
         self.alpha, self.beta, self.gamma, self.delta = self.func_params(self.problem)
diff --git a/pymoo/algorithms/soo/nonconvex/pso_ep.py b/pymoo/algorithms/soo/nonconvex/pso_ep.py
index 0fe8e6e..2d03108 100644
--- a/pymoo/algorithms/soo/nonconvex/pso_ep.py
+++ b/pymoo/algorithms/soo/nonconvex/pso_ep.py
@@ -209,7 +209,8 @@ class EPPSO(GeneticAlgorithm):
         self.neighbors = None
 
         # choose the single-objective default termination
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
 
         # the particles that fly around to find good solutions (pop is the pbest)
         self.swarm = None
diff --git a/pymoo/algorithms/soo/univariate/exp.py b/pymoo/algorithms/soo/univariate/exp.py
index 1407a1c..3705454 100644
--- a/pymoo/algorithms/soo/univariate/exp.py
+++ b/pymoo/algorithms/soo/univariate/exp.py
@@ -12,7 +12,8 @@ from pymoo.termination.default import DefaultSingleObjectiveTermination
 class ExponentialSearch(Algorithm):
     def __init__(self, delta=0.05, **kwargs):
         super().__init__(**kwargs)
-        self.termination = DefaultSingleObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultSingleObjectiveTermination()
         self.alpha = delta
         self.point = None
 
diff --git a/pymoo/experimental/algorithms/gde3.py b/pymoo/experimental/algorithms/gde3.py
index 993261e..a3208c9 100644
--- a/pymoo/experimental/algorithms/gde3.py
+++ b/pymoo/experimental/algorithms/gde3.py
@@ -22,7 +22,8 @@ class GDE3(DE):
             variant = Variant(selection="rand", F=0.1, CR=0.9, **kwargs)
 
         super().__init__(variant=variant, output=MultiObjectiveOutput(), **kwargs)
-        self.termination = DefaultMultiObjectiveTermination()
+        if kwargs.get("termination") is None:
+            self.termination = DefaultMultiObjectiveTermination()
 
     def _initialize_advance(self, infills=None, **kwargs):
         RankAndCrowdingSurvival().do(self.problem, infills, return_indices=True, random_state=self.random_state)
-- 
2.43.0


From 9970bc102a287a842e917e18cd4e4c71d6b566bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 64/90] fix: show the output if verbose is given to the
 constructor of an algorithm

---
 pymoo/algorithms/soo/nonconvex/cmaes.py | 5 ++---
 pymoo/core/algorithm.py                 | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pymoo/algorithms/soo/nonconvex/cmaes.py b/pymoo/algorithms/soo/nonconvex/cmaes.py
index 9521366..18ed5f2 100755
--- a/pymoo/algorithms/soo/nonconvex/cmaes.py
+++ b/pymoo/algorithms/soo/nonconvex/cmaes.py
@@ -143,16 +143,15 @@ class CMAES(LocalSearch):
         self.noise_kappa_exponent = noise_kappa_exponent
         self.bipop = bipop
 
+        # the termination and verbose are options of the algorithm and not of the library
         self.options = dict(
             verbose=cmaes_verbose,
             verb_log=verb_log,
             maxfevals=maxfevals,
             tolfun=tolfun,
             tolx=tolx,
-            **kwargs,
+            **{k: v for k, v in kwargs.items() if k not in ("termination", "verbose")},
         )
-        # this is an option of the algorithm and not one of the library
-        self.options.pop("termination", None)
 
         self.send_array_to_yield = True
         self.parallelize = parallelize
diff --git a/pymoo/core/algorithm.py b/pymoo/core/algorithm.py
index 98666c7..c350d78 100644
--- a/pymoo/core/algorithm.py
+++ b/pymoo/core/algorithm.py
@@ -131,7 +131,7 @@ class Algorithm:
 
         # set up the display during the algorithm execution
         if self.display is None:
-            self.display = Display(self.output, verbose=verbose, progress=progress)
+            self.display = Display(self.output, verbose=verbose or self.verbose, progress=progress)
 
         # finally call the function that can be overwritten by the actual algorithm
         self._setup(problem, **kwargs)
-- 
2.43.0


From 34f4d7acb484b75f1698574ed4400cbc253d9bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 65/90] fix: use the init_simplex_scale given to NelderMead

---
 pymoo/algorithms/soo/nonconvex/nelder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/soo/nonconvex/nelder.py b/pymoo/algorithms/soo/nonconvex/nelder.py
index 7a79ef0..a6b57cd 100644
--- a/pymoo/algorithms/soo/nonconvex/nelder.py
+++ b/pymoo/algorithms/soo/nonconvex/nelder.py
@@ -141,7 +141,7 @@ class NelderMead(LocalSearch):
         self.alpha, self.beta, self.gamma, self.delta = self.func_params(self.problem)
 
     def _initialize_simplex(self):
-        simplex = pop_from_array_or_individual(initialize_simplex(self.problem, self.x0.X, scale=0.05))
+        simplex = pop_from_array_or_individual(initialize_simplex(self.problem, self.x0.X, scale=self.init_simplex_scale))
         return Population.merge(self.x0, simplex)
 
     def _next(self):
-- 
2.43.0


From e0e83d3ea62712fb4526642020a531284e7d554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 66/90] fix: use the epsilon given to HighTradeoffPoints

---
 pymoo/mcdm/high_tradeoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/mcdm/high_tradeoff.py b/pymoo/mcdm/high_tradeoff.py
index 4fb3be4..e1cc126 100644
--- a/pymoo/mcdm/high_tradeoff.py
+++ b/pymoo/mcdm/high_tradeoff.py
@@ -19,7 +19,7 @@ class HighTradeoffPoints(DecisionMaking):
     def _do(self, F, **kwargs):
         n, m = F.shape
 
-        neighbors_finder = NeighborFinder(F, epsilon=0.125, n_min_neigbors="auto", consider_2d=False)
+        neighbors_finder = NeighborFinder(F, epsilon=self.epsilon, n_min_neigbors="auto", consider_2d=False)
 
         mu = np.full(n, -np.inf)
 
-- 
2.43.0


From e0938112616fdc9c857db9024309f84f6b732628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 67/90] fix: apply the dither and jitter given to DEX

---
 pymoo/operators/crossover/dex.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymoo/operators/crossover/dex.py b/pymoo/operators/crossover/dex.py
index 75d5753..2a48e26 100644
--- a/pymoo/operators/crossover/dex.py
+++ b/pymoo/operators/crossover/dex.py
@@ -65,7 +65,7 @@ class DEX(Crossover):
         CR=0.7,
         variant="bin",
         dither=None,
-        jitter=False,
+        jitter=True,
         n_diffs=1,
         n_iter=1,
         at_least_once=True,
@@ -100,7 +100,7 @@ class DEX(Crossover):
         F = self.F if self.F is not None else rnd_F(m, random_state=random_state)
 
         # prepare the out to be set
-        Xp = de_differential(X[:, m], F, random_state=random_state)
+        Xp = de_differential(X[:, m], F, dither=self.dither, jitter=self.jitter, random_state=random_state)
 
         # if the problem has boundaries to be considered
         if problem.has_bounds():
@@ -111,7 +111,9 @@ class DEX(Crossover):
                 F = rnd_F(m, random_state=random_state)
 
                 # actually execute the differential equation
-                Xp[m] = de_differential(X[:, m], F, random_state=random_state)
+                Xp[m] = de_differential(
+                    X[:, m], F, dither=self.dither, jitter=self.jitter, random_state=random_state
+                )
 
             # if still infeasible do a random initialization
             Xp = repair_random_init(Xp, X[0], *problem.bounds(), random_state=random_state)
-- 
2.43.0


From c024df5ce08df3fb43877ce01b0952b63f362025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 68/90] fix: use the prob_hux given to HUX

---
 pymoo/operators/crossover/hux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/operators/crossover/hux.py b/pymoo/operators/crossover/hux.py
index 3c88261..31c558e 100644
--- a/pymoo/operators/crossover/hux.py
+++ b/pymoo/operators/crossover/hux.py
@@ -25,7 +25,7 @@ class HalfUniformCrossover(Crossover):
         for i in range(n_matings):
             I = np.where(not_equal[i])[0]  # noqa: E741
 
-            n = math.ceil(len(I) / 2)
+            n = math.ceil(len(I) * self.prob_hux)
             if n > 0:
                 _I = I[random_state.permutation(len(I))[:n]]
                 M[i, _I] = True
-- 
2.43.0


From a4b8c8ea321ac3801d58de7c033e20fcdb6acde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 69/90] fix: keep the bracket given to the constructor of a
 BracketSearch

---
 pymoo/algorithms/base/bracket.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymoo/algorithms/base/bracket.py b/pymoo/algorithms/base/bracket.py
index 7e7ebdd..8b378e7 100644
--- a/pymoo/algorithms/base/bracket.py
+++ b/pymoo/algorithms/base/bracket.py
@@ -14,7 +14,10 @@ class BracketSearch(Algorithm):
     def _setup(self, problem, a=None, b=None, **kwargs):
         msg = "Only problems with one variable, one objective and no constraints can be solved!"
         assert problem.n_var == 1 and not problem.has_constraints() and problem.n_obj == 1, msg
-        self.a, self.b = a, b
+        if a is not None:
+            self.a = a
+        if b is not None:
+            self.b = b
 
     def _initialize_infill(self):
 
-- 
2.43.0


From 02abfda2673c3f10b94d0d3292fc5338298be454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 70/90] fix: draw circles and lines on the given axes

---
 pymoo/visualization/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymoo/visualization/util.py b/pymoo/visualization/util.py
index fb14dff..21d9bff 100644
--- a/pymoo/visualization/util.py
+++ b/pymoo/visualization/util.py
@@ -37,12 +37,12 @@ def get_uniform_points_around_circle(n: int) -> np.ndarray:  # noqa: ANN101
 def plot_circle(ax, center: float = 0, radius: float = 1, **kwargs) -> None:  # noqa: ANN001
     P = get_circle_points(5000)
     P = (P + center) * radius
-    plt.plot(P[:, 0], P[:, 1], **kwargs)
+    ax.plot(P[:, 0], P[:, 1], **kwargs)
 
 
 def plot_radar_line(ax, x, **kwargs) -> None:  # noqa: ANN001
     x = np.vstack([x, x[0]])
-    plt.plot(x[:, 0], x[:, 1], **kwargs)
+    ax.plot(x[:, 0], x[:, 1], **kwargs)
 
 
 def plot_axes_arrow(ax, X, extend_factor: float = 1.0, **kwargs) -> None:  # noqa: ANN001
@@ -52,7 +52,7 @@ def plot_axes_arrow(ax, X, extend_factor: float = 1.0, **kwargs) -> None:  # noq
 
 def plot_axes_lines(ax, X, extend_factor: float = 1.0, **kwargs) -> None:  # noqa: ANN001
     for x, y in X:
-        plt.plot([0, x * extend_factor], [0, y * extend_factor], **kwargs)
+        ax.plot([0, x * extend_factor], [0, y * extend_factor], **kwargs)
 
 
 def plot_polygon(ax, x, **kwargs) -> None:  # noqa: ANN001
-- 
2.43.0


From c22730f047380e9246d0472b0efacb06b0629696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 71/90] fix: use the verbose flag of ReferenceDirectionGA

---
 pymoo/util/ref_dirs/genetic_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/util/ref_dirs/genetic_algorithm.py b/pymoo/util/ref_dirs/genetic_algorithm.py
index de12150..9b409f8 100644
--- a/pymoo/util/ref_dirs/genetic_algorithm.py
+++ b/pymoo/util/ref_dirs/genetic_algorithm.py
@@ -60,7 +60,7 @@ class ReferenceDirectionGA(ReferenceDirectionFactory):
             algorithm,
             termination=("n_gen", n_gen),
             random_state=random_state,
-            verbose=True,
+            verbose=self.verbose,
         )
 
         ref_dirs = problem.get_points(res.X)
-- 
2.43.0


From d55e457320efa45098c3d17032e9cbab3abd31e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:25 +0000
Subject: [PATCH 72/90] fix: pass the options of MW, DASCMOP and Himmelblau
 problems on to the base class

---
 pymoo/problems/multi/dascmop.py     |  4 ++--
 pymoo/problems/multi/mw.py          | 28 ++++++++++++++--------------
 pymoo/problems/single/himmelblau.py |  2 +-
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/pymoo/problems/multi/dascmop.py b/pymoo/problems/multi/dascmop.py
index 428a54a..e284b9a 100644
--- a/pymoo/problems/multi/dascmop.py
+++ b/pymoo/problems/multi/dascmop.py
@@ -76,7 +76,7 @@ class DASCMOP(Problem):
 
 class DASCMOP1(DASCMOP):
     def __init__(self, difficulty: int | tuple, **kwargs) -> None:  # noqa: PYI041
-        super().__init__(2, 11, difficulty)
+        super().__init__(2, 11, difficulty, **kwargs)
 
     def constraints(self, X: np.ndarray, f0: np.ndarray, f1: np.ndarray, g: np.ndarray) -> np.ndarray:
         a = 20.0
@@ -178,7 +178,7 @@ class DASCMOP6(DASCMOP1):
 
 class DASCMOP7(DASCMOP):
     def __init__(self, difficulty_factors: int | tuple, **kwargs) -> None:  # noqa: PYI041
-        super().__init__(3, 7, difficulty_factors)
+        super().__init__(3, 7, difficulty_factors, **kwargs)
 
     def constraints(
         self,
diff --git a/pymoo/problems/multi/mw.py b/pymoo/problems/multi/mw.py
index d510d3f..894553a 100644
--- a/pymoo/problems/multi/mw.py
+++ b/pymoo/problems/multi/mw.py
@@ -63,7 +63,7 @@ class MW(Problem):
 
 class MW1(MW):
     def __init__(self, n_var: int = 15, **kwargs) -> None:
-        super().__init__(n_var, 2, 1)
+        super().__init__(n_var, 2, 1, **kwargs)
 
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g1(X)
@@ -89,7 +89,7 @@ class MW1(MW):
 
 class MW2(MW):
     def __init__(self, n_var: int = 15, **kwargs) -> None:
-        super().__init__(n_var, 2, 1)
+        super().__init__(n_var, 2, 1, **kwargs)
 
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g2(X)
@@ -112,7 +112,7 @@ class MW2(MW):
 
 class MW3(MW):
     def __init__(self, n_var: int = 15, **kwargs) -> None:
-        super().__init__(n_var, 2, 2)
+        super().__init__(n_var, 2, 2, **kwargs)
 
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g3(X)
@@ -144,7 +144,7 @@ class MW4(MW):
     def __init__(self, n_var: int | None = None, n_obj: int = 3, **kwargs) -> None:  # noqa: PYI041
         if n_var is None:
             n_var = n_obj + 12
-        super().__init__(n_var, n_obj, 1)
+        super().__init__(n_var, n_obj, 1, **kwargs)
 
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g1(X)
@@ -167,7 +167,7 @@ class MW4(MW):
 
 class MW5(MW):
     def __init__(self, n_var: int = 15, **kwargs) -> None:
-        super().__init__(n_var, 2, 3)
+        super().__init__(n_var, 2, 3, **kwargs)
 
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g1(X)
@@ -190,7 +190,7 @@ class MW5(MW):
 
 class MW6(MW):
     def __init__(self, n_var: int = 15, **kwargs) -> None:
-        super().__init__(n_var, 2, 1, xl=0.0, xu=1.1)
+        super().__init__(n_var, 2, 1, xl=0.0, xu=1.1, **kwargs)
 
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g2(X)
@@ -223,7 +223,7 @@ class MW6(MW):
 
 class MW7(MW):
     def __init__(self, n_var: int = 15, **kwargs) -> None:
-        super().__init__(n_var, 2, 2)
+        super().__init__(n_var, 2, 2, **kwargs)
 
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g3(X)
@@ -246,7 +246,7 @@ class MW8(MW):
     def __init__(self, n_var: int | None = None, n_obj: int = 3, **kwargs) -> None:  # noqa: PYI041
         if n_var is None:
             n_var = n_obj + 12
-        super().__init__(n_var, n_obj, 1)
+        super().__init__(n_var, n_obj, 1, **kwargs)
 
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g2(X)
@@ -274,7 +274,7 @@ class MW8(MW):
 
 class MW9(MW):
     def __init__(self, n_var: int = 15, **kwargs) -> None:
-        super().__init__(n_var, 2, 1)
+        super().__init__(n_var, 2, 1, **kwargs)
 
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g1(X)
@@ -293,7 +293,7 @@ class MW9(MW):
 
 class MW10(MW):
     def __init__(self, n_var: int = 15, **kwargs) -> None:
-        super().__init__(n_var, 2, 3)
+        super().__init__(n_var, 2, 3, **kwargs)
 
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g2(X)
@@ -312,7 +312,7 @@ class MW10(MW):
 
 class MW11(MW):
     def __init__(self, n_var: int = 15, **kwargs) -> None:
-        super().__init__(n_var, 2, 4, xl=0.0, xu=np.sqrt(2))
+        super().__init__(n_var, 2, 4, xl=0.0, xu=np.sqrt(2), **kwargs)
 
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g3(X)
@@ -332,7 +332,7 @@ class MW11(MW):
 
 class MW12(MW):
     def __init__(self, n_var: int = 15, **kwargs) -> None:
-        super().__init__(n_var, 2, 2)
+        super().__init__(n_var, 2, 2, **kwargs)
 
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g1(X)
@@ -371,7 +371,7 @@ class MW12(MW):
 
 class MW13(MW):
     def __init__(self, n_var: int = 15, **kwargs) -> None:
-        super().__init__(n_var, 2, 2, xu=1.5)
+        super().__init__(n_var, 2, 2, xu=1.5, **kwargs)
 
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g2(X)
@@ -397,7 +397,7 @@ class MW14(MW):
     def __init__(self, n_var: int | None = None, n_obj: int = 3, **kwargs) -> None:  # noqa: PYI041
         if n_var is None:
             n_var = n_obj + 12
-        super().__init__(n_var, n_obj, 1, xu=1.5)
+        super().__init__(n_var, n_obj, 1, xu=1.5, **kwargs)
 
     def _evaluate(self, X: np.ndarray, out: dict, *args, **kwargs) -> None:  # type: ignore[override]  # noqa: ARG002
         g = self.g3(X)
diff --git a/pymoo/problems/single/himmelblau.py b/pymoo/problems/single/himmelblau.py
index c53735e..00f283f 100644
--- a/pymoo/problems/single/himmelblau.py
+++ b/pymoo/problems/single/himmelblau.py
@@ -5,7 +5,7 @@ from pymoo.core.problem import Problem
 
 class Himmelblau(Problem):
     def __init__(self, **kwargs):
-        super().__init__(n_var=2, n_obj=1, xl=-6, xu=6, vtype=float)
+        super().__init__(n_var=2, n_obj=1, xl=-6, xu=6, vtype=float, **kwargs)
 
     def _evaluate(self, x, out, *args, **kwargs):
         out["F"] = (x[:, 0] ** 2 + x[:, 1] - 11) ** 2 + (x[:, 0] + x[:, 1] ** 2 - 7) ** 2
-- 
2.43.0


From 5e49a638cfa2cf0ac766a15f7c7471fec4a31479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:25 +0000
Subject: [PATCH 73/90] fix: do not silently replace the number of constraints
 given to DC-DTLZ problems

---
 pymoo/problems/many/dcdtlz.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pymoo/problems/many/dcdtlz.py b/pymoo/problems/many/dcdtlz.py
index 0908e27..484db16 100644
--- a/pymoo/problems/many/dcdtlz.py
+++ b/pymoo/problems/many/dcdtlz.py
@@ -63,8 +63,7 @@ class DC1DTLZ1(DTLZ1):
             n_obj: Number of objectives.
             **kwargs: Additional arguments passed to parent.
         """
-        super().__init__(n_var, n_obj, **kwargs)
-        self.n_ieq_constr = 1
+        super().__init__(n_var, n_obj, n_ieq_constr=1, **kwargs)
 
     def _evaluate(self, x, out, *args, **kwargs) -> None:
         """Evaluate objectives and constraint.
@@ -90,8 +89,7 @@ class DC1DTLZ3(DTLZ3):
             n_obj: Number of objectives.
             **kwargs: Additional arguments passed to parent.
         """
-        super().__init__(n_var, n_obj, **kwargs)
-        self.n_ieq_constr = 1
+        super().__init__(n_var, n_obj, n_ieq_constr=1, **kwargs)
 
     def _evaluate(self, x, out, *args, **kwargs) -> None:
         """Evaluate objectives and constraint.
@@ -117,8 +115,7 @@ class DC2DTLZ1(DTLZ1):
             n_obj: Number of objectives.
             **kwargs: Additional arguments passed to parent.
         """
-        super().__init__(n_var, n_obj, **kwargs)
-        self.n_ieq_constr = 2
+        super().__init__(n_var, n_obj, n_ieq_constr=2, **kwargs)
 
     def _evaluate(self, x, out, *args, **kwargs) -> None:
         """Evaluate objectives and constraints.
@@ -146,8 +143,7 @@ class DC2DTLZ3(DTLZ3):
             n_obj: Number of objectives.
             **kwargs: Additional arguments passed to parent.
         """
-        super().__init__(n_var, n_obj, **kwargs)
-        self.n_ieq_constr = 2
+        super().__init__(n_var, n_obj, n_ieq_constr=2, **kwargs)
 
     def _evaluate(self, x, out, *args, **kwargs) -> None:
         """Evaluate objectives and constraints.
-- 
2.43.0


From ed699d6b493c7da5a65d5cd08344adf8fc5cdf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:25 +0000
Subject: [PATCH 74/90] fix: do not silently replace the survival given to
 RNSGA2

---
 pymoo/algorithms/moo/rnsga2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymoo/algorithms/moo/rnsga2.py b/pymoo/algorithms/moo/rnsga2.py
index b21d46b..e6edc4c 100644
--- a/pymoo/algorithms/moo/rnsga2.py
+++ b/pymoo/algorithms/moo/rnsga2.py
@@ -39,9 +39,7 @@ class RNSGA2(NSGA2):
         self.normalization = normalization
         self.selection = RandomSelection()
 
-        super().__init__(**kwargs)
-
-        self.survival = RankAndModifiedCrowdingSurvival(
+        survival = RankAndModifiedCrowdingSurvival(
             ref_points,
             epsilon,
             weights,
@@ -49,6 +47,8 @@ class RNSGA2(NSGA2):
             extreme_points_as_reference_points,
         )
 
+        super().__init__(survival=survival, **kwargs)
+
 
 class RankAndModifiedCrowdingSurvival(Survival):
     def __init__(
-- 
2.43.0


From 1cc79314dcf61eb6a528fbc7bd0e8151a3dcb9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 75/90] fix: pass the options given to the random flowshop and
 tsp problems on

---
 pymoo/problems/single/flowshop_scheduling.py | 2 +-
 pymoo/problems/single/traveling_salesman.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymoo/problems/single/flowshop_scheduling.py b/pymoo/problems/single/flowshop_scheduling.py
index aafc778..6dbae22 100644
--- a/pymoo/problems/single/flowshop_scheduling.py
+++ b/pymoo/problems/single/flowshop_scheduling.py
@@ -97,7 +97,7 @@ def create_random_flowshop_problem(
         A FlowshopScheduling problem instance.
     """
     T = random_state.random((n_machines, n_jobs)) * 50 + 50
-    return FlowshopScheduling(T)
+    return FlowshopScheduling(T, **kwargs)
 
 
 def visualize(
diff --git a/pymoo/problems/single/traveling_salesman.py b/pymoo/problems/single/traveling_salesman.py
index 193b7e6..43af7d3 100644
--- a/pymoo/problems/single/traveling_salesman.py
+++ b/pymoo/problems/single/traveling_salesman.py
@@ -43,7 +43,7 @@ class TravelingSalesman(ElementwiseProblem):
 def create_random_tsp_problem(n_cities, grid_width=100.0, grid_height=None, random_state=None, **kwargs):
     grid_height = grid_height if grid_height is not None else grid_width
     cities = random_state.random((n_cities, 2)) * [grid_width, grid_height]
-    return TravelingSalesman(cities)
+    return TravelingSalesman(cities, **kwargs)
 
 
 def visualize(problem, x, fig=None, ax=None, show=True, label=True):
-- 
2.43.0


From 708ffbed3ec402967773eb5f196f640150cff5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:58 +0000
Subject: [PATCH 76/90] fix: DF12 multiplies the landscape term per solution
 and not over the whole batch

---
 pymoo/problems/dynamic/df.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/dynamic/df.py b/pymoo/problems/dynamic/df.py
index 003e9bd..3208b0d 100644
--- a/pymoo/problems/dynamic/df.py
+++ b/pymoo/problems/dynamic/df.py
@@ -333,7 +333,7 @@ class DF12(DF):
         x0 = x[:, 0].reshape(len(x), 1)
         tmp1 = x[:, 2:] - np.sin(self.time * x0)
         tmp2 = np.abs(np.sin(np.floor(k * (2 * x[:, 0:2] - r)) * np.pi / 2))
-        g = 1 + np.sum(tmp1**2, axis=1) + np.prod(tmp2)
+        g = 1 + np.sum(tmp1**2, axis=1) + np.prod(tmp2, axis=1)
 
         f1 = g * np.cos(0.5 * np.pi * x[:, 1]) * np.cos(0.5 * np.pi * x[:, 0])
         f2 = g * np.sin(0.5 * np.pi * x[:, 1]) * np.cos(0.5 * np.pi * x[:, 0])
-- 
2.43.0


From 216f76b3012edec891341a5c590639381a5d915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 77/90] fix: Clutch declares the eight constraints it evaluates

---
 pymoo/problems/multi/clutch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi/clutch.py b/pymoo/problems/multi/clutch.py
index cea0dcd..8115f0d 100644
--- a/pymoo/problems/multi/clutch.py
+++ b/pymoo/problems/multi/clutch.py
@@ -8,7 +8,7 @@ from pymoo.core.problem import Problem
 
 class Clutch(Problem):
     def __init__(self) -> None:
-        super().__init__(n_var=5, n_obj=2, n_ieq_constr=19, vtype=int)
+        super().__init__(n_var=5, n_obj=2, n_ieq_constr=8, vtype=int)
         # ri, ro, t, F, Xp
         # self.xl = np.array([60, 90, 1, 600, 2])
         self.xl: np.ndarray = np.array([0, 0, 0, 0, 0])
-- 
2.43.0


From 2c6a6a4efdbacfe3908d00cbf88c4b118a5e5931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 78/90] fix: MW14 has no Pareto-front instead of an empty one
 for other numbers of objectives

---
 pymoo/problems/multi/mw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi/mw.py b/pymoo/problems/multi/mw.py
index 894553a..da92b71 100644
--- a/pymoo/problems/multi/mw.py
+++ b/pymoo/problems/multi/mw.py
@@ -415,4 +415,4 @@ class MW14(MW):
     def _calc_pareto_front(self, **kwargs) -> np.ndarray:  # type: ignore[return-value]  # noqa: ARG002
         if self.n_obj == 3:
             return Remote.get_instance().load("pymoo", "pf", "MW", "MW14.pf")  # type: ignore[return-value]
-        return np.array([])
+        return None  # type: ignore[return-value]
-- 
2.43.0


From 2f46f29d874bb2b2591adc83a1b0ad04f1b0c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 79/90] fix: ZeroToOne evaluates the design mapped back to the
 original bounds

---
 pymoo/problems/zero_to_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/zero_to_one.py b/pymoo/problems/zero_to_one.py
index 14ef424..82c8219 100644
--- a/pymoo/problems/zero_to_one.py
+++ b/pymoo/problems/zero_to_one.py
@@ -14,7 +14,7 @@ class ZeroToOne(Meta, Problem):
         self.xl, self.xu = np.zeros(self.n_var), np.ones(self.n_var)
 
     def do(self, X, return_values_of, *args, **kwargs):
-        Xp = self.normalize(X)
+        Xp = self.denormalize(X)
 
         out = super().do(Xp, return_values_of, *args, **kwargs)
         out["__X__"] = X
-- 
2.43.0


From 3c3ec1882173288719aae0f70052fc7993f0d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 80/90] fix: MultiToSingleObjective works without keyword
 arguments for the decomposition

---
 pymoo/problems/multi_to_single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/problems/multi_to_single.py b/pymoo/problems/multi_to_single.py
index 87dd7ca..44de2e4 100644
--- a/pymoo/problems/multi_to_single.py
+++ b/pymoo/problems/multi_to_single.py
@@ -18,7 +18,7 @@ class MultiToSingleObjective(Meta, Problem):
     def __init__(self, problem: Any, decomposition: Any, kwargs: dict | None = None) -> None:
         super().__init__(problem)
         self.decomposition = decomposition
-        self.kwargs = kwargs if not None else dict()  # noqa: E712
+        self.kwargs = kwargs if kwargs is not None else dict()
         self.n_obj = 1
 
     def do(self, X: Any, return_values_of: Any, *args: Any, **kwargs: Any) -> dict:
-- 
2.43.0


From 1688889e191a8fbfd781fb69dcc92f39455975db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 81/90] fix: ConstraintsFromBounds uses the bounds of the
 problem it wraps also after removing them

---
 pymoo/constraints/from_bounds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/constraints/from_bounds.py b/pymoo/constraints/from_bounds.py
index 9a0eb82..244c231 100644
--- a/pymoo/constraints/from_bounds.py
+++ b/pymoo/constraints/from_bounds.py
@@ -21,7 +21,7 @@ class ConstraintsFromBounds(Meta, Problem):
         out = self.__object__.do(X, return_values_of, *args, **kwargs)
 
         # get the boundaries for normalization
-        xl, xu = self.bounds()
+        xl, xu = self.__object__.bounds()
 
         # add the boundary constraint if enabled
         _G = anp.column_stack([xl - X, X - xu])
-- 
2.43.0


From ae152172c0a43bfe9d65b55a82777018da06b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 82/90] fix: ConstraintsAsPenalty penalizes all objectives of
 multi-objective problems

---
 pymoo/constraints/as_penalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/constraints/as_penalty.py b/pymoo/constraints/as_penalty.py
index a605073..659970e 100644
--- a/pymoo/constraints/as_penalty.py
+++ b/pymoo/constraints/as_penalty.py
@@ -32,7 +32,7 @@ class ConstraintsAsPenalty(Meta, Problem):
         CV = calc_cv(G=G, H=H)
 
         # set the penalized objective values
-        out["F"] = F + self.penalty * np.reshape(CV, F.shape)
+        out["F"] = F + self.penalty * np.reshape(CV, (len(F), 1))
 
         out.pop("G", None)
         out.pop("H", None)
-- 
2.43.0


From 1e79c0ae25631f18a554b7e438a9185eb7a5d47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 83/90] fix: ConstraintsAsObjective without appending returns
 one column

---
 pymoo/constraints/as_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index 665377f..1b30cba 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -40,7 +40,7 @@ class ConstraintsAsObjective(Meta, Problem):
         if self.append:
             out["F"] = anp.column_stack([CV, F])
         else:
-            out["F"] = CV
+            out["F"] = anp.reshape(CV, (len(F), 1))
 
         out.pop("G", None)
         out.pop("H", None)
-- 
2.43.0


From 8d27176366ba4b62557ad6a7ee37539fb10d8817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:19 +0000
Subject: [PATCH 84/90] fix: ConstraintsAsObjective adds the violation to the
 Pareto-front of the problem it wraps

---
 pymoo/constraints/as_obj.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymoo/constraints/as_obj.py b/pymoo/constraints/as_obj.py
index 1b30cba..154ce39 100644
--- a/pymoo/constraints/as_obj.py
+++ b/pymoo/constraints/as_obj.py
@@ -48,7 +48,8 @@ class ConstraintsAsObjective(Meta, Problem):
         return out
 
     def pareto_front(self, *args, **kwargs):
-        pf = super().pareto_front(*args, **kwargs)
+        pf = self.__object__.pareto_front(*args, **kwargs)
         if pf is not None:
-            pf = np.column_stack([np.zeros(len(pf)), pf])
+            zeros = np.zeros((len(pf), 1))
+            pf = np.column_stack([zeros, pf]) if self.append else zeros[:1]
         return pf
-- 
2.43.0


From 06517d083dde80ff7910cd4472d80bbb367a6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:36 +0000
Subject: [PATCH 85/90] fix: keep the points of the quadratic interpolation
 search inside its bracket

---
 pymoo/algorithms/soo/univariate/quadr_interp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymoo/algorithms/soo/univariate/quadr_interp.py b/pymoo/algorithms/soo/univariate/quadr_interp.py
index 7cfd49e..9ab86ef 100644
--- a/pymoo/algorithms/soo/univariate/quadr_interp.py
+++ b/pymoo/algorithms/soo/univariate/quadr_interp.py
@@ -7,8 +7,8 @@ from pymoo.core.population import Population
 
 def quadr_interp_equ(xa, fa, xb, fb, xc, fc):
     g1 = (fc - fa) / (xc - xa)
-    g2 = ((fb - fc) / (xb - xc) - g1) * (xb - xa)
-    xd = 0.5 * ((xa - xb) - g1 / g2)
+    g2 = ((fb - fc) / (xb - xc) - g1) / (xb - xa)
+    xd = 0.5 * ((xa + xc) - g1 / g2)
     return xd
 
 
@@ -35,7 +35,7 @@ class QuadraticInterpolationSearch(BracketSearch):
         a, b = self.a, self.b
 
         # set c to be directly in the middle between the two brackets
-        c = Individual(X=(b.X - a.X) / 2)
+        c = Individual(X=(a.X + b.X) / 2)
 
         # create a population with all three individuals
         pop = Population.create(a, b, c)
@@ -55,7 +55,7 @@ class QuadraticInterpolationSearch(BracketSearch):
             else:
                 b = c
 
-            c = Individual(X=(b.X - a.X) / 2)
+            c = Individual(X=(a.X + b.X) / 2)
             self.evaluator.eval(self.problem, c, algorithm=self)
             self.infills = c
 
-- 
2.43.0


From d70b9423baee8a92908ebd6502c14be9c43e5535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:53 +0000
Subject: [PATCH 86/90] fix: a line search keeps its points in the bounds of
 the problem that is searched

---
 pymoo/algorithms/base/line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/base/line.py b/pymoo/algorithms/base/line.py
index 46c0407..c5daa79 100644
--- a/pymoo/algorithms/base/line.py
+++ b/pymoo/algorithms/base/line.py
@@ -54,7 +54,7 @@ class LineSearchProblem(Meta, Problem):
 
         x = self.point.X + alpha * self.direction
         if self.strict_bounds:
-            x = set_to_bounds_if_outside(x, self.xl, self.xu)
+            x = set_to_bounds_if_outside(x, *self.__object__.bounds())
         out["__X__"] = x
 
         super()._evaluate(x, out, *args, **kwargs)
-- 
2.43.0


From c268827322f729c92cbe8c735c3083954f2734ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:44 +0000
Subject: [PATCH 87/90] fix: a restored COCO problem holds the problem again,
 not a tuple

---
 pymoo/vendor/vendor_coco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/vendor/vendor_coco.py b/pymoo/vendor/vendor_coco.py
index 124f968..dcdb858 100644
--- a/pymoo/vendor/vendor_coco.py
+++ b/pymoo/vendor/vendor_coco.py
@@ -54,7 +54,7 @@ class COCOProblem(Problem):
 
     def __setstate__(self, d):
         self.__dict__.update(d)
-        self.object = get_bbob(self.name, self.n_var)
+        _, _, self.object = get_bbob(self.name, self.n_var)
 
 
 def get_bbob(name, n_var=10, **kwargs):
-- 
2.43.0


From 80790de34a9dcaea2fd4424b20684d5b2a90a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:51 +0000
Subject: [PATCH 88/90] fix: a WFG problem rejects position and distance
 parameters that do not add up to its variables

---
 pymoo/problems/many/wfg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymoo/problems/many/wfg.py b/pymoo/problems/many/wfg.py
index 0fdfbba..fc6f7d1 100644
--- a/pymoo/problems/many/wfg.py
+++ b/pymoo/problems/many/wfg.py
@@ -61,6 +61,8 @@ class WFG(Problem):
             self.l = n_var - self.k
 
         self.validate(self.l, self.k, self.n_obj)
+        if self.k + self.l != n_var:
+            raise ValueError("Position and distance parameters must add up to the number of variables (k + l = n_var).")
 
     def validate(self, l: int, k: int, n_obj: int) -> None:  # noqa: E741
         """Validate WFG problem parameters.
-- 
2.43.0


From f9d147db580579f51f40dc7b7dd0fda19e10fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:48 +0000
Subject: [PATCH 89/90] fix: R-NSGA-III passes the worst of the front and of
 the population to get_nadir_point in the right order

---
 pymoo/algorithms/moo/rnsga3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/rnsga3.py b/pymoo/algorithms/moo/rnsga3.py
index 7dc697b..7450008 100644
--- a/pymoo/algorithms/moo/rnsga3.py
+++ b/pymoo/algorithms/moo/rnsga3.py
@@ -125,8 +125,8 @@ class AspirationPointSurvival(Survival):
             self.extreme_points,
             self.ideal_point,
             self.worst_point,
-            worst_of_population,
             worst_of_front,
+            worst_of_population,
         )
 
         I = np.concatenate(fronts)  # noqa: E741
-- 
2.43.0


From c9b4bd0e801ee7441ca3a1282555a204727bcac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:47 +0000
Subject: [PATCH 90/90] fix: MOEA/D passes advance_after_initial_infill under
 its name

---
 pymoo/algorithms/moo/moead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymoo/algorithms/moo/moead.py b/pymoo/algorithms/moo/moead.py
index dbad0a6..277b112 100755
--- a/pymoo/algorithms/moo/moead.py
+++ b/pymoo/algorithms/moo/moead.py
@@ -85,7 +85,7 @@ class MOEAD(LoopwiseAlgorithm, GeneticAlgorithm):
             mutation=mutation,
             eliminate_duplicates=NoDuplicateElimination(),
             output=output,
-            advance_after_initialization=False,
+            advance_after_initial_infill=False,
             **kwargs,
         )
 
-- 
2.43.0

