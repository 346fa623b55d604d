From c532504cb8259f682a5a741f8acc70d9a43cd23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 01/27] fix: OMOPSO archive skips members while removing
 dominated ones during iteration

---
 algorithms/OMOPSO/OMOPSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index bcdbdba..5c2c643 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -277,7 +277,7 @@ class Archive(object):
 
     def add(self, p):
 
-        for l in self.archive:
+        for l in list(self.archive):
             if l.dominates(p, self.eta):
                 return False
             elif p.dominates(l, self.eta):
-- 
2.43.0


From 3cccde9f2c3c8bc0f81608918fafaa6b9403c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 02/27] fix: BOGO archive drops the member that dominates a
 rejected newcomer

---
 algorithms/BOGO/BOGO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithms/BOGO/BOGO.py b/algorithms/BOGO/BOGO.py
index a46d123..c65e635 100644
--- a/algorithms/BOGO/BOGO.py
+++ b/algorithms/BOGO/BOGO.py
@@ -38,6 +38,7 @@ class BOGO(Driver):
         for archival in self.archive:
             if not individual_dominated and dominates(archival.fit, individual.fit):
                 individual_dominated = True
+                new_archive.append(archival)
             elif not dominates(individual.fit, archival.fit):
                 new_archive.append(archival)
         if not individual_dominated:
-- 
2.43.0


From 2764083f20147435ef9ddf3c21401aa2fa93861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 03/27] fix: select all algorithms when --algo is not given

---
 simulation/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/factory.py b/simulation/factory.py
index 366dc6f..c2a896c 100644
--- a/simulation/factory.py
+++ b/simulation/factory.py
@@ -96,6 +96,8 @@ def parse_algorithms(args):
             algo for algo in run_config.algorithms if algo.lower() in algorithms_filter
         ]
         logger.debug("Selected: %s", algorithms)
+    else:
+        algorithms = run_config.algorithms
     return algorithms
 
 
-- 
2.43.0


From a8786b785ea467819e985a6ed62ba8e1786555dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 04/27] fix: count every objective evaluation once in SMSEMOA,
 SPEA2 and OMOPSO

---
 algorithms/OMOPSO/OMOPSO.py   | 3 +--
 algorithms/SMSEMOA/SMSEMOA.py | 3 +--
 algorithms/SPEA2/SPEA2.py     | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 5c2c643..b9d0e27 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -117,10 +117,9 @@ class OMOPSO(Driver):
         for p in self.individuals:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.individuals)
+                objectives_cost += 1
         return objectives_cost
 
     def move(self):
diff --git a/algorithms/SMSEMOA/SMSEMOA.py b/algorithms/SMSEMOA/SMSEMOA.py
index 4e09ec3..b91a479 100644
--- a/algorithms/SMSEMOA/SMSEMOA.py
+++ b/algorithms/SMSEMOA/SMSEMOA.py
@@ -66,10 +66,9 @@ class SMSEMOA(Driver):
         for p in pop:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def generate(self, pop):
diff --git a/algorithms/SPEA2/SPEA2.py b/algorithms/SPEA2/SPEA2.py
index 5cb88c3..f90c7e5 100644
--- a/algorithms/SPEA2/SPEA2.py
+++ b/algorithms/SPEA2/SPEA2.py
@@ -117,10 +117,9 @@ class SPEA2(Driver):
                 p["value"] in self.fitness_archive
             ):
                 p["objectives"] = self.fitness_archive[p["value"]]
-                objectives_cost = 0
             else:
                 p["objectives"] = [o(p["value"]) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def calculate_dominated(self, pop):
-- 
2.43.0


From dfc1afd1e952d6c519c51586a90bc2f34314de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 05/27] fix: IBEA charges individuals whose objectives are
 already known

---
 algorithms/IBEA/IBEA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algorithms/IBEA/IBEA.py b/algorithms/IBEA/IBEA.py
index ff27292..8b1f748 100644
--- a/algorithms/IBEA/IBEA.py
+++ b/algorithms/IBEA/IBEA.py
@@ -45,10 +45,10 @@ class IBEA(Driver):
         self.trim_function = trim_function
         self.population = [self.trim_function(x) for x in population]
 
-        self._scale_objectives()
-
         self.fitness_archive = fitness_archive
 
+        self._scale_objectives()
+
     def finalized_population(self):
         return self.finish()
 
@@ -76,7 +76,7 @@ class IBEA(Driver):
     def _scale_objectives(self):
         min_max = lambda x: (min(x), max(x))
         for ind in self.individuals:
-            if not ind.known_objectives or not (
+            if not ind.known_objectives and not (
                 (self.fitness_archive is not None) and (ind.v in self.fitness_archive)
             ):
                 self.cost += 1
-- 
2.43.0


From 3181d17447c4329b5a9137d86fc1d45c45d8ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 06/27] fix: number the runs of the dominance indicator pool
 like the loaded results

---
 simulation/metrics_processor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index ea342a0..1f9f3b4 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -191,7 +191,14 @@ def preload_results_for_problem(cache, problem_path: Path):
     logger.debug("Loading for problem : {}".format(problem_name))
     for algo_path in problem_path.iterdir():
         if algo_path.is_dir():
-            runs = [run for run in algo_path.iterdir() if run.is_dir()]
+            runs = sorted(
+                run
+                for run in algo_path.iterdir()
+                if run.is_dir()
+                and re.fullmatch(
+                    r"\d{4}-\d{2}-\d{2}\.\d{6}\.\d{6}__\d{7}", run.name
+                )
+            )
             for run_no in range(len(runs)):
                 for result_file in runs[run_no].iterdir():
                     try:
-- 
2.43.0


From 1d78818014a22b188b877d5d29d372bf1b27b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 07/27] fix: pareto dominance indicator counts a repeated point
 once

---
 metrics/metrics_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics/metrics_utils.py b/metrics/metrics_utils.py
index ab62d15..0efe1e8 100644
--- a/metrics/metrics_utils.py
+++ b/metrics/metrics_utils.py
@@ -92,9 +92,9 @@ def distance(from_set, to_set):
 
 
 def pareto_dominance_indicator(solution, not_dominated_solution, all_solutions):
-    non_dominated_intersection = [
-        s for s in not_dominated_solution if tuple(s) in all_solutions
-    ]
+    non_dominated_intersection = {
+        tuple(s) for s in not_dominated_solution if tuple(s) in all_solutions
+    }
     return len(non_dominated_intersection) / len(all_solutions)
 
 
-- 
2.43.0


From 6a926422c16eba27483c284874b95bb97e5b5e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 08/27] fix: HGS revival halves the progress thresholds of the
 shared configuration

---
 algorithms/HGS/classic/ClassicHGS.py         | 2 +-
 algorithms/HGS/distributed/DistributedHGS.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index 7541a7d..3a047e4 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -62,7 +62,7 @@ class ClassicHGS(ComplexDriver):
         self.max_level = max_level
         self.max_sprouts_no = max_sprouts_no
         self.sproutiveness = sproutiveness
-        self.min_progress_ratio = min_progress_ratio
+        self.min_progress_ratio = list(min_progress_ratio)
 
         self.mutation_etas = mutation_etas
         self.mutation_rates = mutation_rates
diff --git a/algorithms/HGS/distributed/DistributedHGS.py b/algorithms/HGS/distributed/DistributedHGS.py
index 425a2de..bea3984 100644
--- a/algorithms/HGS/distributed/DistributedHGS.py
+++ b/algorithms/HGS/distributed/DistributedHGS.py
@@ -64,7 +64,7 @@ class DistributedHGS(ComplexDriver):
         self.hgs_config.max_level = max_level
         self.hgs_config.max_sprouts_no = max_sprouts_no
         self.hgs_config.sproutiveness = sproutiveness
-        self.hgs_config.min_progress_ratio = min_progress_ratio
+        self.hgs_config.min_progress_ratio = list(min_progress_ratio)
 
         self.hgs_config.mutation_etas = mutation_etas
         self.hgs_config.mutation_rates = mutation_rates
-- 
2.43.0


From 62ccfe5e961707b4178500bfbd3e931d389a3581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 09/27] fix: UF8, UF9 and UF10 use the complements of the
 published index sets

---
 problems/UF10/problem.py | 6 +++---
 problems/UF8/problem.py  | 6 +++---
 problems/UF9/problem.py  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/problems/UF10/problem.py b/problems/UF10/problem.py
index 3c3e39a..301d125 100644
--- a/problems/UF10/problem.py
+++ b/problems/UF10/problem.py
@@ -17,9 +17,9 @@ pareto_front = [
 
 pareto_set = []
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
+J2 = [j for j in range(3, n + 1) if (j - 2) % 3 == 0]
+J3 = [j for j in range(3, n + 1) if j % 3 == 0]
 
 
 def yj(x, j):
diff --git a/problems/UF8/problem.py b/problems/UF8/problem.py
index 830f97b..29bf761 100644
--- a/problems/UF8/problem.py
+++ b/problems/UF8/problem.py
@@ -15,9 +15,9 @@ pareto_front = [
 ]
 pareto_set = []
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
+J2 = [j for j in range(3, n + 1) if (j - 2) % 3 == 0]
+J3 = [j for j in range(3, n + 1) if j % 3 == 0]
 
 
 def base_fit(x, J):
diff --git a/problems/UF9/problem.py b/problems/UF9/problem.py
index 044dbf0..c07b2c5 100644
--- a/problems/UF9/problem.py
+++ b/problems/UF9/problem.py
@@ -15,9 +15,9 @@ pareto_front = [
     if x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z)
 ]
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
+J2 = [j for j in range(3, n + 1) if (j - 2) % 3 == 0]
+J3 = [j for j in range(3, n + 1) if j % 3 == 0]
 
 
 def base_fit(x, J):
-- 
2.43.0


From 6af9c3e8cb529474385336b9212f6e6caeed013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 10/27] fix: reference fronts of UF8 and UF10 lie on the unit
 sphere

---
 problems/UF10/problem.py | 2 +-
 problems/UF8/problem.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/problems/UF10/problem.py b/problems/UF10/problem.py
index 301d125..ae8e97b 100644
--- a/problems/UF10/problem.py
+++ b/problems/UF10/problem.py
@@ -10,7 +10,7 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 y_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 3)]
+    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 2)]
     for x, y in itertools.product(x_points, y_points)
     if x ** 2 + y ** 2 <= 1
 ]
diff --git a/problems/UF8/problem.py b/problems/UF8/problem.py
index 29bf761..9b90480 100644
--- a/problems/UF8/problem.py
+++ b/problems/UF8/problem.py
@@ -9,7 +9,7 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 y_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 3)]
+    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 2)]
     for x, y in itertools.product(x_points, y_points)
     if x ** 2 + y ** 2 <= 1
 ]
-- 
2.43.0


From 095e047e98e3d8fb6f00ca29f83e78afd5f8ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 11/27] fix: reference front of UF9 contains unattainable
 points

---
 problems/UF9/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/problems/UF9/problem.py b/problems/UF9/problem.py
index c07b2c5..f8f0bdf 100644
--- a/problems/UF9/problem.py
+++ b/problems/UF9/problem.py
@@ -12,7 +12,7 @@ z_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 pareto_front = [
     [x, 1 - x - z, z]
     for x, z in itertools.product(x_points, z_points)
-    if x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z)
+    if x <= 0.25 * (1 - z) or 0.75 * (1 - z) <= x <= 1 - z
 ]
 
 J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
-- 
2.43.0


From 40975b0a8f30a21e51f45173f4f6747614891643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 12/27] fix: reference front of UF6 overshoots its segments

---
 problems/UF6/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/problems/UF6/problem.py b/problems/UF6/problem.py
index aa28d5d..4318db2 100644
--- a/problems/UF6/problem.py
+++ b/problems/UF6/problem.py
@@ -10,7 +10,7 @@ p_step = (1 - 1 / (2 * n)) / 150
 emoa_points = [
     x
     for i in range(1, n + 1)
-    for x in numpy.arange((2 * i - 1) / (2 * n), (2 * i) / (2 * n) + p_step, p_step)
+    for x in numpy.arange((2 * i - 1) / (2 * n), (2 * i) / (2 * n), p_step)
 ]
 pareto_front = [[0, 1]] + [[x, 1 - x] for x in emoa_points]
 pareto_set = []
-- 
2.43.0


From 85c5df00f8bc7220446aa136d8a405db75487eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 13/27] fix: NSLS.next_generation looped forever when no local
 move was accepted

---
 algorithms/NSLS/NSLS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algorithms/NSLS/NSLS.py b/algorithms/NSLS/NSLS.py
index 3384929..79f8cc9 100644
--- a/algorithms/NSLS/NSLS.py
+++ b/algorithms/NSLS/NSLS.py
@@ -164,7 +164,8 @@ class NSLS(Driver):
 
         front_no = 1
         while (
-            len(next_gen_individuals) + len(self.front[front_no])
+            self.front[front_no]
+            and len(next_gen_individuals) + len(self.front[front_no])
             <= self.population_size
         ):
             next_gen_individuals.extend(self.front[front_no])
-- 
2.43.0


From 2c54f1ba7a1b41024bf931497b372691a09926c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 14/27] fix: NSGAIII.create_final_population looped forever
 when the fronts fill the population exactly

---
 algorithms/NSGAIII/NSGAIII.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/NSGAIII/NSGAIII.py b/algorithms/NSGAIII/NSGAIII.py
index a6a3153..e7b9c4b 100644
--- a/algorithms/NSGAIII/NSGAIII.py
+++ b/algorithms/NSGAIII/NSGAIII.py
@@ -283,7 +283,7 @@ class NSGAIII(Driver):
         new_inds = []
         new_size = len(new_inds)
         i = 1
-        while new_size + len(fronts[i]) <= self.population_size:
+        while fronts[i] and new_size + len(fronts[i]) <= self.population_size:
             new_inds.extend(fronts[i])
             new_size = len(new_inds)
             i += 1
-- 
2.43.0


From 860b3082e7966e34be1e27368317240b018fc9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 15/27] fix: JGBL jumping genes could leave the domain by
 rounding

---
 algorithms/JGBL/JGBL.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/algorithms/JGBL/JGBL.py b/algorithms/JGBL/JGBL.py
index 415c8c2..129e42a 100644
--- a/algorithms/JGBL/JGBL.py
+++ b/algorithms/JGBL/JGBL.py
@@ -134,7 +134,13 @@ class JGBL(NSGAII):
 
     def decode_ratio(self, ratio):
         return [
-            self.dims[i][0] + ratio[i] * (self.dims[i][1] - self.dims[i][0])
+            min(
+                self.dims[i][1],
+                max(
+                    self.dims[i][0],
+                    self.dims[i][0] + ratio[i] * (self.dims[i][1] - self.dims[i][0]),
+                ),
+            )
             for i in range(len(ratio))
         ]
 
-- 
2.43.0


From 431cbf20c24745c2764e9a8a2514b09bc573b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 16/27] fix: a zero mutation or crossover probability could
 change a parent (draw 0.0)

---
 algorithms/NSGAIII/NSGAIII.py  | 4 ++--
 algorithms/base/drivertools.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/algorithms/NSGAIII/NSGAIII.py b/algorithms/NSGAIII/NSGAIII.py
index e7b9c4b..64b2827 100644
--- a/algorithms/NSGAIII/NSGAIII.py
+++ b/algorithms/NSGAIII/NSGAIII.py
@@ -390,7 +390,7 @@ def simulated_binary_crossover(parent_a, parent_b, dims, crossover_rate=1.0, eta
     child_a = Individual([x for x in parent_a.v])
     child_b = Individual([x for x in parent_b.v])
 
-    if random.random() > crossover_rate:
+    if random.random() >= crossover_rate:
         child_a.objectives = [x for x in parent_a.objectives]
         child_b.objectives = [x for x in parent_b.objectives]
         return child_a, child_b
@@ -444,7 +444,7 @@ def get_beta_q(rand, alpha, eta):
 
 def polynomial_mutation(ind, dims, mutation_rate=0.0, eta=20.0):
     for i, dim in enumerate(dims):
-        if random.random() > mutation_rate:
+        if random.random() >= mutation_rate:
             continue
 
         y = ind.v[i]
diff --git a/algorithms/base/drivertools.py b/algorithms/base/drivertools.py
index 1e99c7c..b1b7937 100644
--- a/algorithms/base/drivertools.py
+++ b/algorithms/base/drivertools.py
@@ -10,7 +10,7 @@ EPSILON = numpy.finfo(float).eps
 def mutate(xs, dims, mutation_rate, eta):
     new_xs = [x for x in xs]
     for i, dim in enumerate(dims):
-        if random.random() > mutation_rate:
+        if random.random() >= mutation_rate:
             continue
 
         y = xs[i]
@@ -60,7 +60,7 @@ def crossover(xs, ys, dims, crossover_rate, eta):
     new_xs = [x for x in xs]
     new_ys = [y for y in ys]
 
-    if random.random() > crossover_rate:
+    if random.random() >= crossover_rate:
         return random.choice([new_xs, new_ys])
 
     for i, dim in enumerate(dims):
-- 
2.43.0


From 433fe5d01fb351d2d9f957c3952833a43a4a70a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 17/27] fix: SPEA2 truncation ignored the farther neighbours of
 tied individuals

---
 algorithms/SPEA2/SPEA2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/SPEA2/SPEA2.py b/algorithms/SPEA2/SPEA2.py
index f90c7e5..424a8ef 100644
--- a/algorithms/SPEA2/SPEA2.py
+++ b/algorithms/SPEA2/SPEA2.py
@@ -185,7 +185,7 @@ class SPEA2(Driver):
         return self.get_min(distances, 0)[0]
 
     def get_min(self, distances, level):
-        if level >= len(distances):
+        if level >= len(distances[0][1]):
             return distances[0]
 
         sorted_distances = sorted(distances, key=lambda dist: dist[1][level][1])
-- 
2.43.0


From 91cfa926114c806af0211d771f23a1e8d546f535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 18/27] fix: hypervolume wrong for tied coordinates in four or
 more dimensions

Sort the lists from the last dimension to the first, and compute the
partial areas of a single node in sequence, as in the published
algorithm: with ties, the cached areas were otherwise used for the
wrong sets of points.
---
 algorithms/base/hv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algorithms/base/hv.py b/algorithms/base/hv.py
index 26f2526..f4da6d6 100644
--- a/algorithms/base/hv.py
+++ b/algorithms/base/hv.py
@@ -126,9 +126,8 @@ class HyperVolume:
                 )
             else:
                 qArea[0] = 1
-                qArea[1 : dimIndex + 1] = [
-                    qArea[i] * -qCargo[i] for i in range(dimIndex)
-                ]
+                for i in range(dimIndex):
+                    qArea[i + 1] = qArea[i] * -qCargo[i]
             q.volume[dimIndex] = hvol
             if q.ignore >= dimIndex:
                 qArea[dimIndex] = qPrevDimIndex.area[dimIndex]
@@ -159,7 +158,8 @@ class HyperVolume:
         dimensions = len(self.referencePoint)
         nodeList = MultiList(dimensions)
         nodes = [MultiList.Node(dimensions, point) for point in front]
-        for i in range(dimensions):
+        for i in reversed(range(dimensions)):
+            # last dimension first: equal values keep the order of the next one
             self.sortByDimension(nodes, i)
             nodeList.extend(nodes, i)
         self.list = nodeList
-- 
2.43.0


From cf2cc09a328b1bca3dbeb159acd61859ccd71de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:40 +0000
Subject: [PATCH 19/27] fix: distributed HGS never retired redundant nodes

---
 algorithms/HGS/distributed/actors.py     |  5 +++--
 algorithms/HGS/distributed/hgs_tasks.py  |  7 ++++---
 algorithms/HGS/distributed/node_tasks.py | 11 +++++++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/algorithms/HGS/distributed/actors.py b/algorithms/HGS/distributed/actors.py
index 0e4168a..64091b2 100644
--- a/algorithms/HGS/distributed/actors.py
+++ b/algorithms/HGS/distributed/actors.py
@@ -18,7 +18,7 @@ from algorithms.HGS.distributed.node_tasks import (
     GetPopulationNodeTask,
     NewMetaepochNodeTask,
     TrimNotProgressingNodeTask,
-    ReleaseSproutsNodeTask, ReviveNodeTask)
+    ReleaseSproutsNodeTask, ReviveNodeTask, KillNodeTask)
 from algorithms.HGS.distributed.hgs_tasks import (
     HgsOperationTask,
     MetaepochHgsTask,
@@ -206,7 +206,8 @@ class Node(TaskActor):
             NodeOperation.NEW_METAEPOCH: NewMetaepochNodeTask,
             NodeOperation.TRIM_NOT_PROGRESSING: TrimNotProgressingNodeTask,
             NodeOperation.RELEASE_SPROUTS: ReleaseSproutsNodeTask,
-            NodeOperation.REVIVE: ReviveNodeTask
+            NodeOperation.REVIVE: ReviveNodeTask,
+            NodeOperation.KILL: KillNodeTask
         }
 
     def get_task_owner_name(self):
diff --git a/algorithms/HGS/distributed/hgs_tasks.py b/algorithms/HGS/distributed/hgs_tasks.py
index 292b7b6..af8ebf7 100644
--- a/algorithms/HGS/distributed/hgs_tasks.py
+++ b/algorithms/HGS/distributed/hgs_tasks.py
@@ -248,8 +248,9 @@ class TrimRedundantHgsTask(HgsOperationTask):
             for level, lvl_infos in itertools.groupby(
                 self.trim_infos, key=lambda info: info.level
             ):
-                self.log(f"trim lvl infos: {list(lvl_infos)} for lvl={level}")
-                self.trim_redundant(list(lvl_infos))
+                lvl_infos = list(lvl_infos)
+                self.log(f"trim lvl infos: {lvl_infos} for lvl={level}")
+                self.trim_redundant(lvl_infos)
             self.hgs.send(
                 self.sender,
                 HgsMessage(HgsOperation.TRIM_REDUNDANT_END, self.sender_task_id, True),
@@ -270,7 +271,7 @@ class TrimRedundantHgsTask(HgsOperationTask):
                 ) and tools.redundant(
                     [another_sprout.center],
                     [sprout.center],
-                    self.hgs.min_dists[sprout.level],
+                    self.hgs.config.min_dists[sprout.level],
                 ):
                     self.hgs.send(sprout.node, NodeMessage(NodeOperation.KILL, self.id))
                     sprout.alive = False
diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index c8223de..248c403 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -72,6 +72,17 @@ class ReviveNodeTask(NodeOperationTask):
         self.node.send(sender, NodeMessage(NodeOperation.REVIVE, msg.id))
 
 
+class KillNodeTask(NodeOperationTask):
+    def __init__(self, node):
+        super().__init__(node)
+
+    def configure_steps(self, steps: Dict[OperationType, Callable]):
+        steps[NodeOperation.KILL] = self.kill
+
+    def kill(self, msg: NodeMessage, sender: Actor):
+        self.node.alive = False
+
+
 class GetPopulationNodeTask(NodeOperationTask):
     def __init__(self, node):
         super().__init__(node)
-- 
2.43.0


From d2736fda44560e51562604431bb4164275f09d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:40 +0000
Subject: [PATCH 20/27] fix: distributed HGS metaepoch without living nodes
 failed

---
 algorithms/HGS/distributed/hgs_tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/HGS/distributed/hgs_tasks.py b/algorithms/HGS/distributed/hgs_tasks.py
index af8ebf7..b70ca22 100644
--- a/algorithms/HGS/distributed/hgs_tasks.py
+++ b/algorithms/HGS/distributed/hgs_tasks.py
@@ -77,7 +77,7 @@ class MetaepochHgsTask(HgsOperationTask):
             )
         if self.nodes_finished == self.requests_count:
             self.log("All nodes have ended their metaepochs")
-            self.hgs.cost += max(self.metaepoch_costs)
+            self.hgs.cost += max(self.metaepoch_costs, default=0)
             self.hgs.send(
                 self.sender,
                 HgsMessage(
-- 
2.43.0


From aa22660d028939dcce3f24cedfac90be3e5d17fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:40 +0000
Subject: [PATCH 21/27] fix: distributed HGS revival without ripe nodes never
 answered

---
 algorithms/HGS/distributed/hgs_tasks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algorithms/HGS/distributed/hgs_tasks.py b/algorithms/HGS/distributed/hgs_tasks.py
index b70ca22..0e68eae 100644
--- a/algorithms/HGS/distributed/hgs_tasks.py
+++ b/algorithms/HGS/distributed/hgs_tasks.py
@@ -364,6 +364,8 @@ class ReviveHgsTask(HgsOperationTask):
 
             # TODO: logging root revival
             self.log("!!!   RESURRECTION", lvl=logging.INFO)
+            if not ripe_nodes:
+                self.finish()
         else:
             self.finish()
 
-- 
2.43.0


From a94fd781afaaf8be1a3affd78e219175930d60e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:40 +0000
Subject: [PATCH 22/27] fix: dominance indicator pool kept after results moved
 to another label or run

---
 simulation/metrics_processor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index 1f9f3b4..b73570e 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -236,7 +236,11 @@ def filter_non_dominated_in_cache(problem_path: Path, cache):
         problem_nondominated = {}
         solutions = None
 
-    if solutions and solutions == problem_solutions:
+    if (
+        solutions
+        and solutions == problem_solutions
+        and sorted(problem_nondominated) == problem_keys
+    ):
         pass
         logger.debug(
             "Cache for problem {} does not changed, loading nondominated solutions from file..."
@@ -244,6 +248,7 @@ def filter_non_dominated_in_cache(problem_path: Path, cache):
     else:
         logger.debug("Cache for problem {} changed, calculating new nondominated... ")
         clear_old_pdi_metrics(problem_path)
+        problem_nondominated = {}
         for key in problem_keys:
             logger.debug("Filtering non dominated for: " + str(key))
             solutions = cache[key]
-- 
2.43.0


From aac0135ec87e74e505aee6e6bce8905cdde747e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 23/27] fix: ZDT6 uses a rounded constant in g

---
 problems/ZDT6/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/problems/ZDT6/problem.py b/problems/ZDT6/problem.py
index 1612ac9..64679a5 100644
--- a/problems/ZDT6/problem.py
+++ b/problems/ZDT6/problem.py
@@ -53,7 +53,7 @@ def f1e(x):
 
 
 def ge(xs):
-    return 1 + 5.19615 * sum(xs) ** 0.25
+    return 1 + 9 * (sum(xs) / 9) ** 0.25
 
 
 def he(f1, g):
-- 
2.43.0


From cde0f1c49440ae9a90d7e1f7d093c94eab919981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 24/27] fix: reference front of ZDT3 contains points beyond the
 ends of its segments

---
 problems/ZDT3/problem.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/problems/ZDT3/problem.py b/problems/ZDT3/problem.py
index 44484f7..c530635 100644
--- a/problems/ZDT3/problem.py
+++ b/problems/ZDT3/problem.py
@@ -69,6 +69,15 @@ def trim_dominated(front):
 
 pareto_set = []
 
+# the optimal front lies above these intervals of f1 only (Zitzler, Deb, Thiele)
+front_intervals = [
+    (0.0, 0.0830015349),
+    (0.1822287280, 0.2577623634),
+    (0.4093136748, 0.4538821041),
+    (0.6183967944, 0.6525117038),
+    (0.8233317983, 0.8518328654),
+]
+
 c_pre = [
     [x for x in emoa_points2],
     [1 - math.sqrt(x) - x * math.sin(10 * math.pi * x) for x in emoa_points2],
@@ -83,5 +92,9 @@ fitnesses, dims, name, pareto_front = emoa_fitnesses(
 )
 
 pareto_front = trim_dominated(
-    [[x, y] for x, y in zip(pareto_front[0], pareto_front[1])]
+    [
+        [x, y]
+        for x, y in zip(pareto_front[0], pareto_front[1])
+        if any(low <= x <= high for low, high in front_intervals)
+    ]
 )
-- 
2.43.0


From fe8ed40d0c6202384e10751a493659d489dadc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 25/27] fix: distributed HGS sprouting counts released sprouts
 as live ones

A node stopped at max_sprouts_no live sprouts only as counted before it started
releasing, so with sproutiveness above the remaining capacity it ended up with
more live sprouts than allowed.
---
 algorithms/HGS/distributed/node_tasks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index 248c403..ac4af5c 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -335,5 +335,6 @@ class ReleaseSproutsNodeTask(NodeOperationTask):
         self.log("new sprout registered")
         self.node.sprouts.append(msg.data)
         self.released_sprouts += 1
+        self.alive_sprouts_count += 1
 
         self.try_relase_next_sprout()
-- 
2.43.0


From fc4c14cfacb3a419f3765b878b45c8f91b8ae2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:46 +0000
Subject: [PATCH 26/27] fix: remove old dominance pools by file name, not by
 whole path

---
 simulation/metrics_processor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index b73570e..aa55386 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -267,9 +267,10 @@ def filter_non_dominated_in_cache(problem_path: Path, cache):
 def clear_old_pdi_metrics(problem_path: Path):
     logger = logging.getLogger(__name__)
 
-    for filename in fnmatch.filter(
-        [str(p) for p in problem_path.iterdir()], "*{}_*".format(problem_path.name)
+    for name in fnmatch.filter(
+        [p.name for p in problem_path.iterdir()], "*{}_*".format(problem_path.name)
     ):
+        filename = str(problem_path / name)
         os.remove(filename)
         logger.debug("Removing file: " + filename)
 
-- 
2.43.0


From 54d3ed0af0bacf2068ebffb32ae2e4f4806893fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:18 +0000
Subject: [PATCH 27/27] fix: a simulation that fails no longer stops the
 simulations after it

---
 simulation/run_parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/run_parallel.py b/simulation/run_parallel.py
index c756c82..5a0e43d 100644
--- a/simulation/run_parallel.py
+++ b/simulation/run_parallel.py
@@ -39,7 +39,7 @@ def run_parallel(args):
 
         def process_result(subres):
             results.append(subres)
-            log_simulation_stats(start_time, subres[-1], len(simulation_cases))
+            log_simulation_stats(start_time, len(results), len(simulation_cases))
 
         rx.from_iterable(range(len(simulation_cases))).pipe(
             ops.map(lambda i: worker_factory(simulation_cases[i], i)),
-- 
2.43.0

