From ebbd9a7ab96cee8218343c73a5e7393565c31734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:13 +0000
Subject: [PATCH 1/9] fix: GoalNotChange must not underflow when the algorithm
 is restarted

---
 optlib/src/tools/stopchecker/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 476eb40..f1af259 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -114,7 +114,8 @@ impl<T> StopChecker<T> for GoalNotChange {
             None => false,
             Some((_, best_goal)) => {
                 let delta = (best_goal - self.old_goal).abs();
-                if delta > self.delta {
+                // The iteration number goes back if the algorithm was restarted
+                if delta > self.delta || state.get_iteration() < self.change_iter {
                     self.old_goal = best_goal;
                     self.change_iter = state.get_iteration();
                 }
-- 
2.43.0


From aee1f6c7600b9e1e8433c91ef414b7ae2179572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:13 +0000
Subject: [PATCH 2/9] fix: Statistics must keep a single result for a run which
 was continued

---
 optlib/src/tools/statistics/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index 9867a05..4a9e1c7 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -172,6 +172,10 @@ impl<T: Clone> Statistics<T> {
     }
 
     fn add_result(&mut self, state: &dyn AlgorithmState<T>) {
+        // The run was continued after finish, its previous result must be replaced
+        if self.results.len() == self.convergence.len() {
+            self.results.pop();
+        }
         self.results.push(state.get_best_solution().clone());
     }
 
-- 
2.43.0


From 06ffec01a057916f174f523e92c24973cd7cda8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:13 +0000
Subject: [PATCH 3/9] fix: pairing algorithms must not panic if all individuals
 are dead

---
 optlib/src/genetic/pairing/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index e7d8204..4d7af1d 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -14,6 +14,9 @@ pub struct RandomPairing {
 impl<T> Pairing<T> for RandomPairing {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = vec![];
+        if population.len() == 0 {
+            return pairs;
+        }
 
         let between = Uniform::new(0, population.len());
         let count = population.len() / 2;
@@ -77,6 +80,10 @@ impl Tournament {
 impl<T> Pairing<T> for Tournament {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = Vec::with_capacity(self.families_count);
+        if population.len() == 0 {
+            return pairs;
+        }
+
         let between = Uniform::new(0, population.len());
 
         // Loop for families count
-- 
2.43.0


From 67d81b9074b50a29f33460a5f5335f3a0197f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:13 +0000
Subject: [PATCH 4/9] fix: Tournament must prefer any individual to an
 individual with NaN goal

---
 optlib/src/genetic/pairing/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index 4d7af1d..86edcb5 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -97,7 +97,10 @@ impl<T> Pairing<T> for Tournament {
                 // Loop for tournaments rounds
                 for _ in 0..self.rounds_count {
                     let challenger = between.sample(&mut self.random);
-                    if population[challenger].get_goal() < population[best_ind_index].get_goal() {
+                    // NaN is worse than any other value of the goal function
+                    let best_goal = population[best_ind_index].get_goal();
+                    let challenger_goal = population[challenger].get_goal();
+                    if challenger_goal < best_goal || (best_goal.is_nan() && !challenger_goal.is_nan()) {
                         best_ind_index = challenger;
                     }
                 }
-- 
2.43.0


From 19b0490ddc0c4d2806d8b326ffa84f8e0c2c9859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:14 +0000
Subject: [PATCH 5/9] fix: solution success predicate must reject NaN
 coordinates

---
 optlib/src/tools/statistics/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index 4a9e1c7..03ab5f5 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -94,7 +94,8 @@ pub fn get_predicate_success_vec_solution<T: Float>(
 
     move |(answer, _): &(Vec<T>, GoalValue)| {
         for (x, (e, d)) in answer.iter().zip(expected.iter().zip(delta.iter())) {
-            if (*x - *e).abs() > *d {
+            // NaN is not a success
+            if !((*x - *e).abs() <= *d) {
                 return false;
             }
         }
-- 
2.43.0


From 2eb225dae88dcd154401f686f6063cb4a8670191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 6/9] fix: kill_worst must kill exactly the worst alive
 individuals

---
 optlib/src/genetic/selection/mod.rs | 46 +++++++----------------------
 1 file changed, 11 insertions(+), 35 deletions(-)

diff --git a/optlib/src/genetic/selection/mod.rs b/optlib/src/genetic/selection/mod.rs
index 4c05858..4576659 100644
--- a/optlib/src/genetic/selection/mod.rs
+++ b/optlib/src/genetic/selection/mod.rs
@@ -55,42 +55,18 @@ impl<T: Clone> Selection<T> for LimitPopulation {
 /// Function to kill worst individuals in population.
 /// `count` - how many individuals must be killed.
 pub fn kill_worst<T: Clone>(population: &mut Population<T>, count: usize) {
-    // List of indexes of individuals in population to be kill
-    let mut kill_list: Vec<usize> = Vec::with_capacity(count);
-    kill_list.push(0);
+    // Indexes of alive individuals, NaN fitness is worse than any other one
+    let mut alive: Vec<usize> = (0..population.len())
+        .filter(|n| population[*n].is_alive())
+        .collect();
+    alive.sort_by(|a, b| {
+        let (fitness_a, fitness_b) = (population[*a].get_fitness(), population[*b].get_fitness());
+        fitness_b
+            .partial_cmp(&fitness_a)
+            .unwrap_or_else(|| fitness_b.is_nan().cmp(&fitness_a.is_nan()))
+    });
 
-    // Index of the items in kill_list with best fitness
-    let mut best_index = 0;
-    let mut best_fitness = population[kill_list[best_index]].get_fitness();
-
-    for n in 1..population.len() {
-        if !population[n].is_alive() {
-            continue;
-        }
-
-        if kill_list.len() < count {
-            kill_list.push(n);
-            if population[n].get_fitness() < best_fitness {
-                best_index = kill_list.len() - 1;
-            }
-        } else {
-            if population[n].get_fitness() > best_fitness {
-                kill_list[best_index] = n;
-
-                // Find new best item
-                best_index = 0;
-                best_fitness = population[kill_list[best_index]].get_fitness();
-                for m in 1..kill_list.len() {
-                    if population[kill_list[m]].get_fitness() < best_fitness {
-                        best_index = m;
-                        best_fitness = population[kill_list[best_index]].get_fitness();
-                    }
-                }
-            }
-        }
-    }
-
-    for n in kill_list {
+    for n in alive.into_iter().take(count) {
         population[n].kill();
     }
 }
-- 
2.43.0


From 18ba237aafec03cb7cd1269eeb7bae223cfa65ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 7/9] fix: rosenbrock must not panic for an empty vector

---
 optlib-testfunc/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optlib-testfunc/src/lib.rs b/optlib-testfunc/src/lib.rs
index b4b96ad..1f6990f 100644
--- a/optlib-testfunc/src/lib.rs
+++ b/optlib-testfunc/src/lib.rs
@@ -83,7 +83,7 @@ pub fn rastrigin<G: Float>(x: &Vec<G>) -> f64 {
 /// ```
 pub fn rosenbrock<G: Float>(x: &Vec<G>) -> f64 {
     let mut sum = G::from(0.0).unwrap();
-    for n in 0..x.len() - 1 {
+    for n in 0..x.len().saturating_sub(1) {
         sum = sum + G::from(100.0).unwrap() * ((x[n + 1] - x[n] * x[n]).powi(2)) + (G::from(1.0).unwrap() - x[n]).powi(2);
     }
 
-- 
2.43.0


From a5d56c92f513fcd010cac2b8a7c9ddcd1569aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:25 +0000
Subject: [PATCH 8/9] fix: a restarted GoalNotChange forgets the recorded goal
 instead of recording NaN

---
 optlib/src/tools/stopchecker/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index f1af259..6f98598 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -113,9 +113,14 @@ impl<T> StopChecker<T> for GoalNotChange {
         match state.get_best_solution() {
             None => false,
             Some((_, best_goal)) => {
-                let delta = (best_goal - self.old_goal).abs();
                 // The iteration number goes back if the algorithm was restarted
-                if delta > self.delta || state.get_iteration() < self.change_iter {
+                if state.get_iteration() < self.change_iter {
+                    self.old_goal = f64::MAX;
+                    self.change_iter = 0;
+                }
+
+                let delta = (best_goal - self.old_goal).abs();
+                if delta > self.delta {
                     self.old_goal = best_goal;
                     self.change_iter = state.get_iteration();
                 }
-- 
2.43.0


From 192ba2757918243e4d2c8f947ef199a604020f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:30 +0000
Subject: [PATCH 9/9] fix: statistics panicked when iterations were continued
 before any run was started

---
 optlib/src/tools/statistics/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index 03ab5f5..c923b27 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -400,7 +400,12 @@ impl<'a, T: Clone> Logger<T> for StatisticsLogger<'a, T> {
     }
 
     /// Will be called before run algorithm (possibly after result algorithm after pause).
-    fn resume(&mut self, _state: &dyn AlgorithmState<T>) {}
+    fn resume(&mut self, _state: &dyn AlgorithmState<T>) {
+        // The iterations may be continued although no run has been started yet
+        if self.statistics.convergence.is_empty() {
+            self.statistics.convergence.push(vec![]);
+        }
+    }
 
     /// Will be called in the end of iteration.
     fn next_iteration(&mut self, state: &dyn AlgorithmState<T>) {
-- 
2.43.0

