From 41512858e1ea076370851d842333b7f028b50828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:37 +0000
Subject: [PATCH 01/32] fix: keep reference points paired with their objectives
 through the Stage 2 shuffle

The shuffle permuted the points but not the cached objectives, so trials were
judged by the objective of a different point, and the checkpoint stored the
unshuffled order.
---
 src/oqnlp.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index fedebe2..4840cb5 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -699,7 +699,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         }
 
         // If we resumed from checkpoint, skip Stage 1 and jump to Stage 2
-        let (mut ref_set, mut unchanged_cycles, ref_objectives) = if resumed_from_checkpoint {
+        let (mut ref_set, mut unchanged_cycles, mut ref_objectives) = if resumed_from_checkpoint {
             #[cfg(feature = "checkpointing")]
             {
                 if self.verbose {
@@ -836,12 +836,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     .ok_or(OQNLPError::NoFeasibleSolution { candidates_evaluated: 0 });
             }
 
-            // Store reference set for checkpointing
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_reference_set = Some(ref_set.clone());
-            }
-
             // Observer: End Stage 1
             if let Some(ref mut observer) = self.observer {
                 if observer.should_observe_stage1() {
@@ -921,7 +915,22 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
         // Shuffle reference set if starting fresh
         if !resumed_from_checkpoint {
-            ref_set.shuffle(&mut rng);
+            // Shuffle points and objectives together so that they stay paired
+            if let Some(objectives) = ref_objectives.take() {
+                let mut paired: Vec<(Array1<f64>, f64)> =
+                    ref_set.into_iter().zip(objectives).collect();
+                paired.shuffle(&mut rng);
+
+                let (points, objectives): (Vec<Array1<f64>>, Vec<f64>) = paired.into_iter().unzip();
+                ref_set = points;
+                ref_objectives = Some(objectives);
+            }
+
+            // Store reference set for checkpointing, in the order in which it is processed
+            #[cfg(feature = "checkpointing")]
+            {
+                self.current_reference_set = Some(ref_set.clone());
+            }
         }
 
         let start_timer: Option<std::time::Instant> =
-- 
2.43.0


From 030cc3701be5d272d32432c8d68001ef6ce1d904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 02/32] fix: checkpoints record completed iterations, so
 resuming repeats and skips none

The checkpointed iteration was the one just processed, so it was run again on
resume with a stale unchanged-cycle count, and batched runs saved checkpoints in
the middle of a batch that had been judged as a whole.
---
 src/oqnlp.rs | 94 ++++++++++++++++------------------------------------
 1 file changed, 29 insertions(+), 65 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 4840cb5..0e53d45 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -904,10 +904,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             // Use the saved seed when resuming from checkpoint
             StdRng::seed_from_u64(self.current_seed)
         } else {
-            // Start fresh with base seed + current iteration
-            let seed = self.params.seed + self.current_iteration as u64;
-            self.current_seed = seed;
-            StdRng::seed_from_u64(seed)
+            // Start fresh with the base seed
+            self.current_seed = self.params.seed;
+            StdRng::seed_from_u64(self.params.seed)
         };
 
         #[cfg(not(feature = "checkpointing"))]
@@ -939,6 +938,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Start from current iteration if resumed, otherwise from 0
         #[cfg(feature = "checkpointing")]
         let start_iter = if resumed_from_checkpoint { self.current_iteration } else { 0 };
+        #[cfg(feature = "checkpointing")]
+        {
+            self.current_iteration = start_iter;
+            self.unchanged_cycles = unchanged_cycles;
+        }
         #[cfg(not(feature = "checkpointing"))]
         let start_iter = 0;
 
@@ -950,13 +954,14 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             self.batch_iterations.unwrap_or_else(|| {
                 // Use a more intelligent default: balance between overhead and parallelism
                 let thread_count = rayon::current_num_threads();
-                let remaining_iterations = self.params.iterations.saturating_sub(start_iter);
+                // Based on all iterations, so that a resumed run keeps the same batches
+                let iterations = self.params.iterations;
 
-                if remaining_iterations < 4 || thread_count == 1 {
+                if iterations < 4 || thread_count == 1 {
                     1 // Use sequential for small workloads or single-threaded
                 } else {
                     // Use a batch size that gives each thread meaningful work
-                    (remaining_iterations / (thread_count * 2)).clamp(2, 8)
+                    (iterations / (thread_count * 2)).clamp(2, 8)
                 }
             })
         };
@@ -1010,6 +1015,19 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 )?;
             }
 
+            // The whole batch has been processed: record its end as the point to resume from and
+            // save a checkpoint if enabled and conditions are met
+            #[cfg(feature = "checkpointing")]
+            {
+                let batch_start = self.current_iteration;
+                if let Some(&(last_iter, _)) = batch.last() {
+                    self.current_iteration = last_iter + 1;
+                }
+                self.unchanged_cycles = unchanged_cycles;
+                self.current_seed = self.params.seed + self.current_iteration as u64;
+                self.maybe_save_checkpoint(batch_start)?;
+            }
+
             // Check if target objective has been reached after processing the batch
             if self.target_objective_reached() {
                 if self.verbose {
@@ -1596,9 +1614,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
     /// Save a checkpoint if checkpointing is enabled and conditions are met
     #[cfg(feature = "checkpointing")]
-    fn maybe_save_checkpoint(&self) -> Result<(), OQNLPError> {
+    fn maybe_save_checkpoint(&self, batch_start: usize) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
-            if self.current_iteration % manager.config().save_frequency == 0 {
+            let save_frequency = manager.config().save_frequency;
+            // A multiple of the save frequency was completed since the start of the batch
+            if self.current_iteration / save_frequency > batch_start / save_frequency {
                 let checkpoint = self.create_checkpoint();
                 let saved_path = manager.save_checkpoint(&checkpoint, self.current_iteration)?;
 
@@ -1649,18 +1669,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 continue;
             }
 
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-            }
-
-            // Update the current seed for checkpointing
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_seed = self.params.seed + self.current_iteration as u64;
-            }
-
             let trial = trial.clone();
 
             // Observer: Update iteration
@@ -1773,10 +1781,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     observer.invoke_callback();
                 }
             }
-
-            // Save checkpoint if enabled and conditions are met
-            #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
         }
         Ok(())
     }
@@ -1846,13 +1850,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
         // Process quick candidates (no local search needed) sequentially for efficiency
         for (local_iter, _trial, _obj) in quick_candidates {
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-                self.current_seed = self.params.seed + self.current_iteration as u64;
-            }
-
             *unchanged_cycles += 1;
             if *unchanged_cycles >= self.params.wait_cycle {
                 if self.verbose {
@@ -1884,9 +1881,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     observer.invoke_callback();
                 }
             }
-
-            #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
         }
 
         // Process local search candidates in parallel when there are enough to justify overhead
@@ -1926,13 +1920,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
                 // Process local results sequentially to maintain state consistency
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let added = self.process_local_solution(local_solution.clone())?;
 
@@ -1988,20 +1975,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             } else {
                 // Single local search - process directly without parallel overhead
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
 
                     // Only track evaluations if observer is active
@@ -2069,9 +2046,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
 
@@ -2079,13 +2053,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             {
                 // Sequential processing when Rayon is not available
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let local_trial = self
                         .local_solver
@@ -2111,9 +2078,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
         }
-- 
2.43.0


From a730d7aa8b16989ad17b2e32debf2393ea8583e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 03/32] fix: resuming a run that reached its target does not
 continue the search

---
 src/oqnlp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 0e53d45..9530687 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -974,6 +974,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             ref_set.iter().take(self.params.iterations).enumerate().skip(start_iter).collect();
 
         for batch in trials_to_process.chunks(effective_batch_size) {
+            // A resumed run may already have reached its target
+            if self.target_objective_reached() {
+                break;
+            }
+
             // Check timeout before processing each batch
             if let (Some(max_secs), Some(start)) = (self.max_time, start_timer) {
                 if start.elapsed().as_secs_f64() > max_secs {
-- 
2.43.0


From d8c1b35c67a367712a0d0e5082cb26e7e7b2445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:09 +0000
Subject: [PATCH 04/32] fix: keep every local solution of a batch that reaches
 the target objective

Solutions already computed in the same batch were dropped once one of them
reached the target, even when a later one was better.
---
 src/oqnlp.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 9530687..035d32e 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1923,7 +1923,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
                 let local_results = local_results?;
 
-                // Process local results sequentially to maintain state consistency
+                // Process local results sequentially to maintain state consistency. All of
+                // them are kept, even if one of them reaches the target objective
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
                     self.merit_filter.update_threshold(obj);
                     let added = self.process_local_solution(local_solution.clone())?;
@@ -1969,17 +1970,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                             observer.invoke_callback();
                         }
                     }
-
-                    if self.target_objective_reached() {
-                        if self.verbose {
-                            println!(
-                                "Stage 2, iteration {}: Target objective {:.8} reached. Stopping optimization.",
-                                local_iter,
-                                self.target_objective.unwrap()
-                            );
-                        }
-                        return Ok(());
-                    }
                 }
             } else {
                 // Single local search - process directly without parallel overhead
-- 
2.43.0


From efe7df687637fb3d968acea1ef4e7d713a5c93bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:42 +0000
Subject: [PATCH 05/32] fix: Stage 2 callbacks follow the configured frequency
 on every path

A batch with a single local search called back regardless of the frequency, and
a sequential iteration that reached the target never called back.
---
 src/oqnlp.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 035d32e..e1fd7c4 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1750,18 +1750,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     );
                     println!("x0 = {}", local_trial.point);
                 }
-
-                // Check if target objective has been reached
-                if self.target_objective_reached() {
-                    if self.verbose {
-                        println!(
-                            "Stage 2, iteration {}: Target objective {:.8} reached. Stopping optimization.",
-                            local_iter,
-                            self.target_objective.unwrap()
-                        );
-                    }
-                    return Ok(());
-                }
             } else {
                 *unchanged_cycles += 1;
 
@@ -1786,6 +1774,18 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     observer.invoke_callback();
                 }
             }
+
+            // Check if target objective has been reached
+            if self.target_objective_reached() {
+                if self.verbose {
+                    println!(
+                        "Stage 2, iteration {}: Target objective {:.8} reached. Stopping optimization.",
+                        local_iter,
+                        self.target_objective.unwrap()
+                    );
+                }
+                return Ok(());
+            }
         }
         Ok(())
     }
@@ -2018,9 +2018,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                     }
 
-                    // Invoke observer callback for stage 2 progress
+                    // Invoke observer callback if set and frequency matches
                     if let Some(ref mut observer) = self.observer {
-                        observer.invoke_callback();
+                        if observer.should_invoke_callback(local_iter) {
+                            observer.invoke_callback();
+                        }
                     }
 
                     if self.verbose && added {
-- 
2.43.0


From 5a67ef92a4e4ef3a91f33493ce1ca6a2864c6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:46 +0000
Subject: [PATCH 06/32] fix: zero frequencies, a zero batch size and extreme
 seeds no longer panic

---
 src/observers/mod.rs | 2 +-
 src/oqnlp.rs         | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/observers/mod.rs b/src/observers/mod.rs
index f56b83f..bd8c139 100644
--- a/src/observers/mod.rs
+++ b/src/observers/mod.rs
@@ -1096,7 +1096,7 @@ impl Observer {
     /// True if a callback is configured and the iteration is a multiple of
     /// the callback frequency.
     pub(crate) fn should_invoke_callback(&self, iteration: usize) -> bool {
-        self.callback.is_some() && (iteration % self.callback_frequency == 0)
+        self.callback.is_some() && (iteration % self.callback_frequency.max(1) == 0)
     }
 }
 
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index e1fd7c4..ecd0efa 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -973,7 +973,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let trials_to_process: Vec<_> =
             ref_set.iter().take(self.params.iterations).enumerate().skip(start_iter).collect();
 
-        for batch in trials_to_process.chunks(effective_batch_size) {
+        for batch in trials_to_process.chunks(effective_batch_size.max(1)) {
             // A resumed run may already have reached its target
             if self.target_objective_reached() {
                 break;
@@ -1029,7 +1029,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     self.current_iteration = last_iter + 1;
                 }
                 self.unchanged_cycles = unchanged_cycles;
-                self.current_seed = self.params.seed + self.current_iteration as u64;
+                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
                 self.maybe_save_checkpoint(batch_start)?;
             }
 
@@ -1490,7 +1490,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Create a temporary ScatterSearch instance to reuse its methods
         let temp_params = OQNLPParams {
             population_size: new_size,
-            seed: self.current_seed + ref_set.len() as u64,
+            seed: self.current_seed.wrapping_add(ref_set.len() as u64),
             ..self.params.clone()
         };
 
@@ -1621,7 +1621,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     #[cfg(feature = "checkpointing")]
     fn maybe_save_checkpoint(&self, batch_start: usize) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
-            let save_frequency = manager.config().save_frequency;
+            let save_frequency = manager.config().save_frequency.max(1);
             // A multiple of the save frequency was completed since the start of the batch
             if self.current_iteration / save_frequency > batch_start / save_frequency {
                 let checkpoint = self.create_checkpoint();
-- 
2.43.0


From 12a3e198bb6d832a6782ea8f44579d4d6ee98f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 07/32] fix: stage durations stop growing once the stage has
 ended

---
 src/observers/stage1.rs | 2 +-
 src/observers/stage2.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/observers/stage1.rs b/src/observers/stage1.rs
index 8799967..69099a8 100644
--- a/src/observers/stage1.rs
+++ b/src/observers/stage1.rs
@@ -125,7 +125,7 @@ impl Stage1State {
 
     /// End Stage 1 and calculate total time
     pub fn end(&mut self) {
-        if let Some(start) = self.stage_start {
+        if let Some(start) = self.stage_start.take() {
             self.total_time = Some(start.elapsed().as_secs_f64());
         }
     }
diff --git a/src/observers/stage2.rs b/src/observers/stage2.rs
index 9e6cfc0..39e8e98 100644
--- a/src/observers/stage2.rs
+++ b/src/observers/stage2.rs
@@ -126,7 +126,7 @@ impl Stage2State {
 
     /// End Stage 2 and calculate total time
     pub fn end(&mut self) {
-        if let Some(start) = self.stage_start {
+        if let Some(start) = self.stage_start.take() {
             self.total_time = Some(start.elapsed().as_secs_f64());
         }
     }
-- 
2.43.0


From 792d4bbb6e42c1066e7904dc2d9dcdf10b133143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:41 +0000
Subject: [PATCH 08/32] fix: Stage 1 function evaluations include the evaluated
 trial points

---
 src/scatter_search.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index e3787af..cb2d07a 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -49,6 +49,7 @@ use ndarray::Array1;
 use rand::rngs::StdRng;
 use rand::{Rng, SeedableRng};
 use std::sync::Mutex;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use thiserror::Error;
 
 #[cfg(feature = "rayon")]
@@ -151,6 +152,8 @@ pub struct ScatterSearch<'a, P: Problem> {
     observer: Option<&'a mut Observer>,
     /// Custom points to seed the reference set
     custom_points: Option<Vec<Array1<f64>>>,
+    /// Number of trial points whose objective was evaluated
+    trial_evaluations: usize,
 }
 
 impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
@@ -187,6 +190,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             enable_parallel: true,
             observer: None,
             custom_points: None,
+            trial_evaluations: 0,
         };
 
         Ok(ss)
@@ -297,6 +301,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 if let Some(stage1) = obs.stage1_mut() {
                     stage1.enter_substage("intensification_complete");
                     stage1.add_trial_points(trial_points.len());
+                    stage1.add_function_evaluations(self.trial_evaluations);
                     stage1.set_reference_set_size(self.reference_set.len());
                 }
             }
@@ -775,6 +780,9 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // Get constraint functions for feasibility checking (cached for closure)
         let constraints = self.problem.constraints();
 
+        // Number of objective evaluations, for the observer
+        let evaluations = AtomicUsize::new(0);
+
         // Evaluate trial points with three-level filtering:
         // 1. Constraint feasibility check (if constraints exist)
         // 2. Cheap distance filter to skip near-duplicates (up to 5 distance computations)
@@ -793,6 +801,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 return None;
             }
 
+            evaluations.fetch_add(1, Ordering::Relaxed);
             let obj = self.problem.objective(point).ok()?;
             if obj < worst_obj { Some((point.clone(), obj)) } else { None }
         };
@@ -808,6 +817,8 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         let trial_evaluated: Vec<(Array1<f64>, f64)> =
             trials.iter().filter_map(evaluate_trial).collect();
 
+        self.trial_evaluations += evaluations.into_inner();
+
         // If no trials passed filtering, keep current reference set unchanged
         if trial_evaluated.is_empty() {
             return;
-- 
2.43.0


From 132408c30f3f8e8f4383101869fc745d1e8b174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:45 +0000
Subject: [PATCH 09/32] fix: Stage 1 computes the same reference set for any
 number of threads

The distance threshold was a parallel floating-point sum, and near-zero
distances were rounded to zero only without parallelism.
---
 src/scatter_search.rs | 30 +++++-------------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index cb2d07a..a790293 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -607,10 +607,12 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         #[cfg(feature = "rayon")]
         {
             if self.enable_parallel {
-                ref_set
+                let min_dist = ref_set
                     .par_iter()
                     .map(|p| euclidean_distance_squared(point, p))
-                    .reduce(|| f64::INFINITY, f64::min)
+                    .reduce(|| f64::INFINITY, f64::min);
+                // Essentially identical points, as in the sequential case
+                if min_dist < 1e-14 { 0.0 } else { min_dist }
             } else {
                 // Sequential with early termination for near-zero distances
                 let mut min_dist = f64::INFINITY;
@@ -744,29 +746,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 let k = ((ref_set.len() as f64).sqrt() as usize).max(2).min(ref_set.len());
                 let sample_size = k;
 
-                #[cfg(feature = "rayon")]
-                let sum_dist = if self.enable_parallel {
-                    (0..sample_size)
-                        .into_par_iter()
-                        .map(|i| {
-                            euclidean_distance_squared(
-                                &ref_set[i],
-                                &ref_set[(i + 1) % ref_set.len()],
-                            )
-                        })
-                        .sum::<f64>()
-                } else {
-                    (0..sample_size)
-                        .map(|i| {
-                            euclidean_distance_squared(
-                                &ref_set[i],
-                                &ref_set[(i + 1) % ref_set.len()],
-                            )
-                        })
-                        .sum::<f64>()
-                };
-
-                #[cfg(not(feature = "rayon"))]
+                // Summed in order: a parallel sum would depend on how the work is split
                 let sum_dist = (0..sample_size)
                     .map(|i| {
                         euclidean_distance_squared(&ref_set[i], &ref_set[(i + 1) % ref_set.len()])
-- 
2.43.0


From 81f5baa1f3f1d6a8b7f7186e76874905b49c99cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 10/32] fix: reject not-a-number settings and non-finite bounds
 instead of panicking

NaN passed the threshold, distance, custom-point and bounds checks, infinite
bounds panicked in the sampler, and the midpoint of huge bounds overflowed.
---
 src/filters.rs        |  2 +-
 src/oqnlp.rs          |  7 ++++---
 src/scatter_search.rs | 10 ++++++----
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/filters.rs b/src/filters.rs
index d15fcd2..010a145 100644
--- a/src/filters.rs
+++ b/src/filters.rs
@@ -208,7 +208,7 @@ impl DistanceFilter {
     ///
     /// Returns an error if the distance factor is negative
     pub fn new(params: FilterParams) -> Result<Self, FiltersErrors> {
-        if params.distance_factor < 0.0 {
+        if params.distance_factor.is_nan() || params.distance_factor < 0.0 {
             return Err(FiltersErrors::NegativeDistanceFactor { value: params.distance_factor });
         }
 
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index ecd0efa..0d45d1d 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -444,7 +444,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             return Err(OQNLPError::InvalidIterations(params.iterations, params.population_size));
         }
 
-        if params.threshold_factor <= 0.0 {
+        if params.threshold_factor.is_nan() || params.threshold_factor <= 0.0 {
             return Err(OQNLPError::InvalidThresholdFactor(params.threshold_factor));
         }
 
@@ -662,7 +662,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             for (j, &value) in point.iter().enumerate() {
                 let lower = bounds[[j, 0]];
                 let upper = bounds[[j, 1]];
-                if value < lower || value > upper {
+                if !(lower..=upper).contains(&value) {
                     return Err(OQNLPError::CustomPointOutOfBounds { index: i });
                 }
             }
@@ -1094,7 +1094,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             let lower_bound = bounds[[i, 0]];
             let upper_bound = bounds[[i, 1]];
 
-            if value < lower_bound || value > upper_bound {
+            // Not-a-number coordinates are never within bounds
+            if !(lower_bound..=upper_bound).contains(&value) {
                 return false;
             }
         }
diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index a790293..c8da3ce 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -119,7 +119,7 @@ pub enum ScatterSearchError {
     ///
     /// Includes dimension and which bounds are invalid
     #[error(
-        "Scatter Search Error: Invalid bounds for variable {dimension}: lower={lower}, upper={upper}. Lower bound must be < upper bound."
+        "Scatter Search Error: Invalid bounds for variable {dimension}: lower={lower}, upper={upper}. Bounds must be finite, and lower bound must be < upper bound."
     )]
     InvalidBounds { dimension: usize, lower: f64, upper: f64 },
 }
@@ -166,7 +166,9 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
         // Validate bounds
         for i in 0..bounds.lower.len() {
-            if bounds.lower[i] >= bounds.upper[i] {
+            // Both bounds and the width of the range must be finite to sample it
+            let width = bounds.upper[i] - bounds.lower[i];
+            if !(bounds.lower[i] < bounds.upper[i] && width.is_finite()) {
                 return Err(ScatterSearchError::InvalidBounds {
                     dimension: i,
                     lower: bounds.lower[i],
@@ -333,13 +335,13 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             // No constraints - add all seed points directly
             ref_set.push(self.bounds.lower.to_owned());
             ref_set.push(self.bounds.upper.to_owned());
-            ref_set.push((&self.bounds.lower + &self.bounds.upper) / 2.0);
+            ref_set.push(&self.bounds.lower * 0.5 + &self.bounds.upper * 0.5);
         } else {
             // With constraints - only add seed points that satisfy them
             let seed_points = vec![
                 self.bounds.lower.to_owned(),
                 self.bounds.upper.to_owned(),
-                (&self.bounds.lower + &self.bounds.upper) / 2.0,
+                &self.bounds.lower * 0.5 + &self.bounds.upper * 0.5,
             ];
 
             for point in seed_points {
-- 
2.43.0


From 4223e7e119a4d5753f4fa0ab6897cfe5adcf2a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 11/32] fix: not-a-number and infinite objectives never beat or
 block a number

NaN with the sign bit set sorted first, a NaN worst reference point kept every
trial out, a NaN incumbent or threshold could never be replaced, and an infinite
incumbent made every objective a tie.
---
 python/src/lib.rs     |  9 ++++++++-
 src/oqnlp.rs          | 41 +++++++++++++++++++++++++++++++----------
 src/scatter_search.rs | 22 +++++++++++++---------
 src/types.rs          | 10 +++++++++-
 4 files changed, 61 insertions(+), 21 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 485eaf2..5cf06b8 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -310,7 +310,14 @@ impl PySolutionSet {
     /// :returns: The solution with the lowest objective function value, or None if the set is empty
     /// :rtype: PyLocalSolution or None
     fn best_solution(&self) -> Option<PyLocalSolution> {
-        self.solutions.iter().min_by(|a, b| a.objective.total_cmp(&b.objective)).cloned()
+        self.solutions
+            .iter()
+            .min_by(|a, b| {
+                // Not-a-number values come after all numbers
+                let (x, y) = (a.objective, b.objective);
+                x.is_nan().cmp(&y.is_nan()).then(x.total_cmp(&y))
+            })
+            .cloned()
     }
 
     /// Returns the solution at the given index.
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 0d45d1d..99aee57 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -130,7 +130,7 @@ use crate::local_solver::runner::LocalSolver;
 use crate::observers::Observer;
 use crate::problem::Problem;
 use crate::scatter_search::ScatterSearch;
-use crate::types::{FilterParams, LocalSolution, OQNLPParams, SolutionSet};
+use crate::types::{FilterParams, LocalSolution, OQNLPParams, SolutionSet, compare_objectives};
 #[cfg(feature = "checkpointing")]
 use crate::{
     checkpoint::{CheckpointError, CheckpointManager},
@@ -753,11 +753,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         stage1.enter_substage("scatter_search_complete");
                         stage1.set_reference_set_size(ref_set.len());
                         // Find the best solution and its coordinates
-                        // Use total_cmp which provides total ordering (NaN > all values)
+                        // Total ordering in which NaN comes after all numbers
                         if let Some((best_idx, &best_obj)) = ref_objectives
                             .iter()
                             .enumerate()
-                            .min_by(|(_, a), (_, b)| a.total_cmp(b))
+                            .min_by(|(_, a), (_, b)| compare_objectives(**a, **b))
                         {
                             stage1.set_best_solution(best_obj, &ref_set[best_idx]);
                         }
@@ -783,7 +783,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     (sol, 0)
                 };
 
-            self.merit_filter.update_threshold(local_sol.objective);
+            self.set_threshold(local_sol.objective);
 
             if self.verbose {
                 println!(
@@ -1135,7 +1135,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
             self.solution_set =
                 Some(SolutionSet { solutions: Array1::from(vec![solution.clone()]) });
-            self.merit_filter.update_threshold(solution.objective);
+            self.set_threshold(solution.objective);
             self.distance_filter.add_solution(solution);
 
             return Ok(true);
@@ -1145,14 +1145,21 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let obj1 = solution.objective;
         let obj2 = current_best.objective;
 
-        let obj_diff = (obj1 - obj2).abs();
-        let tol = abs_tol.max(rel_tol * obj1.abs().max(obj2.abs()));
+        // Tolerances only apply to finite values: an infinite objective ties only with itself
+        let (obj_diff, tol) = if obj1.is_finite() && obj2.is_finite() {
+            ((obj1 - obj2).abs(), abs_tol.max(rel_tol * obj1.abs().max(obj2.abs())))
+        } else {
+            (if obj1 == obj2 { 0.0 } else { f64::INFINITY }, 0.0)
+        };
 
-        let added: bool = if obj1 < obj2 - tol {
+        // Any number is better than a not-a-number objective
+        let replaces_nan = obj2.is_nan() && !obj1.is_nan();
+
+        let added: bool = if obj1 < obj2 - tol || replaces_nan {
             // Found new best solution
             self.solution_set =
                 Some(SolutionSet { solutions: Array1::from(vec![solution.clone()]) });
-            self.merit_filter.update_threshold(solution.objective);
+            self.set_threshold(solution.objective);
 
             // Update observer with the newly added solution
             if let Some(ref mut observer) = self.observer {
@@ -1657,7 +1664,21 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     fn adjust_threshold(&mut self, current_threshold: f64) {
         let new_threshold: f64 =
             current_threshold + self.params.threshold_factor * (1.0 + current_threshold.abs());
-        self.merit_filter.update_threshold(new_threshold);
+        // An infinite threshold has nothing to grow by
+        if !new_threshold.is_nan() {
+            self.merit_filter.update_threshold(new_threshold);
+        }
+    }
+
+    /// Set the threshold for the merit filter to the objective of a local solution
+    ///
+    /// A not-a-number objective says nothing about the merit of other points, so it accepts all
+    fn set_threshold(&mut self, objective: f64) {
+        self.merit_filter.update_threshold(if objective.is_nan() {
+            f64::INFINITY
+        } else {
+            objective
+        });
     }
 
     /// Process a batch of trials sequentially
diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index c8da3ce..105459a 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -44,7 +44,7 @@
 
 use crate::observers::Observer;
 use crate::problem::Problem;
-use crate::types::OQNLPParams;
+use crate::types::{OQNLPParams, compare_objectives};
 use ndarray::Array1;
 use rand::rngs::StdRng;
 use rand::{Rng, SeedableRng};
@@ -418,7 +418,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // Sort reference set by objective value (best first) for k-selection
         let mut points_with_objectives: Vec<(Array1<f64>, f64)> =
             ref_set.into_iter().zip(objectives).collect();
-        points_with_objectives.sort_unstable_by(|a, b| a.1.total_cmp(&b.1));
+        points_with_objectives.sort_unstable_by(|a, b| compare_objectives(a.1, b.1));
 
         let (sorted_points, sorted_objectives): (Vec<Array1<f64>>, Vec<f64>) =
             points_with_objectives.into_iter().unzip();
@@ -785,7 +785,11 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
             evaluations.fetch_add(1, Ordering::Relaxed);
             let obj = self.problem.objective(point).ok()?;
-            if obj < worst_obj { Some((point.clone(), obj)) } else { None }
+            if compare_objectives(obj, worst_obj).is_lt() {
+                Some((point.clone(), obj))
+            } else {
+                None
+            }
         };
 
         #[cfg(feature = "rayon")]
@@ -825,13 +829,13 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         let k = ((pop_size as f64).sqrt() as usize).max(2).min(pop_size);
 
         // Partition so the k best elements are at the front (these will be the global best k)
-        all_points.select_nth_unstable_by(k - 1, |a, b| a.1.total_cmp(&b.1));
+        all_points.select_nth_unstable_by(k - 1, |a, b| compare_objectives(a.1, b.1));
 
         // Now sort only the first k elements (these are guaranteed to be the k best globally)
-        all_points[..k].sort_unstable_by(|a, b| a.1.total_cmp(&b.1));
+        all_points[..k].sort_unstable_by(|a, b| compare_objectives(a.1, b.1));
 
         // Partition the remaining to get the pop_size best overall
-        all_points.select_nth_unstable_by(pop_size - 1, |a, b| a.1.total_cmp(&b.1));
+        all_points.select_nth_unstable_by(pop_size - 1, |a, b| compare_objectives(a.1, b.1));
 
         // Truncate to keep only pop_size points
         all_points.truncate(pop_size);
@@ -848,14 +852,14 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             self.reference_set_objectives
                 .par_iter()
                 .enumerate()
-                .min_by(|(_, a), (_, b)| a.total_cmp(b))
+                .min_by(|(_, a), (_, b)| compare_objectives(**a, **b))
                 .map(|(idx, _)| idx)
                 .ok_or(ScatterSearchError::NoCandidates)?
         } else {
             self.reference_set_objectives
                 .iter()
                 .enumerate()
-                .min_by(|(_, a), (_, b)| a.total_cmp(b))
+                .min_by(|(_, a), (_, b)| compare_objectives(**a, **b))
                 .map(|(idx, _)| idx)
                 .ok_or(ScatterSearchError::NoCandidates)?
         };
@@ -865,7 +869,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             .reference_set_objectives
             .iter()
             .enumerate()
-            .min_by(|(_, a), (_, b)| a.total_cmp(b))
+            .min_by(|(_, a), (_, b)| compare_objectives(**a, **b))
             .map(|(idx, _)| idx)
             .ok_or(ScatterSearchError::NoCandidates)?;
 
diff --git a/src/types.rs b/src/types.rs
index d8c2af4..f76b317 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -31,6 +31,7 @@
 use crate::local_solver::builders::{COBYLABuilder, LocalSolverConfig};
 use crate::problem::Problem;
 use ndarray::Array1;
+use std::cmp::Ordering;
 use std::fmt;
 use std::ops::Index;
 use thiserror::Error;
@@ -287,6 +288,13 @@ pub struct SolutionSet {
     pub solutions: Array1<LocalSolution>,
 }
 
+/// Order objective values from best to worst
+///
+/// Not-a-number values, whatever their sign, come after all numbers.
+pub(crate) fn compare_objectives(a: f64, b: f64) -> Ordering {
+    a.is_nan().cmp(&b.is_nan()).then(a.total_cmp(&b))
+}
+
 impl SolutionSet {
     /// Returns the number of solutions stored in the set.
     pub fn len(&self) -> usize {
@@ -300,7 +308,7 @@ impl SolutionSet {
 
     /// Returns the best solution in the set based on the objective function value.
     pub fn best_solution(&self) -> Option<&LocalSolution> {
-        self.solutions.iter().min_by(|a, b| a.objective.total_cmp(&b.objective))
+        self.solutions.iter().min_by(|a, b| compare_objectives(a.objective, b.objective))
     }
 
     /// Returns an iterator over the solutions in the set.
-- 
2.43.0


From d08799dc6fabb4d891bffd610202363f5e5a0251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:49 +0000
Subject: [PATCH 12/32] fix: a local search that replaces the solution set
 counts as improved

---
 src/oqnlp.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 99aee57..bcc0609 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1103,6 +1103,12 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         true
     }
 
+    /// Objective value of the current best solution, `None` without a numeric one
+    fn best_objective(&self) -> Option<f64> {
+        let best = self.solution_set.as_ref()?.solutions.first()?;
+        Some(best.objective).filter(|objective| !objective.is_nan())
+    }
+
     /// Process a local solution, updating the best solution and filters
     fn process_local_solution(&mut self, solution: LocalSolution) -> Result<bool, OQNLPError> {
         let abs_tol = self.abs_tol;
@@ -1747,13 +1753,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     (sol, 0)
                 };
 
+                let best_before = self.best_objective();
                 let added: bool = self.process_local_solution(local_trial.clone())?;
+                let improved = added || self.best_objective() != best_before;
 
                 // Observer: Track local solver call and results
                 if let Some(ref mut observer) = self.observer {
                     if observer.should_observe_stage2() {
                         if let Some(stage2) = observer.stage2_mut() {
-                            stage2.add_local_solver_call(added);
+                            stage2.add_local_solver_call(improved);
                             stage2.add_function_evaluations(eval_count as usize);
                             if let Some(ref sol_set) = self.solution_set {
                                 if let Some(best) = sol_set.best_solution() {
@@ -1949,13 +1957,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 // them are kept, even if one of them reaches the target objective
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
                     self.merit_filter.update_threshold(obj);
+                    let best_before = self.best_objective();
                     let added = self.process_local_solution(local_solution.clone())?;
+                    let improved = added || self.best_objective() != best_before;
 
                     // Observer: Track local solver call and results (parallel case)
                     if let Some(ref mut observer) = self.observer {
                         if observer.should_observe_stage2() {
                             if let Some(stage2) = observer.stage2_mut() {
-                                stage2.add_local_solver_call(added);
+                                stage2.add_local_solver_call(improved);
                                 stage2.add_function_evaluations(eval_count as usize);
                                 if let Some(ref sol_set) = self.solution_set {
                                     if let Some(best) = sol_set.best_solution() {
@@ -2011,13 +2021,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         (sol, 0)
                     };
 
+                    let best_before = self.best_objective();
                     let added = self.process_local_solution(local_trial.clone())?;
+                    let improved = added || self.best_objective() != best_before;
 
                     // Observer: Track local solver call and results (single local search case)
                     if let Some(ref mut observer) = self.observer {
                         if observer.should_observe_stage2() {
                             if let Some(stage2) = observer.stage2_mut() {
-                                stage2.add_local_solver_call(added);
+                                stage2.add_local_solver_call(improved);
                                 stage2.add_function_evaluations(eval_count as usize);
                                 if let Some(ref sol_set) = self.solution_set {
                                     if let Some(best) = sol_set.best_solution() {
-- 
2.43.0


From 0b6bf22c5c610555869f4390f1fda2f624c072c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:08 +0000
Subject: [PATCH 13/32] fix: a run after an explicit resume continues with the
 modified parameters

The next run started over instead of continuing, the local solver and the
distance filter kept the old parameters, and resuming from a file never extended
the reference set for a larger population.
---
 src/oqnlp.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index bcc0609..f18e5b3 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -392,6 +392,10 @@ pub struct OQNLP<P: Problem + Clone> {
     #[cfg(feature = "checkpointing")]
     current_iteration: usize,
 
+    /// Whether state was restored explicitly, for the next run to continue from.
+    #[cfg(feature = "checkpointing")]
+    resumed: bool,
+
     /// Active reference set for scatter search state.
     #[cfg(feature = "checkpointing")]
     current_reference_set: Option<Vec<Array1<f64>>>,
@@ -484,6 +488,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             #[cfg(feature = "checkpointing")]
             current_iteration: 0,
             #[cfg(feature = "checkpointing")]
+            resumed: false,
+            #[cfg(feature = "checkpointing")]
             current_reference_set: None,
             #[cfg(feature = "checkpointing")]
             unchanged_cycles: 0,
@@ -686,9 +692,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             }
         }
 
-        // Try to resume from checkpoint if enabled
+        // Continue an explicitly resumed run, or try to resume from checkpoint if enabled
         #[cfg(feature = "checkpointing")]
-        let resumed_from_checkpoint = self.try_resume_from_checkpoint()?;
+        let resumed_from_checkpoint =
+            std::mem::take(&mut self.resumed) || self.try_resume_from_checkpoint()?;
         #[cfg(not(feature = "checkpointing"))]
         let resumed_from_checkpoint = false;
 
@@ -1472,6 +1479,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 checkpoint.params = new_params.clone();
 
                 self.restore_from_checkpoint(checkpoint)?;
+                self.resumed = true;
 
                 if self.verbose {
                     println!(
@@ -1536,10 +1544,18 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             // Keep the old params for comparison
             let old_iterations = checkpoint.params.iterations;
 
+            // Handle a larger population size
+            self.expand_reference_set(
+                &mut checkpoint.reference_set,
+                checkpoint.params.population_size,
+                new_params.population_size,
+            )?;
+
             // Update with new parameters
             checkpoint.params = new_params.clone();
 
             self.restore_from_checkpoint(checkpoint)?;
+            self.resumed = true;
 
             if self.verbose {
                 println!(
@@ -1590,6 +1606,18 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         self.abs_tol = checkpoint.abs_tol;
         self.rel_tol = checkpoint.rel_tol;
 
+        // Use the restored parameters in the local solver and the distance filter
+        self.local_solver = LocalSolver::new(
+            self.problem.clone(),
+            self.params.local_solver_type.clone(),
+            self.params.local_solver_config.clone(),
+        );
+        self.distance_filter = DistanceFilter::new(FilterParams {
+            distance_factor: self.params.distance_factor,
+            wait_cycle: self.params.wait_cycle,
+            threshold_factor: self.params.threshold_factor,
+        })?;
+
         // Restore distance filter solutions
         self.distance_filter.set_solutions(checkpoint.distance_filter_solutions);
 
-- 
2.43.0


From 69382a4ad430a52f3eed0205d64977edb48107b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 14/32] fix: a crash while saving never damages the existing
 checkpoint

The checkpoint was overwritten in place, so an interrupted save left a truncated
file and no way back to the previous state.
---
 src/checkpoint.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 5d7e878..64ca68f 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -60,7 +60,7 @@
 
 use crate::types::{CheckpointConfig, OQNLPCheckpoint};
 use std::fs;
-use std::io;
+use std::io::{self, Write};
 use std::path::{Path, PathBuf};
 use thiserror::Error;
 
@@ -245,15 +245,29 @@ impl CheckpointManager {
                 path: filepath.clone(),
                 source: e,
             })?;
-        fs::write(&filepath, encoded).map_err(|e| CheckpointError::IoError {
-            operation: "write".to_string(),
-            path: filepath.clone(),
-            source: e,
+        // Write to a temporary file first, so that an interrupted save never damages an
+        // existing checkpoint
+        let temp_path = filepath.with_extension("bin.tmp");
+        Self::write_and_rename(&encoded, &temp_path, &filepath).map_err(|e| {
+            CheckpointError::IoError {
+                operation: "write".to_string(),
+                path: filepath.clone(),
+                source: e,
+            }
         })?;
 
         Ok(filepath)
     }
 
+    /// Write the data to a temporary file and move it into place once it is complete
+    fn write_and_rename(data: &[u8], temp_path: &Path, filepath: &Path) -> io::Result<()> {
+        let mut file = fs::File::create(temp_path)?;
+        file.write_all(data)?;
+        file.sync_all()?;
+        drop(file);
+        fs::rename(temp_path, filepath)
+    }
+
     /// Load the latest checkpoint from disk
     pub fn load_latest_checkpoint(&self) -> Result<OQNLPCheckpoint, CheckpointError> {
         let checkpoint_path = if self.config.keep_all {
-- 
2.43.0


From 2609dc6621c0d1b631a04c7ea5a415011242e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:03 +0000
Subject: [PATCH 15/32] fix: find the checkpoint of iteration zero and ignore
 files of other names

The latest checkpoint was never found when only iteration zero was saved, and
name_2.bin of a checkpoint called name_2 was taken for iteration 2 of name.
---
 src/checkpoint.rs | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 64ca68f..07ff539 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -316,6 +316,19 @@ impl CheckpointManager {
         }
     }
 
+    /// Iteration of a file saved with `keep_all`, `None` if it is not one of this manager's
+    fn iteration_of(&self, path: &Path) -> Option<usize> {
+        let filename = path.file_name()?.to_str()?;
+        let iteration_str = filename
+            .strip_prefix(self.config.checkpoint_name.as_str())?
+            .strip_prefix('_')?
+            .strip_suffix(".bin")?;
+        let iteration: usize = iteration_str.parse().ok()?;
+
+        // Only the exact format used when saving: other names may end in a number too
+        (format!("{:06}", iteration) == iteration_str).then_some(iteration)
+    }
+
     /// Find the latest checkpoint file when keep_all is enabled
     fn find_latest_checkpoint(&self) -> Result<PathBuf, CheckpointError> {
         let entries =
@@ -324,10 +337,8 @@ impl CheckpointManager {
                 path: self.config.checkpoint_dir.clone(),
                 source: e,
             })?;
-        let pattern = format!("{}_", self.config.checkpoint_name);
 
-        let mut latest_iteration = 0;
-        let mut latest_path = None;
+        let mut latest: Option<(usize, PathBuf)> = None;
 
         for entry in entries {
             let entry = entry.map_err(|e| CheckpointError::IoError {
@@ -337,20 +348,15 @@ impl CheckpointManager {
             })?;
             let path = entry.path();
 
-            if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
-                if filename.starts_with(&pattern) && filename.ends_with(".bin") {
-                    let iteration_str = &filename[pattern.len()..filename.len() - 4];
-                    if let Ok(iteration) = iteration_str.parse::<usize>() {
-                        if iteration > latest_iteration {
-                            latest_iteration = iteration;
-                            latest_path = Some(path);
-                        }
-                    }
+            if let Some(iteration) = self.iteration_of(&path) {
+                if latest.as_ref().is_none_or(|(latest_iteration, _)| iteration > *latest_iteration)
+                {
+                    latest = Some((iteration, path));
                 }
             }
         }
 
-        latest_path.ok_or_else(|| CheckpointError::CheckpointNotFound {
+        latest.map(|(_, path)| path).ok_or_else(|| CheckpointError::CheckpointNotFound {
             path: self.config.checkpoint_dir.clone(),
         })
     }
@@ -367,7 +373,6 @@ impl CheckpointManager {
                 path: self.config.checkpoint_dir.clone(),
                 source: e,
             })?;
-        let pattern = format!("{}_", self.config.checkpoint_name);
 
         let mut checkpoints = Vec::new();
 
@@ -379,13 +384,8 @@ impl CheckpointManager {
             })?;
             let path = entry.path();
 
-            if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
-                if filename.starts_with(&pattern) && filename.ends_with(".bin") {
-                    let iteration_str = &filename[pattern.len()..filename.len() - 4];
-                    if let Ok(iteration) = iteration_str.parse::<usize>() {
-                        checkpoints.push((iteration, path));
-                    }
-                }
+            if let Some(iteration) = self.iteration_of(&path) {
+                checkpoints.push((iteration, path));
             }
         }
 
-- 
2.43.0


From f92b857fa6f4173b7c50d9b95b7c5c91031ca6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:06 +0000
Subject: [PATCH 16/32] fix: many custom points no longer make the reference
 set exceed the population size

---
 src/scatter_search.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 105459a..045743e 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -297,6 +297,11 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
         self.update_reference_set(&trial_points);
 
+        // Many custom points can exceed the population size. Without successful trial points the
+        // reference set is still sorted, so this keeps the best ones
+        self.reference_set.truncate(self.params.population_size);
+        self.reference_set_objectives.truncate(self.params.population_size);
+
         // Update observer with intensification metrics
         if let Some(ref mut obs) = self.observer {
             if obs.should_observe_stage1() {
-- 
2.43.0


From 0f8c012a70196bfd8b6f1337c757b4dccfef85b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 17/32] fix: NewtonCG with Hager-Zhang uses its tolerance and
 curvature threshold

Both were ignored with that line search, and invalid line search settings were
reported as steepest descent errors.
---
 src/local_solver/runner.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 88a08b3..0bfc9fa 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -843,15 +843,15 @@ impl<P: Problem> LocalSolver<P> {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
                     let linesearch = MoreThuenteLineSearch::new()
                         .with_c(*c1, *c2)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_bounds(bounds[0], bounds[1])
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_width_tolerance(*width_tolerance)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?;
 
@@ -897,31 +897,36 @@ impl<P: Problem> LocalSolver<P> {
                 } => {
                     let linesearch = HagerZhangLineSearch::new()
                         .with_delta_sigma(*delta, *sigma)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_epsilon(*epsilon)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_theta(*theta)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_gamma(*gamma)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_eta(*eta)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_bounds(bounds[0], bounds[1])
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?;
 
-                    let solver = NewtonCG::new(linesearch);
+                    let solver = NewtonCG::new(linesearch)
+                        .with_curvature_threshold(*curvature_threshold)
+                        .with_tolerance(*tolerance)
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
+                            reason: e.to_string(),
+                        })?;
 
                     let res = Executor::new(cost, solver)
                         .configure(|state| state.param(initial_point).max_iters(*max_iter))
-- 
2.43.0


From 11aa785e88f807d4a0b5b3d1ab262346b5c41c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:16 +0000
Subject: [PATCH 18/32] fix: incomplete line search bounds are a configuration
 error, not a panic

---
 src/local_solver/runner.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 0bfc9fa..b053888 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -135,6 +135,17 @@ pub struct LocalSolver<P: Problem> {
     local_solver_config: LocalSolverConfig,
 }
 
+/// Check that the line search bounds hold a minimum and a maximum step
+#[cfg(feature = "argmin")]
+fn check_line_search_bounds(method: &LineSearchMethod) -> Result<(), String> {
+    let (LineSearchMethod::MoreThuente { bounds, .. }
+    | LineSearchMethod::HagerZhang { bounds, .. }) = method;
+    if bounds.len() < 2 {
+        return Err("Line search bounds must hold a minimum and a maximum step".to_string());
+    }
+    Ok(())
+}
+
 impl<P: Problem> LocalSolver<P> {
     pub fn new(
         problem: P,
@@ -240,6 +251,9 @@ impl<P: Problem> LocalSolver<P> {
         } = solver_config
         {
             // Match line search method
+            check_line_search_bounds(&line_search_params.method)
+                .map_err(|reason| LocalSolverError::InvalidLBFGSConfig { reason })?;
+
             match &line_search_params.method {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
                     let linesearch = MoreThuenteLineSearch::new()
@@ -525,6 +539,9 @@ impl<P: Problem> LocalSolver<P> {
 
         if let LocalSolverConfig::SteepestDescent { max_iter, line_search_params } = solver_config {
             // Match line search method
+            check_line_search_bounds(&line_search_params.method)
+                .map_err(|reason| LocalSolverError::InvalidSteepestDescentConfig { reason })?;
+
             match &line_search_params.method {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
                     let linesearch = MoreThuenteLineSearch::new()
@@ -839,6 +856,9 @@ impl<P: Problem> LocalSolver<P> {
             line_search_params,
         } = solver_config
         {
+            check_line_search_bounds(&line_search_params.method)
+                .map_err(|reason| LocalSolverError::InvalidNewtonCG { reason })?;
+
             match &line_search_params.method {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
                     let linesearch = MoreThuenteLineSearch::new()
-- 
2.43.0


From 77ee5c9c2f9886c18c511ba30bf5f03c8f31df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:16 +0000
Subject: [PATCH 19/32] fix: a constraint that evaluates to not-a-number is not
 satisfied

---
 src/scatter_search.rs | 3 ++-
 src/types.rs          | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 045743e..e34c5f2 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -918,7 +918,8 @@ fn is_feasible(point: &Array1<f64>, constraints: &[fn(&[f64], &mut ()) -> f64])
     // Early exit on first violation for performance
     for constraint_fn in constraints {
         let value = constraint_fn(x_slice, &mut ());
-        if value < 0.0 {
+        // A not-a-number value does not satisfy the constraint
+        if value.is_nan() || value < 0.0 {
             return false;
         }
     }
diff --git a/src/types.rs b/src/types.rs
index f76b317..04d3e1e 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -362,7 +362,7 @@ impl SolutionSet {
 
                     // Format constraint status
                     let status = if constraint_value >= 0.0 { "✓" } else { "✗" };
-                    let violation = if constraint_value < 0.0 {
+                    let violation = if constraint_value.is_nan() || constraint_value < 0.0 {
                         format!(" (violated by {:.6})", -constraint_value)
                     } else {
                         " (satisfied)".to_string()
-- 
2.43.0


From 964e15422a6b1baebcd3413e156731325367eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:37 +0000
Subject: [PATCH 20/32] fix: an objective error in the first evaluations of
 Nelder-Mead is an error, not a panic

---
 src/local_solver/runner.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index b053888..39e8532 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -402,13 +402,15 @@ impl<P: Problem> LocalSolver<P> {
         track_evaluations: bool,
     ) -> Result<(LocalSolution, u64), LocalSolverError> {
         use std::sync::{
-            Arc,
-            atomic::{AtomicU64, Ordering},
+            Arc, OnceLock,
+            atomic::{AtomicU64, AtomicUsize, Ordering},
         };
 
         struct ProblemCost<'a, P: Problem> {
             problem: &'a P,
             eval_count: Option<Arc<AtomicU64>>,
+            initial_evaluations: AtomicUsize,
+            initial_failure: Arc<OnceLock<String>>,
         }
 
         impl<P: Problem> CostFunction for ProblemCost<'_, P> {
@@ -419,12 +421,31 @@ impl<P: Problem> LocalSolver<P> {
                 if let Some(counter) = &self.eval_count {
                     counter.fetch_add(1, Ordering::Relaxed);
                 }
-                self.problem.objective(param).map_err(|e| Error::msg(e.to_string()))
+                let value = self.problem.objective(param);
+                // argmin panics on errors while it evaluates the initial simplex,
+                // report these once it has done so
+                if self.initial_evaluations.load(Ordering::Relaxed) <= param.len() {
+                    self.initial_evaluations.fetch_add(1, Ordering::Relaxed);
+                    return Ok(value.unwrap_or_else(|e| {
+                        self.initial_failure.get_or_init(|| e.to_string());
+                        f64::INFINITY
+                    }));
+                }
+                if let Some(failure) = self.initial_failure.get() {
+                    return Err(Error::msg(failure.clone()));
+                }
+                value.map_err(|e| Error::msg(e.to_string()))
             }
         }
 
         let eval_count = if track_evaluations { Some(Arc::new(AtomicU64::new(0))) } else { None };
-        let cost = ProblemCost { problem: &self.problem, eval_count: eval_count.clone() };
+        let initial_failure = Arc::new(OnceLock::new());
+        let cost = ProblemCost {
+            problem: &self.problem,
+            eval_count: eval_count.clone(),
+            initial_evaluations: AtomicUsize::new(0),
+            initial_failure: initial_failure.clone(),
+        };
 
         if let LocalSolverConfig::NelderMead {
             simplex_delta,
@@ -474,6 +495,13 @@ impl<P: Problem> LocalSolver<P> {
                     reason: e.to_string(),
                 })?;
 
+            if let Some(failure) = initial_failure.get() {
+                return Err(LocalSolverError::RunFailed {
+                    solver_type: "unknown".to_string(),
+                    reason: failure.clone(),
+                });
+            }
+
             let solution = LocalSolution {
                 point: res
                     .state()
-- 
2.43.0


From b3d3648d8c3c3c8965a60809935e43f19f3a129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:58 +0000
Subject: [PATCH 21/32] fix: NewtonCG reports non-finite gradients and hessians
 instead of never ending

---
 src/local_solver/runner.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 39e8532..45c4195 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -861,7 +861,13 @@ impl<P: Problem> LocalSolver<P> {
             type Gradient = Array1<f64>;
 
             fn gradient(&self, param: &Self::Param) -> std::result::Result<Self::Gradient, Error> {
-                self.problem.gradient(param).map_err(|e| Error::msg(e.to_string()))
+                let gradient =
+                    self.problem.gradient(param).map_err(|e| Error::msg(e.to_string()))?;
+                // The conjugate gradient subproblem does not end on non-finite values
+                if gradient.iter().any(|value| !value.is_finite()) {
+                    return Err(Error::msg("Non-finite gradient"));
+                }
+                Ok(gradient)
             }
         }
 
@@ -870,7 +876,11 @@ impl<P: Problem> LocalSolver<P> {
             type Hessian = Array2<f64>;
 
             fn hessian(&self, param: &Self::Param) -> std::result::Result<Self::Hessian, Error> {
-                self.problem.hessian(param).map_err(|e| Error::msg(e.to_string()))
+                let hessian = self.problem.hessian(param).map_err(|e| Error::msg(e.to_string()))?;
+                if hessian.iter().any(|value| !value.is_finite()) {
+                    return Err(Error::msg("Non-finite hessian"));
+                }
+                Ok(hessian)
             }
         }
 
-- 
2.43.0


From 177d99159edc1b76e92341df3665a12a87befe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:07 +0000
Subject: [PATCH 22/32] fix: a damaged length in a checkpoint file is an error
 instead of an abort

---
 src/checkpoint.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 07ff539..2df90ca 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -64,6 +64,16 @@ use std::io::{self, Write};
 use std::path::{Path, PathBuf};
 use thiserror::Error;
 
+/// Largest checkpoint that can be loaded, in bytes
+///
+/// Bounds the memory claimed by a length field of a damaged file
+const MAX_CHECKPOINT_SIZE: usize = 1 << 30;
+
+/// Configuration for decoding checkpoints
+fn decode_config() -> impl bincode::config::Config {
+    bincode::config::legacy().with_limit::<MAX_CHECKPOINT_SIZE>()
+}
+
 /// Wrapper for bincode v2 errors that can occur during encoding or decoding
 #[derive(Debug, Error)]
 pub enum BincodeError {
@@ -295,7 +305,7 @@ impl CheckpointManager {
             source: e,
         })?;
         let (checkpoint, _): (OQNLPCheckpoint, usize) =
-            bincode::serde::decode_from_slice(&encoded, bincode::config::legacy())
+            bincode::serde::decode_from_slice(&encoded, decode_config())
                 .map_err(BincodeError::DecodeError)
                 .map_err(|e| CheckpointError::SerializationError {
                     operation: "decode".to_string(),
@@ -441,7 +451,7 @@ pub fn read_checkpoint_file(path: &Path) -> Result<OQNLPCheckpoint, CheckpointEr
         source: e,
     })?;
     let (checkpoint, _): (OQNLPCheckpoint, usize) =
-        bincode::serde::decode_from_slice(&encoded, bincode::config::legacy())
+        bincode::serde::decode_from_slice(&encoded, decode_config())
             .map_err(BincodeError::DecodeError)
             .map_err(|e| CheckpointError::SerializationError {
                 operation: "decode".to_string(),
-- 
2.43.0


From f174f3c5f0656e4d446b55218697c80287adbccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:27 +0000
Subject: [PATCH 23/32] fix: a resumed run does not report a Stage 1 that never
 ends

---
 src/oqnlp.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index f18e5b3..94245da 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -685,11 +685,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Start observer timing if enabled
         if let Some(ref mut observer) = self.observer {
             observer.start_timer();
-            if observer.should_observe_stage1() {
-                if let Some(stage1) = observer.stage1_mut() {
-                    stage1.start();
-                }
-            }
         }
 
         // Continue an explicitly resumed run, or try to resume from checkpoint if enabled
@@ -705,6 +700,17 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             self.start_time = Some(std::time::Instant::now());
         }
 
+        // Observer: Start Stage 1, or skip it when resuming from checkpoint
+        if let Some(ref mut observer) = self.observer {
+            if resumed_from_checkpoint {
+                observer.mark_stage1_complete();
+            } else if observer.should_observe_stage1() {
+                if let Some(stage1) = observer.stage1_mut() {
+                    stage1.start();
+                }
+            }
+        }
+
         // If we resumed from checkpoint, skip Stage 1 and jump to Stage 2
         let (mut ref_set, mut unchanged_cycles, mut ref_objectives) = if resumed_from_checkpoint {
             #[cfg(feature = "checkpointing")]
-- 
2.43.0


From 3512090f3e73ac6119b569b978e26a90d8d7d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:50 +0000
Subject: [PATCH 24/32] fix: report COBYLA absolute tolerances of the wrong
 length as an error

---
 src/local_solver/runner.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 45c4195..5071954 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -1072,6 +1072,16 @@ impl<P: Problem> LocalSolver<P> {
                 });
             }
 
+            if !xtol_abs.is_empty() && xtol_abs.len() != x0.len() {
+                return Err(LocalSolverError::InvalidCOBYLAConfig {
+                    reason: format!(
+                        "xtol_abs must have one tolerance per variable: expected {}, got {}",
+                        x0.len(),
+                        xtol_abs.len()
+                    ),
+                });
+            }
+
             let bounds: Vec<(f64, f64)> =
                 (0..x0.len()).map(|i| (problem_bounds[[i, 0]], problem_bounds[[i, 1]])).collect();
 
-- 
2.43.0


From 677d48650cf633450fce498c7642525918b00e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:51 +0000
Subject: [PATCH 25/32] fix: report variable bounds of the wrong shape as an
 error

---
 src/scatter_search.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index e34c5f2..ca24ab6 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -159,6 +159,14 @@ pub struct ScatterSearch<'a, P: Problem> {
 impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
     pub fn new(problem: P, params: OQNLPParams) -> Result<Self, ScatterSearchError> {
         let var_bounds = problem.variable_bounds();
+        // One row (lower, upper) per variable, and at least one variable
+        if var_bounds.nrows() == 0 || var_bounds.ncols() != 2 {
+            return Err(ScatterSearchError::InvalidBounds {
+                dimension: 0,
+                lower: f64::NAN,
+                upper: f64::NAN,
+            });
+        }
         let bounds = VariableBounds {
             lower: var_bounds.column(0).to_owned(),
             upper: var_bounds.column(1).to_owned(),
-- 
2.43.0


From d0648e2a29f15dec8423be90cd89eab4fc875316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:22 +0000
Subject: [PATCH 26/32] fix: document the default bounds the Hager-Zhang
 builder has

---
 src/local_solver/builders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_solver/builders.rs b/src/local_solver/builders.rs
index ba2e888..1fdf203 100644
--- a/src/local_solver/builders.rs
+++ b/src/local_solver/builders.rs
@@ -1493,7 +1493,7 @@ impl HagerZhangBuilder {
 /// - `theta`: 0.5
 /// - `gamma`: 0.66
 /// - `eta`: 0.01
-/// - `bounds`: [sqrt(EPSILON), INFINITY]
+/// - `bounds`: [EPSILON, 1e5]
 #[cfg(feature = "argmin")]
 impl Default for HagerZhangBuilder {
     fn default() -> Self {
-- 
2.43.0


From 63b3420098c2f2087497b0c6548dd54a23b83fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:30 +0000
Subject: [PATCH 27/32] fix: apply the constraints of each Python problem to
 that problem only

Constraint functions found their problem through a thread-local number that only the thread
calling constraints() had, and ran under a lock that an exception left unusable. Each run now
has function pointers of its own; a constraint that raises is not satisfied.
---
 python/src/lib.rs | 184 ++++++++++++++++++++--------------------------
 1 file changed, 80 insertions(+), 104 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 5cf06b8..892aea4 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -13,66 +13,64 @@ use ndarray::{Array1, Array2};
 use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use seq_macro::seq;
-use std::cell::Cell;
-use std::collections::HashMap;
-use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{Arc, Mutex};
 
-// Global constraint registry for COBYLA constraints
-type ConstraintRegistry = Arc<Mutex<HashMap<usize, Vec<Py<pyo3::PyAny>>>>>;
-static CONSTRAINT_REGISTRY: std::sync::OnceLock<ConstraintRegistry> = std::sync::OnceLock::new();
-static PROBLEM_ID_COUNTER: AtomicUsize = AtomicUsize::new(0);
+// Python constraint functions in use, by the number of the function pointer that calls them
+static CONSTRAINT_SLOTS: Mutex<Vec<Option<Arc<Py<PyAny>>>>> = Mutex::new(Vec::new());
 
 // Global mutex to serialize Python calls from parallel threads
 static PYTHON_CALL_MUTEX: std::sync::OnceLock<Mutex<()>> = std::sync::OnceLock::new();
 
-// Thread-local storage for current problem ID and constraint index during evaluation
-thread_local! {
-    static CURRENT_PROBLEM_ID: Cell<usize> = const { Cell::new(0) };
-    static CURRENT_CONSTRAINT_INDEX: Cell<usize> = const { Cell::new(0) };
-}
-
 fn get_python_call_mutex() -> &'static Mutex<()> {
     PYTHON_CALL_MUTEX.get_or_init(|| Mutex::new(()))
 }
 
-fn get_constraint_registry() -> &'static ConstraintRegistry {
-    CONSTRAINT_REGISTRY.get_or_init(|| Arc::new(Mutex::new(HashMap::new())))
-}
-
-fn get_next_problem_id() -> usize {
-    PROBLEM_ID_COUNTER.fetch_add(1, Ordering::SeqCst)
+// Helper function to evaluate the constraint in a slot. Python code never runs under the lock. A
+// constraint that raises an exception, or does not return a float, is not satisfied.
+fn evaluate_constraint(slot: usize, x: &[f64]) -> f64 {
+    let slots = CONSTRAINT_SLOTS.lock().expect("Constraint slots mutex poisoned");
+    let constraint = slots.get(slot).cloned().flatten();
+    drop(slots);
+
+    Python::attach(move |py| {
+        constraint
+            .and_then(|c| c.call1(py, (x.to_vec(),)).and_then(|v| v.extract::<f64>(py)).ok())
+            .unwrap_or(f64::NAN)
+    })
 }
 
-fn set_current_problem_id(id: usize) {
-    CURRENT_PROBLEM_ID.with(|current| current.set(id));
+// The function pointers of the constraints of one optimization, given back once it is over
+#[derive(Debug)]
+struct Constraints {
+    slots: Vec<usize>,
 }
 
-fn get_current_problem_id() -> usize {
-    CURRENT_PROBLEM_ID.with(|current| current.get())
+impl Constraints {
+    fn new(constraints: Vec<Py<PyAny>>) -> PyResult<Self> {
+        let mut used = CONSTRAINT_SLOTS.lock().expect("Constraint slots mutex poisoned");
+        used.resize_with(MAX_CONSTRAINTS, || None);
+        let slots: Vec<usize> =
+            (0..used.len()).filter(|&i| used[i].is_none()).take(constraints.len()).collect();
+        if slots.len() < constraints.len() {
+            return Err(PyValueError::new_err(format!(
+                "Too many constraints! Maximum supported: {}, requested: {}",
+                MAX_CONSTRAINTS,
+                constraints.len()
+            )));
+        }
+        for (&slot, constraint) in slots.iter().zip(constraints) {
+            used[slot] = Some(Arc::new(constraint));
+        }
+        Ok(Self { slots })
+    }
 }
 
-// Helper function to evaluate all constraints for a given problem ID
-fn evaluate_constraints_for_id(problem_id: usize, x: &[f64]) -> Vec<f64> {
-    let registry = get_constraint_registry();
-    let registry_lock = registry.lock().expect("Constraint registry mutex poisoned");
-
-    if let Some(constraints) = registry_lock.get(&problem_id) {
-        Python::attach(|py| {
-            constraints
-                .iter()
-                .map(|constraint| {
-                    let args = (x.to_vec(),);
-                    constraint
-                        .call1(py, args)
-                        .expect("Failed to call constraint function")
-                        .extract::<f64>(py)
-                        .expect("Constraint function must return a float")
-                })
-                .collect()
-        })
-    } else {
-        Vec::new()
+impl Drop for Constraints {
+    fn drop(&mut self) {
+        let mut used = CONSTRAINT_SLOTS.lock().expect("Constraint slots mutex poisoned");
+        let released: Vec<_> = self.slots.iter().map(|&slot| used[slot].take()).collect();
+        drop(used);
+        drop(released); // May run Python code, so not under the lock
     }
 }
 
@@ -80,33 +78,18 @@ fn evaluate_constraints_for_id(problem_id: usize, x: &[f64]) -> Vec<f64> {
 const MAX_CONSTRAINTS: usize = 1000;
 
 seq!(N in 0..1000 {
-    #[allow(clippy::get_first)]
     fn constraint_fn_~N(x: &[f64], _user_data: &mut ()) -> f64 {
-        let problem_id = get_current_problem_id();
-        let constraints = evaluate_constraints_for_id(problem_id, x);
-        constraints.get(N).copied().unwrap_or(0.0)
+        evaluate_constraint(N, x)
     }
 });
 
-// Helper to get constraint function pointers dynamically
-fn get_constraint_functions(num_constraints: usize) -> Vec<fn(&[f64], &mut ()) -> f64> {
-    if num_constraints > MAX_CONSTRAINTS {
-        panic!(
-            "Too many constraints! Maximum supported: {}, requested: {}",
-            MAX_CONSTRAINTS, num_constraints
-        );
-    }
-
-    let mut functions = Vec::new();
-
-    seq!(N in 0..1000 {
-        if N < num_constraints {
-            functions.push(constraint_fn_~N as fn(&[f64], &mut ()) -> f64);
-        }
-    });
+type ConstraintFn = fn(&[f64], &mut ()) -> f64;
 
-    functions
-}
+seq!(N in 0..1000 {
+    static CONSTRAINT_FUNCTIONS: [ConstraintFn; MAX_CONSTRAINTS] = [
+        #(constraint_fn_~N,)*
+    ];
+});
 
 #[pyclass]
 #[derive(Debug, Clone)]
@@ -506,11 +489,8 @@ pub struct PyProblem {
     /// :raises ValueError: If any constraint function does not return a float
     constraints: Option<Py<pyo3::PyAny>>,
 
-    /// Unique ID for this problem instance (used for constraint management)
-    ///
-    /// :return: Unique problem ID (integer)
-    /// :rtype: int
-    problem_id: usize,
+    /// Function pointers for the constraints, while an optimization runs
+    registered_constraints: Option<Arc<Constraints>>,
 }
 
 impl Clone for PyProblem {
@@ -521,7 +501,7 @@ impl Clone for PyProblem {
             gradient: self.gradient.as_ref().map(|g| g.clone_ref(py)),
             hessian: self.hessian.as_ref().map(|h| h.clone_ref(py)),
             constraints: self.constraints.as_ref().map(|c| c.clone_ref(py)),
-            problem_id: self.problem_id,
+            registered_constraints: self.registered_constraints.clone(),
         })
     }
 }
@@ -543,12 +523,33 @@ impl PyProblem {
             gradient,
             hessian,
             constraints,
-            problem_id: get_next_problem_id(),
+            registered_constraints: None,
         }
     }
 }
 
 impl PyProblem {
+    /// Register the Python constraint functions for an optimization
+    fn register_constraints(&mut self, py: Python) -> PyResult<()> {
+        let Some(constraint_funcs) = &self.constraints else {
+            return Ok(());
+        };
+
+        // Extract individual constraint functions from the Python list/tuple
+        let constraint_list: Vec<Py<pyo3::PyAny>> =
+            if let Ok(list) = constraint_funcs.cast_bound::<pyo3::types::PyList>(py) {
+                list.iter().map(|item| item.unbind()).collect()
+            } else if let Ok(tuple) = constraint_funcs.cast_bound::<pyo3::types::PyTuple>(py) {
+                tuple.iter().map(|item| item.unbind()).collect()
+            } else {
+                // Single constraint function
+                vec![constraint_funcs.clone_ref(py)]
+            };
+
+        self.registered_constraints = Some(Arc::new(Constraints::new(constraint_list)?));
+        Ok(())
+    }
+
     /// Evaluate Python constraint functions at a given point
     pub fn evaluate_constraints(&self, x: &[f64]) -> Vec<f64> {
         if let Some(constraints_fn) = &self.constraints {
@@ -666,36 +667,9 @@ impl Problem for PyProblem {
     }
 
     fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
-        if let Some(constraint_funcs) = &self.constraints {
-            // Register Python constraints in the global registry
-            let registry = get_constraint_registry();
-            let mut registry_lock = registry.lock().unwrap();
-
-            Python::attach(|py| {
-                // Extract individual constraint functions from the Python list/tuple
-                let constraint_list: Vec<Py<pyo3::PyAny>> = if let Ok(list) =
-                    constraint_funcs.cast_bound::<pyo3::types::PyList>(py)
-                {
-                    list.iter().map(|item| item.unbind()).collect()
-                } else if let Ok(tuple) = constraint_funcs.cast_bound::<pyo3::types::PyTuple>(py) {
-                    tuple.iter().map(|item| item.unbind()).collect()
-                } else {
-                    // Single constraint function
-                    vec![constraint_funcs.clone_ref(py)]
-                };
-
-                let num_constraints = constraint_list.len();
-                registry_lock.insert(self.problem_id, constraint_list);
-                drop(registry_lock); // Release the lock
-
-                // Set the current problem ID for constraint evaluation
-                set_current_problem_id(self.problem_id);
-
-                // Return appropriate number of function pointers
-                get_constraint_functions(num_constraints)
-            })
-        } else {
-            Vec::new()
+        match &self.registered_constraints {
+            Some(c) => c.slots.iter().map(|&slot| CONSTRAINT_FUNCTIONS[slot]).collect(),
+            None => Vec::new(),
         }
     }
 }
@@ -792,7 +766,7 @@ impl Problem for PyProblem {
     with_points = None,
 ))]
 fn optimize(
-    problem: PyProblem,
+    mut problem: PyProblem,
     params: PyOQNLPParams,
     observer: Option<&PyObserver>,
     local_solver: Option<&str>,
@@ -900,6 +874,8 @@ fn optimize(
             local_solver_config,
         };
 
+        problem.register_constraints(py)?;
+
         let mut optimizer =
             OQNLP::new(problem, oqnlp_params).map_err(|e| PyValueError::new_err(e.to_string()))?;
 
-- 
2.43.0


From 13ab8edc71a1a52fe536a4bfecbbc1de5c4014ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:30 +0000
Subject: [PATCH 28/32] fix: wrong variable bounds of a Python problem are an
 exception instead of a panic

---
 python/src/lib.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 892aea4..48ab3c0 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -491,6 +491,9 @@ pub struct PyProblem {
 
     /// Function pointers for the constraints, while an optimization runs
     registered_constraints: Option<Arc<Constraints>>,
+
+    /// Variable bounds, while an optimization runs
+    bounds: Array2<f64>,
 }
 
 impl Clone for PyProblem {
@@ -502,6 +505,7 @@ impl Clone for PyProblem {
             hessian: self.hessian.as_ref().map(|h| h.clone_ref(py)),
             constraints: self.constraints.as_ref().map(|c| c.clone_ref(py)),
             registered_constraints: self.registered_constraints.clone(),
+            bounds: self.bounds.clone(),
         })
     }
 }
@@ -524,6 +528,7 @@ impl PyProblem {
             hessian,
             constraints,
             registered_constraints: None,
+            bounds: Array2::zeros((0, 2)),
         }
     }
 }
@@ -550,6 +555,18 @@ impl PyProblem {
         Ok(())
     }
 
+    /// Evaluate the Python bounds function for an optimization
+    fn evaluate_bounds(&mut self, py: Python) -> PyResult<()> {
+        let bounds = self.variable_bounds.call0(py)?.extract::<Vec<Vec<f64>>>(py)?;
+        if bounds.is_empty() || bounds.iter().any(|row| row.len() != 2) {
+            return Err(PyValueError::new_err(
+                "Variable bounds must be a 2D array of floats of shape (n_vars, 2)",
+            ));
+        }
+        self.bounds = Array2::from_shape_fn((bounds.len(), 2), |(i, j)| bounds[i][j]);
+        Ok(())
+    }
+
     /// Evaluate Python constraint functions at a given point
     pub fn evaluate_constraints(&self, x: &[f64]) -> Vec<f64> {
         if let Some(constraints_fn) = &self.constraints {
@@ -595,26 +612,7 @@ impl Problem for PyProblem {
     }
 
     fn variable_bounds(&self) -> Array2<f64> {
-        Python::attach(|py| {
-            let result = self
-                .variable_bounds
-                .call0(py)
-                .map_err(|e| EvaluationError::InvalidInput { reason: e.to_string() })
-                .and_then(|res: Py<PyAny>| {
-                    res.extract::<Vec<Vec<f64>>>(py)
-                        .map_err(|e| EvaluationError::InvalidInput { reason: e.to_string() })
-                });
-
-            match result {
-                Ok(bounds) => {
-                    let rows = bounds.len();
-                    let cols = if rows > 0 { bounds[0].len() } else { 0 };
-                    Array2::from_shape_vec((rows, cols), bounds.into_iter().flatten().collect())
-                        .unwrap()
-                }
-                Err(_) => panic!("Variable bounds must be a 2D array of floats"),
-            }
-        })
+        self.bounds.clone()
     }
 
     fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
@@ -874,6 +872,7 @@ fn optimize(
             local_solver_config,
         };
 
+        problem.evaluate_bounds(py)?;
         problem.register_constraints(py)?;
 
         let mut optimizer =
-- 
2.43.0


From 0a9b4fb7900077588a848cd8d0c18b100531302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:30 +0000
Subject: [PATCH 29/32] fix: gradients, hessians and points of the wrong shape
 in Python are errors

---
 python/src/lib.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 48ab3c0..062d75c 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -630,6 +630,12 @@ impl Problem for PyProblem {
                     .extract(py)
                     .map_err(|e: PyErr| EvaluationError::InvalidInput { reason: e.to_string() })?;
 
+                if grad_vec.len() != x.len() {
+                    return Err(EvaluationError::InvalidInput {
+                        reason: "Gradient length mismatch".to_string(),
+                    });
+                }
+
                 Ok(Array1::from(grad_vec))
             })
         } else {
@@ -652,12 +658,14 @@ impl Problem for PyProblem {
                     .extract(py)
                     .map_err(|e: PyErr| EvaluationError::InvalidInput { reason: e.to_string() })?;
 
-                let size = hess_vec.len();
-                let flat_hess: Vec<f64> = hess_vec.into_iter().flatten().collect();
+                let size = x.len();
+                if hess_vec.len() != size || hess_vec.iter().any(|row| row.len() != size) {
+                    return Err(EvaluationError::InvalidInput {
+                        reason: "Hessian shape mismatch".to_string(),
+                    });
+                }
 
-                Array2::from_shape_vec((size, size), flat_hess).map_err(|_| {
-                    EvaluationError::InvalidInput { reason: "Hessian shape mismatch".to_string() }
-                })
+                Ok(Array2::from_shape_fn((size, size), |(i, j)| hess_vec[i][j]))
             })
         } else {
             Err(EvaluationError::HessianNotImplemented)
@@ -882,9 +890,12 @@ fn optimize(
         if let Some(points) = with_points {
             let rows = points.len();
             let cols = if rows > 0 { points[0].len() } else { 0 };
-            let flat_points: Vec<f64> = points.into_iter().flatten().collect();
-            let points_array = Array2::from_shape_vec((rows, cols), flat_points)
-                .map_err(|e| PyValueError::new_err(format!("Invalid points array shape: {}", e)))?;
+            if points.iter().any(|point| point.len() != cols) {
+                return Err(PyValueError::new_err(
+                    "Invalid points array shape: points of different dimensions",
+                ));
+            }
+            let points_array = Array2::from_shape_fn((rows, cols), |(i, j)| points[i][j]);
             optimizer = optimizer
                 .with_points(points_array)
                 .map_err(|e| PyValueError::new_err(e.to_string()))?;
-- 
2.43.0


From fbcd4ac47fb126ac1fccafd700c0e931939a4ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:14 +0000
Subject: [PATCH 30/32] fix: a Python objective that itself optimizes no longer
 deadlocks

The lock held during each call of the objective was not needed next to the GIL.
---
 python/src/lib.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 062d75c..c4cdc5f 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -18,13 +18,6 @@ use std::sync::{Arc, Mutex};
 // Python constraint functions in use, by the number of the function pointer that calls them
 static CONSTRAINT_SLOTS: Mutex<Vec<Option<Arc<Py<PyAny>>>>> = Mutex::new(Vec::new());
 
-// Global mutex to serialize Python calls from parallel threads
-static PYTHON_CALL_MUTEX: std::sync::OnceLock<Mutex<()>> = std::sync::OnceLock::new();
-
-fn get_python_call_mutex() -> &'static Mutex<()> {
-    PYTHON_CALL_MUTEX.get_or_init(|| Mutex::new(()))
-}
-
 // Helper function to evaluate the constraint in a slot. Python code never runs under the lock. A
 // constraint that raises an exception, or does not return a float, is not satisfied.
 fn evaluate_constraint(slot: usize, x: &[f64]) -> f64 {
@@ -594,8 +587,6 @@ impl PyProblem {
 
 impl Problem for PyProblem {
     fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
-        // Serialize Python calls from parallel threads to avoid GIL deadlocks
-        let _guard = get_python_call_mutex().lock().unwrap();
         Python::attach(|py| {
             let x_py = x
                 .to_vec()
@@ -904,8 +895,8 @@ fn optimize(
         let parallel_enabled = parallel.unwrap_or(false);
 
         // For Python problems with parallel processing, we need special GIL handling
-        // When parallel=True, we allow threads during parallel computation but ensure
-        // Python calls are serialized with the mutex
+        // When parallel=True, we allow threads during parallel computation. Python calls
+        // are serialized by the GIL
         let should_detach_gil = !parallel_enabled;
 
         // Add observer if provided
-- 
2.43.0


From e77569506aeeb3ced49adbd6dd7f1959ba7a9ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 31/32] fix: Python builder functions accept the defaults
 documented for them

---
 python/src/builders.rs | 140 +++++++++++++++++++++++------------------
 1 file changed, 79 insertions(+), 61 deletions(-)

diff --git a/python/src/builders.rs b/python/src/builders.rs
index f5eeaf3..27724e0 100644
--- a/python/src/builders.rs
+++ b/python/src/builders.rs
@@ -110,9 +110,15 @@ impl PyHagerZhang {
 }
 
 #[pyfunction]
-#[pyo3(
-    text_signature = "(delta: f64, sigma: f64, epsilon: f64, theta: f64, gamma: f64, eta: f64, bounds: List[float])"
-)]
+#[pyo3(signature = (
+    delta = 0.1,
+    sigma = 0.9,
+    epsilon = 1e-6,
+    theta = 0.5,
+    gamma = 0.66,
+    eta = 0.01,
+    bounds = vec![f64::EPSILON.sqrt(), f64::INFINITY],
+))]
 fn hagerzhang(
     delta: f64,
     sigma: f64,
@@ -163,7 +169,12 @@ impl PyMoreThuente {
 }
 
 #[pyfunction]
-#[pyo3(text_signature = "(c1: f64, c2: f64, width_tolerance: f64, bounds: List[float])")]
+#[pyo3(signature = (
+    c1 = 1e-4,
+    c2 = 0.9,
+    width_tolerance = 1e-10,
+    bounds = vec![f64::EPSILON.sqrt(), f64::INFINITY],
+))]
 fn morethuente(c1: f64, c2: f64, width_tolerance: f64, bounds: Vec<f64>) -> PyMoreThuente {
     PyMoreThuente { c1, c2, width_tolerance, bounds }
 }
@@ -215,6 +226,33 @@ impl PyLineSearchParams {
     }
 }
 
+// The line search given to a builder function, More-Thuente by default
+fn extract_line_search(
+    line_search_params: Option<Py<pyo3::PyAny>>,
+    py: Python,
+) -> PyResult<PyLineSearchParams> {
+    let Some(line_search_params) = line_search_params else {
+        return Ok(PyLineSearchParams {
+            method: PyLineSearchMethod::MoreThuente(PyMoreThuente {
+                c1: 1e-4,
+                c2: 0.9,
+                width_tolerance: 1e-10,
+                bounds: vec![f64::EPSILON.sqrt(), f64::INFINITY],
+            }),
+        });
+    };
+
+    if let Ok(params) = line_search_params.extract::<PyLineSearchParams>(py) {
+        Ok(params)
+    } else if let Ok(more_thuente) = line_search_params.extract::<PyMoreThuente>(py) {
+        Ok(PyLineSearchParams { method: PyLineSearchMethod::MoreThuente(more_thuente) })
+    } else if let Ok(hager_zhang) = line_search_params.extract::<PyHagerZhang>(py) {
+        Ok(PyLineSearchParams { method: PyLineSearchMethod::HagerZhang(hager_zhang) })
+    } else {
+        Err(PyTypeError::new_err("Expected PyLineSearchParams, PyMoreThuente, or PyHagerZhang"))
+    }
+}
+
 #[pyclass]
 #[derive(Debug, Clone)]
 /// L-BFGS (Limited-memory Broyden-Fletcher-Goldfarb-Shanno) solver configuration.
@@ -390,37 +428,23 @@ impl PyLBFGS {
 
 #[pyfunction]
 #[pyo3(signature = (
-    max_iter,
-    tolerance_grad,
-    tolerance_cost,
-    history_size,
-    line_search_params,
+    max_iter = 300,
+    tolerance_grad = f64::EPSILON.sqrt(),
+    tolerance_cost = f64::EPSILON,
+    history_size = 10,
+    line_search_params = None,
     l1_coefficient = None,
 ))]
-#[pyo3(
-    text_signature = "(max_iter: u64, tolerance_grad: f64, tolerance_cost: f64, history_size: usize, line_search_params: Union[PyMoreThuente, PyHagerZhang], l1_coefficient: Optional[float] = None)"
-)]
 fn lbfgs(
     max_iter: u64,
     tolerance_grad: f64,
     tolerance_cost: f64,
     history_size: usize,
-    line_search_params: Py<pyo3::PyAny>,
+    line_search_params: Option<Py<pyo3::PyAny>>,
     l1_coefficient: Option<f64>,
     py: Python,
 ) -> PyResult<PyLBFGS> {
-    let line_search_params =
-        if let Ok(params) = line_search_params.extract::<PyLineSearchParams>(py) {
-            params
-        } else if let Ok(more_thuente) = line_search_params.extract::<PyMoreThuente>(py) {
-            PyLineSearchParams { method: PyLineSearchMethod::MoreThuente(more_thuente) }
-        } else if let Ok(hager_zhang) = line_search_params.extract::<PyHagerZhang>(py) {
-            PyLineSearchParams { method: PyLineSearchMethod::HagerZhang(hager_zhang) }
-        } else {
-            return Err(PyTypeError::new_err(
-                "Expected PyLineSearchParams, PyMoreThuente, or PyHagerZhang",
-            ));
-        };
+    let line_search_params = extract_line_search(line_search_params, py)?;
 
     Ok(PyLBFGS {
         max_iter,
@@ -514,9 +538,15 @@ impl PyNelderMead {
 }
 
 #[pyfunction]
-#[pyo3(
-    text_signature = "(simplex_delta: f64, sd_tolerance: f64, max_iter: u64, alpha: f64, gamma: f64, rho: f64, sigma: f64)"
-)]
+#[pyo3(signature = (
+    simplex_delta = 0.1,
+    sd_tolerance = f64::EPSILON,
+    max_iter = 300,
+    alpha = 1.0,
+    gamma = 2.0,
+    rho = 0.5,
+    sigma = 0.5,
+))]
 fn neldermead(
     simplex_delta: f64,
     sd_tolerance: f64,
@@ -589,24 +619,16 @@ impl PySteepestDescent {
 }
 
 #[pyfunction]
-#[pyo3(text_signature = "(max_iter: u64, line_search_params: Union[PyMoreThuente, PyHagerZhang])")]
+#[pyo3(signature = (
+    max_iter = 300,
+    line_search_params = None,
+))]
 fn steepestdescent(
     max_iter: u64,
-    line_search_params: Py<pyo3::PyAny>,
+    line_search_params: Option<Py<pyo3::PyAny>>,
     py: Python,
 ) -> PyResult<PySteepestDescent> {
-    let line_search_params =
-        if let Ok(params) = line_search_params.extract::<PyLineSearchParams>(py) {
-            params
-        } else if let Ok(more_thuente) = line_search_params.extract::<PyMoreThuente>(py) {
-            PyLineSearchParams { method: PyLineSearchMethod::MoreThuente(more_thuente) }
-        } else if let Ok(hager_zhang) = line_search_params.extract::<PyHagerZhang>(py) {
-            PyLineSearchParams { method: PyLineSearchMethod::HagerZhang(hager_zhang) }
-        } else {
-            return Err(PyTypeError::new_err(
-                "Expected PyLineSearchParams, PyMoreThuente, or PyHagerZhang",
-            ));
-        };
+    let line_search_params = extract_line_search(line_search_params, py)?;
 
     Ok(PySteepestDescent { max_iter, line_search_params })
 }
@@ -693,28 +715,20 @@ impl PyNewtonCG {
 }
 
 #[pyfunction]
-#[pyo3(
-    text_signature = "(max_iter: u64, curvature_threshold: f64, tolerance: f64, line_search_params: Union[PyMoreThuente, PyHagerZhang])"
-)]
+#[pyo3(signature = (
+    max_iter = 300,
+    curvature_threshold = 0.0,
+    tolerance = f64::EPSILON,
+    line_search_params = None,
+))]
 fn newtoncg(
     max_iter: u64,
     curvature_threshold: f64,
     tolerance: f64,
-    line_search_params: Py<pyo3::PyAny>,
+    line_search_params: Option<Py<pyo3::PyAny>>,
     py: Python,
 ) -> PyResult<PyNewtonCG> {
-    let line_search_params =
-        if let Ok(params) = line_search_params.extract::<PyLineSearchParams>(py) {
-            params
-        } else if let Ok(more_thuente) = line_search_params.extract::<PyMoreThuente>(py) {
-            PyLineSearchParams { method: PyLineSearchMethod::MoreThuente(more_thuente) }
-        } else if let Ok(hager_zhang) = line_search_params.extract::<PyHagerZhang>(py) {
-            PyLineSearchParams { method: PyLineSearchMethod::HagerZhang(hager_zhang) }
-        } else {
-            return Err(PyTypeError::new_err(
-                "Expected PyLineSearchParams, PyMoreThuente, or PyHagerZhang",
-            ));
-        };
+    let line_search_params = extract_line_search(line_search_params, py)?;
 
     Ok(PyNewtonCG { max_iter, curvature_threshold, tolerance, line_search_params })
 }
@@ -816,9 +830,13 @@ impl PyTrustRegion {
 }
 
 #[pyfunction]
-#[pyo3(
-    text_signature = "(trust_region_radius_method: PyTrustRegionRadiusMethod, max_iter: u64, radius: f64, max_radius: f64, eta: f64)"
-)]
+#[pyo3(signature = (
+    trust_region_radius_method = PyTrustRegionRadiusMethod::Cauchy,
+    max_iter = 300,
+    radius = 1.0,
+    max_radius = 100.0,
+    eta = 0.125,
+))]
 fn trustregion(
     trust_region_radius_method: PyTrustRegionRadiusMethod,
     max_iter: u64,
-- 
2.43.0


From dcecde42eddc205a0bad7d14764521db022c950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:29 +0000
Subject: [PATCH 32/32] fix: the last callback given to a Python observer is
 the one used

---
 python/src/observers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/observers.rs b/python/src/observers.rs
index 2b48701..2552e11 100644
--- a/python/src/observers.rs
+++ b/python/src/observers.rs
@@ -429,6 +429,7 @@ impl PyObserver {
     fn with_default_callback(&mut self) -> PyResult<()> {
         let mut inner = self.inner.write().expect("RwLock poisoned");
         *inner = inner.clone().with_default_callback();
+        self.python_callback = None;
         Ok(())
     }
 
@@ -438,6 +439,7 @@ impl PyObserver {
     fn with_stage1_callback(&mut self) -> PyResult<()> {
         let mut inner = self.inner.write().expect("RwLock poisoned");
         *inner = inner.clone().with_stage1_callback();
+        self.python_callback = None;
         Ok(())
     }
 
@@ -448,6 +450,7 @@ impl PyObserver {
     fn with_stage2_callback(&mut self) -> PyResult<()> {
         let mut inner = self.inner.write().expect("RwLock poisoned");
         *inner = inner.clone().with_stage2_callback();
+        self.python_callback = None;
         Ok(())
     }
 
-- 
2.43.0

