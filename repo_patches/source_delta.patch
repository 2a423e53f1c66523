From b2574f1e0816ab15ad755ce9cb7fd132bae7d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 01/21] fix: limited-fleet split loses customers when no
 partition respects the load factor

---
 src/solver/genetic/split.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/split.rs b/src/solver/genetic/split.rs
index ce64233..48e5f94 100644
--- a/src/solver/genetic/split.rs
+++ b/src/solver/genetic/split.rs
@@ -292,6 +292,23 @@ impl Split {
         num_vehicles <= max_vehicles
     }
 
+    // Minimum number of routes without exceeding `max_load` on any of them
+    fn min_routes(&self, max_load: f64) -> usize {
+        let mut num_routes = 1;
+        let mut load = 0.0;
+        for node in self.nodes.iter().skip(1) {
+            if node.demand > max_load {
+                return usize::MAX;
+            }
+            if load + node.demand > max_load {
+                num_routes += 1;
+                load = 0.0;
+            }
+            load += node.demand;
+        }
+        num_routes
+    }
+
     pub fn split_limited_fleet(
         &mut self,
         ctx: &Context,
@@ -301,7 +318,11 @@ impl Split {
         self.reset(true);
         let dim = ctx.problem.dim();
         let cap = ctx.problem.vehicle.cap;
-        let capacity_factor = ctx.config.borrow().split_capacity_factor;
+        let mut capacity_factor = ctx.config.borrow().split_capacity_factor;
+        // No partition has few enough routes within the load factor: allow any load
+        if self.min_routes(cap * capacity_factor) > max_vehicles {
+            capacity_factor = f64::INFINITY;
+        }
 
         if ctx.config.borrow().linear_split {
             let mut queue: MyVecDeque<usize> = MyVecDeque::new(ctx.problem.dim());
-- 
2.43.0


From 91766a67ab26a13e467739540f0d9ebf23b4b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 02/21] fix: depot moves of the local search never try the
 position after the depot

---
 src/solver/improvement/local_search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index 5085db1..61c3a11 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -199,10 +199,10 @@ impl LocalSearch {
                         let v_pred = (*v).predecessor;
                         if (*v_pred).is_depot() {
                             for m in moves.depot.iter() {
-                                let delta = m.delta(&self, u, v);
+                                let delta = m.delta(&self, u, v_pred);
                                 if delta.approx_lt(0.0) {
                                     self.move_count += 1;
-                                    m.perform(self, u, v);
+                                    m.perform(self, u, v_pred);
                                     route_u = (*u).route;
                                     improvement = true;
                                     continue 'v_loop;
-- 
2.43.0


From ab898e7ffbe969183fec8f07173bc97ab0181e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 03/21] fix: local search never tries empty routes when SWAP*
 is disabled

---
 src/solver/improvement/local_search.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index 61c3a11..8981c92 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -259,8 +259,8 @@ impl LocalSearch {
                         }
                     }
                 }
-                loop_count += 1;
             }
+            loop_count += 1;
         }
     }
 
-- 
2.43.0


From 3dc26eafff9e0849b3defd8b649b2ffc71ddfad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 04/21] fix: a reset time schedule stays cold and completed

---
 src/solver/improvement/ruin_recreate/schedule.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/improvement/ruin_recreate/schedule.rs b/src/solver/improvement/ruin_recreate/schedule.rs
index 8dbc737..8b03a5f 100644
--- a/src/solver/improvement/ruin_recreate/schedule.rs
+++ b/src/solver/improvement/ruin_recreate/schedule.rs
@@ -158,6 +158,8 @@ impl Acceptance for TimeSchedule {
         self.start = Instant::now();
         self.iterations = 0;
         self.iterations_since_update = 0;
+        self.temp = self.start_temp;
+        self.completed = false;
     }
 
     fn print(&self) {
-- 
2.43.0


From 99d1c7c080f957d37a7359312ffcc47034125d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 05/21] fix: ruin and recreate compares its first candidate
 with an outdated cost

---
 src/solver/improvement/ruin_recreate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 2368413..15e3770 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -176,9 +176,9 @@ impl RuinRecreate {
 
         // Load solution
         self.solution.load(individual);
-        self.current_solution = self.solution.clone();
         let routes: Vec<usize> = (0..self.solution.routes.len()).into_iter().collect();
         self.solution.evaluate(self.ctx, routes.iter());
+        self.current_solution = self.solution.clone();
         self.acceptance.reset();
         // self.acceptance.print();
 
-- 
2.43.0


From 589e78c22a50724cba9b2746a12730557a9b5f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 06/21] fix: a circle sector starting at angle zero forgets it

---
 src/models/circle_sector.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/models/circle_sector.rs b/src/models/circle_sector.rs
index fcbd570..f729e5a 100644
--- a/src/models/circle_sector.rs
+++ b/src/models/circle_sector.rs
@@ -6,25 +6,33 @@ const MAX_ANGLE: i32 = 65536;
 pub struct CircleSector {
     pub start: i32,
     pub end: i32,
+    // No angle has been added yet
+    pub empty: bool,
 }
 
 impl CircleSector {
     pub fn new() -> Self {
-        Self { start: 0, end: 0 }
+        Self {
+            start: 0,
+            end: 0,
+            empty: true,
+        }
     }
 
     pub fn reset(&mut self) {
         self.start = 0;
         self.end = 0;
+        self.empty = true;
     }
 
     pub fn from_angle(&mut self, angle: i32) {
         self.start = angle;
         self.end = angle;
+        self.empty = false;
     }
 
     pub fn extend(&mut self, angle: i32) {
-        if self.start == 0 && self.end == 0 {
+        if self.empty {
             self.from_angle(angle);
         } else {
             if !self.is_enclosed(angle) {
-- 
2.43.0


From d803d2da40f1fad3aa4eb41b3c0b3d065f8a9335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 07/21] fix: broken pairs distance never counts depot
 neighbours

---
 src/solver/genetic/individual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/genetic/individual.rs b/src/solver/genetic/individual.rs
index 481d778..634d6ba 100644
--- a/src/solver/genetic/individual.rs
+++ b/src/solver/genetic/individual.rs
@@ -115,7 +115,7 @@ impl Individual {
             // If the predecessor of self is a depot, but neither the predecessor or successor of the other is a depot
             if self.predecessor(index) == 0
                 && other.predecessor(index) != 0
-                && other.successor(0) != 0
+                && other.successor(index) != 0
             {
                 distance += 1;
             }
-- 
2.43.0


From ec0179130c7f392807c1a9faf15886df2b353889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 08/21] fix: empty matrices allocate zero bytes, which is
 undefined

---
 src/models/matrix.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/models/matrix.rs b/src/models/matrix.rs
index 0a0e797..cb20a87 100644
--- a/src/models/matrix.rs
+++ b/src/models/matrix.rs
@@ -26,9 +26,11 @@ impl<T: Copy> Matrix<T> {
         // Allocate memory for the matrix
         let elements = rows * cols;
         let layout = Layout::array::<T>(elements).expect("Failed to create layout for matrix");
-        let ptr = unsafe {
-            let ptr = alloc_zeroed(layout) as *mut T;
-            ptr
+        // An empty matrix (lazy distances) needs no memory, and allocating zero bytes is undefined
+        let ptr = if layout.size() == 0 {
+            std::ptr::NonNull::dangling().as_ptr()
+        } else {
+            unsafe { alloc_zeroed(layout) as *mut T }
         };
 
         Self { rows, cols, ptr }
@@ -123,7 +125,9 @@ where
     fn drop(&mut self) {
         let layout =
             Layout::array::<T>(self.rows * self.cols).expect("Failed to create layout for matrix");
-        unsafe { dealloc(self.ptr as *mut u8, layout) };
+        if layout.size() > 0 {
+            unsafe { dealloc(self.ptr as *mut u8, layout) };
+        }
     }
 }
 
-- 
2.43.0


From 78400c0d511199ce7d40740cfd51fe3aec739edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:13 +0000
Subject: [PATCH 09/21] fix: local search granularity exceeds the neighbour
 lists of small instances

---
 src/solver/improvement/local_search.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index 8981c92..e2e3c86 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -80,7 +80,9 @@ impl LocalSearch {
                     num_vehicles,
                     ctx.problem.dim(),
                 ),
-                granularity: ctx.config.borrow().local_search_granularity as usize,
+                // Small instances have fewer neighbours than the configured granularity
+                granularity: (ctx.config.borrow().local_search_granularity as usize)
+                    .min(ctx.matrix_provider.correlation.get(0).len()),
                 correlation: ctx.matrix_provider.correlation.clone(),
                 routes: routes,
                 move_count: 0,
-- 
2.43.0


From dcff1d42fd536da8782cf931ac857729cf8fb367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:24 +0000
Subject: [PATCH 10/21] fix: ruin and recreate iterates over routes in an
 unseeded random order

---
 src/solver/improvement/ruin_recreate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 15e3770..1dcf53b 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -40,7 +40,7 @@ impl RuinRecreateSolution {
         Self {
             routes,
             unassigned,
-            ruined_routes: HashSet::with_hasher(RandomState::new()),
+            ruined_routes: HashSet::with_hasher(ctx.random.random_state()),
             locations,
             cost: f64::INFINITY,
         }
-- 
2.43.0


From 64452606f4641664f01d825500cf9b6c18c1d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:24 +0000
Subject: [PATCH 11/21] fix: the largest seeds overflow when seeding hashers

---
 src/utils/random.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/random.rs b/src/utils/random.rs
index 6bfdce7..8366a5b 100644
--- a/src/utils/random.rs
+++ b/src/utils/random.rs
@@ -60,7 +60,12 @@ impl Random {
 
     pub fn random_state(&self) -> RandomState {
         if let Some(seed) = self.seed {
-            RandomState::with_seeds(seed, seed + 123, seed + 321, seed + 1337)
+            RandomState::with_seeds(
+                seed,
+                seed.wrapping_add(123),
+                seed.wrapping_add(321),
+                seed.wrapping_add(1337),
+            )
         } else {
             RandomState::new()
         }
-- 
2.43.0


From f4d24c6ac93467062bd217129ff4fc3fc9d1e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:01 +0000
Subject: [PATCH 12/21] fix: best solution of the genetic algorithm misses
 those recorded by ruin and recreate

---
 src/solver/genetic/genetic.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index ddfd35c..1b1bd78 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -261,6 +261,23 @@ impl GeneticAlgorithm {
                 search_history.add(ctx, &self.child);
             }
         }
+        self.update_best_solution(ctx);
+    }
+
+    // Ruin and recreate records its improvements in the search history on its own
+    fn update_best_solution(&mut self, ctx: &Context) {
+        let search_history = ctx.search_history.borrow();
+        if let Some(entry) = search_history.last_entry() {
+            let outdated = self.best_solution.as_ref().map_or(true, |best| {
+                entry.solution.cost.approx_lt(best.penalized_cost())
+            });
+            if outdated {
+                let mut best = Individual::new(entry.solution.routes.concat(), 0);
+                best.phenotype = entry.solution.routes.clone();
+                best.evaluate(ctx);
+                self.best_solution = Some(best);
+            }
+        }
     }
 
     fn reset(&mut self, ctx: &Context) {
-- 
2.43.0


From df4d9323e3668bfa6cb9aa837b724f6ae2963c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 13/21] fix: elite individual enters the population with its
 cost under a stale penalty

---
 src/solver/genetic/genetic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index 1b1bd78..8c37a82 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -341,12 +341,13 @@ impl Metaheuristic for GeneticAlgorithm {
                     self.rr.search();
                 } else {
                     self.state = State::Initialization;
+                    // The individual is evaluated under the penalty the population starts with
+                    ctx.reset_penalty();
                     self.rr.get_best_solution(&mut self.child);
                     self.update_best(ctx);
                     self.population
                         .add_individual(ctx, self.child.clone(), false);
                     self.rr.setup_mutation(ctx);
-                    ctx.reset_penalty();
                     self.log(ctx);
                 }
             }
-- 
2.43.0


From 3b92be77f384f5419abd3514f349ad15b363a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 14/21] fix: returning a subsolution changes the number of
 routes of the global solution

---
 src/solver/genetic/decomposition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 78e886c..4605272 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -178,6 +178,12 @@ impl<'a> Decomposition<'a> {
         }
         self.global.genotype = self.global.phenotype.iter().flatten().copied().collect();
         self.global.sort_routes(ctx);
+
+        // One route per vehicle, the empty routes are last
+        let num_routes = ctx.config.borrow().num_vehicles as usize;
+        let num_routes = num_routes.max(self.global.num_nonempty_routes());
+        self.global.phenotype.resize(num_routes, Vec::new());
+
         self.global.evaluate(ctx);
     }
 
-- 
2.43.0


From 065d03a279ba4f5b949def455134ecb92fdee412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 15/21] fix: decomposition fails when its subproblem has no
 feasible solution

---
 src/solver/genetic/decomposition.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 4605272..3b06ced 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -163,7 +163,13 @@ impl<'a> Decomposition<'a> {
             sub_ga.iterate(&self.ctx);
         }
 
-        self.solution = sub_ga.best_solution.unwrap();
+        // Keep the current solution if nothing feasible is found or the fleet is exceeded
+        if let Some(best) = sub_ga.best_solution {
+            let num_routes = self.global.num_nonempty_routes() + best.num_nonempty_routes();
+            if num_routes <= self.ctx.config.borrow().num_vehicles as usize {
+                self.solution = best;
+            }
+        }
     }
 
     pub fn finish(self, ctx: &Context) {
-- 
2.43.0


From 99f801d820c2b1ec6987a647a1863729e8018d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 16/21] fix: command line defaults override the configuration
 file

---
 src/cli.rs    |  9 ++++-----
 src/config.rs | 10 +++++++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 3c47c90..98e60ad 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -6,7 +6,7 @@ pub struct Args {
     pub solution_path: Option<String>,
     pub time_limit: Option<u64>,
     pub max_iterations: Option<u64>,
-    pub rounded: bool,
+    pub rounded: Option<bool>,
 }
 
 impl Args {
@@ -25,7 +25,6 @@ impl Args {
                 Arg::with_name("solution_path")
                     .short("o")
                     .takes_value(true)
-                    .default_value("output.sol")
                     .help("Path to solution output"),
             )
             .arg(
@@ -38,14 +37,12 @@ impl Args {
                 Arg::with_name("time_limit")
                     .short("t")
                     .takes_value(true)
-                    .default_value("10")
                     .help("Time limit in seconds"),
             )
             .arg(
                 Arg::with_name("rounded")
                     .short("r")
                     .takes_value(true)
-                    .default_value("true")
                     .help("Rounded distances"),
             )
             .get_matches();
@@ -65,7 +62,9 @@ impl Args {
             .value_of("time_limit")
             .map(|value| value.parse::<u64>().expect("Invalid time limit argument!"));
 
-        let rounded = matches.is_present("rounded");
+        let rounded = matches
+            .value_of("rounded")
+            .map(|value| value.parse::<bool>().expect("Invalid rounded argument!"));
 
         Self {
             instance_path,
diff --git a/src/config.rs b/src/config.rs
index b1a5ef6..7e92351 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -90,7 +90,7 @@ impl Config {
         Self {
             // General
             instance_path: String::new(),
-            solution_path: None,
+            solution_path: Some(String::from("output.sol")),
             time_limit: 60,
             bks: f64::INFINITY,
             max_iterations: None,
@@ -213,13 +213,17 @@ impl Config {
     /// Update config with command line arguments
     pub fn update_from_args(&mut self, args: &Args) {
         self.instance_path = args.instance_path.clone();
-        self.solution_path = args.solution_path.clone();
+        if let Some(solution_path) = &args.solution_path {
+            self.solution_path = Some(solution_path.clone());
+        }
         if let Some(max_iterations) = args.max_iterations {
             self.max_iterations_without_improvement = max_iterations;
         }
         if let Some(time_limit) = args.time_limit {
             self.time_limit = time_limit;
         }
-        self.round_distances = args.rounded;
+        if let Some(rounded) = args.rounded {
+            self.round_distances = rounded;
+        }
     }
 }
-- 
2.43.0


From c45c6f847fa1d1b5f6a058d81ee372b109af2e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:08 +0000
Subject: [PATCH 17/21] hook: few iterations of the decomposed search under cfg
 hybridcvrp_verif

---
 src/solver/genetic/decomposition.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 3b06ced..65a6f69 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -11,6 +11,16 @@ use crate::{
     utils::FloatCompare,
 };
 
+// Iterations of the search on the whole and on the decomposed problem, few where the code is verified
+#[cfg(not(hybridcvrp_verif))]
+const GLOBAL_ITERATIONS: usize = 100_000;
+#[cfg(hybridcvrp_verif)]
+const GLOBAL_ITERATIONS: usize = 2;
+#[cfg(not(hybridcvrp_verif))]
+const SUB_ITERATIONS: u64 = 2000;
+#[cfg(hybridcvrp_verif)]
+const SUB_ITERATIONS: u64 = 3;
+
 #[derive(PartialEq)]
 enum State {
     NotInitialized,
@@ -44,7 +54,7 @@ impl DecomposedGeneticAlgorithm {
         self.global_ga.educate(ctx);
         self.global_ga
             .rr
-            .set_acceptance(IterationSchedule::new(10.0, 100_000).into());
+            .set_acceptance(IterationSchedule::new(10.0, GLOBAL_ITERATIONS).into());
         log::info!("Searching in global");
         let rr = &mut self.global_ga.rr;
         rr.load(ctx, &mut self.global_ga.child);
@@ -152,7 +162,7 @@ impl<'a> Decomposition<'a> {
         {
             let mut config = self.ctx.config.borrow_mut();
             config.elite_education = false;
-            config.max_iterations = Some(2000);
+            config.max_iterations = Some(SUB_ITERATIONS);
             println!("{:?}", config);
         }
 
-- 
2.43.0


From f42a60549a1ce55d2c9ffef8a6eb167bc748fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:17 +0000
Subject: [PATCH 18/21] hook: the global solution can be seen under cfg
 hybridcvrp_verif

---
 src/solver/genetic/decomposition.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 65a6f69..6431de1 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -43,6 +43,11 @@ impl DecomposedGeneticAlgorithm {
         }
     }
 
+    #[cfg(hybridcvrp_verif)]
+    pub fn global_solution(&self) -> &Individual {
+        &self.global_solution
+    }
+
     fn create_global_solution(&mut self, ctx: &Context) -> Individual {
         log::info!("Creating global solution");
         let max_routes = ctx.config.borrow().num_vehicles;
-- 
2.43.0


From 0c192f6effbe60cc39af68f6710624a40c173a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:58 +0000
Subject: [PATCH 19/21] fix: the decomposed search ignores the limit of
 iterations

---
 src/solver/genetic/decomposition.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 6431de1..72bca24 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -93,6 +93,8 @@ impl Metaheuristic for DecomposedGeneticAlgorithm {
                 self.state = State::Cycle;
             }
             State::Cycle => {
+                ctx.next_iteration();
+
                 // panic!("{:?}", self.global_solution);
                 // println!("{:?}", self.global_solution);
                 // self.global_solution.print();
-- 
2.43.0


From 117dcbc18140c9d787e0af5b0a7b712461cc77a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:01 +0000
Subject: [PATCH 20/21] fix: instances with a single customer panic or never
 end

---
 src/solver/genetic/genetic.rs          | 4 ++--
 src/solver/improvement/local_search.rs | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index 8c37a82..58505f1 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -68,11 +68,11 @@ impl GeneticAlgorithm {
         // Randomly select start of the crossover zone
         let start = ctx.random.range_usize(0, parent_one.genotype.len());
 
-        // Randomly select end of the crossover zone different from the start
+        // Randomly select end of the crossover zone different from the start (if there is a choice)
         let mut end;
         loop {
             end = ctx.random.range_usize(0, parent_one.genotype.len());
-            if start != end {
+            if start != end || parent_one.genotype.len() == 1 {
                 break;
             }
         }
diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index e2e3c86..2edb401 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -162,7 +162,9 @@ impl LocalSearch {
                 let cor = &mut *{
                     self.correlation.top_slice_mut(*u_index, self.granularity) as *mut [usize]
                 };
-                if self.ctx.random.range_usize(0, self.granularity) == 0 {
+                if self.granularity > 0
+                    && self.ctx.random.range_usize(0, self.granularity) == 0
+                {
                     self.ctx
                         .random
                         .shuffle(self.correlation.top_slice_mut(*u_index, self.granularity));
-- 
2.43.0


From 7ac19977a4e9b0ac235d9615bfc7497fbf102b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:00 +0000
Subject: [PATCH 21/21] fix: the rounding of high penalties makes the local
 search repeat moves forever

---
 src/solver/improvement/local_search.rs    | 16 +++++++++++++---
 src/solver/improvement/moves/swap_star.rs |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index 2edb401..8a23a38 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -12,6 +12,9 @@ use crate::solver::improvement::{InsertLocation, LinkNode, LinkRoute, ThreeBestI
 use crate::solver::Context;
 use crate::utils::FloatCompare;
 
+// Bound on the rounding error of the penalties, relative to the penalised load
+const MAX_RELATIVE_ERROR: f64 = 1e-13;
+
 pub struct LocalSearch {
     pub ctx: &'static Context,
 
@@ -148,6 +151,13 @@ impl LocalSearch {
         self.update_individual(individual);
     }
 
+    /// The change in cost a move has to stay below to be an improvement of the two routes. With
+    /// high penalties their rounding errors exceed the tolerance of the comparisons, and moves
+    /// without any effect on the cost would be repeated forever.
+    pub fn improvement_limit(&self, r1: &LinkRoute, r2: &LinkRoute) -> f64 {
+        -MAX_RELATIVE_ERROR * self.penalty_capacity * (r1.load + r2.load)
+    }
+
     unsafe fn search(&mut self) {
         let mut loop_count = 0;
         let mut improvement = true;
@@ -189,7 +199,7 @@ impl LocalSearch {
                         // First, all the moves for the pair of customers are attempted
                         for m in moves.neighbor.iter() {
                             let delta = m.delta(&self, u, v);
-                            if delta.approx_lt(0.0) {
+                            if delta.approx_lt(self.improvement_limit(&*route_u, &*route_v)) {
                                 self.move_count += 1;
                                 m.perform(self, u, v);
                                 route_u = (*u).route;
@@ -204,7 +214,7 @@ impl LocalSearch {
                         if (*v_pred).is_depot() {
                             for m in moves.depot.iter() {
                                 let delta = m.delta(&self, u, v_pred);
-                                if delta.approx_lt(0.0) {
+                                if delta.approx_lt(self.improvement_limit(&*route_u, &*route_v)) {
                                     self.move_count += 1;
                                     m.perform(self, u, v_pred);
                                     route_u = (*u).route;
@@ -227,7 +237,7 @@ impl LocalSearch {
                     let v = (*route_v).start_depot;
                     for m in moves.empty_route.iter() {
                         let delta = m.delta(&self, u, v);
-                        if delta.approx_lt(0.0) {
+                        if delta.approx_lt(self.improvement_limit(&*(*u).route, &*route_v)) {
                             self.move_count += 1;
                             m.perform(self, u, v);
                             improvement = true;
diff --git a/src/solver/improvement/moves/swap_star.rs b/src/solver/improvement/moves/swap_star.rs
index 12ffb74..e583d79 100644
--- a/src/solver/improvement/moves/swap_star.rs
+++ b/src/solver/improvement/moves/swap_star.rs
@@ -147,7 +147,7 @@ impl SwapStar {
         }
 
         // Return false if the move does not reduce the objective function
-        if best_move.cost.approx_gte(0.0) {
+        if best_move.cost.approx_gte(ls.improvement_limit(r1, r2)) {
             return false;
         }
 
-- 
2.43.0

