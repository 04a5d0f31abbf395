From cda72027afc8ff90cd9828adf715d38801cdbe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:13 +0000
Subject: [PATCH 01/36] hooks: observation points for external verification
 (--cfg s2gpp_verif)

---
 src/lib.rs                                    |   4 +
 src/training/mod.rs                           |  18 ++
 src/training/node_estimation/mod.rs           |   6 +
 .../multi_kde/actors/helper.rs                |   2 +
 src/training/rotation/mod.rs                  |   2 +
 src/training/rotation/pca/helper.rs           |   2 +
 src/training/rotation/pca/mod.rs              |   2 +
 src/training/scoring/helper.rs                |   2 +
 src/training/verif.rs                         | 221 ++++++++++++++++++
 9 files changed, 259 insertions(+)
 create mode 100644 src/training/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 44c1119..63ca3db 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,7 +1,11 @@
+#![allow(unexpected_cfgs)] // --cfg s2gpp_verif enables the observation points in training/verif.rs
+
 use actix::prelude::*;
 use anyhow::Result;
 
 pub use crate::parameters::{Parameters, Role};
+#[cfg(s2gpp_verif)]
+pub use crate::training::verif;
 
 use crate::cluster_listener::ClusterMemberListener;
 use crate::interface::SyncInterface;
diff --git a/src/training/mod.rs b/src/training/mod.rs
index a2d4f9d..c04eefb 100644
--- a/src/training/mod.rs
+++ b/src/training/mod.rs
@@ -50,6 +50,8 @@ mod rotation;
 mod scoring;
 mod segmentation;
 mod transposition;
+#[cfg(s2gpp_verif)]
+pub mod verif;
 
 #[derive(RemoteActor, Clone)]
 #[remote_messages(
@@ -175,6 +177,8 @@ impl Handler<DataLoadedAndProcessed> for Training {
 
     fn handle(&mut self, msg: DataLoadedAndProcessed, _ctx: &mut Self::Context) -> Self::Result {
         ConsoleLogger::new(6, 12, "Rotating Data".to_string()).print();
+        #[cfg(s2gpp_verif)]
+        crate::verif::loaded(&msg);
         self.dataset_stats = Some(msg.dataset_stats);
         self.rotate(msg.phase_space, msg.data_ref);
     }
@@ -185,6 +189,8 @@ impl Handler<RotationDoneMessage> for Training {
 
     fn handle(&mut self, _msg: RotationDoneMessage, ctx: &mut Self::Context) -> Self::Result {
         ConsoleLogger::new(7, 12, "Segmenting Data".to_string()).print();
+        #[cfg(s2gpp_verif)]
+        crate::verif::rotated(self);
         self.data_manager.as_ref().unwrap().do_send(PoisonPill);
         self.data_manager = None;
 
@@ -197,6 +203,8 @@ impl Handler<SegmentedMessage> for Training {
 
     fn handle(&mut self, _msg: SegmentedMessage, ctx: &mut Self::Context) -> Self::Result {
         ConsoleLogger::new(8, 12, "Calculating Intersections".to_string()).print();
+        #[cfg(s2gpp_verif)]
+        crate::verif::segmented(self);
 
         self.calculate_intersections(ctx.address().recipient());
     }
@@ -211,6 +219,8 @@ impl Handler<IntersectionCalculationDone> for Training {
         ctx: &mut Self::Context,
     ) -> Self::Result {
         ConsoleLogger::new(9, 12, "Estimating Nodes".to_string()).print();
+        #[cfg(s2gpp_verif)]
+        crate::verif::intersected(self);
 
         self.node_estimation.current_segment_id = num_integer::Integer::div_floor(
             &self.parameters.rate,
@@ -225,6 +235,8 @@ impl Handler<NodeEstimationDone> for Training {
 
     fn handle(&mut self, _msg: NodeEstimationDone, ctx: &mut Self::Context) -> Self::Result {
         ConsoleLogger::new(10, 12, "Estimating Edges".to_string()).print();
+        #[cfg(s2gpp_verif)]
+        crate::verif::nodes_estimated(self);
 
         self.estimate_edges(ctx);
     }
@@ -235,6 +247,8 @@ impl Handler<EdgeEstimationDone> for Training {
 
     fn handle(&mut self, _msg: EdgeEstimationDone, ctx: &mut Self::Context) -> Self::Result {
         ConsoleLogger::new(11, 12, "Transpose Distributed Data".to_string()).print();
+        #[cfg(s2gpp_verif)]
+        crate::verif::edges_estimated(self);
 
         self.scoring.node_degrees = self.calculate_node_degrees();
 
@@ -251,6 +265,8 @@ impl Handler<TranspositionDone> for Training {
 
     fn handle(&mut self, _msg: TranspositionDone, ctx: &mut Self::Context) -> Self::Result {
         ConsoleLogger::new(12, 12, "Scoring".to_string()).print();
+        #[cfg(s2gpp_verif)]
+        crate::verif::scoring_starts(self);
 
         self.init_scoring(ctx);
     }
@@ -260,6 +276,8 @@ impl Handler<ScoringDone> for Training {
     type Result = ();
 
     fn handle(&mut self, _msg: ScoringDone, ctx: &mut Self::Context) -> Self::Result {
+        #[cfg(s2gpp_verif)]
+        crate::verif::scored(self);
         debug!(
             "score {}",
             self.scoring.score.as_ref().unwrap_or(&arr1(&[]))
diff --git a/src/training/node_estimation/mod.rs b/src/training/node_estimation/mod.rs
index 8bfb297..5d55c2c 100644
--- a/src/training/node_estimation/mod.rs
+++ b/src/training/node_estimation/mod.rs
@@ -228,6 +228,12 @@ impl Handler<ClusteringResponse<f32>> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: ClusteringResponse<f32>, ctx: &mut Self::Context) -> Self::Result {
+        #[cfg(s2gpp_verif)]
+        crate::verif::clustered(
+            self.node_estimation.current_segment_id,
+            &msg.labels,
+            &msg.cluster_centers,
+        );
         if !msg.labels.is_empty() {
             let current_intersections = self.node_estimation.current_intersections.clone();
             self.node_estimation.current_intersections.clear();
diff --git a/src/training/node_estimation/multi_kde/actors/helper.rs b/src/training/node_estimation/multi_kde/actors/helper.rs
index f8e235f..efb11b3 100644
--- a/src/training/node_estimation/multi_kde/actors/helper.rs
+++ b/src/training/node_estimation/multi_kde/actors/helper.rs
@@ -94,6 +94,8 @@ impl Handler<EstimatorTask> for EstimatorHelper {
     type Result = ();
 
     fn handle(&mut self, msg: EstimatorTask, _ctx: &mut Self::Context) -> Self::Result {
+        #[cfg(s2gpp_verif)]
+        crate::verif::delay("kde", msg.data_range.start);
         let estimate = self.evaluate(msg.data_range);
         self.receiver
             .do_send(EstimatorResponse { estimate });
diff --git a/src/training/rotation/mod.rs b/src/training/rotation/mod.rs
index a604255..232575e 100644
--- a/src/training/rotation/mod.rs
+++ b/src/training/rotation/mod.rs
@@ -269,6 +269,8 @@ impl Handler<RotationMatrixMessage> for Training {
             return;
         }
 
+        #[cfg(s2gpp_verif)]
+        crate::verif::rotation_matrix(&msg.rotation_matrix);
         self.apply_rotation_matrix(msg.rotation_matrix);
         ctx.address().do_send(RotationDoneMessage);
     }
diff --git a/src/training/rotation/pca/helper.rs b/src/training/rotation/pca/helper.rs
index 9b93b3e..5922109 100644
--- a/src/training/rotation/pca/helper.rs
+++ b/src/training/rotation/pca/helper.rs
@@ -157,6 +157,8 @@ impl Handler<PCAHelperMessage> for PCAHelper {
     type Result = ();
 
     fn handle(&mut self, msg: PCAHelperMessage, _ctx: &mut Self::Context) -> Self::Result {
+        #[cfg(s2gpp_verif)]
+        crate::verif::delay("pca", self.id);
         if let PCAHelperMessage::Setup { neighbors, data } = msg {
             self.neighbors.extend(neighbors);
             self.data = Some(data);
diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 8b43799..9ae741f 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -306,6 +306,8 @@ impl Handler<PCAComponents> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: PCAComponents, ctx: &mut Self::Context) -> Self::Result {
+        #[cfg(s2gpp_verif)]
+        crate::verif::components(&msg.components, &msg.means);
         self.rotation.pca.components = Some(msg.clone().components);
         self.rotation.pca.global_means = Some(msg.means.clone());
         match &self.rotation.pca.recipient {
diff --git a/src/training/scoring/helper.rs b/src/training/scoring/helper.rs
index 619dee8..a5f22a1 100644
--- a/src/training/scoring/helper.rs
+++ b/src/training/scoring/helper.rs
@@ -43,6 +43,8 @@ impl Handler<ScoringHelperInstruction> for ScoringHelper {
     type Result = ();
 
     fn handle(&mut self, msg: ScoringHelperInstruction, _ctx: &mut Self::Context) -> Self::Result {
+        #[cfg(s2gpp_verif)]
+        crate::verif::delay("scoring", msg.start);
         let mut single_scores: Vec<f32> = vec![];
         let mut first_empty = false;
 
diff --git a/src/training/verif.rs b/src/training/verif.rs
new file mode 100644
index 0000000..f7036d9
--- /dev/null
+++ b/src/training/verif.rs
@@ -0,0 +1,221 @@
+//! Observation and injection points for an external verification harness.
+//!
+//! This module only exists when the crate is compiled with `--cfg s2gpp_verif`; a normal build
+//! contains none of it. It records what each stage of the pipeline handed to the next one, and
+//! lets a harness replace the rotated points and delay helper threads.
+
+use crate::data_manager::DataLoadedAndProcessed;
+use crate::data_store::transition::TransitionMixin;
+use crate::data_store::DataStore;
+use crate::training::Training;
+use ndarray::{Array1, Array2, Array3};
+use std::collections::HashMap;
+use std::sync::Mutex;
+use std::time::Duration;
+
+/// (segment, cluster, id of the point the underlying transition starts from)
+pub type TracedNode = (usize, usize, usize);
+
+#[derive(Clone, Debug)]
+pub enum Event {
+    /// what data loading and preprocessing produced
+    Loaded {
+        min: Option<Array1<f32>>,
+        max: Option<Array1<f32>>,
+        n: Option<usize>,
+        phase_space: Array3<f32>,
+        data_ref: Array3<f32>,
+    },
+    /// principal components and column means of one channel
+    Components {
+        components: Array2<f32>,
+        means: Array1<f32>,
+    },
+    RotationMatrix(Array3<f32>),
+    /// (id, coordinates, segment); after the rotation
+    Points(Vec<(usize, Vec<f32>, usize)>),
+    /// ((id, coordinates, segment) of the start, (id, coordinates, segment) of the end)
+    Transitions(Vec<((usize, Vec<f32>, usize), (usize, Vec<f32>, usize))>),
+    /// (segment, id of the point the transition starts from, coordinates)
+    Intersections(Vec<(usize, usize, Vec<f32>)>),
+    /// one clustering result
+    Clustering {
+        segment: usize,
+        labels: Vec<usize>,
+        centers: Array2<f32>,
+    },
+    Nodes(Vec<TracedNode>),
+    Edges(Vec<(TracedNode, TracedNode)>),
+    /// edges right before scoring, i.e. after they were exchanged between cluster nodes
+    ScoringEdges(Vec<(TracedNode, TracedNode)>),
+    Score(Option<Array1<f32>>),
+}
+
+static TRACE: Mutex<Vec<Event>> = Mutex::new(vec![]);
+static INJECTED_POINTS: Mutex<Option<(usize, Vec<Vec<f32>>)>> = Mutex::new(None);
+static DELAYS: Mutex<Option<HashMap<(String, usize), u64>>> = Mutex::new(None);
+
+/// Returns everything recorded since the last call.
+pub fn take_trace() -> Vec<Event> {
+    std::mem::take(&mut *lock(&TRACE))
+}
+
+/// The next run replaces its rotated points by these; ids start with `offset`.
+pub fn inject_points(offset: usize, points: Vec<Vec<f32>>) {
+    *lock(&INJECTED_POINTS) = Some((offset, points));
+}
+
+/// Delay, in microseconds, for a (site, index) that is passed.
+pub fn set_delays(delays: HashMap<(String, usize), u64>) {
+    *lock(&DELAYS) = Some(delays);
+}
+
+pub fn reset() {
+    lock(&TRACE).clear();
+    *lock(&INJECTED_POINTS) = None;
+    *lock(&DELAYS) = None;
+}
+
+fn lock<T>(mutex: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
+    match mutex.lock() {
+        Ok(guard) => guard,
+        Err(poisoned) => poisoned.into_inner(),
+    }
+}
+
+fn record(event: Event) {
+    lock(&TRACE).push(event);
+}
+
+pub(crate) fn delay(site: &str, index: usize) {
+    let micros = lock(&DELAYS)
+        .as_ref()
+        .and_then(|delays| delays.get(&(site.to_string(), index)).copied());
+    if let Some(micros) = micros {
+        std::thread::sleep(Duration::from_micros(micros));
+    }
+}
+
+pub(crate) fn loaded(msg: &DataLoadedAndProcessed) {
+    record(Event::Loaded {
+        min: msg.dataset_stats.min_col.clone(),
+        max: msg.dataset_stats.max_col.clone(),
+        n: msg.dataset_stats.n,
+        phase_space: msg.phase_space.to_owned(),
+        data_ref: msg.data_ref.to_owned(),
+    });
+}
+
+pub(crate) fn components(components: &Array2<f32>, means: &Array1<f32>) {
+    record(Event::Components {
+        components: components.clone(),
+        means: means.clone(),
+    });
+}
+
+pub(crate) fn rotation_matrix(matrix: &Array3<f32>) {
+    record(Event::RotationMatrix(matrix.clone()));
+}
+
+/// Records the rotated points, after replacing them if the harness asked for it.
+pub(crate) fn rotated(training: &mut Training) {
+    if let Some((offset, points)) = lock(&INJECTED_POINTS).take() {
+        training.data_store = DataStore::default();
+        training.num_rotated = Some(points.len());
+        let rate = training.parameters.rate;
+        training.data_store.add_points_with_offset(
+            points.into_iter().map(Array1::from).collect(),
+            offset,
+            rate,
+        );
+    }
+    record(Event::Points(
+        training
+            .data_store
+            .get_points()
+            .iter()
+            .map(|p| (p.get_id(), p.clone_coordinates().to_vec(), p.get_segment()))
+            .collect(),
+    ));
+}
+
+pub(crate) fn segmented(training: &Training) {
+    record(Event::Transitions(
+        training
+            .data_store
+            .get_transitions()
+            .iter()
+            .map(|t| {
+                let (a, b) = t.get_points();
+                (
+                    (a.get_id(), a.clone_coordinates().to_vec(), a.get_segment()),
+                    (b.get_id(), b.clone_coordinates().to_vec(), b.get_segment()),
+                )
+            })
+            .collect(),
+    ));
+}
+
+pub(crate) fn intersected(training: &Training) {
+    let mut all = vec![];
+    for segment in 0..training.parameters.rate {
+        if let Some(intersections) = training.data_store.get_intersections_from_segment(segment) {
+            for i in intersections.iter() {
+                all.push((segment, i.get_from_id(), i.get_coordinates().to_vec()));
+            }
+        }
+    }
+    record(Event::Intersections(all));
+}
+
+pub(crate) fn clustered(segment: usize, labels: &[usize], centers: &Array2<f32>) {
+    record(Event::Clustering {
+        segment,
+        labels: labels.to_vec(),
+        centers: centers.clone(),
+    });
+}
+
+pub(crate) fn nodes_estimated(training: &Training) {
+    let n = training
+        .dataset_stats
+        .as_ref()
+        .and_then(|stats| stats.n)
+        .unwrap_or(0);
+    let mut all = vec![];
+    for point_id in 0..n {
+        if let Some(nodes) = training.data_store.get_nodes_by_point_id(point_id) {
+            for node in nodes.iter() {
+                all.push((node.get_segment_id(), node.get_cluster(), node.get_from_id()));
+            }
+        }
+    }
+    record(Event::Nodes(all));
+}
+
+fn edges(training: &Training) -> Vec<(TracedNode, TracedNode)> {
+    training
+        .data_store
+        .get_edges()
+        .iter()
+        .map(|e| {
+            let (a, b) = (e.get_from_node(), e.get_to_node());
+            (
+                (a.get_segment_id(), a.get_cluster(), a.get_from_id()),
+                (b.get_segment_id(), b.get_cluster(), b.get_from_id()),
+            )
+        })
+        .collect()
+}
+
+pub(crate) fn edges_estimated(training: &Training) {
+    record(Event::Edges(edges(training)));
+}
+
+pub(crate) fn scoring_starts(training: &Training) {
+    record(Event::ScoringEdges(edges(training)));
+}
+
+pub(crate) fn scored(training: &Training) {
+    record(Event::Score(training.scoring.score.clone()));
+}
-- 
2.43.0


From 125f111913c944df15520ffd54224f52cef1cd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:13 +0000
Subject: [PATCH 02/36] fix: connect nodes of a first transition that wraps
 around with a single node before segment 0

---
 src/training/edge_estimation/edges_orderer.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/training/edge_estimation/edges_orderer.rs b/src/training/edge_estimation/edges_orderer.rs
index fabffb7..5eea9fa 100644
--- a/src/training/edge_estimation/edges_orderer.rs
+++ b/src/training/edge_estimation/edges_orderer.rs
@@ -49,6 +49,7 @@ impl EdgesOrderer {
                 Some(first_edge) => first_edge.get_from_node(),
                 None => previous_node.clone(),
             });
+            self.first_node = Some(current_node.clone());
             if let Some(previous_transition_node) = &self.previous_transition_node {
                 self.edges_large.push(Edge::new(
                     previous_transition_node.clone(),
@@ -85,12 +86,14 @@ impl EdgesOrderer {
     pub fn into_vec(mut self) -> Vec<Edge> {
         match &self.middle_node {
             Some(middle_node) => {
-                let previous_node = self
-                    .edges_large
-                    .last()
-                    .as_ref()
-                    .expect("Should be filled, we have a middle_node!")
-                    .get_to_node();
+                let previous_node = match self.edges_large.last() {
+                    Some(last_edge) => last_edge.get_to_node(),
+                    // no previous transition and only one node before the gap
+                    None => self
+                        .first_node
+                        .clone()
+                        .expect("Should be filled, we have a middle_node!"),
+                };
                 let connecting_edge = Edge::new(previous_node, middle_node.clone());
                 self.push(connecting_edge);
 
-- 
2.43.0


From cacd16695082249b37d0cd14d5631a855c66281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:13 +0000
Subject: [PATCH 03/36] fix: start only as many PCA helpers as there are data
 chunks

---
 src/training/rotation/pca/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index 9ae741f..bbc6aa1 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -115,7 +115,16 @@ impl PCAnalyzer for Training {
 
     fn helper_center_columns_decomposition(&mut self) {
         let own_addr = self.own_addr.as_ref().unwrap().clone().recipient();
-        self.rotation.pca.helpers = (0..self.parameters.n_threads)
+        let data = self
+            .rotation
+            .pca
+            .data
+            .as_ref()
+            .expect("PCA started before data is present!");
+        let chunk_size = num_integer::div_ceil(data.shape()[0], self.parameters.n_threads);
+        // every helper must receive a chunk, otherwise the others wait for it forever
+        let n_helpers = num_integer::div_ceil(data.shape()[0], chunk_size);
+        self.rotation.pca.helpers = (0..n_helpers)
             .into_iter()
             .map(|i| PCAHelper::start_helper(i, own_addr.clone()))
             .collect();
@@ -126,13 +135,6 @@ impl PCAnalyzer for Training {
             .iter()
             .map(|addr| addr.clone().recipient())
             .collect();
-        let data = self
-            .rotation
-            .pca
-            .data
-            .as_ref()
-            .expect("PCA started before data is present!");
-        let chunk_size = num_integer::div_ceil(data.shape()[0], self.parameters.n_threads);
         for (chunk, helper) in data
             .axis_chunks_iter(Axis(0), chunk_size)
             .zip(self.rotation.pca.helpers.iter())
-- 
2.43.0


From 03e19f11dfd0e5c03b1fbbb218235fb67de82877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:13 +0000
Subject: [PATCH 04/36] fix: score a series without any deviation with zeros
 instead of NaN

---
 src/training/scoring/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index e70537d..e181d4b 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -190,6 +190,11 @@ impl Scorer for Training {
     fn normalize_score(&mut self, scores: &mut Array1<f32>) {
         let all_score_max = *scores.max().unwrap();
         let all_score_min = *scores.min().unwrap();
+        if all_score_max == all_score_min {
+            // nothing stands out
+            scores.fill(0.0);
+            return;
+        }
         *scores = scores
             .into_iter()
             .map(|x| (*x - all_score_min) / (all_score_max - all_score_min))
-- 
2.43.0


From 6c7801f55774bd706d240340ea97bb501dd1fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:16 +0000
Subject: [PATCH 05/36] fix: do not fail on intersections without any variance
 in a dimension

Exactly repeating series produce intersections with one and the same
coordinate; the covariance is then singular, the density estimation
panicked and the run never ended.
---
 .../multi_kde/actors/gaussian_kde.rs          | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
index 6cc7873..597cfe3 100644
--- a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
+++ b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
@@ -51,8 +51,11 @@ impl GaussianKDEActor {
 
         let weights = self.calculate_weights();
         let scotts_factor = self.scotts_factor(weights.view());
-        let precision = self.compute_covariance(scotts_factor);
-        self.evaluate(grid, weights, precision, ctx);
+        match self.compute_covariance(scotts_factor) {
+            Some(precision) => self.evaluate(grid, weights, precision, ctx),
+            // without any variance, the density has no peaks to tell the points apart
+            None => self.respond(Array1::zeros(self.resolution)),
+        }
     }
 
     fn evaluate(
@@ -95,10 +98,17 @@ impl GaussianKDEActor {
         }
     }
 
-    fn compute_covariance(&self, factor: f32) -> Array2<f32> {
+    fn compute_covariance(&self, factor: f32) -> Option<Array2<f32>> {
         let covariance = self.data.as_ref().unwrap().t().cov(1.).unwrap();
-        let covariance_inv = covariance.inv().unwrap(); // todo: catch exception
-        covariance_inv / factor.powi(2)
+        let covariance_inv = covariance.inv().ok()?;
+        Some(covariance_inv / factor.powi(2))
+    }
+
+    fn respond(&self, kernel_estimate: Array1<f32>) {
+        self.receiver
+            .as_ref()
+            .unwrap()
+            .do_send(GaussianKDEResponse { kernel_estimate });
     }
 
     fn scotts_factor(&self, weights: ArrayView2<f32>) -> f32 {
@@ -162,12 +172,7 @@ impl Handler<EstimatorResponse> for GaussianKDEActor {
             let estimate = (*self.estimate.as_ref().unwrap()).clone();
             self.estimate = None;
 
-            self.receiver
-                .as_ref()
-                .unwrap()
-                .do_send(GaussianKDEResponse {
-                    kernel_estimate: estimate,
-                });
+            self.respond(estimate);
         }
     }
 }
-- 
2.43.0


From 507671ffa017fc3ec0431df3ce708cfdf63bf95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:48 +0000
Subject: [PATCH 06/36] fix: a transition that runs within a segment's plane
 intersects it at its start

The equation system is singular then; the helper panicked and the run never
ended.
---
 src/utils/geometry.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/geometry.rs b/src/utils/geometry.rs
index a386fc6..5c92d62 100644
--- a/src/utils/geometry.rs
+++ b/src/utils/geometry.rs
@@ -37,7 +37,12 @@ pub fn line_plane_intersection(
             plane_vector.view(),
         ],
     )?;
-    let inv = vectors.inv()?;
+    let inv = match vectors.inv() {
+        Ok(inv) => inv,
+        // the line runs within the plane, so that its start already is an intersection
+        Err(LinalgError::Lapack(_)) => return Ok(line_points.slice(s![0, ..]).to_owned()),
+        Err(e) => return Err(e.into()),
+    };
     let vec_start =
         line_points.slice(s![0, ..]).to_owned() - plane_points.slice(s![0, ..]).to_owned();
     let vec_to_intersection: Array1<f32> = inv.t().dot(&vec_start);
-- 
2.43.0


From 1e83901d21c5c5355d2828bcc6dd7ca780c385f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:39 +0000
Subject: [PATCH 07/36] fix: accept column-major input arrays

---
 src/utils/ndarray_extensions/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/utils/ndarray_extensions/mod.rs b/src/utils/ndarray_extensions/mod.rs
index c625c73..ac5a6f2 100644
--- a/src/utils/ndarray_extensions/mod.rs
+++ b/src/utils/ndarray_extensions/mod.rs
@@ -92,8 +92,7 @@ where
     fn min_axis(&self, axis: Axis) -> Array1<A> {
         let _n = self.len_of(axis);
         let mut res = Array::zeros(self.raw_dim().remove_axis(axis));
-        let stride = self.strides()[1 - axis.index()];
-        if self.ndim() == 2 && stride == 1 {
+        if self.ndim() == 2 {
             let ax = axis.index();
             for (i, elt) in res.iter_mut().enumerate() {
                 let mut smallest = A::max_value();
@@ -112,8 +111,7 @@ where
 
     fn max_axis(&self, axis: Axis) -> Array1<A> {
         let mut res = Array::zeros(self.raw_dim().remove_axis(axis));
-        let stride = self.strides()[1 - axis.index()];
-        if self.ndim() == 2 && stride == 1 {
+        if self.ndim() == 2 {
             let ax = axis.index();
             for (i, elt) in res.iter_mut().enumerate() {
                 let mut largest = A::min_value();
-- 
2.43.0


From 9563b1daaa5a023a62004f55a490f62b627bb237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:51 +0000
Subject: [PATCH 08/36] fix: never split the scoring into more tasks than there
 are scores

With fewer scores than threads several tasks started at index 0; depending on
which one answered first, answers overwrote each other and the run never
ended.
---
 src/training/scoring/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index e181d4b..dee627c 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -84,7 +84,8 @@ impl Scorer for Training {
         }
 
         let score_length = self.scoring.edges_in_time.len() - (self.parameters.query_length - 1);
-        self.scoring.helper_protocol.n_total = self.parameters.n_threads;
+        // every task must score something, because tasks are told apart by their start
+        self.scoring.helper_protocol.n_total = self.parameters.n_threads.min(score_length).max(1);
 
         let edges = self.data_store.get_edges();
         let edges_in_time = self.scoring.edges_in_time.clone();
@@ -132,11 +133,12 @@ impl Scorer for Training {
     }
 
     fn parallel_score(&mut self, score_length: usize) {
-        let n_per_thread = score_length / self.parameters.n_threads;
-        let n_rest = score_length % self.parameters.n_threads;
+        let n_tasks = self.scoring.helper_protocol.n_total;
+        let n_per_thread = score_length / n_tasks;
+        let n_rest = score_length % n_tasks;
 
-        for i in 0..self.parameters.n_threads {
-            let rest = if i == self.parameters.n_threads - 1 {
+        for i in 0..n_tasks {
+            let rest = if i == n_tasks - 1 {
                 n_rest
             } else {
                 0
-- 
2.43.0


From ab1a5ca6e638cc59e9dfe4b9c2cd93d010d721ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:51 +0000
Subject: [PATCH 09/36] fix: an end column behind the last column means up to
 the last column

As documented, column ranges behave like Python ranges.
---
 src/data_manager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_manager/mod.rs b/src/data_manager/mod.rs
index 884c039..518ec75 100644
--- a/src/data_manager/mod.rs
+++ b/src/data_manager/mod.rs
@@ -197,7 +197,7 @@ impl Handler<DataPartitionMessage> for DataManager {
         let n_rows = msg.data.len();
         let until_column = match self.parameters.column_end.cmp(&0) {
             Ordering::Equal => msg.data[0].len(),
-            Ordering::Greater => self.parameters.column_end as usize,
+            Ordering::Greater => (self.parameters.column_end as usize).min(msg.data[0].len()),
             Ordering::Less => (msg.data[0].len() as isize + self.parameters.column_end) as usize,
         };
 
-- 
2.43.0


From 4683da1e03e4af4595089fc7afd8f60189f38a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:28 +0000
Subject: [PATCH 10/36] fix: use at least one and up to all but one core by
 default in the Python package

min(cpu_count() - 1, 1) is 0 threads on a single core machine, where the program never returns.
---
 s2gpp/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2gpp/__init__.py b/s2gpp/__init__.py
index f3c8a3f..c430771 100644
--- a/s2gpp/__init__.py
+++ b/s2gpp/__init__.py
@@ -28,7 +28,7 @@ class Series2GraphPP(BaseEstimator):
         self.latent = latent or int(self.pattern_length / 3)
         self.rate = rate
         self.query_length = query_length or self.pattern_length
-        self.n_threads = n_threads if n_threads > 0 else min(cpu_count() - 1, 1)
+        self.n_threads = n_threads if n_threads > 0 else max(cpu_count() - 1, 1)
         self.clustering = clustering
         self.self_correction = self_correction
         self.local_host = local_host
-- 
2.43.0


From bf4ab5d76e33109b49bd9bfc1560207c826a6b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:59 +0000
Subject: [PATCH 11/36] fix: state the signatures of the Python functions so
 that the package builds

pyo3 0.20 refuses required arguments behind an Option argument without an explicit signature.
---
 src/python_binding.rs | 44 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/python_binding.rs b/src/python_binding.rs
index 61262e2..50913db 100644
--- a/src/python_binding.rs
+++ b/src/python_binding.rs
@@ -39,6 +39,20 @@ fn s2gpp_local_array<'py>(
 }
 
 #[pyfunction]
+#[pyo3(signature = (
+    data_path,
+    pattern_length,
+    latent,
+    query_length,
+    rate,
+    n_threads,
+    score_output_path,
+    column_start,
+    column_end,
+    clustering,
+    self_correction,
+    local_host
+))]
 fn s2gpp_local_file<'py>(
     _py: Python<'py>,
     data_path: String,
@@ -81,6 +95,21 @@ fn s2gpp_local_file<'py>(
 }
 
 #[pyfunction]
+#[pyo3(signature = (
+    data_path,
+    pattern_length,
+    latent,
+    query_length,
+    rate,
+    n_threads,
+    score_output_path,
+    column_start,
+    column_end,
+    clustering,
+    self_correction,
+    local_host,
+    n_cluster_nodes
+))]
 fn s2gpp_distributed_main<'py>(
     _py: Python<'py>,
     data_path: String,
@@ -120,6 +149,21 @@ fn s2gpp_distributed_main<'py>(
 }
 
 #[pyfunction]
+#[pyo3(signature = (
+    pattern_length,
+    latent,
+    query_length,
+    rate,
+    n_threads,
+    score_output_path,
+    column_start,
+    column_end,
+    clustering,
+    self_correction,
+    local_host,
+    n_cluster_nodes,
+    mainhost
+))]
 fn s2gpp_distributed_sub<'py>(
     _py: Python<'py>,
     pattern_length: usize,
-- 
2.43.0


From 669c5a0d56d2b8fa5226b03cf00375fc7fe9715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:51 +0000
Subject: [PATCH 12/36] fix: leave a channel without variance unrotated instead
 of turning it into NaN

The reference curve of such a channel is the zero vector; normalising it made all coordinates
of the channel NaN, which silenced all other channels or ended in a panic.
---
 src/training/rotation/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/training/rotation/mod.rs b/src/training/rotation/mod.rs
index 232575e..b6d5a42 100644
--- a/src/training/rotation/mod.rs
+++ b/src/training/rotation/mod.rs
@@ -138,8 +138,10 @@ impl Rotator for Training {
             .to_owned();
         let curve_vec2 = arr1(&[0., 0., 1.]);
 
+        // a channel without any variance has no curve, i.e. nothing that has to be rotated
         let a = curve_vec1.clone()
             / norm(curve_vec1.view(), Axis(0))
+                .mapv(|length| if length == 0.0 { 1.0 } else { length })
                 .into_shape((1, curve_vec1.shape()[1]))
                 .unwrap();
         let b = curve_vec2.into_shape((3, 1)).unwrap();
@@ -185,7 +187,7 @@ impl Rotator for Training {
                     .as_slice(),
             )
             .unwrap()
-                * ((1.0 - c) / s_.clone().mul(s_))
+                * ((1.0 - c) / s_.clone().mul(s_)).mapv(|f| if f.is_finite() { f } else { 0.0 })
     }
 
     fn broadcast_rotation_matrix(&mut self, addr: Addr<Self>) {
-- 
2.43.0


From 32752a45ed561494322b21461739d047ef025eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:07 +0000
Subject: [PATCH 13/36] fix: set the density helpers up once, not again while
 they stop

A stopped helper is recreated by its arbiter. It then called LAPACK while the process
was already exiting, which ended about one in a thousand program runs with SIGSEGV.
---
 .../node_estimation/multi_kde/actors/gaussian_kde.rs | 12 +++---------
 .../node_estimation/multi_kde/actors/helper.rs       |  1 +
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
index 597cfe3..61e8fd8 100644
--- a/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
+++ b/src/training/node_estimation/multi_kde/actors/gaussian_kde.rs
@@ -67,15 +67,9 @@ impl GaussianKDEActor {
     ) {
         let data = (*self.data.as_ref().unwrap()).clone();
         let receiver = ctx.address().recipient();
-        self.helper = Some(SyncArbiter::start(self.n_threads, move || {
-            EstimatorHelper::new(
-                data.clone(),
-                weights.clone(),
-                grid.clone(),
-                precision.clone(),
-                receiver.clone(),
-            )
-        }));
+        // the arbiter also calls its factory when a helper stops, possibly while the process exits
+        let helper = EstimatorHelper::new(data, weights, grid, precision, receiver);
+        self.helper = Some(SyncArbiter::start(self.n_threads, move || helper.clone()));
         self.helper_protocol.n_total = self.n_threads;
 
         self.send_tasks();
diff --git a/src/training/node_estimation/multi_kde/actors/helper.rs b/src/training/node_estimation/multi_kde/actors/helper.rs
index efb11b3..e919b61 100644
--- a/src/training/node_estimation/multi_kde/actors/helper.rs
+++ b/src/training/node_estimation/multi_kde/actors/helper.rs
@@ -9,6 +9,7 @@ use ndarray_linalg::UPLO::Lower;
 use std::f32::consts::PI;
 use std::ops::{Div, Mul, Range};
 
+#[derive(Clone)]
 pub(in crate::training::node_estimation::multi_kde::actors) struct EstimatorHelper {
     pub(crate) data: ArcArray2<f32>,
     grid: Array2<f32>,
-- 
2.43.0


From 748ee29c498c662ffaef02a1aedc1b4bf567caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:38 +0000
Subject: [PATCH 14/36] fix: do not fail on contributions when the first
 windows have none

---
 src/training/scoring/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index dee627c..5628f7d 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -357,7 +357,8 @@ impl Handler<QueryClusterContributionResponse> for Training {
         let mut last_contribution = None;
         for c in contributions.iter_mut() {
             if c.sum() == 0.0 {
-                *c = last_contribution.expect("No contribution");
+                // nothing to repeat before the first contribution
+                *c = last_contribution.unwrap_or(*c);
             } else {
                 last_contribution = Some(*c);
             }
-- 
2.43.0


From 86b52bfb67f15b64627f322aa399d888e759563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:54 +0000
Subject: [PATCH 15/36] fix: report empty contributions for a series without
 any transition

---
 src/training/anomaly_contribution/messages.rs |  1 +
 src/training/anomaly_contribution/mod.rs      | 10 ++--------
 src/training/scoring/mod.rs                   |  8 +++++++-
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/training/anomaly_contribution/messages.rs b/src/training/anomaly_contribution/messages.rs
index 8a3bbb1..c1739e1 100644
--- a/src/training/anomaly_contribution/messages.rs
+++ b/src/training/anomaly_contribution/messages.rs
@@ -14,6 +14,7 @@ pub(crate) struct ClusterCenterMessage {
 #[rtype(result = "()")]
 pub(crate) struct QueryClusterContribution {
     pub nodes: Vec<NodeRef>,
+    pub n_dims: usize,
 }
 
 #[derive(Message)]
diff --git a/src/training/anomaly_contribution/mod.rs b/src/training/anomaly_contribution/mod.rs
index 5bc07eb..9fe0499 100644
--- a/src/training/anomaly_contribution/mod.rs
+++ b/src/training/anomaly_contribution/mod.rs
@@ -21,7 +21,6 @@ use std::ops::{Div, Sub};
 pub(crate) struct AnomalyContribution {
     node_contribution: HashMap<NodeRef, Array1<f32>>,
     query_response: Option<Vec<Array1<f32>>>,
-    n_dims: Option<usize>,
 }
 
 impl AnomalyContribution {
@@ -33,10 +32,6 @@ impl AnomalyContribution {
     ) {
         let adapted_cluster_centers = cluster_centers; //self.combine_dimensions(cluster_centers).unwrap();
         let dim_scores = self.calculate_dimension_uniqueness(adapted_cluster_centers, label_counts);
-        match &self.n_dims {
-            None => self.n_dims = Some(dim_scores.shape()[1]),
-            Some(_) => (),
-        }
 
         for node in nodes {
             let dim_score = dim_scores.row(node.get_cluster());
@@ -121,7 +116,7 @@ impl AnomalyContribution {
         Ok(concatenate(Axis(1), &[first_dim, remaining_dims])?)
     }
 
-    fn query_node_score(&mut self, nodes: Vec<NodeRef>) {
+    fn query_node_score(&mut self, nodes: Vec<NodeRef>, n_dims: usize) {
         let mut contributions: Vec<ArrayView1<f32>> = nodes
             .iter()
             .map(|node| {
@@ -133,7 +128,6 @@ impl AnomalyContribution {
             .collect();
 
         let contribution = if contributions.is_empty() {
-            let n_dims = *self.n_dims.as_ref().unwrap();
             Array1::zeros([n_dims])
         } else {
             contributions = contributions
@@ -171,7 +165,7 @@ impl Handler<QueryClusterContribution> for AnomalyContribution {
     type Result = ();
 
     fn handle(&mut self, msg: QueryClusterContribution, _ctx: &mut Self::Context) -> Self::Result {
-        self.query_node_score(msg.nodes)
+        self.query_node_score(msg.nodes, msg.n_dims)
     }
 }
 
diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 5628f7d..2793186 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -116,6 +116,12 @@ impl Scorer for Training {
             .anomaly_contribution
             .as_ref()
             .expect("Should've been set by now");
+        let n_dims = self
+            .dataset_stats
+            .as_ref()
+            .and_then(|stats| stats.min_col.as_ref())
+            .expect("DatasetStats should've been set by now!")
+            .len();
         let end = self.scoring.edges_in_time.len() - (self.parameters.query_length - 1);
         for i in 0..end {
             let from_edge_idx = self.scoring.edges_in_time[i];
@@ -124,7 +130,7 @@ impl Scorer for Training {
                 .iter()
                 .map(|e| e.get_from_node())
                 .collect();
-            anomaly_contribution.do_send(QueryClusterContribution { nodes });
+            anomaly_contribution.do_send(QueryClusterContribution { nodes, n_dims });
         }
 
         anomaly_contribution.do_send(QueryClustercontributionDone {
-- 
2.43.0


From cb909b9313d392060a2cd28b9efe0e5f5b9d86b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:23 +0000
Subject: [PATCH 16/36] verification hooks: delays at the stage borders, stop
 after the rotation (cfg s2gpp_verif)

---
 src/training/mod.rs   |  4 +++-
 src/training/verif.rs | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/training/mod.rs b/src/training/mod.rs
index c04eefb..d2a9663 100644
--- a/src/training/mod.rs
+++ b/src/training/mod.rs
@@ -190,7 +190,9 @@ impl Handler<RotationDoneMessage> for Training {
     fn handle(&mut self, _msg: RotationDoneMessage, ctx: &mut Self::Context) -> Self::Result {
         ConsoleLogger::new(7, 12, "Segmenting Data".to_string()).print();
         #[cfg(s2gpp_verif)]
-        crate::verif::rotated(self);
+        if crate::verif::rotated(self) {
+            return;
+        }
         self.data_manager.as_ref().unwrap().do_send(PoisonPill);
         self.data_manager = None;
 
diff --git a/src/training/verif.rs b/src/training/verif.rs
index f7036d9..c7bd3ed 100644
--- a/src/training/verif.rs
+++ b/src/training/verif.rs
@@ -10,6 +10,7 @@ use crate::data_store::DataStore;
 use crate::training::Training;
 use ndarray::{Array1, Array2, Array3};
 use std::collections::HashMap;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Mutex;
 use std::time::Duration;
 
@@ -54,6 +55,7 @@ pub enum Event {
 static TRACE: Mutex<Vec<Event>> = Mutex::new(vec![]);
 static INJECTED_POINTS: Mutex<Option<(usize, Vec<Vec<f32>>)>> = Mutex::new(None);
 static DELAYS: Mutex<Option<HashMap<(String, usize), u64>>> = Mutex::new(None);
+static CHANNEL: AtomicUsize = AtomicUsize::new(0);
 
 /// Returns everything recorded since the last call.
 pub fn take_trace() -> Vec<Event> {
@@ -74,6 +76,7 @@ pub fn reset() {
     lock(&TRACE).clear();
     *lock(&INJECTED_POINTS) = None;
     *lock(&DELAYS) = None;
+    CHANNEL.store(0, Ordering::SeqCst);
 }
 
 fn lock<T>(mutex: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
@@ -104,6 +107,7 @@ pub(crate) fn loaded(msg: &DataLoadedAndProcessed) {
         phase_space: msg.phase_space.to_owned(),
         data_ref: msg.data_ref.to_owned(),
     });
+    delay("loaded", 0);
 }
 
 pub(crate) fn components(components: &Array2<f32>, means: &Array1<f32>) {
@@ -111,14 +115,16 @@ pub(crate) fn components(components: &Array2<f32>, means: &Array1<f32>) {
         components: components.clone(),
         means: means.clone(),
     });
+    delay("components", CHANNEL.fetch_add(1, Ordering::SeqCst));
 }
 
 pub(crate) fn rotation_matrix(matrix: &Array3<f32>) {
     record(Event::RotationMatrix(matrix.clone()));
 }
 
-/// Records the rotated points, after replacing them if the harness asked for it.
-pub(crate) fn rotated(training: &mut Training) {
+/// Records the rotated points, after replacing them if the harness asked for it. Returns whether
+/// the harness wants the run to go no further, which it says by a delay for "rotated".
+pub(crate) fn rotated(training: &mut Training) -> bool {
     if let Some((offset, points)) = lock(&INJECTED_POINTS).take() {
         training.data_store = DataStore::default();
         training.num_rotated = Some(points.len());
@@ -137,6 +143,10 @@ pub(crate) fn rotated(training: &mut Training) {
             .map(|p| (p.get_id(), p.clone_coordinates().to_vec(), p.get_segment()))
             .collect(),
     ));
+    lock(&DELAYS)
+        .as_ref()
+        .map(|delays| delays.contains_key(&("rotated".to_string(), 0)))
+        .unwrap_or(false)
 }
 
 pub(crate) fn segmented(training: &Training) {
-- 
2.43.0


From b6b18d22558198d2d603cd51e1183031ca988003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:54 +0000
Subject: [PATCH 17/36] fix: keep messages of faster nodes and wait for all
 means in the distributed PCA

The main node finalised the principal components as soon as it had all
R matrices, also when means of other nodes were still missing, and
messages that arrived before the node itself got to a channel were
dropped (or never looked at again with a single thread), so that the
cluster computed wrong axes or waited forever.
---
 src/training/rotation/mod.rs     |  4 +++-
 src/training/rotation/pca/mod.rs | 26 +++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/training/rotation/mod.rs b/src/training/rotation/mod.rs
index b6d5a42..787e375 100644
--- a/src/training/rotation/mod.rs
+++ b/src/training/rotation/mod.rs
@@ -48,7 +48,9 @@ impl Rotator for Training {
         self.rotation.reduced = Some(reduced);
         self.rotation.reduced_ref = Some(reduced_ref);
 
-        self.rotation.pca = PCA::new(self.cluster_nodes.get_own_idx(), 3);
+        self.rotation
+            .pca
+            .restart(self.cluster_nodes.get_own_idx(), 3);
         self.run_pca();
     }
 
diff --git a/src/training/rotation/pca/mod.rs b/src/training/rotation/pca/mod.rs
index bbc6aa1..3cfa56c 100644
--- a/src/training/rotation/pca/mod.rs
+++ b/src/training/rotation/pca/mod.rs
@@ -46,7 +46,18 @@ impl PCA {
     }
 
     pub fn clear(&mut self) {
-        *self = Self::new(self.id, self.n_components);
+        // other cluster nodes may already be ahead, their messages must not get lost
+        *self = PCA {
+            buffer: std::mem::take(&mut self.buffer),
+            means_buffer: std::mem::take(&mut self.means_buffer),
+            ..Self::new(self.id, self.n_components)
+        };
+    }
+
+    pub fn restart(&mut self, id: usize, n_components: usize) {
+        self.id = id;
+        self.n_components = n_components;
+        self.clear();
     }
 }
 
@@ -57,6 +68,7 @@ pub trait PCAnalyzer {
     fn center_columns_decomposition(&mut self);
     fn helper_center_columns_decomposition(&mut self);
     fn send_to_main(&mut self);
+    fn all_means_received(&self) -> bool;
     fn next_2_power(&mut self) -> usize;
     fn send_to_neighbor_or_finalize(&mut self);
     fn combine_remote_r(&mut self, remote_r: Array2<f32>);
@@ -111,6 +123,8 @@ impl PCAnalyzer for Training {
 
         self.send_to_main();
         self.send_to_neighbor_or_finalize();
+        self.resolve_buffer();
+        self.resolve_means_buffer();
     }
 
     fn helper_center_columns_decomposition(&mut self) {
@@ -157,6 +171,10 @@ impl PCAnalyzer for Training {
         }
     }
 
+    fn all_means_received(&self) -> bool {
+        self.rotation.pca.n.as_ref().map(|n| n.len()) == Some(self.cluster_nodes.len_incl_own())
+    }
+
     fn next_2_power(&mut self) -> usize {
         let len = self.cluster_nodes.len_incl_own();
         2_i32.pow((len as f32).log2().ceil() as u32) as usize
@@ -185,7 +203,7 @@ impl PCAnalyzer for Training {
         {
             self.rotation.pca.r_count += 1;
             self.send_to_neighbor_or_finalize()
-        } else if id == 0 && threshold == 0 {
+        } else if id == 0 && threshold == 0 && self.all_means_received() {
             self.finalize()
         }
     }
@@ -205,7 +223,8 @@ impl PCAnalyzer for Training {
     }
 
     fn finalize(&mut self) {
-        let column_means = self.rotation.pca.column_means.as_ref().unwrap().to_owned();
+        // from now on, means belong to the next channel
+        let column_means = self.rotation.pca.column_means.take().unwrap();
         let dim = column_means.shape()[1];
         let n = self.rotation.pca.n.as_ref().unwrap().view();
         let n_reshaped = n.broadcast((dim, n.len())).unwrap();
@@ -284,6 +303,7 @@ impl Handler<PCAMeansMessage> for Training {
                 self.rotation.pca.n.as_ref().unwrap().clone(),
                 arr1(&[msg.n as f32])
             ]);
+            self.send_to_neighbor_or_finalize();
         } else {
             self.rotation.pca.means_buffer.push(msg);
         }
-- 
2.43.0


From c743d1ff69f33324eb643c9e4ee7871ec70f5798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:21 +0000
Subject: [PATCH 18/36] fix: give all remaining rows to the last cluster node

The reader recognised the last node only after all partitions had been
sent, and ran out of receivers when more rows were left over than the
overlap holds.
---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 981cc3e..e6cead8 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -200,7 +200,7 @@ pub struct AnyClusterNodesIterator<T: Actor> {
 
 impl<T: Actor> AnyClusterNodesIterator<T> {
     pub fn last_position(&mut self) -> bool {
-        self.position >= self.any_cluster_nodes.len()
+        self.position + 1 >= self.any_cluster_nodes.len()
     }
 
     pub fn get_position(&mut self) -> usize {
-- 
2.43.0


From 7aa78d5423aea06735cd3a31182e9501457b3f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:58 +0000
Subject: [PATCH 19/36] hooks: a cluster node takes its own part of the
 injected points

---
 src/training/verif.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/training/verif.rs b/src/training/verif.rs
index c7bd3ed..0e470d2 100644
--- a/src/training/verif.rs
+++ b/src/training/verif.rs
@@ -125,7 +125,15 @@ pub(crate) fn rotation_matrix(matrix: &Array3<f32>) {
 /// Records the rotated points, after replacing them if the harness asked for it. Returns whether
 /// the harness wants the run to go no further, which it says by a delay for "rotated".
 pub(crate) fn rotated(training: &mut Training) -> bool {
-    if let Some((offset, points)) = lock(&INJECTED_POINTS).take() {
+    if let Some((mut offset, mut points)) = lock(&INJECTED_POINTS).take() {
+        if training.cluster_nodes.len() > 0 {
+            // a cluster node only takes the points with the ids of its own ones
+            let own = training.data_store.get_points();
+            let ids = own.iter().map(|p| p.get_id());
+            let (from, to) = (ids.clone().min().unwrap_or(0), ids.max().map_or(0, |id| id + 1));
+            points = points.drain(from - offset..to - offset).collect();
+            offset = from;
+        }
         training.data_store = DataStore::default();
         training.num_rotated = Some(points.len());
         let rate = training.parameters.rate;
-- 
2.43.0


From 37178d6b69bddb98fea46a925c5efbda658e6a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:46 +0000
Subject: [PATCH 20/36] fix: keep the transitions at the boundaries between
 cluster nodes

The first point of the next node was lost if it came early, nodes without a
transition never sent theirs, and the spanning transition was not connected
to the first transition of the next node.
---
 src/training/segmentation/messages.rs |   5 +-
 src/training/segmentation/mod.rs      | 113 ++++++++++++++++----------
 2 files changed, 72 insertions(+), 46 deletions(-)

diff --git a/src/training/segmentation/messages.rs b/src/training/segmentation/messages.rs
index a3c037c..adac336 100644
--- a/src/training/segmentation/messages.rs
+++ b/src/training/segmentation/messages.rs
@@ -9,10 +9,11 @@ pub struct SegmentMessage {
     pub(crate) segments: Vec<MaterializedTransition>,
 }
 
-#[derive(RemoteMessage, Serialize, Deserialize)]
+#[derive(RemoteMessage, Serialize, Deserialize, Clone)]
 pub struct SendFirstPointMessage {
     pub(crate) point: Point,
-    pub(crate) transition: MaterializedTransition,
+    /// the first transition from this point on, if there is any
+    pub(crate) transition: Option<MaterializedTransition>,
 }
 
 #[derive(Message)]
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index a5c3f60..456e933 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -28,6 +28,9 @@ pub(crate) struct Segmentation {
     pub send_transition: Option<MaterializedTransition>,
     pub last_point: Option<Point>,
     pub last_transition: Option<Transition>,
+    /// whether this cluster node is ready for the first point of the next cluster node
+    waits_for_first_point: bool,
+    first_point_buffer: Option<SendFirstPointMessage>,
     direct_protocol: DirectProtocol<SegmentMessage>,
     /// {cluster node id (answering): {cluster node id (asking): \[NodeInQuestion\]}}
     pub node_questions: NodeQuestions,
@@ -53,6 +56,7 @@ pub(crate) trait Segmenter {
         from_node_id: usize,
         to_node_id: usize,
     );
+    fn find_splits_after(&mut self, prev_transition: Option<Transition>, transition: &Transition);
     fn search_split_between_transitions(
         &mut self,
         prev_transition: Option<Transition>,
@@ -68,6 +72,7 @@ pub(crate) trait Segmenter {
         to_node_id: usize,
     );
     fn try_send_inter_node_points(&mut self) -> bool;
+    fn send_first_point(&mut self, transition: Option<MaterializedTransition>);
     fn distribute_segments(&mut self, foreign_data: TransitionsForNodes);
     fn self_correction(
         &mut self,
@@ -97,6 +102,10 @@ impl Segmenter for Training {
         let wait_for_points = self.try_send_inter_node_points();
         if wait_for_points {
             self.segmentation.transitions_for_nodes = node_transitions;
+            self.segmentation.waits_for_first_point = true;
+            if let Some(msg) = self.segmentation.first_point_buffer.take() {
+                ctx.address().do_send(msg);
+            }
         } else {
             // if no other cluster node exists (i.e. local only)
             self.segmentation
@@ -204,6 +213,21 @@ impl Segmenter for Training {
         self.search_split_within_transition(prev_transition, transition, from_node_id, to_node_id);
     }
 
+    fn find_splits_after(&mut self, prev_transition: Option<Transition>, transition: &Transition) {
+        let last_to_node_id = prev_transition
+            .as_ref()
+            .map(|prev| self.segment_id_to_assignment(prev.get_to_segment()));
+        let from_node_id = self.segment_id_to_assignment(transition.get_from_segment());
+        let to_node_id = self.segment_id_to_assignment(transition.get_to_segment());
+        self.find_splits(
+            prev_transition,
+            last_to_node_id,
+            transition,
+            from_node_id,
+            to_node_id,
+        );
+    }
+
     fn search_split_between_transitions(
         &mut self,
         prev_transition: Option<Transition>,
@@ -243,19 +267,18 @@ impl Segmenter for Training {
     }
 
     fn try_send_inter_node_points(&mut self) -> bool {
-        let point = self.segmentation.send_point.take();
-        let transition = self.segmentation.send_transition.take();
         match self.cluster_nodes.get_previous_idx() {
-            Some(prev_idx) => {
-                if let (Some(point), Some(transition)) = (point, transition) {
-                    self.cluster_nodes
-                        .get_as(&prev_idx, "Training")
-                        .unwrap()
-                        .do_send(SendFirstPointMessage { point, transition });
+            Some(_) => {
+                let own_id = self.cluster_nodes.get_own_idx();
+                let wait_for_points = own_id.ne(&self.cluster_nodes.len()); // last cluster node does not receive a SendFirstPointMessage
+
+                // without an own transition, the first one comes from the next cluster node
+                if !wait_for_points || self.segmentation.send_transition.is_some() {
+                    let transition = self.segmentation.send_transition.take();
+                    self.send_first_point(transition);
                 }
 
-                let own_id = self.cluster_nodes.get_own_idx();
-                own_id.ne(&self.cluster_nodes.len()) // last cluster node does not receive a SendFirstPointMessage
+                wait_for_points
             }
             None => {
                 // local only case
@@ -268,6 +291,18 @@ impl Segmenter for Training {
         }
     }
 
+    fn send_first_point(&mut self, transition: Option<MaterializedTransition>) {
+        if let (Some(point), Some(prev_idx)) = (
+            self.segmentation.send_point.take(),
+            self.cluster_nodes.get_previous_idx(),
+        ) {
+            self.cluster_nodes
+                .get_as(&prev_idx, "Training")
+                .unwrap()
+                .do_send(SendFirstPointMessage { point, transition });
+        }
+    }
+
     fn distribute_segments(&mut self, mut foreign_data: TransitionsForNodes) {
         if self.cluster_nodes.len() == 0 {
             self.own_addr
@@ -386,11 +421,18 @@ impl Handler<SendFirstPointMessage> for Training {
     type Result = ();
 
     fn handle(&mut self, msg: SendFirstPointMessage, ctx: &mut Self::Context) -> Self::Result {
+        if !self.segmentation.waits_for_first_point {
+            self.segmentation.first_point_buffer = Some(msg);
+            return;
+        }
+        self.segmentation.waits_for_first_point = false;
+
         let spanning_transition = Transition::new(
             self.segmentation.last_point.take().unwrap().into_ref(),
             msg.point.into_ref(),
         );
-        let last_transition = self.segmentation.last_transition.as_ref().unwrap().clone();
+        let mut last_transition = self.segmentation.last_transition.take();
+        let mut first_transition = None;
 
         if spanning_transition.crosses_segments()
             & spanning_transition.has_valid_direction(self.parameters.rate as isize)
@@ -398,50 +440,33 @@ impl Handler<SendFirstPointMessage> for Training {
             // valid transition
             let from_node_id =
                 self.segment_id_to_assignment(spanning_transition.get_from_segment());
-            let to_node_id = self.segment_id_to_assignment(spanning_transition.get_to_segment());
-            let last_transition_to_cluster_id =
-                self.segment_id_to_assignment(last_transition.get_to_segment());
 
             if from_node_id == self.cluster_nodes.get_own_idx() {
                 // normal transition
                 self.data_store.add_transition(spanning_transition.clone());
             }
 
-            self.find_splits(
-                Some(last_transition),
-                Some(last_transition_to_cluster_id),
-                &spanning_transition,
-                from_node_id,
-                to_node_id,
-            );
+            self.find_splits_after(last_transition, &spanning_transition);
 
-            match self
-                .segmentation
+            self.segmentation
                 .transitions_for_nodes
-                .get_mut(&from_node_id)
-            {
-                Some(foreign_data) => foreign_data.push(spanning_transition.materialize()),
-                None => {
-                    self.segmentation
-                        .transitions_for_nodes
-                        .insert(from_node_id, vec![spanning_transition.materialize()]);
-                }
-            }
-        } else {
-            let transition = msg.transition.into_transition();
-            let transition_from_cluster_id =
-                self.segment_id_to_assignment(transition.get_from_segment());
-            let last_transition_to_cluster_id =
-                self.segment_id_to_assignment(last_transition.get_to_segment());
+                .entry(from_node_id)
+                .or_default()
+                .push(spanning_transition.materialize());
+            first_transition = Some(spanning_transition.materialize());
+            last_transition = Some(spanning_transition);
+        }
 
-            self.search_split_between_transitions(
-                Some(last_transition),
-                &transition,
-                transition_from_cluster_id,
-                last_transition_to_cluster_id,
-            );
+        if let Some(transition) = msg.transition {
+            if last_transition.is_some() {
+                self.find_splits_after(last_transition, &transition.clone().into_transition());
+            }
+            first_transition = first_transition.or(Some(transition));
         }
 
+        // not sent yet, if there is no transition before the spanning one
+        self.send_first_point(first_transition);
+
         let node_transitions = self.segmentation.transitions_for_nodes.clone();
         self.segmentation.transitions_for_nodes.clear();
         self.segmentation
-- 
2.43.0


From bcdd6976c3d50ad9fc64316db5f029ebe0a6f939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:46 +0000
Subject: [PATCH 21/36] fix: count own transitions once when a cluster decides
 on mirroring

---
 src/training/segmentation/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index 456e933..c539853 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -335,11 +335,11 @@ impl Segmenter for Training {
                 self.segmentation
                     .transition_count_protocol
                     .resolve_buffer(ctx.address().recipient());
-                let transition_count = self.data_store.count_transitions()
-                    + node_transitions
-                        .iter()
-                        .map(|(_segment, transitions)| transitions.len())
-                        .sum::<usize>();
+                // own transitions are among them
+                let transition_count = node_transitions
+                    .iter()
+                    .map(|(_segment, transitions)| transitions.len())
+                    .sum::<usize>();
                 next_node.do_send(TransitionCountMessage {
                     count: transition_count,
                     clockwise_count: self.segmentation.invalid_transition_directions,
-- 
2.43.0


From d19cc31c492d8aebaf8c944dc2b8deb4ce223bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:46 +0000
Subject: [PATCH 22/36] fix: let the overlap include the edge that ends a
 window of the previous cluster node

---
 src/training/scoring/overlap.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/training/scoring/overlap.rs b/src/training/scoring/overlap.rs
index 09798e7..cfdf101 100644
--- a/src/training/scoring/overlap.rs
+++ b/src/training/scoring/overlap.rs
@@ -11,10 +11,14 @@ pub(crate) trait ScoringOverlap {
 
 impl ScoringOverlap for Training {
     fn send_overlap_to_neighbor(&mut self, ctx: &mut Context<Training>) {
-        let to_edge_idx = self.scoring.edges_in_time[self.parameters.query_length - 1];
+        // a window reaches up to and including the first edge after its end
+        let to_edge_idx = match self.parameters.query_length {
+            1 => 1,
+            query_length => self.scoring.edges_in_time[query_length - 2] + 1,
+        };
         let overlap = self
             .data_store
-            .slice_edges(0..to_edge_idx)
+            .slice_edges(0..to_edge_idx.min(self.data_store.get_edges().len()))
             .map(|edge| edge.materialize())
             .collect();
 
-- 
2.43.0


From fc8b1366ef95345f6173dd50fba99bf9a912fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:46 +0000
Subject: [PATCH 23/36] fix: keep edges of one time step in path order when
 they come from several cluster nodes

---
 src/data_store/mod.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/data_store/mod.rs b/src/data_store/mod.rs
index 0d8d795..03363ad 100644
--- a/src/data_store/mod.rs
+++ b/src/data_store/mod.rs
@@ -188,9 +188,33 @@ impl DataStore {
         self.edges[range].iter()
     }
 
+    /// Sorts edges by time and, within one transition, along its path.
     pub fn sort_edges(&mut self) {
-        self.edges
-            .sort_by(|edge_a, edge_b| edge_a.get_to_id().partial_cmp(&edge_b.get_to_id()).unwrap());
+        self.edges.sort_by_key(|edge| {
+            (
+                edge.get_to_id(),
+                edge.get_from_node().get_from_id(),
+                edge.get_from_node().get_segment_id(),
+            )
+        });
+
+        // a transition beyond the last segment continues with the first segment again
+        let mut start = 0;
+        while start < self.edges.len() {
+            let is_within = |edge: &EdgeRef| {
+                edge.get_from_node().get_from_id() == edge.get_to_id()
+                    && edge.get_to_id() == self.edges[start].get_to_id()
+            };
+            let end = start + self.edges[start..].iter().take_while(|e| is_within(e)).count();
+            let gap = (start + 1..end).find(|i| {
+                self.edges[i - 1].get_from_node().get_segment_id() + 1
+                    != self.edges[*i].get_from_node().get_segment_id()
+            });
+            if let Some(gap) = gap {
+                self.edges[start..end].rotate_left(gap - start);
+            }
+            start = end.max(start + 1);
+        }
     }
 
     // --- Misc
-- 
2.43.0


From 60c9d5698827674baa75d4d4585691d3860bf83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:47 +0000
Subject: [PATCH 24/36] fix: score a cluster whose first window has no edges

---
 src/training/scoring/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 2793186..5743b22 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -219,11 +219,13 @@ impl Scorer for Training {
                     .remove(&cluster_node_id)
                     .expect("A subscore is missing!");
                 if first_empty {
-                    let last_score = scores
-                        .last()
-                        .expect("First cannot be empty if it's the first overall score point!");
-
-                    fill_up_first_missing_points(&mut sub_score, last_score[last_score.len() - 1]);
+                    // nothing to repeat before the first overall score point
+                    if let Some(last_score) = scores.last() {
+                        fill_up_first_missing_points(
+                            &mut sub_score,
+                            last_score[last_score.len() - 1],
+                        );
+                    }
                 }
                 scores.push(sub_score);
             }
-- 
2.43.0


From 5fcadd8571781cc32a97393fae1c298289884ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:47 +0000
Subject: [PATCH 25/36] fix: pass messages on around the ring in the order they
 were received

Buffered messages were put behind later messages in the own mailbox. The node
then stopped at the wrong message and the next nodes missed one.
---
 src/training/scoring/mod.rs      | 17 ++++++++++++-----
 src/training/scoring/weights.rs  | 14 ++++----------
 src/training/segmentation/mod.rs |  7 ++++---
 src/utils/rotation_protocol.rs   |  6 ++++++
 4 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index 5743b22..db5aa5c 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -70,8 +70,14 @@ impl Scorer for Training {
         self.scoring.edge_weight = self.calculate_edge_weight();
 
         if self.cluster_nodes.len() > 0 {
-            self.start_node_degrees_rotation(ctx);
-            self.start_edge_weight_rotation(ctx);
+            self.start_node_degrees_rotation();
+            self.start_edge_weight_rotation();
+            for msg in self.scoring.node_degrees_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
+            for msg in self.scoring.edge_weight_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
         } else {
             // non-distributed
             self.score(ctx);
@@ -173,9 +179,6 @@ impl Scorer for Training {
             self.scoring
                 .score_rotation_protocol
                 .start(self.cluster_nodes.len());
-            self.scoring
-                .score_rotation_protocol
-                .resolve_buffer(ctx.address().recipient());
             self.scoring
                 .subscores
                 .insert(own_idx, (scores.clone(), self.scoring.first_empty));
@@ -188,6 +191,10 @@ impl Scorer for Training {
                     first_empty: self.scoring.first_empty,
                 });
             self.scoring.score_rotation_protocol.sent();
+
+            for msg in self.scoring.score_rotation_protocol.take_buffer() {
+                self.handle(msg, ctx);
+            }
         } else {
             self.normalize_score(&mut scores);
             self.scoring.score = Some(scores);
diff --git a/src/training/scoring/weights.rs b/src/training/scoring/weights.rs
index b40a767..3b4c9c2 100644
--- a/src/training/scoring/weights.rs
+++ b/src/training/scoring/weights.rs
@@ -13,8 +13,8 @@ pub(crate) trait ScoringWeights {
     fn count_edges_in_time(&mut self) -> Vec<usize>;
     fn calculate_edge_weight(&mut self) -> HashMap<MaterializedEdge, usize>;
     fn calculate_node_degrees(&mut self) -> HashMap<NodeRef, usize>;
-    fn start_node_degrees_rotation(&mut self, ctx: &mut Context<Training>);
-    fn start_edge_weight_rotation(&mut self, ctx: &mut Context<Training>);
+    fn start_node_degrees_rotation(&mut self);
+    fn start_edge_weight_rotation(&mut self);
     fn init_done(&mut self) -> bool;
 }
 
@@ -115,13 +115,10 @@ impl ScoringWeights for Training {
         node_degrees
     }
 
-    fn start_node_degrees_rotation(&mut self, ctx: &mut Context<Training>) {
+    fn start_node_degrees_rotation(&mut self) {
         self.scoring
             .node_degrees_rotation_protocol
             .start(self.cluster_nodes.len());
-        self.scoring
-            .node_degrees_rotation_protocol
-            .resolve_buffer(ctx.address().recipient());
         self.cluster_nodes
             .get_as(&self.cluster_nodes.get_next_idx().unwrap(), "Training")
             .unwrap()
@@ -136,13 +133,10 @@ impl ScoringWeights for Training {
         self.scoring.node_degrees_rotation_protocol.sent();
     }
 
-    fn start_edge_weight_rotation(&mut self, ctx: &mut Context<Training>) {
+    fn start_edge_weight_rotation(&mut self) {
         self.scoring
             .edge_weight_rotation_protocol
             .start(self.cluster_nodes.len());
-        self.scoring
-            .edge_weight_rotation_protocol
-            .resolve_buffer(ctx.address().recipient());
         self.cluster_nodes
             .get_as(&self.cluster_nodes.get_next_idx().unwrap(), "Training")
             .unwrap()
diff --git a/src/training/segmentation/mod.rs b/src/training/segmentation/mod.rs
index c539853..dfe9fde 100644
--- a/src/training/segmentation/mod.rs
+++ b/src/training/segmentation/mod.rs
@@ -332,9 +332,6 @@ impl Segmenter for Training {
                 self.segmentation
                     .transition_count_protocol
                     .start(self.cluster_nodes.len());
-                self.segmentation
-                    .transition_count_protocol
-                    .resolve_buffer(ctx.address().recipient());
                 // own transitions are among them
                 let transition_count = node_transitions
                     .iter()
@@ -347,6 +344,10 @@ impl Segmenter for Training {
                 self.segmentation.transition_count_protocol.sent();
                 self.segmentation.global_transition_count += transition_count;
                 self.segmentation.transitions_for_nodes = node_transitions;
+
+                for msg in self.segmentation.transition_count_protocol.take_buffer() {
+                    self.handle(msg, ctx);
+                }
             }
             None => {
                 self.segmentation.global_transition_count = self.data_store.count_transitions();
diff --git a/src/utils/rotation_protocol.rs b/src/utils/rotation_protocol.rs
index 91d3418..24dd5ce 100644
--- a/src/utils/rotation_protocol.rs
+++ b/src/utils/rotation_protocol.rs
@@ -40,4 +40,10 @@ impl<T: Message + RemoteMessage + Clone> RotationProtocol<T> {
             rec.do_send(self.buffer.remove(0));
         }
     }
+
+    /// Takes the buffered messages, which have to be handled before any later message,
+    /// because each node must pass them on in the order it received them.
+    pub fn take_buffer(&mut self) -> Vec<T> {
+        std::mem::take(&mut self.buffer)
+    }
 }
-- 
2.43.0


From 09ddd3fe4f1447e2d0d81cf89e8d81e32d3f6b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:43 +0000
Subject: [PATCH 26/36] fix: count the edges of the first time step if there
 are no later ones

---
 src/training/scoring/weights.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/training/scoring/weights.rs b/src/training/scoring/weights.rs
index 3b4c9c2..464fc4e 100644
--- a/src/training/scoring/weights.rs
+++ b/src/training/scoring/weights.rs
@@ -21,9 +21,10 @@ pub(crate) trait ScoringWeights {
 impl ScoringWeights for Training {
     fn count_edges_in_time(&mut self) -> Vec<usize> {
         let start_point = self.transposition.range_start_point.unwrap_or(0);
+        // after all edges in time
         let pseudo_edge = Edge::new(
-            IndependentNode::new(0, 0, 0).into_ref(),
-            IndependentNode::new(0, 0, 0).into_ref(),
+            IndependentNode::new(0, 0, usize::MAX).into_ref(),
+            IndependentNode::new(0, 0, usize::MAX).into_ref(),
         )
         .into_ref();
         let mut edges_in_time = vec![];
-- 
2.43.0


From 5f331e7926da8404cdf277bb8ba17a88305fc62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:25 +0000
Subject: [PATCH 27/36] fix: end the program when a part of it panics instead
 of waiting forever

---
 src/bin/s2gpp.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bin/s2gpp.rs b/src/bin/s2gpp.rs
index c91d4eb..a3add00 100644
--- a/src/bin/s2gpp.rs
+++ b/src/bin/s2gpp.rs
@@ -4,12 +4,20 @@ use structopt::StructOpt;
 use env_logger::Env;
 use s2gpp::{s2gpp, Parameters};
 use std::io::Write;
+use std::{panic, process};
 
 fn main() {
     env_logger::Builder::from_env(Env::default().default_filter_or("info"))
         .format(|buf, record| writeln!(buf, "{} [S2G++]: {}", record.level(), record.args()))
         .init();
 
+    // the other actors would wait forever for one that panicked
+    let print_panic = panic::take_hook();
+    panic::set_hook(Box::new(move |info| {
+        print_panic(info);
+        process::exit(101);
+    }));
+
     let params: Parameters = Parameters::from_args();
     if params.explainability && params.n_cluster_nodes > 1 {
         panic!("The explainability feature is only available in a non-distributed setting.")
-- 
2.43.0


From fd7a8cd0fdc77a99f08bc9226675bd7a49925ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:25 +0000
Subject: [PATCH 28/36] fix: notice if the last part of an output file cannot
 be written

---
 src/training/scoring/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/training/scoring/mod.rs b/src/training/scoring/mod.rs
index db5aa5c..35e26bb 100644
--- a/src/training/scoring/mod.rs
+++ b/src/training/scoring/mod.rs
@@ -273,6 +273,7 @@ impl Scorer for Training {
         for s in score.iter() {
             writer.serialize(s)?;
         }
+        writer.flush()?;
         Ok(())
     }
 }
@@ -405,6 +406,7 @@ impl Handler<QueryClusterContributionResponse> for Training {
             last = Some(ser);
             writer.serialize(ser.to_vec()).unwrap();
         }
+        writer.flush().unwrap();
         ctx.address().do_send(ScoringDone);
     }
 }
-- 
2.43.0


From a1e493b2b6bfd78b119ef0a17dc483f672aa136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:25 +0000
Subject: [PATCH 29/36] fix: reject a column range without columns

---
 src/data_manager/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_manager/mod.rs b/src/data_manager/mod.rs
index 518ec75..390a684 100644
--- a/src/data_manager/mod.rs
+++ b/src/data_manager/mod.rs
@@ -201,7 +201,10 @@ impl Handler<DataPartitionMessage> for DataManager {
             Ordering::Less => (msg.data[0].len() as isize + self.parameters.column_end) as usize,
         };
 
-        let n_columns = until_column - self.parameters.column_start;
+        let n_columns = until_column
+            .checked_sub(self.parameters.column_start)
+            .filter(|n_columns| *n_columns > 0)
+            .expect("The column range selects no column!");
 
         let flat_data: Array1<f32> = msg
             .data
-- 
2.43.0


From 52abc5a7fbfcf7f0b4053c3c7013338dc3a1da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:08 +0000
Subject: [PATCH 30/36] fix: reject values that are not finite when reading a
 file

A NaN or an infinite value in the last row of a file went unnoticed: the run
succeeded and gave every window the score 0. Elsewhere it made the run panic.
---
 src/data_manager/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_manager/mod.rs b/src/data_manager/mod.rs
index 390a684..81ff3e6 100644
--- a/src/data_manager/mod.rs
+++ b/src/data_manager/mod.rs
@@ -213,6 +213,7 @@ impl Handler<DataPartitionMessage> for DataManager {
                 rec.iter()
                     .fromto(self.parameters.column_start, until_column)
                     .map(|b| f32::from_str(b).unwrap())
+                    .inspect(|value| assert!(value.is_finite(), "Not a finite number!"))
                     .collect::<Vec<f32>>()
             })
             .collect();
-- 
2.43.0


From d45eb86043e0015f2937d8c15fc2f2c3dc6db955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:29 +0000
Subject: [PATCH 31/36] fix: notice if the data file cannot be read

A directory as data file made the run count lines that cannot be read, forever.
---
 src/data_manager/data_reader/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/data_manager/data_reader/mod.rs b/src/data_manager/data_reader/mod.rs
index bc2a69e..9d43b63 100644
--- a/src/data_manager/data_reader/mod.rs
+++ b/src/data_manager/data_reader/mod.rs
@@ -28,14 +28,21 @@ pub trait DataReader {
         Self: Actor;
 }
 
+fn count_lines(reader: impl BufRead) -> usize {
+    reader
+        .split(b'\n')
+        .map(|line| line.expect("Could not read the data file!"))
+        .count()
+}
+
 impl DataReader for DataManager {
     fn read_csv(&mut self, file_path: &str, addr: Addr<Self>) {
         let file = File::open(file_path).unwrap();
         let count_reader = BufReader::new(file);
         let n_lines = if self.data_reading.as_ref().unwrap().with_header {
-            count_reader.lines().count() - 1
+            count_lines(count_reader) - 1
         } else {
-            count_reader.lines().count()
+            count_lines(count_reader)
         };
 
         let mut nodes = self.cluster_nodes.clone();
-- 
2.43.0


From 1d7c6d111e09725732f5e717b0e1da9225e21f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:07 +0000
Subject: [PATCH 32/36] fix: reject 0 threads

Without a helper thread, the run waited forever for its first result.
---
 src/training/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/training/mod.rs b/src/training/mod.rs
index d2a9663..bef91bd 100644
--- a/src/training/mod.rs
+++ b/src/training/mod.rs
@@ -103,6 +103,7 @@ impl Training {
 
 impl SyncInterface<f32> for Training {
     fn init(parameters: Parameters) -> Self {
+        assert!(parameters.n_threads > 0, "At least one thread is needed!");
         Self {
             own_addr: None,
             parameters,
-- 
2.43.0


From f9d5529152a9c4bac801e57d2a00bccf322a689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:00 +0000
Subject: [PATCH 33/36] hooks: delays for all indices of a site, and for the
 column and cut helpers

---
 src/data_manager/preprocessor/helper.rs       |  2 ++
 .../intersection_calculation/helper.rs        |  2 ++
 src/training/verif.rs                         | 19 +++++++++++++++----
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/data_manager/preprocessor/helper.rs b/src/data_manager/preprocessor/helper.rs
index 82904de..66f7740 100644
--- a/src/data_manager/preprocessor/helper.rs
+++ b/src/data_manager/preprocessor/helper.rs
@@ -67,6 +67,8 @@ impl Handler<PreprocessColumnMessage> for PreprocessorHelper {
     type Result = ();
 
     fn handle(&mut self, msg: PreprocessColumnMessage, _ctx: &mut Self::Context) -> Self::Result {
+        #[cfg(s2gpp_verif)]
+        crate::verif::delay("column", msg.column);
         let processed_column = self.preprocess(msg.column, msg.std);
         msg.source.do_send(ProcessedColumnMessage {
             column: msg.column,
diff --git a/src/training/intersection_calculation/helper.rs b/src/training/intersection_calculation/helper.rs
index 96c2d3d..726beb4 100644
--- a/src/training/intersection_calculation/helper.rs
+++ b/src/training/intersection_calculation/helper.rs
@@ -43,6 +43,8 @@ impl Handler<IntersectionTaskMessage> for IntersectionCalculationHelper {
     type Result = ();
 
     fn handle(&mut self, msg: IntersectionTaskMessage, _ctx: &mut Self::Context) -> Self::Result {
+        #[cfg(s2gpp_verif)]
+        crate::verif::delay("cuts", msg.tasks.first().map_or(0, |task| task.segment_id));
         let results = msg.tasks.into_iter().map(|task| self.work(task)).collect();
         msg.source
             .do_send(IntersectionResultMessage { results });
diff --git a/src/training/verif.rs b/src/training/verif.rs
index 0e470d2..65ef416 100644
--- a/src/training/verif.rs
+++ b/src/training/verif.rs
@@ -55,6 +55,7 @@ pub enum Event {
 static TRACE: Mutex<Vec<Event>> = Mutex::new(vec![]);
 static INJECTED_POINTS: Mutex<Option<(usize, Vec<Vec<f32>>)>> = Mutex::new(None);
 static DELAYS: Mutex<Option<HashMap<(String, usize), u64>>> = Mutex::new(None);
+pub const ANY_INDEX: usize = 1 << 40;
 static CHANNEL: AtomicUsize = AtomicUsize::new(0);
 
 /// Returns everything recorded since the last call.
@@ -67,7 +68,8 @@ pub fn inject_points(offset: usize, points: Vec<Vec<f32>>) {
     *lock(&INJECTED_POINTS) = Some((offset, points));
 }
 
-/// Delay, in microseconds, for a (site, index) that is passed.
+/// Delay, in microseconds, for a (site, index) that is passed. An index from `ANY_INDEX` on stands
+/// for all indices that have no delay of their own: each gets its own share of that delay.
 pub fn set_delays(delays: HashMap<(String, usize), u64>) {
     *lock(&DELAYS) = Some(delays);
 }
@@ -91,9 +93,18 @@ fn record(event: Event) {
 }
 
 pub(crate) fn delay(site: &str, index: usize) {
-    let micros = lock(&DELAYS)
-        .as_ref()
-        .and_then(|delays| delays.get(&(site.to_string(), index)).copied());
+    let micros = lock(&DELAYS).as_ref().and_then(|delays| {
+        delays
+            .get(&(site.to_string(), index))
+            .copied()
+            .or_else(|| {
+                let ((_, seed), micros) = delays
+                    .iter()
+                    .find(|((s, i), _)| s == site && *i >= ANY_INDEX)?;
+                let mix = (index as u64 ^ *seed as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
+                Some(micros * (mix >> 61) / 7)
+            })
+    });
     if let Some(micros) = micros {
         std::thread::sleep(Duration::from_micros(micros));
     }
-- 
2.43.0


From befe1471d933bd2c5ed885ab94407c19036830a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:38 +0000
Subject: [PATCH 34/36] hooks: delays at the borders of the later stages

---
 src/training/verif.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/training/verif.rs b/src/training/verif.rs
index 65ef416..ddc47bf 100644
--- a/src/training/verif.rs
+++ b/src/training/verif.rs
@@ -162,6 +162,7 @@ pub(crate) fn rotated(training: &mut Training) -> bool {
             .map(|p| (p.get_id(), p.clone_coordinates().to_vec(), p.get_segment()))
             .collect(),
     ));
+    delay("stage", 7);
     lock(&DELAYS)
         .as_ref()
         .map(|delays| delays.contains_key(&("rotated".to_string(), 0)))
@@ -183,6 +184,7 @@ pub(crate) fn segmented(training: &Training) {
             })
             .collect(),
     ));
+    delay("stage", 8);
 }
 
 pub(crate) fn intersected(training: &Training) {
@@ -195,6 +197,7 @@ pub(crate) fn intersected(training: &Training) {
         }
     }
     record(Event::Intersections(all));
+    delay("stage", 9);
 }
 
 pub(crate) fn clustered(segment: usize, labels: &[usize], centers: &Array2<f32>) {
@@ -220,6 +223,7 @@ pub(crate) fn nodes_estimated(training: &Training) {
         }
     }
     record(Event::Nodes(all));
+    delay("stage", 10);
 }
 
 fn edges(training: &Training) -> Vec<(TracedNode, TracedNode)> {
@@ -239,10 +243,12 @@ fn edges(training: &Training) -> Vec<(TracedNode, TracedNode)> {
 
 pub(crate) fn edges_estimated(training: &Training) {
     record(Event::Edges(edges(training)));
+    delay("stage", 11);
 }
 
 pub(crate) fn scoring_starts(training: &Training) {
     record(Event::ScoringEdges(edges(training)));
+    delay("stage", 12);
 }
 
 pub(crate) fn scored(training: &Training) {
-- 
2.43.0


From 1aa27a8a86d38f3f88c95bcf4c9dfe3e078e7a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:31 +0000
Subject: [PATCH 35/36] hooks: delays by order of passing

---
 src/data_manager/preprocessor/helper.rs          |  2 +-
 src/training/intersection_calculation/helper.rs  |  2 +-
 .../node_estimation/multi_kde/actors/helper.rs   |  2 +-
 src/training/scoring/helper.rs                   |  2 +-
 src/training/verif.rs                            | 16 ++++++++++++++++
 5 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/data_manager/preprocessor/helper.rs b/src/data_manager/preprocessor/helper.rs
index 66f7740..e2a55f5 100644
--- a/src/data_manager/preprocessor/helper.rs
+++ b/src/data_manager/preprocessor/helper.rs
@@ -68,7 +68,7 @@ impl Handler<PreprocessColumnMessage> for PreprocessorHelper {
 
     fn handle(&mut self, msg: PreprocessColumnMessage, _ctx: &mut Self::Context) -> Self::Result {
         #[cfg(s2gpp_verif)]
-        crate::verif::delay("column", msg.column);
+        crate::verif::delay_next("column");
         let processed_column = self.preprocess(msg.column, msg.std);
         msg.source.do_send(ProcessedColumnMessage {
             column: msg.column,
diff --git a/src/training/intersection_calculation/helper.rs b/src/training/intersection_calculation/helper.rs
index 726beb4..a4c8e3d 100644
--- a/src/training/intersection_calculation/helper.rs
+++ b/src/training/intersection_calculation/helper.rs
@@ -44,7 +44,7 @@ impl Handler<IntersectionTaskMessage> for IntersectionCalculationHelper {
 
     fn handle(&mut self, msg: IntersectionTaskMessage, _ctx: &mut Self::Context) -> Self::Result {
         #[cfg(s2gpp_verif)]
-        crate::verif::delay("cuts", msg.tasks.first().map_or(0, |task| task.segment_id));
+        crate::verif::delay_next("cuts");
         let results = msg.tasks.into_iter().map(|task| self.work(task)).collect();
         msg.source
             .do_send(IntersectionResultMessage { results });
diff --git a/src/training/node_estimation/multi_kde/actors/helper.rs b/src/training/node_estimation/multi_kde/actors/helper.rs
index e919b61..0328816 100644
--- a/src/training/node_estimation/multi_kde/actors/helper.rs
+++ b/src/training/node_estimation/multi_kde/actors/helper.rs
@@ -96,7 +96,7 @@ impl Handler<EstimatorTask> for EstimatorHelper {
 
     fn handle(&mut self, msg: EstimatorTask, _ctx: &mut Self::Context) -> Self::Result {
         #[cfg(s2gpp_verif)]
-        crate::verif::delay("kde", msg.data_range.start);
+        crate::verif::delay_next("kde");
         let estimate = self.evaluate(msg.data_range);
         self.receiver
             .do_send(EstimatorResponse { estimate });
diff --git a/src/training/scoring/helper.rs b/src/training/scoring/helper.rs
index a5f22a1..fe6f3d9 100644
--- a/src/training/scoring/helper.rs
+++ b/src/training/scoring/helper.rs
@@ -44,7 +44,7 @@ impl Handler<ScoringHelperInstruction> for ScoringHelper {
 
     fn handle(&mut self, msg: ScoringHelperInstruction, _ctx: &mut Self::Context) -> Self::Result {
         #[cfg(s2gpp_verif)]
-        crate::verif::delay("scoring", msg.start);
+        crate::verif::delay_next("scoring");
         let mut single_scores: Vec<f32> = vec![];
         let mut first_empty = false;
 
diff --git a/src/training/verif.rs b/src/training/verif.rs
index ddc47bf..533e99d 100644
--- a/src/training/verif.rs
+++ b/src/training/verif.rs
@@ -57,6 +57,7 @@ static INJECTED_POINTS: Mutex<Option<(usize, Vec<Vec<f32>>)>> = Mutex::new(None)
 static DELAYS: Mutex<Option<HashMap<(String, usize), u64>>> = Mutex::new(None);
 pub const ANY_INDEX: usize = 1 << 40;
 static CHANNEL: AtomicUsize = AtomicUsize::new(0);
+static PASSED: Mutex<Option<HashMap<String, usize>>> = Mutex::new(None);
 
 /// Returns everything recorded since the last call.
 pub fn take_trace() -> Vec<Event> {
@@ -78,6 +79,7 @@ pub fn reset() {
     lock(&TRACE).clear();
     *lock(&INJECTED_POINTS) = None;
     *lock(&DELAYS) = None;
+    *lock(&PASSED) = None;
     CHANNEL.store(0, Ordering::SeqCst);
 }
 
@@ -110,6 +112,20 @@ pub(crate) fn delay(site: &str, index: usize) {
     }
 }
 
+/// The index is how often the site was passed before.
+pub(crate) fn delay_next(site: &str) {
+    let index = {
+        let mut passed = lock(&PASSED);
+        let count = passed
+            .get_or_insert_with(HashMap::new)
+            .entry(site.to_string())
+            .or_insert(0);
+        *count += 1;
+        *count - 1
+    };
+    delay(site, index);
+}
+
 pub(crate) fn loaded(msg: &DataLoadedAndProcessed) {
     record(Event::Loaded {
         min: msg.dataset_stats.min_col.clone(),
-- 
2.43.0


From ffb3c9481aff00a234cde9c7f06c8175542830d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:08 +0000
Subject: [PATCH 36/36] fix: count rows, not lines, when a file is split for a
 cluster

---
 src/data_manager/data_reader/mod.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/data_manager/data_reader/mod.rs b/src/data_manager/data_reader/mod.rs
index 9d43b63..48fb42b 100644
--- a/src/data_manager/data_reader/mod.rs
+++ b/src/data_manager/data_reader/mod.rs
@@ -28,22 +28,20 @@ pub trait DataReader {
         Self: Actor;
 }
 
-fn count_lines(reader: impl BufRead) -> usize {
-    reader
-        .split(b'\n')
-        .map(|line| line.expect("Could not read the data file!"))
+/// Counts the rows as they are read later, i.e. without empty lines.
+fn count_rows(file: File, with_header: bool) -> usize {
+    ReaderBuilder::new()
+        .has_headers(with_header)
+        .from_reader(file)
+        .into_byte_records()
+        .map(|row| row.expect("Could not read the data file!"))
         .count()
 }
 
 impl DataReader for DataManager {
     fn read_csv(&mut self, file_path: &str, addr: Addr<Self>) {
         let file = File::open(file_path).unwrap();
-        let count_reader = BufReader::new(file);
-        let n_lines = if self.data_reading.as_ref().unwrap().with_header {
-            count_lines(count_reader) - 1
-        } else {
-            count_lines(count_reader)
-        };
+        let n_lines = count_rows(file, self.data_reading.as_ref().unwrap().with_header);
 
         let mut nodes = self.cluster_nodes.clone();
         nodes.change_ids("DataManager");
-- 
2.43.0

