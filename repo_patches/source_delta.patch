From 9f2157a49f32718345fa5c008f7ebd0d739a1220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 01/50] fix: surface a panic in the input of BroadcastExec as
 an error to every consumer

A panic while the build side was being evaluated closed the queue, which consumers
saw as a normal end of stream with rows missing.
---
 src/execution_plans/broadcast.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/execution_plans/broadcast.rs b/src/execution_plans/broadcast.rs
index 4d06d4d..569380d 100644
--- a/src/execution_plans/broadcast.rs
+++ b/src/execution_plans/broadcast.rs
@@ -1,6 +1,7 @@
 use crate::common::{OnceLockResult, require_one_child};
 use crossbeam_queue::SegQueue;
 use datafusion::arrow::datatypes::SchemaRef;
+use datafusion::common::internal_datafusion_err;
 use datafusion::common::runtime::SpawnedTask;
 use datafusion::common::tree_node::TreeNodeRecursion;
 use datafusion::error::{DataFusionError, Result};
@@ -11,8 +12,10 @@ use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
 use datafusion::physical_plan::{
     DisplayAs, DisplayFormatType, ExecutionPlan, Partitioning, PlanProperties, internal_err,
 };
-use futures::{Stream, StreamExt};
+use futures::{FutureExt, Stream, StreamExt};
+use std::any::Any;
 use std::fmt::Formatter;
+use std::panic::AssertUnwindSafe;
 use std::pin::Pin;
 use std::sync::{Arc, Mutex, OnceLock};
 use std::task::{Context, Poll};
@@ -182,7 +185,13 @@ impl ExecutionPlan for BroadcastExec {
             let task = SpawnedTask::spawn(async move {
                 let mem_consumer = MemoryConsumer::new(format!("BroadcastExec[{real_partition}]"));
 
-                while let Some(msg) = stream.next().await {
+                // A panic in the input must reach the consumers as an error: unwinding past this
+                // point would close the queue, which looks like a normal end of stream to them.
+                while let Some(msg) = AssertUnwindSafe(stream.next())
+                    .catch_unwind()
+                    .await
+                    .unwrap_or_else(|panic| Some(Err(panic_to_error(panic))))
+                {
                     match msg {
                         Ok(record_batch) => {
                             let reservation = mem_consumer.clone_with_new_id().register(&pool);
@@ -219,6 +228,16 @@ impl ExecutionPlan for BroadcastExec {
     }
 }
 
+/// Converts the payload of a panic into an error carrying the panic message.
+fn panic_to_error(panic: Box<dyn Any + Send>) -> DataFusionError {
+    let msg = panic
+        .downcast_ref::<&str>()
+        .copied()
+        .or_else(|| panic.downcast_ref::<String>().map(|v| v.as_str()))
+        .unwrap_or("unknown panic");
+    internal_datafusion_err!("BroadcastExec input panicked: {msg}")
+}
+
 #[derive(Debug, Clone, Copy)]
 struct BroadcastState {
     len: usize,
-- 
2.43.0


From 47c15388e9fd106dda778fe76ae4c3e1dee5f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 02/50] fix: plan file scans without bytes with one task
 instead of zero (and never divide by zero)

---
 src/events/defaults/file_scan_config.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index f81bd1e..f1a7a24 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -26,9 +26,11 @@ pub(crate) fn file_scan_config_desired_task_count(
         }
     }
 
+    // Scans without a single byte still need one task for executing them.
     let task_count = total_bytes
-        .div_ceil(d_cfg.file_scan_config_bytes_per_partition)
-        .div_ceil(cfg.target_partitions());
+        .div_ceil(d_cfg.file_scan_config_bytes_per_partition.max(1))
+        .div_ceil(cfg.target_partitions().max(1))
+        .max(1);
 
     Some(Ok(DesiredTaskCountEventResponse::desired(task_count)))
 }
-- 
2.43.0


From c6d4b11ec0bc467003e70074156b05f3f7d8d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 03/50] fix: keep file groups together when splitting a scan
 with declared output partitioning

---
 src/events/defaults/file_scan_config.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index f1a7a24..7ac677f 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -42,19 +42,17 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
     let file_scan = dse.data_source().downcast_ref::<FileScanConfig>()?;
     let partition_count = ev.plan.output_partitioning().partition_count();
 
+    let target_groups = partition_count * ev.task_count;
     let rebalanced = if file_scan.output_partitioning.is_some() {
-        let all_partitioned_files = file_scan
-            .file_groups
-            .iter()
-            .flat_map(|file_group| file_group.iter().cloned())
-            .collect::<Vec<_>>();
-        rebalance_round_robin(all_partitioned_files, partition_count * ev.task_count)
+        // Each file group is one partition of the declared partitioning, so the files in it need
+        // to stay together, and in the same place for all the scans that are partitioned alike.
+        rebalance_round_robin(file_scan.file_groups.clone(), target_groups)
             .into_iter()
-            .map(FileGroup::new)
+            .map(|mut groups| groups.pop().unwrap_or_else(|| FileGroup::new(vec![])))
             .collect::<Vec<_>>()
     } else {
         FileGroupPartitioner::new()
-            .with_target_partitions(partition_count * ev.task_count)
+            .with_target_partitions(target_groups)
             .with_repartition_file_min_size(0)
             .with_preserve_order_within_groups(!file_scan.output_ordering.is_empty())
             .repartition_file_groups(&file_scan.file_groups)
-- 
2.43.0


From 8743b67b83b1ec40619f3cedee1a2271e492d71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 04/50] fix: give every task of a split file scan the same
 number of partitions

---
 src/events/defaults/file_scan_config.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index 7ac677f..d10a122 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -43,7 +43,7 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
     let partition_count = ev.plan.output_partitioning().partition_count();
 
     let target_groups = partition_count * ev.task_count;
-    let rebalanced = if file_scan.output_partitioning.is_some() {
+    let mut rebalanced = if file_scan.output_partitioning.is_some() {
         // Each file group is one partition of the declared partitioning, so the files in it need
         // to stay together, and in the same place for all the scans that are partitioned alike.
         rebalance_round_robin(file_scan.file_groups.clone(), target_groups)
@@ -60,6 +60,10 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
             .into_iter()
             .collect()
     };
+    // All the tasks must have the same number of partitions, even if some of them are empty.
+    rebalanced.resize_with(rebalanced.len().next_multiple_of(ev.task_count), || {
+        FileGroup::new(vec![])
+    });
 
     let mut file_scan_template = file_scan.clone();
     file_scan_template.file_groups.clear();
-- 
2.43.0


From b0280d90424f981b67f0102dbe1aedb4eb68f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 05/50] fix: only split files by byte ranges when their file
 source supports it

---
 src/events/defaults/file_scan_config.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index d10a122..7061299 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -5,7 +5,7 @@ use crate::events::{
 };
 use crate::execution_plans::DistributedLeafExec;
 use datafusion::catalog::memory::DataSourceExec;
-use datafusion::datasource::physical_plan::{FileGroup, FileGroupPartitioner, FileScanConfig};
+use datafusion::datasource::physical_plan::{FileGroup, FileScanConfig};
 use datafusion::error::Result;
 use datafusion::physical_plan::ExecutionPlanProperties;
 use std::sync::Arc;
@@ -51,14 +51,18 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
             .map(|mut groups| groups.pop().unwrap_or_else(|| FileGroup::new(vec![])))
             .collect::<Vec<_>>()
     } else {
-        FileGroupPartitioner::new()
-            .with_target_partitions(target_groups)
-            .with_repartition_file_min_size(0)
-            .with_preserve_order_within_groups(!file_scan.output_ordering.is_empty())
-            .repartition_file_groups(&file_scan.file_groups)
-            .unwrap_or_else(|| file_scan.file_groups.clone())
-            .into_iter()
-            .collect()
+        // Only the file source knows whether its files can be read by byte ranges.
+        let repartitioned = file_scan.file_source().repartitioned(
+            target_groups,
+            0,
+            file_scan.output_ordering.first().cloned(),
+            file_scan,
+        );
+        match repartitioned {
+            Ok(Some(repartitioned)) => repartitioned.file_groups,
+            Ok(None) => file_scan.file_groups.clone(),
+            Err(e) => return Some(Err(e)),
+        }
     };
     // All the tasks must have the same number of partitions, even if some of them are empty.
     rebalanced.resize_with(rebalanced.len().next_multiple_of(ev.task_count), || {
-- 
2.43.0


From ed287b0bbb33a7bd916926f59794b8cedd593ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 06/50] fix: keep the fetch of a broadcast build side below the
 broadcast

---
 src/distributed_planner/insert_broadcast.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/distributed_planner/insert_broadcast.rs b/src/distributed_planner/insert_broadcast.rs
index 7fb72cf..25d217c 100644
--- a/src/distributed_planner/insert_broadcast.rs
+++ b/src/distributed_planner/insert_broadcast.rs
@@ -21,7 +21,7 @@ use super::DistributedConfig;
 /// The pass searches for joins whose left input can be broadcast without duplicating output rows:
 /// CollectLeft [HashJoinExec]s, [NestedLoopJoinExec]s, and [CrossJoinExec]s. Then it does one of
 /// two things:
-///     1. If the build child is a [CoalescePartitionsExec] -> Insert a [BroadcastExec] directly
+///     1. If the build child is a fetch-less [CoalescePartitionsExec] -> Insert a [BroadcastExec] directly
 ///        below it.
 ///     2. Otherwise (means it is already single partitioned going into the join) -> Insert a
 ///        [BroadcastExec] -> [CoalescePartitionsExec] below the join but above its
@@ -133,17 +133,18 @@ pub(super) fn insert_broadcast_execs(
             return Ok(Transformed::no(node));
         };
 
-        let (broadcast_input, coalesce_fetch) = build_child
+        // A CoalescePartitionsExec with a fetch must remain below the broadcast: on top of it, every
+        // consumer task would keep its own choice of rows.
+        let broadcast_input = build_child
             .downcast_ref::<CoalescePartitionsExec>()
-            .map_or_else(
-                || (Arc::clone(build_child), None),
-                |coalesce| (Arc::clone(coalesce.input()), coalesce.fetch()),
-            );
+            .filter(|coalesce| coalesce.fetch().is_none())
+            .map_or(*build_child, |coalesce| coalesce.input());
 
         // consumer_task_count=1 is a placeholder and will be corrected during optimizer rule.
-        let broadcast: Arc<dyn ExecutionPlan> = Arc::new(BroadcastExec::new(broadcast_input, 1));
+        let broadcast: Arc<dyn ExecutionPlan> =
+            Arc::new(BroadcastExec::new(Arc::clone(broadcast_input), 1));
         let new_build_child: Arc<dyn ExecutionPlan> =
-            Arc::new(CoalescePartitionsExec::new(broadcast).with_fetch(coalesce_fetch));
+            Arc::new(CoalescePartitionsExec::new(broadcast));
 
         let mut new_children: Vec<Arc<dyn ExecutionPlan>> = children.into_iter().cloned().collect();
         new_children[0] = new_build_child;
-- 
2.43.0


From 61911d154fb5709dee9e742bfc2778f84cec18ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 07/50] fix: partial reduce of grouping sets

---
 .../partial_reduce_below_network_shuffles.rs  | 40 ++-----------------
 1 file changed, 4 insertions(+), 36 deletions(-)

diff --git a/src/distributed_planner/partial_reduce_below_network_shuffles.rs b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
index b8c16f3..811e53d 100644
--- a/src/distributed_planner/partial_reduce_below_network_shuffles.rs
+++ b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
@@ -5,8 +5,7 @@ use datafusion::common::DataFusionError;
 use datafusion::common::tree_node::{Transformed, TreeNode};
 use datafusion::config::ConfigOptions;
 use datafusion::physical_expr::Partitioning;
-use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode, PhysicalGroupBy};
-use datafusion::physical_plan::expressions::Column;
+use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode};
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::{ChildrenPropertiesMode, ExecutionPlan, ReplaceChildrenOptions};
 use std::sync::Arc;
@@ -47,40 +46,9 @@ pub(crate) fn partial_reduce_below_network_shuffles(
             return Ok(Transformed::no(plan));
         }
 
-        // Group-by columns in the Partial output schema appear at indices 0..N-1.
-        let partial_reduce_group_by = {
-            let orig = agg.group_expr();
-            let exprs = orig
-                .expr()
-                .iter()
-                .enumerate()
-                .map(|(i, (_, name))| {
-                    (
-                        std::sync::Arc::new(Column::new(name, i))
-                            as std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>,
-                        name.clone(),
-                    )
-                })
-                .collect();
-            let null_exprs = orig
-                .null_expr()
-                .iter()
-                .enumerate()
-                .map(|(i, (_, name))| {
-                    (
-                        std::sync::Arc::new(Column::new(name, i))
-                            as std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>,
-                        name.clone(),
-                    )
-                })
-                .collect();
-            PhysicalGroupBy::new(
-                exprs,
-                null_exprs,
-                orig.groups().to_vec(),
-                orig.has_grouping_set(),
-            )
-        };
+        // Group-by columns in the Partial output schema appear at indices 0..N-1. Grouping sets were
+        // already expanded by the Partial aggregation, and are just one more group-by column here.
+        let partial_reduce_group_by = agg.group_expr().as_final();
 
         // PartialReduce wraps the existing RepartitionExec, running on
         // hash-partitioned data where same keys are already in the same partition.
-- 
2.43.0


From 09e2f9b3bfad84b26c5fe96895fc2bc013ee43e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 08/50] fix: run nodes that rely on a single partition in a
 single task

---
 .../inject_network_boundaries.rs              | 35 +++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 3414350..569e804 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -14,7 +14,7 @@ use crate::{
 use async_trait::async_trait;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
 use datafusion::common::{HashMap, JoinType, Result, plan_err};
-use datafusion::physical_expr::Partitioning;
+use datafusion::physical_expr::{Distribution, Partitioning};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::execution_plan::CardinalityEffect;
 use datafusion::physical_plan::joins::{
@@ -23,7 +23,8 @@ use datafusion::physical_plan::joins::{
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{
-    ChildrenPropertiesMode, ExecutionPlan, PlanProperties, ReplaceChildrenOptions,
+    ChildrenPropertiesMode, ExecutionPlan, ExecutionPlanProperties, PlanProperties,
+    ReplaceChildrenOptions,
 };
 use datafusion::prelude::SessionConfig;
 use std::any::TypeId;
@@ -312,6 +313,10 @@ async fn _inject_network_boundaries(
         }
         task_count
     };
+    let task_count = match relies_on_single_partition(&plan) {
+        true => Maximum(1),
+        false => task_count,
+    };
 
     let plan = plan.replace_children(
         processed_children,
@@ -402,6 +407,32 @@ async fn _inject_network_boundaries(
     }
 }
 
+/// Whether `plan` is only correct because there is exactly one partition of its input (or of its
+/// output, if it applies a fetch). That one partition exists once per task, so such a node needs
+/// to run in a single task.
+fn relies_on_single_partition(plan: &Arc<dyn ExecutionPlan>) -> bool {
+    if plan.fetch().is_some() && plan.output_partitioning().partition_count() == 1 {
+        return true;
+    }
+    plan.children()
+        .into_iter()
+        .zip(plan.input_distribution_requirements().into_per_child())
+        .any(|(child, distribution)| {
+            // A broadcast build side is complete in every task.
+            let is_broadcast =
+                child.is::<CoalescePartitionsExec>() && child.children()[0].is::<BroadcastExec>();
+            let partitioning = child.output_partitioning();
+            match distribution {
+                Distribution::SinglePartition => !is_broadcast,
+                Distribution::KeyPartitioned(_) => {
+                    partitioning.partition_count() == 1
+                        && !matches!(partitioning, Partitioning::Hash(_, _))
+                }
+                _ => false,
+            }
+        })
+}
+
 /// Walks `plan` top-down and records the given `task_count` for every node up until the next
 /// network boundary, scaling leaves and rebuilding intermediate nodes as needed.
 ///
-- 
2.43.0


From a5a67a2fa10701347beec6cad6d5172971698a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 09/50] fix: restore the order that a network shuffle loses by
 interleaving tasks

---
 .../inject_network_boundaries.rs              | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 569e804..498347d 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -21,6 +21,7 @@ use datafusion::physical_plan::joins::{
     CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode,
 };
 use datafusion::physical_plan::repartition::RepartitionExec;
+use datafusion::physical_plan::sorts::sort::SortExec;
 use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{
     ChildrenPropertiesMode, ExecutionPlan, ExecutionPlanProperties, PlanProperties,
@@ -329,6 +330,7 @@ async fn _inject_network_boundaries(
     if let Some(r_exec) = plan.downcast_ref::<RepartitionExec>()
         && matches!(r_exec.partitioning(), Partitioning::Hash(_, _))
     {
+        let preserve_order = r_exec.preserve_order();
         let input_stage = LocalStage {
             query_id: nb_ctx.query_id,
             num: nb_ctx.fetch_add_stage_id(),
@@ -340,11 +342,27 @@ async fn _inject_network_boundaries(
             .nb_builder
             .build(input_stage, TypeId::of::<NetworkShuffleExec>(), nb_ctx)
             .await?;
+        // The single-node plan might rely on the repartition maintaining the order of its input,
+        // but a network shuffle interleaves the rows coming from the different input tasks, so the
+        // order needs to be restored.
+        let mut input_properties = result.input_properties;
+        let mut lost_ordering = None;
+        if preserve_order || result.input_stage.task_count() > 1 {
+            lost_ordering = input_properties.output_ordering().cloned();
+            let mut eq_properties = input_properties.equivalence_properties().clone();
+            eq_properties.clear_orderings();
+            Arc::make_mut(&mut input_properties).set_eq_properties(eq_properties);
+        }
         let nb = Arc::new(NetworkShuffleExec::from_stage(
             result.input_stage,
-            result.input_properties,
+            input_properties,
         ));
-        Ok(nb_ctx.plan_with_task_count(nb, result.consumer_task_count))
+        let nb = nb_ctx.plan_with_task_count(nb, result.consumer_task_count);
+        let Some(ordering) = lost_ordering else {
+            return Ok(nb);
+        };
+        let sort = SortExec::new(ordering, nb).with_preserve_partitioning(true);
+        Ok(nb_ctx.plan_with_task_count(Arc::new(sort), result.consumer_task_count))
     }
     // Upon reaching a broadcast, we need to introduce a network broadcast right above it.
     else if let Some(_b_exec) = plan.downcast_ref::<BroadcastExec>() {
-- 
2.43.0


From 8d77cc0a651dfbf22e1dfbc45fc7803e2455f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 10/50] fix: do not distribute recursive queries

---
 src/distributed_planner/distributed_query_planner.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/distributed_planner/distributed_query_planner.rs b/src/distributed_planner/distributed_query_planner.rs
index d312b32..bb8fb81 100644
--- a/src/distributed_planner/distributed_query_planner.rs
+++ b/src/distributed_planner/distributed_query_planner.rs
@@ -18,6 +18,7 @@ use datafusion::execution::context::QueryPlanner;
 use datafusion::logical_expr::LogicalPlan;
 use datafusion::physical_plan::analyze::AnalyzeExec;
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
+use datafusion::physical_plan::recursive_query::RecursiveQueryExec;
 use datafusion::physical_plan::{
     ChildrenPropertiesMode, ExecutionPlan, ExecutionPlanProperties, ReplaceChildrenOptions,
 };
@@ -136,6 +137,12 @@ fn create_distributed_plan(
             ));
         }
 
+        // The iterations of a recursive query communicate through an in-memory work table, so all
+        // its nodes need to live in the same process.
+        if original_plan.exists(|plan| Ok(plan.is::<RecursiveQueryExec>()))? {
+            return Ok(original_plan);
+        }
+
         let mut plan = Arc::clone(&original_plan);
 
         let cfg = session.config_options();
-- 
2.43.0


From be36ae9b5073963740f1e9250054f9304c18b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 11/50] fix: restore the order that a network broadcast loses
 by interleaving tasks

---
 .../inject_network_boundaries.rs              | 64 +++++++++++++------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 498347d..7bb377f 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -14,7 +14,7 @@ use crate::{
 use async_trait::async_trait;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
 use datafusion::common::{HashMap, JoinType, Result, plan_err};
-use datafusion::physical_expr::{Distribution, Partitioning};
+use datafusion::physical_expr::{Distribution, LexOrdering, Partitioning};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::execution_plan::CardinalityEffect;
 use datafusion::physical_plan::joins::{
@@ -214,6 +214,23 @@ impl<'a> InjectNetworkBoundaryContext<'a> {
         Ok(task_count)
     }
 
+    /// Sorts the output of a network boundary if it lost the ordering that its input had.
+    fn restore_ordering(
+        &self,
+        nb: Arc<dyn ExecutionPlan>,
+        lost_ordering: Option<LexOrdering>,
+        task_count: TaskCountAnnotation,
+    ) -> Arc<dyn ExecutionPlan> {
+        let nb = self.plan_with_task_count(nb, task_count);
+        match lost_ordering {
+            None => nb,
+            Some(ordering) => {
+                let sort = SortExec::new(ordering, nb).with_preserve_partitioning(true);
+                self.plan_with_task_count(Arc::new(sort), task_count)
+            }
+        }
+    }
+
     fn fetch_add_stage_id(&self) -> usize {
         self.stage_id.fetch_add(1, Ordering::Acquire)
     }
@@ -342,27 +359,14 @@ async fn _inject_network_boundaries(
             .nb_builder
             .build(input_stage, TypeId::of::<NetworkShuffleExec>(), nb_ctx)
             .await?;
-        // The single-node plan might rely on the repartition maintaining the order of its input,
-        // but a network shuffle interleaves the rows coming from the different input tasks, so the
-        // order needs to be restored.
-        let mut input_properties = result.input_properties;
-        let mut lost_ordering = None;
-        if preserve_order || result.input_stage.task_count() > 1 {
-            lost_ordering = input_properties.output_ordering().cloned();
-            let mut eq_properties = input_properties.equivalence_properties().clone();
-            eq_properties.clear_orderings();
-            Arc::make_mut(&mut input_properties).set_eq_properties(eq_properties);
-        }
+        let interleaves_rows = preserve_order || result.input_stage.task_count() > 1;
+        let (input_properties, lost_ordering) =
+            split_lost_ordering(result.input_properties, interleaves_rows);
         let nb = Arc::new(NetworkShuffleExec::from_stage(
             result.input_stage,
             input_properties,
         ));
-        let nb = nb_ctx.plan_with_task_count(nb, result.consumer_task_count);
-        let Some(ordering) = lost_ordering else {
-            return Ok(nb);
-        };
-        let sort = SortExec::new(ordering, nb).with_preserve_partitioning(true);
-        Ok(nb_ctx.plan_with_task_count(Arc::new(sort), result.consumer_task_count))
+        Ok(nb_ctx.restore_ordering(nb, lost_ordering, result.consumer_task_count))
     }
     // Upon reaching a broadcast, we need to introduce a network broadcast right above it.
     else if let Some(_b_exec) = plan.downcast_ref::<BroadcastExec>() {
@@ -377,11 +381,14 @@ async fn _inject_network_boundaries(
             .nb_builder
             .build(input_stage, TypeId::of::<NetworkBroadcastExec>(), nb_ctx)
             .await?;
+        let interleaves_rows = result.input_stage.task_count() > 1;
+        let (input_properties, lost_ordering) =
+            split_lost_ordering(result.input_properties, interleaves_rows);
         let nb = Arc::new(NetworkBroadcastExec::from_stage(
             result.input_stage,
-            result.input_properties,
+            input_properties,
         ));
-        Ok(nb_ctx.plan_with_task_count(nb, result.consumer_task_count))
+        Ok(nb_ctx.restore_ordering(nb, lost_ordering, result.consumer_task_count))
     }
     // If the parent of the current node is either a `CoalescePartitionsExec` or a
     // `SortPreservingMergeExec`, a network boundary below it is necessary.
@@ -451,6 +458,23 @@ fn relies_on_single_partition(plan: &Arc<dyn ExecutionPlan>) -> bool {
         })
 }
 
+/// The single-node plan might rely on a repartition or a broadcast maintaining the order of its
+/// input, but a network boundary that interleaves the rows coming from different input tasks does
+/// not. Returns the properties without any ordering, and the ordering that was removed from them.
+fn split_lost_ordering(
+    mut properties: Arc<PlanProperties>,
+    interleaves_rows: bool,
+) -> (Arc<PlanProperties>, Option<LexOrdering>) {
+    if !interleaves_rows {
+        return (properties, None);
+    }
+    let ordering = properties.output_ordering().cloned();
+    let mut eq_properties = properties.equivalence_properties().clone();
+    eq_properties.clear_orderings();
+    Arc::make_mut(&mut properties).set_eq_properties(eq_properties);
+    (properties, ordering)
+}
+
 /// Walks `plan` top-down and records the given `task_count` for every node up until the next
 /// network boundary, scaling leaves and rebuilding intermediate nodes as needed.
 ///
-- 
2.43.0


From 5d8f3fabefd737664c14f7e076180d6c82b7be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 12/50] fix: fall back when no leaf row was pulled yet instead
 of dividing by zero

---
 src/coordinator/prepare_dynamic_plan.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/prepare_dynamic_plan.rs b/src/coordinator/prepare_dynamic_plan.rs
index dff4e28..bc70efd 100644
--- a/src/coordinator/prepare_dynamic_plan.rs
+++ b/src/coordinator/prepare_dynamic_plan.rs
@@ -274,7 +274,9 @@ async fn gather_runtime_statistics(
         // legitimately-empty stages (which would otherwise report `rows_pulled_from_leafs == 0` and
         // make the completion fraction 0, blowing up the `ready / fraction` extrapolation below).
         1.0
-    } else if let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan) {
+    } else if rows_pulled_from_leafs > 0
+        && let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan)
+    {
         // The stage is still producing. Estimate how far along it is from the fraction of the
         // driver-path leaf rows consumed so far.
         (rows_pulled_from_leafs as f32 / estimated_driver_path_leaf_rows as f32).min(1.0)
-- 
2.43.0


From a4e8d723b3448b73d4f4cad3901c90c1c702b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 13/50] fix: keep a RepartitionExec that heads a stage but is
 not its shuffle

---
 src/distributed_planner/network_boundary.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/distributed_planner/network_boundary.rs b/src/distributed_planner/network_boundary.rs
index 000d09e..94b14e7 100644
--- a/src/distributed_planner/network_boundary.rs
+++ b/src/distributed_planner/network_boundary.rs
@@ -84,7 +84,11 @@ impl ProducerHead {
     /// Ensures the head of the provided plan complies with the passed [ProducerHead] definition. This
     /// can be called both during planning and lazily at runtime.
     pub(crate) fn insert(self, input: Arc<dyn ExecutionPlan>) -> Result<Arc<dyn ExecutionPlan>> {
-        let input = if let Some(r_exec) = input.downcast_ref::<RepartitionExec>() {
+        // A previously inserted head is either a hash RepartitionExec or a BroadcastExec. Any other
+        // RepartitionExec belongs to the plan of the stage.
+        let input = if let Some(r_exec) = input.downcast_ref::<RepartitionExec>()
+            && matches!(r_exec.partitioning(), Partitioning::Hash(_, _))
+        {
             Arc::clone(r_exec.input())
         } else if let Some(b_exec) = input.downcast_ref::<BroadcastExec>() {
             Arc::clone(b_exec.input())
-- 
2.43.0


From cc4023d6c0079ce9234206a96ccba543c61ea5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 14/50] fix: never plan a stage with zero tasks

---
 src/events/desired_task_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/events/desired_task_count.rs b/src/events/desired_task_count.rs
index 4a33fe1..2303f27 100644
--- a/src/events/desired_task_count.rs
+++ b/src/events/desired_task_count.rs
@@ -115,8 +115,8 @@ impl TaskCountAnnotation {
 
     pub(crate) fn limit(self, limit: usize) -> Self {
         match self {
-            Desired(desired) => Desired(desired.min(limit)),
-            Maximum(maximum) => Maximum(maximum.min(limit)),
+            Desired(desired) => Desired(desired.min(limit).max(1)),
+            Maximum(maximum) => Maximum(maximum.min(limit).max(1)),
         }
     }
 
-- 
2.43.0


From a05659b9eeeef453176184f03974b95d88379d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 15/50] fix: respect the maximum task count that a handler sets
 for a union

---
 src/distributed_planner/inject_network_boundaries.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 7bb377f..b8ae583 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -286,7 +286,10 @@ async fn _inject_network_boundaries(
         for processed_child in processed_children.iter() {
             count += nb_ctx.task_count(processed_child)?.as_usize();
         }
-        Desired(count)
+        match desired_task_count {
+            Some(Maximum(max)) => Maximum(count.min(max)),
+            _ => Desired(count),
+        }
     } else if let Some(node) = plan.downcast_ref::<HashJoinExec>()
         && node.mode == PartitionMode::CollectLeft
         && (!broadcast_joins_enabled
-- 
2.43.0


From 782290a8a60c6b541c93db459fe7a15d008092e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 16/50] fix: plan the head stage with the single task that runs
 it

---
 src/distributed_planner/inject_network_boundaries.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index b8ae583..0f4d240 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -426,8 +426,8 @@ async fn _inject_network_boundaries(
     } else if parent.is_none() {
         // We've just finished walking the head stage's subplan. Run a final propagation so
         // every node in the head stage (which never crossed a stage boundary on the way up)
-        // gets its task count recorded.
-        nb_ctx.propagate_task_count_until_network_boundaries(&plan, task_count)
+        // gets its task count recorded. The head stage always runs in a single task.
+        nb_ctx.propagate_task_count_until_network_boundaries(&plan, Maximum(1))
     } else {
         // If this is not the root node, and it's also not a network boundary, then we don't need
         // to do anything else.
-- 
2.43.0


From 115356ee19216424a9681aeb1d6a7df8ecff5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 17/50] fix: report a panic on a worker as an error instead of
 truncating the stream

---
 src/protocol/grpc/worker_service.rs | 30 +++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/protocol/grpc/worker_service.rs b/src/protocol/grpc/worker_service.rs
index 1f0fdf0..8717fef 100644
--- a/src/protocol/grpc/worker_service.rs
+++ b/src/protocol/grpc/worker_service.rs
@@ -19,11 +19,12 @@ use async_trait::async_trait;
 use datafusion::arrow::array::{Array, AsArray, RecordBatch, RecordBatchOptions};
 use datafusion::arrow::ipc::CompressionType;
 use datafusion::arrow::ipc::writer::IpcWriteOptions;
-use datafusion::common::DataFusionError;
+use datafusion::common::{DataFusionError, internal_datafusion_err};
 use datafusion::execution::SendableRecordBatchStream;
 use futures::stream::BoxStream;
-use futures::{StreamExt, TryStreamExt};
+use futures::{Stream, StreamExt, TryStreamExt};
 use prost::Message;
+use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
 use tonic::{Request, Response, Status, Streaming};
 use url::Url;
@@ -156,8 +157,8 @@ impl pb::worker_service_server::WorkerService for Worker {
         };
         let mut flight_streams = Vec::with_capacity(arrow_streams.len());
         for (partition, arrow_stream) in partition_range.zip(arrow_streams) {
-            let flight_stream =
-                build_flight_data_stream(arrow_stream, compression)?.map(move |msg| {
+            let flight_stream = fail_on_panic(build_flight_data_stream(arrow_stream, compression)?)
+                .map(move |msg| {
                     // For each FlightData produced by this stream, mark it with the appropriate
                     // partition. This stream will be merged with several others from other partitions,
                     // so marking it with the original partition allows it to be deconstructed into
@@ -360,6 +361,27 @@ fn missing(field: &'static str) -> impl FnOnce() -> Status {
     move || Status::invalid_argument(format!("Missing field '{field}'"))
 }
 
+/// Turns a panic raised while polling `stream` into an error. The background task polling it would
+/// otherwise just die, which the client cannot tell from the stream reaching its end.
+fn fail_on_panic<S>(stream: S) -> impl Stream<Item = Result<FlightData, FlightError>> + Unpin
+where
+    S: Stream<Item = Result<FlightData, FlightError>> + Unpin,
+{
+    AssertUnwindSafe(stream).catch_unwind().map(|msg| {
+        msg.unwrap_or_else(|panic| {
+            let reason = panic
+                .downcast_ref::<&str>()
+                .map(|reason| reason.to_string())
+                .or_else(|| panic.downcast_ref::<String>().cloned())
+                .unwrap_or_else(|| "unknown reason".to_string());
+            let err = internal_datafusion_err!("Panic while executing a task: {reason}");
+            Err(FlightError::Tonic(Box::new(
+                datafusion_error_to_tonic_status(err),
+            )))
+        })
+    })
+}
+
 fn build_flight_data_stream(
     stream: SendableRecordBatchStream,
     compression_type: Option<CompressionType>,
-- 
2.43.0


From ebded8378967797bafb922b88cb45ce077390e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 18/50] fix: release buffered bytes when a partition stream is
 dropped with unread messages

---
 src/protocol/grpc/worker_client.rs | 47 ++++++++++++++++++------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/protocol/grpc/worker_client.rs b/src/protocol/grpc/worker_client.rs
index 060d8e8..eada82f 100644
--- a/src/protocol/grpc/worker_client.rs
+++ b/src/protocol/grpc/worker_client.rs
@@ -22,7 +22,7 @@ use datafusion::common::instant::Instant;
 use datafusion::common::runtime::SpawnedTask;
 use datafusion::common::{DataFusionError, Result};
 use datafusion::execution::TaskContext;
-use datafusion::execution::memory_pool::MemoryConsumer;
+use datafusion::execution::memory_pool::{MemoryConsumer, MemoryReservation};
 use datafusion::physical_expr_common::metrics::{Count, Label, MetricBuilder, MetricValue, Time};
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use futures::stream::BoxStream;
@@ -100,7 +100,6 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
         // for them in the memory pool.
         let memory_reservation =
             Arc::new(MemoryConsumer::new("WorkerConnection").register(ctx.memory_pool()));
-        let memory_reservation_clone = Arc::clone(&memory_reservation);
 
         // Track the maximum memory used to buffer recieved messages.
         let mut curr_max_mem = 0;
@@ -139,7 +138,6 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
         }
 
         let mem_available_notify = Arc::new(Notify::new());
-        let mem_available_notify_for_task = Arc::clone(&mem_available_notify);
 
         let first_poll_notify = Arc::new(Notify::new());
         let first_poll_notify_for_task = Arc::clone(&first_poll_notify);
@@ -195,7 +193,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                     tokio::select! {
                         biased;
                         _ = cancel.cancelled() => return,
-                        _ = mem_available_notify_for_task.notified() => {}
+                        _ = mem_available_notify.notified() => {}
                     }
                 }
 
@@ -247,12 +245,18 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                     return fanout(&per_partition_tx, Status::internal(msg));
                 };
 
-                // We need to send the memory reservation in the same tuple as the actual message
-                // so that it gets dropped as soon as the message leaves the queue. Dropping the
-                // memory reservation means releasing the memory from the pool for that specific
-                // message
+                // We need to send the memory reservation along with the actual message so that it
+                // gets dropped as soon as the message leaves the queue, either because it was
+                // consumed or because its partition stream was dropped. Dropping it means releasing
+                // the memory from the pool for that specific message, and waking up this task in
+                // case it's blocked on the byte budget.
                 let size = flight_data.encoded_len();
                 memory_reservation.grow(size);
+                let buffered = BufferedBytes {
+                    size,
+                    reservation: Arc::clone(&memory_reservation),
+                    mem_available_notify: Arc::clone(&mem_available_notify),
+                };
 
                 // Update memory related metrics.
                 msg_count.add(1);
@@ -263,12 +267,10 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                     max_mem_used.set(curr_max_mem);
                 }
 
-                if o_tx.send(Ok((flight_data, flight_metadata))).is_err() {
+                if o_tx.send(Ok((flight_data, buffered))).is_err() {
                     // The receiver for this partition was dropped (e.g. a hash join partition
                     // completed early without consuming its probe side). Don't exit: other
                     // partitions multiplexed over the same gRPC stream still need their data.
-                    // Undo the memory reservation that was grown for this dropped batch.
-                    memory_reservation.shrink(size);
                     continue;
                 };
             }
@@ -290,12 +292,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
             .flatten_stream();
 
             let stream = stream.map_err(|err| FlightError::Tonic(Box::new(err)));
-            let reservation = Arc::clone(&memory_reservation_clone);
-            let mem_available_notify = Arc::clone(&mem_available_notify);
-            let stream = stream.map_ok(move |(data, _meta)| {
-                reservation.shrink(data.encoded_len());
-                // Wake the demux task in case it is blocked on the byte budget.
-                mem_available_notify.notify_one();
+            let stream = stream.map_ok(move |(data, _buffered)| {
                 let _ = &task; // <- keep the task that polls data from the network alive.
                 data
             });
@@ -334,7 +331,21 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
     }
 }
 
-type WorkerMsg = Result<(FlightData, FlightAppMetadata), Status>;
+type WorkerMsg = Result<(FlightData, BufferedBytes), Status>;
+
+/// Accounts for a message that is buffered in memory for as long as it stays in its queue.
+struct BufferedBytes {
+    size: usize,
+    reservation: Arc<MemoryReservation>,
+    mem_available_notify: Arc<Notify>,
+}
+
+impl Drop for BufferedBytes {
+    fn drop(&mut self) {
+        self.reservation.shrink(self.size);
+        self.mem_available_notify.notify_one();
+    }
+}
 
 struct NetworkLatencyMetrics {
     metrics: ExecutionPlanMetricsSet,
-- 
2.43.0


From 04db4c1763fb5d8b8e37b6e1dc30b74c2fefcae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 19/50] fix: do not wait for free space in an empty buffer when
 its byte budget is 0

---
 src/protocol/grpc/worker_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/grpc/worker_client.rs b/src/protocol/grpc/worker_client.rs
index eada82f..c69543b 100644
--- a/src/protocol/grpc/worker_client.rs
+++ b/src/protocol/grpc/worker_client.rs
@@ -189,7 +189,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                 // the way back to the worker without coupling sibling partitions.
                 // We always allow a message through when reservation == 0 to avoid
                 // livelock if a single message is larger than the budget.
-                while memory_reservation.size() >= buffer_budget_bytes {
+                while memory_reservation.size() >= buffer_budget_bytes.max(1) {
                     tokio::select! {
                         biased;
                         _ = cancel.cancelled() => return,
-- 
2.43.0


From 9372d2a3faaba5a929af71c3eecfcb646a68f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 20/50] fix: release a finished task's state instead of leaving
 it to the cache

moka reclaims invalidated entries lazily, so the plan of a finished query, with
the memory reservations and input streams its operators hold, stayed alive on
the worker for an unbounded time. Empty the entry when the coordinator channel
ends.
---
 src/worker/impl_coordinator_channel.rs | 6 +++++-
 src/worker/single_write_multi_read.rs  | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index efba61c..0eaef0f 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -168,7 +168,11 @@ impl Worker {
                     send_metrics_via_channel(metrics_tx, plan, d_ctx, task_data_metrics);
                 }
             }
-            task_data_entries.invalidate(&key).await
+            task_data_entries.invalidate(&key).await;
+            // The cache may keep hold of an invalidated value for an unbounded time (it reclaims
+            // removed entries lazily), so do not let it keep alive the plan, and with it the
+            // operator streams and memory reservations of the finished query.
+            entry.clear();
         });
 
         let load_info_stream = FuturesUnordered::from_iter(load_info_rxs)
diff --git a/src/worker/single_write_multi_read.rs b/src/worker/single_write_multi_read.rs
index 30c4ce0..1ad5598 100644
--- a/src/worker/single_write_multi_read.rs
+++ b/src/worker/single_write_multi_read.rs
@@ -62,6 +62,11 @@ impl<T: Clone> SingleWriteMultiRead<T> {
         Ok(())
     }
 
+    /// Drops the written value. Whoever already read it keeps its own clone.
+    pub(crate) fn clear(&self) {
+        self.tx.send_replace(None);
+    }
+
     /// Reads the current value, if any, not waiting for it to be set by a writer.
     #[cfg(feature = "grpc")]
     pub(crate) fn read_now(&self) -> Option<T> {
-- 
2.43.0


From 14dd8fa59b96a76fddc4e209d2fe674ae2da56b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 21/50] fix: give each task of the local worker its own copy of
 the plan

---
 src/coordinator/query_coordinator.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index 2f9c99f..21b9aac 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -143,7 +143,17 @@ impl<'a> StageCoordinator<'a> {
     )> {
         let session_config = self.task_ctx.session_config();
 
-        let (specialized, work_unit_feed_declarations) = self.task_specialized_plan(task_i)?;
+        let (mut specialized, work_unit_feed_declarations) = self.task_specialized_plan(task_i)?;
+
+        let local_worker =
+            LocalWorkerContext::from_ctx(self.task_ctx).filter(|lw| lw.self_url == url);
+        if local_worker.is_some() {
+            // Plans sent to a local worker do not cross the network, so without this roundtrip all
+            // the tasks assigned to the local worker would run the very same nodes, sharing state
+            // that belongs to only one of them: network streams that are consumed once, build
+            // sides of joins, or dynamic filters that only account for the rows of one task.
+            specialized = roundtrip_pb(specialized, self.task_ctx)?;
+        }
 
         let task_key = TaskKey {
             query_id: self.query_id,
@@ -190,12 +200,12 @@ impl<'a> StageCoordinator<'a> {
         self.join_set.lock().unwrap().spawn(async move {
             let start = Instant::now();
 
-            let mut client = match LocalWorkerContext::from_ctx(&task_ctx) {
-                Some(lw) if lw.self_url == url => {
+            let mut client = match local_worker {
+                Some(lw) => {
                     metrics.local_coordinator_channels.add(1);
                     Ok(lw.to_worker_channel())
                 }
-                _ => {
+                None => {
                     metrics.remote_coordinator_channels.add(1);
                     let ch_resolver = get_distributed_channel_resolver(task_ctx.as_ref());
                     ch_resolver.get_worker_client_for_url(&url).await
-- 
2.43.0


From 9e3b64c6aac88310f02dc08d3839a55919e026ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 22/50] fix: send the fully matched count of pruning metrics to
 the coordinator

---
 src/protocol/grpc/generated/worker.rs | 2 ++
 src/protocol/grpc/metrics_proto.rs    | 2 ++
 src/protocol/grpc/worker.proto        | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/protocol/grpc/generated/worker.rs b/src/protocol/grpc/generated/worker.rs
index 6bf8beb..d686193 100644
--- a/src/protocol/grpc/generated/worker.rs
+++ b/src/protocol/grpc/generated/worker.rs
@@ -414,6 +414,8 @@ pub struct NamedPruningMetrics {
     pub pruned: u64,
     #[prost(uint64, tag = "3")]
     pub matched: u64,
+    #[prost(uint64, tag = "4")]
+    pub fully_matched: u64,
 }
 #[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
 pub struct NamedRatio {
diff --git a/src/protocol/grpc/metrics_proto.rs b/src/protocol/grpc/metrics_proto.rs
index b71ec3e..e8e7f64 100644
--- a/src/protocol/grpc/metrics_proto.rs
+++ b/src/protocol/grpc/metrics_proto.rs
@@ -274,6 +274,7 @@ pub fn df_metric_to_proto(metric: Arc<Metric>) -> Result<pb::Metric, DataFusionE
                 name: name.to_string(),
                 pruned: pruning_metrics.pruned() as u64,
                 matched: pruning_metrics.matched() as u64,
+                fully_matched: pruning_metrics.fully_matched() as u64,
             })),
             partition,
             labels,
@@ -446,6 +447,7 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
             let pruning_metrics = DfPruningMetrics::new();
             pruning_metrics.add_pruned(named_pruning.pruned as usize);
             pruning_metrics.add_matched(named_pruning.matched as usize);
+            pruning_metrics.add_fully_matched(named_pruning.fully_matched as usize);
             Ok(Arc::new(Metric::new_with_labels(
                 MetricValue::PruningMetrics {
                     name: Cow::Owned(named_pruning.name),
diff --git a/src/protocol/grpc/worker.proto b/src/protocol/grpc/worker.proto
index 2affe11..9bbe4ec 100644
--- a/src/protocol/grpc/worker.proto
+++ b/src/protocol/grpc/worker.proto
@@ -327,6 +327,7 @@ message NamedPruningMetrics {
   string name = 1;
   uint64 pruned = 2;
   uint64 matched = 3;
+  uint64 fully_matched = 4;
 }
 
 message NamedRatio {
-- 
2.43.0


From fa2aa266984a8140fc31fe4cc124edfeeb76cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 23/50] fix: send the merge strategy and display mode of ratio
 metrics to the coordinator

---
 src/protocol/grpc/generated/worker.rs | 40 +++++++++++++++++++++++++++
 src/protocol/grpc/metrics_proto.rs    | 25 +++++++++++++++--
 src/protocol/grpc/worker.proto        | 10 +++++++
 3 files changed, 73 insertions(+), 2 deletions(-)

diff --git a/src/protocol/grpc/generated/worker.rs b/src/protocol/grpc/generated/worker.rs
index d686193..a6fb655 100644
--- a/src/protocol/grpc/generated/worker.rs
+++ b/src/protocol/grpc/generated/worker.rs
@@ -425,6 +425,46 @@ pub struct NamedRatio {
     pub part: u64,
     #[prost(uint64, tag = "3")]
     pub total: u64,
+    #[prost(enumeration = "named_ratio::MergeStrategy", tag = "4")]
+    pub merge_strategy: i32,
+    /// Whether only the percentage is displayed, without the raw `(part/total)` numbers.
+    #[prost(bool, tag = "5")]
+    pub hide_raw_values: bool,
+}
+/// Nested message and enum types in `NamedRatio`.
+pub mod named_ratio {
+    /// How the ratios of several partitions or tasks are merged.
+    #[derive(
+        Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, ::prost::Enumeration,
+    )]
+    #[repr(i32)]
+    pub enum MergeStrategy {
+        AddPartAddTotal = 0,
+        AddPartSetTotal = 1,
+        SetPartAddTotal = 2,
+    }
+    impl MergeStrategy {
+        /// String value of the enum field names used in the ProtoBuf definition.
+        ///
+        /// The values are not transformed in any way and thus are considered stable
+        /// (if the ProtoBuf definition does not change) and safe for programmatic use.
+        pub fn as_str_name(&self) -> &'static str {
+            match self {
+                Self::AddPartAddTotal => "ADD_PART_ADD_TOTAL",
+                Self::AddPartSetTotal => "ADD_PART_SET_TOTAL",
+                Self::SetPartAddTotal => "SET_PART_ADD_TOTAL",
+            }
+        }
+        /// Creates an enum from field names used in the ProtoBuf definition.
+        pub fn from_str_name(value: &str) -> ::core::option::Option<Self> {
+            match value {
+                "ADD_PART_ADD_TOTAL" => Some(Self::AddPartAddTotal),
+                "ADD_PART_SET_TOTAL" => Some(Self::AddPartSetTotal),
+                "SET_PART_ADD_TOTAL" => Some(Self::SetPartAddTotal),
+                _ => None,
+            }
+        }
+    }
 }
 #[derive(Clone, PartialEq, Eq, Hash, ::prost::Message)]
 pub struct BytesCount {
diff --git a/src/protocol/grpc/metrics_proto.rs b/src/protocol/grpc/metrics_proto.rs
index e8e7f64..71654d6 100644
--- a/src/protocol/grpc/metrics_proto.rs
+++ b/src/protocol/grpc/metrics_proto.rs
@@ -4,7 +4,9 @@ use datafusion::common::internal_err;
 use datafusion::error::DataFusionError;
 use datafusion::physical_plan::metrics::{Count, Gauge, Label, Time, Timestamp};
 use datafusion::physical_plan::metrics::{Metric, MetricValue, MetricsSet};
-use datafusion::physical_plan::metrics::{PruningMetrics as DfPruningMetrics, RatioMetrics};
+use datafusion::physical_plan::metrics::{
+    PruningMetrics as DfPruningMetrics, RatioMergeStrategy, RatioMetrics,
+};
 use sketches_ddsketch::DDSketch;
 use std::borrow::Cow;
 use std::sync::Arc;
@@ -284,6 +286,12 @@ pub fn df_metric_to_proto(metric: Arc<Metric>) -> Result<pb::Metric, DataFusionE
                 name: name.to_string(),
                 part: ratio_metrics.part() as u64,
                 total: ratio_metrics.total() as u64,
+                merge_strategy: match ratio_metrics.merge_strategy() {
+                    RatioMergeStrategy::AddPartAddTotal => pb::named_ratio::MergeStrategy::AddPartAddTotal,
+                    RatioMergeStrategy::AddPartSetTotal => pb::named_ratio::MergeStrategy::AddPartSetTotal,
+                    RatioMergeStrategy::SetPartAddTotal => pb::named_ratio::MergeStrategy::SetPartAddTotal,
+                } as i32,
+                hide_raw_values: !ratio_metrics.display_raw_values(),
             })),
             partition,
             labels,
@@ -458,7 +466,20 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
             )))
         }
         Some(pb::metric::Value::Ratio(named_ratio)) => {
-            let ratio_metrics = RatioMetrics::new();
+            let merge_strategy = match named_ratio.merge_strategy() {
+                pb::named_ratio::MergeStrategy::AddPartAddTotal => {
+                    RatioMergeStrategy::AddPartAddTotal
+                }
+                pb::named_ratio::MergeStrategy::AddPartSetTotal => {
+                    RatioMergeStrategy::AddPartSetTotal
+                }
+                pb::named_ratio::MergeStrategy::SetPartAddTotal => {
+                    RatioMergeStrategy::SetPartAddTotal
+                }
+            };
+            let ratio_metrics = RatioMetrics::new()
+                .with_merge_strategy(merge_strategy)
+                .with_display_raw_values(!named_ratio.hide_raw_values);
             ratio_metrics.set_part(named_ratio.part as usize);
             ratio_metrics.set_total(named_ratio.total as usize);
             Ok(Arc::new(Metric::new_with_labels(
diff --git a/src/protocol/grpc/worker.proto b/src/protocol/grpc/worker.proto
index 9bbe4ec..b325f64 100644
--- a/src/protocol/grpc/worker.proto
+++ b/src/protocol/grpc/worker.proto
@@ -332,8 +332,18 @@ message NamedPruningMetrics {
 
 message NamedRatio {
   string name = 1;
+  // How the ratios of several partitions or tasks are merged.
+  enum MergeStrategy {
+    ADD_PART_ADD_TOTAL = 0;
+    ADD_PART_SET_TOTAL = 1;
+    SET_PART_ADD_TOTAL = 2;
+  }
+
   uint64 part = 2;
   uint64 total = 3;
+  MergeStrategy merge_strategy = 4;
+  // Whether only the percentage is displayed, without the raw `(part/total)` numbers.
+  bool hide_raw_values = 5;
 }
 
 message BytesCount {
-- 
2.43.0


From 68e5747562c10ea7d1296bfeb15071ea16d1ab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 24/50] fix: keep times of zero at zero when metrics arrive at
 the coordinator

---
 src/protocol/grpc/metrics_proto.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/protocol/grpc/metrics_proto.rs b/src/protocol/grpc/metrics_proto.rs
index 71654d6..64ec7e8 100644
--- a/src/protocol/grpc/metrics_proto.rs
+++ b/src/protocol/grpc/metrics_proto.rs
@@ -299,6 +299,16 @@ pub fn df_metric_to_proto(metric: Arc<Metric>) -> Result<pb::Metric, DataFusionE
     }
 }
 
+/// Builds a [Time] that holds exactly `nanos`. [Time::add_duration] counts at least one nanosecond
+/// even for an empty duration, so a time that never was recorded must not be added.
+fn time_from_nanos(nanos: u64) -> Time {
+    let time = Time::new();
+    if nanos > 0 {
+        time.add_duration(std::time::Duration::from_nanos(nanos));
+    }
+    time
+}
+
 /// metric_proto_to_df converts a `pb::Metric` to a `Metric`. It consumes the pb::Metric.
 pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionError> {
     let partition = metric.partition.map(|p| p as usize);
@@ -319,8 +329,7 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
             )))
         }
         Some(pb::metric::Value::ElapsedCompute(elapsed)) => {
-            let time = Time::new();
-            time.add_duration(std::time::Duration::from_nanos(elapsed.value));
+            let time = time_from_nanos(elapsed.value);
             Ok(Arc::new(Metric::new_with_labels(
                 MetricValue::ElapsedCompute(time),
                 partition,
@@ -400,8 +409,7 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
             )))
         }
         Some(pb::metric::Value::Time(named_time)) => {
-            let time = Time::new();
-            time.add_duration(std::time::Duration::from_nanos(named_time.value));
+            let time = time_from_nanos(named_time.value);
             Ok(Arc::new(Metric::new_with_labels(
                 MetricValue::Time {
                     name: Cow::Owned(named_time.name),
-- 
2.43.0


From 8543c023f5e98382d87ff0063a7f7e8a313f98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 25/50] fix: stop waiting for the metrics of tasks that were
 never executed

---
 src/coordinator/query_coordinator.rs | 10 +++++++++-
 src/metrics/task_metrics_rewriter.rs |  5 +++++
 src/protocol/worker_channel.rs       |  2 +-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index 21b9aac..8cff8d2 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -12,7 +12,8 @@ use crate::work_unit_feed::{build_work_unit_batch_msg, set_work_unit_send_time};
 use crate::{
     CoordinatorToWorkerMsg, DISTRIBUTED_DATAFUSION_TASK_ID_LABEL, DistributedTaskContext,
     DistributedWorkUnitFeedContext, LoadInfo, LocalWorkerContext, MaybeEncoded, SetPlanRequest,
-    TaskKey, WorkUnitFeedDeclaration, WorkerToCoordinatorMsg, get_distributed_channel_resolver,
+    TaskKey, TaskMetrics, WorkUnitFeedDeclaration, WorkerToCoordinatorMsg,
+    get_distributed_channel_resolver,
 };
 use datafusion::common::DataFusionError;
 use datafusion::common::instant::Instant;
@@ -253,9 +254,11 @@ impl<'a> StageCoordinator<'a> {
         // metrics collection process might outlive the query's lifetime.
         #[allow(clippy::disallowed_methods)]
         tokio::spawn(async move {
+            let mut metrics_received = false;
             while let Some(msg) = worker_to_coordinator_rx.recv().await {
                 match msg {
                     WorkerToCoordinatorMsg::TaskMetrics(v) => {
+                        metrics_received = true;
                         if let Some(task_metrics) = &task_metrics {
                             task_metrics.insert(task_key, v);
                         }
@@ -270,6 +273,11 @@ impl<'a> StageCoordinator<'a> {
                     }
                 }
             }
+            // A task that was never executed, or that failed, does not report any metrics. Tell so
+            // to whoever is waiting for them, as nothing else will arrive for this task.
+            if !metrics_received && let Some(task_metrics) = &task_metrics {
+                task_metrics.insert(task_key, TaskMetrics::default());
+            }
         });
         load_info_rx
     }
diff --git a/src/metrics/task_metrics_rewriter.rs b/src/metrics/task_metrics_rewriter.rs
index a363320..2075b1d 100644
--- a/src/metrics/task_metrics_rewriter.rs
+++ b/src/metrics/task_metrics_rewriter.rs
@@ -241,6 +241,11 @@ pub fn stage_metrics_rewriter(
             );
         };
 
+        // The task was never executed, so it has nothing to show.
+        if task_metrics.pre_order_plan_metrics.is_empty() {
+            continue;
+        }
+
         let mut per_task_counter = 0usize;
         stage.plan.apply_with_dt_ctx(d_ctx, |node, _ctx| {
             if per_task_counter >= task_metrics.pre_order_plan_metrics.len() {
diff --git a/src/protocol/worker_channel.rs b/src/protocol/worker_channel.rs
index 0bea0bb..c0ef90c 100644
--- a/src/protocol/worker_channel.rs
+++ b/src/protocol/worker_channel.rs
@@ -126,7 +126,7 @@ pub enum WorkerToCoordinatorMsg {
     LoadInfoEos,
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, Default)]
 pub struct TaskMetrics {
     /// Metrics for a single task's plan nodes in pre-order traversal order.
     /// The TaskKey is implicit — it is determined by the SetPlanRequest that
-- 
2.43.0


From 5df4c139ba779d168baa459880abbfcf53044259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 26/50] fix: show the metrics of scans below isolated unions on
 the task that recorded them

---
 .../children_isolator_union.rs                | 15 ++++++++
 src/stage.rs                                  | 34 +++++++++++++++----
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/execution_plans/children_isolator_union.rs b/src/execution_plans/children_isolator_union.rs
index 38a2172..364b69b 100644
--- a/src/execution_plans/children_isolator_union.rs
+++ b/src/execution_plans/children_isolator_union.rs
@@ -206,6 +206,21 @@ impl ChildrenIsolatorUnionExec {
         counts
     }
 
+    /// Returns the tasks that execute the provided child, ordered by the task index that each one
+    /// of them has within that child.
+    pub(crate) fn tasks_of_child(&self, child_i: usize) -> Vec<usize> {
+        let mut tasks = vec![];
+        for (task_i, children_in_task) in self.task_idx_map.iter().enumerate() {
+            for (i, child_ctx) in children_in_task {
+                if *i == child_i {
+                    tasks.push((child_ctx.task_index, task_i));
+                }
+            }
+        }
+        tasks.sort_unstable();
+        tasks.into_iter().map(|(_, task_i)| task_i).collect()
+    }
+
     /// Trims out all the children that are going to be ignored based on the provided
     /// task index. These children are replaced by [EmptyExec] as placeholders.
     pub(crate) fn to_task_specialized(&self, task_i: usize) -> Self {
diff --git a/src/stage.rs b/src/stage.rs
index cd054c5..ab5d307 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -1,5 +1,5 @@
 use crate::coordinator::{DistributedExec, MetricsStore};
-use crate::execution_plans::{DistributedLeafExec, NetworkCoalesceExec};
+use crate::execution_plans::{ChildrenIsolatorUnionExec, DistributedLeafExec, NetworkCoalesceExec};
 use crate::metrics::DISTRIBUTED_DATAFUSION_TASK_ID_LABEL;
 use datafusion::common::{HashMap, Statistics, config_err};
 use datafusion::common::{exec_err, plan_err};
@@ -340,8 +340,12 @@ fn display_ascii(
         }
     }
 
+    let tasks: Vec<usize> = match stage {
+        Either::Left(_) => vec![0],
+        Either::Right(stage) => (0..stage.task_count()).collect(),
+    };
     let mut plan_str = String::new();
-    display_inner_ascii(plan, 0, show_metrics, &mut plan_str)?;
+    display_inner_ascii(plan, &tasks, 0, show_metrics, &mut plan_str)?;
     let plan_str = plan_str
         .split('\n')
         .filter(|v| !v.is_empty())
@@ -361,14 +365,17 @@ fn display_ascii(
     Ok(())
 }
 
+/// `tasks` are the tasks of the stage that execute `plan`. They are not all the tasks of the stage
+/// if `plan` is below a [ChildrenIsolatorUnionExec].
 fn display_inner_ascii(
     plan: &Arc<dyn ExecutionPlan>,
+    tasks: &[usize],
     indent: usize,
     show_metrics: bool,
     f: &mut String,
 ) -> std::fmt::Result {
     if plan.is::<DistributedLeafExec>() {
-        return display_inner_distributed_leaf(plan, indent, show_metrics, f);
+        return display_inner_distributed_leaf(plan, tasks, indent, show_metrics, f);
     }
 
     let node_str = displayable(plan.as_ref()).one_line().to_string();
@@ -387,14 +394,24 @@ fn display_inner_ascii(
         return Ok(());
     }
 
-    for child in plan.children() {
-        display_inner_ascii(child, indent + 2, show_metrics, f)?;
+    let isolator = plan.downcast_ref::<ChildrenIsolatorUnionExec>();
+    for (child_i, child) in plan.children().into_iter().enumerate() {
+        let child_tasks = match isolator {
+            Some(isolator) => isolator
+                .tasks_of_child(child_i)
+                .into_iter()
+                .filter_map(|task_i| tasks.get(task_i).copied())
+                .collect(),
+            None => tasks.to_vec(),
+        };
+        display_inner_ascii(child, &child_tasks, indent + 2, show_metrics, f)?;
     }
     Ok(())
 }
 
 fn display_inner_distributed_leaf(
     plan: &Arc<dyn ExecutionPlan>,
+    tasks: &[usize],
     indent: usize,
     show_metrics: bool,
     f: &mut String,
@@ -419,7 +436,12 @@ fn display_inner_distributed_leaf(
             let variant = displayable(variant.as_ref()).one_line().to_string();
             let metrics = match by_task.is_empty() {
                 true => String::new(),
-                false => metrics_suffix(by_task.get(&task_i).map(format_metrics_by_task)),
+                false => metrics_suffix(
+                    tasks
+                        .get(task_i)
+                        .and_then(|task| by_task.get(task))
+                        .map(format_metrics_by_task),
+                ),
             };
             writeln!(f, "{indent}   t{task_i}: {}{metrics}", variant.trim_end())?;
         }
-- 
2.43.0


From 1454028929c2ea0d08cc93e4121ad210671059ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 27/50] fix: leave the metrics of a head added on the worker
 out of the positional match

---
 src/worker/impl_coordinator_channel.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index 0eaef0f..a315586 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -165,7 +165,13 @@ impl Worker {
                 let task_data_metrics = &task_data.task_data_metrics;
                 task_data_metrics.mark_execution_finished();
                 if let Some(metrics_tx) = metrics_tx {
-                    send_metrics_via_channel(metrics_tx, plan, d_ctx, task_data_metrics);
+                    send_metrics_via_channel(
+                        metrics_tx,
+                        &task_data.base_plan,
+                        plan,
+                        d_ctx,
+                        task_data_metrics,
+                    );
                 }
             }
             task_data_entries.invalidate(&key).await;
@@ -202,8 +208,12 @@ impl Worker {
 
 /// Collects metrics from the plan in pre-order traversal order and sends them via the
 /// coordinator channel oneshot.
+///
+/// The coordinator matches these metrics by position with the nodes of the plan it sent, so if the
+/// executed plan has an extra head on top of it, the metrics of that head are left out.
 fn send_metrics_via_channel(
     metrics_tx: Sender<TaskMetrics>,
+    base_plan: &Arc<dyn ExecutionPlan>,
     plan: &Arc<dyn ExecutionPlan>,
     dt_ctx: DistributedTaskContext,
     task_data_metrics: &Arc<TaskDataMetrics>,
@@ -214,6 +224,14 @@ fn send_metrics_via_channel(
         Ok(TreeNodeRecursion::Continue)
     });
 
+    let mut base_plan_nodes = 0;
+    let _ = base_plan.apply_with_dt_ctx(dt_ctx, |_, _| {
+        base_plan_nodes += 1;
+        Ok(TreeNodeRecursion::Continue)
+    });
+    let extra_nodes = pre_order_plan_metrics.len().saturating_sub(base_plan_nodes);
+    pre_order_plan_metrics.drain(..extra_nodes);
+
     // Ignore send errors — the coordinator channel may have been dropped (e.g. query cancelled).
     let _ = metrics_tx.send(TaskMetrics {
         pre_order_plan_metrics,
-- 
2.43.0


From 25d6e52dfde1bd6dd959f268246efc472d0aea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 28/50] fix: return an error instead of panicking on plan bytes
 with the reserved tag

---
 src/codec/distributed_codec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/distributed_codec.rs b/src/codec/distributed_codec.rs
index d91ad89..a7f6f9b 100644
--- a/src/codec/distributed_codec.rs
+++ b/src/codec/distributed_codec.rs
@@ -399,7 +399,7 @@ pub struct ExecutionTaskProto {
 
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct DistributedExecProto {
-    #[prost(oneof = "DistributedExecNode", tags = "1, 2, 3, 4, 5, 6, 7")]
+    #[prost(oneof = "DistributedExecNode", tags = "1, 2, 4, 5, 6, 7")]
     pub node: Option<DistributedExecNode>,
 }
 
-- 
2.43.0


From 106eb9d4fa02eecfb9f765942f3b458f8fe9a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 29/50] fix: decode Avro errors sent by workers

---
 src/protocol/grpc/errors/arrow_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/grpc/errors/arrow_error.rs b/src/protocol/grpc/errors/arrow_error.rs
index b78a950..01e4904 100644
--- a/src/protocol/grpc/errors/arrow_error.rs
+++ b/src/protocol/grpc/errors/arrow_error.rs
@@ -8,7 +8,7 @@ pub struct ArrowErrorProto {
     pub ctx: Option<String>,
     #[prost(
         oneof = "ArrowErrorInnerProto",
-        tags = "2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20"
+        tags = "2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21"
     )]
     pub inner: Option<ArrowErrorInnerProto>,
 }
-- 
2.43.0


From 5e3641aeebde17fb7a63664f72dbcf78de22bf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 30/50] fix: keep FFI errors of workers as FFI errors

---
 src/protocol/grpc/errors/datafusion_error.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/protocol/grpc/errors/datafusion_error.rs b/src/protocol/grpc/errors/datafusion_error.rs
index 23646d4..25728f0 100644
--- a/src/protocol/grpc/errors/datafusion_error.rs
+++ b/src/protocol/grpc/errors/datafusion_error.rs
@@ -14,7 +14,7 @@ use std::sync::Arc;
 pub struct DataFusionErrorProto {
     #[prost(
         oneof = "DataFusionErrorInnerProto",
-        tags = "1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19"
+        tags = "1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20"
     )]
     pub inner: Option<DataFusionErrorInnerProto>,
 }
@@ -59,6 +59,8 @@ pub enum DataFusionErrorInnerProto {
     Collection(DataFusionCollectionErrorProto),
     #[prost(message, boxed, tag = "19")]
     Shared(Box<DataFusionErrorProto>),
+    #[prost(string, tag = "20")]
+    Ffi(String),
 }
 
 #[derive(Clone, PartialEq, ::prost::Message)]
@@ -177,7 +179,7 @@ impl DataFusionErrorProto {
                 ))),
             },
             DataFusionError::Ffi(err) => DataFusionErrorProto {
-                inner: Some(DataFusionErrorInnerProto::External(err.clone())),
+                inner: Some(DataFusionErrorInnerProto::Ffi(err.clone())),
             },
         }
     }
@@ -281,6 +283,7 @@ impl DataFusionErrorProto {
             DataFusionErrorInnerProto::Shared(err) => {
                 DataFusionError::Shared(Arc::new(err.to_datafusion_err()))
             }
+            DataFusionErrorInnerProto::Ffi(msg) => DataFusionError::Ffi(msg.clone()),
         }
     }
 }
-- 
2.43.0


From 0a0272f709a68c4a651f3fdf88748a5c904f091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 31/50] fix: name the operation and store of not implemented
 object store errors of workers

---
 src/protocol/grpc/errors/objectstore_error.rs | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/protocol/grpc/errors/objectstore_error.rs b/src/protocol/grpc/errors/objectstore_error.rs
index 933cf16..5db5fbd 100644
--- a/src/protocol/grpc/errors/objectstore_error.rs
+++ b/src/protocol/grpc/errors/objectstore_error.rs
@@ -26,7 +26,7 @@ pub enum ObjectStoreErrorInnerProto {
     #[prost(message, tag = "8")]
     NotModified(ObjectStoreSourcePathErrorProto),
     #[prost(message, tag = "9")]
-    NotImplemented(bool),
+    NotImplemented(ObjectStoreNotImplementedErrorProto),
     #[prost(message, tag = "10")]
     PermissionDenied(ObjectStoreSourcePathErrorProto),
     #[prost(message, tag = "11")]
@@ -57,6 +57,14 @@ pub struct ObjectStoreSourcePathErrorProto {
     source: String,
 }
 
+#[derive(Clone, PartialEq, ::prost::Message)]
+pub struct ObjectStoreNotImplementedErrorProto {
+    #[prost(string, tag = "1")]
+    operation: String,
+    #[prost(string, tag = "2")]
+    implementer: String,
+}
+
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct ObjectStoreConfigurationKeyErrorProto {
     #[prost(string, tag = "1")]
@@ -130,10 +138,15 @@ impl ObjectStoreErrorProto {
                 )),
             },
             object_store::Error::NotImplemented {
-                operation: _,
-                implementer: _,
+                operation,
+                implementer,
             } => ObjectStoreErrorProto {
-                inner: Some(ObjectStoreErrorInnerProto::NotImplemented(true)),
+                inner: Some(ObjectStoreErrorInnerProto::NotImplemented(
+                    ObjectStoreNotImplementedErrorProto {
+                        operation: operation.to_string(),
+                        implementer: implementer.to_string(),
+                    },
+                )),
             },
             object_store::Error::PermissionDenied { path, source } => ObjectStoreErrorProto {
                 inner: Some(ObjectStoreErrorInnerProto::PermissionDenied(
@@ -213,10 +226,10 @@ impl ObjectStoreErrorProto {
                 path: msg.path.clone(),
                 source: msg.source.clone().into(),
             },
-            ObjectStoreErrorInnerProto::NotImplemented(_msg) => {
+            ObjectStoreErrorInnerProto::NotImplemented(msg) => {
                 object_store::Error::NotImplemented {
-                    operation: "unknown_operation".to_string(),
-                    implementer: "unknown_implementer".to_string(),
+                    operation: msg.operation.clone(),
+                    implementer: msg.implementer.clone(),
                 }
             }
             ObjectStoreErrorInnerProto::PermissionDenied(msg) => {
-- 
2.43.0


From e7c7394d850c27d58da8c91c166765d72916a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 32/50] fix: keep the range of Parquet errors of workers that
 ask for more data

---
 src/protocol/grpc/errors/parquet_error.rs | 26 ++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/protocol/grpc/errors/parquet_error.rs b/src/protocol/grpc/errors/parquet_error.rs
index 5c2e954..a1da735 100644
--- a/src/protocol/grpc/errors/parquet_error.rs
+++ b/src/protocol/grpc/errors/parquet_error.rs
@@ -5,7 +5,7 @@ use datafusion::parquet::errors::ParquetError;
 
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct ParquetErrorProto {
-    #[prost(oneof = "ParquetErrorInnerProto", tags = "1,2,3,4,5,6,7")]
+    #[prost(oneof = "ParquetErrorInnerProto", tags = "1,2,3,4,5,6,7,8")]
     pub inner: Option<ParquetErrorInnerProto>,
 }
 
@@ -25,6 +25,8 @@ pub enum ParquetErrorInnerProto {
     External(String),
     #[prost(uint64, tag = "7")]
     NeedMoreData(u64),
+    #[prost(message, tag = "8")]
+    NeedMoreDataRange(NeedMoreDataRangeProto),
 }
 
 #[derive(Clone, PartialEq, ::prost::Message)]
@@ -35,6 +37,14 @@ pub struct IndexOutOfBoundProto {
     b: u64,
 }
 
+#[derive(Clone, PartialEq, ::prost::Message)]
+pub struct NeedMoreDataRangeProto {
+    #[prost(uint64, tag = "1")]
+    start: u64,
+    #[prost(uint64, tag = "2")]
+    end: u64,
+}
+
 /// Mirrors `ParquetError`'s `Display` without needing the type itself, so that endpoints built
 /// without the `parquet` feature can still surface the message an error carried over the wire.
 impl std::fmt::Display for ParquetErrorProto {
@@ -53,6 +63,9 @@ impl std::fmt::Display for ParquetErrorProto {
             }
             ParquetErrorInnerProto::External(msg) => write!(f, "External: {msg}"),
             ParquetErrorInnerProto::NeedMoreData(n) => write!(f, "NeedMoreData: {n}"),
+            ParquetErrorInnerProto::NeedMoreDataRange(NeedMoreDataRangeProto { start, end }) => {
+                write!(f, "NeedMoreDataRange: {start}..{end}")
+            }
         }
     }
 }
@@ -87,6 +100,14 @@ impl ParquetErrorProto {
             ParquetError::NeedMoreData(a) => ParquetErrorProto {
                 inner: Some(ParquetErrorInnerProto::NeedMoreData(*a as u64)),
             },
+            ParquetError::NeedMoreDataRange(range) => ParquetErrorProto {
+                inner: Some(ParquetErrorInnerProto::NeedMoreDataRange(
+                    NeedMoreDataRangeProto {
+                        start: range.start,
+                        end: range.end,
+                    },
+                )),
+            },
             _ => ParquetErrorProto {
                 inner: Some(ParquetErrorInnerProto::General(
                     "ParquetError could not be serialized into protobuf".to_string(),
@@ -112,6 +133,9 @@ impl ParquetErrorProto {
                 ParquetError::External(Box::from(msg.to_string()))
             }
             ParquetErrorInnerProto::NeedMoreData(n) => ParquetError::NeedMoreData(*n as usize),
+            ParquetErrorInnerProto::NeedMoreDataRange(NeedMoreDataRangeProto { start, end }) => {
+                ParquetError::NeedMoreDataRange(*start..*end)
+            }
         }
     }
 }
-- 
2.43.0


From f0086e4eb1fc0f85390c8418af8242117fac0873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 33/50] fix: keep the kind of quota, cross-device and file name
 io errors of workers

---
 src/protocol/grpc/errors/io_error.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/protocol/grpc/errors/io_error.rs b/src/protocol/grpc/errors/io_error.rs
index 863e84b..21c925e 100644
--- a/src/protocol/grpc/errors/io_error.rs
+++ b/src/protocol/grpc/errors/io_error.rs
@@ -51,6 +51,9 @@ impl IoErrorProto {
                 ErrorKind::UnexpectedEof => 33,
                 ErrorKind::OutOfMemory => 34,
                 ErrorKind::Other => 35,
+                ErrorKind::QuotaExceeded => 36,
+                ErrorKind::CrossesDevices => 37,
+                ErrorKind::InvalidFilename => 38,
                 _ => -1,
             },
             err: err.to_string(),
@@ -95,6 +98,9 @@ impl IoErrorProto {
             33 => ErrorKind::UnexpectedEof,
             34 => ErrorKind::OutOfMemory,
             35 => ErrorKind::Other,
+            36 => ErrorKind::QuotaExceeded,
+            37 => ErrorKind::CrossesDevices,
+            38 => ErrorKind::InvalidFilename,
             _ => ErrorKind::Other,
         };
         (
-- 
2.43.0


From 71a18e35fe0d14e4a1a30fc7ffcbac6c74d70550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 34/50] fix: leave headers without the reserved prefix out of
 the configuration

---
 src/config_extension_ext.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/config_extension_ext.rs b/src/config_extension_ext.rs
index 6776d46..1e3397c 100644
--- a/src/config_extension_ext.rs
+++ b/src/config_extension_ext.rs
@@ -61,10 +61,12 @@ pub(crate) fn set_distributed_option_extension_from_headers<'a, T: ConfigExtensi
         .collect::<HashSet<_>>();
 
     for (k, v) in headers.iter() {
-        let key = k.as_str().trim_start_matches(FLIGHT_METADATA_CONFIG_PREFIX);
+        // Headers without the reserved prefix belong to the user, not to the configuration.
+        let Some(key) = k.as_str().strip_prefix(FLIGHT_METADATA_CONFIG_PREFIX) else {
+            continue;
+        };
         let prefix = format!("{}.", T::PREFIX);
-        if key.starts_with(&prefix) {
-            let key = key.trim_start_matches(&prefix);
+        if let Some(key) = key.strip_prefix(&prefix) {
             if !known_keys.contains(key) {
                 continue;
             }
-- 
2.43.0


From c329588c48b71b5f9107f47eaf3cf03cca849868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 35/50] fix: accept option values with non-ASCII characters on
 workers

---
 src/config_extension_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config_extension_ext.rs b/src/config_extension_ext.rs
index 1e3397c..5ab692d 100644
--- a/src/config_extension_ext.rs
+++ b/src/config_extension_ext.rs
@@ -73,7 +73,7 @@ pub(crate) fn set_distributed_option_extension_from_headers<'a, T: ConfigExtensi
 
             result.as_mut().set(
                 key,
-                v.to_str()
+                std::str::from_utf8(v.as_bytes())
                     .map_err(|err| internal_datafusion_err!("Cannot parse header value: {err}"))?,
             )?;
         }
-- 
2.43.0


From 073de1fddc1478598a7d05205713aa8a562d000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 36/50] fix: keep the store name in object store errors of
 stores the library does not know

---
 src/protocol/grpc/errors/objectstore_error.rs | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/protocol/grpc/errors/objectstore_error.rs b/src/protocol/grpc/errors/objectstore_error.rs
index 5db5fbd..7f1532e 100644
--- a/src/protocol/grpc/errors/objectstore_error.rs
+++ b/src/protocol/grpc/errors/objectstore_error.rs
@@ -192,9 +192,15 @@ impl ObjectStoreErrorProto {
         };
 
         match inner {
-            ObjectStoreErrorInnerProto::Generic(msg) => object_store::Error::Generic {
-                store: parse_store(&msg.store),
-                source: msg.source.clone().into(),
+            ObjectStoreErrorInnerProto::Generic(msg) => match parse_store(&msg.store) {
+                Some(store) => object_store::Error::Generic {
+                    store,
+                    source: msg.source.clone().into(),
+                },
+                None => object_store::Error::Generic {
+                    store: "unknown",
+                    source: format!("Generic {} error: {}", msg.store, msg.source).into(),
+                },
             },
             ObjectStoreErrorInnerProto::NotFound(msg) => object_store::Error::NotFound {
                 path: msg.path.clone(),
@@ -245,19 +251,32 @@ impl ObjectStoreErrorProto {
                 }
             }
             ObjectStoreErrorInnerProto::UnknownConfigurationKey(msg) => {
-                object_store::Error::UnknownConfigurationKey {
-                    key: msg.key.clone(),
-                    store: parse_store(&msg.store),
+                match parse_store(&msg.store) {
+                    Some(store) => object_store::Error::UnknownConfigurationKey {
+                        key: msg.key.clone(),
+                        store,
+                    },
+                    None => object_store::Error::Generic {
+                        store: "unknown",
+                        source: format!(
+                            "Configuration key: '{}' is not valid for store '{}'.",
+                            msg.key, msg.store
+                        )
+                        .into(),
+                    },
                 }
             }
         }
     }
 }
 
-fn parse_store(store: &str) -> &'static str {
+/// The name of a store is a `&'static str`, so only the known ones can be restored. Errors of
+/// other stores carry the name in their message instead.
+fn parse_store(store: &str) -> Option<&'static str> {
     // some appearances while looking at
     // https://github.com/search?q=repo%3Aapache%2Farrow-rs-object-store%20store%3A%20%22&type=code
-    match store {
+    let store = match store {
+        "unknown" => "unknown",
         "GCS" => "GCS",
         "MicrosoftAzure" => "MicrosoftAzure",
         "S3" => "S3",
@@ -271,8 +290,9 @@ fn parse_store(store: &str) -> &'static str {
         "ObjectStoreRegistry" => "ObjectStoreRegistry",
         "Parts" => "Parts",
         "LocalFileSystem" => "LocalFileSystem",
-        _ => "Unknown",
-    }
+        _ => return None,
+    };
+    Some(store)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 89f86856c98f6cf80e8fae3809ce5249bd947a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 37/50] fix: propagate options with upper case letters in their
 names

---
 src/config_extension_ext.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/config_extension_ext.rs b/src/config_extension_ext.rs
index 5ab692d..015ec69 100644
--- a/src/config_extension_ext.rs
+++ b/src/config_extension_ext.rs
@@ -1,4 +1,4 @@
-use datafusion::common::{DataFusionError, HashSet, internal_datafusion_err};
+use datafusion::common::{DataFusionError, HashMap, internal_datafusion_err};
 use datafusion::config::ConfigExtension;
 use datafusion::prelude::SessionConfig;
 use http::{HeaderMap, HeaderName};
@@ -57,19 +57,20 @@ pub(crate) fn set_distributed_option_extension_from_headers<'a, T: ConfigExtensi
         .as_mut()
         .entries()
         .into_iter()
-        .map(|entry| entry.key)
-        .collect::<HashSet<_>>();
+        // Header names are case-insensitive and always arrive in lowercase.
+        .map(|entry| (entry.key.to_ascii_lowercase(), entry.key))
+        .collect::<HashMap<_, _>>();
 
     for (k, v) in headers.iter() {
         // Headers without the reserved prefix belong to the user, not to the configuration.
         let Some(key) = k.as_str().strip_prefix(FLIGHT_METADATA_CONFIG_PREFIX) else {
             continue;
         };
-        let prefix = format!("{}.", T::PREFIX);
+        let prefix = format!("{}.", T::PREFIX.to_ascii_lowercase());
         if let Some(key) = key.strip_prefix(&prefix) {
-            if !known_keys.contains(key) {
+            let Some(key) = known_keys.get(key) else {
                 continue;
-            }
+            };
 
             result.as_mut().set(
                 key,
-- 
2.43.0


From 81050f0c41273d2ee4fbb45b9a7f535ab5284d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 38/50] fix: announce large lists and nullable unions with
 their own type when streaming batches

---
 src/protocol/grpc/worker_service.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/protocol/grpc/worker_service.rs b/src/protocol/grpc/worker_service.rs
index 8717fef..fe9241e 100644
--- a/src/protocol/grpc/worker_service.rs
+++ b/src/protocol/grpc/worker_service.rs
@@ -11,9 +11,9 @@ use crate::{
     WorkUnitMsg, Worker, WorkerResolver, WorkerToCoordinatorMsg,
 };
 
-use arrow_flight::FlightData;
-use arrow_flight::encode::{DictionaryHandling, FlightDataEncoder, FlightDataEncoderBuilder};
+use arrow_flight::encode::{DictionaryHandling, FlightDataEncoderBuilder};
 use arrow_flight::error::FlightError;
+use arrow_flight::{FlightData, SchemaAsIpc};
 use arrow_select::dictionary::garbage_collect_any_dictionary;
 use async_trait::async_trait;
 use datafusion::arrow::array::{Array, AsArray, RecordBatch, RecordBatchOptions};
@@ -385,13 +385,14 @@ where
 fn build_flight_data_stream(
     stream: SendableRecordBatchStream,
     compression_type: Option<CompressionType>,
-) -> datafusion::common::Result<FlightDataEncoder, Status> {
+) -> datafusion::common::Result<impl Stream<Item = Result<FlightData, FlightError>> + Unpin, Status>
+{
+    let options = IpcWriteOptions::default()
+        .try_with_compression(compression_type)
+        .map_err(|err| Status::internal(err.to_string()))?;
+    let schema_message = FlightData::from(SchemaAsIpc::new(&stream.schema(), &options));
     let stream = FlightDataEncoderBuilder::new()
-        .with_options(
-            IpcWriteOptions::default()
-                .try_with_compression(compression_type)
-                .map_err(|err| Status::internal(err.to_string()))?,
-        )
+        .with_options(options)
         .with_schema(stream.schema())
         // This tells the encoder to send dictionaries across the wire as-is.
         // The alternative (`DictionaryHandling::Hydrate`) would expand the dictionaries
@@ -416,7 +417,15 @@ fn build_flight_data_stream(
                 // Apply garbage collection of dictionary and view arrays before sending over the network
                 .and_then(|rb| std::future::ready(garbage_collect_arrays(rb)))
                 .map_err(|err| FlightError::Tonic(Box::new(datafusion_error_to_tonic_status(err)))),
-        );
+        )
+        .enumerate()
+        // The first message announces the schema. The encoder announces the types it prepares for
+        // `DictionaryHandling::Hydrate` there (lists instead of large lists, unions that are not
+        // nullable), but the batches keep their original types, so announce those instead.
+        .map(move |(i, msg)| match i {
+            0 => msg.map(|_| schema_message.clone()),
+            _ => msg,
+        });
     Ok(stream)
 }
 
-- 
2.43.0


From 52debcee50838f416ddcfeb644b7ba46b392d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 39/50] fix: do not underflow work unit latencies if the clocks
 of two machines disagree

---
 src/work_unit_feed/remote_work_unit_feed.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/work_unit_feed/remote_work_unit_feed.rs b/src/work_unit_feed/remote_work_unit_feed.rs
index 5b73ef7..38d9ea9 100644
--- a/src/work_unit_feed/remote_work_unit_feed.rs
+++ b/src/work_unit_feed/remote_work_unit_feed.rs
@@ -193,14 +193,17 @@ impl RemoteFeedProvider {
 
                 msg_count.add(1);
 
-                send_latency_max.add_nanos(sent_timestamp_unix_nanos - base);
-                send_latency_p50.add_nanos(sent_timestamp_unix_nanos - base);
+                // The timestamps are taken by different machines, whose clocks may disagree.
+                let since_created = |timestamp: usize| timestamp.saturating_sub(base);
 
-                received_latency_max.add_nanos(received_timestamp_unix_nanos - base);
-                received_latency_p50.add_nanos(received_timestamp_unix_nanos - base);
+                send_latency_max.add_nanos(since_created(sent_timestamp_unix_nanos));
+                send_latency_p50.add_nanos(since_created(sent_timestamp_unix_nanos));
 
-                processed_latency_max.add_nanos(processed_timestamp_unix_nanos - base);
-                processed_latency_p50.add_nanos(processed_timestamp_unix_nanos - base);
+                received_latency_max.add_nanos(since_created(received_timestamp_unix_nanos));
+                received_latency_p50.add_nanos(since_created(received_timestamp_unix_nanos));
+
+                processed_latency_max.add_nanos(since_created(processed_timestamp_unix_nanos));
+                processed_latency_p50.add_nanos(since_created(processed_timestamp_unix_nanos));
 
                 Ok(work_unit)
             })
-- 
2.43.0


From 323c6f20a3ba0bd7929cbb25fa710eeda2eaedc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:04 +0000
Subject: [PATCH 40/50] fix: do not overflow when adding up the estimated costs
 of huge plans

---
 src/distributed_planner/statistics/complexity.rs      | 2 +-
 src/distributed_planner/statistics/cost.rs            | 2 +-
 src/distributed_planner/statistics/plan_statistics.rs | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distributed_planner/statistics/complexity.rs b/src/distributed_planner/statistics/complexity.rs
index b03c6c7..c0d8f36 100644
--- a/src/distributed_planner/statistics/complexity.rs
+++ b/src/distributed_planner/statistics/complexity.rs
@@ -100,7 +100,7 @@ impl Complexity {
                 // `ilog2` panics on 0, which happens whenever the logged input has zero estimated
                 // bytes/rows (e.g. an empty or fully-pruned relation). Flooring at 1 makes log2
                 // contribute 0 there, i.e. sorting/merging nothing costs nothing.
-                n * m.checked_ilog2().unwrap_or(0) as usize
+                n.saturating_mul(m.checked_ilog2().unwrap_or(0) as usize)
             }
             Self::Plus(n, m) => n
                 .cost(output_stat, input_stats)?
diff --git a/src/distributed_planner/statistics/cost.rs b/src/distributed_planner/statistics/cost.rs
index dbb76e5..fa63690 100644
--- a/src/distributed_planner/statistics/cost.rs
+++ b/src/distributed_planner/statistics/cost.rs
@@ -25,7 +25,7 @@ impl AddAssign for Cost {
 
 fn sum_precision(one: Precision<usize>, other: Precision<usize>) -> Precision<usize> {
     match (one.get_value(), other.get_value()) {
-        (Some(one), Some(other)) => Precision::Inexact(one + other),
+        (Some(one), Some(other)) => Precision::Inexact(one.saturating_add(*other)),
         (Some(one), None) => Precision::Inexact(*one),
         (None, Some(other)) => Precision::Inexact(*other),
         (None, None) => Precision::Absent,
diff --git a/src/distributed_planner/statistics/plan_statistics.rs b/src/distributed_planner/statistics/plan_statistics.rs
index 636d4b8..82212c5 100644
--- a/src/distributed_planner/statistics/plan_statistics.rs
+++ b/src/distributed_planner/statistics/plan_statistics.rs
@@ -3,7 +3,6 @@ use datafusion::common::stats::Precision;
 use datafusion::common::{Statistics, plan_err};
 use datafusion::error::Result;
 use datafusion::physical_plan::{ExecutionPlan, StatisticsArgs};
-use itertools::Itertools;
 use std::sync::Arc;
 
 /// Ratio applied to the total number of rows for calculating the fallback value for NDVs.
@@ -28,7 +27,8 @@ pub(super) fn plan_statistics(
         && let Some(child_rows) = children_stats
             .iter()
             .flat_map(|v| v.num_rows.get_value())
-            .sum1::<usize>()
+            .copied()
+            .reduce(usize::saturating_add)
     {
         stats.num_rows = Precision::Inexact(child_rows)
     }
-- 
2.43.0


From 331fdee897827744ed26ded0824e17debad19b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 41/50] fix: do not overflow when extrapolating the sampled
 output of a stage

---
 src/coordinator/prepare_dynamic_plan.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/coordinator/prepare_dynamic_plan.rs b/src/coordinator/prepare_dynamic_plan.rs
index bc70efd..2e0c1c2 100644
--- a/src/coordinator/prepare_dynamic_plan.rs
+++ b/src/coordinator/prepare_dynamic_plan.rs
@@ -297,8 +297,16 @@ async fn gather_runtime_statistics(
         return Ok((zero_stats(n_cols), new_metrics));
     }
 
-    let per_col_byte_size = vec_mul(per_col_bytes_ready, 1. / estimated_pct_sampled);
-    let total_byte_size: usize = per_col_byte_size.iter().sum();
+    // `estimated_pct_sampled` can be arbitrarily small, so these are not allowed to overflow. Casting
+    // a too big float to an integer saturates.
+    let per_col_byte_size: Vec<usize> = per_col_bytes_ready
+        .iter()
+        .map(|bytes| (*bytes as f32 / estimated_pct_sampled) as usize)
+        .collect();
+    let total_byte_size = per_col_byte_size
+        .iter()
+        .copied()
+        .fold(0, usize::saturating_add);
 
     new_metrics.push(BytesCounterMetric::new_metric(
         "estimated_output_bytes",
@@ -342,7 +350,7 @@ fn estimated_driver_path_leaf_rows(plan: &Arc<dyn ExecutionPlan>) -> Option<usiz
             let stats = StatisticsContext::new().compute(plan.as_ref(), &StatisticsArgs::new())?;
             if let Some(num_rows) = stats.num_rows.get_value() {
                 if let Some(total_rows) = &mut total_rows {
-                    *total_rows += *num_rows;
+                    *total_rows = num_rows.saturating_add(*total_rows);
                 } else {
                     total_rows = Some(*num_rows);
                 };
-- 
2.43.0


From abe1d549a391092f27435a270edac9706e656117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 42/50] fix: refuse malformed partition ranges instead of
 underflowing or running part of them

---
 src/worker/impl_execute_task.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/worker/impl_execute_task.rs b/src/worker/impl_execute_task.rs
index 1c62fc1..685b5a4 100644
--- a/src/worker/impl_execute_task.rs
+++ b/src/worker/impl_execute_task.rs
@@ -39,17 +39,23 @@ impl Worker {
         let partition_count = plan.properties().partitioning.partition_count();
         let plan_name = plan.name();
 
+        // Refuse the whole request before executing any of its partitions if it asks for partitions
+        // that do not exist.
+        let (start, end) = (request.target_partition_start, request.target_partition_end);
+        if start > end {
+            return exec_err!("invalid partition range {start}..{end}");
+        }
+        if end > partition_count {
+            let partition = start.max(partition_count);
+            return exec_err!(
+                "partition {partition} not available. The head plan {plan_name} of the stage just has {partition_count} partitions"
+            );
+        }
+
         // Execute all the requested partitions at once, and collect all the streams so that they
         // can be merged into a single one at the end of this function.
-        let n_streams = request.target_partition_end - request.target_partition_start;
-        let mut streams = Vec::with_capacity(n_streams);
-        for partition in request.target_partition_start..request.target_partition_end {
-            if partition >= partition_count {
-                return exec_err!(
-                    "partition {partition} not available. The head plan {plan_name} of the stage just has {partition_count} partitions"
-                );
-            }
-
+        let mut streams = Vec::with_capacity(end - start);
+        for partition in start..end {
             let stream = plan.execute(partition, Arc::clone(&task_ctx))?;
             let stream_schema = plan.schema();
 
-- 
2.43.0


From fbd49610c7c1a42632fcde7044fe6d255f5cb237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 43/50] fix: keep the head of a plan when no producer head is
 to be inserted

---
 src/distributed_planner/network_boundary.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/distributed_planner/network_boundary.rs b/src/distributed_planner/network_boundary.rs
index 94b14e7..182bdae 100644
--- a/src/distributed_planner/network_boundary.rs
+++ b/src/distributed_planner/network_boundary.rs
@@ -84,6 +84,10 @@ impl ProducerHead {
     /// Ensures the head of the provided plan complies with the passed [ProducerHead] definition. This
     /// can be called both during planning and lazily at runtime.
     pub(crate) fn insert(self, input: Arc<dyn ExecutionPlan>) -> Result<Arc<dyn ExecutionPlan>> {
+        // Nothing is ever inserted for this head, so whatever heads the plan belongs to the plan.
+        if matches!(self, ProducerHead::None) {
+            return Ok(input);
+        }
         // A previously inserted head is either a hash RepartitionExec or a BroadcastExec. Any other
         // RepartitionExec belongs to the plan of the stage.
         let input = if let Some(r_exec) = input.downcast_ref::<RepartitionExec>()
-- 
2.43.0


From 59ca022fbf30eaccf3a79b57221b9efbbb85259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 44/50] fix: push only the fetch of operators that let limits
 through below a network coalesce

---
 src/distributed_planner/push_fetch_into_network_coalesce.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/distributed_planner/push_fetch_into_network_coalesce.rs b/src/distributed_planner/push_fetch_into_network_coalesce.rs
index a9130b3..c148ca1 100644
--- a/src/distributed_planner/push_fetch_into_network_coalesce.rs
+++ b/src/distributed_planner/push_fetch_into_network_coalesce.rs
@@ -95,6 +95,12 @@ pub(crate) fn push_fetch_into_network_coalesce(
 }
 
 fn fetch_required_from_child(plan: &Arc<dyn ExecutionPlan>) -> Option<usize> {
+    // The fetch of a node that drops or reorders rows, like a join, a filter or a sort, says nothing
+    // about how many rows it needs from its children.
+    if !plan.supports_limit_pushdown() {
+        return None;
+    }
+
     if let Some(global_limit) = plan.downcast_ref::<GlobalLimitExec>() {
         return global_limit
             .fetch()
-- 
2.43.0


From 1970a3b692ffcb79a830d3c36450333acad4fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 45/50] fix: execute the single variant of a leaf, whose
 properties the node has

---
 src/execution_plans/distributed_leaf.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/execution_plans/distributed_leaf.rs b/src/execution_plans/distributed_leaf.rs
index 9f3d988..561da60 100644
--- a/src/execution_plans/distributed_leaf.rs
+++ b/src/execution_plans/distributed_leaf.rs
@@ -183,7 +183,9 @@ impl ExecutionPlan for DistributedLeafExec {
         context: Arc<TaskContext>,
     ) -> Result<SendableRecordBatchStream> {
         let d_ctx = DistributedTaskContext::from_ctx(&context);
-        if d_ctx.task_count == 1 {
+        // The properties of this node are the ones of its variants, so a single variant also needs
+        // to be the one executed in a single task.
+        if d_ctx.task_count == 1 && self.variants.len() > 1 {
             return self.original.execute(partition, context);
         }
 
@@ -199,7 +201,10 @@ impl ExecutionPlan for DistributedLeafExec {
     }
 
     fn metrics(&self) -> Option<MetricsSet> {
-        self.original.metrics()
+        match self.variants.as_slice() {
+            [variant] => variant.metrics(),
+            _ => self.original.metrics(),
+        }
     }
 
     fn statistics_from_inputs(
-- 
2.43.0


From 8f17d0ed8cd5c51458f383e0bb86499cfacc2160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 46/50] fix: keep NetworkCoalesceExec's partitioning in step
 with its input

---
 src/execution_plans/network_coalesce.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/execution_plans/network_coalesce.rs b/src/execution_plans/network_coalesce.rs
index 4cbaec0..5323ada 100644
--- a/src/execution_plans/network_coalesce.rs
+++ b/src/execution_plans/network_coalesce.rs
@@ -253,7 +253,16 @@ impl ExecutionPlan for NetworkCoalesceExec {
         let mut self_clone = self.as_ref().clone();
         match &mut self_clone.input_stage {
             Stage::Local(local) => {
-                local.plan = require_one_child(children)?;
+                let child = require_one_child(children)?;
+                let old_partitions = local.plan.properties().partitioning.partition_count();
+                let new_partitions = child.properties().partitioning.partition_count();
+                if new_partitions != old_partitions {
+                    self_clone.properties =
+                        scale_partitioning_props(&self_clone.properties, |p| {
+                            p * new_partitions / old_partitions.max(1)
+                        })?;
+                }
+                local.plan = child;
             }
             Stage::Remote(_) => {
                 if !children.is_empty() {
-- 
2.43.0


From c4bc04dd88da13cdae96d01cb0d5b5c85afe6bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:21 +0000
Subject: [PATCH 47/50] fix: leave room for the statistics in the header of the
 console

---
 console/src/ui/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/console/src/ui/mod.rs b/console/src/ui/mod.rs
index 5601e64..8e1f4f4 100644
--- a/console/src/ui/mod.rs
+++ b/console/src/ui/mod.rs
@@ -13,7 +13,8 @@ use ratatui::layout::{Constraint, Layout};
 /// Top-level render dispatch.
 pub(crate) fn render(frame: &mut Frame, app: &mut App) {
     let [header_area, content_area, footer_area] = Layout::vertical([
-        Constraint::Length(2),
+        // Title, statistics and bottom border.
+        Constraint::Length(3),
         Constraint::Min(5),
         Constraint::Length(1),
     ])
-- 
2.43.0


From a1c13ce71b59bded9570427f644d4078b15dd2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:31 +0000
Subject: [PATCH 48/50] fix: keep the worker detail view of the console on its
 worker when the cluster changes

---
 console/src/app.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/console/src/app.rs b/console/src/app.rs
index 1e87477..0bcacfa 100644
--- a/console/src/app.rs
+++ b/console/src/app.rs
@@ -117,6 +117,12 @@ impl App {
             Err(_) => return,
         };
 
+        // The workers are about to change places: the detail view stays on the one it shows
+        let detail_url = self
+            .workers
+            .get(self.worker_state.worker_idx)
+            .map(|w| w.url.clone());
+
         // Build set of currently known URLs (owned to avoid borrow conflict)
         let known_urls: HashSet<Url> = self.workers.iter().map(|w| w.url.clone()).collect();
 
@@ -130,6 +136,16 @@ impl App {
         // Remove workers that are no longer in the discovered set
         let discovered_set: HashSet<&Url> = discovered_urls.iter().collect();
         self.workers.retain(|w| discovered_set.contains(&w.url));
+
+        if let Some(url) = detail_url {
+            match self.workers.iter().position(|w| w.url == url) {
+                Some(idx) => self.worker_state.worker_idx = idx,
+                None => {
+                    self.worker_state = WorkerViewState::default();
+                    self.current_view = View::ClusterOverview;
+                }
+            }
+        }
     }
 
     /// Update cluster-wide throughput from output rows delta.
-- 
2.43.0


From 8d8ac59556bd5b0c1e07daa78ec0bc57f7e82fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:31 +0000
Subject: [PATCH 49/50] fix: do not freeze the console when a worker accepts
 connections but never answers

---
 console/src/app.rs    | 11 +++++----
 console/src/worker.rs | 54 ++++++++++++++++++++++++++-----------------
 2 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/console/src/app.rs b/console/src/app.rs
index 0bcacfa..8a3d7d0 100644
--- a/console/src/app.rs
+++ b/console/src/app.rs
@@ -74,11 +74,12 @@ impl App {
         self.maybe_discover_workers().await;
 
         // Attempt connection for workers in Connecting or Disconnected state
-        for worker in &mut self.workers {
-            if worker.should_retry_connection() {
-                worker.try_connect().await;
-            }
-        }
+        let connecting = self
+            .workers
+            .iter_mut()
+            .filter(|worker| worker.should_retry_connection())
+            .map(|worker| worker.try_connect());
+        futures::future::join_all(connecting).await;
 
         // Poll all connected workers in parallel with timeout
         let poll_workers: Vec<_> = self
diff --git a/console/src/worker.rs b/console/src/worker.rs
index 44c0626..798d4d8 100644
--- a/console/src/worker.rs
+++ b/console/src/worker.rs
@@ -14,6 +14,9 @@ const MAX_COMPLETED_TASKS: usize = 50;
 /// Number of metric samples to keep per worker (300 * 100ms = 30s of history).
 pub(crate) const METRIC_HISTORY_LEN: usize = 300;
 
+/// How long a worker may take to answer before it counts as not reachable.
+const CONNECT_TIMEOUT: Duration = Duration::from_secs(1);
+
 /// Tracks connection and task state for a single worker.
 pub(crate) struct WorkerConn {
     pub(crate) url: Url,
@@ -89,29 +92,32 @@ impl WorkerConn {
     pub(crate) async fn try_connect(&mut self) {
         self.last_reconnect_attempt = Some(Instant::now());
 
-        match ObservabilityServiceClient::connect(self.url.to_string()).await {
-            Ok(mut client) => match client.ping(PingRequest {}).await {
-                Ok(_) => {
-                    self.client = Some(client);
-                    self.connection_status = ConnectionStatus::Idle;
-                    self.connected_since = Some(Instant::now());
-                    self.tasks.clear();
-                    self.task_first_seen.clear();
-                }
-                Err(e) => {
-                    self.client = None;
-                    self.connected_since = None;
-                    self.connection_status = ConnectionStatus::Disconnected {
-                        reason: format!("Ping failed: {e}"),
-                    };
-                }
-            },
-            Err(e) => {
+        // A worker that accepts the connection may still never answer.
+        let connected = tokio::time::timeout(CONNECT_TIMEOUT, async {
+            let mut client = ObservabilityServiceClient::connect(self.url.to_string())
+                .await
+                .map_err(|e| format!("Connection failed: {e}"))?;
+            client
+                .ping(PingRequest {})
+                .await
+                .map_err(|e| format!("Ping failed: {e}"))?;
+            Ok(client)
+        })
+        .await
+        .unwrap_or_else(|_| Err("Connection timed out".to_string()));
+
+        match connected {
+            Ok(client) => {
+                self.client = Some(client);
+                self.connection_status = ConnectionStatus::Idle;
+                self.connected_since = Some(Instant::now());
+                self.tasks.clear();
+                self.task_first_seen.clear();
+            }
+            Err(reason) => {
                 self.client = None;
                 self.connected_since = None;
-                self.connection_status = ConnectionStatus::Disconnected {
-                    reason: format!("Connection failed: {e}"),
-                };
+                self.connection_status = ConnectionStatus::Disconnected { reason };
             }
         }
     }
@@ -369,6 +375,12 @@ fn push_history(buf: &mut VecDeque<u64>, value: u64) {
 
 /// Connects to a seed worker and calls `GetClusterWorkers` to discover all worker URLs.
 pub(crate) async fn discover_cluster_workers(seed_url: &Url) -> Result<Vec<Url>, String> {
+    tokio::time::timeout(CONNECT_TIMEOUT, get_cluster_workers(seed_url))
+        .await
+        .unwrap_or_else(|_| Err(format!("Seed worker {seed_url} timed out")))
+}
+
+async fn get_cluster_workers(seed_url: &Url) -> Result<Vec<Url>, String> {
     let mut client = ObservabilityServiceClient::connect(seed_url.to_string())
         .await
         .map_err(|e| format!("Failed to connect to seed worker {seed_url}: {e}"))?;
-- 
2.43.0


From 1d6ed5af020749b6285408e7b556c38bf6f97fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:09 +0000
Subject: [PATCH 50/50] fix: deliver the work unit feeds of leaves that have
 one variant per task

---
 src/coordinator/query_coordinator.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index 8cff8d2..6041fcc 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -300,7 +300,7 @@ impl<'a> StageCoordinator<'a> {
             task_count: self.task_count,
         };
         let mut futures = vec![];
-        self.plan.apply_with_dt_ctx(d_ctx, |plan, d_ctx| {
+        let mut start_feed = |plan: &Arc<dyn ExecutionPlan>, d_ctx: DistributedTaskContext| {
             let Some(wuf) = wuf_registry.get_work_unit_feed(plan) else {
                 return Ok(TreeNodeRecursion::Continue);
             };
@@ -338,6 +338,15 @@ impl<'a> StageCoordinator<'a> {
                 Ok::<_, DataFusionError>(())
             }));
             Ok(TreeNodeRecursion::Continue)
+        };
+        self.plan.apply_with_dt_ctx(d_ctx, |plan, d_ctx| {
+            // The feeds of a leaf that has one variant per task are in the variant of this task.
+            if let Some(dle) = plan.downcast_ref::<DistributedLeafExec>() {
+                dle.to_task_specialized(d_ctx.task_index)
+                    .apply_with_dt_ctx(d_ctx, &mut start_feed)
+            } else {
+                start_feed(plan, d_ctx)
+            }
         })?;
 
         struct WorkUnitEosOnDrop(UnboundedSender<CoordinatorToWorkerMsg>);
@@ -376,6 +385,11 @@ impl<'a> StageCoordinator<'a> {
 
         let plan = Arc::clone(self.plan);
         let transformed = plan.transform_down_with_dt_ctx(d_ctx, |plan, d_ctx| {
+            let (plan, specialized) = match plan.downcast_ref::<DistributedLeafExec>() {
+                Some(dle) => (dle.to_task_specialized(d_ctx.task_index), true),
+                None => (plan, false),
+            };
+
             if let Some(wuf) = wuf_registry.get_work_unit_feed(&plan) {
                 work_unit_feed_declarations.push(WorkUnitFeedDeclaration {
                     id: wuf.id(),
@@ -398,12 +412,7 @@ impl<'a> StageCoordinator<'a> {
                 return Ok(Transformed::yes(Arc::new(ciu)));
             };
 
-            if let Some(dle) = plan.downcast_ref::<DistributedLeafExec>() {
-                let specialized = dle.to_task_specialized(d_ctx.task_index);
-                return Ok(Transformed::yes(specialized));
-            }
-
-            Ok(Transformed::no(plan))
+            Ok(Transformed::new_transformed(plan, specialized))
         })?;
         Ok((transformed.data, work_unit_feed_declarations))
     }
-- 
2.43.0

