//! C19: distributed plans are well-formed and preserve schema and ordering.
use super::{Check, c01};
use crate::explore::*;
use crate::planx::*;
use crate::rt;
use crate::sql::*;
use async_trait::async_trait;
use datafusion::common::Result;
use datafusion::config::ConfigOptions;
use datafusion::execution::context::QueryPlanner;
use datafusion::logical_expr::LogicalPlan;
use datafusion::physical_expr::LexOrdering;
use datafusion::physical_optimizer::PhysicalOptimizerRule;
use datafusion::physical_optimizer::sanity_checker::SanityCheckPlan;
use datafusion::physical_plan::joins::{HashJoinExec, PartitionMode, SortMergeJoinExec};
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties, displayable};
use datafusion::physical_planner::{DefaultPhysicalPlanner, PhysicalPlanner};
use datafusion_distributed::*;
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

pub fn check() -> Check {
    Check {
        id: "C19",
        level: "model_checking",
        rule: "case = (query of the C01 grammar, cluster and planner configuration); every case plans the query with the real planner, once and with the planner installed twice, and checks every exchange, stage and node of the result against the single-node plan it was made from",
        assumptions: &["the single-node plan is the one the wrapped DataFusion planner returned in the same planning call", "SanityCheckPlan of DataFusion decides whether a node's ordering and distribution requirements hold within a task"],
        cases,
    }
}

#[derive(Debug, Default)]
pub struct Recorder(pub Mutex<Option<Arc<dyn ExecutionPlan>>>);

#[async_trait]
impl QueryPlanner for Recorder {
    async fn create_physical_plan(&self, l: &LogicalPlan, s: &dyn datafusion::catalog::Session) -> Result<Arc<dyn ExecutionPlan>> {
        let p = DefaultPhysicalPlanner::default().create_physical_plan(l, s).await?;
        *self.0.lock().unwrap() = Some(p.clone());
        Ok(p)
    }
}

fn show(p: &Arc<dyn ExecutionPlan>) -> String {
    displayable(p.as_ref()).indent(true).to_string()
}

/// Checks the plan made for `orig`, both with `max` workers available.
/// `sorted_by`: the number of expressions that the query's own ORDER BY has.
pub fn well_formed(orig: &Arc<dyn ExecutionPlan>, plan: &Arc<dyn ExecutionPlan>, max: usize, dynamic: bool, sorted_by: usize) -> std::result::Result<Vec<usize>, Viol> {
    if plan.schema() != orig.schema() {
        return viol("schema", format!("schema {:?} instead of {:?}", plan.schema(), orig.schema()));
    }
    let Some(root) = plan.downcast_ref::<DistributedExec>() else {
        if nodes(plan).iter().any(|n| n.plan.is_network_boundary()) {
            return viol("no-root", "a plan with exchanges is not headed by DistributedExec");
        }
        if show(plan) != show(orig) {
            return viol("local-plan-changed", format!("a plan that is not distributed was changed from\n{}", show(orig)));
        }
        return Ok(vec![]);
    };
    let _ = root;
    if plan.output_partitioning().partition_count() != 1 {
        return viol("root-partitions", format!("{} output partitions", plan.output_partitioning().partition_count()));
    }
    let body = plan.children()[0].clone();
    if body.output_partitioning().partition_count() != 1 {
        return viol("root-partitions", format!("{} output partitions below the root", body.output_partitioning().partition_count()));
    }
    if orig.output_partitioning().partition_count() == 1
        && let Some(ord) = orig.output_ordering()
        && let Some(ord) = LexOrdering::new(ord.iter().take(sorted_by).cloned())
    {
        for (what, p) in [("root", plan), ("body", &body)] {
            if !p.equivalence_properties().ordering_satisfy(ord.clone()).unwrap_or(false) {
                return viol("ordering-lost", format!("the single-node plan is ordered by {ord}, the {what} of the distributed one is not"));
            }
        }
    }
    let ns = nodes(&body);
    if !dynamic && !ns.iter().any(|n| n.plan.is_network_boundary()) {
        return viol("pointless-root", "a static plan without exchanges is headed by DistributedExec");
    }
    let mut stages = HashSet::new();
    let mut queries = HashSet::new();
    let mut tasks = vec![];
    let mut sanity: Vec<(usize, Arc<dyn ExecutionPlan>)> = vec![(0, body.clone())];
    for n in &ns {
        let p = &n.plan;
        if let Some(b) = p.as_network_boundary() {
            let s = b.input_stage();
            let Some(l) = s.local_plan() else {
                return viol("remote-stage-in-plan", "a planned stage is already remote");
            };
            let (c, pt) = (n.tasks(), s.task_count());
            let (cp, pp) = (p.output_partitioning().partition_count(), l.output_partitioning().partition_count());
            let what = format!("{} into stage {} ({c} consumer tasks, {cp} consumer partitions, {pt} producer tasks, {pp} producer partitions)", p.name(), n.stage());
            tasks.push(pt);
            sanity.push((s.num(), l.clone()));
            if !stages.insert(s.num()) || s.num() == 0 {
                return viol("stage-number", format!("stage number {} is used twice or zero: {what}", s.num()));
            }
            queries.insert(s.query_id());
            if pt == 0 || pt > max {
                return viol("task-count", format!("{pt} tasks with {max} workers: {what}"));
            }
            if pt == 1 && c == 1 {
                return viol("pointless-exchange", what);
            }
            if p.schema() != l.schema() {
                return viol("exchange-schema", format!("{what}: schema {:?} instead of {:?}", p.schema(), l.schema()));
            }
            let ok = if p.is::<NetworkCoalesceExec>() { cp == pp * pt.div_ceil(c) } else { pp == cp * c };
            if !ok {
                return viol("exchange-partitions", what);
            }
            if p.is::<NetworkBroadcastExec>() && !l.is::<BroadcastExec>() {
                return viol("broadcast-head", format!("{what}: the producer's head is {}", l.name()));
            }
            if p.is::<NetworkShuffleExec>() && l.output_partitioning().to_string().split('(').next() != Some("Hash") {
                return viol("shuffle-head", format!("{what}: the producer is partitioned by {}", l.output_partitioning()));
            }
            continue;
        }
        if let Some(l) = p.downcast_ref::<DistributedLeafExec>() {
            if l.variants().len() != n.tasks() {
                return viol("leaf-variants", format!("a leaf with {} variants in a stage of {} tasks", l.variants().len(), n.tasks()));
            }
            for v in l.variants() {
                if v.schema() != p.schema() || v.output_partitioning().partition_count() != p.output_partitioning().partition_count() {
                    return viol("leaf-variants", format!("{} differs in schema or partitions from {}", show(v), show(p)));
                }
            }
        }
        let partitioned = p.downcast_ref::<HashJoinExec>().map(|j| j.mode == PartitionMode::Partitioned).unwrap_or(p.is::<SortMergeJoinExec>());
        if partitioned {
            let c: Vec<usize> = p.children().iter().map(|c| c.output_partitioning().partition_count()).collect();
            if c[0] != c[1] {
                return viol("join-partitions", format!("{}: inputs of {c:?} partitions", show(p)));
            }
        }
    }
    if queries.len() > 1 || queries.iter().any(|q| q.is_nil()) {
        return viol("query-id", format!("query ids {queries:?}"));
    }
    // Whatever the single-node plan satisfied in every node must hold in the stages as well.
    let cfg = ConfigOptions::default();
    if SanityCheckPlan::new().optimize(orig.clone(), &cfg).is_ok() {
        for (num, p) in sanity {
            if let Err(e) = SanityCheckPlan::new().optimize(p, &cfg) {
                return viol("requirements", format!("stage {num}: {e}"));
            }
        }
    }
    Ok(tasks)
}

fn sorted_by(q: &Query) -> usize {
    match (q.cmp, q.sql.rsplit_once("ORDER BY ")) {
        (Cmp::Prefix(_) | Cmp::Sequence, Some((_, by))) => by.split(" LIMIT").next().unwrap().split(',').count(),
        _ => 0,
    }
}

async fn run(o: Opt, q: &Query) -> RunResult {
    let rec = Arc::new(Recorder::default());
    let sim = open(o, |b| b.with_query_planner(rec.clone()).with_distributed_planner()).await;
    let planned = async { sim.ctx.sql(&q.sql).await?.create_physical_plan().await }.await;
    let orig = rec.0.lock().unwrap().take();
    let (plan, orig) = match (planned, orig) {
        (Ok(p), Some(o)) => (p, o),
        (Err(e), Some(_)) => return viol("planning-error", format!("{}: the single-node plan exists, but distributing it fails: {e}", q.sql)),
        (Err(_), None) => return Ok(Obs { outcome: "no single-node plan".into(), ..Default::default() }),
        (Ok(_), None) => return viol("planner-bypassed", "the wrapped planner was not asked"),
    };
    let shown = show(&plan);
    let at = |v: Viol| Viol { key: v.key, msg: format!("{}: {}\n{}", q.sql, v.msg, display_plan_ascii(plan.as_ref(), false)) };
    let tasks = well_formed(&orig, &plan, if o.max > 0 { o.max } else { o.workers }, o.dynamic, sorted_by(q)).map_err(at)?;
    if o.dynamic && !plan.is::<DistributedExec>() && nodes(&orig).iter().all(|n| n.plan.name() != "RecursiveQueryExec") {
        return viol("dynamic-not-distributed", format!("{}: not headed by DistributedExec", q.sql));
    }
    if std::env::var("MC_PLAN").is_ok() {
        println!("{}\n{}", q.sql, display_plan_ascii(plan.as_ref(), false));
    }
    // Planning what is already planned.
    let twice = open(o, |b| b.with_query_planner(rec.clone()).with_distributed_planner().with_distributed_planner()).await;
    let again = async { twice.ctx.sql(&q.sql).await?.create_physical_plan().await }.await;
    match again {
        Ok(p) if show(&p) == shown && display_plan_ascii(p.as_ref(), false) == display_plan_ascii(plan.as_ref(), false) => {}
        Ok(p) => return Err(at(Viol { key: "replanning".into(), msg: format!("planning twice gives\n{}", display_plan_ascii(p.as_ref(), false)) })),
        Err(e) => return Err(at(Viol { key: "replanning".into(), msg: format!("planning twice fails: {e}") })),
    }
    Ok(Obs {
        outcome: format!("{tasks:?}|{}", h64(&display_plan_ascii(plan.as_ref(), false))),
        nontrivial: tasks.iter().any(|t| *t > 1),
        steps: nodes(&plan).len() as u64,
        ..Default::default()
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let mut os = c01::opts(true);
    for w in 1..=5 {
        for (a, b) in [(1, 1), (1, 4), (4, 1), (2, 5), (5, 2), (5, 5), (3, 4)] {
            for tp in [1, 3, 5] {
                os.push(Opt { workers: w, tasks: (a, b, false), tp, layout: w % 3, join: (w as u8 + tp as u8) % 4, partial: a == 5, ..BASE });
                os.push(Opt { workers: w, tasks: (a, b, true), tp, layout: (w + 1) % 3, bcast: a != 2, iso: b != 5, ..BASE });
            }
        }
    }
    for (qi, q) in c01::queries().iter().enumerate() {
        for (oi, o) in os.iter().enumerate() {
            if !thorough && (qi + oi * 5) % 41 != 0 {
                continue;
            }
            let (q, o) = (q.clone(), *o);
            v.push(case(format!("plan/{}/{}", q.name, o.name()), 0, move |_| rt::sim(run(o, &q))));
        }
    }
    v
}
