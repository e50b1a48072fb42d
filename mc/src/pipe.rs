//! Helpers shared by the checks that run boundary plans end to end on the simulated cluster.
use crate::explore::*;
use crate::net::*;
use crate::rt;
use datafusion::arrow::array::{Array, AsArray, RecordBatch};
use datafusion::arrow::datatypes::Int64Type;
use datafusion::common::{DataFusionError, Result};
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::{ExecutionPlan, execute_stream};
use datafusion::prelude::SessionConfig;
use datafusion_distributed::*;
use futures::StreamExt;
use std::sync::Arc;
use std::time::Duration;

/// How long (virtual time) a query may take before it is a hang.
pub const HORIZON_SECS: u64 = 3600;

pub fn cfg(target_partitions: usize) -> SessionConfig {
    SessionConfig::new().with_target_partitions(target_partitions)
}

pub async fn plan_on(
    cluster: &Cluster,
    plan: Arc<dyn ExecutionPlan>,
    cfg: SessionConfig,
    f: impl FnOnce(SessionStateBuilder) -> SessionStateBuilder,
) -> Result<(datafusion::prelude::SessionContext, Arc<dyn ExecutionPlan>)> {
    let urls = cluster.urls.clone();
    let ctx = cluster.session_for_plan(plan, cfg, |b| {
        f(b.with_distributed_route_tasks_handler(fixed_routing(urls)))
    });
    let p = plan_fixed(&ctx).await?;
    Ok((ctx, p))
}

pub enum Outcome {
    Rows(Vec<RecordBatch>),
    Err(String, Vec<RecordBatch>),
    Hang(Vec<RecordBatch>),
}

/// Runs a physical plan to its end, within the virtual horizon.
pub async fn run_to_end(ctx: &datafusion::prelude::SessionContext, plan: Arc<dyn ExecutionPlan>) -> Outcome {
    let mut got = vec![];
    let mut st = match execute_stream(plan, ctx.task_ctx()) {
        Ok(s) => s,
        Err(e) => return Outcome::Err(e.to_string(), got),
    };
    loop {
        match rt::vtimeout(HORIZON_SECS, st.next()).await {
            Err(()) => return Outcome::Hang(got),
            Ok(None) => return Outcome::Rows(got),
            Ok(Some(Ok(b))) => got.push(b),
            Ok(Some(Err(e))) => return Outcome::Err(e.to_string(), got),
        }
    }
}

pub fn i64s(batches: &[RecordBatch]) -> Vec<Vec<Option<i64>>> {
    let mut rows = vec![];
    for b in batches {
        let cols: Vec<_> = b.columns().iter().map(|c| c.as_primitive::<Int64Type>().clone()).collect();
        for r in 0..b.num_rows() {
            rows.push(cols.iter().map(|c| c.is_valid(r).then(|| c.value(r))).collect());
        }
    }
    rows
}

/// Policy: the explorer may delay any event of the given kinds.
pub fn delays(ch: &Ch, kinds: &'static [Kind], levels: usize) -> impl Policy + 'static {
    let ch = ch.clone();
    move |ev: &Ev| {
        if !kinds.contains(&ev.kind) {
            return Decision::Go;
        }
        let c = choose(&ch, 1 + levels, |c| format!("{}:{}", ev.short(), if c == 0 { "go" } else { "late" }));
        if c == 0 { Decision::Go } else { Decision::Delay(Duration::from_millis(1000 * c as u64)) }
    }
}

pub fn df_err<T>(r: Result<T, DataFusionError>, what: &str) -> std::result::Result<T, Viol> {
    r.map_err(|e| Viol { key: format!("{what}-error"), msg: format!("{what}: {e}") })
}

/// Desired task counts read from the tag of a [crate::vexec::VExec] leaf: "d<N>" or "m<N>".
pub fn tag_task_counts(ev: DesiredTaskCountEvent<'_>) -> Option<Result<DesiredTaskCountEventResponse>> {
    let v = ev.plan.downcast_ref::<crate::vexec::VExec>()?;
    let t = std::str::from_utf8(&v.tag).ok()?;
    let n: usize = t.get(1..)?.parse().ok()?;
    Some(Ok(if t.starts_with('m') { DesiredTaskCountEventResponse::maximum(n) } else { DesiredTaskCountEventResponse::desired(n) }))
}

/// (stage, number of tasks whose plan was delivered), from the message log.
pub fn stage_tasks(log: &[Ev]) -> std::collections::BTreeMap<usize, std::collections::BTreeSet<usize>> {
    let mut m: std::collections::BTreeMap<usize, std::collections::BTreeSet<usize>> = Default::default();
    for e in log {
        if e.kind == Kind::SetPlan {
            m.entry(e.stage).or_default().insert(e.task);
        }
    }
    m
}
