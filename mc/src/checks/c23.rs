//! C23: registered handlers decide, in order, and their errors fail the query.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::scen::pool_env;
use crate::vexec::*;
use crate::vtable::*;
use datafusion::common::tree_node::{Transformed, TreeNode};
use datafusion::common::{Result, exec_datafusion_err, exec_err};
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::ExecutionPlan;
use datafusion_distributed::*;
use futures::FutureExt;
use std::collections::BTreeSet;
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Mutex};

pub fn check() -> Check {
    Check {
        id: "C23",
        level: "model_checking",
        rule: "case = (kind of event, planner mode, transport); all assignments of behaviours (defers, answers, answers differently, fails) to three registered handlers, compared with the documented order of dispatch; non-trivial = some handler answered",
        assumptions: &["bounds: three handlers per event, three workers"],
        cases,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind_ {
    Desired,
    Scale,
    Route,
    Rewrite,
    /// Rewriting handlers that were registered with the client instead of the workers.
    RewriteClient,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Defer,
    Answer,
    Differ,
    Fail,
    Panic,
}
const DOS: [Do; 5] = [Do::Defer, Do::Answer, Do::Differ, Do::Fail, Do::Panic];

const WORKERS: usize = 3;
const N: usize = 3;

#[derive(Clone, Copy, Debug)]
struct O {
    kind: Kind_,
    dynamic: bool,
    tr: Transport,
    /// The query needs a shuffle.
    shuffle: bool,
}

fn leaf(p: &Arc<dyn ExecutionPlan>) -> Option<&VExec> {
    p.downcast_ref::<VExec>()
}

/// Rows of the table in state `n` (which handlers of a worker have rewritten it, in which order).
fn source(n: i64) -> SrcHandle {
    SrcBuilder::new(kv_schema(), move |s| {
        let mine: Vec<Kv> = (0..12).filter(|i| (*i as usize % s.tasks, *i as usize / s.tasks % s.parts) == (s.task, s.part)).map(|i| (Some(i), n)).collect();
        vec![Item::Batch(kv_batch(&mine))]
    })
    .build()
}

fn fail<T>(d: Do, i: usize) -> Option<Result<T>> {
    match d {
        Do::Fail => Some(exec_err!("boom-handler-{i}")),
        Do::Panic => panic!("boom-handler-{i}"),
        _ => None,
    }
}

fn one(o: O, ch: &Ch) -> RunResult {
    rt::sim(async {
        let menu: &[Do] = if matches!(o.kind, Kind_::Rewrite | Kind_::Route) && !o.dynamic { &DOS } else { &DOS[..4] };
        let dos: Vec<Do> = (0..N).map(|i| menu[choose(ch, menu.len(), |c| format!("handler {i}: {:?}", menu[c]))]).collect();
        // States: 0 and, for every sequence of up to three rewrites, a number in base 4.
        let srcs: Arc<Vec<SrcHandle>> = Arc::new((0..64).map(source).collect());
        let calls: Arc<Mutex<Vec<(usize, usize)>>> = Default::default();
        // Counts that handlers were told.
        let told: Arc<Mutex<BTreeSet<usize>>> = Default::default();
        let rewriters = {
            let (dos, srcs, calls) = (dos.clone(), srcs.clone(), calls.clone());
            move |mut b: SessionStateBuilder| {
                for (i, d) in dos.iter().copied().enumerate() {
                    let (srcs, calls) = (srcs.clone(), calls.clone());
                    b = b.with_distributed_worker_plan_rewrite_handler(move |ev: WorkerPlanRewriteEvent<'_>| {
                        calls.lock().unwrap().push((i, 0));
                        if let Some(r) = fail(d, i) {
                            return r;
                        }
                        if d == Do::Defer {
                            return Ok(WorkerPlanRewriteEventResponse::new(ev.plan));
                        }
                        let id = if d == Do::Answer { 1 } else { 2 };
                        let plan = ev.plan.transform_down(|p| {
                            let Some(v) = leaf(&p) else { return Ok(Transformed::no(p)) };
                            let at = srcs.iter().position(|s| s.0.id == v.src.id).ok_or_else(|| exec_datafusion_err!("unknown leaf"))?;
                            let new = VExec::new(srcs[(4 * at + id) % 64].0.clone(), v.parts, v.projection.clone(), v.tag.clone());
                            Ok(Transformed::yes(Arc::new(new) as _))
                        })?;
                        Ok(WorkerPlanRewriteEventResponse::new(plan.data))
                    });
                }
                b
            }
        };
        let hook: Option<StateHook> = (o.kind == Kind_::Rewrite).then(|| {
            let r = rewriters.clone();
            Arc::new(move |b: SessionStateBuilder, _: &http::HeaderMap| Ok(r(b))) as StateHook
        });
        let cluster = Cluster::with(WORKERS, o.tr, hook, pool_env);
        let urls = cluster.urls.clone();
        let ctx = cluster.session(cfg(2), |mut b| {
            b = b.with_distributed_dynamic_task_count(o.dynamic).unwrap();
            for (i, d) in dos.iter().copied().enumerate() {
                match o.kind {
                    Kind_::Desired => {
                        let calls = calls.clone();
                        b = b.with_distributed_desired_task_count_handler(move |ev: DesiredTaskCountEvent<'_>| {
                            leaf(ev.plan)?;
                            calls.lock().unwrap().push((i, 0));
                            fail(d, i).or(match d {
                                Do::Answer => Some(Ok(DesiredTaskCountEventResponse::desired(2))),
                                Do::Differ => Some(Ok(DesiredTaskCountEventResponse::desired(7))),
                                _ => None,
                            })
                        });
                    }
                    Kind_::Scale => {
                        let (calls, srcs, told) = (calls.clone(), srcs.clone(), told.clone());
                        b = b.with_distributed_scale_up_leaf_node_handler(move |ev: ScaleUpLeafNodeEvent<'_>| {
                            let v = leaf(ev.plan)?;
                            calls.lock().unwrap().push((i, ev.task_count));
                            told.lock().unwrap().insert(ev.task_count);
                            let id = match d {
                                Do::Answer => 1,
                                Do::Differ => 2,
                                _ => return fail(d, i),
                            };
                            let new = |id: usize| Arc::new(VExec::new(srcs[id].0.clone(), v.parts, v.projection.clone(), v.tag.clone())) as Arc<dyn ExecutionPlan>;
                            // One variant per task, all of the same rows.
                            let l = DistributedLeafExec::try_new(Arc::clone(ev.plan), (0..ev.task_count).map(|_| new(id + 4 * (i + 1))));
                            Some(l.map(|l| ScaleUpLeafNodeEventResponse::new(Arc::new(l))))
                        });
                    }
                    Kind_::Route => {
                        let (calls, urls) = (calls.clone(), urls.clone());
                        b = b.with_distributed_route_tasks_handler(move |ev: RouteTasksEvent<'_>| {
                            calls.lock().unwrap().push((i, ev.task_count));
                            let to = |w: usize| Some(Ok(RouteTasksEventResponse::new(vec![urls[w].clone(); ev.task_count])));
                            match d {
                                Do::Answer => to(i),
                                Do::Differ => to((i + 1) % WORKERS),
                                _ => fail(d, i),
                            }
                        });
                    }
                    Kind_::Rewrite | Kind_::RewriteClient => {}
                }
            }
            if o.kind == Kind_::RewriteClient {
                b = rewriters(b);
            }
            // Consulted last.
            b.with_distributed_desired_task_count_handler(tag_task_counts)
        });
        let tag = "d3";
        ctx.register_table("t", Arc::new(VTable { src: srcs[0].0.clone(), parts: 2, tag: tag.into() })).unwrap();
        let sql = if o.shuffle { "SELECT v, count(*) FROM t GROUP BY v" } else { "SELECT v FROM t" };
        let at = format!("{o:?} {dos:?}");
        let run = async {
            let plan = ctx.sql(sql).await?.create_physical_plan().await?;
            Ok::<_, datafusion::error::DataFusionError>(run_to_end(&ctx, plan).await)
        };
        let t0 = tokio::time::Instant::now();
        let got = match AssertUnwindSafe(run).catch_unwind().await {
            Err(_) => Err("panic".to_string()),
            Ok(Err(e)) => Err(e.to_string()),
            Ok(Ok(Outcome::Hang(_))) => return viol("hang", at),
            Ok(Ok(Outcome::Err(e, _))) => Err(e),
            Ok(Ok(Outcome::Rows(r))) => Ok(r),
        };
        if t0.elapsed().as_secs() > 30 {
            return viol("slow", format!("{at}: {} s", t0.elapsed().as_secs()));
        }
        // What should have happened.
        let active = o.kind != Kind_::RewriteClient;
        let first = match o.kind {
            // Every handler is applied.
            Kind_::Rewrite => dos.iter().position(|d| matches!(d, Do::Fail | Do::Panic)),
            Kind_::RewriteClient => None,
            _ => dos.iter().position(|d| *d != Do::Defer),
        };
        let bad = first.filter(|i| active && matches!(dos[*i], Do::Fail | Do::Panic));
        // Handlers beyond the deciding one are not consulted.
        if let Some(f) = first
            && let Some(c) = calls.lock().unwrap().iter().find(|c| c.0 > f)
        {
            return viol("consulted", format!("{at}: handler {} was consulted although handler {f} had decided", c.0));
        }
        let rows = match (got, bad) {
            (Err(e), Some(i)) => {
                if dos[i] == Do::Fail && !e.contains(&format!("boom-handler-{i}")) {
                    return viol("message", format!("{at}: the query fails with: {e}"));
                }
                return Ok(Obs { outcome: "err".into(), nontrivial: true, ..Default::default() });
            }
            (Err(e), None) => return viol("error", format!("{at}: {e}")),
            (Ok(_), Some(i)) => return viol("ignored", format!("{at}: the failure of handler {i} is ignored")),
            (Ok(r), None) => r,
        };
        // Rows tell which source they come from.
        let mut seen: Vec<(i64, i64)> = vec![];
        for r in i64s(&rows) {
            let n = if o.shuffle { r[1].unwrap() } else { 1 };
            seen.push((r[0].unwrap(), n));
        }
        let n: i64 = seen.iter().map(|s| s.1).sum();
        let states: BTreeSet<i64> = seen.iter().map(|s| s.0).collect();
        let state = match o.kind {
            Kind_::Rewrite => dos.iter().fold(0, |s, d| match d {
                Do::Answer => 4 * s + 1,
                Do::Differ => 4 * s + 2,
                _ => s,
            }),
            Kind_::Scale => first.map_or(0, |i| 4 * (i as i64 + 1) + if dos[i] == Do::Answer { 1 } else { 2 }),
            _ => 0,
        };
        if n != 12 || states != BTreeSet::from([state]) {
            return viol("rows", format!("{at}: {n} rows of sources {states:?}, expected 12 of {state}"));
        }
        let log = cluster.net.log();
        let tasks: BTreeSet<usize> = srcs.iter().flat_map(|s| s.opened().keys().map(|k| k.tasks).collect::<Vec<_>>()).collect();
        let want = match (o.kind, first) {
            (Kind_::Desired, Some(i)) => if dos[i] == Do::Answer { 2 } else { WORKERS },
            _ => 3,
        };
        if tasks != BTreeSet::from([want]) {
            return viol("task-count", format!("{at}: the leaf runs in {tasks:?} tasks, expected {want}"));
        }
        if o.kind == Kind_::Scale && *told.lock().unwrap() != BTreeSet::from([want]) {
            return viol("told", format!("{at}: handlers were told {:?}, the leaf runs in {want} tasks", told.lock().unwrap()));
        }
        if let (Kind_::Route, Some(i)) = (o.kind, first) {
            let w = if dos[i] == Do::Answer { i } else { (i + 1) % WORKERS };
            if let Some(e) = log.iter().find(|e| e.kind == Kind::SetPlan && e.url != cluster.urls[w]) {
                return viol("route", format!("{at}: {} although worker {w} was chosen", e.short()));
            }
        }
        let called: BTreeSet<usize> = calls.lock().unwrap().iter().map(|c| c.0).collect();
        let must: BTreeSet<usize> = match o.kind {
            Kind_::RewriteClient => BTreeSet::new(),
            Kind_::Rewrite => (0..N).collect(),
            _ => (0..=first.unwrap_or(N - 1)).collect(),
        };
        if called != must {
            return viol("called", format!("{at}: handlers {called:?} were called, expected {must:?}"));
        }
        // A worker applies every handler once per task.
        if o.kind == Kind_::Rewrite {
            let plans = log.iter().filter(|e| e.kind == Kind::SetPlan).count();
            let c = calls.lock().unwrap();
            let per: Vec<usize> = (0..N).map(|i| c.iter().filter(|c| c.0 == i).count()).collect();
            if per != vec![plans; N] {
                return viol("calls", format!("{at}: {plans} plans were delivered, the handlers were called {per:?} times"));
            }
        }
        Ok(Obs { outcome: format!("rows {state} {want}"), nontrivial: first.is_some(), steps: log.len() as u64, ..Default::default() })
    })
}

fn cases(_: bool) -> Vec<Case> {
    let mut v = vec![];
    for kind in [Kind_::Desired, Kind_::Scale, Kind_::Route, Kind_::Rewrite, Kind_::RewriteClient] {
        for dynamic in [false, true] {
            for tr in [Transport::Direct, Transport::Grpc] {
                for shuffle in [false, true] {
                    let o = O { kind, dynamic, tr, shuffle };
                    v.push(case(format!("{kind:?}/{tr:?}{}{}", if dynamic { "-dyn" } else { "" }, if shuffle { "-shuffle" } else { "" }), N, move |ch| one(o, ch)));
                }
            }
        }
    }
    v
}
