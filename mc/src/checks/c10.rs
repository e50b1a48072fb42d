//! C10: the metrics of every task reach the user, once, on the operator that recorded them.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::scen::*;
use crate::sql;
use crate::vexec::VExec;
use datafusion::common::tree_node::TreeNode;
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::metrics::MetricsSet;
use datafusion::physical_plan::{ExecutionPlan, execute_stream};
use datafusion::prelude::SessionContext;
use datafusion_distributed::*;
use datafusion::arrow::array::StringArray;
use futures::{FutureExt, StreamExt};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub fn check() -> Check {
    Check {
        id: "C10",
        level: "model_checking",
        rule: "case = (query, cluster, planner mode, transport, format, how far the result is read) with every message late once; after a query whose result was read to its end, every operator of the rewritten plan must carry exactly the metrics that the operators of the workers' plans recorded, task by task; non-trivial = some worker metric was compared",
        assumptions: &["the metrics of the exchange head that a worker puts on a task's plan (repartitioning, broadcast, sampler) are compared in number only"],
        cases,
    }
}

type Seen = Arc<Mutex<Vec<(usize, Arc<dyn ExecutionPlan>)>>>;

/// Remembers the plan that each task executes.
fn capture(seen: Seen) -> StateHook {
    Arc::new(move |b: SessionStateBuilder, _: &http::HeaderMap| {
        let seen = seen.clone();
        Ok(b.with_distributed_worker_plan_rewrite_handler(move |ev: WorkerPlanRewriteEvent<'_>| {
            let t = ev.session_config.get_extension::<DistributedTaskContext>().map(|d| d.task_index).unwrap_or(usize::MAX);
            seen.lock().unwrap().push((t, ev.plan.clone()));
            Ok(WorkerPlanRewriteEventResponse::new(ev.plan))
        }))
    })
}

fn is_head(p: &Arc<dyn ExecutionPlan>) -> bool {
    matches!(p.name(), "RepartitionExec" | "BroadcastExec" | "SamplerExec")
}

/// What an operator reads: the tables and stages below it.
fn below(p: &Arc<dyn ExecutionPlan>, out: &mut Vec<String>) {
    if let Some(b) = p.as_network_boundary() {
        out.push(format!("s{}", b.input_stage().num()));
        return;
    }
    if p.name() == "ChildrenIsolatorUnionExec" {
        out.push("*".into());
    }
    if let Some(v) = p.downcast_ref::<VExec>() {
        out.push(format!("{}@{:p}", String::from_utf8_lossy(&v.tag), Arc::as_ptr(&v.src)));
    }
    if let Some(t) = sql::scan_table(p) {
        out.push(t);
    }
    if let Some(l) = p.downcast_ref::<DistributedLeafExec>() {
        out.extend(l.children().first().and_then(|c| sql::scan_table(c)).or_else(|| l.variants().first().and_then(sql::scan_table)));
    }
    for c in p.children() {
        below(c, out);
    }
}

type Entry = (String, String, String);

/// (operator, metric of the operator) of a stage, in no particular order. The path of an operator
/// names the operators above it and what is read below it, which is the same in the plan of the
/// client and in the plan of a worker.
pub fn entries(p: &Arc<dyn ExecutionPlan>, path: &str, top: bool, f: &mut dyn FnMut(String, bool, MetricsSet)) {
    let head = top && is_head(p);
    let name = match p.name() {
        "DistributedLeafExec" => "leaf".to_string(),
        "DataSourceExec" => "leaf".to_string(),
        n => n.to_string(),
    };
    let mut b = vec![];
    below(p, &mut b);
    b.sort();
    // Only one branch of an isolated union exists in a task.
    let reads = if b.iter().any(|x| x == "*") { "*".to_string() } else { b.join(",") };
    let me = if head { path.to_string() } else { format!("{path}/{name}({reads})") };
    f(if head { format!("{path}/{name}") } else { me.clone() }, head, p.metrics().unwrap_or_default());
    if p.is_network_boundary() {
        return;
    }
    for c in p.children() {
        entries(c, &me, head, f);
    }
}

fn text(m: &datafusion::physical_plan::Metric) -> String {
    format!("{}={} p{:?}", m.value().name(), m.value(), m.partition())
}

pub fn stages(p: &Arc<dyn ExecutionPlan>) -> Vec<(usize, usize, Arc<dyn ExecutionPlan>)> {
    let mut v = vec![];
    let _ = p.apply(|n| {
        if let Some(b) = n.as_network_boundary() {
            let s = b.input_stage();
            if let Some(p) = s.local_plan() {
                v.push((s.num(), s.task_count(), p.clone()));
            }
        }
        Ok(datafusion::common::tree_node::TreeNodeRecursion::Continue)
    });
    v
}

fn bag(v: impl IntoIterator<Item = Entry>) -> BTreeMap<Entry, i64> {
    let mut m = BTreeMap::new();
    for e in v {
        *m.entry(e).or_default() += 1;
    }
    m
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Read {
    All,
    /// The explorer decides how many batches are read.
    Some,
    /// A fault of C08 may occur.
    Fault(Fault),
}

/// Compares what the workers' operators recorded with the rewritten plan.
fn compare(seen: &Seen, rewritten: &Arc<dyn ExecutionPlan>, format: DistributedMetricsFormat, exact: bool) -> std::result::Result<usize, Viol> {
    let per_task = format == DistributedMetricsFormat::PerTask;
    let mut want = vec![];
    for (task, plan) in seen.lock().unwrap().iter() {
        let t = if per_task { task.to_string() } else { String::new() };
        entries(plan, "", true, &mut |path, head, ms| {
            if !head {
                want.extend(ms.iter().map(|m| (path.clone(), t.clone(), text(m))));
            }
        });
    }
    let mut got = vec![];
    for (num, tasks, plan) in stages(rewritten) {
        entries(&plan, "", true, &mut |path, head, ms| {
            let mut by_name: BTreeMap<(String, String), usize> = BTreeMap::new();
            for m in ms.iter() {
                let t = m.labels().iter().find(|l| l.name() == DISTRIBUTED_DATAFUSION_TASK_ID_LABEL).map(|l| l.value().to_string()).unwrap_or_default();
                if head {
                    *by_name.entry((t, format!("{} {:?}", m.value().name(), m.partition()))).or_default() += 1;
                } else {
                    got.push((path.clone(), t, text(m)));
                }
            }
            let _ = (num, tasks, by_name);
        });
    }
    let n = want.len();
    let (want, got) = (bag(want), bag(got));
    let strip = |b: &BTreeMap<Entry, i64>| bag(b.iter().flat_map(|(k, n)| std::iter::repeat_n((k.0.clone(), k.1.clone(), k.2.split(['=', ' ']).next().unwrap().to_string()), *n as usize)));
    let (want, got) = if exact { (want, got) } else { (strip(&want), strip(&got)) };
    // An operator of a query that was cut short may go on for a moment after it reported.
    let bad = if exact { want != got } else { got.iter().any(|(k, n)| want.get(k).copied().unwrap_or(0) < *n) };
    if bad {
        let diff = |a: &BTreeMap<Entry, i64>, b: &BTreeMap<Entry, i64>| a.iter().filter(|(k, n)| b.get(*k) != Some(n)).map(|(k, n)| format!("{n}x {k:?}")).take(12).collect::<Vec<_>>();
        // Known: see known_findings.txt.
        let (mut ours, mut theirs) = (BTreeMap::new(), BTreeMap::new());
        stages(rewritten).iter().for_each(|s| union_projections(&s.2, &mut ours));
        seen.lock().unwrap().iter().for_each(|s| union_projections(&s.1, &mut theirs));
        let casts = theirs.iter().any(|(k, n)| ours.get(k).is_some_and(|m| m < n));
        let key = if casts { "metrics-union-cast" } else { "metrics" };
        return viol(key, format!("recorded on workers but not shown so:\n {}\nshown but not recorded so:\n {}", diff(&want, &got).join("\n "), diff(&got, &want).join("\n ")));
    }
    Ok(n)
}

fn leading_projections(p: &Arc<dyn ExecutionPlan>) -> usize {
    if p.name() == "ProjectionExec" { 1 + leading_projections(p.children()[0]) } else { 0 }
}

/// For every union, named by what it reads: how many projections start its branches.
fn union_projections(p: &Arc<dyn ExecutionPlan>, out: &mut BTreeMap<String, usize>) {
    let _ = p.apply(|n| {
        if n.name() == "UnionExec" {
            let mut b = vec![];
            below(n, &mut b);
            b.sort();
            let e = out.entry(b.join(",")).or_default();
            *e = (*e).max(n.children().iter().map(|c| leading_projections(c)).sum());
        }
        Ok(datafusion::common::tree_node::TreeNodeRecursion::Continue)
    });
}

struct Sess {
    cluster: Arc<Cluster>,
    ctx: SessionContext,
    seen: Seen,
}

/// The name and the value of a metric in the text of a plan.
fn text_metric(line: &str, name: &str) -> Option<String> {
    let i = line.find(&format!("{name}="))? + name.len() + 1;
    let rest = &line[i..];
    let end = if rest.starts_with('{') { rest.find('}')? + 1 } else { rest.find([',', ']'])? };
    Some(rest[..end].to_string())
}

/// In the text, every variant of a scan shows the rows that the task that executed it has read.
fn leaf_text(seen: &Seen, text: &str) -> std::result::Result<usize, Viol> {
    let mut want: BTreeMap<(String, String), i64> = BTreeMap::new();
    for (task, plan) in seen.lock().unwrap().iter() {
        let _ = plan.apply(|n| {
            if sql::scan_table(n).is_some() {
                let line = datafusion::physical_plan::displayable(n.as_ref()).one_line().to_string();
                let line = line.split(", file_type").next().unwrap();
                if let Some(r) = n.metrics().and_then(|m| m.output_rows()) {
                    *want.entry((line.trim().to_string(), format!("{{{task}:{r}}}"))).or_default() += 1;
                }
            }
            Ok(datafusion::common::tree_node::TreeNodeRecursion::Continue)
        });
    }
    let mut got: BTreeMap<(String, String), i64> = BTreeMap::new();
    // The head stage is executed by the client, whose operators are its own.
    for l in text.lines().skip_while(|l| !l.contains("─ Stage ")) {
        let l = l.trim_start_matches([' ', '│']);
        let Some((t, rest)) = l.split_once(": ") else { continue };
        if !t.starts_with('t') || t[1..].parse::<usize>().is_err() {
            continue;
        }
        let (v, m) = rest.split_once(", metrics=[").unwrap_or((rest, ""));
        // What follows tells how to read, and is not all sent to workers.
        let v = v.split(", file_type").next().unwrap();
        if let Some(r) = text_metric(m, "output_rows") {
            *got.entry((v.trim().to_string(), r)).or_default() += 1;
        }
    }
    if !got.is_empty() && want != got {
        let diff = |a: &BTreeMap<(String, String), i64>, b: &BTreeMap<(String, String), i64>| a.iter().filter(|(k, n)| b.get(*k) != Some(n)).map(|(k, n)| format!("{n}x {k:?}")).take(12).collect::<Vec<_>>().join("\n ");
        return viol("leaf-text", format!("read by tasks but not shown so:\n {}\nshown but not read so:\n {}\n{text}", diff(&want, &got), diff(&got, &want)));
    }
    Ok(got.len())
}

async fn one(s: &Sess, sql: &str, format: DistributedMetricsFormat, read: Read, exact: bool, ch: &Ch) -> std::result::Result<usize, Viol> {
    let plan = df_err(async { s.ctx.sql(sql).await?.create_physical_plan().await }.await, "plan")?;
    let mut st = df_err(execute_stream(plan.clone(), s.ctx.task_ctx()), "execute")?;
    let mut n = 0;
    let mut whole = false;
    loop {
        if read == Read::Some && choose(ch, 2, |c| if c == 0 { "read".into() } else { format!("drop after {n}") }) == 1 {
            break;
        }
        match rt::vtimeout(HORIZON_SECS, st.next()).await {
            Err(()) => return viol("hang", format!("{sql} hangs")),
            Ok(None) => {
                whole = true;
                break;
            }
            Ok(Some(Err(e))) if matches!(read, Read::Fault(_)) => {
                let _ = e;
                break;
            }
            Ok(Some(Err(e))) => return viol("error", format!("{sql} fails: {e}")),
            Ok(Some(Ok(_))) => n += 1,
        }
    }
    drop(st);
    let r = match rt::vtimeout(HORIZON_SECS, rewrite_distributed_plan_with_metrics(plan.clone(), format)).await {
        Err(()) => {
            let how = if whole { "whole" } else { "partial" };
            return viol(&format!("wait-hang-{how}"), format!("{sql}: waiting for the metrics never ends ({how} result read, {n} batches)"));
        }
        Ok(r) => r,
    };
    if !whole || matches!(read, Read::Fault(_)) {
        return Ok(1);
    }
    let r = df_err(r, "rewrite")?;
    if std::env::var("MC_PLAN").is_ok() {
        println!("{sql}\n{}", display_plan_ascii(r.as_ref(), true));
        for (t, p) in s.seen.lock().unwrap().iter() {
            println!("task {t}\n{}", display_plan_ascii(p.as_ref(), true));
        }
    }
    let n = compare(&s.seen, &r, format, exact)?;
    if exact && format == DistributedMetricsFormat::PerTask {
        leaf_text(&s.seen, &display_plan_ascii(r.as_ref(), true))?;
    }
    Ok(n)
}

/// EXPLAIN ANALYZE shows the rows that were read from the tables.
async fn analyze(w: &World, sql: &str, exact: bool) -> RunResult {
    let plan = df_err(async { w.ctx.sql(&format!("EXPLAIN ANALYZE {sql}")).await?.create_physical_plan().await }.await, "plan")?;
    let text = match run_to_end(&w.ctx, plan).await {
        Outcome::Rows(r) => r.iter().flat_map(|b| b.column(1).as_any().downcast_ref::<StringArray>().unwrap().iter().flatten().map(str::to_string).collect::<Vec<_>>()).collect::<Vec<_>>().join("\n"),
        Outcome::Err(e, _) => return viol("analyze-error", format!("EXPLAIN ANALYZE {sql} fails: {e}")),
        Outcome::Hang(_) => return viol("analyze-hang", format!("EXPLAIN ANALYZE {sql} hangs")),
    };
    let mut shown = 0;
    for l in text.lines().filter(|l| l.contains("VExec")) {
        let v = text_metric(l, "output_rows").unwrap_or("0".into());
        shown += v.trim_matches(['{', '}']).split(", ").map(|x| x.split(':').next_back().unwrap().parse::<usize>().unwrap_or(0)).sum::<usize>();
    }
    let read: usize = w.tables.iter().flat_map(|t| t.1.emitted().into_values().collect::<Vec<_>>()).sum();
    if exact && shown != read {
        return viol("analyze-rows", format!("EXPLAIN ANALYZE {sql}: {read} rows were read, {shown} are shown\n{text}"));
    }
    Ok(Obs { outcome: format!("{shown}"), nontrivial: text.contains("Stage 1"), ..Default::default() })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    const F: [DistributedMetricsFormat; 2] = [DistributedMetricsFormat::Aggregated, DistributedMetricsFormat::PerTask];
    let mut add = |o: Setup, read: Read, bound: usize, format: DistributedMetricsFormat, late: bool| {
        for q in QUERIES {
            v.push(case(format!("{read:?}{}/{format:?}/{}/{}", if late { "-late" } else { "" }, o.short(), q.0), bound, move |ch| {
                rt::sim(async {
                    let seen: Seen = Default::default();
                    let fault = if let Read::Fault(f) = read { f } else { Fault::None };
                    let (w, _) = match fault {
                        Fault::None => (world_with(o, None, Some(capture(seen.clone())), |b| b), Default::default()),
                        f => faulty_world(o, f, ch, |b| b),
                    };
                    if late {
                        w.cluster.net.set_policy(delays(ch, &[Kind::SetPlan, Kind::Exec, Kind::Batch, Kind::W2C, Kind::C2W], 1));
                    }
                    let s = Sess { ctx: w.ctx.clone(), seen, cluster: w.cluster };
                    let exact = q.2 == Cut::No && !matches!(q.0, "limits" | "top" | "empty");
                    let run = std::panic::AssertUnwindSafe(one(&s, q.1, format, read, exact, ch)).catch_unwind().await;
                    let n = match run {
                        Ok(n) => n?,
                        Err(_) if w.fired.load(std::sync::atomic::Ordering::SeqCst) > 0 => 0,
                        Err(_) => return viol("panic", format!("the client panicked: {}", take_last_panic().unwrap_or_default())),
                    };
                    let _ = &s.cluster;
                    Ok(Obs { outcome: format!("{n}"), nontrivial: n > 0, ..Default::default() })
                })
            }));
        }
    };
    for dynamic in [false, true] {
        for format in F {
            add(Setup { dynamic, ..SETUP }, Read::All, 1, format, true);
            add(Setup { dynamic, local: true, ..SETUP }, Read::All, 0, format, false);
            add(Setup { dynamic, local: true, workers: 2, max_tasks: 4, ..SETUP }, Read::All, 0, format, false);
            add(Setup { dynamic, workers: 2, max_tasks: 5, tp: 3, ..SETUP }, Read::All, 0, format, false);
            add(Setup { dynamic, broadcast: false, ..SETUP }, Read::All, 0, format, false);
            add(Setup { dynamic, tr: Transport::Grpc, ..SETUP }, Read::All, if thorough { 1 } else { 0 }, format, true);
        }
        add(Setup { dynamic, ..SETUP }, Read::Some, 1, F[0], false);
        add(Setup { dynamic, tr: Transport::Grpc, ..SETUP }, Read::Some, 1, F[0], false);
        for f in FAULTS {
            add(Setup { dynamic, ..SETUP }, Read::Fault(f), 1, F[0], false);
        }
    }
    for dynamic in [false, true] {
        for o in [
            Setup { dynamic, ..SETUP },
            Setup { dynamic, local: true, ..SETUP },
            Setup { dynamic, workers: 2, max_tasks: 5, tp: 3, ..SETUP },
            Setup { dynamic, tr: Transport::Grpc, ..SETUP },
        ] {
            for q in QUERIES {
                v.push(case(format!("analyze/{}/{}", o.short(), q.0), 0, move |_| {
                    rt::sim(async {
                        let w = world_with(o, None, None, |b| b);
                        analyze(&w, q.1, q.2 == Cut::No && !matches!(q.0, "limits" | "empty")).await
                    })
                }));
            }
        }
    }
    // Over files: scans differ from task to task.
    let b = sql::Opt { metrics: true, ..sql::BASE };
    let mut opts = vec![
        b,
        sql::Opt { tasks: (3, 2, false), layout: 2, join: 1, ..b },
        sql::Opt { tasks: (2, 1, true), layout: 3, join: 2, ..b },
        sql::Opt { iso: false, ..b },
        sql::Opt { dynamic: true, ..b },
        sql::Opt { local: true, max: 4, workers: 2, tasks: (4, 3, false), ..b },
        sql::Opt { partial: true, tr: Transport::Grpc, ..b },
    ];
    if thorough {
        opts = crate::checks::c01::opts(false).into_iter().map(|o| sql::Opt { metrics: true, ..o }).collect();
    }
    for o in opts {
        for q in crate::checks::c01::queries() {
            for format in F {
                let some = q.sql.contains("UNION") || ["all", "group", "order", "limit", "unionself", "winkey", "limjoin"].contains(&q.name.split('.').nth(1).unwrap_or(""));
                if !thorough && (o != b && !some || format == F[0] && (o != b || !some)) {
                    continue;
                }
                let q = q.clone();
                v.push(case(format!("files/{format:?}/{}/{}", o.name(), q.name), 0, move |ch| {
                    rt::sim(async {
                        let seen: Seen = Default::default();
                        let sim = sql::open_with(o, Some(capture(seen.clone())), |b| b).await;
                        let s = Sess { ctx: sim.ctx.clone(), seen, cluster: Arc::new(sim.cluster) };
                        let exact = !q.sql.contains("LIMIT");
                        match one(&s, &q.sql, format, Read::All, exact, ch).await {
                            Err(Viol { key, .. }) if key == "error" || key == "plan" => Ok(Obs { outcome: "C01 decides".into(), ..Default::default() }),
                            r => {
                                let n = r?;
                                let _ = &s.cluster;
                                Ok(Obs { outcome: format!("{n}"), nontrivial: n > 0, ..Default::default() })
                            }
                        }
                    })
                }));
            }
        }
    }
    v
}
