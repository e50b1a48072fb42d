//! C28: the plan that a user is shown is the plan that runs.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::scen::*;
use crate::sql;
use datafusion::arrow::array::{RecordBatch, StringArray};
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties, Partitioning, displayable};
use datafusion::prelude::SessionContext;
use datafusion_distributed::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub fn check() -> Check {
    Check {
        id: "C28",
        level: "model_checking",
        rule: "case = (query, layout, cluster, planner options); the text of the plan is read as its reader would: a tree of stages with tasks, partitions, operators and exchanges, from which the plan of each task follows; observed: the tasks sent to workers, the plan that each of them executes, the partitions that are read; the text before the query (static planner), after it, and with metrics are compared; non-trivial = a stage with several tasks",
        assumptions: &["what follows file_type in the line of a scan is not all sent to workers and is not compared", "bounds: see case ids"],
        cases,
    }
}

type Seen = Arc<Mutex<Vec<(usize, Arc<dyn ExecutionPlan>)>>>;

fn capture(seen: Seen) -> StateHook {
    Arc::new(move |b: SessionStateBuilder, _: &http::HeaderMap| {
        let seen = seen.clone();
        Ok(b.with_distributed_worker_plan_rewrite_handler(move |ev: WorkerPlanRewriteEvent<'_>| {
            let t = ev.session_config.get_extension::<DistributedTaskContext>().map(|d| d.task_index).unwrap_or(usize::MAX);
            seen.lock().unwrap().push((t, ev.plan.clone()));
            Ok(WorkerPlanRewriteEventResponse::new(ev.plan))
        }))
    })
}

/// A line of a plan and the lines below it.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Node {
    line: String,
    below: Vec<Node>,
}

fn tree(lines: &[(usize, String)]) -> Result<Node, String> {
    fn go(l: &[(usize, String)], i: &mut usize) -> Result<Node, String> {
        let (depth, line) = l[*i].clone();
        *i += 1;
        let mut below = vec![];
        while *i < l.len() && l[*i].0 > depth {
            if l[*i].0 != depth + 2 {
                return Err(format!("indentation of {:?} below {line:?}", l[*i].1));
            }
            below.push(go(l, i)?);
        }
        Ok(Node { line, below })
    }
    let mut i = 0;
    if lines.is_empty() {
        return Err("no operators".into());
    }
    let n = go(lines, &mut i)?;
    if i != lines.len() { Err(format!("a second root: {:?}", lines[i].1)) } else { Ok(n) }
}

/// A boxed part of the text.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Part {
    /// None = head.
    stage: Option<(usize, usize, usize)>,
    depth: usize,
    plan: Node,
}

fn without_metrics(l: &str) -> &str {
    l.split(", metrics=[").next().unwrap()
}

fn parts(text: &str) -> Result<Vec<Part>, String> {
    let mut v = vec![];
    let mut open: Option<(Option<(usize, usize, usize)>, usize, Vec<(usize, String)>)> = None;
    for l in text.lines() {
        let body = l.trim_start_matches(' ');
        let depth = l.len() - body.len();
        if depth % 2 != 0 {
            return Err(format!("odd indentation: {l:?}"));
        }
        if let Some(h) = body.strip_prefix("┌───── ") {
            if open.is_some() {
                return Err(format!("a part inside another: {l}"));
            }
            let stage = if h.starts_with("DistributedExec") {
                None
            } else {
                let mut it = h.strip_prefix("Stage ").ok_or(format!("header {h:?}"))?.splitn(2, " ── ");
                let num = it.next().unwrap().parse().map_err(|_| format!("header {h:?}"))?;
                let rest = it.next().ok_or(format!("header {h:?}"))?;
                let rest = rest.strip_prefix("tasks=").ok_or(format!("header {h:?}"))?;
                let (t, rest) = rest.split_once(", partitions=").ok_or(format!("header {h:?}"))?;
                let p = rest.split(' ').next().unwrap();
                Some((num, t.parse().map_err(|_| format!("header {h:?}"))?, p.parse().map_err(|_| format!("header {h:?}"))?))
            };
            open = Some((stage, depth / 2, vec![]));
        } else if let Some(x) = body.strip_prefix('│') {
            let (_, d, lines) = open.as_mut().ok_or(format!("outside of any part: {l}"))?;
            if depth / 2 != *d {
                return Err(format!("indentation: {l}"));
            }
            let op = x.trim_start_matches(' ');
            lines.push((x.len() - op.len(), without_metrics(op).trim_end().to_string()));
        } else if body.starts_with('└') {
            let (stage, depth, lines) = open.take().ok_or(format!("closes nothing: {l}"))?;
            v.push(Part { stage, depth, plan: tree(&lines)? });
        } else if !body.is_empty() {
            return Err(format!("not a part of a plan: {l}"));
        }
    }
    if open.is_some() { Err("the last part is open".into()) } else { Ok(v) }
}

/// "[Stage 3] => NetworkShuffleExec: output_partitions=2, input_tasks=3"
fn exchange(line: &str) -> Option<Result<(usize, usize), String>> {
    if !line.starts_with("[Stage") {
        return None;
    }
    let n = line.strip_prefix("[Stage ").and_then(|r| r.split(']').next()).and_then(|n| n.parse().ok());
    let t = line.split("input_tasks=").nth(1).and_then(|r| r.split(',').next()).and_then(|n| n.trim().parse().ok());
    Some(n.zip(t).ok_or(format!("not an exchange: {line}")))
}

fn exchanges(n: &Node, out: &mut Vec<(usize, usize)>) -> Result<(), String> {
    if let Some(e) = exchange(&n.line) {
        out.push(e?);
    }
    n.below.iter().try_for_each(|b| exchanges(b, out))
}

/// The same for the text and for a plan of a worker: what a query changes as it runs is left out.
fn line(l: &str) -> String {
    if let Some(Ok((n, t))) = exchange(l) {
        let name = l.split("=> ").nth(1).unwrap_or("").split(':').next().unwrap();
        return format!("[Stage {n}] => {name}, input_tasks={t}");
    }
    // The adaptive planner tells a worker only when the stage is read how to deal out its rows.
    if l.starts_with("BroadcastExec") {
        return "BroadcastExec".into();
    }
    if l.starts_with("RepartitionExec: partitioning=Hash(") {
        return l.split("], ").next().unwrap().to_string();
    }
    [", file_type", ", filter=[", ", predicate=", "DynamicFilter", ", sort_prefix=", ", ordering_mode="].iter().fold(l, |l, x| l.split(x).next().unwrap()).trim_end().to_string()
}

fn lines(n: &Node) -> Node {
    Node { line: line(&n.line), below: n.below.iter().map(lines).collect() }
}

/// A worker adds projections to the branches of a union that it is sent (see C10 in
/// known_findings.txt): they are left out on both sides.
fn plain(n: Node) -> Node {
    if n.line != "UnionExec" {
        return n;
    }
    let bare = |mut b: Node| {
        while b.line.starts_with("ProjectionExec") && b.below.len() == 1 {
            b = b.below.remove(0);
        }
        b
    };
    Node { below: n.below.into_iter().map(bare).collect(), ..n }
}

/// A worker is sent nothing for the branches that its task does not execute.
fn union(mut below: Vec<Node>) -> Node {
    below.retain(|b| b.line != "EmptyExec");
    below.sort();
    Node { line: "DistributedUnionExec".into(), below }
}

/// What task `i` of those that execute `n` executes.
fn of_task(n: &Node, i: usize) -> Result<Node, String> {
    if n.line == "DistributedLeafExec:" {
        let p = format!("t{i}: ");
        let mut all = n.below.iter().filter_map(|b| b.line.strip_prefix(&p));
        let one = all.next().ok_or(format!("the scan has nothing for task {i}: {n:?}"))?;
        return if all.next().is_some() { Err(format!("the scan has task {i} twice: {n:?}")) } else { Ok(Node { line: line(one), below: vec![] }) };
    }
    if let Some(map) = n.line.strip_prefix("DistributedUnionExec:") {
        let p = format!(" t{i}:[");
        let mine = map.split_once(&p).ok_or(format!("the union has nothing for task {i}: {map}"))?.1.split(']').next().unwrap();
        let mut below = vec![];
        for c in mine.split(", ").filter(|c| !c.is_empty()) {
            let c = c.strip_prefix('c').ok_or(format!("branch {c} of {map}"))?;
            let (child, index) = match c.split_once('(') {
                None => (c, 0),
                Some((c, r)) => (c, r.split('/').next().unwrap().parse().map_err(|_| format!("branch {c} of {map}"))?),
            };
            let child: usize = child.parse().map_err(|_| format!("branch {c} of {map}"))?;
            below.push(of_task(n.below.get(child).ok_or(format!("no branch {child} below {map}"))?, index)?);
        }
        return Ok(union(below));
    }
    Ok(plain(Node { line: line(&n.line), below: n.below.iter().map(|b| of_task(b, i)).collect::<Result<_, _>>()? }))
}

/// The plan that a worker executes.
fn executed(p: &Arc<dyn ExecutionPlan>) -> Result<Node, String> {
    let l = displayable(p.as_ref()).one_line().to_string();
    let l = l.trim_end();
    let below = if p.is_network_boundary() { vec![] } else { p.children().into_iter().map(executed).collect::<Result<Vec<_>, _>>()? };
    if l.starts_with("DistributedUnionExec:") {
        return Ok(union(below));
    }
    Ok(plain(Node { line: line(l), below }))
}

fn shown(n: &Node, indent: usize, out: &mut String) {
    out.push_str(&format!("    {}{}\n", " ".repeat(indent), n.line));
    n.below.iter().for_each(|b| shown(b, indent + 2, out));
}

/// A list of plans of tasks, as text.
fn texts(v: impl IntoIterator<Item = (usize, Node)>) -> Vec<String> {
    let mut v: Vec<String> = v
        .into_iter()
        .map(|(t, n)| {
            let mut s = format!("task {t}:\n");
            shown(&n, 0, &mut s);
            s
        })
        .collect();
    v.sort();
    v
}

fn at<T>(text: &str, key: &str, r: Result<T, String>) -> std::result::Result<T, Viol> {
    r.map_err(|e| Viol { key: key.into(), msg: format!("{e}\n{text}") })
}

struct Ran {
    log: Vec<Ev>,
    seen: Vec<(usize, Arc<dyn ExecutionPlan>)>,
}

/// `planned`: the partitions of a task of each stage, and whether they partition by hash.
fn compare(text: &str, ran: &Ran, planned: &BTreeMap<usize, (usize, bool)>, local: bool) -> std::result::Result<usize, Viol> {
    let ps = at(text, "text", parts(text))?;
    let bad = |key: &str, m: String| -> std::result::Result<usize, Viol> { viol(key, format!("{m}\n{text}")) };
    if ps.first().is_none_or(|p| p.stage.is_some()) || ps.iter().filter(|p| p.stage.is_none()).count() != 1 {
        return bad("head", "the first part is not the only head".into());
    }
    // Every stage is read by one exchange, and drawn right below the part that reads it.
    fn walk(ps: &[Part], i: &mut usize, depth: usize, tasks: Option<(usize, usize)>) -> Result<(), String> {
        let p = ps.get(*i).ok_or(format!("the stage read by {tasks:?} is not shown"))?;
        if let Some((n, t)) = tasks {
            if p.stage.map(|s| (s.0, s.1)) != Some((n, t)) {
                return Err(format!("an exchange reads stage {n} of {t} tasks, but {:?} is shown for it", p.stage));
            }
        }
        if p.depth != depth {
            return Err(format!("stage {:?} is drawn at depth {} instead of {depth}", p.stage, p.depth));
        }
        *i += 1;
        let mut reads = vec![];
        exchanges(&p.plan, &mut reads)?;
        reads.into_iter().try_for_each(|r| walk(ps, i, depth + 1, Some(r)))
    }
    let mut i = 0;
    at(text, "nesting", walk(&ps, &mut i, 0, None))?;
    if i != ps.len() {
        return bad("nesting", format!("nothing reads stage {:?}", ps[i].stage));
    }
    let want: BTreeMap<usize, BTreeSet<usize>> = ps.iter().filter_map(|p| p.stage).map(|(n, t, _)| (n, (0..t).collect())).collect();
    if want.len() != ps.len() - 1 {
        return bad("twice", "a stage is shown twice".into());
    }
    let sent = stage_tasks(&ran.log);
    // What the client runs itself is not sent.
    let some = |n: &usize, t: &BTreeSet<usize>| want.get(n).is_some_and(|w| w.is_superset(t));
    if if local { !sent.iter().all(|(n, t)| some(n, t)) } else { sent != want } {
        return bad("stages", format!("tasks sent {sent:?}, tasks shown {want:?}"));
    }
    let mut tasks = vec![];
    for p in &ps {
        let Some((_, n, _)) = p.stage else { continue };
        for t in 0..n {
            tasks.push((t, at(text, "task", of_task(&p.plan, t))?));
        }
    }
    let want = texts(tasks);
    let mut got = vec![];
    for (t, p) in &ran.seen {
        got.push((*t, at(text, "executed", executed(p))?));
    }
    let got = texts(got);
    if want != got {
        let minus = |a: &[String], b: &[String]| sql::multiset_minus(a, b).into_iter().take(3).collect::<String>();
        return bad("plans", format!("shown but not executed:\n{}executed but not shown:\n{}", minus(&want, &got), minus(&got, &want)));
    }
    for p in &ps {
        let Some((n, tasks, parts)) = p.stage else { continue };
        // If its tasks partition the rows in the same way, they show the same partitions.
        let hash = p.plan.line.starts_with("RepartitionExec: partitioning=Hash");
        // `seq` is the end of the range of partitions. A consumer may end before it reads them all.
        let each: BTreeSet<(usize, usize)> = ran.log.iter().filter(|e| e.kind == Kind::Exec && e.stage == n).flat_map(|e| (e.part..e.seq).map(|p| (e.task, p))).collect();
        if each.iter().any(|e| e.1 >= parts) {
            return bad("partitions", format!("stage {n} shows {parts} partitions, those read are {each:?}"));
        }
        if let Some((c, same)) = planned.get(&n) {
            let want = if hash || *same { *c } else { *c * tasks };
            if parts != want {
                return bad("partitions", format!("stage {n} shows {parts} partitions, it has {tasks} tasks of {c}"));
            }
        }
    }
    Ok(ps.iter().filter_map(|p| p.stage).map(|s| s.1).max().unwrap_or(0))
}

/// What does not depend on when the text was made.
fn skeleton_of(text: &str) -> Result<Vec<Part>, String> {
    Ok(parts(text)?.into_iter().map(|p| Part { plan: lines(&p.plan), ..p }).collect())
}

async fn one(ctx: &SessionContext, cluster: &Cluster, seen: &Seen, q: &str, dynamic: bool, metrics: bool, local: bool, analyze: bool) -> RunResult {
    let skip = |m: &str| Ok(Obs { outcome: format!("other checks decide ({m})"), ..Default::default() });
    let plan = match async { ctx.sql(q).await?.create_physical_plan().await }.await {
        Ok(p) => p,
        Err(_) => return skip("plan"),
    };
    if plan.downcast_ref::<DistributedExec>().is_none() {
        return Ok(Obs { outcome: "not distributed".into(), ..Default::default() });
    }
    let before = display_plan_ascii(plan.as_ref(), false);
    match run_to_end(ctx, plan.clone()).await {
        Outcome::Rows(_) => {}
        _ => return skip("run"),
    }
    let planned: BTreeMap<usize, (usize, bool)> = super::c10::stages(&plan)
        .into_iter()
        .map(|(n, _, p)| (n, (p.output_partitioning().partition_count(), matches!(p.output_partitioning(), Partitioning::Hash(..)))))
        .collect();
    let ran = Ran { log: cluster.net.log(), seen: seen.lock().unwrap().clone() };
    let mut widest = 0;
    if !dynamic {
        widest = compare(&before, &ran, &planned, local)?;
        // Showing a plan that has run shows the same.
        let again = display_plan_ascii(plan.as_ref(), false);
        if at(&again, "text", skeleton_of(&again))? != at(&before, "text", skeleton_of(&before))? {
            return viol("changes", format!("{q}: before the query\n{before}\nafter it\n{again}"));
        }
    }
    if metrics {
        let mut skeleton = None;
        for format in [DistributedMetricsFormat::Aggregated, DistributedMetricsFormat::PerTask] {
            let text = match rt::vtimeout(HORIZON_SECS, explain_analyze(plan.clone(), format)).await {
                Ok(Ok(t)) => t,
                _ => return skip("metrics"),
            };
            widest = compare(&text, &ran, &planned, local)?;
            let ps = at(&text, "text", skeleton_of(&text))?;
            if !dynamic && at(&before, "text", skeleton_of(&before))? != ps {
                return viol("analyzed", format!("{q}: planned\n{before}\nanalyzed\n{text}"));
            }
            if skeleton.get_or_insert(ps.clone()) != &ps {
                return viol("formats", format!("{q}: the formats show different plans\n{text}"));
            }
        }
    }
    if analyze {
        // The statement plans the query anew, in the same way, and runs it.
        for verbose in ["", "VERBOSE "] {
            let sql = format!("EXPLAIN ANALYZE {verbose}{q}");
            let plan = match async { ctx.sql(&sql).await?.create_physical_plan().await }.await {
                Ok(p) => p,
                Err(e) => return viol("analyze-plan", format!("{sql}: {e}")),
            };
            let (l0, s0) = (cluster.net.log().len(), seen.lock().unwrap().len());
            let Outcome::Rows(r) = run_to_end(ctx, plan).await else { return skip("analyze") };
            let ran = Ran { log: cluster.net.log().split_off(l0), seen: seen.lock().unwrap().split_off(s0) };
            let col = |i: usize| -> Vec<String> {
                let s = |b: &RecordBatch| b.column(i).as_any().downcast_ref::<StringArray>().unwrap().iter().flatten().map(str::to_string).collect::<Vec<_>>();
                r.iter().flat_map(s).collect()
            };
            let want = if verbose.is_empty() { 1 } else { 2 };
            let texts: Vec<String> = col(0).into_iter().zip(col(1)).filter(|c| c.0.starts_with("Plan with")).map(|c| c.1).collect();
            if texts.len() != want {
                return viol("analyze-rows", format!("{sql}: {:?}", col(0)));
            }
            for t in texts {
                compare(&t, &ran, &planned, local)?;
                if !dynamic && at(&t, "text", skeleton_of(&t))? != at(&before, "text", skeleton_of(&before))? {
                    return viol("analyze", format!("{sql}: planned\n{before}\nanalyzed\n{t}"));
                }
            }
        }
    }
    Ok(Obs { outcome: format!("{widest}"), nontrivial: widest > 1, steps: ran.log.len() as u64, states: vec![h64(&before)] })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for dynamic in [false, true] {
        for o in [
            Setup { dynamic, ..SETUP },
            Setup { dynamic, local: true, workers: 2, max_tasks: 4, ..SETUP },
            Setup { dynamic, workers: 2, max_tasks: 5, tp: 3, ..SETUP },
            Setup { dynamic, broadcast: false, tr: Transport::Grpc, ..SETUP },
        ] {
            for q in QUERIES {
                v.push(case(format!("tables/{}/{}", o.short(), q.0), 0, move |_| {
                    rt::sim(async {
                        let seen: Seen = Default::default();
                        let w = world_with(o, None, Some(capture(seen.clone())), |b| b);
                        one(&w.ctx, &w.cluster, &seen, q.1, o.dynamic, true, o.local, true).await
                    })
                }));
            }
        }
    }
    let b = sql::Opt { metrics: true, ..sql::BASE };
    let opts = if thorough {
        crate::checks::c01::opts(false).into_iter().map(|o| sql::Opt { metrics: true, ..o }).collect()
    } else {
        vec![
            b,
            sql::Opt { metrics: false, tasks: (3, 2, false), layout: 2, join: 1, ..b },
            sql::Opt { tasks: (2, 1, true), layout: 3, join: 2, ..b },
            sql::Opt { iso: false, bcast: false, ..b },
            sql::Opt { dynamic: true, ..b },
            sql::Opt { local: true, max: 4, workers: 2, tasks: (4, 3, false), partial: true, ..b },
        ]
    };
    for o in opts {
        for q in crate::checks::c01::queries() {
            v.push(case(format!("files/{}/{}", o.name(), q.name), 0, move |_| {
                let q = q.clone();
                rt::sim(async {
                    let seen: Seen = Default::default();
                    let sim = sql::open_with(o, Some(capture(seen.clone())), |b| b).await;
                    one(&sim.ctx, &sim.cluster, &seen, &q.sql, o.dynamic, o.metrics, o.local, false).await
                })
            }));
        }
    }
    v
}
