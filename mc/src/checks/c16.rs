//! C16: every task runs on exactly the worker that routing chose.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::scen::*;
use crate::vexec::*;
use datafusion::common::exec_datafusion_err;
use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
use datafusion::error::DataFusionError;
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::ExecutionPlan;
use datafusion_distributed::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use url::Url;

pub fn check() -> Check {
    Check {
        id: "C16",
        level: "model_checking",
        rule: "case = (query, cluster, planner mode, kind of routing); the explorer decides which worker every task of every stage is routed to (or what a handler answers); observed: the worker that received each plan, the worker each read request was sent to, the worker that ran each leaf, the workers that each exchange names; non-trivial = at least two stages were routed",
        assumptions: &["a worker is identified by a mark in the sessions it builds", "the random start of the default routing is not controlled: queries repeat until every start has been seen", "bounds: see case ids"],
        cases,
    }
}

/// What a stage reads: identifies it among the stages of a query (several stages with the same
/// sources are compared together).
fn signature(p: &Arc<dyn ExecutionPlan>) -> String {
    fn go(p: &Arc<dyn ExecutionPlan>, out: &mut Vec<String>) {
        if let Some(b) = p.as_network_boundary() {
            out.push(format!("s{}", b.input_stage().num()));
            return;
        }
        if p.name() == "ChildrenIsolatorUnionExec" {
            // A task has only some of the branches.
            out.push("*".into());
            return;
        }
        if let Some(v) = p.downcast_ref::<VExec>() {
            out.push(format!("{}@{:p}", String::from_utf8_lossy(&v.tag), Arc::as_ptr(&v.src)));
        }
        for c in p.children() {
            go(c, out);
        }
    }
    let mut v = vec![];
    go(p, &mut v);
    v.sort();
    v.join(",")
}

fn boundaries(p: &Arc<dyn ExecutionPlan>) -> Vec<(usize, Option<Vec<Url>>)> {
    let mut v = vec![];
    let _ = p.apply(|n| {
        if let Some(b) = n.as_network_boundary() {
            let s = b.input_stage();
            v.push((s.num(), if let Stage::Remote(r) = s { Some(r.workers.clone()) } else { None }));
            return Ok(TreeNodeRecursion::Jump);
        }
        Ok(TreeNodeRecursion::Continue)
    });
    v
}

#[derive(Clone, Debug)]
struct Decision_ {
    sig: String,
    tasks: usize,
    urls: Vec<Url>,
}

/// (worker that has it, task, plan)
type Got = Arc<Mutex<Vec<(Url, usize, Arc<dyn ExecutionPlan>)>>>;

fn capture(got: Got) -> StateHook {
    Arc::new(move |b: SessionStateBuilder, _: &http::HeaderMap| {
        let got = got.clone();
        Ok(b.with_distributed_worker_plan_rewrite_handler(move |ev: WorkerPlanRewriteEvent<'_>| {
            let t = ev.session_config.get_extension::<DistributedTaskContext>().map(|d| d.task_index).unwrap_or(usize::MAX);
            let me = ev.session_config.get_extension::<Me>().unwrap().0.clone();
            got.lock().unwrap().push((me, t, ev.plan.clone()));
            Ok(WorkerPlanRewriteEventResponse::new(ev.plan))
        }))
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum How {
    /// A handler names any worker for every task.
    Chosen,
    /// Several handlers that may or may not answer.
    Chain,
    /// A handler answers with a wrong number of workers, or fails, at some stage.
    Wrong,
    /// No handler.
    Default,
}

struct Seen {
    decisions: Vec<Decision_>,
    got: Got,
    leaves: Arc<Mutex<BTreeSet<(String, Slot, Url)>>>,
}

/// Everything that happened agrees with the decisions. `strict`: the query ran to its end.
fn verify(w: &World, seen: &Seen, local: Option<&Url>, what: &str) -> std::result::Result<usize, Viol> {
    let bad = |k: &str, m: String| -> std::result::Result<usize, Viol> { Err(Viol { key: k.into(), msg: format!("{what}: {m}") }) };
    let got = seen.got.lock().unwrap().clone();
    // 1. Plans are where they were routed to, each once.
    let mut want: BTreeMap<(String, usize, String), i64> = BTreeMap::new();
    for d in &seen.decisions {
        for (i, u) in d.urls.iter().enumerate() {
            *want.entry((d.sig.clone(), i, u.to_string())).or_default() += 1;
        }
    }
    let mut have: BTreeMap<(String, usize, String), i64> = BTreeMap::new();
    for (me, t, p) in &got {
        *have.entry((signature(p), *t, me.to_string())).or_default() += 1;
    }
    if have != want {
        let more: Vec<_> = have.iter().filter(|(k, n)| want.get(*k) != Some(n)).collect();
        let less: Vec<_> = want.iter().filter(|(k, n)| have.get(*k) != Some(n)).collect();
        return bad("plan-elsewhere", format!("tasks with a plan (stage, task, worker) {more:?}, routed {less:?}"));
    }
    // 2. Every stage's readers know the workers that the stage was routed to.
    let mut stage: BTreeMap<usize, Vec<Url>> = BTreeMap::new();
    for (me, t, p) in &got {
        for (num, urls) in boundaries(p) {
            let Some(urls) = urls else { return bad("not-remote", format!("task {t} on {me} reads stage {num} whose workers are unknown")) };
            if stage.entry(num).or_insert_with(|| urls.clone()) != &urls {
                return bad("two-views", format!("stage {num} is on {:?} for some and on {urls:?} for others", stage[&num]));
            }
        }
    }
    let mut routed: Vec<Vec<Url>> = seen.decisions.iter().map(|d| d.urls.clone()).collect();
    for (num, urls) in &stage {
        match routed.iter().position(|r| r == urls) {
            Some(i) => drop(routed.remove(i)),
            None => return bad("unrouted-stage", format!("stage {num} is read from {urls:?}, which no routing decision named (left: {routed:?})")),
        }
    }
    // What is left is read by the client.
    let log = w.cluster.net.log();
    for e in log.iter().filter(|e| matches!(e.kind, Kind::SetPlan | Kind::Exec)) {
        let ok = match stage.get(&e.stage) {
            Some(u) => u.get(e.task) == Some(&e.url),
            None => routed.iter().any(|r| r.get(e.task) == Some(&e.url)),
        };
        if !ok {
            return bad("message-elsewhere", format!("{} while the stage is on {:?} (client reads {routed:?})", e.short(), stage.get(&e.stage)));
        }
    }
    // 3. No task of a stage is delivered twice or to somebody else.
    let sent: Vec<_> = log.iter().filter(|e| e.kind == Kind::SetPlan).map(|e| (e.stage, e.task)).collect();
    if sent.iter().collect::<BTreeSet<_>>().len() != sent.len() {
        return bad("sent-twice", format!("{sent:?}"));
    }
    let n: usize = seen.decisions.iter().flat_map(|d| &d.urls).filter(|u| Some(*u) != local).count();
    if sent.len() != n {
        return bad("sent", format!("{} plans were sent, {n} were routed", sent.len()));
    }
    // 4. Leaves ran where their stage was routed to.
    for (src, slot, me) in &*seen.leaves.lock().unwrap() {
        let ok = seen.decisions.iter().any(|d| (d.sig.contains('*') || d.sig.contains(src.as_str())) && d.urls.contains(me) && (d.sig.contains('*') || d.urls.get(slot.task) == Some(me)));
        if !ok {
            return bad("leaf-elsewhere", format!("{src} task {} partition {} ran on {me}", slot.task, slot.part));
        }
    }
    Ok(log.iter().filter(|e| e.kind == Kind::Exec).count())
}

fn spread(urls: &[Url], all: &[Url]) -> Option<String> {
    let mut n: BTreeMap<&Url, usize> = all.iter().map(|u| (u, 0)).collect();
    for u in urls {
        match n.get_mut(u) {
            Some(x) => *x += 1,
            None => return Some(format!("{u} is not a worker that the resolver reports")),
        }
    }
    let (a, b) = (n.values().min().unwrap(), n.values().max().unwrap());
    (b - a > 1).then(|| format!("tasks are not spread evenly: {n:?}"))
}

/// A resolver whose answer changes.
#[derive(Clone)]
struct Moving(Arc<Mutex<Result<Vec<Url>, String>>>);
impl WorkerResolver for Moving {
    fn get_urls(&self) -> Result<Vec<Url>, DataFusionError> {
        self.0.lock().unwrap().clone().map_err(|e| exec_datafusion_err!("{e}"))
    }
}

type Log = Arc<Mutex<Vec<Decision_>>>;

fn record(log: &Log, ev: &RouteTasksEvent<'_>, urls: Vec<Url>) -> Option<Result<RouteTasksEventResponse, DataFusionError>> {
    log.lock().unwrap().push(Decision_ { sig: signature(ev.plan), tasks: ev.task_count, urls: urls.clone() });
    Some(Ok(RouteTasksEventResponse::new(urls)))
}

fn one(o: Setup, q: (&'static str, &'static str, Cut), how: How, ch: &Ch) -> RunResult {
    let o = Setup { route: false, ..o };
    rt::sim(async {
        let got: Got = Default::default();
        let log: Log = Default::default();
        let asked: Arc<Mutex<Vec<(usize, usize)>>> = Default::default();
        let urls: Vec<Url> = (0..o.workers).map(url).collect();
        let failed: Arc<Mutex<Option<(usize, String)>>> = Default::default();
        let (c, l, a, us, fl) = (ch.clone(), log.clone(), asked.clone(), urls.clone(), failed.clone());
        let w = world_with(o, None, Some(capture(got.clone())), move |mut b| {
            let pick = {
                let (c, us) = (c.clone(), us.clone());
                move |ev: &RouteTasksEvent<'_>, who: &str| -> Vec<Url> {
                    let sig = signature(ev.plan);
                    (0..ev.task_count)
                        .map(|i| us[(i + choose(&c, us.len(), |k| format!("{who}{sig}/{i}@+{k}"))) % us.len()].clone())
                        .collect()
                }
            };
            match how {
                How::Default => b,
                How::Chosen => b.with_distributed_route_tasks_handler(move |ev: RouteTasksEvent<'_>| record(&l, &ev, pick(&ev, ""))),
                How::Chain => {
                    let n = Arc::new(AtomicUsize::new(0));
                    for h in 0..3 {
                        let (l, a, c, n, us) = (l.clone(), a.clone(), c.clone(), n.clone(), us.clone());
                        b = b.with_distributed_route_tasks_handler(move |ev: RouteTasksEvent<'_>| {
                            if h == 0 {
                                n.fetch_add(1, SeqCst);
                            }
                            a.lock().unwrap().push((n.load(SeqCst), h));
                            if choose(&c, 2, |x| format!("handler {h} {}", if x == 0 { "answers" } else { "defers" })) == 1 {
                                // The last one always answers.
                                if h < 2 {
                                    return None;
                                }
                            }
                            let urls = (0..ev.task_count).map(|i| us[(i + h) % us.len()].clone()).collect();
                            record(&l, &ev, urls)
                        });
                    }
                    b
                }
                How::Wrong => b.with_distributed_route_tasks_handler(move |ev: RouteTasksEvent<'_>| {
                    let n = ev.task_count;
                    let w = choose(&c, 6, |x| format!("{} {}", signature(ev.plan), ["ok", "one more", "one less", "none", "double", "fails"][x]));
                    let m = [n, n + 1, n - 1, 0, 2 * n, n][w];
                    if w == 5 {
                        *fl.lock().unwrap() = Some((a.lock().unwrap().len(), "boom-route".into()));
                        return Some(Err(exec_datafusion_err!("boom-route")));
                    }
                    if m != n {
                        *fl.lock().unwrap() = Some((a.lock().unwrap().len(), format!("number of tasks ({n}) was not equal to number of urls ({m})")));
                        return Some(Ok(RouteTasksEventResponse::new((0..m).map(|i| us[i % us.len()].clone()).collect())));
                    }
                    a.lock().unwrap().push((0, 0));
                    record(&l, &ev, (0..n).map(|i| us[i % us.len()].clone()).collect())
                }),
            }
        });
        let leaves: Arc<Mutex<BTreeSet<(String, Slot, Url)>>> = Default::default();
        let twice: Arc<Mutex<Vec<String>>> = Default::default();
        for (_, t) in w.tables.iter().filter(|t| !t.0.is_empty()) {
            let (leaves, twice) = (leaves.clone(), twice.clone());
            let name = format!("@{:p}", Arc::as_ptr(&t.0));
            *t.0.on_open.lock().unwrap() = Some(Box::new(move |ctx, slot| {
                let Some(me) = ctx.session_config().get_extension::<Me>() else { return };
                let mut g = leaves.lock().unwrap();
                if g.iter().any(|(n, s, u)| n == &name && s == &slot && u != &me.0) {
                    twice.lock().unwrap().push(format!("{name} {slot:?}"));
                }
                g.insert((name.clone(), slot, me.0.clone()));
            }));
        }
        let exp = truth(&w, q).await?;
        let plan = df_err(async { w.ctx.sql(q.1).await?.create_physical_plan().await }.await, "plan")?;
        let out = run_to_end(&w.ctx, plan).await;
        let what = || {
            let g = ch.lock().unwrap();
            let l: Vec<&String> = g.labels.iter().zip(&g.trace).filter(|x| x.1.1 > 0).map(|x| x.0).collect();
            format!("{} {o:?} {how:?} {l:?}", q.1)
        };
        let decisions = log.lock().unwrap().clone();
        let fail = failed.lock().unwrap().clone();
        match (&out, &fail) {
            (Outcome::Hang(_), _) => return viol("hang", what()),
            (Outcome::Err(e, _), None) => return viol("error", format!("{}: {e}", what())),
            (Outcome::Err(e, _), Some((_, t))) if !e.contains(t.as_str()) => return viol("error-text", format!("{}: expected {t:?}, got {e}", what())),
            (Outcome::Rows(_), Some((_, t))) => return viol("accepted", format!("{}: expected {t:?}, but the query ran", what())),
            (Outcome::Rows(b), None) if !answers(q, b, &exp) => return viol("wrong-rows", format!("{}: {:?}, expected {exp:?}", what(), canon(q.0, b))),
            _ => {}
        }
        if let Some((ok, _)) = fail {
            // Only the tasks of stages that were routed before may have started.
            let n: usize = decisions.iter().map(|d| d.urls.len()).sum();
            let sent = w.cluster.net.log().iter().filter(|e| e.kind == Kind::SetPlan).count();
            if decisions.len() != ok || sent > n {
                return viol("started", format!("{}: {sent} plans were sent although only {n} tasks were routed", what()));
            }
            return Ok(Obs { outcome: format!("refused after {ok}"), nontrivial: ok > 0, steps: sent as u64, ..Default::default() });
        }
        if let Some(t) = twice.lock().unwrap().first() {
            return viol("two-workers", format!("{}: {t} ran on two workers", what()));
        }
        let local = o.local.then(|| w.cluster.local_url());
        let seen = Seen { decisions, got, leaves };
        let seen = if how == How::Default { observed(&w, seen, local.as_ref(), &urls, &what())? } else { seen };
        if how == How::Chain {
            // The first handler that answers decides and no later one is asked.
            let a = asked.lock().unwrap().clone();
            for k in 1..=seen.decisions.len() {
                let hs: Vec<usize> = a.iter().filter(|x| x.0 == k).map(|x| x.1).collect();
                let d = &seen.decisions[k - 1];
                let by = hs.last().copied().unwrap_or(9);
                if hs != (0..=by).collect::<Vec<_>>() || d.urls.iter().enumerate().any(|(i, u)| *u != urls[(i + by) % urls.len()]) {
                    return viol("chain", format!("{}: handlers asked for decision {k}: {hs:?}", what()));
                }
            }
        }
        let execs = verify(&w, &seen, local.as_ref(), &what())?;
        Ok(Obs {
            outcome: format!("{} decisions", seen.decisions.len()),
            states: seen.decisions.iter().map(|d| h64(&format!("{} {:?}", d.sig.matches(',').count(), d.urls.iter().map(|u| u.to_string()).collect::<Vec<_>>()))).collect(),
            nontrivial: seen.decisions.len() > 1,
            steps: execs as u64,
        })
    })
}

/// Without handlers nobody records the decisions: reconstruct them from the exchanges and the
/// messages, and check that they are what the default promises.
fn observed(w: &World, mut seen: Seen, local: Option<&Url>, urls: &[Url], what: &str) -> std::result::Result<Seen, Viol> {
    let mut by: BTreeMap<String, BTreeMap<usize, Vec<Url>>> = BTreeMap::new();
    for (me, t, p) in &*seen.got.lock().unwrap() {
        by.entry(signature(p)).or_default().entry(*t).or_default().push(me.clone());
    }
    let mut stage: BTreeMap<usize, BTreeMap<usize, Url>> = BTreeMap::new();
    for e in w.cluster.net.log().iter().filter(|e| e.kind == Kind::SetPlan) {
        stage.entry(e.stage).or_default().insert(e.task, e.url.clone());
    }
    for (num, ts) in &stage {
        let us: Vec<Url> = ts.values().cloned().collect();
        // Tasks of the client's own worker are not seen as messages.
        if local.is_none() && us.len() > 1 {
            if let Some(m) = spread(&us, urls) {
                return Err(Viol { key: "spread".into(), msg: format!("{what}: stage {num}: {m}") });
            }
        }
    }
    for (sig, ts) in by {
        let n = ts.values().map(|v| v.len()).max().unwrap_or(0);
        if n > 1 || ts.keys().copied().ne(0..ts.len()) {
            if n > 1 && ts.values().all(|v| v.len() == n) {
                // Several stages with the same sources: cannot be told apart.
                for k in 0..n {
                    seen.decisions.push(Decision_ { sig: sig.clone(), tasks: ts.len(), urls: ts.values().map(|v| v[k].clone()).collect() });
                }
                continue;
            }
            return Err(Viol { key: "tasks".into(), msg: format!("{what}: tasks of {sig}: {ts:?}") });
        }
        let us: Vec<Url> = ts.values().map(|v| v[0].clone()).collect();
        if let Some(m) = spread(&us, urls) {
            return Err(Viol { key: "spread".into(), msg: format!("{what}: stage of {sig}: {m}") });
        }
        if us.len() == 1 && local.is_some_and(|l| *l != us[0]) {
            return Err(Viol { key: "local".into(), msg: format!("{what}: the only task of {sig} is on {} instead of the client's own worker", us[0]) });
        }
        seen.decisions.push(Decision_ { sig, tasks: us.len(), urls: us });
    }
    Ok(seen)
}


/// Default routing until every start has been seen.
fn defaults(o: Setup, q: (&'static str, &'static str, Cut), ch: &Ch) -> RunResult {
    let mut all = Obs::default();
    for _ in 0..10 * o.workers {
        let r = one(o, q, How::Default, ch)?;
        all.states.extend(r.states);
        all.steps += r.steps;
        all.nontrivial |= r.nontrivial;
    }
    all.outcome = "default".into();
    Ok(all)
}

const LISTS: [&[usize]; 8] = [&[0, 1, 2], &[2, 1, 0], &[0], &[1], &[1, 2], &[3, 0, 1, 2], &[], &[9]];

/// The resolver's answer changes between planning and execution (9: it fails).
fn moving(o: Setup, q: (&'static str, &'static str, Cut), ch: &Ch) -> RunResult {
    let o = Setup { route: false, workers: 4, ..o };
    rt::sim(async {
        let list = |i: usize| {
            let l = LISTS[i];
            if l == [9] { Err("boom-resolver".to_string()) } else { Ok(l.iter().map(|i| url(*i)).collect::<Vec<_>>()) }
        };
        let a = choose(ch, LISTS.len(), |i| format!("planned with {:?}", LISTS[i]));
        let b = choose(ch, LISTS.len(), |i| format!("run with {:?}", LISTS[i]));
        let r = Moving(Arc::new(Mutex::new(list(a))));
        let r2 = r.clone();
        let w = world_with(o, None, None, move |b| b.with_distributed_worker_resolver(r2));
        let exp = truth(&w, q).await?;
        let what = format!("{} planned with {:?} run with {:?} {o:?}", q.1, LISTS[a], LISTS[b]);
        let plan = match async { w.ctx.sql(q.1).await?.create_physical_plan().await }.await {
            Ok(_) if LISTS[a] == [9] && o.max_tasks == 0 && !o.dynamic => return viol("ignored", format!("{what}: the resolver fails but the query is planned")),
            Ok(p) => p,
            Err(e) if LISTS[a] == [9] && e.to_string().contains("boom-resolver") => return Ok(Obs { outcome: "not planned".into(), ..Default::default() }),
            Err(e) => return viol("plan", format!("{what}: {e}")),
        };
        *r.0.lock().unwrap() = list(b);
        let out = run_to_end(&w.ctx, plan.clone()).await;
        let log = w.cluster.net.log();
        let mut stage: BTreeMap<usize, BTreeMap<usize, Url>> = BTreeMap::new();
        for e in log.iter().filter(|e| e.kind == Kind::SetPlan) {
            stage.entry(e.stage).or_default().insert(e.task, e.url.clone());
        }
        let distributed = plan.downcast_ref::<DistributedExec>().is_some();
        let outcome = match out {
            Outcome::Hang(_) => return viol("hang", what),
            Outcome::Rows(r) => {
                if !answers(q, &r, &exp) {
                    return viol("wrong-rows", what);
                }
                if distributed && stage.is_empty() {
                    return viol("unsent", what);
                }
                if !stage.is_empty() && LISTS[b].iter().all(|i| *i == 9) {
                    return viol("no-workers", format!("{what}: ran on {stage:?}"));
                }
                "rows"
            }
            Outcome::Err(e, _) => {
                let want = match LISTS[b] {
                    [] => "0 URLs available",
                    [9] => "boom-resolver",
                    _ => return viol("error", format!("{what}: {e}")),
                };
                if !e.contains(want) {
                    return viol("error-text", format!("{what}: {e}"));
                }
                if !stage.is_empty() {
                    return viol("started", format!("{what}: ran on {stage:?}"));
                }
                "error"
            }
        };
        let all = list(b).unwrap_or_default();
        for (n, ts) in &stage {
            let us: Vec<Url> = ts.values().cloned().collect();
            if let Some(m) = spread(&us, &all) {
                return viol("spread", format!("{what}: stage {n}: {m}"));
            }
        }
        Ok(Obs { outcome: outcome.into(), nontrivial: distributed, steps: log.len() as u64, states: vec![h64(&format!("{stage:?}"))] })
    })
}

/// The resolver's answer changes while a query is planned and run, at any of its calls.
#[derive(Clone)]
struct Turning {
    calls: Arc<AtomicUsize>,
    at: usize,
    lists: Arc<[Result<Vec<Url>, String>; 2]>,
}
impl WorkerResolver for Turning {
    fn get_urls(&self) -> Result<Vec<Url>, DataFusionError> {
        let n = self.calls.fetch_add(1, SeqCst);
        self.lists[(n >= self.at) as usize].clone().map_err(|e| exec_datafusion_err!("{e}"))
    }
}

const TURNS: [(usize, usize); 14] =
    [(0, 2), (2, 0), (0, 4), (4, 0), (2, 5), (5, 2), (3, 5), (5, 0), (0, 6), (2, 6), (6, 0), (0, 7), (2, 7), (5, 7)];

fn turning(o: Setup, q: (&'static str, &'static str, Cut), calls: usize, ch: &Ch) -> RunResult {
    let o = Setup { route: false, workers: 4, ..o };
    rt::sim(async {
        let list = |i: usize| {
            let l = LISTS[i];
            if l == [9] { Err("boom-resolver".to_string()) } else { Ok(l.iter().map(|i| url(*i)).collect::<Vec<_>>()) }
        };
        let (a, b) = TURNS[choose(ch, TURNS.len(), |i| format!("{:?}, then {:?}", LISTS[TURNS[i].0], LISTS[TURNS[i].1]))];
        let at = 1 + choose(ch, calls, |i| format!("turns at call {}", i + 1));
        let r = Turning { calls: Default::default(), at, lists: Arc::new([list(a), list(b)]) };
        let r2 = r.clone();
        let w = world_with(o, None, None, move |b| b.with_distributed_worker_resolver(r2));
        let exp = truth(&w, q).await?;
        r.calls.store(0, SeqCst);
        let what = format!("{} with workers {:?}, from call {at} on {:?} {o:?}", q.1, LISTS[a], LISTS[b]);
        let may_fail = |e: &str| {
            [a, b].iter().any(|i| match LISTS[*i] {
                [] => e.contains("0 URLs available"),
                [9] => e.contains("boom-resolver"),
                _ => false,
            })
        };
        let plan = match async { w.ctx.sql(q.1).await?.create_physical_plan().await }.await {
            Ok(p) => p,
            Err(e) if may_fail(&e.to_string()) => return Ok(Obs { outcome: "not planned".into(), ..Default::default() }),
            Err(e) => return viol("plan", format!("{what}: {e}")),
        };
        let planned = r.calls.load(SeqCst);
        let out = run_to_end(&w.ctx, plan.clone()).await;
        let turned = r.calls.load(SeqCst) > at;
        let log = w.cluster.net.log();
        let mut stage: BTreeMap<usize, BTreeMap<usize, Url>> = BTreeMap::new();
        for e in log.iter().filter(|e| e.kind == Kind::SetPlan) {
            stage.entry(e.stage).or_default().insert(e.task, e.url.clone());
        }
        let outcome = match out {
            Outcome::Hang(_) => return viol("hang", what),
            Outcome::Rows(r) if !answers(q, &r, &exp) => return viol("wrong-rows", what),
            Outcome::Rows(_) => "rows",
            Outcome::Err(e, _) if may_fail(&e) => "error",
            Outcome::Err(e, _) => return viol("error", format!("{what}: {e}")),
        };
        let lists: Vec<Vec<Url>> = [a, b].iter().map(|i| list(*i).unwrap_or_default()).collect();
        let most = lists.iter().map(|l| l.len().max(1)).max().unwrap();
        let most = if o.max_tasks > 0 { o.max_tasks } else { most };
        for (n, ts) in &stage {
            // A stage of which only a part was sent before the query failed.
            let whole = outcome == "rows";
            if ts.len() > most || (whole && ts.keys().copied().ne(0..ts.len())) {
                return viol("tasks", format!("{what}: stage {n} has the tasks {ts:?}"));
            }
            let us: Vec<Url> = ts.values().cloned().collect();
            if !whole {
                if let Some(u) = us.iter().find(|u| !lists.iter().any(|l| l.contains(u))) {
                    return viol("unknown-worker", format!("{what}: stage {n}: {u}"));
                }
            } else if let (Some(m), Some(_)) = (spread(&us, &lists[0]), spread(&us, &lists[1])) {
                // Each stage is routed with one of the two answers.
                return viol("spread", format!("{what}: stage {n}: {m}"));
            }
        }
        Ok(Obs {
            outcome: format!("{outcome}, {}", if !turned { "never turned" } else if planned > at { "turned in planning" } else { "turned in running" }),
            nontrivial: turned && stage.len() > 1,
            steps: log.len() as u64,
            states: vec![h64(&format!("{stage:?}"))],
        })
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let qs: Vec<_> = QUERIES.iter().copied().filter(|q| q.2 == Cut::No).collect();
    for dynamic in [false, true] {
        for (i, q) in qs.iter().copied().enumerate() {
            for (j, (workers, max_tasks, local, tr)) in [
                (3, 0, false, Transport::Direct),
                (2, 3, false, Transport::Grpc),
                (2, 0, true, Transport::Direct),
                (1, 3, true, Transport::Grpc),
                (4, 0, false, Transport::Direct),
                (3, 5, true, Transport::Grpc),
            ]
            .into_iter()
            .enumerate()
            {
                if !thorough && (i + j) % 2 != 0 {
                    continue;
                }
                let o = Setup { dynamic, workers, max_tasks, local, tr, ..SETUP };
                for (how, b) in [(How::Chosen, 2), (How::Chain, 3), (How::Wrong, 1)] {
                    let b = if thorough { b + 1 } else { b };
                    v.push(case(format!("{how:?}/{}/{}/b{b}", q.0, o.short()), b, move |ch| one(o, q, how, ch)));
                }
                v.push(case(format!("Default/{}/{}", q.0, o.short()), 0, move |ch| defaults(o, q, ch)));
                if j < 2 {
                    v.push(case(format!("Moving/{}/{}", q.0, o.short()), 2, move |ch| moving(o, q, ch)));
                    let calls = if thorough { 40 } else { 24 };
                    v.push(case(format!("Turning/{}/{}/k{calls}", q.0, o.short()), 2, move |ch| turning(o, q, calls, ch)));
                }
            }
        }
    }
    v
}
