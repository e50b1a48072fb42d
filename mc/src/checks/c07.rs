//! C07: plan delivery and partition requests commute; whoever asks for a partition gets all of it.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::scen::*;
use crate::vexec::*;
use datafusion::common::Result;
use datafusion::physical_expr::Partitioning;
use datafusion::physical_expr::expressions::col;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::repartition::BatchPartitioner;
use datafusion_distributed::*;
use futures::{FutureExt, StreamExt};
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn check() -> Check {
    Check {
        id: "C07",
        level: "model_checking",
        rule: "Raw: case = (transport, producer head, depth); all sequences of (plan delivered, at once or after a slow session; other plan; broken plan; delivery abandoned; partitions read, also out of range; read abandoned; coordinator leaves; seconds pass) on a real worker with two tasks, compared with a model after every action. Query: every plan delivery and read request of a query may be late by one or by eleven seconds (up to `b` deviations). Non-trivial = a plan was delivered",
        assumptions: &["the plan timeout is 10 s", "the same partition is asked for twice only where the operators allow it", "bounds: see case ids"],
        cases,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Head {
    None,
    Broadcast,
    Hash,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Plan {
    /// The plan of the task.
    First,
    /// Another plan for the same task.
    Second,
    /// Cannot be decoded.
    Broken,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Set(usize, Plan),
    /// The worker needs four seconds to prepare its session.
    SetSlow(usize, Plan),
    /// The latest delivery that is not done is abandoned.
    Abandon,
    Read(usize, usize, usize),
    /// The latest read that waits for its plan is abandoned.
    Cancel,
    /// The coordinator is done with the task.
    Leave(usize),
    /// Six seconds.
    Wait,
}

const PARTS: usize = 3;
const OUT: usize = 6;
const SLOW: u64 = 4;
const STEP: u64 = 6;
const LIMIT: u64 = 10;

/// The client of the gRPC channel allocates per requested partition, so requests that its callers
/// never make are only sent to the worker itself.
fn acts() -> Vec<Act> {
    use Act::*;
    vec![
        Set(0, Plan::First),
        Read(0, 0, 1),
        Wait,
        SetSlow(0, Plan::First),
        Read(0, 1, 3),
        Leave(0),
        Set(0, Plan::Second),
        Cancel,
        Set(0, Plan::Broken),
        SetSlow(0, Plan::Second),
        Abandon,
        Read(1, 0, 2),
        Set(1, Plan::First),
        Read(0, 2, OUT + 1),
        Read(0, 2, 1),
        Read(0, 0, usize::MAX),
    ]
}

/// What partition `p` of the leaf delivers under a plan.
fn rows(task: usize, plan: Plan, p: usize) -> Vec<Kv> {
    (0..3 + p).map(|i| (Some((i + p) as i64), (1000 * task + 100 * (plan == Plan::Second) as usize + 10 * p + i) as i64)).collect()
}

enum Got {
    Waiting,
    Rows(Vec<Vec<Kv>>),
    Err(String),
}
type Cell = Arc<Mutex<Got>>;

struct ReadCall {
    task: usize,
    range: (usize, usize),
    cell: Cell,
    h: tokio::task::JoinHandle<()>,
    /// The model: None: waits until then.
    deadline: u64,
    want: Option<Want>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    Rows(Plan),
    Err,
    Cancelled,
}

enum SetGot {
    Waiting,
    /// The plan is accepted and the coordinator's side is open.
    Ok,
    Err,
}

struct SetCall {
    task: usize,
    plan: Plan,
    cell: Arc<Mutex<SetGot>>,
    h: tokio::task::JoinHandle<()>,
    tx: Option<tokio::sync::mpsc::UnboundedSender<CoordinatorToWorkerMsg>>,
    /// The model: done then.
    at: u64,
    want: Option<bool>,
    gone: bool,
    /// The worker's side of the channel has ended.
    over: Arc<std::sync::atomic::AtomicBool>,
}

fn raw(tr: Transport, head: Head, depth: usize, ch: &Ch) -> RunResult {
    rt::sim(async {
        let srcs: Vec<SrcHandle> = [(0, Plan::First), (0, Plan::Second), (1, Plan::First)]
            .into_iter()
            .map(|(t, plan)| SrcBuilder::new(kv_schema(), move |s| rows(t, plan, s.part).chunks(2).map(|r| Item::Batch(kv_batch(r))).collect()).build())
            .collect();
        let cluster = Cluster::with(1, tr, None, pool_env);
        let ctx = cluster.session(cfg(2), |b| b);
        let url = cluster.urls[0].clone();
        let key = |t: usize| TaskKey { query_id: uuid::Uuid::from_u128(7), stage_id: 1, task_number: t };
        let mk_head = || match head {
            Head::None => ProducerHead::None,
            Head::Broadcast => ProducerHead::BroadcastExec { output_partitions: OUT },
            Head::Hash => ProducerHead::RepartitionExec { partitioning: MaybeEncoded::Decoded(Partitioning::Hash(vec![col("k", &kv_schema()).unwrap()], OUT)) },
        };
        let have = if head == Head::None { PARTS } else { OUT };
        let mut now = 0u64;
        let mut reads: Vec<ReadCall> = vec![];
        let mut sets: Vec<SetCall> = vec![];
        // The model: the plan that a task has got.
        let mut state: [Option<Plan>; 2] = [None; 2];
        let menu: Vec<Act> = acts().into_iter().filter(|a| tr == Transport::Direct || !matches!(a, Act::Read(_, a, b) if a > b || *b > 2 * OUT)).collect();
        let mut done = vec![];
        for step in 0..=depth {
            if step < depth {
                let can: Vec<Act> = menu
                    .iter()
                    .copied()
                    .filter(|a| match a {
                        Act::Abandon => sets.iter().any(|s| s.want.is_none()),
                        Act::Cancel => reads.iter().any(|r| r.want.is_none()),
                        // Not while another delivery for the task is under way: it belongs to a query that is over.
                        Act::Leave(t) => !sets.iter().any(|s| s.task == *t && s.want.is_none()) && sets.iter().any(|s| s.task == *t && s.want == Some(true) && !s.gone),
                        // An exchange hands out each partition once.
                        Act::Read(t, a, b) if head != Head::None => !reads.iter().any(|r| r.task == *t && r.range.0 < *b && *a < r.range.1),
                        _ => true,
                    })
                    .collect();
                let a = can[choose(ch, can.len(), |i| format!("{:?}", can[i]))];
                done.push(a);
                match a {
                    Act::Set(t, plan) | Act::SetSlow(t, plan) => {
                        let slow = matches!(a, Act::SetSlow(..));
                        let enc = match plan {
                            Plan::Broken => MaybeEncoded::Encoded(vec![0xff; 7]),
                            p => {
                                let e: Arc<dyn ExecutionPlan> = srcs[if t == 1 { 2 } else { (p == Plan::Second) as usize }].0.exec(PARTS);
                                MaybeEncoded::Encoded(df_err(MaybeEncoded::Decoded(e).encode(&ctx.task_ctx()), "encode")?)
                            }
                        };
                        let req = SetPlanRequest { task_key: key(t), task_count: 2, plan: enc, work_unit_feed_declarations: vec![], target_worker_url: url.clone(), query_start_time_ns: 1 };
                        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
                        let rx = tokio_stream::wrappers::UnboundedReceiverStream::new(rx).boxed();
                        let mut hm = http::HeaderMap::new();
                        if slow {
                            hm.insert("x-mc-delay", (SLOW * 1000).to_string().parse().unwrap());
                        }
                        let mut c = df_err(cluster.net.raw_channel(&url), "channel")?;
                        let cell = Arc::new(Mutex::new(SetGot::Waiting));
                        let over = Arc::new(std::sync::atomic::AtomicBool::new(false));
                        let (c2, o2, tc) = (cell.clone(), over.clone(), ctx.task_ctx());
                        let h = tokio::spawn(async move {
                            let r = c.coordinator_channel(hm, req, rx, Default::default(), &tc).await;
                            match r {
                                Err(_) => *c2.lock().unwrap() = SetGot::Err,
                                Ok(mut w2c) => {
                                    *c2.lock().unwrap() = SetGot::Ok;
                                    while let Some(m) = w2c.next().await {
                                        if m.is_err() {
                                            *c2.lock().unwrap() = SetGot::Err;
                                        }
                                    }
                                    o2.store(true, std::sync::atomic::Ordering::SeqCst);
                                }
                            }
                        });
                        sets.push(SetCall { task: t, plan, cell, h, tx: Some(tx), at: now + if slow { SLOW } else { 0 }, want: None, gone: false, over });
                    }
                    Act::Abandon => {
                        let s = sets.iter_mut().rev().find(|s| s.want.is_none()).unwrap();
                        s.h.abort();
                        s.tx = None;
                        s.gone = true;
                        s.want = Some(false);
                        *s.cell.lock().unwrap() = SetGot::Err;
                    }
                    Act::Read(t, a, b) => {
                        let mut c = df_err(cluster.net.raw_channel(&url), "channel")?;
                        let req = ExecuteTaskRequest { task_key: key(t), target_partition_start: a, target_partition_end: b, producer_head: mk_head() };
                        let cell: Cell = Arc::new(Mutex::new(Got::Waiting));
                        let (c2, tc) = (cell.clone(), ctx.task_ctx());
                        let h = tokio::spawn(async move {
                            let run = async {
                                let sts = c.execute_task(http::HeaderMap::new(), req, Default::default(), &tc).await?;
                                let all = sts.into_iter().map(|s| s.collect::<Vec<_>>());
                                let v: Vec<Vec<Result<_>>> = futures::future::join_all(all).await;
                                v.into_iter().map(|p| p.into_iter().map(|b| Ok(kv_rows(&b?))).collect::<Result<Vec<_>>>().map(|v| v.concat())).collect::<Result<Vec<_>>>()
                            };
                            let r = AssertUnwindSafe(run).catch_unwind().await;
                            *c2.lock().unwrap() = match r {
                                Ok(Ok(v)) => Got::Rows(v),
                                Ok(Err(e)) => Got::Err(e.to_string()),
                                Err(_) => Got::Err(format!("PANIC {}", take_last_panic().unwrap_or_default())),
                            };
                        });
                        reads.push(ReadCall { task: t, range: (a, b), cell, h, deadline: now + LIMIT, want: None });
                    }
                    Act::Cancel => {
                        let r = reads.iter_mut().rev().find(|r| r.want.is_none()).unwrap();
                        r.h.abort();
                        r.want = Some(Want::Cancelled);
                    }
                    Act::Leave(t) => {
                        let s = sets.iter_mut().rev().find(|s| s.task == t && s.want == Some(true) && !s.gone).unwrap();
                        s.tx = None;
                        s.gone = true;
                        state[t] = None;
                    }
                    Act::Wait => tokio::time::sleep(Duration::from_secs(STEP)).await,
                }
                if a == Act::Wait {
                    now += STEP;
                }
            } else {
                // Nothing waits for ever.
                tokio::time::sleep(Duration::from_secs(2 * LIMIT)).await;
                now += 2 * LIMIT;
            }
            rt::quiesce().await;
            // The model catches up, in the order of time.
            loop {
                let s = sets.iter().enumerate().filter(|s| s.1.want.is_none() && s.1.at <= now).min_by_key(|s| s.1.at).map(|s| (s.1.at, s.0));
                let r = reads.iter().enumerate().filter(|r| r.1.want.is_none()).map(|(i, r)| (r.deadline, i)).filter(|r| r.0 <= now).min();
                // Reads that find a plan are served before anything else happens.
                for r in reads.iter_mut().filter(|r| r.want.is_none()) {
                    if let Some(p) = state[r.task] {
                        let bad = p == Plan::Broken || r.range.1 > have || r.range.0 > r.range.1;
                        r.want = Some(if bad { Want::Err } else { Want::Rows(p) });
                    }
                }
                match (s, r) {
                    (Some((at, i)), r) if r.is_none_or(|r| at < r.0) => {
                        let t = sets[i].task;
                        let free = state[t].is_none();
                        if free {
                            state[t] = Some(sets[i].plan);
                        }
                        sets[i].want = Some(free && sets[i].plan != Plan::Broken);
                    }
                    (_, Some((_, i))) if reads[i].want.is_none() => reads[i].want = Some(Want::Err),
                    (None, None) => break,
                    _ => {}
                }
            }
            // Now compare.
            let at = || format!("{head:?}, after {done:?} (second {now})");
            for (i, s) in sets.iter().enumerate() {
                let got = match *s.cell.lock().unwrap() {
                    SetGot::Waiting => None,
                    SetGot::Ok => Some(true),
                    SetGot::Err => Some(false),
                };
                if got != s.want {
                    return viol("delivery", format!("{}: delivery {i} is {got:?}, expected {:?} (true: accepted)", at(), s.want));
                }
                let over = s.over.load(std::sync::atomic::Ordering::SeqCst);
                if s.want == Some(true) && over != s.gone {
                    return viol("channel-end", format!("{}: the channel of delivery {i} has ended: {over}", at()));
                }
            }
            for (i, r) in reads.iter().enumerate() {
                let g = r.cell.lock().unwrap();
                match (&*g, r.want) {
                    (_, Some(Want::Cancelled)) | (Got::Waiting, None) => {}
                    (Got::Err(e), _) if e.starts_with("PANIC") => return viol("panic", format!("{}: read {i} {:?}: {e}", at(), r.range)),
                    (Got::Err(_), Some(Want::Err)) => {}
                    (Got::Rows(v), Some(Want::Rows(p))) => {
                        if let Err(e) = right(head, r, p, v) {
                            return viol("rows", format!("{}: read {i} of {:?}: {e}", at(), r.range));
                        }
                    }
                    (g, w) => {
                        let g = match g {
                            Got::Waiting => "still waiting".to_string(),
                            Got::Rows(v) => format!("{v:?}"),
                            Got::Err(e) => format!("error {e}"),
                        };
                        return viol("read", format!("{}: read {i} of task {} {:?}: {g}, expected {w:?}", at(), r.task, r.range));
                    }
                }
            }
        }
        // A partition was executed as often as it was asked for.
        if head == Head::None {
            for p in 0..PARTS {
                let asked = reads.iter().filter(|r| matches!(r.want, Some(Want::Rows(_))) && (r.range.0..r.range.1).contains(&p)).count();
                let ran: usize = srcs.iter().map(|s| s.opened().iter().filter(|o| o.0.part == p).map(|o| *o.1).sum::<usize>()).sum();
                if asked != ran {
                    return viol("executions", format!("{done:?}: partition {p} was asked for {asked} times and executed {ran} times"));
                }
            }
        }
        let n = sets.iter().filter(|s| s.want == Some(true)).count();
        let w: Vec<_> = reads.iter().map(|r| r.want).collect();
        Ok(Obs { outcome: format!("{n} {w:?}"), nontrivial: n > 0, steps: depth as u64, states: vec![h64(&format!("{state:?}{w:?}{now}"))] })
    })
}

fn right(head: Head, r: &ReadCall, plan: Plan, v: &[Vec<Kv>]) -> std::result::Result<(), String> {
    if v.len() != r.range.1 - r.range.0 {
        return Err(format!("{} partitions", v.len()));
    }
    for (i, got) in v.iter().enumerate() {
        let p = r.range.0 + i;
        let exp: Vec<Kv> = match head {
            Head::None => rows(r.task, plan, p),
            Head::Broadcast => rows(r.task, plan, p % PARTS),
            Head::Hash => (0..PARTS).flat_map(|q| rows(r.task, plan, q)).filter(|x| hashed(x.0) == p).collect(),
        };
        let (mut a, mut b) = (got.clone(), exp.clone());
        if head == Head::Hash {
            a.sort();
            b.sort();
        }
        if a != b {
            return Err(format!("partition {p} has {got:?}, expected {exp:?}"));
        }
    }
    Ok(())
}

/// Where DataFusion's hash partitioning puts a key.
fn hashed(k: Option<i64>) -> usize {
    let by = Partitioning::Hash(vec![col("k", &kv_schema()).unwrap()], OUT);
    let mut b = BatchPartitioner::try_new(by, Default::default(), 0, 1).unwrap();
    let mut at = 0;
    b.partition(kv_batch(&[(k, 0)]), |p, _| {
        at = p;
        Ok(())
    })
    .unwrap();
    at
}

// ---------------------------------------------------------------- queries

fn query(o: Setup, q: (&'static str, &'static str, Cut), ch: &Ch) -> RunResult {
    rt::sim(async {
        let w = world(o, None, |b| b);
        let exp = truth(&w, q).await?;
        let c = ch.clone();
        let late = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let l2 = late.clone();
        w.cluster.net.set_policy(move |ev: &Ev| {
            if !matches!(ev.kind, Kind::SetPlan | Kind::SetPlanReply | Kind::Exec | Kind::ExecReply) {
                return Decision::Go;
            }
            match choose(&c, 3, |x| format!("{}: {}", ev.short(), ["go", "1 s", "11 s"][x])) {
                0 => Decision::Go,
                1 => Decision::Delay(Duration::from_secs(1)),
                _ => {
                    l2.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    Decision::Delay(Duration::from_secs(11))
                }
            }
        });
        let plan = df_err(async { w.ctx.sql(q.1).await?.create_physical_plan().await }.await, "plan")?;
        let t0 = tokio::time::Instant::now();
        let out = match AssertUnwindSafe(run_to_end(&w.ctx, plan)).catch_unwind().await {
            Ok(o) => o,
            Err(_) => return viol("panic", format!("{}: the client panicked: {}", q.1, take_last_panic().unwrap_or_default())),
        };
        let took = t0.elapsed().as_secs();
        let n = late.load(std::sync::atomic::Ordering::SeqCst);
        let outcome = match out {
            Outcome::Hang(_) => return viol("hang", format!("{} did not end", q.1)),
            Outcome::Err(e, _) if n > 0 && e.contains("waiting for the plan") => "timeout",
            Outcome::Err(e, _) => return viol("error", format!("{} failed: {e}", q.1)),
            Outcome::Rows(got) if !answers(q, &got, &exp) => return viol("wrong-rows", format!("{}: {:?}, expected {exp:?}", q.1, canon(q.0, &got))),
            Outcome::Rows(_) => "rows",
        };
        if took > 60 {
            return viol("slow", format!("{} took {took} s", q.1));
        }
        Ok(Obs { outcome: outcome.into(), nontrivial: true, steps: w.cluster.net.log().len() as u64, ..Default::default() })
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for tr in [Transport::Direct, Transport::Grpc] {
        for head in [Head::None, Head::Broadcast, Head::Hash] {
            let d = if thorough { 4 } else { 3 };
            v.push(case(format!("Raw/{tr:?}/{head:?}/d{d}"), d, move |ch| raw(tr, head, d, ch)));
            // Longer sequences with fewer unusual actions.
            let (d, b) = if thorough { (8, 3) } else { (6, 2) };
            v.push(case(format!("Raw/{tr:?}/{head:?}/d{d}b{b}"), b, move |ch| raw(tr, head, d, ch)));
        }
    }
    let mut k = 0;
    for dynamic in [false, true] {
        for tr in [Transport::Direct, Transport::Grpc] {
            for q in QUERIES {
                k += 1;
                if !thorough && k % 2 == 0 {
                    continue;
                }
                let o = Setup { dynamic, tr, ..SETUP };
                let b = if thorough { 2 } else { 1 };
                v.push(case(format!("Query/{}/{}/b{b}", q.0, o.short()), b, move |ch| query(o, q, ch)));
            }
        }
    }
    v
}
