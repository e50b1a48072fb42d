//! C11: work units reach exactly the task and partition they were issued for, in order.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::scen::*;
use crate::vexec::*;
use crate::vfeed::*;
use datafusion::datasource::MemTable;
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::coop::CooperativeExec;
use datafusion::prelude::SessionContext;
use datafusion_distributed::*;
use futures::FutureExt;
use std::panic::AssertUnwindSafe;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub fn check() -> Check {
    Check {
        id: "C11",
        level: "model_checking",
        rule: "case = (query over feed-backed leaves, cluster, planner mode, transport, kind of trouble); the explorer decides which provider items and messages are late, fail or panic, which consumers stop early, and which feed waits for which; observed: units emitted per feed and received per task and partition; non-trivial = units crossed to a worker",
        assumptions: &["a lost message breaks the channel it belongs to", "the end of a feed may be seen only when all feeds of the task ended", "bounds: see case ids"],
        cases,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    /// Provider items and coordinator messages may be late.
    Late,
    /// Provider items or the opening of a feed fail or panic.
    Fail,
    /// Consumers stop by themselves.
    Stop,
    /// A message is lost.
    Lost,
    /// A feed only goes on when another one has been consumed.
    Cross,
}

const FQ: [(&str, &str); 10] = [
    ("gather", "SELECT k, v FROM f"),
    ("project", "SELECT v FROM f"),
    ("group", "SELECT k, count(*), sum(v) FROM f GROUP BY k"),
    ("total", "SELECT count(*), max(v) FROM f"),
    ("union", "SELECT v FROM f UNION ALL SELECT v FROM g"),
    ("union3", "SELECT v FROM f UNION ALL SELECT v FROM t UNION ALL SELECT v FROM g UNION ALL SELECT v FROM g"),
    ("join", "SELECT f.v, g.v FROM f JOIN g ON f.k = g.k"),
    ("self", "SELECT a.v, b.v FROM f a JOIN f b ON a.v = b.v"),
    ("mixed", "SELECT f.v, u.v FROM f LEFT JOIN u ON f.k = u.k"),
    ("unionjoin", "SELECT a.k, count(*) FROM (SELECT k, v FROM f UNION ALL SELECT k, v FROM g) a JOIN m ON a.k = m.k GROUP BY a.k"),
];

/// Units of a feed.
fn count(sizes: &[usize], feed: usize) -> usize {
    sizes[feed % sizes.len()]
}

fn source(tasks: usize, parts: usize, sizes: &'static [usize], mode: Mode, name: &'static str, ch: &Ch) -> FeedHandle {
    let c = ch.clone();
    let script = move |feed: usize, fan: usize| {
        let n = count(sizes, feed);
        let mut v = vec![];
        match mode {
            Mode::Late => {
                for i in 0..n {
                    if choose(&c, 2, |x| format!("{name}{feed}#{i}:{}", ["now", "late"][x])) == 1 {
                        v.push(FItem::Late(1));
                    }
                    v.push(FItem::Unit(Unit::new(feed, i)));
                }
                if choose(&c, 2, |x| format!("{name}{feed} end:{}", ["now", "late"][x])) == 1 {
                    v.push(FItem::Late(2));
                }
            }
            Mode::Fail => {
                let k = choose(&c, 1 + 2 * (n + 1) + 2, |x| match x {
                    0 => format!("{name}{feed} ok"),
                    x if x == 2 * (n + 1) + 1 => format!("{name}{feed} cannot be opened"),
                    x if x == 2 * (n + 1) + 2 => format!("{name}{feed} panics when opened"),
                    x => format!("{name}{feed} {} at {}", ["fails", "panics"][(x - 1) % 2], (x - 1) / 2),
                });
                if k == 2 * (n + 1) + 1 {
                    return vec![FItem::OpenErr("boom-feed".into())];
                }
                if k == 2 * (n + 1) + 2 {
                    return vec![FItem::OpenPanic("boom-feed".into())];
                }
                for i in 0..=n {
                    if k > 0 && (k - 1) / 2 == i {
                        // Later than everything else, or together with it.
                        if choose(&c, 2, |x| ["at once".into(), "late".to_string()][x].clone()) == 1 {
                            v.push(FItem::Late(1));
                        }
                        v.push(if k % 2 == 1 { FItem::Err("boom-feed".into()) } else { FItem::Panic("boom-feed".into()) });
                        break;
                    }
                    if i < n {
                        v.push(FItem::Unit(Unit::new(feed, i)));
                    }
                }
            }
            Mode::Cross => {
                let all = fan * parts;
                let k = choose(&c, all + 1, |x| if x == 0 || x - 1 == feed { "-".into() } else { format!("{name}{feed} waits for {}", x - 1) });
                if k > 0 && k - 1 != feed {
                    v.push(FItem::Until(k - 1, count(sizes, k - 1)));
                }
                v.extend((0..n).map(|i| FItem::Unit(Unit::new(feed, i))));
            }
            Mode::Stop | Mode::Lost => v.extend((0..n).map(|i| FItem::Unit(Unit::new(feed, i)))),
        }
        v
    };
    let stop: Option<Box<dyn Fn(usize, usize) -> usize + Send + Sync>> = (mode == Mode::Stop).then(|| {
        let c = ch.clone();
        let max = *sizes.iter().max().unwrap();
        Box::new(move |t: usize, p: usize| {
            let k = choose(&c, max + 2, |x| if x == 0 { format!("{name} t{t}p{p} reads all") } else { format!("{name} t{t}p{p} stops after {}", x - 1) });
            if k == 0 { usize::MAX } else { k - 1 }
        }) as _
    });
    feed_source(tasks, script, stop)
}

fn equip(b: SessionStateBuilder) -> SessionStateBuilder {
    b.with_distributed_user_codec(FeedCodec).with_distributed_work_unit_feed(|p: &FeedExec| Some(&p.feed)).with_distributed_desired_task_count_handler(feed_task_counts)
}

#[derive(Clone, Copy, Debug)]
struct Feeds {
    f: usize,
    g: usize,
    sizes: &'static [usize],
    /// A leaf is replaced by one variant per task: 1, by variants that are themselves feed-backed
    /// leaves; 2, by variants with another operator above them.
    variants: u8,
}

fn variants(style: u8) -> impl Fn(ScaleUpLeafNodeEvent<'_>) -> Option<datafusion::common::Result<ScaleUpLeafNodeEventResponse>> {
    move |ev| {
        let v = ev.plan.downcast_ref::<FeedExec>()?;
        let one = |_| -> Arc<dyn ExecutionPlan> {
            let leaf = Arc::new(FeedExec::new(v.ctl.clone(), v.parts, v.feed.clone(), v.projection.clone()));
            match style {
                1 => leaf,
                _ => Arc::new(CooperativeExec::new(leaf)),
            }
        };
        let leaf = DistributedLeafExec::try_new(Arc::clone(ev.plan), (0..ev.task_count).map(one));
        Some(leaf.map(|l| ScaleUpLeafNodeEventResponse::new(Arc::new(l))))
    }
}

/// Units arrive as they were sent. `whole`: everything was consumed.
fn verify(name: &str, ctl: &Ctl, whole: bool) -> std::result::Result<usize, Viol> {
    let g = ctl.log.lock().unwrap();
    let bad = |k: &str, m: String| -> std::result::Result<usize, Viol> { Err(Viol { key: k.into(), msg: format!("feed {name}: {m}") }) };
    let parts = ctl.parts.load(SeqCst);
    let seqs = |u: &[Unit]| u.iter().map(|u| format!("{}.{}", u.feed, u.seq)).collect::<Vec<_>>().join(" ");
    // The same scan may occur several times in a query: one feed each.
    let scans = g.sent.values().map(|s| s.1).max().unwrap_or(0);
    if g.sent.values().any(|s| s.1 != scans) && whole {
        return bad("feeds", format!("opened {:?}", g.sent.iter().map(|(k, s)| (*k, s.1)).collect::<Vec<_>>()));
    }
    let fan = g.sent.values().map(|s| s.0).max().unwrap_or(0);
    if whole && !g.sent.is_empty() && (g.sent.len() != fan * parts || *g.sent.keys().last().unwrap() + 1 != fan * parts) {
        return bad("feeds", format!("feeds {:?} were opened for {fan} tasks of {parts} partitions", g.sent.keys().collect::<Vec<_>>()));
    }
    let mut crossed = 0;
    let mut owners = std::collections::BTreeSet::new();
    for (at, got) in &g.got {
        let (task, tasks, part) = *at;
        if got.opened != scans && whole {
            return bad("opened", format!("partition {part} of task {task} was opened {} times for {scans} scans", got.opened));
        }
        if scans != 1 {
            // Several readers share this log: compared in total below.
            crossed += got.units.len();
            continue;
        }
        // Inside of a union the tasks of a branch are numbered on their own.
        let own = if tasks == fan {
            task * parts + part
        } else {
            let Some(u) = got.units.first() else { continue };
            u.feed as usize
        };
        if own % parts != part {
            return bad("partition", format!("partition {part} of task {task} received {}", seqs(&got.units)));
        }
        if !owners.insert(own) {
            return bad("owner", format!("two consumers received feed {own}"));
        }
        let sent = g.sent.get(&own).map(|s| s.2.clone()).unwrap_or_default();
        let all = whole && !got.stopped;
        let ok = if all { got.units == sent } else { sent.starts_with(&got.units) };
        if !ok {
            return bad("units", format!("partition {part} of task {task} received [{}], feed {own} sent [{}]", seqs(&got.units), seqs(&sent)));
        }
        if got.ended && whole && !g.ended.contains(&own) {
            return bad("early-end", format!("partition {part} of task {task} ended although feed {own} had not"));
        }
        crossed += got.units.len();
    }
    if whole && scans > 0 && g.got.values().all(|x| !x.stopped) {
        let n: usize = g.sent.values().map(|s| s.2.len()).sum();
        if n != crossed {
            return bad("count", format!("{n} units were sent and {crossed} received"));
        }
    }
    Ok(crossed)
}

fn one(o: Setup, fs: Feeds, q: (&'static str, &'static str), mode: Mode, ch: &Ch) -> RunResult {
    rt::sim(async {
        let hook: StateHook = Arc::new(|b: SessionStateBuilder, _: &http::HeaderMap| Ok(b.with_distributed_user_codec(FeedCodec)));
        let w = world_with(o, None, Some(hook), |b| match fs.variants {
            0 => equip(b),
            n => equip(b).with_distributed_scale_up_leaf_node_handler(variants(n)),
        });
        let f = source(fs.f, o.parts, fs.sizes, mode, "f", ch);
        let g = source(fs.g, o.parts, fs.sizes, mode, "g", ch);
        w.ctx.register_table("f", Arc::new(FeedTable { ctl: f.0.clone(), parts: o.parts })).unwrap();
        w.ctx.register_table("g", Arc::new(FeedTable { ctl: g.0.clone(), parts: o.parts })).unwrap();
        let lost = Arc::new(AtomicUsize::new(0));
        match mode {
            Mode::Late => w.cluster.net.set_policy(delays(ch, &[Kind::SetPlan, Kind::SetPlanReply, Kind::C2W, Kind::Exec], 1)),
            Mode::Lost => {
                let (c, l) = (ch.clone(), lost.clone());
                w.cluster.net.set_policy(move |ev: &Ev| {
                    if !matches!(ev.kind, Kind::C2W | Kind::SetPlan | Kind::SetPlanReply) {
                        return Decision::Go;
                    }
                    if choose(&c, 2, |x| format!("{}:{}", ev.short(), if x == 0 { "go" } else { "lost" })) == 0 {
                        return Decision::Go;
                    }
                    l.fetch_add(1, SeqCst);
                    Decision::Fail(format!("boom-net {}", ev.short()))
                });
            }
            _ => {}
        }
        let what = || {
            let g = ch.lock().unwrap();
            let l: Vec<&String> = g.labels.iter().zip(&g.trace).filter(|x| x.1.1 > 0).map(|x| x.0).collect();
            format!("{} {fs:?} {} with {l:?}", q.1, o.short())
        };
        let plan = df_err(async { w.ctx.sql(q.1).await?.create_physical_plan().await }.await, "plan")?;
        let run = AssertUnwindSafe(run_to_end(&w.ctx, plan)).catch_unwind();
        let out = run.await;
        let fired = f.0.fired.load(SeqCst) + g.0.fired.load(SeqCst);
        let lost = lost.load(SeqCst);
        let outcome = match out {
            Err(_) if fired > 0 => "panic",
            Err(_) => return viol("panic", format!("{}: {}", what(), take_last_panic().unwrap_or_default())),
            Ok(Outcome::Hang(r)) => return viol("hang", format!("{} did not end ({} rows)", what(), r.iter().map(|b| b.num_rows()).sum::<usize>())),
            Ok(Outcome::Err(e, _)) => {
                if fired + lost == 0 {
                    return viol("error", format!("{}: {e}", what()));
                }
                let panics = ch.lock().unwrap().labels.iter().any(|l| l.contains("panic"));
                if fired > 0 && !panics && !e.contains("boom-feed") {
                    return viol("error-text", format!("{}: {e}", what()));
                }
                "error"
            }
            Ok(Outcome::Rows(rows)) => {
                if fired > 0 {
                    return viol("swallowed", format!("{}: a provider failed but the query ended normally with {} rows", what(), rows.iter().map(|b| b.num_rows()).sum::<usize>()));
                }
                for (n, c) in [("f", &f.0), ("g", &g.0)] {
                    verify(n, c, true).map_err(|v| Viol { msg: format!("{}: {}", what(), v.msg), ..v })?;
                }
                // The answer over what the consumers took.
                let one = SessionContext::new_with_config(cfg(1));
                for n in ["t", "u", "m"] {
                    one.register_table(n, w.one.table_provider(n).await.unwrap()).unwrap();
                }
                for (n, c) in [("f", &f.0), ("g", &g.0)] {
                    let units: Vec<Kv> = {
                        let l = c.log.lock().unwrap();
                        if l.sent.values().all(|s| s.1 == 1) {
                            l.got.values().flat_map(|x| x.units.iter().map(|u| u.row())).collect()
                        } else {
                            // Every scan has the same units.
                            let all: std::collections::BTreeSet<Kv> = l.sent.values().flat_map(|x| x.2.iter().map(|u| u.row())).collect();
                            all.into_iter().collect()
                        }
                    };
                    one.register_table(n, Arc::new(MemTable::try_new(kv_schema(), vec![vec![kv_batch(&units)]]).unwrap())).unwrap();
                }
                let exp = df_err(async { one.sql(q.1).await?.collect().await }.await, "single-node")?;
                let multi = [&f.0, &g.0].iter().any(|c| c.log.lock().unwrap().sent.values().any(|s| s.1 > 1));
                if !(multi && mode == Mode::Stop) && canon("", &rows) != canon("", &exp) {
                    return viol("wrong-rows", format!("{}: {:?}, expected {:?}", what(), canon("", &rows), canon("", &exp)));
                }
                "rows"
            }
        };
        let mut n = 0;
        for (name, c) in [("f", &f.0), ("g", &g.0)] {
            n += verify(name, c, false).map_err(|v| Viol { msg: format!("{}: {}", what(), v.msg), ..v })?;
        }
        let log = w.cluster.net.log();
        let st = |c: &Ctl| h64(&format!("{:?}", c.log.lock().unwrap().got));
        Ok(Obs { outcome: format!("{outcome} {n}"), nontrivial: n > 0 && log.iter().any(|e| e.kind == Kind::C2W && !e.end), steps: log.len() as u64, states: vec![st(&f.0), st(&g.0)] })
    })
}

/// What the coordinator does to one worker, step by step.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Act {
    /// Send a unit of feed (0 or 1) to a partition.
    Unit(usize, usize),
    /// Units of several feeds and partitions in one message.
    Batch,
    /// A unit of a feed that was not declared.
    Unknown,
    /// A unit of a partition that was not declared.
    Range,
    /// A unit whose bytes cannot be decoded.
    Garbled(usize, usize),
    Eos,
    /// The reader asks for the partitions.
    Read,
    /// The reader drops one partition.
    Drop(usize),
}

const ACTS: [Act; 11] = [
    Act::Unit(0, 0),
    Act::Unit(0, 1),
    Act::Unit(1, 0),
    Act::Unit(1, 1),
    Act::Batch,
    Act::Unknown,
    Act::Range,
    Act::Garbled(0, 1),
    Act::Eos,
    Act::Read,
    Act::Drop(0),
];

/// Reads what there is to read, until nothing moves any more.
async fn settle(r: &mut [Option<rt::Reader<datafusion::common::Result<datafusion::arrow::array::RecordBatch>>>]) {
    loop {
        rt::quiesce().await;
        if !r.iter().flatten().any(|r| r.runnable()) {
            return;
        }
        r.iter_mut().flatten().for_each(|r| drop(r.drain_ready()));
    }
}

fn raw(tr: Transport, skew: i64, depth: usize, ch: &Ch) -> RunResult {
    use datafusion::physical_plan::union::UnionExec;
    use futures::StreamExt;
    rt::sim(async {
        let hook: StateHook = Arc::new(|b: SessionStateBuilder, _: &http::HeaderMap| Ok(b.with_distributed_user_codec(FeedCodec)));
        let cluster = Cluster::with(1, tr, Some(hook), pool_env);
        let ctx = cluster.session(cfg(2), |b| b.with_distributed_user_codec(FeedCodec));
        let srcs: Vec<FeedHandle> = (0..2).map(|_| feed_source(1, |_, _| vec![], None)).collect();
        let feeds: Vec<WorkUnitFeed<Provider>> = srcs.iter().map(|s| WorkUnitFeed::new(Provider(Some(s.0.clone())))).collect();
        let ids: Vec<uuid::Uuid> = feeds.iter().map(|f| uuid::Uuid::from_slice(&f.to_proto().id).unwrap()).collect();
        let leaf = |i: usize| Arc::new(FeedExec::new(srcs[i].0.clone(), 2, feeds[i].clone(), None)) as Arc<dyn datafusion::physical_plan::ExecutionPlan>;
        let plan = df_err(UnionExec::try_new(vec![leaf(0), leaf(1)]), "plan")?;
        let url = cluster.urls[0].clone();
        let mut c = df_err(cluster.net.raw_channel(&url), "channel")?;
        let key = TaskKey { query_id: uuid::Uuid::from_u128(5), stage_id: 1, task_number: 0 };
        // As the coordinator does: the worker decodes its own copy of the plan.
        let plan = MaybeEncoded::Encoded(df_err(MaybeEncoded::Decoded(plan).encode(&ctx.task_ctx()), "encode")?);
        let req = SetPlanRequest {
            task_key: key,
            task_count: 1,
            plan,
            work_unit_feed_declarations: ids.iter().map(|id| WorkUnitFeedDeclaration { id: *id, partitions: 2 }).collect(),
            target_worker_url: url,
            query_start_time_ns: 1,
        };
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        let rx = tokio_stream::wrappers::UnboundedReceiverStream::new(rx).boxed();
        let _w2c = df_err(c.coordinator_channel(http::HeaderMap::new(), req, rx, Default::default(), &ctx.task_ctx()).await, "set-plan")?;
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as i64;
        let unit = |f: usize, p: usize, n: usize| Unit::new(10 * f + p, n);
        let msg = |id: uuid::Uuid, p: usize, body: MaybeEncoded<Box<dyn WorkUnit>>| WorkUnitMsg {
            id,
            partition: p,
            body,
            created_timestamp_unix_nanos: (now + skew) as usize,
            sent_timestamp_unix_nanos: (now + skew) as usize,
            received_timestamp_unix_nanos: 0,
            processed_timestamp_unix_nanos: 0,
        };
        let body = |u: Unit| -> MaybeEncoded<Box<dyn WorkUnit>> {
            match tr {
                Transport::Direct => MaybeEncoded::Decoded(Box::new(u)),
                Transport::Grpc => MaybeEncoded::Encoded(u.encode_to_bytes()),
            }
        };
        let send = |v: Vec<WorkUnitMsg>| drop(tx.send(CoordinatorToWorkerMsg::WorkUnitBatch(WorkUnitBatch { batch: v })));
        // The model: what each partition is to receive; None: a unit that cannot be decoded.
        let mut want: Vec<Vec<Option<Unit>>> = vec![vec![]; 4];
        let open = std::cell::Cell::new(true);
        let mut reading: Option<Vec<Option<rt::Reader<datafusion::common::Result<datafusion::arrow::array::RecordBatch>>>>> = None;
        let mut dropped = [false; 4];
        let spread = tr == Transport::Grpc;
        let mut acts = vec![];
        for i in 0..depth {
            let a = ACTS[choose(ch, ACTS.len(), |x| format!("{:?}", ACTS[x]))];
            acts.push(a);
            let push = |want: &mut Vec<Vec<Option<Unit>>>, f: usize, p: usize, u: Option<Unit>| {
                if open.get() {
                    want[2 * f + p].push(u);
                }
            };
            match a {
                Act::Unit(f, p) => {
                    send(vec![msg(ids[f], p, body(unit(f, p, i)))]);
                    push(&mut want, f, p, Some(unit(f, p, i)));
                }
                Act::Batch => {
                    let v = [(0, 0, 50), (1, 1, 51), (0, 0, 52)];
                    send(v.iter().map(|(f, p, n)| msg(ids[*f], *p, body(unit(*f, *p, n + 3 * i)))).collect());
                    v.iter().for_each(|(f, p, n)| push(&mut want, *f, *p, Some(unit(*f, *p, n + 3 * i))));
                }
                Act::Unknown => send(vec![msg(uuid::Uuid::from_u128(77), 0, body(unit(0, 0, 90))), msg(ids[0], 1, body(unit(0, 1, i)))]),
                Act::Range => send(vec![msg(ids[1], 2, body(unit(1, 2, 90))), msg(ids[0], 1, body(unit(0, 1, i)))]),
                Act::Garbled(f, p) => {
                    send(vec![msg(ids[f], p, MaybeEncoded::Encoded(vec![0xff; 3]))]);
                    push(&mut want, f, p, None);
                }
                Act::Eos => {
                    let _ = tx.send(CoordinatorToWorkerMsg::WorkUnitEos);
                    open.set(false);
                }
                Act::Read => {
                    if reading.is_none() {
                        let req = ExecuteTaskRequest { task_key: key, target_partition_start: 0, target_partition_end: 4, producer_head: ProducerHead::None };
                        let sts = df_err(c.execute_task(http::HeaderMap::new(), req, Default::default(), &ctx.task_ctx()).await, "execute")?;
                        reading = Some(sts.into_iter().map(|s| Some(rt::Reader::new(s))).collect());
                    }
                }
                Act::Drop(p) => {
                    if let Some(r) = &mut reading {
                        r[p] = None;
                        dropped[p] = true;
                    }
                }
            }
            if matches!(a, Act::Unknown | Act::Range) {
                push(&mut want, 0, 1, Some(unit(0, 1, i)));
            }
            rt::quiesce().await;
            // Whatever was sent has arrived, without waiting for anything else.
            if let Some(r) = &mut reading {
                settle(r).await;
                for (p, r) in r.iter().enumerate() {
                    let Some(r) = r else { continue };
                    let n = want[p].iter().take_while(|u| u.is_some()).count();
                    let g: usize = r.got.iter().flatten().map(|b| b.num_rows()).sum();
                    // Over gRPC one partition's error ends its siblings of the same request.
                    if g != n && !(spread && want.iter().flatten().any(|u| u.is_none())) {
                        return viol("late", format!("after {acts:?} partition {p} has {g} of {n} units"));
                    }
                }
            }
        }
        if open.get() {
            let _ = tx.send(CoordinatorToWorkerMsg::WorkUnitEos);
        }
        if reading.is_none() {
            let req = ExecuteTaskRequest { task_key: key, target_partition_start: 0, target_partition_end: 4, producer_head: ProducerHead::None };
            let sts = df_err(c.execute_task(http::HeaderMap::new(), req, Default::default(), &ctx.task_ctx()).await, "execute")?;
            reading = Some(sts.into_iter().map(|s| Some(rt::Reader::new(s))).collect());
        }
        let mut reading = reading.unwrap();
        settle(&mut reading).await;
        for (p, r) in reading.iter().enumerate() {
            let Some(r) = r else { continue };
            let rows: Vec<std::result::Result<Kv, String>> = r
                .got
                .iter()
                .flat_map(|b| match b {
                    Ok(b) => kv_rows(b).into_iter().map(Ok).collect(),
                    Err(e) => vec![Err(e.to_string())],
                })
                .collect();
            let bad = want[p].iter().position(|u| u.is_none());
            let exp: Vec<Kv> = want[p].iter().map_while(|u| u.as_ref()).map(Unit::row).collect();
            let good: Vec<Kv> = rows.iter().filter_map(|x| x.as_ref().ok()).copied().collect();
            if spread && bad.is_none() && want.iter().flatten().any(|u| u.is_none()) {
                let failed = rows.iter().position(|x| x.is_err());
                if !r.ended || !exp.starts_with(&good) || (failed.is_none() && good != exp) || failed.is_some_and(|i| i != rows.len() - 1) {
                    return viol("raw-siblings", format!("{acts:?}: partition {p} received {rows:?} (ended: {}), expected {exp:?} or a part of it and an error", r.ended));
                }
                continue;
            }
            if good != exp || rows.iter().any(|x| x.is_err()) != bad.is_some() || !r.ended {
                return viol("raw-units", format!("{acts:?}: partition {p} received {rows:?} (ended: {}), expected {exp:?}{}", r.ended, if bad.is_some() { " and an error" } else { "" }));
            }
        }
        Ok(Obs { outcome: format!("{:?}", want.iter().map(|w| w.len()).collect::<Vec<_>>()), nontrivial: want.iter().any(|w| !w.is_empty()), steps: depth as u64, states: vec![h64(&format!("{want:?}{dropped:?}"))] })
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let shapes = [
        Feeds { f: 3, g: 2, sizes: &[2, 0, 3, 1], variants: 0 },
        Feeds { f: 2, g: 1, sizes: &[1, 3], variants: 0 },
        Feeds { f: 1, g: 3, sizes: &[2], variants: 0 },
        Feeds { f: 2, g: 2, sizes: &[0], variants: 0 },
    ];
    for tr in [Transport::Direct, Transport::Grpc] {
        let d = if thorough { 5 } else { 3 };
        for (name, skew) in [("same", 0), ("ahead", 3_600_000_000_000), ("behind", -3_600_000_000_000)] {
            v.push(case(format!("Raw/{tr:?}/clock-{name}/d{d}"), d, move |ch| raw(tr, skew, d, ch)));
        }
    }
    let mut k = 0;
    for dynamic in [false, true] {
        for (tr, local, workers) in [(Transport::Direct, false, 3), (Transport::Grpc, false, 3), (Transport::Direct, true, 2)] {
            let o = Setup { dynamic, tr, local, workers, max_tasks: 4, ..SETUP };
            for q in FQ {
                for (i, fs) in shapes.into_iter().enumerate() {
                    for mode in [Mode::Late, Mode::Fail, Mode::Stop, Mode::Lost, Mode::Cross] {
                        if mode == Mode::Cross && !matches!(q.0, "gather" | "project" | "group" | "total") {
                            continue;
                        }
                        k += 1;
                        if !thorough && k % 4 != 0 && i > 0 {
                            continue;
                        }
                        // A join may read one side before the other.
                        if mode == Mode::Stop && q.0 == "self" {
                            continue;
                        }
                        let b = if thorough { 2 } else { 1 };
                        v.push(case(format!("{mode:?}/{}/f{}g{}n{:?}/{}/b{b}", q.0, fs.f, fs.g, fs.sizes, o.short()), b, move |ch| one(o, fs, q, mode, ch)));
                    }
                }
                for style in [1, 2] {
                    for mode in [Mode::Late, Mode::Fail] {
                        let fs = Feeds { variants: style, ..shapes[(style + q.0.len() as u8) as usize % 2] };
                        v.push(case(format!("Variants{style}/{mode:?}/{}/f{}g{}n{:?}/{}/b1", q.0, fs.f, fs.g, fs.sizes, o.short()), 1, move |ch| one(o, fs, q, mode, ch)));
                    }
                }
                // Around the number of units that travel together.
                if matches!(q.0, "gather" | "union") {
                    const BIG: &[&[usize]] = &[&[255, 256], &[257, 1], &[512, 513, 0]];
                    for sizes in BIG {
                        let fs = Feeds { f: 2, g: 2, sizes, variants: 0 };
                        v.push(case(format!("Lost/{}/big{sizes:?}/{}/b1", q.0, o.short()), 1, move |ch| one(o, fs, q, Mode::Lost, ch)));
                    }
                }
            }
        }
    }
    v
}
