//! C25: what workers report about themselves, and the connections to them, can be relied on.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::scen::*;
use datafusion::physical_plan::execute_stream;
use datafusion_distributed::grpc::*;
use datafusion_distributed::*;
use futures::{FutureExt, StreamExt};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use url::Url;

pub fn check() -> Check {
    Check {
        id: "C25",
        level: "model_checking",
        rule: "case = query and cluster, where every message is a point at which all workers are asked for their status and one message may be late or the query be dropped; or a prefix of operations (connect, call, two connects at once, an abandoned connect, worker down, worker up) on a worker behind a loopback socket, all continuations; non-trivial = a task was reported, or the worker went down",
        assumptions: &["bounds: see case ids", "connections: loopback TCP; five milliseconds suffice to notice a closed one"],
        cases,
    }
}

type Key = (usize, usize);

/// What a worker says about its tasks: (query, stage, task) with status and rows.
async fn progress(w: &Worker, urls: &[Url]) -> std::result::Result<Vec<(Vec<u8>, Key, i32, u64)>, Viol> {
    let mut c = ObservabilityServiceClient::new(w.with_observability_service(Arc::new(Urls(urls.to_vec()))));
    match c.get_task_progress(GetTaskProgressRequest {}).await {
        Err(e) => viol("status", format!("get_task_progress failed: {e}")),
        Ok(r) => Ok(r
            .into_inner()
            .tasks
            .into_iter()
            .map(|t| {
                let k = t.task_key.unwrap_or_default();
                (k.query_id, (k.stage_id as usize, k.task_number as usize), t.status, t.output_rows)
            })
            .collect()),
    }
}

#[derive(Default)]
struct Seen {
    viol: Option<Viol>,
    reported: usize,
    ids: BTreeSet<Vec<u8>>,
    rows: BTreeMap<Key, u64>,
    /// Tasks whose head operator counts the rows it emits.
    counting: BTreeSet<Key>,
}

fn delivered(log: &[Ev], k: Key) -> u64 {
    log.iter().filter(|e| e.kind == Kind::Batch && (e.stage, e.task) == k).map(|e| e.rows as u64).sum()
}

fn look(net: &Net, urls: &[Url], seen: &mut Seen, tr: Transport) -> std::result::Result<(), Viol> {
    let log = net.log();
    for u in urls {
        let Some(w) = net.worker(u) else { continue };
        let Some(tasks) = progress(&w, urls).now_or_never() else {
            return viol("status", format!("{u} does not answer at once"));
        };
        let mut keys = BTreeSet::new();
        for (id, k, status, rows) in tasks? {
            seen.reported += 1;
            seen.ids.insert(id);
            if !keys.insert(k) {
                return viol("twice", format!("{u} reports task {k:?} twice"));
            }
            if status != TaskStatus::Running as i32 {
                return viol("task-status", format!("{u} reports task {k:?} with status {status}"));
            }
            if std::env::var("MC_LOG").is_ok() {
                eprintln!("{u} {k:?} rows {rows} after {}", log.last().map(|e| e.short()).unwrap_or_default());
            }
            let before = seen.rows.insert(k, rows).unwrap_or(0);
            if rows < before {
                return viol("rows-shrink", format!("{u}: {rows} rows of task {k:?} after {before}"));
            }
            let out = delivered(&log, k);
            if rows < out && seen.counting.contains(&k) {
                return viol("rows", format!("{u}: {rows} rows of task {k:?} reported, {out} arrived already"));
            }
        }
        let mine = |e: &&Ev| e.url == *u && e.task != usize::MAX;
        let sent: BTreeSet<Key> = log.iter().filter(mine).filter(|e| e.kind == Kind::SetPlan).map(|e| (e.stage, e.task)).collect();
        if let Some(k) = keys.difference(&sent).next() {
            return viol("unknown-task", format!("{u} reports task {k:?}, which it was not given"));
        }
        let held: BTreeSet<Key> = log
            .iter()
            .filter(mine)
            .filter(|e| match e.kind {
                Kind::SetPlanReply => tr == Transport::Direct,
                Kind::W2C => !e.err && !e.end,
                Kind::Batch => !e.err,
                _ => false,
            })
            .map(|e| (e.stage, e.task))
            .collect();
        let ended: BTreeSet<Key> = log.iter().filter(mine).filter(|e| e.kind == Kind::C2W && e.end).map(|e| (e.stage, e.task)).collect();
        if let Some(k) = held.difference(&ended).find(|k| !keys.contains(k)) {
            return viol("missing-task", format!("{u} does not report task {k:?}, which it runs; reported: {keys:?}"));
        }
    }
    Ok(())
}

fn status(o: Setup, q: (&'static str, &'static str, Cut), ch: &Ch) -> RunResult {
    rt::sim(async {
        let w = world(o, None, |b| b);
        let exp = truth(&w, q).await?;
        let plan = df_err(async { w.ctx.sql(q.1).await?.create_physical_plan().await }.await, "plan")?;
        let seen: Arc<Mutex<Seen>> = Default::default();
        {
            let (ch, net, urls, seen) = (ch.clone(), w.cluster.net.clone(), w.cluster.urls.clone(), seen.clone());
            w.cluster.net.set_policy(move |ev: &Ev| {
                let mut s = seen.lock().unwrap();
                // What comes before the deviation is watched in the execution without one.
                let watch = {
                    let c = ch.lock().unwrap();
                    c.default_run() || c.deviated()
                };
                if watch
                    && s.viol.is_none()
                    && let Err(v) = look(&net, &urls, &mut s, o.tr)
                {
                    s.viol = Some(v);
                }
                match choose(&ch, 2, |c| format!("{}:{}", ev.short(), ["go", "late"][c])) {
                    0 => Decision::Go,
                    _ => Decision::Delay(Duration::from_secs(1)),
                }
            });
        }
        {
            let seen = seen.clone();
            *w.cluster.net.0.plans.lock().unwrap() = Some(Box::new(move |k: TaskKey, p| {
                if p.metrics().is_some() && !["RepartitionExec", "BroadcastExec"].contains(&p.name()) {
                    seen.lock().unwrap().counting.insert((k.stage_id, k.task_number));
                }
            }));
        }
        let mut st = df_err(execute_stream(plan, w.ctx.task_ctx()), "execute")?;
        let mut got = vec![];
        let mut dropped = false;
        loop {
            if choose(ch, 2, |c| if c == 0 { "read".into() } else { format!("drop after {}", got.len()) }) == 1 {
                dropped = true;
                break;
            }
            match rt::vtimeout(HORIZON_SECS, st.next()).await {
                Err(()) => return viol("hang", format!("{} hangs", q.1)),
                Ok(None) => break,
                Ok(Some(r)) => got.push(df_err(r, "query")?),
            }
        }
        drop(st);
        tokio::time::sleep(Duration::from_secs(30)).await;
        w.cluster.tasks_running().await;
        let mut seen = std::mem::take(&mut *seen.lock().unwrap());
        if let Some(v) = seen.viol.take() {
            return Err(v);
        }
        if seen.ids.len() > 1 {
            return viol("query-id", format!("tasks of one query are reported with ids {:?}", seen.ids));
        }
        if !dropped && !answers(q, &got, &exp) {
            return viol("answer", format!("{} answers {:?} instead of {exp:?} while being watched", q.1, canon(q.0, &got)));
        }
        for u in &w.cluster.urls {
            let worker = w.cluster.net.worker(u).unwrap();
            let left = progress(&worker, &w.cluster.urls).await?;
            let running = worker.tasks_running().await;
            if left.len() > running || (!dropped && !left.is_empty()) {
                return viol("stale", format!("{u} still reports {left:?} ({running} running)"));
            }
            let mut c = ObservabilityServiceClient::new(worker.with_observability_service(Arc::new(Urls(w.cluster.urls.clone()))));
            let said: Vec<String> = c.get_cluster_workers(GetClusterWorkersRequest {}).await.map(|r| r.into_inner().worker_urls).unwrap_or_default();
            let want: Vec<String> = w.cluster.urls.iter().map(|u| u.to_string()).collect();
            if said != want {
                return viol("workers", format!("{u} reports the workers {said:?}, its resolver {want:?}"));
            }
        }
        Ok(Obs {
            outcome: format!("{} {} {:?}", dropped, got.len(), seen.rows),
            nontrivial: seen.reported > 0,
            steps: w.cluster.net.log().len() as u64,
            ..Default::default()
        })
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Connect,
    Call,
    /// Two requests for a connection at the same time.
    Both,
    /// A request for a connection that is given up at once.
    Abandon,
    Down,
    Up,
}
const OPS: [Op; 6] = [Op::Connect, Op::Call, Op::Both, Op::Abandon, Op::Down, Op::Up];

/// A worker behind a loopback socket that can be shut down together with its connections.
struct Served {
    /// Dropping it ends the server and everything connected to it.
    _tasks: tokio::task::JoinSet<()>,
    accepted: Arc<AtomicUsize>,
}

async fn serve(addr: std::net::SocketAddr, version: String) -> std::result::Result<Served, Viol> {
    let listener = df_err(tokio::net::TcpListener::bind(addr).await.map_err(Into::into), "bind")?;
    let accepted: Arc<AtomicUsize> = Default::default();
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<std::io::Result<tokio::io::DuplexStream>>();
    let mut tasks = tokio::task::JoinSet::new();
    let worker = Worker::default().with_version(version);
    tasks.spawn(async move {
        let incoming = tokio_stream::wrappers::UnboundedReceiverStream::new(rx);
        let _ = tonic::transport::Server::builder().add_service(worker.into_worker_server()).serve_with_incoming(incoming).await;
    });
    let n = accepted.clone();
    tasks.spawn(async move {
        let mut pipes = tokio::task::JoinSet::new();
        while let Ok((mut tcp, _)) = listener.accept().await {
            n.fetch_add(1, SeqCst);
            let (mut a, b) = tokio::io::duplex(1 << 16);
            if tx.send(Ok(b)).is_err() {
                return;
            }
            pipes.spawn(async move {
                let _ = tokio::io::copy_bidirectional(&mut tcp, &mut a).await;
            });
        }
    });
    Ok(Served { _tasks: tasks, accepted })
}

const PATIENCE: Duration = Duration::from_secs(20);
const NOTICE: Duration = Duration::from_millis(5);

fn connections(prefix: &[Op], depth: usize, ch: &Ch) -> RunResult {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    // An address of its own for every execution, so that nobody else can take its port.
    let n = NEXT.fetch_add(1, SeqCst) % (250 * 250 * 250);
    let addr: std::net::SocketAddr = (std::net::Ipv4Addr::new(127, 1 + (n / 62500) as u8, 1 + (n / 250 % 250) as u8, 1 + (n % 250) as u8), 24680).into();
    let url = Url::parse(&format!("http://{addr}")).unwrap();
    rt::real(async {
        let resolver = DefaultChannelResolver::default();
        let mut server: Option<Served> = None;
        let mut version = 0;
        let (mut cached, mut downs) = (false, 0);
        // An abandoned attempt is under way, since this many changes of the worker.
        let mut pending: Option<usize> = None;
        let mut changes = 0;
        let mut hist: Vec<String> = vec![];
        for i in 0..depth {
            let op = match prefix.get(i) {
                Some(op) => *op,
                None => OPS[choose(ch, OPS.len(), |c| format!("{:?}", OPS[c]))],
            };
            let up = server.is_some();
            let mut said = String::new();
            let tell = |hist: &[String], what: String| -> RunResult {
                viol(format!("{op:?}"), format!("after {} {op:?} on a worker that is {}: {what}", hist.join(" "), if up { "up" } else { "down" }))
            };
            match op {
                Op::Up if up => {}
                Op::Up => {
                    version += 1;
                    changes += 1;
                    server = Some(serve(addr, format!("v{version}")).await?);
                }
                Op::Down => {
                    if server.take().is_some() {
                        downs += 1;
                        changes += 1;
                    }
                    tokio::time::sleep(NOTICE).await;
                }
                Op::Abandon => {
                    let mut f = Box::pin(resolver.get_channel(&url));
                    let first = futures::poll!(&mut f);
                    match first {
                        std::task::Poll::Pending => pending = pending.or(Some(changes)),
                        std::task::Poll::Ready(Ok(_)) => cached = true,
                        std::task::Poll::Ready(Err(_)) => pending = None,
                    }
                }
                Op::Connect | Op::Both | Op::Call => {
                    let get = async || tokio::time::timeout(PATIENCE, resolver.get_channel(&url)).await;
                    let rs = match op {
                        Op::Both => {
                            let (a, b) = futures::join!(get(), get());
                            vec![a, b]
                        }
                        _ => vec![get().await],
                    };
                    // Who joins an attempt under way shares its outcome.
                    let joined = pending.take().filter(|c| *c != changes).is_some() && !cached;
                    let mut ok = vec![];
                    for r in rs {
                        match r {
                            Err(_) => return tell(&hist, "no answer".into()),
                            Ok(Ok(c)) => {
                                if !up && !cached && !joined {
                                    return tell(&hist, "a connection to nobody".into());
                                }
                                ok.push(c);
                            }
                            Ok(Err(e)) => {
                                if (up || cached) && !joined {
                                    return tell(&hist, format!("no connection: {e}"));
                                }
                                if !e.to_string().contains(url.as_str()) {
                                    return tell(&hist, format!("the error does not name {url}: {e}"));
                                }
                                said = "refused".into();
                            }
                        }
                    }
                    cached |= !ok.is_empty();
                    if op == Op::Call
                        && let Some(c) = ok.pop()
                    {
                        let mut client = create_worker_client(c);
                        match tokio::time::timeout(PATIENCE, client.get_worker_info(GetWorkerInfoRequest {})).await {
                            Err(_) => return tell(&hist, "the call hangs".into()),
                            Ok(Ok(r)) if !up => return tell(&hist, format!("answers {:?}", r.version)),
                            Ok(Ok(r)) if r.version != format!("v{version}") => return tell(&hist, format!("answers {:?} instead of v{version}", r.version)),
                            Ok(Ok(r)) => said = r.version,
                            Ok(Err(e)) if up && !joined => return tell(&hist, format!("the call fails: {e}")),
                            Ok(Err(_)) => said = "unreachable".into(),
                        }
                    }
                }
            }
            if let Some(s) = &server
                && s.accepted.load(SeqCst) > 1
            {
                return tell(&hist, format!("{} connections to the same worker", s.accepted.load(SeqCst)));
            }
            hist.push(format!("{op:?}{}{said}", if said.is_empty() { "" } else { ":" }));
        }
        Ok(Obs { outcome: hist.join(" "), nontrivial: downs > 0, steps: depth as u64, ..Default::default() })
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for (i, q) in QUERIES.iter().enumerate() {
        for (j, (tr, dynamic)) in [(Transport::Direct, false), (Transport::Grpc, false), (Transport::Direct, true), (Transport::Grpc, true)].into_iter().enumerate() {
            if !thorough && (i + j) % 4 != 0 && (i + j) % 4 != 1 {
                continue;
            }
            let (o, q) = (Setup { tr, dynamic, ..SETUP }, *q);
            v.push(case(format!("Status/{}/{}/b1", q.0, o.short()), 1, move |ch| status(o, q, ch)));
        }
    }
    let depth = if thorough { 7 } else { 5 };
    for a in OPS {
        for b in OPS {
            let p = [a, b];
            v.push(case(format!("Connection/{a:?}-{b:?}/d{depth}"), depth, move |ch| connections(&p, depth, ch)));
        }
    }
    v
}
