//! A small cluster with scripted tables and a set of multi-stage queries over them.
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::vexec::*;
use crate::vtable::*;
use datafusion::execution::SessionStateBuilder;
use datafusion::execution::memory_pool::UnboundedMemoryPool;
use datafusion::execution::runtime_env::{RuntimeEnv, RuntimeEnvBuilder};
use datafusion::prelude::SessionContext;
use datafusion_distributed::*;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

pub fn pool_env() -> Arc<RuntimeEnv> {
    RuntimeEnvBuilder::new().with_memory_pool(Arc::new(UnboundedMemoryPool::default())).build_arc().unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Setup {
    pub workers: usize,
    pub tp: usize,
    pub parts: usize,
    /// Rows per batch of the leaves.
    pub batch: usize,
    pub dynamic: bool,
    pub broadcast: bool,
    pub metrics: bool,
    pub tr: Transport,
    /// The client shares its process with the first worker.
    pub local: bool,
    /// 0: as many as there are workers.
    pub max_tasks: usize,
    /// Task i is routed to worker i (otherwise nothing is routed by the world).
    pub route: bool,
}

pub const SETUP: Setup =
    Setup { workers: 3, tp: 2, parts: 2, batch: 2, dynamic: false, broadcast: true, metrics: true, tr: Transport::Direct, local: false, max_tasks: 0, route: true };

impl Setup {
    pub fn short(&self) -> String {
        let f = |b: bool, s: &str| if b { s.to_string() } else { String::new() };
        format!(
            "{:?}/w{}tp{}p{}b{}{}{}{}{}{}",
            self.tr,
            self.workers,
            self.tp,
            self.parts,
            self.batch,
            f(self.dynamic, "-dyn"),
            f(!self.broadcast, "-nobc"),
            f(!self.metrics, "-nometrics"),
            f(self.local, "-local"),
            if self.max_tasks > 0 { format!("-max{}", self.max_tasks) } else { String::new() }
        )
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Flt {
    Err(usize),
    Panic(usize),
    /// Nothing for a second, then the n-th item.
    Wait(usize),
    /// Nothing for a second before every item and the end.
    Slow,
    /// The n-th item never comes.
    Hang(usize),
    OpenErr,
    OpenPanic,
}

/// Decides the fault of a leaf stream: (table, slot) -> fault.
pub type LeafFault = Arc<dyn Fn(&str, Slot, usize) -> Option<Flt> + Send + Sync>;

pub struct World {
    pub cluster: Arc<Cluster>,
    pub ctx: SessionContext,
    /// A single-node session over the same leaves.
    pub one: SessionContext,
    pub tables: Vec<(&'static str, SrcHandle)>,
    /// Leaf faults that were really met.
    pub fired: Arc<AtomicUsize>,
}

/// (name, rows, parts (0 = as set up), task count tag)
fn tables() -> Vec<(&'static str, Vec<Kv>, usize, &'static str)> {
    vec![
        ("t", (0..12).map(|i| ((i != 5).then_some(i % 4), i)).collect(), 0, "d3"),
        ("u", (0..6).map(|i| (Some(i % 3), 100 + i)).collect(), 0, "d2"),
        ("m", (0..3).map(|i| (Some(i), 200 + i)).collect(), 1, "m1"),
        ("e", vec![], 0, "d2"),
    ]
}

pub fn world(o: Setup, fault: Option<LeafFault>, f: impl FnOnce(SessionStateBuilder) -> SessionStateBuilder) -> World {
    world_with(o, fault, None, f)
}

pub fn world_with(
    o: Setup,
    fault: Option<LeafFault>,
    hook: Option<StateHook>,
    f: impl FnOnce(SessionStateBuilder) -> SessionStateBuilder,
) -> World {
    world_on(Arc::new(Cluster::with(o.workers, o.tr, hook, pool_env)), o, fault, 0, f)
}

/// Another client (with tables of its own, whose values are shifted) of a cluster.
pub fn world_on(
    cluster: Arc<Cluster>,
    o: Setup,
    fault: Option<LeafFault>,
    shift: i64,
    f: impl FnOnce(SessionStateBuilder) -> SessionStateBuilder,
) -> World {
    let fired = Arc::new(AtomicUsize::new(0));
    let urls = cluster.urls.clone();
    let ctx = cluster.session(cfg(o.tp), |b| {
        let b = b
            .with_runtime_env(pool_env())
            .with_distributed_desired_task_count_handler(tag_task_counts)
            .with_distributed_dynamic_task_count(o.dynamic)
            .unwrap()
            .with_distributed_broadcast_joins(o.broadcast)
            .unwrap()
            .with_distributed_metrics_collection(o.metrics)
            .unwrap()
            .with_distributed_max_tasks_per_stage(o.max_tasks)
            .unwrap();
        let b = match o.route {
            true => b.with_distributed_route_tasks_handler(fixed_routing(urls)),
            false => b,
        };
        let b = match o.local {
            true => b.with_distributed_local_worker_context(cluster.local_worker()),
            false => b,
        };
        f(b)
    });
    let one = SessionContext::new_with_config(cfg(o.tp));
    let mut srcs = vec![];
    for (name, rows, parts, tag) in tables() {
        let parts = if parts == 0 { o.parts } else { parts };
        let rows: Vec<Kv> = rows.into_iter().map(|(k, v)| (k, v + shift)).collect();
        let mk = |fault: Option<LeafFault>| {
            let rows = rows.clone();
            SrcBuilder::new(kv_schema(), move |s| {
                let mine: Vec<Kv> =
                    rows.iter().enumerate().filter(|(i, _)| (i % s.tasks, (i / s.tasks) % s.parts) == (s.task, s.part)).map(|(_, r)| *r).collect();
                let mut items: Vec<Item> = mine.chunks(o.batch).map(|r| Item::Batch(kv_batch(r))).collect();
                let n = items.len();
                match fault.as_ref().and_then(|f| f(name, s, n)) {
                    None => {}
                    Some(Flt::Err(i)) => {
                        items.truncate(i);
                        items.push(Item::Err("boom-leaf".into()));
                    }
                    Some(Flt::Panic(i)) => {
                        items.truncate(i);
                        items.push(Item::Panic("boom-leaf".into()));
                    }
                    Some(Flt::Wait(i)) => items.insert(i.min(n), Item::Wait(1000)),
                    Some(Flt::Slow) => {
                        items = items.into_iter().flat_map(|i| [Item::Wait(1000), i]).chain([Item::Wait(1000)]).collect();
                    }
                    Some(Flt::Hang(i)) => {
                        items.truncate(i);
                        items.push(Item::Hang);
                    }
                    Some(Flt::OpenErr) => items = vec![Item::OpenErr("boom-leaf".into())],
                    Some(Flt::OpenPanic) => items = vec![Item::OpenPanic("boom-leaf".into())],
                }
                items
            })
        };
        let src = mk(fault.clone()).fired(fired.clone()).build();
        let clean = mk(None).build();
        ctx.register_table(name, Arc::new(VTable { src: src.0.clone(), parts, tag: tag.into() })).unwrap();
        one.register_table(name, Arc::new(VTable { src: clean.0.clone(), parts, tag: tag.into() })).unwrap();
        srcs.push((name, src));
        srcs.push(("", clean));
    }
    World { cluster, ctx, one, tables: srcs, fired }
}

impl World {
    /// Operator streams of the cluster's leaves that are still alive.
    pub fn live(&self) -> usize {
        self.tables.iter().map(|t| t.1.live()).sum()
    }
    pub fn reserved(&self) -> usize {
        self.ctx.runtime_env().memory_pool.reserved() + self.cluster.worker_env.iter().map(|e| e.memory_pool.reserved()).sum::<usize>()
    }
    pub fn fired(&self) -> usize {
        self.fired.load(SeqCst)
    }
    pub fn table(&self, name: &str) -> &SrcHandle {
        &self.tables.iter().find(|t| t.0 == name).unwrap().1
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cut {
    /// The result is determined.
    No,
    /// A limit decides freely which rows are returned.
    Free,
}

pub const QUERIES: [(&str, &str, Cut); 20] = [
    ("gather", "SELECT k, v FROM t", Cut::No),
    ("group", "SELECT k, count(*), sum(v) FROM t WHERE v < 11 GROUP BY k", Cut::No),
    ("total", "SELECT count(*), max(v) FROM t", Cut::No),
    ("sort", "SELECT v, k FROM t ORDER BY v DESC", Cut::No),
    ("join", "SELECT t.v, u.v FROM t JOIN u ON t.k = u.k", Cut::No),
    ("left", "SELECT t.v, u.v FROM t LEFT JOIN u ON t.k = u.k", Cut::No),
    ("full", "SELECT t.v, u.v FROM t FULL JOIN u ON t.k = u.k", Cut::No),
    ("small", "SELECT t.v, m.v FROM m JOIN t ON t.k = m.k", Cut::No),
    ("cross", "SELECT t.v, m.v FROM m CROSS JOIN t", Cut::No),
    ("nested", "SELECT t.v, u.v FROM u JOIN t ON t.v < u.v - 97", Cut::No),
    ("union", "SELECT v FROM t UNION ALL SELECT v FROM u UNION ALL SELECT v FROM m", Cut::No),
    ("distinct", "SELECT k, count(DISTINCT v) FROM t GROUP BY k", Cut::No),
    ("window", "SELECT v, row_number() OVER (PARTITION BY k ORDER BY v) FROM t", Cut::No),
    ("limit", "SELECT v FROM t LIMIT 3", Cut::Free),
    ("top", "SELECT v, k FROM t ORDER BY v LIMIT 3", Cut::No),
    ("empty", "SELECT t.v, e.v FROM t JOIN e ON t.k = e.k", Cut::No),
    ("semi", "SELECT v FROM t WHERE k IN (SELECT k FROM u WHERE v > 101)", Cut::No),
    ("joingroup", "SELECT t.k, sum(u.v) FROM t JOIN u ON t.k = u.k GROUP BY t.k ORDER BY 1", Cut::No),
    ("unionjoin", "SELECT a.k, count(*) FROM (SELECT k, v FROM t UNION ALL SELECT k, v FROM u) a JOIN m ON a.k = m.k GROUP BY a.k", Cut::No),
    ("limits", "SELECT count(*) FROM (SELECT v FROM t LIMIT 5) a CROSS JOIN m", Cut::No),
];

pub fn faults(n: usize) -> Vec<Flt> {
    let mut v: Vec<Flt> = (0..=n).map(Flt::Err).collect();
    v.extend((0..=n).map(Flt::Panic));
    v.push(Flt::OpenErr);
    v.push(Flt::OpenPanic);
    v
}

/// The explorer decides about every leaf stream as it is opened.
pub fn chosen_faults(ch: &Ch) -> LeafFault {
    let ch = ch.clone();
    Arc::new(move |name, s, n| {
        let fs = faults(n);
        let c = choose(&ch, 1 + fs.len(), |c| {
            if c == 0 { format!("{name} t{}p{} ok", s.task, s.part) } else { format!("{name} t{}p{} {:?}", s.task, s.part, fs[c - 1]) }
        });
        (c > 0).then(|| fs[c - 1])
    })
}

/// The explorer decides at which item a leaf stream stalls for ever, as long as `armed`.
pub fn chosen_stalls(ch: &Ch, armed: Arc<AtomicBool>) -> LeafFault {
    let ch = ch.clone();
    Arc::new(move |name, s, n| {
        if !armed.load(SeqCst) {
            return None;
        }
        let c = choose(&ch, n + 2, |c| if c == 0 { format!("{name} t{}p{} ok", s.task, s.part) } else { format!("{name} t{}p{} stalls at {}", s.task, s.part, c - 1) });
        (c > 0).then(|| Flt::Hang(c - 1))
    })
}

/// What may go wrong in an execution; the explorer decides where.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    /// An item or the opening of a leaf stream fails or panics.
    Leaf,
    /// One message between client and workers, or between workers, is not delivered.
    Msg,
    /// A worker disappears at some message.
    Crash,
    /// A piece of a gRPC response is lost together with its connection.
    Frame,
    /// A worker cannot build the session of a task.
    Session,
}

pub const FAULTS: [Fault; 6] = [Fault::None, Fault::Leaf, Fault::Msg, Fault::Crash, Fault::Frame, Fault::Session];

/// A world in which one kind of fault may happen; the counter tells how many were injected
/// (leaf faults are counted by [World::fired]).
pub fn faulty_world(o: Setup, fault: Fault, ch: &Ch, f: impl FnOnce(SessionStateBuilder) -> SessionStateBuilder) -> (World, Arc<AtomicUsize>) {
    let hit = Arc::new(AtomicUsize::new(0));
    let hook: Option<StateHook> = (fault == Fault::Session).then(|| {
        let (ch, hit) = (ch.clone(), hit.clone());
        Arc::new(move |b: SessionStateBuilder, _: &http::HeaderMap| {
            if choose(&ch, 2, |c| format!("session {}", if c == 0 { "ok" } else { "fails" })) == 1 {
                hit.fetch_add(1, SeqCst);
                return Err(datafusion::common::exec_datafusion_err!("boom-session"));
            }
            Ok(b)
        }) as StateHook
    });
    let w = world_with(o, (fault == Fault::Leaf).then(|| chosen_faults(ch)), hook, f);
    let (c, h, net) = (ch.clone(), hit.clone(), w.cluster.net.clone());
    match fault {
        Fault::Msg => w.cluster.net.set_policy(move |ev: &Ev| {
            if choose(&c, 2, |x| format!("{}:{}", ev.short(), if x == 0 { "go" } else { "lost" })) == 0 {
                return Decision::Go;
            }
            h.fetch_add(1, SeqCst);
            Decision::Fail(format!("boom-net {}", ev.short()))
        }),
        Fault::Crash => {
            let weak = Arc::downgrade(&net.0);
            w.cluster.net.set_policy(move |ev: &Ev| {
                let net = Net(weak.upgrade().unwrap());
                if net.is_dead(&ev.url) {
                    return Decision::Go;
                }
                if choose(&c, 2, |x| format!("{}:{}", ev.short(), if x == 0 { "go" } else { "crash" })) == 1 {
                    h.fetch_add(1, SeqCst);
                    net.kill(&ev.url);
                }
                Decision::Go
            })
        }
        Fault::Frame => w.cluster.net.set_frames(move |path, n| {
            if choose(&c, 2, |x| format!("{}#{n}:{}", path.rsplit('/').next().unwrap(), if x == 0 { "go" } else { "lost" })) == 0 {
                return Frame::Go;
            }
            h.fetch_add(1, SeqCst);
            Frame::Err
        }),
        _ => {}
    }
    (w, hit)
}

/// The rows of a query as text: sorted unless the query orders all of them.
pub fn canon(name: &str, bs: &[datafusion::arrow::array::RecordBatch]) -> Vec<String> {
    let mut r = crate::checks::c06::rows_text(bs);
    if !matches!(name, "sort" | "top" | "joingroup") {
        r.sort();
    }
    r
}

static TRUTH: std::sync::LazyLock<std::sync::Mutex<std::collections::HashMap<&'static str, Arc<Vec<String>>>>> =
    std::sync::LazyLock::new(Default::default);

/// What a single node answers.
pub async fn truth(w: &World, q: (&'static str, &'static str, Cut)) -> std::result::Result<Arc<Vec<String>>, Viol> {
    if let Some(t) = TRUTH.lock().unwrap().get(q.0) {
        return Ok(t.clone());
    }
    let bs = df_err(async { w.one.sql(q.1).await?.collect().await }.await, "single-node")?;
    let t = Arc::new(canon(q.0, &bs));
    TRUTH.lock().unwrap().insert(q.0, t.clone());
    Ok(t)
}

/// Are these rows an answer of the query?
pub fn answers(q: (&'static str, &'static str, Cut), got: &[datafusion::arrow::array::RecordBatch], truth: &[String]) -> bool {
    match q.2 {
        Cut::No => canon(q.0, got) == truth,
        Cut::Free => got.iter().map(|b| b.num_rows()).sum::<usize>() == truth.len(),
    }
}
