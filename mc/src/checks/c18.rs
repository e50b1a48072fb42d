//! C18: adaptive planning never alters the data and always finishes.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::scen::*;
use crate::vexec::*;
use datafusion::common::stats::Precision;
use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
use datafusion::physical_plan::ExecutionPlan;
use datafusion_distributed::*;
use futures::{FutureExt, StreamExt};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn check() -> Check {
    Check {
        id: "C18",
        level: "model_checking",
        rule: "case = (query, cluster, byte budget per partition, mode). Slow: every leaf stream may pause before any of its items; Late: every worker-to-coordinator message and plan delivery may be late; Lie: every load report may be replaced by any of a menu of reports; Stats: as Slow, and leaves announce one of a menu of row counts; Raw: all sequences of (leaf item arrives, partition is read, partition is dropped) around a real sampler of a real worker, compared with a model; up to `b` deviations (Raw: all sequences). Non-trivial = a stage was sampled",
        assumptions: &["a report with a wrong number of columns may make the query fail, any other must not", "bounds: see case ids"],
        cases,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Slow,
    Late,
    Lie,
    /// As [Mode::Slow], and the announced rows of all tables.
    Stats(Option<usize>),
}

/// The last one is not a report that a worker of the same version can send.
const LIES: [&str; 12] =
    ["truth", "nothing", "empty-eos", "no-progress", "huge-rows", "huge-bytes", "huge-both", "nan", "negative", "drop", "twice", "columns"];

fn lie(kind: &str, mut l: LoadInfo) -> Vec<LoadInfo> {
    let n = l.per_column_bytes_ready.len();
    match kind {
        "nothing" => {
            l.rows_ready = 0;
            l.per_column_bytes_ready = vec![0; n];
            l.reached_eos = false;
            l.rows_pulled_from_leaf = 0;
        }
        "empty-eos" => {
            l.rows_ready = 0;
            l.per_column_bytes_ready = vec![0; n];
            l.reached_eos = true;
        }
        "no-progress" => {
            l.reached_eos = false;
            l.rows_pulled_from_leaf = 0;
        }
        "huge-rows" => {
            l.rows_ready = 1 << 50;
            l.reached_eos = false;
        }
        "huge-bytes" => {
            l.per_column_bytes_ready = vec![1 << 50; n];
            l.reached_eos = true;
        }
        "huge-both" => {
            l.rows_ready = 1 << 50;
            l.per_column_bytes_ready = vec![1 << 50; n];
            l.rows_pulled_from_leaf = 1;
            l.reached_eos = false;
        }
        "nan" => {
            l.per_column_ndv_percentage = vec![f32::NAN; n];
            l.per_column_null_percentage = vec![f32::INFINITY; n];
        }
        "negative" => {
            l.per_column_ndv_percentage = vec![-1.0; n];
            l.per_column_null_percentage = vec![-1.0; n];
        }
        "drop" => return vec![],
        "twice" => return vec![copy(&l), l],
        "columns" => l.per_column_bytes_ready.push(1),
        _ => {}
    }
    vec![l]
}

fn copy(l: &LoadInfo) -> LoadInfo {
    LoadInfo {
        partition: l.partition,
        rows_ready: l.rows_ready,
        per_column_bytes_ready: l.per_column_bytes_ready.clone(),
        per_column_ndv_percentage: l.per_column_ndv_percentage.clone(),
        per_column_null_percentage: l.per_column_null_percentage.clone(),
        rows_pulled_from_leaf: l.rows_pulled_from_leaf,
        reached_eos: l.reached_eos,
    }
}

#[derive(Default)]
struct Seen {
    /// (stage, task, partition) -> reports.
    reports: BTreeMap<(usize, usize, usize), usize>,
    /// (stage, task) -> ends of reports.
    ends: BTreeMap<(usize, usize), usize>,
    after_end: bool,
    lied: bool,
    mangled: bool,
}

fn one(o: Setup, q: (&'static str, &'static str, Cut), budget: usize, mode: Mode, ch: &Ch) -> RunResult {
    rt::sim(async {
        let c = ch.clone();
        let slow: LeafFault = Arc::new(move |t: &str, s: Slot, n: usize| {
            let k = choose(&c, n + 3, |k| match k {
                0 => format!("{t} {s:?}: ready"),
                _ if k == n + 2 => format!("{t} {s:?}: slow"),
                _ => format!("{t} {s:?}: waits before {}", k - 1),
            });
            match k {
                0 => None,
                _ if k == n + 2 => Some(Flt::Slow),
                _ => Some(Flt::Wait(k - 1)),
            }
        });
        let w = world_with(o, matches!(mode, Mode::Slow | Mode::Stats(_)).then_some(slow), None, |b| b.with_distributed_dynamic_bytes_per_partition(budget).unwrap());
        let exp = truth(&w, q).await?;
        if let Mode::Stats(n) = mode {
            for (_, t) in w.tables.iter().filter(|t| !t.0.is_empty()) {
                *t.announced.lock().unwrap() = n.map(Precision::Inexact);
            }
        }
        if mode == Mode::Late {
            w.cluster.net.set_policy(delays(ch, &[Kind::W2C, Kind::SetPlan, Kind::SetPlanReply], 1));
        }
        let seen = Arc::new(Mutex::new(Seen::default()));
        let (s2, c2) = (seen.clone(), ch.clone());
        *w.cluster.net.0.w2c.lock().unwrap() = Some(Arc::new(move |key: TaskKey, m: WorkerToCoordinatorMsg| match m {
            WorkerToCoordinatorMsg::LoadInfo(l) => {
                let mut s = s2.lock().unwrap();
                *s.reports.entry((key.stage_id, key.task_number, l.partition)).or_default() += 1;
                s.after_end |= s.ends.contains_key(&(key.stage_id, key.task_number));
                if mode != Mode::Lie {
                    return vec![WorkerToCoordinatorMsg::LoadInfo(l)];
                }
                let k = choose(&c2, LIES.len(), |k| format!("s{}t{}p{}: {}", key.stage_id, key.task_number, l.partition, LIES[k]));
                s.lied |= k > 0;
                s.mangled |= LIES[k] == "columns";
                lie(LIES[k], l).into_iter().map(WorkerToCoordinatorMsg::LoadInfo).collect()
            }
            WorkerToCoordinatorMsg::LoadInfoEos => {
                *s2.lock().unwrap().ends.entry((key.stage_id, key.task_number)).or_default() += 1;
                vec![m]
            }
            m => vec![m],
        }));
        let plan = df_err(async { w.ctx.sql(q.1).await?.create_physical_plan().await }.await, "plan")?;
        let t0 = tokio::time::Instant::now();
        let out = match AssertUnwindSafe(run_to_end(&w.ctx, plan)).catch_unwind().await {
            Ok(o) => o,
            Err(_) => return viol("panic", format!("{}: the client panicked: {}", q.1, take_last_panic().unwrap_or_default())),
        };
        let took = t0.elapsed();
        rt::quiesce().await;
        let s = seen.lock().unwrap();
        match out {
            Outcome::Hang(_) => return viol("hang", format!("{} did not end", q.1)),
            Outcome::Err(e, _) if s.mangled => drop(e),
            Outcome::Err(e, _) => return viol("error", format!("{} failed: {e}", q.1)),
            Outcome::Rows(got) if !answers(q, &got, &exp) => {
                return viol("wrong-rows", format!("{} answered {:?}, expected {exp:?}", q.1, canon(q.0, &got)));
            }
            Outcome::Rows(_) => {}
        }
        if took > Duration::from_secs(60) {
            return viol("slow", format!("{} took {took:?}", q.1));
        }
        if let Some(r) = s.reports.iter().find(|r| *r.1 > 1) {
            return viol("reported-twice", format!("{}: {r:?}", q.1));
        }
        if s.after_end || s.ends.values().any(|n| *n != 1) {
            return viol("report-end", format!("{}: ends of reports {:?}, reports after the end: {}", q.1, s.ends, s.after_end));
        }
        let tasks = stage_tasks(&w.cluster.net.log());
        let max = if o.max_tasks > 0 { o.max_tasks } else { o.workers };
        for (stage, t) in &tasks {
            if t.len() > max || *t != (0..t.len()).collect::<BTreeSet<_>>() {
                return viol("task-limit", format!("{}: stage {stage} has the tasks {t:?}, the limit is {max}", q.1));
            }
        }
        Ok(Obs {
            outcome: format!("{:?} {:?}", tasks.values().map(|t| t.len()).collect::<Vec<_>>(), s.mangled),
            nontrivial: !s.reports.is_empty(),
            steps: w.cluster.net.log().len() as u64,
            states: vec![h64(&format!("{:?}", s.reports))],
        })
    })
}

// ---------------------------------------------------------------- the sampler itself

/// Some sampler; its input is replaced.
async fn sampler(input: Arc<dyn ExecutionPlan>) -> std::result::Result<Arc<dyn ExecutionPlan>, Viol> {
    static TEMPLATE: Mutex<Option<Arc<dyn ExecutionPlan>>> = Mutex::new(None);
    let got = TEMPLATE.lock().unwrap().clone();
    let t = match got {
        Some(t) => t,
        None => {
            let w = world(Setup { dynamic: true, ..SETUP }, None, |b| b);
            *w.cluster.net.0.plans.lock().unwrap() = Some(Box::new(|_, p| {
                let _ = p.apply(|n| {
                    if n.name() == "SamplerExec" {
                        *TEMPLATE.lock().unwrap() = Some(n.clone());
                    }
                    Ok(TreeNodeRecursion::Continue)
                });
            }));
            let plan = df_err(async { w.ctx.sql("SELECT k, count(*) FROM t GROUP BY k").await?.create_physical_plan().await }.await, "plan")?;
            run_to_end(&w.ctx, plan).await;
            TEMPLATE.lock().unwrap().clone().ok_or_else(|| Viol { key: "no-sampler".into(), msg: "an adaptive plan has no sampler".into() })?
        }
    };
    df_err(t.with_new_children(vec![input]), "sampler")
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum It {
    Rows(usize),
    Err,
}

/// What the partitions of the leaf deliver.
const SCRIPTS: [[&[It]; 2]; 6] = [
    [&[It::Rows(2), It::Rows(1), It::Rows(3)], &[It::Rows(1), It::Rows(1)]],
    [&[], &[It::Rows(2), It::Rows(2)]],
    [&[It::Rows(0), It::Rows(2)], &[It::Rows(0)]],
    [&[It::Rows(1), It::Err], &[It::Rows(1), It::Rows(2)]],
    [&[It::Err], &[It::Rows(1)]],
    [&[It::Rows(700), It::Rows(700)], &[It::Rows(1), It::Rows(0), It::Rows(1)]],
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Arrive(usize),
    Read(usize),
    Drop(usize),
}
const ACTS: [Act; 5] = [Act::Arrive(0), Act::Arrive(1), Act::Read(0), Act::Read(1), Act::Drop(0)];

fn row(p: usize, i: usize, j: usize) -> Kv {
    let n = (1000 * (10 * p + i) + j) as i64;
    ((n % 3 != 0).then_some(n % 5), n)
}

/// Items as rows; None: the error.
fn rows_of(p: usize, its: &[It]) -> Vec<Option<Kv>> {
    let mut v = vec![];
    for (i, it) in its.iter().enumerate() {
        match it {
            It::Rows(n) => v.extend((0..*n).map(|j| Some(row(p, i, j)))),
            It::Err => v.push(None),
        }
    }
    v
}

fn raw(tr: Transport, script: [&'static [It]; 2], depth: usize, ch: &Ch) -> RunResult {
    type R = rt::Reader<datafusion::common::Result<datafusion::arrow::array::RecordBatch>>;
    rt::sim(async {
        let src = SrcBuilder::new(kv_schema(), move |s| {
            let mut v: Vec<Item> = vec![];
            for (i, it) in script[s.part].iter().enumerate() {
                v.push(match it {
                    It::Rows(n) => Item::Batch(kv_batch(&(0..*n).map(|j| row(s.part, i, j)).collect::<Vec<_>>())),
                    It::Err => Item::Err("boom-leaf".into()),
                });
            }
            v
        })
        .gated()
        .build();
        let cluster = Cluster::with(1, tr, None, pool_env);
        let ctx = cluster.session(cfg(2), |b| b);
        let plan = sampler(src.0.exec(2)).await?;
        let url = cluster.urls[0].clone();
        let mut c = df_err(cluster.net.raw_channel(&url), "channel")?;
        let key = TaskKey { query_id: uuid::Uuid::from_u128(5), stage_id: 1, task_number: 0 };
        let plan = MaybeEncoded::Encoded(df_err(MaybeEncoded::Decoded(plan).encode(&ctx.task_ctx()), "encode")?);
        // What there is before the plan arrives.
        let mut arrived = [0usize; 2];
        for p in 0..2 {
            let n = choose(ch, script[p].len() + 2, |n| format!("p{p}: {n} items are ready"));
            arrived[p] = n;
            (0..n).for_each(|_| src.gate().allow(0, p));
        }
        let req = SetPlanRequest { task_key: key, task_count: 1, plan, work_unit_feed_declarations: vec![], target_worker_url: url, query_start_time_ns: 1 };
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<CoordinatorToWorkerMsg>();
        let rx = tokio_stream::wrappers::UnboundedReceiverStream::new(rx).boxed();
        let mut hm = http::HeaderMap::new();
        hm.insert("x-datafusion-distributed-config-distributed.collect_metrics", "false".parse().unwrap());
        let w2c = df_err(c.coordinator_channel(hm, req, rx, Default::default(), &ctx.task_ctx()).await, "set-plan")?;
        let mut w2c = rt::Reader::new(w2c);
        // The model: the reports that must have arrived.
        let mut want: [Option<(usize, bool, bool)>; 2] = [None; 2];
        let mut omit = [false; 2];
        let mut readers: [Option<R>; 2] = [None, None];
        let mut dropped = [false; 2];
        let mut acts = vec![];
        let mut read = false;
        let total = |p: usize| script[p].len() + 1;
        let report = |p: usize, n: usize| {
            // (rows, end, error) of what was ready at once.
            let its = &script[p][..n.min(script[p].len())];
            let bad = its.contains(&It::Err);
            let rows = if bad { 0 } else { its.iter().map(|i| if let It::Rows(n) = i { *n } else { 0 }).sum() };
            (rows, n > script[p].len() && !bad, bad)
        };
        for step in 0..=depth {
            rt::quiesce().await;
            if step == 0 {
                for p in 0..2 {
                    if arrived[p] > 0 {
                        want[p] = Some(report(p, arrived[p]));
                    }
                }
            }
            settle(&mut readers).await;
            w2c.drain_ready();
            rt::quiesce().await;
            w2c.drain_ready();
            // Reports.
            let mut got: [Vec<&LoadInfo>; 2] = [vec![], vec![]];
            let mut ends = 0;
            for m in &w2c.got {
                match m {
                    Ok(WorkerToCoordinatorMsg::LoadInfo(l)) if l.partition < 2 && ends == 0 => got[l.partition].push(l),
                    Ok(WorkerToCoordinatorMsg::LoadInfo(l)) => return viol("report", format!("{acts:?}: a report of partition {}, {ends} ends before", l.partition)),
                    Ok(WorkerToCoordinatorMsg::LoadInfoEos) => ends += 1,
                    Ok(_) => {}
                    Err(e) => return viol("report-error", format!("{acts:?}: {e}")),
                }
            }
            for p in 0..2 {
                let exp = if omit[p] { None } else { want[p] };
                let g: Vec<(usize, bool)> = got[p].iter().map(|l| (l.rows_ready, l.reached_eos)).collect();
                let e: Vec<(usize, bool)> = exp.iter().map(|x| (x.0, x.1)).collect();
                if g != e {
                    return viol("report", format!("ready {arrived:?} of {script:?}, {acts:?}: reports of partition {p}: {g:?}, expected {e:?}"));
                }
                if let (Some(l), Some(x)) = (got[p].first(), exp)
                    && !x.2
                    && let Err(e) = figures(l, p, script[p], x.0)
                {
                    return viol("figures", format!("ready {arrived:?} of {script:?}, {acts:?}, partition {p}: {e}"));
                }
            }
            let all = (0..2).all(|p| want[p].is_some() || omit[p]);
            if ends != all as usize && !(read && ends <= 1) {
                return viol("report-end", format!("ready {arrived:?} of {script:?}, {acts:?}: {ends} ends of reports"));
            }
            // Rows.
            for p in 0..2 {
                let Some(r) = &readers[p] else { continue };
                let n = arrived[p].min(script[p].len());
                let fin = arrived[p] > script[p].len() || script[p][..n].contains(&It::Err);
                if let Err(e) = rows_match(r, &rows_of(p, &script[p][..n]), fin) {
                    return viol("rows", format!("ready {arrived:?} of {script:?}, {acts:?}, partition {p}: {e}"));
                }
            }
            if step == depth {
                break;
            }
            let can: Vec<Act> = ACTS
                .into_iter()
                .filter(|a| match a {
                    Act::Arrive(p) => arrived[*p] < total(*p),
                    Act::Read(p) => readers[*p].is_none() && !dropped[*p],
                    Act::Drop(p) => readers[*p].is_some(),
                })
                .collect();
            if can.is_empty() {
                break;
            }
            let a = can[choose(ch, can.len(), |x| format!("{:?}", can[x]))];
            acts.push(a);
            match a {
                Act::Arrive(p) => {
                    arrived[p] += 1;
                    src.gate().allow(0, p);
                    // The first thing that arrives is reported.
                    if want[p].is_none() && !omit[p] {
                        want[p] = Some(report(p, 1));
                    }
                }
                Act::Read(p) => {
                    let req = ExecuteTaskRequest { task_key: key, target_partition_start: p, target_partition_end: p + 1, producer_head: ProducerHead::None };
                    let sts = df_err(c.execute_task(http::HeaderMap::new(), req, Default::default(), &ctx.task_ctx()).await, "execute")?;
                    readers[p] = sts.into_iter().next().map(R::new);
                    // Once the stage is read nobody is interested in further reports.
                    read = true;
                    for p in 0..2 {
                        omit[p] |= want[p].is_none();
                    }
                }
                Act::Drop(p) => {
                    readers[p] = None;
                    dropped[p] = true;
                }
            }
        }
        // Everything arrives and is read.
        src.gate().allow_all();
        for p in 0..2 {
            if readers[p].is_none() && !dropped[p] {
                let req = ExecuteTaskRequest { task_key: key, target_partition_start: p, target_partition_end: p + 1, producer_head: ProducerHead::None };
                let sts = df_err(c.execute_task(http::HeaderMap::new(), req, Default::default(), &ctx.task_ctx()).await, "execute")?;
                readers[p] = sts.into_iter().next().map(R::new);
            }
        }
        settle(&mut readers).await;
        for p in 0..2 {
            let Some(r) = &readers[p] else { continue };
            if let Err(e) = rows_match(r, &rows_of(p, script[p]), true) {
                return viol("rows", format!("{script:?}, {acts:?}, partition {p} in the end: {e}"));
            }
        }
        drop(tx);
        w2c.drain_ready();
        for _ in 0..4 {
            rt::quiesce().await;
            w2c.drain_ready();
        }
        let ends = w2c.got.iter().filter(|m| matches!(m, Ok(WorkerToCoordinatorMsg::LoadInfoEos))).count();
        if ends != 1 || !w2c.ended {
            return viol("report-end", format!("{script:?}, {acts:?}: {ends} ends of reports in the end, stream ended: {}", w2c.ended));
        }
        readers = [None, None];
        drop(readers);
        rt::quiesce().await;
        let held = cluster.worker_env[0].memory_pool.reserved();
        if src.live() > 0 || held > 0 {
            return viol("leak", format!("{script:?}, {acts:?}: {} leaf streams are alive, {held} bytes reserved after the end", src.live()));
        }
        Ok(Obs { outcome: format!("{want:?} {omit:?}"), nontrivial: true, steps: acts.len() as u64, states: vec![h64(&format!("{arrived:?}{acts:?}"))] })
    })
}

/// Do the figures of a report describe the first `rows` rows of the partition?
fn figures(l: &LoadInfo, p: usize, its: &[It], rows: usize) -> Result<(), String> {
    let mut data: Vec<Kv> = rows_of(p, its).into_iter().map_while(|x| x).collect();
    data.truncate(rows);
    if l.per_column_bytes_ready.len() != 2 || l.per_column_ndv_percentage.len() != 2 || l.per_column_null_percentage.len() != 2 {
        return Err("wrong number of columns".into());
    }
    let nulls = data.iter().filter(|r| r.0.is_none()).count() as f32 / (rows.max(1)) as f32;
    let close = |a: f32, b: f32| (a - b).abs() < 1e-4;
    if !close(l.per_column_null_percentage[0], nulls) || l.per_column_null_percentage[1] != 0.0 {
        return Err(format!("null ratios {:?}, expected [{nulls}, 0]", l.per_column_null_percentage));
    }
    for (i, b) in l.per_column_bytes_ready.iter().enumerate() {
        if (rows == 0 && *b > 0) || (rows > 0 && (*b < 8 * rows || *b > 9 * rows + 64)) {
            return Err(format!("{b} bytes in column {i} for {rows} rows"));
        }
    }
    // Large samples are estimated from some of the rows.
    if rows <= 1000 {
        let d = |f: &dyn Fn(&Kv) -> Option<i64>| data.iter().filter_map(f).collect::<BTreeSet<i64>>().len() as f32 / rows.max(1) as f32;
        let exp = [d(&|r| r.0), d(&|r| Some(r.1))];
        if !close(l.per_column_ndv_percentage[0], exp[0]) || !close(l.per_column_ndv_percentage[1], exp[1]) {
            return Err(format!("distinct ratios {:?}, expected {exp:?}", l.per_column_ndv_percentage));
        }
    } else if l.per_column_ndv_percentage.iter().any(|x| !(0.0..=1.0).contains(x)) {
        return Err(format!("distinct ratios {:?}", l.per_column_ndv_percentage));
    }
    Ok(())
}

/// Are these the rows that the reader must have by now?
fn rows_match(r: &rt::Reader<datafusion::common::Result<datafusion::arrow::array::RecordBatch>>, exp: &[Option<Kv>], end: bool) -> Result<(), String> {
    let good: Vec<Kv> = r.got.iter().flatten().flat_map(kv_rows).collect();
    let failed = r.got.iter().any(|b| b.is_err());
    let want: Vec<Kv> = exp.iter().map_while(|x| *x).collect();
    let bad = exp.iter().any(|x| x.is_none());
    // An error may overtake rows that were sampled together with it.
    let ok = if bad { want.starts_with(&good) && failed } else { good == want && !failed };
    let ended = if bad { true } else { r.ended == end };
    let show = |v: &[Kv]| v.iter().take(8).map(|r| r.1).collect::<Vec<_>>();
    match ok && ended {
        true => Ok(()),
        false => Err(format!("{} rows {:?} (error: {failed}, ended: {}) arrived, expected {} rows {:?} (error: {bad}, end: {end})", good.len(), show(&good), r.ended, want.len(), show(&want))),
    }
}

async fn settle(r: &mut [Option<rt::Reader<datafusion::common::Result<datafusion::arrow::array::RecordBatch>>>]) {
    loop {
        rt::quiesce().await;
        if !r.iter().flatten().any(|r| r.runnable()) {
            return;
        }
        r.iter_mut().flatten().for_each(|r| drop(r.drain_ready()));
    }
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for tr in [Transport::Direct, Transport::Grpc] {
        for (i, s) in SCRIPTS.into_iter().enumerate() {
            let d = if thorough { 7 } else { 4 };
            v.push(case(format!("Raw/{tr:?}/script{i}/d{d}"), d + 2, move |ch| raw(tr, s, d, ch)));
        }
    }
    let stats = [None, Some(0), Some(1), Some(12), Some(1 << 33), Some(usize::MAX)];
    let mut k = 0;
    for (tr, workers, max_tasks, parts) in [(Transport::Direct, 3, 0, 2), (Transport::Direct, 2, 5, 1), (Transport::Grpc, 3, 2, 2)] {
        let o = Setup { dynamic: true, tr, workers, max_tasks, parts, ..SETUP };
        for q in QUERIES {
            for budget in [1, 200, 16 << 20] {
                let modes = [Mode::Slow, Mode::Late, Mode::Lie].into_iter().chain(stats.map(Mode::Stats));
                for mode in modes {
                    k += 1;
                    if !thorough && k % 4 != 0 {
                        continue;
                    }
                    let b = if thorough { 2 } else { 1 };
                    v.push(case(format!("{mode:?}/{}/budget{budget}/{}/b{b}", q.0, o.short()), b, move |ch| one(o, q, budget, mode, ch)));
                }
            }
        }
    }
    v
}
