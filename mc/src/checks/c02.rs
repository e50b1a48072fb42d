//! C02: a shuffle delivers each row exactly once, to the partition owning its key.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::vexec::*;
use crate::vtag::*;
use datafusion::common::{JoinType, NullEquality};
use datafusion::physical_expr::Partitioning;
use datafusion::physical_expr::expressions::Column;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::joins::{HashJoinExec, PartitionMode};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion_distributed::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C02",
        level: "model_checking",
        rule: "case = (producer tasks, consumer tasks, producer partitions, consumer partitions, key distribution, transport, explorer powers); each execution is one schedule of message delays, consumer openings and early consumer stops; non-trivial = rows reached at least two consumer partitions or two producers met in one",
        assumptions: &["delays are explored at message granularity on one thread with a virtual clock", "bounds: see case ids"],
        cases,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Keys {
    Distinct,
    Shared,
    Skew,
    Nulls,
    Empty,
}

/// Rows of one producer partition: the value identifies (task, partition, sequence).
pub fn rows(keys: Keys, task: usize, part: usize) -> Vec<Kv> {
    let n = match keys {
        Keys::Empty => [0, 0, 3, 0][(task + part) % 4],
        Keys::Skew => 6,
        _ => [5, 3, 4, 1][(task * 2 + part) % 4],
    };
    (0..n)
        .map(|i| {
            let v = (task * 10_000 + part * 100 + i) as i64;
            let k = match keys {
                Keys::Distinct => Some(v),
                Keys::Shared | Keys::Empty => Some(i as i64),
                Keys::Skew => Some(if i < 5 { 7 } else { 8 + task as i64 }),
                Keys::Nulls => (i % 2 == 0).then_some(i as i64),
            };
            (k, v)
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Delays,
    Opens,
    Drops,
}

#[derive(Clone, Copy)]
struct Shape {
    n: usize,
    m: usize,
    pin: usize,
    q: usize,
}

fn source(keys: Keys, per_batch: usize) -> SrcHandle {
    SrcBuilder::new(kv_schema(), move |s| {
        rows(keys, s.task, s.part).chunks(per_batch).map(|c| Item::Batch(kv_batch(c))).collect()
    })
    .build()
}

pub fn hash(input: Arc<dyn ExecutionPlan>, q: usize) -> Arc<dyn ExecutionPlan> {
    Arc::new(
        RepartitionExec::try_new(input, Partitioning::Hash(vec![Arc::new(Column::new("k", 0))], q)).expect("repartition"),
    )
}

fn run(s: Shape, keys: Keys, tr: Transport, mode: Mode, ch: &Ch) -> RunResult {
    rt::sim(async {
        let src = source(keys, 2);
        let ctl = TagCtl {
            ch: (mode != Mode::Delays).then(|| ch.clone()),
            delay_open: mode == Mode::Opens,
            may_drop: mode == Mode::Drops,
            ..Default::default()
        }
        .register();
        let cluster = Cluster::new(s.n.max(s.m), tr);
        let sh = df_err(NetworkShuffleExec::try_new(hash(src.0.exec(s.pin), s.q), s.n), "try_new")?;
        let tag = ctl.0.wrap(Arc::new(sh));
        let top: Arc<dyn ExecutionPlan> = Arc::new(df_err(NetworkCoalesceExec::try_new(tag, s.m, 1), "try_new")?);
        let top = Arc::new(CoalescePartitionsExec::new(top));
        let (ctx, plan) = df_err(plan_on(&cluster, top, cfg(2), |b| b).await, "plan")?;
        if mode == Mode::Delays {
            cluster.net.set_policy(delays(ch, &[Kind::SetPlan, Kind::Exec, Kind::ExecReply, Kind::Batch], 1));
        }
        let batches = match run_to_end(&ctx, plan).await {
            Outcome::Rows(b) => b,
            Outcome::Err(e, _) => return viol("error", format!("query failed: {e}")),
            Outcome::Hang(_) => return viol("hang", "query did not finish"),
        };
        let streams = ctl.streams();
        for t in 0..s.m {
            for p in 0..s.q {
                match streams.get(&(t, s.m, p)) {
                    Some(l) if l.opened == 1 => {}
                    x => return viol("consumer-open", format!("consumer task {t} partition {p}: {x:?}")),
                }
            }
        }
        if streams.len() != s.m * s.q {
            return viol("consumer-open", format!("{:?}", streams.keys()));
        }
        let stopped: BTreeSet<(i64, i64)> = streams
            .iter()
            .filter(|(_, l)| l.dropped_by_explorer)
            .map(|(k, _)| (k.0 as i64, k.2 as i64))
            .collect();
        // key -> consumer partitions; value -> times seen
        let mut owner: BTreeMap<Option<i64>, BTreeSet<(i64, i64)>> = BTreeMap::new();
        let mut seen: BTreeMap<i64, usize> = BTreeMap::new();
        let mut order: BTreeMap<((i64, i64), i64), Vec<(i64, i64)>> = BTreeMap::new();
        for r in i64s(&batches) {
            let (k, v) = (r[0], r[1].unwrap());
            let c = (r[2].unwrap(), r[3].unwrap());
            owner.entry(k).or_default().insert(c);
            *seen.entry(v).or_default() += 1;
            order.entry((c, v / 100)).or_default().push((r[4].unwrap(), v));
            let (t, p) = ((v / 10_000) as usize, (v % 10_000 / 100) as usize);
            if t >= s.n || p >= s.pin || !rows(keys, t, p).contains(&(k, v)) {
                return viol("made-up-row", format!("row {k:?},{v} was never produced"));
            }
        }
        for (v, n) in &seen {
            if *n != 1 {
                return viol("duplicate", format!("row {v} delivered {n} times"));
            }
        }
        for (k, c) in &owner {
            if c.len() != 1 {
                return viol("split-key", format!("rows with key {k:?} arrived in {c:?}"));
            }
        }
        for ((c, pp), v) in order.iter_mut() {
            v.sort();
            if v.windows(2).any(|w| w[0].1 >= w[1].1) {
                return viol("order", format!("consumer {c:?} got rows of producer partition {pp} as {v:?}"));
            }
        }
        for t in 0..s.n {
            for p in 0..s.pin {
                for (k, v) in rows(keys, t, p) {
                    if !seen.contains_key(&v) {
                        // Only allowed if its consumer stopped early.
                        let ok = match owner.get(&k) {
                            Some(c) => stopped.contains(c.first().unwrap()),
                            None => !stopped.is_empty(),
                        };
                        if !ok {
                            return viol("lost-row", format!("row {k:?},{v} of task {t} was not delivered"));
                        }
                    }
                }
            }
        }
        for (k, n) in src.opened() {
            if n != 1 || k.tasks != s.n || k.task >= s.n || k.parts != s.pin {
                return viol("producer-open", format!("{k:?} executed {n} times"));
            }
        }
        if stopped.is_empty() && src.opened().len() != s.n * s.pin {
            return viol("producer-open", format!("{:?}", src.opened()));
        }
        let used: BTreeSet<_> = owner.values().flatten().collect();
        Ok(Obs {
            outcome: format!("{owner:?}|{:?}", seen.len()),
            nontrivial: used.len() > 1 || s.n * s.pin > 1,
            steps: cluster.net.log().len() as u64,
            ..Default::default()
        })
    })
}

/// Two shuffles feeding one stage: equal keys of both sides must meet.
fn run_join(n1: usize, n2: usize, m: usize, q: usize, tr: Transport, ch: &Ch) -> RunResult {
    rt::sim(async {
        let l = source(Keys::Shared, 2);
        let r = source(Keys::Nulls, 3);
        let cluster = Cluster::new(n1.max(n2).max(m), tr);
        let ls = df_err(NetworkShuffleExec::try_new(hash(l.0.exec(2), q), n1), "try_new")?;
        let rs = df_err(NetworkShuffleExec::try_new(hash(r.0.exec(1), q), n2), "try_new")?;
        let join = df_err(
            HashJoinExec::try_new(
                Arc::new(ls),
                Arc::new(rs),
                vec![(Arc::new(Column::new("k", 0)), Arc::new(Column::new("k", 0)))],
                None,
                &JoinType::Full,
                None,
                PartitionMode::Partitioned,
                NullEquality::NullEqualsNull,
                false,
            ),
            "join",
        )?;
        let top: Arc<dyn ExecutionPlan> = Arc::new(df_err(NetworkCoalesceExec::try_new(Arc::new(join), m, 1), "try_new")?);
        let top = Arc::new(CoalescePartitionsExec::new(top));
        let (ctx, plan) = df_err(plan_on(&cluster, top, cfg(2), |b| b).await, "plan")?;
        cluster.net.set_policy(delays(ch, &[Kind::Exec, Kind::Batch], 1));
        let batches = match run_to_end(&ctx, plan).await {
            Outcome::Rows(b) => b,
            Outcome::Err(e, _) => return viol("error", format!("query failed: {e}")),
            Outcome::Hang(_) => return viol("hang", "query did not finish"),
        };
        let mut got: Vec<Vec<Option<i64>>> = i64s(&batches);
        got.sort();
        let lv: Vec<Kv> = (0..n1).flat_map(|t| (0..2).flat_map(move |p| rows(Keys::Shared, t, p))).collect();
        let rv: Vec<Kv> = (0..n2).flat_map(|t| rows(Keys::Nulls, t, 0)).collect();
        let mut exp = vec![];
        for a in &lv {
            let ms: Vec<_> = rv.iter().filter(|b| b.0 == a.0).collect();
            if ms.is_empty() {
                exp.push(vec![a.0, Some(a.1), None, None]);
            }
            for b in ms {
                exp.push(vec![a.0, Some(a.1), b.0, Some(b.1)]);
            }
        }
        for b in &rv {
            if !lv.iter().any(|a| a.0 == b.0) {
                exp.push(vec![None, None, b.0, Some(b.1)]);
            }
        }
        exp.sort();
        if got != exp {
            return viol("join", format!("full join over two shuffles: {} rows, expected {}\n got {got:?}\n exp {exp:?}", got.len(), exp.len()));
        }
        Ok(Obs { outcome: format!("{}", got.len()), nontrivial: true, steps: cluster.net.log().len() as u64, ..Default::default() })
    })
}

/// A chain of two shuffles: the second one must see every row of the first.
fn run_chain(n: usize, k: usize, m: usize, q1: usize, q2: usize, tr: Transport, ch: &Ch) -> RunResult {
    rt::sim(async {
        let src = source(Keys::Shared, 2);
        let cluster = Cluster::new(n.max(k).max(m), tr);
        let s1 = df_err(NetworkShuffleExec::try_new(hash(src.0.exec(2), q1), n), "try_new")?;
        let s2 = df_err(NetworkShuffleExec::try_new(hash(Arc::new(s1), q2), k), "try_new")?;
        let ctl = TagCtl::default().register();
        let tag = ctl.0.wrap(Arc::new(s2));
        let top: Arc<dyn ExecutionPlan> = Arc::new(df_err(NetworkCoalesceExec::try_new(tag, m, 1), "try_new")?);
        let top = Arc::new(CoalescePartitionsExec::new(top));
        let (ctx, plan) = df_err(plan_on(&cluster, top, cfg(2), |b| b).await, "plan")?;
        cluster.net.set_policy(delays(ch, &[Kind::SetPlan, Kind::Exec, Kind::Batch], 1));
        let batches = match run_to_end(&ctx, plan).await {
            Outcome::Rows(b) => b,
            Outcome::Err(e, _) => return viol("error", format!("query failed: {e}")),
            Outcome::Hang(_) => return viol("hang", "query did not finish"),
        };
        let mut owner: BTreeMap<Option<i64>, BTreeSet<(i64, i64)>> = BTreeMap::new();
        let mut got: Vec<Kv> = vec![];
        for r in i64s(&batches) {
            owner.entry(r[0]).or_default().insert((r[2].unwrap(), r[3].unwrap()));
            got.push((r[0], r[1].unwrap()));
        }
        let mut exp: Vec<Kv> = (0..n).flat_map(|t| (0..2).flat_map(move |p| rows(Keys::Shared, t, p))).collect();
        got.sort();
        exp.sort();
        if got != exp {
            return viol("chain-rows", format!("got {got:?} expected {exp:?}"));
        }
        if let Some((k, c)) = owner.iter().find(|x| x.1.len() != 1) {
            return viol("split-key", format!("rows with key {k:?} arrived in {c:?}"));
        }
        Ok(Obs { outcome: format!("{owner:?}"), nontrivial: true, steps: cluster.net.log().len() as u64, ..Default::default() })
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let (nm, mm) = if thorough { (5, 5) } else { (4, 4) };
    for tr in [Transport::Direct, Transport::Grpc] {
        for n in 1..=nm {
            for m in 1..=mm {
                for (pin, q) in [(1, 1), (2, 1), (1, 3), (2, 2), (3, 4)] {
                    for keys in [Keys::Distinct, Keys::Shared, Keys::Skew, Keys::Nulls, Keys::Empty] {
                        if tr == Transport::Grpc && !thorough && keys != Keys::Shared && keys != Keys::Empty {
                            continue;
                        }
                        let s = Shape { n, m, pin, q };
                        v.push(case(format!("shape/{tr:?}/n{n}m{m}p{pin}q{q}/{keys:?}"), 0, move |ch| run(s, keys, tr, Mode::Delays, ch)));
                    }
                }
            }
        }
    }
    for tr in [Transport::Direct, Transport::Grpc] {
        for (n, m, pin, q) in [(1, 2, 1, 1), (2, 1, 1, 2), (2, 2, 1, 1), (2, 2, 2, 2), (3, 2, 1, 2), (2, 3, 1, 1)] {
            for mode in [Mode::Delays, Mode::Opens, Mode::Drops] {
                for keys in [Keys::Shared, Keys::Nulls] {
                    let big = n * m * q > 4;
                    let b = if thorough && !big { 2 } else { 1 };
                    let s = Shape { n, m, pin, q };
                    v.push(case(format!("{mode:?}/{tr:?}/n{n}m{m}p{pin}q{q}/{keys:?}"), b, move |ch| run(s, keys, tr, mode, ch)));
                }
            }
        }
        for (n1, n2, m, q) in [(1, 2, 2, 2), (2, 1, 3, 1), (3, 2, 2, 3), (2, 3, 1, 2), (1, 1, 4, 2)] {
            v.push(case(format!("join/{tr:?}/{n1}x{n2}to{m}q{q}"), if thorough { 2 } else { 1 }, move |ch| run_join(n1, n2, m, q, tr, ch)));
        }
        for (n, k, m, q1, q2) in [(2, 2, 2, 2, 2), (3, 2, 1, 1, 3), (1, 3, 2, 2, 1), (2, 3, 4, 3, 2)] {
            v.push(case(format!("chain/{tr:?}/{n}-{k}-{m}q{q1}q{q2}"), if thorough { 2 } else { 1 }, move |ch| run_chain(n, k, m, q1, q2, tr, ch)));
        }
    }
    v
}
