//! C04: every consumer of a broadcast receives the complete build side.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt::{self, Reader};
use crate::vexec::*;
use crate::vtag::*;
use datafusion::arrow::array::RecordBatch;
use datafusion::common::Result;
use datafusion::execution::TaskContext;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion_distributed::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C04",
        level: "model_checking",
        rule: "seq cases: every sequence (up to the stated length) of {produce one item, open, read, drop a consumer} on the real BroadcastExec; pipe cases: schedules of a broadcast between worker tasks; non-trivial = two consumers received data",
        assumptions: &["delays are explored at message granularity on one thread with a virtual clock", "bounds: see case ids"],
        cases,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Clean,
    Err(usize),
    Panic(usize),
    OpenErr,
}

pub fn nbatches(task: usize, part: usize) -> usize {
    [2, 1, 0, 3][(task + part) % 4]
}

pub fn rows_of(task: usize, part: usize, end: End) -> (Vec<i64>, bool) {
    let n = nbatches(task, part);
    let v = |k: usize| (0..k).map(|i| (task * 1000 + part * 100 + i) as i64).collect::<Vec<_>>();
    match end {
        End::Clean => (v(n), false),
        End::Err(j) | End::Panic(j) => (v(j.min(n)), true),
        End::OpenErr => (vec![], true),
    }
}

/// `fail_at`: the only (task, part) that fails.
pub fn source(end: End, fail_at: (usize, usize), gated: bool) -> SrcHandle {
    let b = SrcBuilder::new(kv_schema(), move |s| {
        let e = if (s.task, s.part) == fail_at { end } else { End::Clean };
        let (rows, _) = rows_of(s.task, s.part, e);
        let mut items: Vec<Item> = rows.iter().map(|v| Item::Batch(kv_batch(&[(Some(*v), *v)]))).collect();
        match e {
            End::Clean => {}
            End::Err(_) => items.push(Item::Err("boom-input".into())),
            End::Panic(_) => items.push(Item::Panic("boom-input".into())),
            End::OpenErr => items = vec![Item::OpenErr("boom-input".into())],
        }
        items
    });
    if gated { b.gated() } else { b }.build()
}

fn values(got: &[Result<RecordBatch>]) -> (Vec<i64>, Option<String>) {
    let mut v = vec![];
    for g in got {
        match g {
            Ok(b) => v.extend(kv_rows(b).iter().map(|r| r.1)),
            Err(e) => return (v, Some(e.to_string())),
        }
    }
    (v, None)
}

/// Every sequence of operations on one BroadcastExec.
fn seq(parts: usize, consumers: usize, end: End, ch: &Ch, depth: usize) -> RunResult {
    rt::sim(async {
        let src = source(end, (0, 0), true);
        let exec = Arc::new(BroadcastExec::new(src.0.exec(parts), consumers));
        let ctx = Arc::new(TaskContext::default());
        // consumer c of partition p is the virtual partition c * parts + p
        let n = parts * consumers;
        let mut readers: Vec<Option<Reader<Result<RecordBatch>>>> = (0..n).map(|_| None).collect();
        let mut dropped = vec![false; n];
        let mut failed_open: Vec<Option<String>> = vec![None; n];
        let mut allowed = vec![0usize; parts];
        let mut states = vec![];
        let mut trace = vec![];
        for _ in 0..depth {
            let mut ops: Vec<(char, usize)> = vec![];
            for p in 0..parts {
                if allowed[p] <= nbatches(0, p) {
                    ops.push(('p', p));
                }
            }
            for (i, r) in readers.iter().enumerate() {
                match r {
                    None if failed_open[i].is_none() && !dropped[i] => ops.push(('o', i)),
                    Some(r) if r.alive() && !dropped[i] => {
                        if r.runnable() {
                            ops.push(('r', i));
                        }
                        ops.push(('d', i));
                    }
                    _ => {}
                }
            }
            let c = choose(ch, 1 + ops.len(), |c| if c == 0 { "finish".into() } else { format!("{}{}", ops[c - 1].0, ops[c - 1].1) });
            if c == 0 {
                break;
            }
            let (k, i) = ops[c - 1];
            trace.push((k, i));
            match k {
                'p' => {
                    allowed[i] += 1;
                    src.gate().allow(0, i);
                }
                'o' => open(&exec, &ctx, i, &mut readers, &mut failed_open),
                'r' => {
                    readers[i].as_mut().unwrap().poll();
                }
                _ => {
                    readers[i].as_mut().unwrap().drop_stream();
                    dropped[i] = true;
                }
            }
            rt::quiesce().await;
            states.push(h64(&format!(
                "{allowed:?}{dropped:?}{:?}",
                readers.iter().map(|r| r.as_ref().map(|r| (r.got.len(), r.ended, r.pending))).collect::<Vec<_>>()
            )));
        }
        // Finish: open everything, produce everything, read everything.
        for i in 0..n {
            if readers[i].is_none() && !dropped[i] && failed_open[i].is_none() {
                open(&exec, &ctx, i, &mut readers, &mut failed_open);
            }
        }
        src.gate().allow_all();
        for _ in 0..20 {
            rt::quiesce().await;
            let mut any = false;
            for r in readers.iter_mut().flatten() {
                any |= r.drain_ready();
            }
            if !any {
                break;
            }
        }
        for (k, c) in src.opened() {
            if c != 1 {
                return viol("re-executed", format!("{k:?} executed {c} times after {trace:?}"));
            }
        }
        let mut full = 0;
        for i in 0..n {
            let p = i % parts;
            let e = if p == 0 { end } else { End::Clean };
            let (exp, fails) = rows_of(0, p, e);
            if let Some(m) = &failed_open[i] {
                if !fails || !m.contains("boom-input") {
                    return viol("open-error", format!("consumer {i}: {m} after {trace:?}"));
                }
                continue;
            }
            let Some(r) = &readers[i] else { continue };
            let (got, err) = values(&r.got);
            if dropped[i] {
                if !exp.starts_with(&got) {
                    return viol("wrong-data", format!("consumer {i} read {got:?} of {exp:?} after {trace:?}"));
                }
                continue;
            }
            if got != exp {
                return viol("wrong-data", format!("consumer {i} read {got:?}, expected {exp:?} (end={end:?}) after {trace:?}"));
            }
            match (fails, err) {
                (false, None) if r.ended => {}
                (true, Some(m)) => {
                    if matches!(e, End::Err(_)) && !m.contains("boom-input") {
                        return viol("error-text", format!("consumer {i}: {m}"));
                    }
                }
                (true, None) if r.ended => {
                    return viol("silent-truncation", format!("consumer {i} saw a normal end although the input failed ({end:?}) after {trace:?}"));
                }
                (_, e) => return viol("stuck", format!("consumer {i}: ended={} err={e:?} (end={end:?}) after {trace:?}", r.ended)),
            }
            full += 1;
        }
        Ok(Obs {
            outcome: format!("{:?}", readers.iter().map(|r| r.as_ref().map(|r| r.got.len())).collect::<Vec<_>>()),
            states,
            steps: trace.len() as u64,
            nontrivial: full >= 2,
        })
    })
}

fn open(
    exec: &Arc<BroadcastExec>,
    ctx: &Arc<TaskContext>,
    i: usize,
    readers: &mut [Option<Reader<Result<RecordBatch>>>],
    failed: &mut [Option<String>],
) {
    match exec.execute(i, ctx.clone()) {
        Ok(s) => readers[i] = Some(Reader::new(s)),
        Err(e) => failed[i] = Some(e.to_string()),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Delays,
    Opens,
    Drops,
}

fn pipe(n: usize, m: usize, parts: usize, end: End, tr: Transport, mode: Mode, ch: &Ch) -> RunResult {
    rt::sim(async {
        let fail_at = (n - 1, parts - 1);
        let src = source(end, fail_at, false);
        let ctl = TagCtl {
            ch: (mode != Mode::Delays).then(|| ch.clone()),
            delay_open: mode == Mode::Opens,
            may_drop: mode == Mode::Drops,
            ..Default::default()
        }
        .register();
        let cluster = Cluster::new(n.max(m), tr);
        let b = Arc::new(BroadcastExec::new(src.0.exec(parts), 1));
        let nb = df_err(NetworkBroadcastExec::try_new(b, n), "try_new")?;
        let tag = ctl.0.wrap(Arc::new(nb));
        let top: Arc<dyn ExecutionPlan> = Arc::new(df_err(NetworkCoalesceExec::try_new(tag, m, 1), "try_new")?);
        let top = Arc::new(CoalescePartitionsExec::new(top));
        let (ctx, plan) = df_err(plan_on(&cluster, top, cfg(2), |b| b).await, "plan")?;
        if mode == Mode::Delays {
            cluster.net.set_policy(delays(ch, &[Kind::SetPlan, Kind::Exec, Kind::ExecReply, Kind::Batch], 1));
        }
        let out = run_to_end(&ctx, plan).await;
        let streams = ctl.streams();
        let any_drop = streams.values().any(|l| l.dropped_by_explorer);
        let batches = match out {
            Outcome::Rows(b) => {
                if end != End::Clean {
                    // Whoever read the failing partition without being stopped must have failed.
                    let complete = streams.iter().any(|(k, l)| k.2 == parts - 1 && l.ended);
                    if complete {
                        return viol("silent-truncation", format!("the input failed ({end:?}) but a consumer saw a normal end: {streams:?}"));
                    }
                    if !any_drop {
                        return viol("silent-truncation", format!("the input failed ({end:?}) but the query succeeded"));
                    }
                    return Ok(Obs { outcome: "stopped".into(), ..Default::default() });
                }
                b
            }
            Outcome::Err(e, _) => {
                if end == End::Clean {
                    return viol("error", format!("query failed: {e}"));
                }
                if matches!(end, End::Err(_) | End::OpenErr) && !e.contains("boom-input") {
                    return viol("error-text", format!("query failed with: {e}"));
                }
                return Ok(Obs { outcome: format!("failed {end:?}"), nontrivial: true, ..Default::default() });
            }
            Outcome::Hang(_) => return viol("hang", format!("query did not finish ({end:?})")),
        };
        // (consumer, producer stream) -> values in order of arrival
        let mut got: BTreeMap<(i64, i64, i64), Vec<(i64, i64)>> = BTreeMap::new();
        for r in i64s(&batches) {
            let v = r[1].unwrap();
            got.entry((r[2].unwrap(), r[3].unwrap(), v / 100)).or_default().push((r[4].unwrap(), v));
        }
        let mut complete = 0;
        for t in 0..m {
            for q in 0..parts {
                let log = match streams.get(&(t, m, q)) {
                    Some(l) if l.opened == 1 => l,
                    x => return viol("consumer-open", format!("consumer task {t} partition {q}: {x:?}")),
                };
                for pt in 0..n {
                    let (exp, _) = rows_of(pt, q, End::Clean);
                    let mut g = got.remove(&(t as i64, q as i64, (pt * 10 + q) as i64)).unwrap_or_default();
                    g.sort();
                    let g: Vec<i64> = g.into_iter().map(|x| x.1).collect();
                    let ok = if log.dropped_by_explorer { exp.starts_with(&g) } else { g == exp };
                    if !ok {
                        return viol("wrong-data", format!("consumer task {t} partition {q} got {g:?} of producer task {pt}, expected {exp:?}"));
                    }
                }
                if !log.dropped_by_explorer {
                    complete += 1;
                }
            }
        }
        if !got.is_empty() {
            return viol("wrong-data", format!("unexpected rows {got:?}"));
        }
        for (k, c) in src.opened() {
            if c != 1 || k.task >= n || k.part >= parts {
                return viol("re-executed", format!("{k:?} executed {c} times"));
            }
        }
        Ok(Obs {
            outcome: format!("{:?}", streams.values().map(|l| l.rows).collect::<Vec<_>>()),
            nontrivial: complete >= 2,
            steps: cluster.net.log().len() as u64,
            ..Default::default()
        })
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let ends = [End::Clean, End::Err(0), End::Err(1), End::Err(2), End::Panic(0), End::Panic(1), End::Panic(2), End::OpenErr];
    for (parts, cons, d, td) in [(1, 1, 6, 9), (1, 2, 5, 7), (1, 3, 4, 6), (2, 1, 4, 6), (2, 2, 3, 5)] {
        for end in ends {
            let d = if thorough { td } else { d };
            v.push(case(format!("seq/p{parts}c{cons}d{d}/{end:?}"), d, move |ch| seq(parts, cons, end, ch, d)));
        }
    }
    for tr in [Transport::Direct, Transport::Grpc] {
        for n in 1..=3 {
            for m in 1..=4 {
                for parts in 1..=3 {
                    v.push(case(format!("shape/{tr:?}/n{n}m{m}p{parts}"), 0, move |ch| pipe(n, m, parts, End::Clean, tr, Mode::Delays, ch)));
                }
            }
        }
        for (n, m, parts) in [(1, 2, 1), (2, 2, 1), (1, 3, 2), (2, 2, 2)] {
            for mode in [Mode::Delays, Mode::Opens, Mode::Drops] {
                for end in [End::Clean, End::Err(1), End::Panic(1), End::OpenErr] {
                    let b = if thorough && n * m * parts < 6 { 2 } else { 1 };
                    v.push(case(format!("{mode:?}/{tr:?}/n{n}m{m}p{parts}/{end:?}"), b, move |ch| pipe(n, m, parts, end, tr, mode, ch)));
                }
            }
        }
    }
    v
}
