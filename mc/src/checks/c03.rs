//! C03: gathering tasks covers every producer partition exactly once.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::vexec::*;
use crate::vtag::*;
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion_distributed::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C03",
        level: "model_checking",
        rule: "case = (producer tasks, consumer tasks, partitions, transport, explorer powers); each execution is one schedule of message/consumer delays and early consumer stops; non-trivial = rows flowed through the boundary to at least two streams",
        assumptions: &["delays are explored at message granularity on one thread with a virtual clock", "bounds: see case ids"],
        cases,
    }
}

fn nrows(task: usize, part: usize) -> usize {
    [3, 0, 1, 2, 4][(task * 2 + part) % 5]
}

fn src() -> SrcHandle {
    SrcBuilder::new(kv_schema(), |s| {
        let rows: Vec<Kv> = (0..nrows(s.task, s.part))
            .map(|i| (Some((s.task * 100 + s.part) as i64), i as i64))
            .collect();
        rows.chunks(2).map(|c| Item::Batch(kv_batch(c))).collect()
    })
    .build()
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Delays,
    Opens,
    Drops,
}

fn run(n: usize, m: usize, p: usize, tr: Transport, mode: Mode, ch: &Ch) -> RunResult {
    rt::sim(async {
        let src = src();
        let ctl = TagCtl {
            ch: (mode != Mode::Delays).then(|| ch.clone()),
            delay_open: mode == Mode::Opens,
            may_drop: mode == Mode::Drops,
            ..Default::default()
        }
        .register();
        let cluster = Cluster::new(n.max(m), tr);
        let c1 = df_err(NetworkCoalesceExec::try_new(src.0.exec(p), n, m), "try_new")?;
        let out_parts = datafusion::physical_plan::ExecutionPlanProperties::output_partitioning(&(Arc::new(c1.clone()) as Arc<dyn datafusion::physical_plan::ExecutionPlan>)).partition_count();
        let tag = ctl.0.wrap(Arc::new(c1));
        let c2 = df_err(NetworkCoalesceExec::try_new(tag, m, 1), "try_new")?;
        let top = Arc::new(CoalescePartitionsExec::new(Arc::new(c2)));
        let (ctx, plan) = df_err(plan_on(&cluster, top, cfg(2), |b| b).await, "plan")?;
        if mode == Mode::Delays {
            cluster.net.set_policy(delays(ch, &[Kind::SetPlan, Kind::Exec, Kind::ExecReply, Kind::Batch], 1));
        }
        let batches = match run_to_end(&ctx, plan).await {
            Outcome::Rows(b) => b,
            Outcome::Err(e, _) => return viol("error", format!("query failed: {e}")),
            Outcome::Hang(_) => return viol("hang", "query did not finish"),
        };
        let rows = i64s(&batches);
        let streams = ctl.streams();
        // Every consumer stream was opened exactly once.
        for t in 0..m {
            for q in 0..out_parts {
                match streams.get(&(t, m, q)) {
                    Some(l) if l.opened == 1 => {}
                    x => return viol("consumer-open", format!("consumer task {t} partition {q}: {x:?}")),
                }
            }
        }
        // Observed producer stream -> consumer stream.
        let mut to: BTreeMap<(i64, i64), BTreeSet<(i64, i64)>> = BTreeMap::new();
        let mut seqs: BTreeMap<(i64, i64), Vec<(i64, i64, i64)>> = BTreeMap::new();
        for r in &rows {
            let k = r[0].unwrap();
            let (pt, pp, i) = (k / 100, k % 100, r[1].unwrap());
            let c = (r[2].unwrap(), r[3].unwrap());
            to.entry((pt, pp)).or_default().insert(c);
            seqs.entry(c).or_default().push((r[4].unwrap(), pt * 100 + pp, i));
        }
        let dropped = |c: &(i64, i64)| {
            streams.get(&(c.0 as usize, m, c.1 as usize)).is_some_and(|l| l.dropped_by_explorer)
        };
        let any_drop = streams.values().any(|l| l.dropped_by_explorer);
        let mut cons_of_task: BTreeMap<i64, BTreeSet<i64>> = BTreeMap::new();
        let mut used: BTreeMap<(i64, i64), (i64, i64)> = BTreeMap::new();
        for (p, cs) in &to {
            if cs.len() != 1 {
                return viol("split-stream", format!("producer stream {p:?} was read by {cs:?}"));
            }
            let c = *cs.first().unwrap();
            if let Some(o) = used.insert(c, *p) {
                return viol("shared-consumer", format!("consumer stream {c:?} read {o:?} and {p:?}"));
            }
            cons_of_task.entry(p.0).or_default().insert(c.0);
        }
        for (t, c) in &cons_of_task {
            if c.len() != 1 {
                return viol("task-split", format!("producer task {t} was read by consumer tasks {c:?}"));
            }
        }
        // Contiguous groups of sizes differing by at most one.
        if !any_drop {
            let groups: Vec<(i64, i64)> = cons_of_task.iter().map(|(t, c)| (*t, *c.first().unwrap())).collect();
            for w in groups.windows(2) {
                if w[1].1 < w[0].1 {
                    return viol("not-contiguous", format!("assignment {groups:?}"));
                }
            }
            let mut sizes = vec![0usize; m];
            for (_, c) in &groups {
                if *c as usize >= m {
                    return viol("consumer-range", format!("{groups:?}"));
                }
                sizes[*c as usize] += 1;
            }
            // Producer tasks without any row do not show; they exist only if nrows is 0 everywhere.
            let silent = (0..n).filter(|t| (0..p).all(|q| nrows(*t, q) == 0)).count();
            if silent == 0 {
                let (mx, mn) = (*sizes.iter().max().unwrap(), *sizes.iter().min().unwrap());
                if mx - mn > 1 {
                    return viol("unbalanced", format!("group sizes {sizes:?}"));
                }
            }
        }
        // Completeness and order of every stream whose consumer was not stopped.
        for t in 0..n {
            for q in 0..p {
                let want = nrows(t, q);
                match to.get(&(t as i64, q as i64)) {
                    None if want == 0 || any_drop => {}
                    None => return viol("lost-stream", format!("nothing received of producer task {t} partition {q}")),
                    Some(cs) => {
                        let c = cs.first().unwrap();
                        let mut v = seqs[c].clone();
                        v.sort();
                        let got: Vec<i64> = v.iter().map(|x| x.2).collect();
                        let exp: Vec<i64> = (0..want as i64).collect();
                        let ok = if dropped(c) { exp.starts_with(&got) } else { got == exp };
                        if !ok {
                            return viol("rows", format!("producer task {t} partition {q}: got {got:?}, expected {exp:?}"));
                        }
                    }
                }
            }
        }
        // Executed exactly once.
        let opened = src.opened();
        for t in 0..n {
            for q in 0..p {
                let k = Slot { task: t, tasks: n, part: q, parts: p };
                match opened.get(&k) {
                    Some(1) => {}
                    // A consumer that stopped before reading anything never asks its producer.
                    None if any_drop => {}
                    x => return viol("producer-open", format!("{k:?} executed {x:?} times")),
                }
            }
        }
        if opened.keys().any(|k| k.task >= n || k.part >= p || k.tasks != n || k.parts != p) {
            return viol("producer-open", format!("unexpected executions {opened:?}"));
        }
        Ok(Obs {
            outcome: format!("{to:?}"),
            nontrivial: to.len() > 1,
            steps: cluster.net.log().len() as u64,
            ..Default::default()
        })
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let (nm, mm, pm) = if thorough { (7, 7, 3) } else { (6, 5, 3) };
    for tr in [Transport::Direct, Transport::Grpc] {
        for n in 1..=nm {
            for m in 1..=mm {
                for p in 1..=pm {
                    v.push(case(format!("shape/{tr:?}/n{n}m{m}p{p}"), 0, move |ch| run(n, m, p, tr, Mode::Delays, ch)));
                }
            }
        }
    }
    let (lim, b) = if thorough { (12, 2) } else { (6, 1) };
    for tr in [Transport::Direct, Transport::Grpc] {
        for n in 1..=4 {
            for m in 1..=3 {
                for p in 1..=2 {
                    if n * p * m > lim || (n == 1 && m == 1) {
                        continue;
                    }
                    for mode in [Mode::Delays, Mode::Opens, Mode::Drops] {
                        if tr == Transport::Grpc && mode == Mode::Opens {
                            continue;
                        }
                        let name = match mode {
                            Mode::Delays => "delays",
                            Mode::Opens => "opens",
                            Mode::Drops => "drops",
                        };
                        v.push(case(format!("{name}/{tr:?}/n{n}m{m}p{p}"), b, move |ch| run(n, m, p, tr, mode, ch)));
                    }
                }
            }
        }
    }
    v
}
