//! C05: a distributed UNION evaluates each child completely, exactly once.
use super::Check;
use super::c02::hash;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::vexec::*;
use crate::vtag::*;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::union::UnionExec;
use datafusion_distributed::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C05",
        level: "model_checking",
        rule: "case = (children with desired/maximum task counts and partition counts, nesting, max tasks, transport); shape cases enumerate every combination, the others also explore message delays; non-trivial = the union ran in at least two tasks",
        assumptions: &["leaf children split their data by (task index, task count) as the distributed context tells them", "bounds: see case ids"],
        cases,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum W {
    D(usize),
    M(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Child {
    Leaf(W, usize),
    /// A hash repartition above a leaf.
    Shuffled(W, usize),
    /// A nested union of two leaves.
    Nested(W, W),
}

const ROWS: usize = 7;

fn leaf(c: usize) -> SrcHandle {
    SrcBuilder::new(kv_schema(), move |s| {
        let rows: Vec<Kv> = (0..ROWS)
            .filter(|i| i % s.tasks == s.task)
            .map(|i| (Some(i as i64 % 3), (c * 10_000 + s.part * 100 + i) as i64))
            .collect();
        if rows.is_empty() { vec![] } else { rows.chunks(3).map(|r| Item::Batch(kv_batch(r))).collect() }
    })
    .build()
}

fn tag(w: W) -> String {
    match w {
        W::D(n) => format!("d{n}"),
        W::M(n) => format!("m{n}"),
    }
}

fn run(children: &[Child], max_tasks: usize, up: usize, isolate: bool, dynamic: bool, tr: Transport, bound_delays: bool, ch: &Ch) -> RunResult {
    rt::sim(async {
        let mut srcs: Vec<(SrcHandle, W, usize)> = vec![];
        let mut plans: Vec<Arc<dyn ExecutionPlan>> = vec![];
        for c in children {
            let mut mk = |w: W, parts: usize| -> Arc<dyn ExecutionPlan> {
                let s = leaf(srcs.len());
                let e = s.0.exec_tagged(parts, &tag(w));
                srcs.push((s, w, parts));
                e
            };
            plans.push(match *c {
                Child::Leaf(w, p) => mk(w, p),
                Child::Shuffled(w, p) => hash(mk(w, p), 2),
                Child::Nested(a, b) => df_err(UnionExec::try_new(vec![mk(a, 1), mk(b, 2)]), "union")?,
            });
        }
        let single = plans.iter().map(|p| p.properties().partitioning.partition_count()).sum::<usize>();
        let union = df_err(UnionExec::try_new(plans), "union")?;
        let ctl = TagCtl::default().register();
        let top = ctl.0.wrap(union);
        let cluster = Cluster::new(max_tasks, tr);
        let (ctx, plan) = df_err(
            plan_on(&cluster, top, cfg(2), |b| {
                b.with_distributed_desired_task_count_handler(move |ev: DesiredTaskCountEvent<'_>| {
                    // A node above the union that wants more tasks than the union does.
                    if up > 0 && ev.plan.is::<VTag>() {
                        return Some(Ok(DesiredTaskCountEventResponse::desired(up)));
                    }
                    tag_task_counts(ev)
                })
                    .with_distributed_children_isolator_unions(isolate)
                    .unwrap()
                    .with_distributed_max_tasks_per_stage(max_tasks)
                    .unwrap()
                    .with_distributed_dynamic_task_count(dynamic)
                    .unwrap()
            })
            .await,
            "plan",
        )?;
        if bound_delays {
            cluster.net.set_policy(delays(ch, &[Kind::SetPlan, Kind::Exec, Kind::Batch], 1));
        }
        let batches = match run_to_end(&ctx, plan.clone()).await {
            Outcome::Rows(b) => b,
            Outcome::Err(e, _) => return viol("error", format!("query failed: {e}")),
            Outcome::Hang(_) => return viol("hang", "query did not finish"),
        };
        // Rows.
        let mut seen: BTreeMap<i64, usize> = BTreeMap::new();
        for r in i64s(&batches) {
            *seen.entry(r[1].unwrap()).or_default() += 1;
        }
        let mut total = 0;
        for (c, (_, _, parts)) in srcs.iter().enumerate() {
            for p in 0..*parts {
                for i in 0..ROWS {
                    total += 1;
                    let v = (c * 10_000 + p * 100 + i) as i64;
                    match seen.get(&v) {
                        Some(1) => {}
                        None => return viol("lost-row", format!("row {i} of partition {p} of leaf {c} is missing\n{}", show(&plan))),
                        Some(n) => return viol("duplicate-row", format!("row {i} of partition {p} of leaf {c} came {n} times\n{}", show(&plan))),
                    }
                }
            }
        }
        if seen.len() != total {
            return viol("made-up-row", format!("{} rows, expected {total}", seen.len()));
        }
        // Each leaf: one task count, every (task, partition) once, within its limit.
        let mut widths = vec![];
        for (c, (s, w, parts)) in srcs.iter().enumerate() {
            let o = s.opened();
            let counts: BTreeSet<usize> = o.keys().map(|k| k.tasks).collect();
            if counts.len() != 1 {
                return viol("inconsistent-split", format!("leaf {c} was told task counts {counts:?}\n{}", show(&plan)));
            }
            let t = *counts.first().unwrap();
            let slots: BTreeSet<(usize, usize)> = o.keys().map(|k| (k.task, k.part)).collect();
            let want: BTreeSet<(usize, usize)> = (0..t).flat_map(|a| (0..*parts).map(move |p| (a, p))).collect();
            if slots != want || o.values().any(|n| *n != 1) {
                return viol("inconsistent-split", format!("leaf {c} with {t} tasks and {parts} partitions ran {o:?}\n{}", show(&plan)));
            }
            let lim = match w {
                W::M(n) => (*n).min(max_tasks),
                W::D(_) => max_tasks,
            };
            if t > lim {
                return viol("over-limit", format!("leaf {c} ({w:?}) ran in {t} tasks, its limit is {lim}\n{}", show(&plan)));
            }
            widths.push(t);
        }
        // The stage of the union: same partitions in every task.
        let mut by_task: BTreeMap<(usize, usize), BTreeSet<usize>> = BTreeMap::new();
        for (k, l) in ctl.streams() {
            by_task.entry((k.0, k.1)).or_default().insert(k.2);
            if l.opened != 1 {
                return viol("union-reopened", format!("{k:?}: {l:?}"));
            }
        }
        let shapes: BTreeSet<&BTreeSet<usize>> = by_task.values().collect();
        let tasks: BTreeSet<usize> = by_task.keys().map(|k| k.1).collect();
        if shapes.len() != 1 || tasks.len() != 1 || *tasks.first().unwrap() != by_task.len() {
            return viol("partition-count", format!("tasks and partitions of the union: {by_task:?} ({single} on one node)"));
        }
        let ut = by_task.len();
        if ut > max_tasks {
            return viol("over-limit", format!("the union ran in {ut} tasks of at most {max_tasks}"));
        }
        Ok(Obs {
            outcome: format!("{widths:?}|{ut}|{}", shapes.first().unwrap().len()),
            nontrivial: ut > 1,
            steps: cluster.net.log().len() as u64,
            ..Default::default()
        })
    })
}

pub fn show(p: &Arc<dyn ExecutionPlan>) -> String {
    display_plan_ascii(p.as_ref(), false)
}

fn cases(thorough: bool) -> Vec<Case> {
    use Child::*;
    let mut v = vec![];
    let ws = [W::D(1), W::D(2), W::D(3), W::M(1), W::M(2)];
    let mut add_up = |kids: Vec<Child>, mt: usize, up: usize, iso: bool, dynamic: bool, tr: Transport, b: usize, what: &str| {
        let name = kids.iter().map(|k| format!("{k:?}")).collect::<Vec<_>>().join("+");
        v.push(case(format!("{what}/{tr:?}/max{mt}{}{}{}/{name}", if up > 0 { format!("/up{up}") } else { String::new() }, if iso { "" } else { "/noiso" }, if dynamic { "/dyn" } else { "" }), b, move |ch| {
            run(&kids, mt, up, iso, dynamic, tr, b > 0, ch)
        }));
    };
    let ups = [W::D(1), W::M(1), W::D(2), W::M(2)];
    for k in 2..=3 {
        let n = ups.len().pow(k as u32);
        for code in 0..n {
            let mut x = code;
            let kids: Vec<Child> = (0..k)
                .map(|i| {
                    let w = ups[x % ups.len()];
                    x /= ups.len();
                    Leaf(w, 1 + (i + code) % 2)
                })
                .collect();
            for (mt, up) in [(4, 4), (6, 5), (3, 6)] {
                add_up(kids.clone(), mt, up, true, false, Transport::Direct, 0, "up");
            }
        }
    }
    let mut add = |kids: Vec<Child>, mt: usize, iso: bool, dynamic: bool, tr: Transport, b: usize, what: &str| add_up(kids, mt, 0, iso, dynamic, tr, b, what);
    let kmax = if thorough { 4 } else { 3 };
    let tmax = if thorough { 7 } else { 5 };
    for k in 2..=kmax {
        let n = ws.len().pow(k as u32);
        for code in 0..n {
            let mut x = code;
            let kids: Vec<Child> = (0..k)
                .map(|i| {
                    let w = ws[x % ws.len()];
                    x /= ws.len();
                    Leaf(w, 1 + (i + code) % 3)
                })
                .collect();
            for mt in 1..=tmax {
                add(kids.clone(), mt, true, false, Transport::Direct, 0, "shape");
            }
        }
    }
    // Many light children, one heavy one.
    for k in [4usize, 5, 6, 8] {
        for mt in 1..=tmax {
            for heavy in [1, 4, 9] {
                let mut kids: Vec<Child> = (0..k).map(|i| Leaf(if i % 2 == 0 { W::D(1) } else { W::M(1) }, 1 + i % 2)).collect();
                kids[k / 2] = Leaf(W::D(heavy), 2);
                add(kids, mt, true, false, Transport::Direct, 0, "shape");
            }
        }
    }
    let mixed: Vec<Vec<Child>> = vec![
        vec![Leaf(W::D(2), 1), Shuffled(W::D(3), 2)],
        vec![Shuffled(W::D(3), 2), Shuffled(W::D(2), 1)],
        vec![Shuffled(W::M(1), 2), Leaf(W::M(2), 3), Shuffled(W::D(4), 1)],
        vec![Nested(W::D(2), W::M(1)), Leaf(W::D(3), 2)],
        vec![Nested(W::D(1), W::D(1)), Nested(W::M(2), W::D(3))],
        vec![Shuffled(W::D(2), 2), Nested(W::D(3), W::M(1)), Leaf(W::M(1), 2)],
        vec![Nested(W::D(1), W::D(2)), Shuffled(W::D(2), 1)],
    ];
    for kids in &mixed {
        for mt in 1..=tmax + 1 {
            for iso in [true, false] {
                add(kids.clone(), mt, iso, false, Transport::Direct, 0, "mixed");
            }
            add(kids.clone(), mt, true, true, Transport::Direct, 0, "mixed");
            if mt == 3 {
                add(kids.clone(), mt, true, false, Transport::Grpc, 1, "delays");
                add(kids.clone(), mt, true, true, Transport::Direct, 1, "delays");
            }
        }
    }
    for kids in [vec![Leaf(W::D(1), 2), Leaf(W::M(1), 1), Leaf(W::D(2), 1)], vec![Leaf(W::D(1), 1), Leaf(W::D(1), 1), Leaf(W::D(1), 3), Leaf(W::D(1), 1)]] {
        for mt in [2, 3] {
            add(kids.clone(), mt, true, false, Transport::Grpc, if thorough { 2 } else { 1 }, "delays");
            add(kids.clone(), mt, true, false, Transport::Direct, if thorough { 2 } else { 1 }, "delays");
        }
    }
    v
}
