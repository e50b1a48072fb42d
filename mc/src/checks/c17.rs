//! C17: no stage ever runs with more tasks than its limits allow.
use super::Check;
use super::c05::show;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::planx::*;
use crate::rt;
use crate::shapes::*;
use crate::vexec::*;
use datafusion::common::JoinType;
use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode};
use datafusion::physical_plan::joins::{CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode};
use datafusion::physical_plan::limit::GlobalLimitExec;
use datafusion::physical_plan::sorts::sort::SortExec;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use datafusion::prelude::SessionContext;
use datafusion_distributed::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C17",
        level: "model_checking",
        rule: "case = (operator tree over leaves with desired, maximum or no task counts, a handler for inner nodes or none, max tasks, broadcast on/off, static or adaptive); every case plans the tree with the real planner, checks the task count of every stage against every limit in it, executes it on the simulated cluster and compares rows with plain DataFusion and the task counts seen by the leaves with their limits",
        assumptions: &["leaf children split their data by (task index, task count) as the distributed context tells them", "inside a union that isolates its children, each child's own task count is what its limits are about", "bounds: see case ids"],
        cases,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct P {
    max: usize,
    workers: usize,
    tp: usize,
    bcast: bool,
    iso: bool,
    dynamic: bool,
    factor: f64,
}

/// A handler's answer for all nodes of a name.
type Mid = Option<(&'static str, W)>;

fn rows_of(b: &[datafusion::arrow::array::RecordBatch]) -> Vec<Vec<Option<i64>>> {
    let mut r = i64s(b);
    r.sort();
    r
}

/// Whether the node is only right when one task runs it.
fn single_task(p: &Arc<dyn ExecutionPlan>) -> Option<&'static str> {
    fn replicated(p: &Arc<dyn ExecutionPlan>) -> bool {
        if p.is::<NetworkBroadcastExec>() || p.is::<BroadcastExec>() {
            return true;
        }
        // What is on top of a broadcast in the consumer stage sees all of it.
        let c = p.children();
        c.len() == 1 && !p.is_network_boundary() && replicated(c[0])
    }
    if p.is::<GlobalLimitExec>() {
        return Some("a global limit");
    }
    if let Some(s) = p.downcast_ref::<SortExec>()
        && !s.preserve_partitioning()
        && s.input().output_partitioning().partition_count() == 1
        && !replicated(s.input())
    {
        return Some("a global sort");
    }
    if let Some(a) = p.downcast_ref::<AggregateExec>()
        && matches!(a.mode(), AggregateMode::Final | AggregateMode::Single)
        && !replicated(a.input())
    {
        return Some("an aggregate over one partition");
    }
    let build = if let Some(j) = p.downcast_ref::<HashJoinExec>() {
        (j.mode == PartitionMode::CollectLeft).then(|| (j.left().clone(), *j.join_type()))
    } else if let Some(j) = p.downcast_ref::<NestedLoopJoinExec>() {
        Some((j.left().clone(), *j.join_type()))
    } else {
        p.downcast_ref::<CrossJoinExec>().map(|j| (j.left().clone(), JoinType::Inner))
    };
    if let Some((l, t)) = build {
        if !replicated(&l) {
            return Some("a join that collects an input which is not broadcast");
        }
        if matches!(t, JoinType::Left | JoinType::Full | JoinType::LeftSemi | JoinType::LeftAnti | JoinType::LeftMark) {
            return Some("a collected join that emits rows of its build side");
        }
    }
    None
}

fn limits(p: P, mid: Mid, n: &Node) -> W {
    if let Some(v) = n.plan.downcast_ref::<VExec>() {
        let t = std::str::from_utf8(&v.tag).unwrap_or("");
        return match (t.get(..1), t.get(1..).and_then(|x| x.parse().ok())) {
            (Some("m"), Some(x)) => W::M(x),
            (Some("d"), Some(x)) => W::D(x),
            // A leaf nobody knows about cannot be split.
            _ => W::M(1),
        };
    }
    let _ = p;
    match mid {
        Some((name, w)) if n.plan.name() == name => w,
        _ => W::No,
    }
}

fn run(shape: &N, p: P, mid: Mid, tr: Transport, bound: usize, ch: &Ch) -> RunResult {
    rt::sim(async {
        let Ok(one) = build(shape, p.tp) else {
            return Ok(Obs { outcome: "cannot be built".into(), ..Default::default() });
        };
        let want = match run_to_end(&SessionContext::new_with_config(cfg(p.tp)), one.plan).await {
            Outcome::Rows(b) => rows_of(&b),
            // Nothing to compare with.
            Outcome::Err(..) | Outcome::Hang(_) => return Ok(Obs { outcome: "does not run on one node".into(), ..Default::default() }),
        };
        let b = df_err(build(shape, p.tp), "build")?;
        let cluster = Cluster::new(p.workers, tr);
        let cap = if p.max == 0 { p.workers } else { p.max };
        let (ctx, plan) = df_err(
            plan_on(&cluster, b.plan.clone(), cfg(p.tp), |b| {
                b.with_distributed_desired_task_count_handler(move |ev: DesiredTaskCountEvent<'_>| {
                    match mid {
                        Some((name, w)) if ev.plan.name() == name => match w {
                            W::No => None,
                            W::D(n) => Some(Ok(DesiredTaskCountEventResponse::desired(n))),
                            W::M(n) => Some(Ok(DesiredTaskCountEventResponse::maximum(n))),
                        },
                        _ => tag_task_counts(ev),
                    }
                })
                .with_distributed_children_isolator_unions(p.iso)
                .and_then(|b| b.with_distributed_broadcast_joins(p.bcast))
                .and_then(|b| b.with_distributed_max_tasks_per_stage(p.max))
                .and_then(|b| b.with_distributed_dynamic_task_count(p.dynamic))
                .and_then(|b| b.with_distributed_dynamic_bytes_per_partition(16))
                .and_then(|b| b.with_distributed_cardinality_effect_task_scale_factor(p.factor))
                .unwrap()
            })
            .await,
            "plan",
        )?;
        let at = |key: &str, msg: String| -> RunResult { viol(key, format!("{msg}\n{}", show(&plan))) };
        // The stages as planned.
        let ns = nodes(&plan);
        let mut floor: BTreeMap<usize, (usize, bool)> = BTreeMap::new();
        if !p.dynamic {
            for n in &ns {
                let t = n.tasks();
                if t < 1 || t > cap {
                    return at("task-count", format!("{t} tasks with at most {cap}"));
                }
                let lim = limits(p, mid, n);
                if let W::M(m) = lim
                    && t > m.max(1)
                    && n.stage() != 0
                {
                    return at("over-maximum", format!("{} allows {m} tasks and runs in {t}", n.plan.name()));
                }
                if t > 1 && let Some(why) = single_task(&n.plan) {
                    return at("single-task", format!("{} is {why} and runs in {t} tasks", n.plan.name()));
                }
                let isolated = union_child_tasks(&n.plan).is_some();
                let f = floor.entry(n.stage()).or_insert((1, true));
                match lim {
                    W::D(d) => f.0 = f.0.max(d),
                    W::M(_) => f.1 = false,
                    W::No => {}
                }
                // Exchanges, unions and operators that run alone bring limits of their own.
                if n.plan.is_network_boundary() && n.stage() > 0 && n.plan.is::<NetworkCoalesceExec>() || isolated || single_task(&n.plan).is_some() {
                    f.1 = false;
                }
                // Whatever holds a fetch over one partition, or needs all rows of a key in one.
                if n.plan.fetch().is_some() || n.plan.output_partitioning().partition_count() == 1 {
                    f.1 = false;
                }
            }
            for n in &ns {
                let Some((want, true)) = floor.get(&n.stage()) else { continue };
                if n.stage() > 0 && n.tasks() < (*want).min(cap) {
                    return at("under-desired", format!("stage {} runs in {} tasks although {want} are desired and {cap} possible", n.stage(), n.tasks()));
                }
            }
        }
        if bound > 0 {
            cluster.net.set_policy(delays(ch, &[Kind::SetPlan, Kind::Exec, Kind::Batch, Kind::W2C], 1));
        }
        let got = match run_to_end(&ctx, plan.clone()).await {
            Outcome::Rows(b) => rows_of(&b),
            Outcome::Err(e, _) => return at("error", format!("the query fails: {e}")),
            Outcome::Hang(_) => return at("hang", "the query does not finish".into()),
        };
        if got != want {
            return at("wrong-rows", format!("{} rows {got:?} instead of {} rows {want:?}", got.len(), want.len()));
        }
        // What ran.
        let st = stage_tasks(&cluster.net.log());
        for (s, t) in &st {
            if t.len() > cap {
                return at("task-count", format!("stage {s} ran in {} tasks of at most {cap}", t.len()));
            }
        }
        let mut seen = vec![];
        let mut ls = vec![];
        shape.leaves(&mut ls);
        for (s, (w, _)) in b.srcs.iter().zip(ls) {
            let lim = match w {
                W::M(n) => n.max(1).min(cap),
                W::D(_) => cap,
                W::No => 1,
            };
            for k in s.opened().keys() {
                if k.tasks > lim {
                    return at("over-maximum", format!("a leaf that allows {lim} tasks ran in {}", k.tasks));
                }
                seen.push(k.tasks);
            }
        }
        Ok(Obs {
            outcome: format!("{:?}|{}", st.values().map(|t| t.len()).collect::<Vec<_>>(), h64(&format!("{got:?}"))),
            nontrivial: st.values().any(|t| t.len() > 1),
            steps: cluster.net.log().len() as u64,
            ..Default::default()
        })
    })
}

const BASE: P = P { max: 3, workers: 3, tp: 2, bcast: true, iso: true, dynamic: false, factor: 1.0 };

fn bx(n: &N) -> Box<N> {
    Box::new(n.clone())
}

fn unary(n: &N) -> Vec<N> {
    vec![N::F(bx(n)), N::R(bx(n)), N::H(bx(n)), N::A(bx(n)), N::A1(bx(n)), N::S(bx(n)), N::K(bx(n), 3), N::G(bx(n), 3)]
}

pub fn joins() -> Vec<J> {
    use JoinType::*;
    let ts = [Inner, Left, Right, Full, LeftSemi, RightSemi, LeftAnti, RightAnti];
    let mut v = vec![J::Cross, J::Union, J::Inter];
    for t in ts {
        v.extend([J::Cl(t), J::Ph(t), J::Nl(t)]);
    }
    for t in [Inner, Left, Full, RightAnti] {
        v.push(J::Smj(t));
    }
    v
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let mut n = 0usize;
    let mut add = |v: &mut Vec<Case>, group: &str, every: usize, shape: &N, p: P, mid: Mid, tr: Transport, bound: usize| {
        n += 1;
        if !thorough && n % every != 0 {
            return;
        }
        let shape = shape.clone();
        let name = format!(
            "{group}/{}/max{}.w{}.tp{}{}{}{}{}{}{}",
            shape.name(),
            p.max,
            p.workers,
            p.tp,
            if p.bcast { "" } else { ".nobc" },
            if p.iso { "" } else { ".noiso" },
            if p.dynamic { ".dyn" } else { "" },
            if p.factor == 1.0 { String::new() } else { format!(".f{}", p.factor) },
            if tr == Transport::Grpc { ".grpc" } else { "" },
            mid.map(|(n, w)| format!(".{n}={}", w.tag())).unwrap_or_default(),
        );
        v.push(case(name, bound, move |ch| run(&shape, p, mid, tr, bound, ch)));
    };
    use Transport::*;
    use W::*;
    let ws = [No, D(0), D(1), D(2), D(3), D(5), M(0), M(1), M(2), M(4)];
    for w in ws {
        for parts in 1..=3 {
            let l = N::L(w, parts);
            let mut level = vec![l.clone()];
            let mut all = level.clone();
            for _ in 0..if thorough { 3 } else { 2 } {
                level = level.iter().flat_map(unary).collect();
                all.extend(level.clone());
            }
            for s in &all {
                for max in 1..=4 {
                    for dynamic in [false, true] {
                        add(&mut v, "unary", 3, s, P { max, workers: 3, dynamic, tp: 1 + (max + parts) % 3, ..BASE }, None, Direct, 0);
                    }
                }
            }
        }
    }
    let sides = |w: W, parts: usize| -> Vec<N> {
        let l = N::L(w, parts);
        vec![l.clone(), N::F(bx(&l)), N::A(bx(&l)), N::K(bx(&l), 4), N::H(bx(&l)), N::G(bx(&l), 3), N::A1(bx(&l))]
    };
    let pairs = [(D(2), D(3)), (D(3), M(1)), (M(2), D(4)), (No, D(3)), (D(2), No), (M(2), M(3)), (D(0), D(2)), (D(4), D(4))];
    for j in joins() {
        for (i, (a, b)) in pairs.into_iter().enumerate() {
            for (pa, pb) in [(1, 1), (1, 3), (2, 1), (2, 3)] {
                for l in sides(a, pa) {
                    for r in sides(b, pb) {
                        let s = N::J(j, bx(&l), bx(&r));
                        for (max, bcast, dynamic) in [(2, true, false), (3, true, false), (3, false, false), (4, true, true), (3, false, true), (1, true, false)] {
                            let tp = 1 + (i + pa + max) % 3;
                            add(&mut v, "join", 29, &s, P { max, bcast, dynamic, tp, ..BASE }, None, Direct, 0);
                            if i % 2 == 0 {
                                add(&mut v, "join", 101, &s, P { max: 0, workers: max + 1, bcast, dynamic, tp, iso: false, factor: 1.5, ..BASE }, None, Grpc, 0);
                            }
                        }
                        for up in unary(&s) {
                            add(&mut v, "above", 31, &up, P { tp: 1 + (i + pb) % 3, dynamic: i % 3 == 0, max: 2 + i % 3, ..BASE }, None, Direct, 0);
                        }
                    }
                }
            }
        }
    }
    // Three inputs.
    for j in joins() {
        for k in joins() {
            let (a, b, c) = (N::L(D(3), 2), N::L(D(2), 1), N::L(M(2), 2));
            let x = N::J(k, bx(&N::J(j, bx(&a), bx(&b))), bx(&c));
            let y = N::J(k, bx(&c), bx(&N::J(j, bx(&a), bx(&b))));
            for s in [x, y] {
                for (dynamic, bcast, max) in [(false, true, 3), (true, true, 3), (false, false, 2), (true, false, 4)] {
                    add(&mut v, "three", 3, &s, P { dynamic, bcast, max, ..BASE }, None, Direct, 0);
                }
            }
        }
    }
    // Limits demanded for inner nodes.
    let names = ["FilterExec", "RepartitionExec", "AggregateExec", "SortExec", "HashJoinExec", "NestedLoopJoinExec", "CrossJoinExec", "ProjectionExec", "ChildrenIsolatorUnionExec", "InterleaveExec", "CoalescePartitionsExec", "SortMergeJoinExec", "SortPreservingMergeExec", "BroadcastExec"];
    for name in names {
        for w in [M(1), M(2), M(3), D(1), D(3), D(5)] {
            for s in inner_shapes() {
                for (dynamic, max) in [(false, 3), (false, 5), (true, 4)] {
                    add(&mut v, "inner", 2, &s, P { dynamic, max, ..BASE }, Some((name, w)), Direct, 0);
                }
            }
        }
    }
    for s in inner_shapes() {
        for tr in [Direct, Grpc] {
            for dynamic in [false, true] {
                if !thorough && tr == Grpc && !dynamic {
                    continue;
                }
                add(&mut v, "late", 1, &s, P { dynamic, ..BASE }, None, tr, 1);
            }
        }
    }
    v
}

pub fn inner_shapes() -> Vec<N> {
    use W::*;
    let (a, b, c) = (N::L(D(3), 2), N::L(D(2), 3), N::L(D(4), 1));
    let j = |j: J, a: &N, b: &N| N::J(j, bx(a), bx(b));
    let (f, ab) = (N::F(bx(&a)), j(J::Ph(JoinType::Inner), &a, &b));
    vec![
        N::A(bx(&f)),
        N::S(bx(&f)),
        N::A(bx(&N::R(bx(&c)))),
        ab.clone(),
        N::A(bx(&j(J::Cl(JoinType::Right), &a, &f))),
        j(J::Nl(JoinType::Inner), &f, &b),
        j(J::Cross, &c, &N::A(bx(&b))),
        j(J::Union, &a, &N::F(bx(&b))),
        N::A(bx(&j(J::Union, &a, &N::A(bx(&b))))),
        N::A(bx(&j(J::Inter, &a, &b))),
        j(J::Smj(JoinType::Full), &a, &c),
        N::S(bx(&j(J::Union, &ab, &c))),
    ]
}
