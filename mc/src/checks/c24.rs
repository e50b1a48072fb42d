//! C24: plans whose network boundaries were placed by the user compute what the same plan computes
//! without them.
use super::Check;
use super::c02::hash;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::vexec::*;
use datafusion::common::{JoinType, NullEquality, Result};
use datafusion::logical_expr::Operator;
use datafusion::physical_expr::expressions::{BinaryExpr, Column, lit};
use datafusion::physical_expr::{LexOrdering, Partitioning, PhysicalSortExpr};
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::filter::FilterExec;
use datafusion::physical_plan::joins::{HashJoinExec, PartitionMode};
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::sorts::sort::SortExec;
use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
use datafusion::physical_plan::union::UnionExec;
use datafusion_distributed::*;
use futures::FutureExt;
use std::panic::AssertUnwindSafe;
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C24",
        level: "model_checking",
        rule: "case = (number of boundaries, leaf partitions, top of the plan, transport, leaf scaling); inside a case every assignment of task counts, boundary kinds and operators to the stages is a branch; non-trivial = at least one boundary is between more than one task",
        assumptions: &["the task counts of neighbouring boundaries agree, as documented", "static planning (boundaries placed by the user)", "bounds: see case ids"],
        cases,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Nothing,
    Filter,
    RoundRobin,
    Coalesce,
    /// The rows of another leaf.
    Union,
    /// The rows of another stage.
    UnionStage,
    /// A join with a table that is broadcast from two tasks.
    Join,
}
const OPS: [Op; 7] = [Op::Nothing, Op::Filter, Op::RoundRobin, Op::Coalesce, Op::Union, Op::UnionStage, Op::Join];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Edge {
    Coalesce,
    Shuffle(usize),
}
const EDGES: [Edge; 4] = [Edge::Coalesce, Edge::Shuffle(2), Edge::Shuffle(1), Edge::Shuffle(3)];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Top {
    Merge,
    Sorted,
    Fetch,
}

#[derive(Clone, Copy, Debug)]
struct O {
    edges: usize,
    parts: usize,
    max: usize,
    top: Top,
    tr: Transport,
    scale: bool,
}

fn table(n: i64, from: i64) -> (SrcHandle, Vec<Kv>) {
    let rows: Vec<Kv> = (0..n).map(|i| ((i != 5).then_some(i % 4), from + i)).collect();
    let mine = rows.clone();
    let src = SrcBuilder::new(kv_schema(), move |s| {
        let r: Vec<Kv> = mine.iter().enumerate().filter(|(i, _)| (i % s.tasks, (i / s.tasks) % s.parts) == (s.task, s.part)).map(|r| *r.1).collect();
        r.chunks(2).map(|r| Item::Batch(kv_batch(r))).collect()
    })
    .build();
    (src, rows)
}

fn col(name: &str, i: usize) -> Arc<Column> {
    Arc::new(Column::new(name, i))
}

fn by_v(schema: usize) -> LexOrdering {
    LexOrdering::new([PhysicalSortExpr::new_default(col("v", schema))]).unwrap()
}

fn one(o: O, ch: &Ch) -> RunResult {
    rt::sim(async {
        let (t, rt_) = table(12, 0);
        let (u, ru) = table(5, 100);
        let (m, rm) = table(3, 200);
        let (s, rs) = table(4, 300);
        // Task counts of the stages, from the leaves to the head stage.
        let mut counts: Vec<usize> = (0..o.edges).map(|i| 1 + choose(ch, o.max, |c| format!("stage {i}: {} tasks", c + 1))).collect();
        counts.push(1);
        let mut plan: Arc<dyn ExecutionPlan> = t.0.exec(o.parts);
        let mut exp: Vec<Kv> = rt_;
        let mut desc = format!("leaf x{}", o.parts);
        for i in 0..=o.edges {
            let n = counts[i];
            // The head stage stays simple unless there is room for a choice.
            let op = OPS[choose(ch, if i == o.edges { 3 } else { OPS.len() }, |c| format!("stage {i}: {:?}", OPS[c]))];
            desc += &format!(" {op:?}@{n}");
            let built = match op {
                Op::Nothing => Ok(plan),
                Op::Filter => {
                    exp.retain(|r| r.1 != 3 && r.1 != 101);
                    let not = |p: Arc<dyn ExecutionPlan>, x: i64| FilterExec::try_new(Arc::new(BinaryExpr::new(col("v", 1), Operator::NotEq, lit(x))), p).map(|f| Arc::new(f) as Arc<dyn ExecutionPlan>);
                    not(plan, 3).and_then(|p| not(p, 101))
                }
                Op::RoundRobin => RepartitionExec::try_new(plan, Partitioning::RoundRobinBatch(3)).map(|p| Arc::new(p) as _),
                Op::Coalesce => Ok(Arc::new(CoalescePartitionsExec::new(plan)) as _),
                Op::Union => {
                    exp.extend(ru.clone());
                    UnionExec::try_new(vec![plan, u.0.exec(2)])
                }
                Op::UnionStage => {
                    exp.extend(rs.clone());
                    let r = NetworkShuffleExec::try_new(hash(s.0.exec(2), 2), 2);
                    r.and_then(|b| UnionExec::try_new(vec![plan, Arc::new(b)]))
                }
                Op::Join => {
                    // Keeps (k, v) of the rows that have a partner: every k of m is unique.
                    let keys: Vec<_> = rm.iter().map(|r| r.0).collect();
                    exp.retain(|r| r.0.is_some() && keys.contains(&r.0));
                    let b = Arc::new(BroadcastExec::new(Arc::new(CoalescePartitionsExec::new(m.0.exec(2))), 1));
                    NetworkBroadcastExec::try_new(b, 2).and_then(|b| {
                        let j = HashJoinExec::try_new(
                            Arc::new(CoalescePartitionsExec::new(Arc::new(b))),
                            plan,
                            vec![(col("k", 0), col("k", 0))],
                            None,
                            &JoinType::Inner,
                            Some(vec![2, 3]),
                            PartitionMode::CollectLeft,
                            NullEquality::NullEqualsNothing,
                            false,
                        )?;
                        Ok(Arc::new(j) as Arc<dyn ExecutionPlan>)
                    })
                }
            };
            plan = df_err(built, "build")?;
            if i == o.edges {
                break;
            }
            let next = counts[i + 1];
            let last = i + 1 == o.edges;
            // Sorted streams survive a coalesce only.
            let e = if last && o.top != Top::Merge { Edge::Coalesce } else { EDGES[choose(ch, EDGES.len(), |c| format!("boundary {i}: {:?}", EDGES[c]))] };
            desc += &format!(" {e:?}");
            if last && o.top == Top::Sorted {
                plan = Arc::new(SortExec::new(by_v(1), plan).with_preserve_partitioning(true));
            }
            let b: Result<Arc<dyn ExecutionPlan>> = match e {
                Edge::Coalesce => NetworkCoalesceExec::try_new(plan, n, next).map(|b| Arc::new(b) as _),
                Edge::Shuffle(q) => NetworkShuffleExec::try_new(hash(plan, q), n).map(|b| Arc::new(b) as _),
            };
            plan = df_err(b, "boundary")?;
        }
        let top: Arc<dyn ExecutionPlan> = match o.top {
            Top::Merge => Arc::new(CoalescePartitionsExec::new(plan)),
            Top::Sorted => {
                // A head stage operator may have lost the order.
                Arc::new(SortPreservingMergeExec::new(by_v(1), Arc::new(SortExec::new(by_v(1), plan).with_preserve_partitioning(true))))
            }
            Top::Fetch => Arc::new(CoalescePartitionsExec::new(plan).with_fetch(Some(4))),
        };
        let cluster = Cluster::new(3, o.tr);
        let (ctx, plan) = match plan_on(&cluster, top, cfg(2), |b| match o.scale {
            false => b,
            true => b.with_distributed_scale_up_leaf_node_handler(|ev: ScaleUpLeafNodeEvent<'_>| {
                let v = ev.plan.downcast_ref::<VExec>()?;
                // More partitions than the planner knew of, unless there is one only.
                let p = if v.parts == 1 { 1 } else { v.parts + 1 };
                let l = DistributedLeafExec::try_new(Arc::clone(ev.plan), (0..ev.task_count).map(|_| Arc::new(v.with_parts(p)) as Arc<dyn ExecutionPlan>));
                Some(l.map(|l| ScaleUpLeafNodeEventResponse::new(Arc::new(l))))
            }),
        })
        .await
        {
            Ok(p) => p,
            Err(e) => return viol("plan", format!("{desc}: {e}")),
        };
        if std::env::var("MC_PLAN").is_ok() {
            println!("{desc}\n{}", display_plan_ascii(plan.as_ref(), false));
        }
        let got = match AssertUnwindSafe(run_to_end(&ctx, plan)).catch_unwind().await {
            Err(_) => return viol("panic", format!("{desc}: panic {}", take_last_panic().unwrap_or_default())),
            Ok(Outcome::Hang(_)) => return viol("hang", desc),
            Ok(Outcome::Err(e, _)) => return viol("error", format!("{desc}: {e}")),
            Ok(Outcome::Rows(b)) => b.iter().flat_map(kv_rows).collect::<Vec<_>>(),
        };
        let mut sorted = got.clone();
        sorted.sort_by_key(|r| (r.1, r.0));
        exp.sort_by_key(|r| (r.1, r.0));
        let right = match o.top {
            Top::Merge => sorted == exp,
            Top::Sorted => sorted == exp && got.windows(2).all(|w| w[0].1 <= w[1].1),
            Top::Fetch => {
                let mut left = exp.clone();
                got.len() == exp.len().min(4) && got.iter().all(|r| left.iter().position(|x| x == r).map(|i| left.remove(i)).is_some())
            }
        };
        if !right {
            return viol("rows", format!("{desc}: {got:?}, expected {exp:?}"));
        }
        // Every partition of every leaf was read once (a fetch may leave some out).
        for (name, src) in [("t", &t), ("u", &u), ("m", &m), ("s", &s)] {
            let opened = src.opened();
            if opened.values().any(|n| *n > 1) && !(name == "u" || name == "s" || name == "m") {
                return viol("opened", format!("{desc}: {name}: {opened:?}"));
            }
        }
        Ok(Obs { outcome: format!("{} {}", counts.len(), exp.len()), nontrivial: counts.iter().any(|c| *c > 1), steps: cluster.net.log().len() as u64, ..Default::default() })
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for tr in [Transport::Direct, Transport::Grpc] {
        for scale in [false, true] {
            for top in [Top::Merge, Top::Sorted, Top::Fetch] {
                for parts in [1, 2, 3] {
                    for edges in [1, 2, 3] {
                        let max = match (edges, thorough) {
                            (1, _) => 5,
                            (2, false) => 3,
                            (2, true) => 4,
                            (_, false) => 2,
                            (_, true) => 3,
                        };
                        // All of them, or those with few unusual choices.
                        let bound = match (edges, thorough) {
                            (1, _) => 9,
                            (2, false) => 2,
                            (2, true) => 9,
                            (_, false) => 2,
                            (_, true) => 4,
                        };
                        let o = O { edges, parts, max, top, tr, scale };
                        v.push(case(format!("{tr:?}/e{edges}p{parts}n{max}/{top:?}{}/b{bound}", if scale { "-scaled" } else { "" }), bound, move |ch| one(o, ch)));
                    }
                }
            }
        }
    }
    v
}
