//! Small physical plans over scripted leaves, built as DataFusion builds them for one node.
use crate::vexec::*;
use datafusion::arrow::compute::SortOptions;
use datafusion::common::{JoinSide, JoinType, NullEquality, Result};
use datafusion::functions_aggregate::count::count_udaf;
use datafusion::logical_expr::Operator;
use datafusion::physical_expr::aggregate::AggregateExprBuilder;
use datafusion::physical_expr::expressions::{BinaryExpr, Column, lit};
use datafusion::physical_expr::{LexOrdering, Partitioning, PhysicalExpr, PhysicalSortExpr};
use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode, PhysicalGroupBy};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::filter::FilterExec;
use datafusion::physical_plan::joins::utils::{ColumnIndex, JoinFilter};
use datafusion::physical_plan::joins::{CrossJoinExec, HashJoinExec, NestedLoopJoinExec, PartitionMode, SortMergeJoinExec};
use datafusion::physical_plan::limit::GlobalLimitExec;
use datafusion::physical_plan::projection::ProjectionExec;
use datafusion::physical_plan::repartition::RepartitionExec;
use datafusion::physical_plan::sorts::sort::SortExec;
use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
use datafusion::physical_plan::union::{InterleaveExec, UnionExec};
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum W {
    /// No handler answers for the leaf.
    No,
    D(usize),
    M(usize),
}

impl W {
    pub fn tag(&self) -> String {
        match self {
            W::No => String::new(),
            W::D(n) => format!("d{n}"),
            W::M(n) => format!("m{n}"),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum J {
    /// Collected build side.
    Cl(JoinType),
    /// Partitioned hash join.
    Ph(JoinType),
    Smj(JoinType),
    Nl(JoinType),
    Cross,
    Union,
    /// Union of inputs with the same hash partitioning.
    Inter,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum N {
    L(W, usize),
    /// Filter.
    F(Box<N>),
    /// Round robin.
    R(Box<N>),
    /// Hash partitioned by k.
    H(Box<N>),
    /// Grouped by k: partial, hash, final (or single).
    A(Box<N>),
    /// Grouped by nothing.
    A1(Box<N>),
    /// Sorted by (v, k).
    S(Box<N>),
    /// Sorted, first n.
    K(Box<N>, usize),
    /// Sorted, then skip 1 and fetch n over one partition.
    G(Box<N>, usize),
    J(J, Box<N>, Box<N>),
}

impl N {
    pub fn name(&self) -> String {
        match self {
            N::L(W::No, p) => format!("L{p}"),
            N::L(w, p) => format!("{}p{p}", w.tag()),
            N::F(i) => format!("F({})", i.name()),
            N::R(i) => format!("R({})", i.name()),
            N::H(i) => format!("H({})", i.name()),
            N::A(i) => format!("A({})", i.name()),
            N::A1(i) => format!("A1({})", i.name()),
            N::S(i) => format!("S({})", i.name()),
            N::K(i, n) => format!("K{n}({})", i.name()),
            N::G(i, n) => format!("G{n}({})", i.name()),
            N::J(j, l, r) => format!("{}({},{})", format!("{j:?}").replace(['(', ')'], ""), l.name(), r.name()),
        }
    }
    pub fn leaves(&self, out: &mut Vec<(W, usize)>) {
        match self {
            N::L(w, p) => out.push((*w, *p)),
            N::F(i) | N::R(i) | N::H(i) | N::A(i) | N::A1(i) | N::S(i) | N::K(i, _) | N::G(i, _) => i.leaves(out),
            N::J(_, l, r) => {
                l.leaves(out);
                r.leaves(out);
            }
        }
    }
}

pub struct Built {
    pub plan: Arc<dyn ExecutionPlan>,
    /// In the order of [N::leaves].
    pub srcs: Vec<SrcHandle>,
}

pub const ROWS: usize = 7;

/// Row i of partition p of leaf c; the rows of a partition are dealt out to the tasks.
pub fn leaf_rows(c: usize, part: usize) -> Vec<Kv> {
    (0..ROWS).map(|i| ((i + c != 4).then_some(((i + part) % 3) as i64), (c * 3 + part * 4 + i) as i64)).collect()
}

fn leaf(c: usize) -> SrcHandle {
    SrcBuilder::new(kv_schema(), move |s| {
        let rows: Vec<Kv> = leaf_rows(c, s.part).into_iter().enumerate().filter(|(i, _)| i % s.tasks == s.task).map(|x| x.1).collect();
        rows.chunks(3).map(|r| Item::Batch(kv_batch(r))).collect()
    })
    .build()
}

fn col(p: &Arc<dyn ExecutionPlan>, i: usize) -> Arc<dyn PhysicalExpr> {
    Arc::new(Column::new(p.schema().field(i).name(), i))
}

fn ordering(p: &Arc<dyn ExecutionPlan>, cols: &[usize]) -> LexOrdering {
    LexOrdering::new(cols.iter().map(|i| PhysicalSortExpr::new(col(p, *i), SortOptions::default()))).unwrap()
}

fn hashed(p: Arc<dyn ExecutionPlan>, tp: usize) -> Result<Arc<dyn ExecutionPlan>> {
    let k = col(&p, 0);
    Ok(Arc::new(RepartitionExec::try_new(p, Partitioning::Hash(vec![k], tp))?))
}

fn parts(p: &Arc<dyn ExecutionPlan>) -> usize {
    p.output_partitioning().partition_count()
}

fn one(p: Arc<dyn ExecutionPlan>) -> Arc<dyn ExecutionPlan> {
    if parts(&p) > 1 { Arc::new(CoalescePartitionsExec::new(p)) } else { p }
}

fn named(p: Arc<dyn ExecutionPlan>, idx: [usize; 2]) -> Result<Arc<dyn ExecutionPlan>> {
    let e: Vec<(Arc<dyn PhysicalExpr>, String)> = vec![(col(&p, idx[0]), "k".into()), (col(&p, idx[1]), "v".into())];
    Ok(Arc::new(ProjectionExec::try_new(e, p)?))
}

fn sorted(p: Arc<dyn ExecutionPlan>, fetch: Option<usize>) -> Arc<dyn ExecutionPlan> {
    let ord = ordering(&p, &[1, 0]);
    let n = parts(&p);
    let s: Arc<dyn ExecutionPlan> =
        Arc::new(SortExec::new(ord.clone(), p).with_preserve_partitioning(n > 1).with_fetch(fetch));
    if n > 1 { Arc::new(SortPreservingMergeExec::new(ord, s).with_fetch(fetch)) } else { s }
}

fn emits(t: JoinType) -> [usize; 2] {
    match t {
        JoinType::LeftSemi | JoinType::LeftAnti | JoinType::RightSemi | JoinType::RightAnti => [0, 1],
        JoinType::Right => [2, 1],
        _ => [0, 3],
    }
}

/// The single-node plan of a shape, for `tp` target partitions.
pub fn build(n: &N, tp: usize) -> Result<Built> {
    let mut srcs = vec![];
    let plan = go(n, tp, &mut srcs)?;
    Ok(Built { plan, srcs })
}

fn go(n: &N, tp: usize, srcs: &mut Vec<SrcHandle>) -> Result<Arc<dyn ExecutionPlan>> {
    Ok(match n {
        N::L(w, p) => {
            let s = leaf(srcs.len());
            let e: Arc<dyn ExecutionPlan> = s.0.exec_tagged(*p, &w.tag());
            srcs.push(s);
            e
        }
        N::F(i) => {
            let i = go(i, tp, srcs)?;
            Arc::new(FilterExec::try_new(Arc::new(BinaryExpr::new(col(&i, 1), Operator::GtEq, lit(1i64))), i)?)
        }
        N::R(i) => Arc::new(RepartitionExec::try_new(go(i, tp, srcs)?, Partitioning::RoundRobinBatch(tp))?),
        N::H(i) => hashed(go(i, tp, srcs)?, tp)?,
        N::A(i) | N::A1(i) => {
            let grouped = matches!(n, N::A(_));
            let i = go(i, tp, srcs)?;
            let by = |p: &Arc<dyn ExecutionPlan>| PhysicalGroupBy::new_single(if grouped { vec![(col(p, 0), "k".into())] } else { vec![] });
            let count = |p: &Arc<dyn ExecutionPlan>, name: &str| -> Result<_> {
                Ok(Arc::new(AggregateExprBuilder::new(count_udaf(), vec![col(p, 1)]).schema(p.schema()).alias(name).build()?))
            };
            let aggs = match grouped {
                true => vec![count(&i, "v")?],
                false => vec![count(&i, "k")?, count(&i, "v")?],
            };
            let no = vec![None; aggs.len()];
            let schema = i.schema();
            let out: Arc<dyn ExecutionPlan> = if parts(&i) == 1 {
                Arc::new(AggregateExec::try_new(AggregateMode::Single, by(&i), aggs, no, i, schema)?)
            } else {
                let p: Arc<dyn ExecutionPlan> = Arc::new(AggregateExec::try_new(AggregateMode::Partial, by(&i), aggs.clone(), no.clone(), i, schema.clone())?);
                let (mode, p) = match grouped {
                    true => (AggregateMode::FinalPartitioned, hashed(p, tp)?),
                    false => (AggregateMode::Final, one(p)),
                };
                Arc::new(AggregateExec::try_new(mode, by(&p), aggs, no, p, schema)?)
            };
            out
        }
        N::S(i) => sorted(go(i, tp, srcs)?, None),
        N::K(i, n) => sorted(go(i, tp, srcs)?, Some(*n)),
        N::G(i, n) => Arc::new(GlobalLimitExec::new(sorted(go(i, tp, srcs)?, Some(n + 1)), 1, Some(*n))),
        N::J(j, l, r) => {
            let (l, r) = (go(l, tp, srcs)?, go(r, tp, srcs)?);
            let on = |l: &Arc<dyn ExecutionPlan>, r: &Arc<dyn ExecutionPlan>| vec![(col(l, 0), col(r, 0))];
            match j {
                J::Cl(t) => {
                    let l = one(l);
                    let on = on(&l, &r);
                    let j = HashJoinExec::try_new(l, r, on, None, t, None, PartitionMode::CollectLeft, NullEquality::NullEqualsNothing, false)?;
                    named(Arc::new(j), emits(*t))?
                }
                J::Ph(t) => {
                    let (l, r) = (hashed(l, tp)?, hashed(r, tp)?);
                    let on = on(&l, &r);
                    let j = HashJoinExec::try_new(l, r, on, None, t, None, PartitionMode::Partitioned, NullEquality::NullEqualsNothing, false)?;
                    named(Arc::new(j), emits(*t))?
                }
                J::Smj(t) => {
                    let side = |p: Arc<dyn ExecutionPlan>| -> Result<Arc<dyn ExecutionPlan>> {
                        let p = hashed(p, tp)?;
                        Ok(Arc::new(SortExec::new(ordering(&p, &[0]), p).with_preserve_partitioning(true)))
                    };
                    let (l, r) = (side(l)?, side(r)?);
                    let on = on(&l, &r);
                    let j = SortMergeJoinExec::try_new(l, r, on, None, *t, vec![SortOptions::default()], NullEquality::NullEqualsNothing)?;
                    named(Arc::new(j), emits(*t))?
                }
                J::Nl(t) => {
                    let l = one(l);
                    let f = JoinFilter::new(
                        Arc::new(BinaryExpr::new(Arc::new(Column::new("a", 0)), Operator::Eq, Arc::new(Column::new("b", 1)))),
                        vec![ColumnIndex { index: 1, side: JoinSide::Left }, ColumnIndex { index: 1, side: JoinSide::Right }],
                        Arc::new(datafusion::arrow::datatypes::Schema::new(vec![
                            l.schema().field(1).clone().with_name("a"),
                            r.schema().field(1).clone().with_name("b"),
                        ])),
                    );
                    named(Arc::new(NestedLoopJoinExec::try_new(l, r, Some(f), t, None)?), emits(*t))?
                }
                J::Cross => named(Arc::new(CrossJoinExec::new(one(l), r)), [0, 3])?,
                J::Union => UnionExec::try_new(vec![named(l, [0, 1])?, named(r, [0, 1])?])?,
                // DataFusion only interleaves inputs of the same schema.
                J::Inter if l.schema().fields().iter().map(|f| f.is_nullable()).ne(r.schema().fields().iter().map(|f| f.is_nullable())) => {
                    return datafusion::common::plan_err!("cannot interleave");
                }
                J::Inter => Arc::new(InterleaveExec::try_new(vec![hashed(named(l, [0, 1])?, tp)?, hashed(named(r, [0, 1])?, tp)?])?),
            }
        }
    })
}
