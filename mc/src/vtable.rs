//! SQL tables over scripted leaves.
use crate::vexec::*;
use async_trait::async_trait;
use datafusion::arrow::datatypes::SchemaRef;
use datafusion::catalog::{Session, TableProvider};
use datafusion::common::Result;
use datafusion::logical_expr::{Expr, TableType};
use datafusion::physical_plan::ExecutionPlan;
use std::sync::Arc;

#[derive(Clone)]
pub struct VTable {
    pub src: Arc<Src>,
    pub parts: usize,
    pub tag: String,
}

impl std::fmt::Debug for VTable {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "VTable({})", self.src.id)
    }
}

#[async_trait]
impl TableProvider for VTable {
    fn schema(&self) -> SchemaRef {
        self.src.schema.clone()
    }
    fn table_type(&self) -> TableType {
        TableType::Base
    }
    async fn scan(
        &self,
        _: &dyn Session,
        projection: Option<&Vec<usize>>,
        _: &[Expr],
        _: Option<usize>,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::new(VExec::new(self.src.clone(), self.parts, projection.cloned(), self.tag.as_bytes().to_vec())))
    }
}

/// A table of `rows`, spread over (task, partition) by `place` (row index, tasks, parts).
pub fn placed(
    rows: Vec<Kv>,
    batch: usize,
    place: impl Fn(usize, usize, usize) -> (usize, usize) + Send + Sync + 'static,
) -> SrcHandle {
    SrcBuilder::new(kv_schema(), move |s| {
        let mine: Vec<Kv> = rows
            .iter()
            .enumerate()
            .filter(|(i, _)| place(*i, s.tasks, s.parts) == (s.task, s.part))
            .map(|(_, r)| r.clone())
            .collect();
        mine.chunks(batch.max(1)).map(|r| Item::Batch(kv_batch(r))).collect()
    })
    .build()
}
