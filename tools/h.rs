// Helpers shared by the demonstrations: CSV tables in a scratch directory, an in-memory cluster,
// and the same query on one node.
#![allow(dead_code)]
use datafusion::arrow::util::display::{ArrayFormatter, FormatOptions};
use datafusion::arrow::array::RecordBatch;
use datafusion::execution::SessionStateBuilder;
use datafusion::prelude::*;
use datafusion_distributed::test_utils::in_memory_channel_resolver::{
    InMemoryChannelResolver, InMemoryWorkerResolver,
};
use datafusion_distributed::*;
use std::path::PathBuf;
use std::time::Duration;

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let p = std::env::temp_dir().join(format!("seeded-demo-{}-{}", std::process::id(), uuid::Uuid::new_v4()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    /// A table directory with one CSV file per element of `files`.
    fn csv(&self, table: &str, header: &str, files: &[String]) {
        let d = self.0.join(table);
        std::fs::create_dir_all(&d).unwrap();
        for (i, f) in files.iter().enumerate() {
            std::fs::write(d.join(format!("f{i}.csv")), format!("{header}\n{f}")).unwrap();
        }
    }
    async fn open(&self, ctx: &SessionContext, tables: &[&str]) {
        for t in tables {
            let p = self.0.join(t);
            ctx.register_csv(*t, &format!("{}/", p.to_str().unwrap()), CsvReadOptions::default()).await.unwrap();
        }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn single(tp: usize) -> SessionContext {
    SessionContext::new_with_config(SessionConfig::new().with_target_partitions(tp))
}

fn cluster(
    workers: usize,
    tp: usize,
    f: impl FnOnce(SessionStateBuilder) -> SessionStateBuilder,
) -> SessionContext {
    let b = SessionStateBuilder::new()
        .with_default_features()
        .with_config(SessionConfig::new().with_target_partitions(tp))
        .with_distributed_planner()
        .with_distributed_worker_resolver(InMemoryWorkerResolver::new(workers))
        .with_distributed_channel_resolver(InMemoryChannelResolver::from_session_builder(DefaultSessionBuilder))
        .with_distributed_file_scan_config_bytes_per_partition(1)
        .unwrap();
    SessionContext::from(f(b).build())
}

fn rows(batches: &[RecordBatch]) -> Vec<String> {
    let o = FormatOptions::default().with_null("NULL");
    let mut out = vec![];
    for b in batches {
        let c: Vec<_> = b.columns().iter().map(|c| ArrayFormatter::try_new(c, &o).unwrap()).collect();
        for r in 0..b.num_rows() {
            out.push(c.iter().map(|c| c.value(r).to_string()).collect::<Vec<_>>().join("|"));
        }
    }
    out
}

async fn run(ctx: &SessionContext, sql: &str) -> Result<Vec<String>, String> {
    let f = async { ctx.sql(sql).await?.collect().await };
    match tokio::time::timeout(Duration::from_secs(60), f).await {
        Err(_) => Err("timed out".into()),
        Ok(Err(e)) => Err(e.to_string()),
        Ok(Ok(b)) => Ok(rows(&b)),
    }
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

/// Both answers, sorted.
async fn both(d: &SessionContext, s: &SessionContext, sql: &str) -> (Vec<String>, Vec<String>) {
    (sorted(run(d, sql).await.unwrap()), sorted(run(s, sql).await.unwrap()))
}

async fn plan_text(ctx: &SessionContext, sql: &str) -> String {
    let p = ctx.sql(sql).await.unwrap().create_physical_plan().await.unwrap();
    display_plan_ascii(p.as_ref(), false)
}
