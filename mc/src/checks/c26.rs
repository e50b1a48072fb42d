//! C26: every way to run a query runs exactly that query, once.
use super::Check;
use crate::checks::c06::rows_text;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::scen::*;
use crate::tab::*;
use async_trait::async_trait;
use datafusion::arrow::array::{AsArray, RecordBatch};
use datafusion::arrow::datatypes::{Field, Schema, SchemaRef, UInt64Type};
use datafusion::catalog::{Session, TableProvider};
use datafusion::common::{Result, exec_err};
use datafusion::dataframe::{DataFrame, DataFrameWriteOptions};
use datafusion::datasource::sink::{DataSink, DataSinkExec};
use datafusion::execution::object_store::ObjectStoreUrl;
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::logical_expr::dml::InsertOp;
use datafusion::logical_expr::{Expr, TableType};
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan};
use datafusion::prelude::{CsvReadOptions, ParquetReadOptions, SessionConfig, SessionContext};
use futures::{FutureExt, StreamExt};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn check() -> Check {
    Check {
        id: "C26",
        level: "model_checking",
        rule: "case = (way to run a query, query, cluster, planner mode, transport, kind of fault); every position of one fault; non-trivial = something was written or the execution failed",
        assumptions: &["bounds: see case ids", "a sink commits when its input ends without an error"],
        cases,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Way {
    Insert,
    /// The sink fails at its n-th batch (or at the end).
    InsertBad(usize),
    Overwrite,
    WriteTable,
    CopyCsv,
    CopyParquet,
    WriteJson,
    CreateTable,
    View,
    Prepared,
    Cache,
    Partitioned,
    Count,
    /// The same data frame twice.
    Twice,
    Explain,
    ExplainVerbose,
    ExplainInsert,
    Analyze,
    AnalyzeVerbose,
    AnalyzeInsert,
}
use Way::*;
const WAYS: [Way; 22] = [
    Insert,
    InsertBad(0),
    InsertBad(1),
    InsertBad(99),
    Overwrite,
    WriteTable,
    CopyCsv,
    CopyParquet,
    WriteJson,
    CreateTable,
    View,
    Prepared,
    Cache,
    Partitioned,
    Count,
    Twice,
    Explain,
    ExplainVerbose,
    ExplainInsert,
    Analyze,
    AnalyzeVerbose,
    AnalyzeInsert,
];

#[derive(Debug, Default)]
struct SinkState {
    calls: AtomicUsize,
    commits: AtomicUsize,
    rows: Mutex<Vec<RecordBatch>>,
    bad: Option<usize>,
}

#[derive(Debug, Clone)]
struct VSink {
    schema: SchemaRef,
    st: Arc<SinkState>,
}

impl DisplayAs for VSink {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "VSink")
    }
}

#[async_trait]
impl DataSink for VSink {
    fn schema(&self) -> &SchemaRef {
        &self.schema
    }
    async fn write_all(&self, mut data: SendableRecordBatchStream, _: &Arc<TaskContext>) -> Result<u64> {
        self.st.calls.fetch_add(1, SeqCst);
        let mut n = 0;
        let mut seen = 0;
        while let Some(b) = data.next().await {
            let b = b?;
            if self.st.bad == Some(seen) {
                return exec_err!("boom-sink");
            }
            seen += 1;
            n += b.num_rows() as u64;
            self.st.rows.lock().unwrap().push(b);
        }
        if self.st.bad.is_some() {
            return exec_err!("boom-sink");
        }
        self.st.commits.fetch_add(1, SeqCst);
        Ok(n)
    }
}

#[async_trait]
impl TableProvider for VSink {
    fn schema(&self) -> SchemaRef {
        self.schema.clone()
    }
    fn table_type(&self) -> TableType {
        TableType::Base
    }
    async fn scan(&self, _: &dyn Session, _: Option<&Vec<usize>>, _: &[Expr], _: Option<usize>) -> Result<Arc<dyn ExecutionPlan>> {
        exec_err!("a sink is not read")
    }
    async fn insert_into(&self, _: &dyn Session, input: Arc<dyn ExecutionPlan>, _: InsertOp) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::new(DataSinkExec::new(input, Arc::new(self.clone()), None)))
    }
}

#[derive(Default)]
struct Said {
    /// What was written or answered; several times if it was several times.
    rows: Vec<Vec<RecordBatch>>,
    /// How many rows the statement says there are.
    count: Option<u64>,
    /// What an EXPLAIN shows.
    text: Option<String>,
}

fn count_of(bs: &[RecordBatch]) -> Option<u64> {
    match bs {
        [b] if b.num_rows() == 1 => Some(b.column(0).as_primitive_opt::<UInt64Type>()?.value(0)),
        _ => None,
    }
}

async fn run_way(ctx: &SessionContext, mem: &Mem, sink: &Arc<SinkState>, way: Way, q: &str) -> Result<Said> {
    let df: DataFrame = ctx.sql(q).await?;
    let n = df.schema().fields().len();
    let cols: Vec<String> = (0..n).map(|i| format!("c{i}")).collect();
    let named = format!("SELECT * FROM ({q}) AS q({})", cols.join(", "));
    let fields: Vec<Field> = df.schema().fields().iter().enumerate().map(|(i, f)| Field::new(format!("c{i}"), f.data_type().clone(), true)).collect();
    ctx.register_table("sink", Arc::new(VSink { schema: Arc::new(Schema::new(fields)), st: sink.clone() }))?;
    let sql = async |s: String| ctx.sql(&s).await?.collect().await;
    let written = |count: Vec<RecordBatch>| Said { rows: vec![sink.rows.lock().unwrap().clone()], count: Some(count_of(&count).unwrap_or(u64::MAX)), text: None };
    let reader = || SessionContext::new_with_config_rt(SessionConfig::new().with_target_partitions(1), mem.env());
    // Nothing is written where there is nothing to write.
    let none = async || matches!(object_store::ObjectStore::list(mem.0.as_ref(), None).next().await, None);
    let shown = |bs: Vec<RecordBatch>| Said { text: Some(rows_text(&bs).join("\n")), ..Default::default() };
    Ok(match way {
        Insert | InsertBad(_) => written(sql(format!("INSERT INTO sink {q}")).await?),
        Overwrite => written(sql(format!("INSERT OVERWRITE sink {q}")).await?),
        WriteTable => written(df.write_table("sink", DataFrameWriteOptions::new()).await?),
        CopyCsv => {
            let c = sql(format!("COPY ({named}) TO '{ROOT}out/' STORED AS CSV OPTIONS ('format.has_header' 'false')")).await?;
            let back = if none().await { vec![] } else { reader().read_csv(format!("{ROOT}out/"), CsvReadOptions::new().has_header(false)).await?.collect().await? };
            Said { rows: vec![back], count: Some(count_of(&c).unwrap_or(u64::MAX)), text: None }
        }
        CopyParquet => {
            let c = sql(format!("COPY ({named}) TO '{ROOT}out/' STORED AS PARQUET")).await?;
            let back = if none().await { vec![] } else { reader().read_parquet(format!("{ROOT}out/"), ParquetReadOptions::default()).await?.collect().await? };
            Said { rows: vec![back], count: Some(count_of(&c).unwrap_or(u64::MAX)), text: None }
        }
        WriteJson => {
            let c = ctx.sql(&named).await?.write_json(&format!("{ROOT}out/"), DataFrameWriteOptions::new(), None).await?;
            Said { count: Some(count_of(&c).unwrap_or(u64::MAX)), ..Default::default() }
        }
        CreateTable => {
            sql(format!("CREATE TABLE made AS {named}")).await?;
            Said { rows: vec![ctx.table("made").await?.collect().await?], ..Default::default() }
        }
        View => {
            sql(format!("CREATE VIEW seen AS {named}")).await?;
            Said { rows: vec![sql("SELECT * FROM seen".into()).await?], ..Default::default() }
        }
        Prepared => {
            sql(format!("PREPARE p(BIGINT) AS SELECT * FROM ({named}) WHERE $1 = 1")).await?;
            Said { rows: vec![sql("EXECUTE p(1)".into()).await?], ..Default::default() }
        }
        Cache => {
            let c = ctx.sql(&named).await?.cache().await?;
            Said { rows: vec![c.clone().collect().await?, c.collect().await?], ..Default::default() }
        }
        Partitioned => {
            let mut out = vec![];
            let streams = df.execute_stream_partitioned().await?;
            for s in futures::future::join_all(streams.into_iter().map(|s| s.collect::<Vec<_>>())).await {
                for b in s {
                    out.push(b?);
                }
            }
            Said { rows: vec![out], ..Default::default() }
        }
        Count => Said { count: Some(df.count().await? as u64), ..Default::default() },
        Twice => Said { rows: vec![df.clone().collect().await?, df.collect().await?], ..Default::default() },
        Explain => shown(sql(format!("EXPLAIN {q}")).await?),
        ExplainVerbose => shown(sql(format!("EXPLAIN VERBOSE {q}")).await?),
        ExplainInsert => shown(sql(format!("EXPLAIN INSERT INTO sink {q}")).await?),
        Analyze => shown(sql(format!("EXPLAIN ANALYZE {q}")).await?),
        AnalyzeVerbose => shown(sql(format!("EXPLAIN ANALYZE VERBOSE {q}")).await?),
        AnalyzeInsert => {
            let t = shown(sql(format!("EXPLAIN ANALYZE INSERT INTO sink {q}")).await?);
            Said { rows: vec![sink.rows.lock().unwrap().clone()], ..t }
        }
    })
}

fn one(o: Setup, q: (&'static str, &'static str, Cut), way: Way, fault: Fault, ch: &Ch) -> RunResult {
    rt::sim(async {
        let (w, hit) = faulty_world(o, fault, ch, |b| b);
        let exp = truth(&w, q).await?;
        let mem = Mem::new();
        let url = ObjectStoreUrl::parse(ROOT).unwrap();
        w.ctx.runtime_env().register_object_store(url.as_ref(), mem.0.clone());
        let bad = if let InsertBad(n) = way { Some(n) } else { None };
        let sink = Arc::new(SinkState { bad, ..Default::default() });
        let what = || format!("{way:?} of {}", q.1);
        let r = AssertUnwindSafe(rt::vtimeout(HORIZON_SECS, run_way(&w.ctx, &mem, &sink, way, q.1))).catch_unwind().await;
        let faulted = w.fired() + hit.load(SeqCst) > 0;
        let r = match r {
            Ok(Err(())) => return viol("hang", format!("{} hangs", what())),
            Ok(Ok(r)) => r,
            // A leaf that the client itself runs.
            Err(_) if w.fired() > 0 => exec_err!("panic: {}", take_last_panic().unwrap_or_default()),
            Err(_) => return viol("panic", format!("{} panics: {}", what(), take_last_panic().unwrap_or_default())),
        };
        let (calls, commits) = (sink.calls.load(SeqCst), sink.commits.load(SeqCst));
        if calls > 1 {
            return viol("written-twice", format!("{} writes {calls} times", what()));
        }
        let inserts = matches!(way, Insert | InsertBad(_) | Overwrite | WriteTable | AnalyzeInsert);
        let n = exp.len() as u64;
        let said = match r {
            Err(e) => {
                if bad.is_some() && !faulted && !e.to_string().contains("boom-sink") {
                    return viol("sink-error", format!("{} fails with {e}", what()));
                }
                if bad.is_none() && !faulted {
                    return viol("error", format!("{} fails: {e}", what()));
                }
                // A loss that is noticed late is reported although the data are complete.
                let mut got = rows_text(&sink.rows.lock().unwrap());
                let mut want = exp.as_ref().clone();
                got.sort();
                want.sort();
                if commits > 0 && !(q.2 == Cut::Free && got.len() == want.len() || got == want) {
                    return viol("committed", format!("{} fails ({e}) after its sink accepted {got:?} instead of {want:?}", what()));
                }
                None
            }
            Ok(_) if bad.is_some() => return viol("sink-ok", format!("{} succeeds although the sink failed", what())),
            Ok(s) => Some(s),
        };
        if let Some(s) = &said {
            if inserts && commits != 1 {
                return viol("not-written", format!("{} succeeds after {commits} writes", what()));
            }
            if let Some(c) = s.count
                && c != n
            {
                return viol("count", format!("{} says {c} rows instead of {n}", what()));
            }
            for rows in &s.rows {
                let mut got = rows_text(rows);
                let mut want = exp.as_ref().clone();
                got.sort();
                want.sort();
                if !(q.2 == Cut::Free && got.len() == want.len() || got == want) {
                    return viol("rows", format!("{} gives {got:?} instead of {want:?}", what()));
                }
            }
            let opened: Vec<(&str, usize)> = w.tables.iter().filter(|t| !t.0.is_empty()).map(|t| (t.0, t.1.opened().values().sum())).collect();
            if matches!(way, Explain | ExplainVerbose | ExplainInsert) {
                if opened.iter().any(|t| t.1 > 0) || calls > 0 || !w.cluster.net.log().is_empty() {
                    return viol("explain-runs", format!("{} reads {opened:?} and sends {} messages", what(), w.cluster.net.log().len()));
                }
            }
            if let Some(t) = &s.text {
                if t.is_empty() {
                    return viol("explain-empty", format!("{} shows nothing", what()));
                }
                if way == AnalyzeVerbose && !t.contains(&format!("Output Rows|{n}")) {
                    return viol("analyze-rows", format!("{} does not say {n} rows: {t}", what()));
                }
            }
            // Reading a table twice takes two leaves or two executions.
            let runs = if way == Twice { 2 } else { 1 };
            for t in w.tables.iter().filter(|t| !t.0.is_empty()) {
                let leaves = q.1.split(|c: char| !c.is_alphanumeric() && c != '_').collect::<Vec<_>>().windows(2).filter(|w| ["FROM", "JOIN"].contains(&w[0]) && w[1] == t.0).count();
                if let Some((slot, n)) = t.1.opened().iter().find(|x| *x.1 > leaves * runs) {
                    return viol("read-twice", format!("{} opens {} {slot:?} {n} times", what(), t.0));
                }
            }
        }
        tokio::time::sleep(Duration::from_secs(30)).await;
        // A failing sink may end the query while tasks are still being set up.
        if !faulted && bad.is_none() {
            let running = w.cluster.tasks_running().await;
            if w.live() > 0 || running > 0 {
                return viol("leak", format!("{} leaves {} streams and {running} tasks", what(), w.live()));
            }
        }
        Ok(Obs {
            outcome: format!("{} {} {:?}", said.is_some(), calls, said.map(|s| s.count)),
            nontrivial: faulted || inserts || matches!(way, CopyCsv | CopyParquet | WriteJson | CreateTable | Cache),
            steps: w.cluster.net.log().len() as u64,
            ..Default::default()
        })
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let modes = [(Transport::Direct, false), (Transport::Grpc, true), (Transport::Direct, true), (Transport::Grpc, false)];
    for (i, q) in QUERIES.iter().enumerate() {
        for (j, way) in WAYS.into_iter().enumerate() {
            for (k, (tr, dynamic)) in modes.into_iter().enumerate() {
                let o = Setup { tr, dynamic, local: (i + j) % 3 == 0, ..SETUP };
                for (l, fault) in [Fault::None, Fault::Leaf, Fault::Msg, Fault::Crash].into_iter().enumerate() {
                    if !thorough && (fault == Fault::None && k > 1 || fault != Fault::None && (i + 3 * j + 5 * k + l) % 29 != 0) {
                        continue;
                    }
                    if fault != Fault::None && matches!(way, Explain | ExplainVerbose | ExplainInsert) {
                        continue;
                    }
                    let q = *q;
                    v.push(case(format!("{way:?}/{}/{}/{fault:?}/b1", q.0, o.short()), 1, move |ch| one(o, q, way, fault, ch)));
                }
            }
        }
    }
    v
}
