//! SQL over the same small tables in several physical layouts, on one node and on the cluster.
use crate::checks::c06::rows_text;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::tab::*;
use datafusion::arrow::array::{ArrayRef, Int64Array, RecordBatch, StringArray};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::catalog::memory::DataSourceExec;
use datafusion::common::Result;
use datafusion::datasource::file_format::{FileFormat, csv::CsvFormat, parquet::ParquetFormat};
use datafusion::datasource::listing::*;
use datafusion::datasource::physical_plan::FileScanConfig;
use datafusion::execution::SessionStateBuilder;
use datafusion::logical_expr::col;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_distributed::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub fn schema() -> SchemaRef {
    Arc::new(Schema::new(vec![
        Field::new("g", DataType::Int64, true),
        Field::new("x", DataType::Int64, true),
        Field::new("s", DataType::Utf8, true),
        Field::new("k", DataType::Int64, false),
    ]))
}

/// A wide column that no query reads, so that byte ranges of a file hold different rows.
fn padded(b: RecordBatch) -> RecordBatch {
    let mut f: Vec<_> = b.schema().fields().iter().cloned().collect();
    f.push(Arc::new(Field::new("pad", DataType::Utf8, false)));
    let mut c = b.columns().to_vec();
    c.push(Arc::new(StringArray::from_iter_values((0..b.num_rows()).map(|i| format!("{i:0>700}")))));
    RecordBatch::try_new(Arc::new(Schema::new(f)), c).unwrap()
}

pub type Row = (Option<i64>, Option<i64>, Option<String>, i64);

pub fn batch(rows: &[Row]) -> RecordBatch {
    let g: ArrayRef = Arc::new(Int64Array::from_iter(rows.iter().map(|r| r.0)));
    let x: ArrayRef = Arc::new(Int64Array::from_iter(rows.iter().map(|r| r.1)));
    let s: ArrayRef = Arc::new(StringArray::from_iter(rows.iter().map(|r| r.2.clone())));
    let k: ArrayRef = Arc::new(Int64Array::from_iter_values(rows.iter().map(|r| r.3)));
    RecordBatch::try_new(schema(), vec![g, x, s, k]).unwrap()
}

/// Tables t (25 rows), u (14), d (4), e (0): nulls, duplicates, skew.
pub fn rows(table: &str) -> Vec<Row> {
    let (n, base) = match table {
        "t" => (25, 0),
        "u" => (14, 100),
        "d" => (4, 200),
        _ => (0, 0),
    };
    (0..n)
        .map(|i: i64| {
            let h = (i * 7 + base / 50) % 11;
            let g = match h {
                0 => None,
                1..=4 => Some(1),
                _ => Some(h % 5),
            };
            let x = if i % 6 == 5 { None } else { Some((i * 5 + base) % 9) };
            let s = if i % 5 == 3 { None } else { Some(format!("s{}", (i + base / 100) % 4)) };
            (g, x, s, base + i)
        })
        .collect()
}

pub const TABLES: [&str; 4] = ["t", "u", "d", "e"];

pub struct Layout {
    pub name: &'static str,
    pub mem: Mem,
    sorted: bool,
    csv: bool,
}

fn split(rows: Vec<Row>, pieces: usize) -> Vec<Vec<Row>> {
    let n = rows.len();
    (0..pieces).map(|i| rows[i * n / pieces..(i + 1) * n / pieces].to_vec()).collect()
}

fn layout(name: &'static str, pieces: fn(&str) -> usize, per_group: usize, empty_file: bool, sorted: bool, csv: bool) -> Layout {
    let mem = Mem::new();
    for t in TABLES {
        let mut files = split(rows(t), pieces(t));
        if empty_file {
            files.insert(1, vec![]);
        }
        for (i, f) in files.iter().enumerate() {
            let b = batch(f);
            let bytes = if csv { csv_bytes(&[b]) } else { parquet_bytes(&[padded(b)], per_group) };
            mem.put(&format!("{t}/f{i}.{}", if csv { "csv" } else { "parquet" }), bytes);
        }
    }
    Layout { name, mem, sorted, csv }
}

pub fn layouts() -> &'static [Layout] {
    static L: OnceLock<Vec<Layout>> = OnceLock::new();
    L.get_or_init(|| {
        vec![
            layout("one", |_| 1, 100, false, false, false),
            layout("three", |t| if t == "t" { 3 } else { 2 }, 4, false, false, false),
            layout("many", |t| if t == "t" { 7 } else { 1 }, 2, true, false, false),
            layout("sorted", |t| if t == "d" { 1 } else { 3 }, 3, false, true, false),
            layout("sorted1", |_| 1, 3, false, true, false),
            layout("csv", |t| if t == "u" { 4 } else { 1 }, 0, false, false, true),
        ]
    })
}

pub async fn register(ctx: &SessionContext, l: &Layout) -> Result<()> {
    for t in TABLES {
        let f: Arc<dyn FileFormat> = if l.csv { Arc::new(CsvFormat::default().with_has_header(false)) } else { Arc::new(ParquetFormat::default()) };
        let mut o = ListingOptions::new(f).with_file_extension(if l.csv { "csv" } else { "parquet" });
        if l.sorted {
            o = o.with_file_sort_order(vec![vec![col("k").sort(true, false)]]);
        }
        let c = ListingTableConfig::new(ListingTableUrl::parse(format!("{ROOT}{t}/"))?).with_listing_options(o).with_schema(schema());
        ctx.register_table(t, Arc::new(ListingTable::try_new(c)?))?;
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Opt {
    pub layout: usize,
    pub workers: usize,
    pub tp: usize,
    /// Desired tasks of a scan: (t, other tables, is the latter a maximum).
    pub tasks: (usize, usize, bool),
    pub bcast: bool,
    pub iso: bool,
    pub partial: bool,
    pub dynamic: bool,
    pub metrics: bool,
    /// 0 default, 1 partitioned hash joins, 2 sort-merge joins, 3 collected joins.
    pub join: u8,
    pub batch: usize,
    /// DataFusion's prefer_existing_sort.
    pub pes: bool,
    pub tr: Transport,
    /// The client shares its process with the first worker.
    pub local: bool,
    /// max_tasks_per_stage (0: one task per worker).
    pub max: usize,
}

pub const BASE: Opt = Opt {
    layout: 1,
    workers: 3,
    tp: 2,
    tasks: (3, 3, false),
    bcast: true,
    iso: true,
    partial: false,
    dynamic: false,
    metrics: false,
    join: 0,
    batch: 8192,
    pes: false,
    tr: Transport::Direct,
    local: false,
    max: 0,
};

impl Opt {
    pub fn name(&self) -> String {
        let mut s = format!("{}.w{}.tp{}.d{}-{}{}", layouts()[self.layout].name, self.workers, self.tp, self.tasks.0, if self.tasks.2 { "m" } else { "" }, self.tasks.1);
        for (on, n) in [(!self.bcast, ".nobc"), (!self.iso, ".noiso"), (self.partial, ".pr"), (self.dynamic, ".dyn"), (self.metrics, ".met"), (self.pes, ".pes"), (self.local, ".local"), (self.tr == Transport::Grpc, ".grpc")] {
            if on {
                s += n;
            }
        }
        if self.join > 0 {
            s += &format!(".j{}", self.join);
        }
        if self.max > 0 {
            s += &format!(".max{}", self.max);
        }
        if self.batch != 8192 {
            s += &format!(".b{}", self.batch);
        }
        s
    }
    pub fn cfg(&self) -> SessionConfig {
        let mut c = SessionConfig::new().with_target_partitions(self.tp).with_batch_size(self.batch);
        let o = c.options_mut();
        o.optimizer.prefer_existing_sort = self.pes;
        match self.join {
            1 | 2 => {
                o.optimizer.hash_join_single_partition_threshold = 0;
                o.optimizer.hash_join_single_partition_threshold_rows = 0;
                o.optimizer.prefer_hash_join = self.join == 1;
            }
            3 => {
                o.optimizer.hash_join_single_partition_threshold = 1 << 30;
                o.optimizer.hash_join_single_partition_threshold_rows = 1 << 30;
            }
            _ => {}
        }
        c
    }
}

pub fn scan_table(p: &Arc<dyn ExecutionPlan>) -> Option<String> {
    let fs = p.downcast_ref::<DataSourceExec>()?.data_source().downcast_ref::<FileScanConfig>()?;
    let f = fs.file_groups.iter().flat_map(|g| g.files()).next()?;
    Some(f.path().to_string().split('/').next().unwrap().to_string())
}

pub struct Sim {
    pub cluster: Cluster,
    pub ctx: SessionContext,
    pub one: SessionContext,
}

pub async fn open(o: Opt, f: impl FnOnce(SessionStateBuilder) -> SessionStateBuilder) -> Sim {
    open_with(o, None, f).await
}

pub async fn open_with(o: Opt, hook: Option<StateHook>, f: impl FnOnce(SessionStateBuilder) -> SessionStateBuilder) -> Sim {
    let l = &layouts()[o.layout];
    let m2 = l.mem.clone();
    let cluster = Cluster::with(o.workers, o.tr, hook, move || m2.env());
    let urls = cluster.urls.clone();
    let ctx = cluster.session(o.cfg(), |b| {
        let b = b
            .with_runtime_env(l.mem.env())
            .with_distributed_desired_task_count_handler(move |ev: DesiredTaskCountEvent<'_>| {
                let t = scan_table(ev.plan)?;
                let (n, max) = if t == "t" { (o.tasks.0, false) } else { (o.tasks.1, o.tasks.2) };
                Some(Ok(if max { DesiredTaskCountEventResponse::maximum(n) } else { DesiredTaskCountEventResponse::desired(n) }))
            })
            .with_distributed_route_tasks_handler(fixed_routing(urls))
            .with_distributed_broadcast_joins(o.bcast)
            .and_then(|b| b.with_distributed_children_isolator_unions(o.iso))
            .and_then(|b| b.with_distributed_partial_reduce(o.partial))
            .and_then(|b| b.with_distributed_metrics_collection(o.metrics))
            .and_then(|b| b.with_distributed_dynamic_task_count(o.dynamic))
            .and_then(|b| b.with_distributed_dynamic_bytes_per_partition(64))
            .and_then(|b| b.with_distributed_max_tasks_per_stage(o.max))
            .unwrap();
        f(match o.local {
            true => b.with_distributed_local_worker_context(cluster.local_worker()),
            false => b,
        })
    });
    register(&ctx, l).await.unwrap();
    let one = SessionContext::new_with_config_rt(o.cfg(), l.mem.env());
    register(&one, l).await.unwrap();
    Sim { cluster, ctx, one }
}

/// What the rows of a query are compared by.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cmp {
    Multiset,
    /// The order is fully determined.
    Sequence,
    /// Any n rows of what the query gives without its final "LIMIT n".
    AnyOf(usize),
    /// Ordered by the first output column only, then limited to n rows.
    Prefix(usize),
}

fn truths() -> &'static Mutex<HashMap<String, Arc<Vec<String>>>> {
    static T: OnceLock<Mutex<HashMap<String, Arc<Vec<String>>>>> = OnceLock::new();
    T.get_or_init(Default::default)
}

/// The answer of plain DataFusion with one partition over single files.
pub async fn truth(sql: &str) -> Arc<Vec<String>> {
    if let Some(t) = truths().lock().unwrap().get(sql) {
        return t.clone();
    }
    let l = &layouts()[0];
    let one = SessionContext::new_with_config_rt(SessionConfig::new().with_target_partitions(1), l.mem.env());
    register(&one, l).await.unwrap();
    let r = match one.sql(sql).await {
        Ok(d) => d.collect().await.unwrap_or_else(|e| panic!("{sql}: {e}")),
        Err(e) => panic!("{sql}: {e}"),
    };
    let t = Arc::new(rows_text(&r));
    truths().lock().unwrap().insert(sql.to_string(), t.clone());
    t
}

pub fn multiset_minus(a: &[String], b: &[String]) -> Vec<String> {
    let mut m: HashMap<&String, i64> = HashMap::new();
    for x in b {
        *m.entry(x).or_default() += 1;
    }
    a.iter()
        .filter(|x| {
            let c = m.entry(x).or_default();
            *c -= 1;
            *c < 0
        })
        .cloned()
        .collect()
}

/// None = the rows are an answer of the query. `full` is the answer without the final limit.
pub fn wrong(cmp: Cmp, got: &[String], full: &[String]) -> Option<String> {
    let first = |r: &String| r.split('|').next().unwrap_or("").to_string();
    match cmp {
        Cmp::Multiset | Cmp::Sequence => {
            if cmp == Cmp::Sequence && got == full {
                return None;
            }
            let (extra, missing) = (multiset_minus(got, full), multiset_minus(full, got));
            if !extra.is_empty() || !missing.is_empty() {
                return Some(format!("extra rows {extra:?}, missing rows {missing:?}"));
            }
            (cmp == Cmp::Sequence).then(|| format!("wrong order: {got:?} instead of {full:?}"))
        }
        Cmp::AnyOf(n) | Cmp::Prefix(n) => {
            if got.len() != n.min(full.len()) {
                return Some(format!("{} rows instead of {}", got.len(), n.min(full.len())));
            }
            let extra = multiset_minus(got, full);
            if !extra.is_empty() {
                return Some(format!("rows that are not in the unlimited answer: {extra:?}"));
            }
            if let Cmp::Prefix(_) = cmp {
                let (a, b): (Vec<_>, Vec<_>) = (got.iter().map(first).collect(), full.iter().take(n).map(first).collect());
                if a != b {
                    return Some(format!("sort keys {a:?} instead of {b:?}"));
                }
            }
            None
        }
    }
}

#[derive(Clone, Debug)]
pub struct Query {
    pub name: String,
    pub sql: String,
    pub cmp: Cmp,
}

impl Query {
    pub fn unlimited(&self) -> String {
        match self.cmp {
            Cmp::AnyOf(_) | Cmp::Prefix(_) => self.sql[..self.sql.rfind(" LIMIT ").unwrap()].to_string(),
            _ => self.sql.clone(),
        }
    }
}

/// Runs the query on the cluster and compares it with the single-node answer.
pub async fn run_query(o: Opt, q: &Query, prep: impl FnOnce(&Cluster)) -> RunResult {
    let full = truth(&q.unlimited()).await;
    let sim = open(o, |b| b).await;
    prep(&sim.cluster);
    let planned = async { sim.ctx.sql(&q.sql).await?.create_physical_plan().await }.await;
    // Whatever goes wrong must not go wrong the same way on one node.
    let one_node_too = async || -> bool {
        match async { sim.one.sql(&q.sql).await?.collect().await }.await {
            Err(_) => true,
            Ok(r) => wrong(q.cmp, &rows_text(&r), &full).is_some(),
        }
    };
    let plan = match planned {
        Ok(p) => p,
        Err(e) => {
            if one_node_too().await {
                return Ok(Obs { outcome: "one node differs as well".into(), ..Default::default() });
            }
            return viol("planning-error", format!("{}: planning failed: {e}", q.sql));
        }
    };
    let shown = display_plan_ascii(plan.as_ref(), false);
    if std::env::var("MC_PLAN").is_ok() {
        println!("{}\n{shown}", q.sql);
    }
    let res = run_to_end(&sim.ctx, plan.clone()).await;
    let shown = if o.dynamic { format!("{shown}\n(dynamic)") } else { shown };
    let (key, msg): (String, String) = match res {
        Outcome::Rows(r) => {
            let got = rows_text(&r);
            match wrong(q.cmp, &got, &full) {
                None => {
                    let st = stage_tasks(&sim.cluster.net.log());
                    let mut tasks: Vec<usize> = st.values().map(|s| s.len()).collect();
                    if o.dynamic {
                        tasks.sort();
                    }
                    // Hash tables are seeded at random: the order of rows that the query leaves
                    // open is not part of the outcome.
                    let mut rows = got;
                    if q.cmp != Cmp::Sequence {
                        rows.sort();
                    }
                    if matches!(q.cmp, Cmp::AnyOf(_) | Cmp::Prefix(_)) {
                        rows = vec![rows.len().to_string()];
                    }
                    return Ok(Obs {
                        outcome: format!("{tasks:?}|{}", h64(&rows.join("\n"))),
                        nontrivial: tasks.iter().any(|t| *t > 1),
                        steps: sim.cluster.net.log().len() as u64,
                        ..Default::default()
                    });
                }
                Some(w) => ("wrong-answer".into(), w),
            }
        }
        // A known defect that concerns particular queries: see known_findings.txt.
        Outcome::Err(e, _) if e.to_string().contains("Expects PARTITION BY expression to be ordered") => {
            (format!("window-partition-by-not-ordered:{}", q.name), format!("the query fails: {e}"))
        }
        Outcome::Err(e, _) => ("query-error".into(), format!("the query fails: {e}")),
        Outcome::Hang(_) => ("hang".into(), "the query does not finish".to_string()),
    };
    if one_node_too().await {
        return Ok(Obs { outcome: "one node differs as well".into(), ..Default::default() });
    }
    viol(&key, format!("{}: {msg}\n{shown}", q.sql))
}
