//! C06: splitting a scan over tasks reads every piece of data exactly once.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::planx::*;
use crate::rt;
use crate::tab::*;
use crate::vexec::*;
use datafusion::arrow::array::{ArrayRef, Int64Array, RecordBatch, StringArray};
use datafusion::arrow::compute::SortOptions;
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::catalog::memory::DataSourceExec;
use datafusion::common::stats::Precision;
use datafusion::common::{ColumnStatistics, Result, ScalarValue, Statistics};
use datafusion::datasource::file_format::file_compression_type::FileCompressionType;
use datafusion::datasource::listing::PartitionedFile;
use datafusion::datasource::physical_plan::*;
use datafusion::datasource::table_schema::TableSchema;
use datafusion::execution::object_store::ObjectStoreUrl;
use datafusion::physical_expr::expressions::{Column, col};
use datafusion::physical_expr::{LexOrdering, PhysicalSortExpr};
use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties, Partitioning};
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_distributed::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C06",
        level: "model_checking",
        rule: "plan cases: one real planning run per (file layout, scan kind, task count), every file byte accounted for; read cases: the query is executed and compared with the single-node run; non-trivial = the scan was split over at least two tasks",
        assumptions: &["object sizes in plan-only cases are declared, not read", "bounds: see case ids"],
        cases,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind6 {
    Plain,
    /// Files already restricted to byte ranges.
    Ranged,
    /// Every group sorted by k.
    Ordered,
    /// Groups hold distinct values of the partition column.
    HashPart,
    /// Same, and sorted.
    HashOrdered,
    Gzip,
    CsvNewlines,
    ArrowStream,
}
use Kind6::*;

fn schema(part: bool) -> TableSchema {
    let fs: SchemaRef = Arc::new(Schema::new(vec![Field::new("k", DataType::Int64, true), Field::new("v", DataType::Int64, true)]));
    let mut b = TableSchema::builder(fs);
    if part {
        b = b.with_table_partition_cols(vec![Arc::new(Field::new("p", DataType::Int64, true))]);
    }
    b.build()
}

fn scan(groups: &[Vec<u64>], kind: Kind6) -> DataSourceExec {
    let part = matches!(kind, HashPart | HashOrdered);
    let ts = schema(part);
    let table = ts.table_schema().clone();
    let mut rank = 0i64;
    let fgs: Vec<FileGroup> = groups
        .iter()
        .enumerate()
        .map(|(g, files)| {
            FileGroup::new(
                files
                    .iter()
                    .enumerate()
                    .map(|(i, s)| {
                        let mut f = PartitionedFile::new(format!("g{g}/f{i}"), *s);
                        if part {
                            f = f.with_partition_values(vec![ScalarValue::Int64(Some(g as i64))]);
                        }
                        if kind == Ranged && *s > 2 {
                            f = f.with_range(1, *s as i64 - 1);
                        }
                        rank += 1;
                        let mut st = Statistics::new_unknown(ts.file_schema());
                        st.column_statistics[0] = ColumnStatistics {
                            min_value: Precision::Exact(ScalarValue::Int64(Some(rank * 10))),
                            max_value: Precision::Exact(ScalarValue::Int64(Some(rank * 10 + 9))),
                            null_count: Precision::Exact(0),
                            ..ColumnStatistics::new_unknown()
                        };
                        f.with_statistics(Arc::new(st))
                    })
                    .collect(),
            )
        })
        .collect();
    let n = fgs.len();
    let source: Arc<dyn FileSource> = match kind {
        Gzip => Arc::new(CsvSource::new(ts)),
        CsvNewlines => {
            let o = datafusion::common::config::CsvOptions::default().with_newlines_in_values(true);
            Arc::new(CsvSource::new(ts).with_csv_options(o))
        }
        ArrowStream => Arc::new(ArrowSource::new_stream_file_source(ts)),
        _ => Arc::new(ParquetSource::new(ts)),
    };
    let mut b = FileScanConfigBuilder::new(ObjectStoreUrl::parse(ROOT).unwrap(), source).with_file_groups(fgs);
    if kind == Gzip {
        b = b.with_file_compression_type(FileCompressionType::GZIP);
    }
    if matches!(kind, Ordered | HashOrdered) {
        b = b.with_output_ordering(vec![LexOrdering::new([PhysicalSortExpr::new(col("k", &table).unwrap(), SortOptions::default())]).unwrap()]);
    }
    if part {
        b = b.with_output_partitioning(Some(Partitioning::Hash(vec![Arc::new(Column::new("p", 2))], n)));
    }
    DataSourceExec::new(Arc::new(b.build()))
}

fn force(n: usize) -> impl Fn(DesiredTaskCountEvent<'_>) -> Option<Result<DesiredTaskCountEventResponse>> + Send + Sync + 'static {
    move |ev: DesiredTaskCountEvent<'_>| {
        ev.plan.downcast_ref::<DataSourceExec>()?;
        Some(Ok(DesiredTaskCountEventResponse::desired(n)))
    }
}

fn file_scan(p: &Arc<dyn ExecutionPlan>) -> Option<FileScanConfig> {
    p.downcast_ref::<DataSourceExec>()?.data_source().downcast_ref::<FileScanConfig>().cloned()
}

#[derive(Clone, Copy, Debug)]
enum Width {
    Forced(usize),
    /// Default handler with these bytes per partition and target partitions.
    Default(usize, usize),
}

/// Position of every file: path -> [(task, partition, index in group, start, end)].
type Where = BTreeMap<String, Vec<(usize, usize, usize, u64, u64)>>;

async fn place(groups: &[Vec<u64>], kind: Kind6, w: Width, max: usize) -> std::result::Result<(Arc<dyn ExecutionPlan>, Arc<dyn ExecutionPlan>, Option<Vec<Arc<dyn ExecutionPlan>>>), Viol> {
    let leaf: Arc<dyn ExecutionPlan> = Arc::new(scan(groups, kind));
    let top: Arc<dyn ExecutionPlan> = if let (true, Some(o)) = (matches!(kind, Ordered | HashOrdered), leaf.output_ordering()) {
        Arc::new(SortPreservingMergeExec::new(o.clone(), leaf.clone()))
    } else {
        Arc::new(CoalescePartitionsExec::new(leaf.clone()))
    };
    let cluster = Cluster::new(max, Transport::Direct);
    let tp = match w {
        Width::Forced(_) => 2,
        Width::Default(_, tp) => tp,
    };
    let r = plan_on(&cluster, top, cfg(tp), |b| {
        let b = match w {
            Width::Forced(n) => b.with_distributed_desired_task_count_handler(force(n)),
            Width::Default(bpp, _) => b.with_distributed_file_scan_config_bytes_per_partition(bpp).unwrap(),
        };
        b.with_distributed_max_tasks_per_stage(max).unwrap()
    })
    .await;
    let (_, plan) = match r {
        Ok(x) => x,
        Err(e) => return viol("planning-error", format!("planning failed: {e}")),
    };
    for n in nodes(&plan) {
        if let Some(d) = n.plan.downcast_ref::<DistributedLeafExec>() {
            if d.variants().len() != n.tasks() {
                return viol("variants", format!("{} variants for {} tasks", d.variants().len(), n.tasks()));
            }
            return Ok((leaf.clone(), n.plan.clone(), Some(d.variants().to_vec())));
        }
        if n.plan.is::<DataSourceExec>() {
            if n.tasks() != 1 {
                return viol("not-split", format!("the scan runs unsplit in {} tasks\n{}", n.tasks(), display_plan_ascii(plan.as_ref(), false)));
            }
            return Ok((leaf.clone(), n.plan.clone(), None));
        }
    }
    viol("no-scan", format!("no scan in\n{}", display_plan_ascii(plan.as_ref(), false)))
}

fn positions(leaf: &Arc<dyn ExecutionPlan>, variants: &Option<Vec<Arc<dyn ExecutionPlan>>>) -> Where {
    let vs = variants.clone().unwrap_or_else(|| vec![leaf.clone()]);
    let mut w: Where = BTreeMap::new();
    for (t, v) in vs.iter().enumerate() {
        let fs = file_scan(v).expect("a file scan");
        for (p, g) in fs.file_groups.iter().enumerate() {
            for (i, f) in g.files().iter().enumerate() {
                let (s, e) = f.range();
                w.entry(f.path().to_string()).or_default().push((t, p, i, s, e));
            }
        }
    }
    w
}

fn plan_case(groups: &[Vec<u64>], kind: Kind6, w: Width, max: usize) -> RunResult {
    rt::sim(async {
        let (orig, leaf, variants) = place(groups, kind, w, max).await?;
        let pos = positions(&leaf, &variants);
        let orig_scan = file_scan(&orig).unwrap();
        let shown = || format!("{pos:?}");
        // Every byte of every file exactly once.
        let mut group_of: BTreeMap<String, (usize, usize)> = BTreeMap::new();
        for (g, fg) in orig_scan.file_groups.iter().enumerate() {
            for (i, f) in fg.files().iter().enumerate() {
                group_of.insert(f.path().to_string(), (g, i));
                let (s, e) = f.range();
                let mut rs: Vec<(u64, u64)> = pos.get(&f.path().to_string()).map(|v| v.iter().map(|x| (x.3, x.4)).collect()).unwrap_or_default();
                rs.sort();
                let whole_once = rs.len() == 1 && rs[0] == (s, e);
                if matches!(kind, Gzip | CsvNewlines | ArrowStream) && s < e && !whole_once {
                    return viol("unsplittable-split", format!("{} cannot be read in pieces but is read as {rs:?}", f.path()));
                }
                let mut at = s;
                for (a, b) in rs.iter().copied().filter(|r| r.0 != r.1) {
                    if a != at {
                        return viol("coverage", format!("{} [{s},{e}) is read as {rs:?}; {}", f.path(), shown()));
                    }
                    at = b;
                }
                if at != e {
                    return viol("coverage", format!("{} [{s},{e}) is read as {rs:?}; {}", f.path(), shown()));
                }
            }
        }
        for p in pos.keys() {
            if !group_of.contains_key(p) {
                return viol("invented-file", p.clone());
            }
        }
        let vs = variants.clone().unwrap_or_else(|| vec![leaf.clone()]);
        let counts: BTreeSet<usize> = vs.iter().map(|v| v.output_partitioning().partition_count()).collect();
        if counts.len() > 1 {
            return viol("partition-count", format!("tasks have different partition counts {counts:?}"));
        }
        if leaf.output_partitioning().partition_count() != *counts.first().unwrap_or(&0) {
            return viol("partition-count", "the leaf announces another partition count".to_string());
        }
        // Ordering.
        if let Some(o) = orig.output_ordering() {
            if leaf.output_ordering() != Some(o) {
                return viol("ordering-dropped", format!("the scan was ordered by {o}, the split one by {:?}", leaf.output_ordering()));
            }
            for v in &vs {
                if v.output_ordering() != Some(o) {
                    return viol("ordering-dropped", format!("a variant is ordered by {:?}", v.output_ordering()));
                }
                for g in &file_scan(v).unwrap().file_groups {
                    let seq: Vec<((usize, usize), u64)> = g.files().iter().map(|f| (group_of[&f.path().to_string()], f.range().0)).collect();
                    if !seq.is_sorted() || seq.iter().any(|x| x.0.0 != seq[0].0.0) {
                        return viol("ordering-broken", format!("a partition reads {seq:?}"));
                    }
                }
            }
        }
        // Partitioning: still declared => still true, and aligned with any other scan split alike.
        if let Partitioning::Hash(e, n) = leaf.output_partitioning()
            && !e.is_empty()
        {
            let mut owner: BTreeMap<usize, BTreeSet<(usize, usize)>> = BTreeMap::new();
            let mut tenant: BTreeMap<(usize, usize), BTreeSet<usize>> = BTreeMap::new();
            for (f, v) in &pos {
                for x in v {
                    owner.entry(group_of[f].0).or_default().insert((x.0, x.1));
                    tenant.entry((x.0, x.1)).or_default().insert(group_of[f].0);
                }
            }
            if let Some((g, o)) = owner.iter().find(|x| x.1.len() > 1) {
                return viol("partitioning-broken", format!("rows of partition value {g} are spread over (task, partition) {o:?} but Hash({n}) is still declared"));
            }
            if groups.len() > 1 {
                let canon: Vec<Vec<u64>> = groups.iter().map(|_| vec![10]).collect();
                let (_, l2, v2) = place(&canon, kind, w, max).await?;
                let (a, b) = (variants.as_ref().map_or(1, |v| v.len()), v2.as_ref().map_or(1, |v| v.len()));
                if a == b && l2.output_partitioning() == leaf.output_partitioning() {
                    let p2 = positions(&l2, &v2);
                    for (g, o) in &owner {
                        let other = &p2[&format!("g{g}/f0")][0];
                        let o = o.first().unwrap();
                        if *o != (other.0, other.1) {
                            return viol("copartitioning-broken", format!("partition value {g} is in (task, partition) {o:?} here but in {:?} of a table with one file per value: a join on it pairs the wrong rows", (other.0, other.1)));
                        }
                    }
                }
            }
        }
        let tasks = variants.as_ref().map_or(1, |v| v.len());
        Ok(Obs { outcome: format!("{tasks}|{counts:?}|{}", h64(&shown())), nontrivial: tasks > 1, steps: pos.values().map(|v| v.len() as u64).sum(), ..Default::default() })
    })
}

// ---------------------------------------------------------------------------------- reading

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fmt {
    Parquet,
    Csv,
    CsvNl,
    CsvGz,
    Json,
    ArrowFile,
    ArrowStreamF,
}

fn text_batch(rows: std::ops::Range<i64>, nl: bool) -> RecordBatch {
    let k: ArrayRef = Arc::new(Int64Array::from_iter(rows.clone()));
    let s: ArrayRef = Arc::new(StringArray::from_iter_values(rows.map(|i| if nl { format!("a{i}\nb\n{i}") } else { format!("row{i}{}", "x".repeat(i as usize % 5)) })));
    RecordBatch::try_from_iter(vec![("k", k), ("s", s)]).unwrap()
}

fn encode(f: Fmt, bs: &[RecordBatch]) -> Vec<u8> {
    match f {
        Fmt::Parquet => parquet_bytes(bs, 3),
        Fmt::Csv | Fmt::CsvNl => csv_bytes(bs),
        Fmt::CsvGz => {
            use std::io::Write;
            let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
            e.write_all(&csv_bytes(bs)).unwrap();
            e.finish().unwrap()
        }
        Fmt::Json => json_bytes(bs),
        Fmt::ArrowFile => ipc_file_bytes(bs),
        Fmt::ArrowStreamF => ipc_stream_bytes(bs),
    }
}

pub fn sorted_rows(bs: &[RecordBatch]) -> Vec<String> {
    let mut v = rows_text(bs);
    v.sort();
    v
}

pub fn rows_text(bs: &[RecordBatch]) -> Vec<String> {
    use datafusion::arrow::util::display::{ArrayFormatter, FormatOptions};
    let o = FormatOptions::default().with_null("NULL");
    let mut out = vec![];
    for b in bs {
        let fs: Vec<_> = b.columns().iter().map(|c| ArrayFormatter::try_new(c.as_ref(), &o).unwrap()).collect();
        for r in 0..b.num_rows() {
            out.push(fs.iter().map(|f| f.value(r).to_string()).collect::<Vec<_>>().join("|"));
        }
    }
    out
}

fn read_case(f: Fmt, groups: Vec<Vec<i64>>, t: usize, tr: Transport) -> RunResult {
    rt::sim(async {
        let mem = Mem::new();
        let mut at = 0i64;
        let mut expect = vec![];
        let mut fgs = vec![];
        for (g, files) in groups.iter().enumerate() {
            let mut fg = vec![];
            for (i, n) in files.iter().enumerate() {
                let bs: Vec<RecordBatch> = (0..*n).step_by(4).map(|o| text_batch(at + o..at + (*n).min(o + 4), f == Fmt::CsvNl)).collect();
                let bs = if bs.is_empty() { vec![text_batch(0..0, false)] } else { bs };
                expect.extend(sorted_rows(&bs));
                at += n;
                let bytes = encode(f, &bs);
                fg.push(PartitionedFile::new(format!("g{g}/f{i}"), bytes.len() as u64));
                mem.put(&format!("g{g}/f{i}"), bytes);
            }
            fgs.push(FileGroup::new(fg));
        }
        expect.sort();
        let ts = TableSchema::from(text_batch(0..0, false).schema());
        let source: Arc<dyn FileSource> = match f {
            Fmt::Parquet => Arc::new(ParquetSource::new(ts)),
            Fmt::Csv | Fmt::CsvGz | Fmt::CsvNl => {
                let o = datafusion::common::config::CsvOptions::default().with_has_header(false).with_newlines_in_values(f == Fmt::CsvNl);
                Arc::new(CsvSource::new(ts).with_csv_options(o))
            }
            Fmt::Json => Arc::new(JsonSource::new(ts)),
            Fmt::ArrowFile => Arc::new(ArrowSource::new_file_source(ts)),
            Fmt::ArrowStreamF => Arc::new(ArrowSource::new_stream_file_source(ts)),
        };
        let mut b = FileScanConfigBuilder::new(ObjectStoreUrl::parse(ROOT).unwrap(), source).with_file_groups(fgs);
        if f == Fmt::CsvGz {
            b = b.with_file_compression_type(FileCompressionType::GZIP);
        }
        let config = b.build();
        // A scan executes once, so every run gets its own.
        let top = || -> Arc<dyn ExecutionPlan> { Arc::new(CoalescePartitionsExec::new(DataSourceExec::from_data_source(config.clone()))) };
        // The single-node answer first: it validates the fixture.
        let one = SessionContext::new_with_config_rt(SessionConfig::new(), mem.env());
        let Outcome::Rows(r) = run_to_end(&one, top()).await else { panic!("fixture unreadable") };
        assert_eq!(sorted_rows(&r), expect, "fixture");
        let m2 = mem.clone();
        let cluster = Cluster::with(t.max(1), tr, None, move || m2.env());
        let (ctx, plan) = match plan_on(&cluster, top(), cfg(2), |b| b.with_distributed_desired_task_count_handler(force(t)).with_runtime_env(mem.env())).await {
            Ok(x) => x,
            Err(e) => return viol("planning-error", format!("planning failed: {e}")),
        };
        match run_to_end(&ctx, plan).await {
            Outcome::Rows(r) => {
                let got = sorted_rows(&r);
                if got != expect {
                    return viol("rows", format!("read {} rows instead of {}: {got:?}", got.len(), expect.len()));
                }
                let tasks = stage_tasks(&cluster.net.log()).values().map(|s| s.len()).max().unwrap_or(1);
                Ok(Obs { outcome: format!("{tasks}|{}", got.len()), nontrivial: tasks > 1, steps: cluster.net.log().len() as u64, ..Default::default() })
            }
            Outcome::Err(e, _) => viol("read-error", format!("the split scan fails: {e}")),
            Outcome::Hang(_) => viol("hang", "the split scan hangs"),
        }
    })
}

// ------------------------------------------------------------------------------ hive tables

const HIVE_SQL: &[(&str, &str)] = &[
    ("agg", "SELECT p, count(*), sum(v) FROM a GROUP BY p"),
    ("join", "SELECT a.p, a.v, b.v FROM a JOIN b ON a.p = b.p"),
    ("aggjoin", "SELECT x.p, x.n, y.n FROM (SELECT p, count(*) n FROM a GROUP BY p) x JOIN (SELECT p, max(v) n FROM b GROUP BY p) y ON x.p = y.p"),
    ("window", "SELECT p, v, row_number() OVER (PARTITION BY p ORDER BY v) FROM a"),
    ("filtered", "SELECT a.p, a.v, b.v FROM a JOIN b ON a.p = b.p WHERE a.p <> 'x1'"),
    ("left", "SELECT a.p, a.v, b.v FROM a LEFT JOIN b ON a.p = b.p"),
    ("distinct", "SELECT DISTINCT p FROM a"),
];

async fn hive_ctx(ctx: &SessionContext, dirs: &[&str]) -> Result<()> {
    use datafusion::datasource::file_format::parquet::ParquetFormat;
    use datafusion::datasource::listing::*;
    for d in dirs {
        let o = ListingOptions::new(Arc::new(ParquetFormat::default())).with_table_partition_cols(vec![("p".into(), DataType::Utf8)]);
        let fs = Arc::new(Schema::new(vec![Field::new("k", DataType::Int64, true), Field::new("v", DataType::Int64, true)]));
        let c = ListingTableConfig::new(ListingTableUrl::parse(format!("{ROOT}{d}/"))?).with_listing_options(o).with_schema(fs);
        ctx.register_table(*d, Arc::new(ListingTable::try_new(c)?))?;
    }
    Ok(())
}

fn hive_case(a: Vec<usize>, b: Vec<usize>, tp: usize, t: usize, joins: usize, sql: &'static str) -> RunResult {
    rt::sim(async {
        let mem = Mem::new();
        for (name, files, base) in [("a", &a, 0i64), ("b", &b, 1000)] {
            for (p, n) in files.iter().enumerate() {
                for i in 0..*n {
                    let rows: Vec<Kv> = (0..3).map(|j| (Some(j), base + (p * 100 + i * 10) as i64 + j)).collect();
                    mem.put(&format!("{name}/p=x{p}/f{i}.parquet"), parquet_bytes(&[kv_batch(&rows)], 10));
                }
            }
        }
        let mut c = cfg(tp);
        c.options_mut().optimizer.preserve_file_partitions = 1;
        if joins > 0 {
            // Joins of two partitioned sides (hash, sort-merge).
            c.options_mut().optimizer.hash_join_single_partition_threshold = 0;
            c.options_mut().optimizer.hash_join_single_partition_threshold_rows = 0;
            c.options_mut().optimizer.prefer_hash_join = joins == 1;
        }
        let one = SessionContext::new_with_config_rt(c.clone(), mem.env());
        hive_ctx(&one, &["a", "b"]).await.unwrap();
        let expect = sorted_rows(&one.sql(sql).await.unwrap().collect().await.unwrap());
        let m2 = mem.clone();
        let cluster = Cluster::with(t.max(1), Transport::Direct, None, move || m2.env());
        let urls = cluster.urls.clone();
        let ctx = cluster.session(c, |x| {
            x.with_runtime_env(mem.env()).with_distributed_desired_task_count_handler(force(t)).with_distributed_route_tasks_handler(fixed_routing(urls))
        });
        hive_ctx(&ctx, &["a", "b"]).await.unwrap();
        let plan = match ctx.sql(sql).await.unwrap().create_physical_plan().await {
            Ok(p) => p,
            Err(e) => return viol("planning-error", format!("planning failed: {e}")),
        };
        let shown = display_plan_ascii(plan.as_ref(), false);
        match run_to_end(&ctx, plan).await {
            Outcome::Rows(r) => {
                let got = sorted_rows(&r);
                if got != expect {
                    return viol("wrong-answer", format!("{sql}: got {got:?}, one node {expect:?}\n{shown}"));
                }
                let tasks = stage_tasks(&cluster.net.log()).values().map(|s| s.len()).max().unwrap_or(1);
                Ok(Obs { outcome: format!("{tasks}|{}", h64(&got.join("\n"))), nontrivial: tasks > 1, steps: cluster.net.log().len() as u64, ..Default::default() })
            }
            Outcome::Err(e, _) => viol("read-error", format!("{sql} fails: {e}\n{shown}")),
            Outcome::Hang(_) => viol("hang", format!("{sql} hangs\n{shown}")),
        }
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let kinds: Vec<Vec<u64>> = vec![vec![], vec![0], vec![1], vec![10], vec![3, 5], vec![7, 0, 2]];
    let tmax = if thorough { 9 } else { 5 };
    let pmax = if thorough { 4 } else { 3 };
    for kind in [Plain, Ranged, Ordered, HashPart, HashOrdered, Gzip, CsvNewlines, ArrowStream] {
        for p in 1..=pmax {
            if p == 4 && !matches!(kind, Plain | Ordered | HashPart) {
                continue;
            }
            for code in 0..kinds.len().pow(p as u32) {
                let mut x = code;
                let groups: Vec<Vec<u64>> = (0..p)
                    .map(|_| {
                        let g = kinds[x % kinds.len()].clone();
                        x /= kinds.len();
                        g
                    })
                    .collect();
                for t in 1..=tmax {
                    if !thorough && p == 3 && (code + t) % 3 != 0 {
                        continue;
                    }
                    let groups = groups.clone();
                    v.push(case(format!("plan/{kind:?}/t{t}/{groups:?}"), 0, move |_| plan_case(&groups, kind, Width::Forced(t), t.max(2))));
                }
            }
        }
        // Many small files, few big ones.
        for (n, s) in [(16usize, 1u64), (16, 3), (40, 1), (5, 1000), (7, 13)] {
            for p in [1usize, 2, 3, 5, 8] {
                for t in 2..=8 {
                    let mut groups = vec![vec![]; p];
                    for i in 0..n {
                        groups[i * p / n].push(s + (i % 3) as u64);
                    }
                    v.push(case(format!("plan/{kind:?}/t{t}/{n}x{s}in{p}"), 0, move |_| plan_case(&groups, kind, Width::Forced(t), 8)));
                }
            }
        }
        for bpp in [0usize, 1, 4, 100, 1 << 30] {
            for tp in [1usize, 3] {
                for max in [1usize, 2, 5] {
                    for groups in [vec![], vec![vec![]], vec![vec![0u64]], vec![vec![1]], vec![vec![5, 5], vec![9]], vec![vec![300], vec![], vec![2]]] {
                        if groups.is_empty() && kind != Plain {
                            continue;
                        }
                        v.push(case(format!("default/{kind:?}/bytes{bpp}/tp{tp}/max{max}/{groups:?}"), 0, move |_| plan_case(&groups, kind, Width::Default(bpp, tp), max)));
                    }
                }
            }
        }
    }
    let layouts: Vec<Vec<Vec<i64>>> = vec![vec![vec![1]], vec![vec![9]], vec![vec![0]], vec![vec![5, 3], vec![7]], vec![vec![2, 2, 2], vec![], vec![11]], vec![vec![30], vec![1]]];
    // Compressed CSV and Arrow streams do not survive the wire at all (see C13).
    for f in [Fmt::Parquet, Fmt::Csv, Fmt::CsvNl, Fmt::Json, Fmt::ArrowFile] {
        for l in &layouts {
            for t in 1..=if thorough { 7 } else { 4 } {
                for tr in [Transport::Direct, Transport::Grpc] {
                    if tr == Transport::Grpc && t != 3 {
                        continue;
                    }
                    let l = l.clone();
                    v.push(case(format!("read/{f:?}/{tr:?}/t{t}/{l:?}"), 0, move |_| read_case(f, l.clone(), t, tr)));
                }
            }
        }
    }
    let fl: Vec<Vec<usize>> = vec![vec![1, 1, 1], vec![2, 1, 1], vec![1, 3, 2], vec![1, 1, 0], vec![1, 1, 1, 1, 2]];
    for (name, sql) in HIVE_SQL {
        for a in &fl {
            for b in &fl {
                for tp in [2usize, 3, 4] {
                    for t in [1usize, 2, 3] {
                        if !thorough && (a.len() + b.len() + tp + t) % 2 == 0 && a != b {
                            continue;
                        }
                        // DataFusion itself pairs a file-partitioned side with a hashed side wrongly (on
                        // one node too), so partitioned joins are only for tables with equal values.
                        let values = |x: &Vec<usize>| x.iter().filter(|n| **n > 0).count();
                        for joins in 0..if *name != "filtered" && values(a) == values(b) && sql.contains("JOIN") { 3 } else { 1 } {
                            let (a, b) = (a.clone(), b.clone());
                            v.push(case(format!("hive/{name}{joins}/tp{tp}/t{t}/{a:?}x{b:?}"), 0, move |_| hive_case(a.clone(), b.clone(), tp, t, joins, sql)));
                        }
                    }
                }
            }
        }
    }
    v
}
