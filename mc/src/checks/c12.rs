//! C12: the gRPC transport preserves every partition stream under any buffering.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt::{self, Reader};
use crate::vexec::*;
use arrow::array::*;
use arrow::datatypes::*;
use datafusion::common::Result;
use datafusion::execution::memory_pool::UnboundedMemoryPool;
use datafusion::execution::runtime_env::{RuntimeEnv, RuntimeEnvBuilder};
use datafusion::prelude::SessionContext;
use datafusion_distributed::*;
use futures::StreamExt;
use futures::stream::BoxStream;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub fn check() -> Check {
    Check {
        id: "C12",
        level: "model_checking",
        rule: "seq: every sequence up to the stated length of {produce, read, drop a partition} on one real gRPC client/server connection; fault: a failure at every message; content: every column type x slicing x compression; non-trivial = two partitions delivered rows",
        assumptions: &["the network is an in-process tower service (no HTTP/2 flow control), operations are separated by quiescence", "bounds: see case ids"],
        cases,
    }
}

fn env() -> Arc<RuntimeEnv> {
    RuntimeEnvBuilder::new().with_memory_pool(Arc::new(UnboundedMemoryPool::default())).build_arc().unwrap()
}

type Comp = Option<arrow::ipc::CompressionType>;

/// One worker with one task set, and a connection to it.
struct Conn {
    _w2c: BoxStream<'static, Result<WorkerToCoordinatorMsg>>,
    cluster: Cluster,
    ctx: SessionContext,
    key: TaskKey,
}

impl Conn {
    async fn open(src: &SrcHandle, parts: usize, budget: usize, comp: Comp, frames: Option<FramePolicy>) -> Result<Conn> {
        let hook: StateHook = Arc::new(move |b, _| b.with_distributed_compression(comp));
        let cluster = Cluster::with(1, Transport::Grpc, Some(hook), env);
        if let Some(f) = frames {
            cluster.net.set_frames(move |p, n| f(p, n));
        }
        let ctx = cluster.session(cfg(1), |b| {
            b.with_runtime_env(env()).with_distributed_worker_connection_buffer_budget_bytes(budget).unwrap()
        });
        let key = TaskKey { query_id: uuid::Uuid::from_u128(7), stage_id: 1, task_number: 0 };
        let mut ch = cluster.net.raw_channel(&cluster.urls[0])?;
        let req = SetPlanRequest {
            task_key: key,
            task_count: 1,
            plan: MaybeEncoded::Decoded(src.0.exec(parts)),
            work_unit_feed_declarations: vec![],
            target_worker_url: cluster.urls[0].clone(),
            query_start_time_ns: 0,
        };
        let c2w = futures::stream::pending().boxed();
        let w2c = ch.coordinator_channel(Default::default(), req, c2w, Default::default(), &ctx.task_ctx()).await?;
        Ok(Conn { _w2c: w2c, cluster, ctx, key })
    }
    async fn read(&self, from: usize, to: usize) -> Result<Vec<BoxStream<'static, Result<RecordBatch>>>> {
        let mut ch = self.cluster.net.raw_channel(&self.cluster.urls[0])?;
        let req = ExecuteTaskRequest { task_key: self.key, target_partition_start: from, target_partition_end: to, producer_head: ProducerHead::None };
        ch.execute_task(Default::default(), req, Default::default(), &self.ctx.task_ctx()).await
    }
    fn client_pool(&self) -> usize {
        self.ctx.runtime_env().memory_pool.reserved()
    }
    fn worker_pool(&self) -> usize {
        self.cluster.worker_env[0].memory_pool.reserved()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fail {
    No,
    Err(usize),
    Panic(usize),
}

fn nbatches(part: usize) -> usize {
    [2, 1, 3][part % 3]
}

fn rows_of(part: usize, fail: Fail) -> Vec<i64> {
    let n = nbatches(part);
    let n = match fail {
        Fail::Err(j) | Fail::Panic(j) if part == 0 => j.min(n),
        _ => n,
    };
    // Batch i of a partition has i+1 rows.
    (0..n).flat_map(|i| (0..=i).map(move |r| (part * 100 + i * 10 + r) as i64)).collect()
}

/// Partition 0 fails as told.
fn source(fail: Fail, gated: bool) -> SrcHandle {
    let b = SrcBuilder::new(kv_schema(), move |s| {
        let n = nbatches(s.part);
        let mut items = vec![];
        for i in 0..n {
            if s.part == 0 && fail == Fail::Err(i) {
                items.push(Item::Err("boom".into()));
            }
            if s.part == 0 && fail == Fail::Panic(i) {
                items.push(Item::Panic("boom".into()));
            }
            items.push(Item::Batch(kv_batch(&(0..=i).map(|r| (Some(i as i64), (s.part * 100 + i * 10 + r) as i64)).collect::<Vec<_>>())));
        }
        if s.part == 0 && fail == Fail::Err(n) {
            items.push(Item::Err("boom".into()));
        }
        if s.part == 0 && fail == Fail::Panic(n) {
            items.push(Item::Panic("boom".into()));
        }
        items
    });
    if gated { b.gated() } else { b }.build()
}

fn values(got: &[Result<RecordBatch>]) -> (Vec<i64>, Option<String>) {
    let mut v = vec![];
    for g in got {
        match g {
            Ok(b) => v.extend(kv_rows(b).iter().map(|r| r.1)),
            Err(e) => return (v, Some(e.to_string())),
        }
    }
    (v, None)
}

/// Larger than any message of the seq cases.
const MSG: usize = 1000;

struct Reads {
    readers: Vec<Reader<Result<RecordBatch>>>,
    dropped: Vec<bool>,
    from: usize,
}

impl Reads {
    /// Reads everything that is still being read; nothing may be stuck, lost or invented.
    async fn finish(&mut self, what: &str, fail: Fail, lost: bool) -> std::result::Result<(), Viol> {
        for _ in 0..50 {
            rt::quiesce().await;
            let mut any = false;
            for (i, r) in self.readers.iter_mut().enumerate() {
                if !self.dropped[i] && r.runnable() {
                    any = true;
                    r.drain_ready();
                }
            }
            if !any {
                break;
            }
        }
        for (i, r) in self.readers.iter().enumerate() {
            let p = self.from + i;
            let (got, err) = values(&r.got);
            let exp = rows_of(p, fail);
            if !exp.starts_with(&got) {
                return viol("wrong-data", format!("partition {p} delivered {got:?} instead of {exp:?} after {what}"));
            }
            if self.dropped[i] {
                continue;
            }
            let failed = fail != Fail::No && self.from == 0 || lost;
            match err {
                None if !r.ended => return viol("stuck", format!("the reader of partition {p} got {got:?} and waits forever after {what}")),
                None if p == 0 && fail != Fail::No => return viol("silent-truncation", format!("partition 0 failed but its reader saw a normal end after {what}")),
                None if lost => return viol("silent-truncation", format!("the connection failed but the reader of partition {p} saw a normal end after {what}")),
                None if got != exp => return viol("silent-truncation", format!("partition {p} ended normally with {got:?} instead of {exp:?} after {what}")),
                Some(e) if !failed => return viol("error", format!("partition {p}: {e} after {what}")),
                Some(e) if matches!(fail, Fail::Err(_)) && p == 0 && !lost && !e.contains("boom") => return viol("error-text", format!("partition {p}: {e} after {what}")),
                _ => {}
            }
        }
        Ok(())
    }
}

async fn idle(c: &Conn, src: &SrcHandle, what: &str) -> std::result::Result<(), Viol> {
    // Operators of a failed task may need a moment.
    for _ in 0..3 {
        rt::quiesce().await;
    }
    if c.client_pool() != 0 || c.worker_pool() != 0 {
        return viol("memory", format!("{} bytes reserved on the client and {} on the worker although nothing is being read any more, after {what}", c.client_pool(), c.worker_pool()));
    }
    if src.live() != 0 {
        return viol("live-streams", format!("{} operator streams still alive after {what}", src.live()));
    }
    Ok(())
}

/// Every sequence of operations on one connection.
fn seq(from: usize, to: usize, budget: usize, fail: Fail, comp: Comp, depth: usize, ch: &Ch) -> RunResult {
    rt::sim(async {
        let src = source(fail, true);
        let c = df_err(Conn::open(&src, to, budget, comp, None).await, "open")?;
        let streams = df_err(c.read(from, to).await, "read")?;
        let n = to - from;
        if streams.len() != n {
            return viol("streams", format!("{} streams for {n} partitions", streams.len()));
        }
        let mut rs = Reads { readers: streams.into_iter().map(Reader::new).collect(), dropped: vec![false; n], from };
        let mut allowed = vec![0usize; n];
        let mut states = vec![];
        let mut trace = String::new();
        for _ in 0..depth {
            let mut ops: Vec<(char, usize)> = vec![];
            for i in 0..n {
                if allowed[i] <= nbatches(from + i) {
                    ops.push(('p', i));
                }
            }
            for (i, r) in rs.readers.iter().enumerate() {
                if r.alive() && !rs.dropped[i] {
                    if r.runnable() {
                        ops.push(('r', i));
                    }
                    ops.push(('d', i));
                }
            }
            let k = choose(ch, 1 + ops.len(), |k| if k == 0 { "finish".into() } else { format!("{}{}", ops[k - 1].0, ops[k - 1].1) });
            if k == 0 {
                break;
            }
            let (op, i) = ops[k - 1];
            trace += &format!("{op}{i} ");
            match op {
                'p' => {
                    allowed[i] += 1;
                    src.gate().allow(0, from + i);
                }
                'r' => {
                    rs.readers[i].poll();
                }
                _ => {
                    rs.readers[i].drop_stream();
                    rs.dropped[i] = true;
                }
            }
            rt::quiesce().await;
            if c.client_pool() > budget.saturating_add(MSG) {
                return viol("over-budget", format!("{} bytes buffered with a budget of {budget} after {trace}", c.client_pool()));
            }
            states.push(h64(&format!("{allowed:?}{:?}{:?}", rs.dropped, rs.readers.iter().map(|r| (r.got.len(), r.ended, r.pending)).collect::<Vec<_>>())));
        }
        src.gate().allow_all();
        rs.finish(&format!("{trace}(budget {budget}, {fail:?})"), fail, false).await?;
        let outcome = format!("{:?}", rs.readers.iter().map(|r| r.got.len()).collect::<Vec<_>>());
        let full = rs.readers.iter().filter(|r| r.ended).count();
        drop(rs);
        idle(&c, &src, &trace).await?;
        Ok(Obs { outcome, nontrivial: full >= 2, steps: depth as u64, states })
    })
}

/// The connection fails (or stalls and is given up) at a chosen message.
fn fault(parts: usize, budget: usize, f: Frame, at: usize, ch: &Ch) -> RunResult {
    rt::sim(async {
        let src = source(Fail::No, false);
        let hit = Arc::new(AtomicUsize::new(0));
        let h = hit.clone();
        let pol: FramePolicy = Arc::new(move |path, n| {
            if path.ends_with("ExecuteTask") && n == at {
                h.fetch_add(1, SeqCst);
                return f;
            }
            Frame::Go
        });
        let c = df_err(Conn::open(&src, parts, budget, None, Some(pol)).await, "open")?;
        let streams = df_err(c.read(0, parts).await, "read")?;
        let mut rs = Reads { readers: streams.into_iter().map(Reader::new).collect(), dropped: vec![false; parts], from: 0 };
        // In which order the partitions are read.
        let first = choose(ch, parts, |c| format!("first reader {c}"));
        rs.readers[first].drain_ready();
        rt::quiesce().await;
        let what = format!("{f:?} at message {at} (budget {budget})");
        if f == Frame::Hang {
            for _ in 0..20 {
                rt::quiesce().await;
                for r in &mut rs.readers {
                    r.drain_ready();
                }
            }
            let ended = rs.readers.iter().filter(|r| r.ended).count();
            if hit.load(SeqCst) > 0 && ended > 0 {
                return viol("silent-truncation", format!("{ended} readers saw the end although the connection stalled, {what}"));
            }
        } else {
            let mut lost = false;
            for _ in 0..20 {
                rt::quiesce().await;
                for r in &mut rs.readers {
                    r.drain_ready();
                }
                lost = hit.load(SeqCst) > 0;
            }
            rs.finish(&what, Fail::No, lost).await?;
        }
        drop(rs);
        idle(&c, &src, &what).await?;
        Ok(Obs { outcome: format!("{f:?}{}", hit.load(SeqCst)), nontrivial: hit.load(SeqCst) > 0, ..Default::default() })
    })
}

// ---------------------------------------------------------------- content

fn dict<K: ArrowDictionaryKeyType>(v: &[Option<&str>]) -> ArrayRef {
    Arc::new(v.iter().copied().collect::<DictionaryArray<K>>())
}

/// Columns of 6 rows.
fn columns() -> Vec<(&'static str, ArrayRef)> {
    let long = "a string that is too long to be inlined in a view";
    let s = [Some("x"), None, Some(""), Some(long), Some("x"), Some("yé")];
    let ints = Int32Array::from(vec![Some(1), None, Some(3), Some(-4), Some(5), None]);
    let strs = StringArray::from(s.to_vec());
    let mut v: Vec<(&'static str, ArrayRef)> = vec![
        ("null", Arc::new(NullArray::new(6))),
        ("bool", Arc::new(BooleanArray::from(vec![Some(true), None, Some(false), Some(true), None, Some(false)]))),
        ("i8", Arc::new(Int8Array::from(vec![1, 2, 3, -128, 127, 0]))),
        ("i32", Arc::new(ints.clone())),
        ("u64", Arc::new(UInt64Array::from(vec![u64::MAX, 0, 1, 2, 3, 4]))),
        ("f64", Arc::new(Float64Array::from(vec![Some(f64::NAN), Some(-0.0), None, Some(f64::INFINITY), Some(1.5), Some(0.0)]))),
        ("dec", Arc::new(Decimal128Array::from(vec![Some(1), None, Some(-3), Some(i128::MAX / 10), Some(0), Some(7)]).with_precision_and_scale(38, 3).unwrap())),
        ("ts", Arc::new(TimestampNanosecondArray::from(vec![Some(1), None, Some(3), Some(4), Some(i64::MIN), Some(6)]).with_timezone("+02:00"))),
        ("interval", Arc::new(IntervalMonthDayNanoArray::from(vec![Some(IntervalMonthDayNano::new(1, 2, 3)), None, None, Some(IntervalMonthDayNano::new(-1, 0, 9)), None, None]))),
        ("utf8", Arc::new(strs.clone())),
        ("large", Arc::new(LargeStringArray::from(s.to_vec()))),
        ("view", Arc::new(StringViewArray::from(s.to_vec()))),
        ("bin", Arc::new(BinaryArray::from(s.iter().map(|x| x.map(str::as_bytes)).collect::<Vec<_>>()))),
        ("binview", Arc::new(BinaryViewArray::from(s.iter().map(|x| x.map(str::as_bytes)).collect::<Vec<_>>()))),
        ("fixed", Arc::new(FixedSizeBinaryArray::try_from_sparse_iter_with_size(s.iter().map(|x| x.map(|_| [1u8, 2])), 2).unwrap())),
        ("dict8", dict::<Int8Type>(&s)),
        ("dictu32", dict::<UInt32Type>(&s)),
        ("dictnull", dict::<Int32Type>(&[None; 6])),
    ];
    // A dictionary with unused, duplicate and NULL values.
    let keys = Int16Array::from(vec![Some(4), None, Some(1), Some(4), Some(0), Some(2)]);
    let vals = StringArray::from(vec![Some("b"), None, Some("b"), Some("unused"), Some(long)]);
    v.push(("dictodd", Arc::new(DictionaryArray::<Int16Type>::new(keys, Arc::new(vals)))));
    let keys = Int16Array::from(vec![Some(4), None, Some(1), Some(4), Some(0), Some(2)]);
    v.push(("dictint", Arc::new(DictionaryArray::<Int16Type>::new(keys.clone(), Arc::new(Int64Array::from(vec![9, 8, 7, 6, 5]))))));
    v.push(("dictview", Arc::new(DictionaryArray::<Int16Type>::new(keys.clone(), Arc::new(StringViewArray::from(vec!["q", long, "r", "s", "t"]))))));
    let list = ListArray::from_iter_primitive::<Int32Type, _, _>(vec![
        Some(vec![Some(1), None]),
        None,
        Some(vec![]),
        Some(vec![Some(2), Some(3), Some(4)]),
        Some(vec![None]),
        Some(vec![Some(9)]),
    ]);
    v.push(("list", Arc::new(list.clone())));
    let st = StructArray::from(vec![
        (Arc::new(Field::new("a", DataType::Int32, true)), Arc::new(ints) as ArrayRef),
        (Arc::new(Field::new("b", DataType::Utf8, true)), Arc::new(strs) as ArrayRef),
    ]);
    v.push(("struct", Arc::new(st)));
    let inner = dict::<Int8Type>(&s);
    v.push(("structdict", Arc::new(StructArray::from(vec![(Arc::new(Field::new("d", inner.data_type().clone(), true)), inner.clone())]))));
    let f = Arc::new(Field::new("item", inner.data_type().clone(), true));
    v.push(("listdict", Arc::new(ListArray::new(f, arrow::buffer::OffsetBuffer::new(vec![0, 1, 1, 3, 3, 6, 6].into()), inner, None))));
    let f = Arc::new(Field::new("item", list.data_type().clone(), true));
    v.push(("listlist", Arc::new(ListArray::new(f, arrow::buffer::OffsetBuffer::new(vec![0, 1, 1, 3, 3, 6, 6].into()), Arc::new(list), None))));
    let mut m = MapBuilder::new(None, StringBuilder::new(), Int32Builder::new());
    for i in 0..6 {
        for k in 0..i % 3 {
            m.keys().append_value(format!("k{k}"));
            m.values().append_option((k == 1).then_some(i));
        }
        m.append(i != 4).unwrap();
    }
    v.push(("map", Arc::new(m.finish())));
    let runs = RunArray::<Int32Type>::try_new(&Int32Array::from(vec![2, 3, 6]), &StringArray::from(vec![Some("r"), None, Some("s")])).unwrap();
    v.push(("runs", Arc::new(runs)));
    let offsets = || arrow::buffer::OffsetBuffer::<i64>::new(vec![0, 1, 1, 3, 3, 6, 6].into());
    let valid = Some(arrow::buffer::NullBuffer::from(vec![true, true, true, false, true, true]));
    let strs = StringArray::from(s.to_vec());
    v.push(("llist", Arc::new(LargeListArray::new(Arc::new(Field::new("element", DataType::Utf8, true)), offsets(), Arc::new(strs.clone()), valid.clone()))));
    let inner = dict::<Int8Type>(&s);
    v.push(("llistdict", Arc::new(LargeListArray::new(Arc::new(Field::new("item", inner.data_type().clone(), true)), offsets(), inner.clone(), None))));
    let twelve: Vec<f32> = (0..12).map(|i| i as f32 / 2.0).collect();
    v.push(("fsl", Arc::new(FixedSizeListArray::new(Arc::new(Field::new("x", DataType::Float32, true)), 2, Arc::new(Float32Array::from(twelve)), valid.clone()))));
    let views = [(0i32, 2i32), (4, 1), (0, 0), (1, 3), (5, 1), (0, 6)];
    let f = Arc::new(Field::new("item", DataType::Utf8, true));
    v.push(("listview", Arc::new(ListViewArray::new(f.clone(), views.iter().map(|x| x.0).collect(), views.iter().map(|x| x.1).collect(), Arc::new(strs.clone()), valid.clone()))));
    v.push(("llistview", Arc::new(LargeListViewArray::new(f, views.iter().map(|x| x.0 as i64).collect(), views.iter().map(|x| x.1 as i64).collect(), Arc::new(strs.clone()), valid))));
    let uf = UnionFields::try_new(vec![3, 5], vec![Field::new("a", DataType::Int32, true), Field::new("b", DataType::Utf8, true)]).unwrap();
    let ids = || vec![3i8, 5, 3, 5, 5, 3].into();
    let ints = || Int32Array::from(vec![Some(1), None, Some(3), Some(-4), Some(5), None]);
    v.push(("sparse", Arc::new(UnionArray::try_new(uf.clone(), ids(), None, vec![Arc::new(ints()), Arc::new(strs.clone())]).unwrap())));
    v.push(("dense", Arc::new(UnionArray::try_new(uf, ids(), Some(vec![0, 1, 3, 0, 3, 5].into()), vec![Arc::new(ints()), Arc::new(strs)]).unwrap())));
    v.push(("d64", Arc::new(Date64Array::from(vec![Some(1), None, Some(86_400_000), Some(-1), Some(0), Some(7)]))));
    v.push(("t64", Arc::new(Time64NanosecondArray::from(vec![Some(1), None, Some(86_399_999_999_999), Some(0), Some(0), Some(7)]))));
    v.push(("dur", Arc::new(DurationMicrosecondArray::from(vec![Some(1), None, Some(i64::MIN), Some(i64::MAX), Some(0), Some(7)]))));
    v.push(("dec256", Arc::new(Decimal256Array::from(vec![Some(arrow::datatypes::i256::MINUS_ONE), None, Some(arrow::datatypes::i256::from_i128(i128::MAX)), None, Some(arrow::datatypes::i256::ZERO), None]))));
    v
}

/// How the six rows are cut into batches, as (offset, length) slices.
const CUTS: [(&str, &[(usize, usize)]); 6] = [
    ("whole", &[(0, 6)]),
    ("rows", &[(0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1)]),
    ("halves", &[(0, 3), (3, 3)]),
    ("gaps", &[(0, 0), (1, 2), (2, 0), (4, 2), (6, 0)]),
    ("empty", &[(3, 0)]),
    ("none", &[]),
];

fn content(col: usize, comp: Comp, ch: &Ch) -> RunResult {
    let cols = columns();
    let (cut, slices) = CUTS[choose(ch, CUTS.len(), |c| CUTS[c].0.into())];
    let extra = choose(ch, 3, |c| ["alone", "with ints", "twice"][c].into());
    let (schema, batch) = if col == cols.len() {
        // No columns at all.
        let schema = Arc::new(Schema::empty());
        (schema.clone(), RecordBatch::try_new_with_options(schema, vec![], &RecordBatchOptions::new().with_row_count(Some(6))).unwrap())
    } else {
        let a = cols[col].1.clone();
        let mut fields = vec![Field::new("c", a.data_type().clone(), true)];
        let mut arrays = vec![a.clone()];
        if extra == 1 {
            fields.push(Field::new("i", DataType::Int64, false).with_metadata([("m".to_string(), "1".to_string())].into()));
            arrays.push(Arc::new(Int64Array::from(vec![1, 2, 3, 4, 5, 6])));
        }
        if extra == 2 {
            fields.push(Field::new("d", a.data_type().clone(), true));
            arrays.push(a);
        }
        let schema = Arc::new(Schema::new_with_metadata(fields, [("s".to_string(), "2".to_string())].into()));
        (schema.clone(), RecordBatch::try_new(schema, arrays).unwrap())
    };
    let name = cols.get(col).map(|c| c.0).unwrap_or("nothing");
    rt::sim(async {
        let b = batch.clone();
        let src = SrcBuilder::new(schema.clone(), move |s| {
            // The other partition in reverse order.
            let mut v: Vec<Item> = slices.iter().map(|(o, l)| Item::Batch(b.slice(*o, *l))).collect();
            if s.part == 1 {
                v.reverse();
            }
            v
        })
        .build();
        let c = df_err(Conn::open(&src, 2, 1 << 20, comp, None).await, "open")?;
        let streams = df_err(c.read(0, 2).await, "read")?;
        for (p, mut st) in streams.into_iter().enumerate() {
            let mut got = vec![];
            loop {
                match rt::vtimeout(HORIZON_SECS, st.next()).await {
                    Err(()) => return viol("stuck", format!("{name}/{cut}/{extra}: no end")),
                    Ok(None) => break,
                    Ok(Some(Err(e))) => return viol("error", format!("{name}/{cut}/{extra}: {e}")),
                    Ok(Some(Ok(b))) => got.push(b),
                }
            }
            let mut exp: Vec<RecordBatch> = slices.iter().map(|(o, l)| batch.slice(*o, *l)).collect();
            if p == 1 {
                exp.reverse();
            }
            if let Some(b) = got.iter().find(|b| b.schema() != schema) {
                return viol("schema", format!("{name}/{cut}/{extra}: {:?} instead of {schema:?}", b.schema()));
            }
            let rows = |v: &[RecordBatch]| v.iter().map(RecordBatch::num_rows).sum::<usize>();
            if rows(&got) != rows(&exp) {
                return viol("rows", format!("{name}/{cut}/{extra}: partition {p} delivered {} rows instead of {}", rows(&got), rows(&exp)));
            }
            let text = |v: &[RecordBatch]| v.iter().flat_map(lines).collect::<Vec<_>>();
            if text(&got) != text(&exp) {
                return viol("values", format!("{name}/{cut}/{extra}: partition {p} delivered\n{:?} instead of\n{:?}", text(&got), text(&exp)));
            }
        }
        idle(&c, &src, name).await?;
        Ok(Obs { outcome: format!("{cut}{extra}"), nontrivial: !slices.is_empty(), ..Default::default() })
    })
}

/// Every row as text, telling NULL from everything else.
fn lines(b: &RecordBatch) -> Vec<String> {
    use arrow::util::display::{ArrayFormatter, FormatOptions};
    let o = FormatOptions::default().with_null("<NULL>");
    let f: Vec<_> = b.columns().iter().map(|c| ArrayFormatter::try_new(c.as_ref(), &o).unwrap()).collect();
    (0..b.num_rows()).map(|r| f.iter().map(|f| f.value(r).to_string()).collect::<Vec<_>>().join("|")).collect()
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let lz4 = Some(arrow::ipc::CompressionType::LZ4_FRAME);
    let zstd = Some(arrow::ipc::CompressionType::ZSTD);
    // (first partition, one after the last, operations, thorough)
    for (from, to, d, td) in [(0, 1, 5, 8), (0, 2, 4, 6), (1, 3, 3, 5), (0, 3, 3, 4), (0, 4, 3, 4), (0, 5, 3, 3)] {
        let d = if thorough { td } else { d };
        for budget in [1 << 26, 1, 300, 0] {
            for fail in [Fail::No, Fail::Err(0), Fail::Err(1), Fail::Err(2), Fail::Panic(0), Fail::Panic(1), Fail::Panic(2)] {
                if fail != Fail::No && (from != 0 || to > 3) || to > 3 && !thorough && budget != 1 << 26 {
                    continue;
                }
                let comp = if to == 3 { lz4 } else { None };
                // Failures are about what is delivered, not about how much is buffered.
                let d = if !thorough && fail != Fail::No { d - 1 } else { d };
                v.push(case(format!("seq/{from}-{to}/d{d}/b{budget}/{fail:?}"), d, move |ch| seq(from, to, budget, fail, comp, d, ch)));
            }
        }
    }
    for parts in 1..=3 {
        for budget in [1 << 26, 1] {
            for f in [Frame::Err, Frame::Hang] {
                for at in 0..12 {
                    v.push(case(format!("fault/p{parts}/b{budget}/{f:?}@{at}"), 1, move |ch| fault(parts, budget, f, at, ch)));
                }
            }
        }
    }
    for (i, comp) in [None, lz4, zstd].into_iter().enumerate() {
        for (col, name) in columns().iter().map(|c| c.0).chain(["nothing"]).enumerate() {
            v.push(case(format!("content/{name}/{}", ["none", "lz4", "zstd"][i]), 2, move |ch| content(col, comp, ch)));
        }
    }
    v
}
