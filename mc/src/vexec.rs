//! A scripted leaf operator: data, errors, panics and readiness are decided by the harness.
use datafusion::arrow::array::{Array, ArrayRef, Int64Array, RecordBatch, StringArray};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{DataFusionError, Result, exec_datafusion_err};
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::{EquivalenceProperties, Partitioning, PhysicalExpr};
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties, Statistics, StatisticsArgs};
use datafusion_distributed::DistributedTaskContext;
use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Formatter;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, LazyLock, Mutex};
use tokio::sync::Notify;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Slot {
    pub task: usize,
    pub tasks: usize,
    pub part: usize,
    pub parts: usize,
}

#[derive(Clone)]
pub enum Item {
    Batch(RecordBatch),
    Err(String),
    Panic(String),
    /// Never completes.
    Hang,
    /// Nothing for that many (virtual) milliseconds.
    Wait(u64),
    /// As first item: `execute` itself fails.
    OpenErr(String),
    /// As first item: `execute` itself panics.
    OpenPanic(String),
    Fail(MakeErr),
    /// As first item: `execute` itself fails.
    OpenFail(MakeErr),
}

pub type MakeErr = Arc<dyn Fn() -> DataFusionError + Send + Sync>;

type DataFn = Box<dyn Fn(Slot) -> Vec<Item> + Send + Sync>;

/// Permits given to a gated stream; every item and the end of the stream consume one.
#[derive(Default)]
pub struct Gate {
    permits: Mutex<HashMap<(usize, usize), usize>>,
    all: std::sync::atomic::AtomicBool,
    notify: Notify,
}

impl Gate {
    pub fn allow(&self, task: usize, part: usize) {
        *self.permits.lock().unwrap().entry((task, part)).or_default() += 1;
        self.notify.notify_waiters();
    }
    pub fn allow_all(&self) {
        self.all.store(true, SeqCst);
        self.notify.notify_waiters();
    }
    async fn take(&self, task: usize, part: usize) {
        loop {
            let n = self.notify.notified();
            tokio::pin!(n);
            n.as_mut().enable();
            if self.all.load(SeqCst) {
                return;
            }
            {
                let mut g = self.permits.lock().unwrap();
                if let Some(p) = g.get_mut(&(task, part))
                    && *p > 0
                {
                    *p -= 1;
                    return;
                }
            }
            n.await;
        }
    }
}

pub struct Src {
    pub id: u64,
    pub schema: SchemaRef,
    data: DataFn,
    pub gate: Option<Gate>,
    pub opened: Mutex<BTreeMap<Slot, usize>>,
    pub emitted_rows: Mutex<BTreeMap<Slot, usize>>,
    pub live: AtomicUsize,
    pub props: Box<dyn Fn(usize, SchemaRef) -> PlanProperties + Send + Sync>,
    pub fired: Arc<AtomicUsize>,
    pub on_open: Mutex<Option<Box<dyn Fn(&Arc<TaskContext>, Slot) + Send + Sync>>>,
    /// Rows in total, as announced to planners.
    pub announced: Mutex<Option<datafusion::common::stats::Precision<usize>>>,
    /// Further metrics that the operator records.
    pub extra_metrics: Mutex<Option<Box<dyn Fn(Slot) -> Vec<datafusion::physical_plan::Metric> + Send + Sync>>>,
}

static REG: LazyLock<Mutex<HashMap<u64, Arc<Src>>>> = LazyLock::new(Default::default);
static NEXT: AtomicU64 = AtomicU64::new(1);

/// Removes the source from the registry when dropped.
pub struct SrcHandle(pub Arc<Src>);
impl Drop for SrcHandle {
    fn drop(&mut self) {
        REG.lock().unwrap().remove(&self.0.id);
    }
}
impl std::ops::Deref for SrcHandle {
    type Target = Src;
    fn deref(&self) -> &Src {
        &self.0
    }
}

pub fn default_props(parts: usize, schema: SchemaRef) -> PlanProperties {
    PlanProperties::new(
        EquivalenceProperties::new(schema),
        Partitioning::UnknownPartitioning(parts),
        EmissionType::Incremental,
        Boundedness::Bounded,
    )
}

pub struct SrcBuilder {
    schema: SchemaRef,
    data: DataFn,
    gated: bool,
    props: Box<dyn Fn(usize, SchemaRef) -> PlanProperties + Send + Sync>,
    fired: Arc<AtomicUsize>,
}

impl SrcBuilder {
    pub fn new(schema: SchemaRef, data: impl Fn(Slot) -> Vec<Item> + Send + Sync + 'static) -> Self {
        Self { schema, data: Box::new(data), gated: false, props: Box::new(default_props), fired: Default::default() }
    }
    pub fn gated(mut self) -> Self {
        self.gated = true;
        self
    }
    /// Counts the errors and panics that were really raised.
    pub fn fired(mut self, n: Arc<AtomicUsize>) -> Self {
        self.fired = n;
        self
    }
    pub fn props(mut self, f: impl Fn(usize, SchemaRef) -> PlanProperties + Send + Sync + 'static) -> Self {
        self.props = Box::new(f);
        self
    }
    pub fn build(self) -> SrcHandle {
        let id = NEXT.fetch_add(1, SeqCst);
        let s = Arc::new(Src {
            id,
            schema: self.schema,
            data: self.data,
            gate: self.gated.then(Gate::default),
            opened: Default::default(),
            emitted_rows: Default::default(),
            live: AtomicUsize::new(0),
            props: self.props,
            fired: self.fired,
            on_open: Mutex::new(None),
            announced: Mutex::new(None),
            extra_metrics: Mutex::new(None),
        });
        REG.lock().unwrap().insert(id, s.clone());
        SrcHandle(s)
    }
}

impl Src {
    pub fn get(id: u64) -> Option<Arc<Src>> {
        REG.lock().unwrap().get(&id).cloned()
    }
    pub fn exec(self: &Arc<Self>, parts: usize) -> Arc<VExec> {
        Arc::new(VExec::new(self.clone(), parts, None, vec![]))
    }
    pub fn exec_tagged(self: &Arc<Self>, parts: usize, tag: &str) -> Arc<VExec> {
        Arc::new(VExec::new(self.clone(), parts, None, tag.as_bytes().to_vec()))
    }
    pub fn gate(&self) -> &Gate {
        self.gate.as_ref().expect("not gated")
    }
    pub fn opened(&self) -> BTreeMap<Slot, usize> {
        self.opened.lock().unwrap().clone()
    }
    pub fn emitted(&self) -> BTreeMap<Slot, usize> {
        self.emitted_rows.lock().unwrap().clone()
    }
    pub fn live(&self) -> usize {
        self.live.load(SeqCst)
    }
}

pub struct VExec {
    pub src: Arc<Src>,
    pub parts: usize,
    pub projection: Option<Vec<usize>>,
    schema: SchemaRef,
    props: Arc<PlanProperties>,
    /// Extra bytes carried through the codec (e.g. tags used by handlers).
    pub tag: Vec<u8>,
    metrics: datafusion::physical_plan::metrics::ExecutionPlanMetricsSet,
}

impl std::fmt::Debug for VExec {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "VExec({}, {})", self.src.id, self.parts)
    }
}

impl VExec {
    pub fn new(src: Arc<Src>, parts: usize, projection: Option<Vec<usize>>, tag: Vec<u8>) -> Self {
        let mut props = (src.props)(parts, src.schema.clone());
        let mut schema = src.schema.clone();
        if let Some(p) = &projection {
            schema = Arc::new(schema.project(p).unwrap());
            props = PlanProperties::new(
                EquivalenceProperties::new(schema.clone()),
                Partitioning::UnknownPartitioning(parts),
                EmissionType::Incremental,
                Boundedness::Bounded,
            );
        }
        Self { src, parts, projection, schema, props: Arc::new(props), tag, metrics: Default::default() }
    }
    pub fn with_parts(&self, parts: usize) -> Self {
        Self::new(self.src.clone(), parts, self.projection.clone(), self.tag.clone())
    }
}

impl DisplayAs for VExec {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "VExec: parts={}", self.parts)
    }
}

struct Live(Arc<Src>);
impl Drop for Live {
    fn drop(&mut self) {
        self.0.live.fetch_sub(1, SeqCst);
    }
}

impl ExecutionPlan for VExec {
    fn name(&self) -> &str {
        "VExec"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        &self.props
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![]
    }
    fn apply_expressions(
        &self,
        _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>,
    ) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(self)
    }
    fn execute(&self, partition: usize, ctx: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        if partition >= self.parts {
            return Err(exec_datafusion_err!("VExec: partition {partition} of {}", self.parts));
        }
        let d = DistributedTaskContext::from_ctx(&ctx);
        let slot = Slot { task: d.task_index, tasks: d.task_count, part: partition, parts: self.parts };
        let src = self.src.clone();
        *src.opened.lock().unwrap().entry(slot).or_default() += 1;
        if let Some(f) = &*src.on_open.lock().unwrap() {
            f(&ctx, slot);
        }
        if let Some(f) = &*src.extra_metrics.lock().unwrap() {
            f(slot).into_iter().for_each(|m| self.metrics.register(Arc::new(m)));
        }
        src.live.fetch_add(1, SeqCst);
        let live = Live(src.clone());
        let items = (src.data)(slot);
        match items.first() {
            Some(Item::OpenErr(e)) => {
                src.fired.fetch_add(1, SeqCst);
                return Err(DataFusionError::Execution(e.clone()));
            }
            Some(Item::OpenFail(e)) => {
                src.fired.fetch_add(1, SeqCst);
                return Err(e());
            }
            Some(Item::OpenPanic(e)) => {
                src.fired.fetch_add(1, SeqCst);
                panic!("{e}")
            }
            _ => {}
        }
        let projection = self.projection.clone();
        let rows_metric =
            datafusion::physical_plan::metrics::MetricBuilder::new(&self.metrics).output_rows(partition);
        let st = futures::stream::unfold((items.into_iter(), src, live, false), move |(mut it, src, live, done)| {
            let projection = projection.clone();
            let rows_metric = rows_metric.clone();
            async move {
                if done {
                    return None;
                }
                if let Some(g) = &src.gate {
                    g.take(slot.task, slot.part).await;
                }
                let mut item = it.next();
                while let Some(Item::Wait(ms)) = item {
                    tokio::time::sleep(std::time::Duration::from_millis(ms)).await;
                    item = it.next();
                }
                if matches!(item, Some(Item::Err(_) | Item::Panic(_) | Item::Fail(_))) {
                    src.fired.fetch_add(1, SeqCst);
                }
                match item {
                    None | Some(Item::Wait(_)) => None,
                    Some(Item::Batch(b)) => {
                        let b = match &projection {
                            Some(p) => b.project(p).unwrap(),
                            None => b,
                        };
                        *src.emitted_rows.lock().unwrap().entry(slot).or_default() += b.num_rows();
                        rows_metric.add(b.num_rows());
                        Some((Ok(b), (it, src, live, false)))
                    }
                    Some(Item::Err(e)) => Some((Err(DataFusionError::Execution(e)), (it, src, live, true))),
                    Some(Item::Fail(e)) => Some((Err(e()), (it, src, live, true))),
                    Some(Item::Panic(e)) => panic!("{e}"),
                    Some(Item::OpenErr(_)) | Some(Item::OpenPanic(_)) | Some(Item::OpenFail(_)) => unreachable!("only as first item"),
                    Some(Item::Hang) => {
                        futures::future::pending::<()>().await;
                        None
                    }
                }
            }
        });
        Ok(Box::pin(RecordBatchStreamAdapter::new(self.schema.clone(), st)))
    }
    fn metrics(&self) -> Option<datafusion::physical_plan::metrics::MetricsSet> {
        Some(self.metrics.clone_inner())
    }
    fn statistics_from_inputs(&self, _: &[Arc<Statistics>], _: &StatisticsArgs) -> Result<Arc<Statistics>> {
        let mut s = Statistics::new_unknown(&self.schema);
        if let Some(n) = *self.src.announced.lock().unwrap() {
            s.num_rows = n;
        }
        Ok(Arc::new(s))
    }
}

/// Codec for [VExec]: refers to the process-wide registry by id.
#[derive(Debug, Clone, Copy)]
pub struct VCodec;

impl PhysicalExtensionCodec for VCodec {
    fn try_decode(
        &self,
        buf: &[u8],
        _inputs: &[Arc<dyn ExecutionPlan>],
        _ctx: &TaskContext,
        _proto: &dyn PhysicalProtoConverterExtension,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        if buf.starts_with(b"VTAG1;") {
            let id = crate::vtag::decode_id(buf)?;
            let ctl = crate::vtag::TagCtl::get(id).ok_or_else(|| exec_datafusion_err!("VTag {id} is gone"))?;
            let input = _inputs.first().cloned().ok_or_else(|| exec_datafusion_err!("VTag without input"))?;
            return Ok(Arc::new(crate::vtag::VTag::new(ctl, input)));
        }
        let s = std::str::from_utf8(buf).map_err(|e| exec_datafusion_err!("{e}"))?;
        let rest = s.strip_prefix("VEXEC1;").ok_or_else(|| exec_datafusion_err!("not a VExec"))?;
        let f: Vec<&str> = rest.split(';').collect();
        if f.len() != 4 {
            return Err(exec_datafusion_err!("bad VExec"));
        }
        let id: u64 = f[0].parse().map_err(|e| exec_datafusion_err!("{e}"))?;
        let parts: usize = f[1].parse().map_err(|e| exec_datafusion_err!("{e}"))?;
        let proj = match f[2] {
            "-" => None,
            x => Some(x.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
        };
        let src = Src::get(id).ok_or_else(|| exec_datafusion_err!("VExec source {id} is gone"))?;
        Ok(Arc::new(VExec::new(src, parts, proj, f[3].as_bytes().to_vec())))
    }
    fn try_encode(
        &self,
        node: Arc<dyn ExecutionPlan>,
        buf: &mut Vec<u8>,
        _proto: &dyn PhysicalProtoConverterExtension,
    ) -> Result<()> {
        if let Some(t) = node.downcast_ref::<crate::vtag::VTag>() {
            buf.extend_from_slice(format!("VTAG1;{}", t.ctl.id).as_bytes());
            return Ok(());
        }
        let Some(v) = node.downcast_ref::<VExec>() else {
            return Err(exec_datafusion_err!("not a VExec: {}", node.name()));
        };
        let proj = match &v.projection {
            None => "-".to_string(),
            Some(p) => p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") + ",",
        };
        buf.extend_from_slice(
            format!("VEXEC1;{};{};{};{}", v.src.id, v.parts, proj, String::from_utf8_lossy(&v.tag)).as_bytes(),
        );
        Ok(())
    }
}

// ---------------------------------------------------------------- batches

/// (k: nullable Int64, v: Int64)
pub fn kv_schema() -> SchemaRef {
    Arc::new(Schema::new(vec![
        Field::new("k", DataType::Int64, true),
        Field::new("v", DataType::Int64, false),
    ]))
}

pub type Kv = (Option<i64>, i64);

pub fn kv_batch(rows: &[Kv]) -> RecordBatch {
    let k: Int64Array = rows.iter().map(|r| r.0).collect();
    let v: Int64Array = rows.iter().map(|r| Some(r.1)).collect();
    RecordBatch::try_new(kv_schema(), vec![Arc::new(k) as ArrayRef, Arc::new(v) as ArrayRef]).unwrap()
}

pub fn kv_rows(b: &RecordBatch) -> Vec<Kv> {
    let k = b.column(0).as_any().downcast_ref::<Int64Array>().unwrap();
    let v = b.column(1).as_any().downcast_ref::<Int64Array>().unwrap();
    (0..b.num_rows()).map(|i| (k.is_valid(i).then(|| k.value(i)), v.value(i))).collect()
}

pub fn str_batch(rows: &[&str]) -> RecordBatch {
    let s: StringArray = rows.iter().map(|r| Some(*r)).collect();
    RecordBatch::try_new(
        Arc::new(Schema::new(vec![Field::new("s", DataType::Utf8, true)])),
        vec![Arc::new(s) as ArrayRef],
    )
    .unwrap()
}
