//! Pass-through operator placed in a consumer stage: it stamps every row with the consumer task,
//! partition and position, and lets the explorer delay, stop or fail that consumer.
use crate::explore::{Ch, choose};
use datafusion::arrow::array::{ArrayRef, Int64Array, RecordBatch};
use datafusion::arrow::datatypes::{DataType, Field, Schema, SchemaRef};
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{Result, exec_datafusion_err};
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::physical_expr::{EquivalenceProperties, Partitioning, PhysicalExpr};
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties};
use datafusion_distributed::DistributedTaskContext;
use futures::StreamExt;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Formatter;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, LazyLock, Mutex};
use std::time::Duration;

#[derive(Default)]
pub struct TagCtl {
    pub id: u64,
    pub ch: Option<Ch>,
    /// The explorer may delay the opening of a consumer partition.
    pub delay_open: bool,
    /// The explorer may stop a consumer after any batch.
    pub may_drop: bool,
    /// The explorer may delay a consumer between batches.
    pub delay_batch: bool,
    /// (task, tasks, partition) -> state
    pub streams: Mutex<BTreeMap<(usize, usize, usize), StreamLog>>,
}

#[derive(Default, Clone, Debug, PartialEq, Eq)]
pub struct StreamLog {
    pub opened: usize,
    pub ended: bool,
    pub dropped_by_explorer: bool,
    pub error: Option<String>,
    pub rows: usize,
}

static REG: LazyLock<Mutex<HashMap<u64, Arc<TagCtl>>>> = LazyLock::new(Default::default);
static NEXT: AtomicU64 = AtomicU64::new(1);

pub struct TagHandle(pub Arc<TagCtl>);
impl Drop for TagHandle {
    fn drop(&mut self) {
        REG.lock().unwrap().remove(&self.0.id);
    }
}
impl std::ops::Deref for TagHandle {
    type Target = TagCtl;
    fn deref(&self) -> &TagCtl {
        &self.0
    }
}

impl TagCtl {
    pub fn register(mut self) -> TagHandle {
        self.id = NEXT.fetch_add(1, SeqCst);
        let a = Arc::new(self);
        REG.lock().unwrap().insert(a.id, a.clone());
        TagHandle(a)
    }
    pub fn get(id: u64) -> Option<Arc<TagCtl>> {
        REG.lock().unwrap().get(&id).cloned()
    }
    pub fn wrap(self: &Arc<Self>, input: Arc<dyn ExecutionPlan>) -> Arc<dyn ExecutionPlan> {
        Arc::new(VTag::new(self.clone(), input))
    }
    pub fn streams(&self) -> BTreeMap<(usize, usize, usize), StreamLog> {
        self.streams.lock().unwrap().clone()
    }
}

pub struct VTag {
    pub ctl: Arc<TagCtl>,
    pub input: Arc<dyn ExecutionPlan>,
    schema: SchemaRef,
    props: Arc<PlanProperties>,
}

impl std::fmt::Debug for VTag {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "VTag")
    }
}

pub fn tagged_schema(s: &SchemaRef) -> SchemaRef {
    let mut f: Vec<_> = s.fields().iter().cloned().collect();
    for n in ["ctask", "cpart", "cseq"] {
        f.push(Arc::new(Field::new(n, DataType::Int64, false)));
    }
    Arc::new(Schema::new(f))
}

impl VTag {
    pub fn new(ctl: Arc<TagCtl>, input: Arc<dyn ExecutionPlan>) -> Self {
        let schema = tagged_schema(&input.schema());
        let parts = input.properties().partitioning.partition_count();
        let props = PlanProperties::new(
            EquivalenceProperties::new(schema.clone()),
            Partitioning::UnknownPartitioning(parts),
            EmissionType::Incremental,
            Boundedness::Bounded,
        );
        Self { ctl, input, schema, props: Arc::new(props) }
    }
}

impl DisplayAs for VTag {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "VTag")
    }
}

impl ExecutionPlan for VTag {
    fn name(&self) -> &str {
        "VTag"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        &self.props
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![&self.input]
    }
    fn apply_expressions(
        &self,
        _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>,
    ) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn with_new_children(self: Arc<Self>, mut c: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::new(VTag::new(self.ctl.clone(), c.remove(0))))
    }
    fn execute(&self, partition: usize, ctx: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let d = DistributedTaskContext::from_ctx(&ctx);
        let key = (d.task_index, d.task_count, partition);
        let ctl = self.ctl.clone();
        ctl.streams.lock().unwrap().entry(key).or_default().opened += 1;
        let schema = self.schema.clone();
        let s2 = schema.clone();
        let input = self.input.clone();
        let st = async_stream(move |mut tx| async move {
            if ctl.delay_open
                && let Some(ch) = &ctl.ch
            {
                let c = choose(ch, 3, |c| format!("open{}.{}:{}", key.0, key.2, ["now", "late", "later"][c]));
                if c > 0 {
                    tokio::time::sleep(Duration::from_millis(700 * c as u64)).await;
                }
            }
            let mut inner = match input.execute(partition, ctx) {
                Ok(s) => s,
                Err(e) => {
                    ctl.streams.lock().unwrap().entry(key).or_default().error = Some(e.to_string());
                    let _ = tx.send(Err(e)).await;
                    return;
                }
            };
            let mut seq = 0i64;
            loop {
                if let Some(ch) = &ctl.ch {
                    let n = 1 + ctl.may_drop as usize + ctl.delay_batch as usize;
                    let c = choose(ch, n, |c| format!("cons{}.{}:{}", key.0, key.2, c));
                    if c == 1 && ctl.may_drop {
                        ctl.streams.lock().unwrap().entry(key).or_default().dropped_by_explorer = true;
                        return;
                    }
                    if c > 0 {
                        tokio::time::sleep(Duration::from_millis(500)).await;
                    }
                }
                match inner.next().await {
                    None => {
                        ctl.streams.lock().unwrap().entry(key).or_default().ended = true;
                        return;
                    }
                    Some(Err(e)) => {
                        ctl.streams.lock().unwrap().entry(key).or_default().error = Some(e.to_string());
                        let _ = tx.send(Err(e)).await;
                        return;
                    }
                    Some(Ok(b)) => {
                        let n = b.num_rows();
                        let mut cols: Vec<ArrayRef> = b.columns().to_vec();
                        cols.push(Arc::new(Int64Array::from(vec![key.0 as i64; n])));
                        cols.push(Arc::new(Int64Array::from(vec![key.2 as i64; n])));
                        cols.push(Arc::new(Int64Array::from((seq..seq + n as i64).collect::<Vec<_>>())));
                        seq += n as i64;
                        ctl.streams.lock().unwrap().entry(key).or_default().rows += n;
                        let b = RecordBatch::try_new(schema.clone(), cols).unwrap();
                        if tx.send(Ok(b)).await.is_err() {
                            return;
                        }
                    }
                }
            }
        });
        Ok(Box::pin(RecordBatchStreamAdapter::new(s2, st)))
    }
}

/// A stream fed by an async block that runs inside the stream itself (no task is spawned).
pub fn async_stream<T, F, Fut>(f: F) -> impl futures::Stream<Item = T> + Send + 'static
where
    T: Send + 'static,
    F: FnOnce(Tx<T>) -> Fut,
    Fut: std::future::Future<Output = ()> + Send + 'static,
{
    let (tx, rx) = futures::channel::mpsc::channel::<T>(0);
    let fut = f(Tx(tx));
    let driver = futures::stream::once(fut).filter_map(|_| futures::future::ready(None::<T>));
    futures::stream::select(driver.boxed(), rx.boxed())
}

pub struct Tx<T>(futures::channel::mpsc::Sender<T>);
impl<T> Tx<T> {
    pub async fn send(&mut self, t: T) -> std::result::Result<(), ()> {
        use futures::SinkExt;
        self.0.send(t).await.map_err(|_| ())
    }
}

pub fn decode_id(buf: &[u8]) -> Result<u64> {
    let s = std::str::from_utf8(buf).map_err(|e| exec_datafusion_err!("{e}"))?;
    let rest = s.strip_prefix("VTAG1;").ok_or_else(|| exec_datafusion_err!("not a VTag"))?;
    rest.parse().map_err(|e| exec_datafusion_err!("{e}"))
}
