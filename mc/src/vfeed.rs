//! A leaf whose work arrives through a work-unit feed, with a scripted provider.
use crate::vexec::{Kv, kv_batch, kv_schema};
use async_trait::async_trait;
use datafusion::arrow::datatypes::SchemaRef;
use datafusion::catalog::{Session, TableProvider};
use datafusion::common::tree_node::TreeNodeRecursion;
use datafusion::common::{Result, exec_datafusion_err};
use datafusion::execution::{SendableRecordBatchStream, TaskContext};
use datafusion::logical_expr::{Expr, TableType};
use datafusion::physical_expr::{EquivalenceProperties, Partitioning, PhysicalExpr};
use datafusion::physical_plan::execution_plan::{Boundedness, EmissionType};
use datafusion::physical_plan::stream::RecordBatchStreamAdapter;
use datafusion::physical_plan::{DisplayAs, DisplayFormatType, ExecutionPlan, PlanProperties};
use datafusion_distributed::*;
use datafusion_proto::physical_plan::{PhysicalExtensionCodec, PhysicalProtoConverterExtension};
use futures::StreamExt;
use futures::stream::BoxStream;
use prost::Message;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Formatter;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, LazyLock, Mutex};
use std::time::Duration;

#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Unit {
    #[prost(uint64, tag = "1")]
    pub feed: u64,
    #[prost(uint64, tag = "2")]
    pub seq: u64,
    #[prost(string, tag = "3")]
    pub text: String,
    #[prost(bytes = "vec", tag = "4")]
    pub blob: Vec<u8>,
    #[prost(sint64, optional, tag = "5")]
    pub opt: Option<i64>,
}

impl Unit {
    /// Unit (0, 0) is the default message, whose encoding is empty.
    pub fn new(feed: usize, seq: usize) -> Self {
        Unit {
            feed: feed as u64,
            seq: seq as u64,
            text: ["", "é∅", "x"][seq % 3].repeat(1 + seq % 4),
            blob: (0..(seq % 5)).map(|i| (i * 77) as u8).collect(),
            opt: if seq % 4 == 0 { None } else { Some(seq as i64 - 2) },
        }
    }
    pub fn row(&self) -> Kv {
        let k = (self.feed + self.seq) as i64 % 4;
        ((k != 3).then_some(k), (self.feed * 1000 + self.seq) as i64)
    }
}

pub enum FItem {
    Unit(Unit),
    Late(u64),
    /// Until the consumer of this feed has received this many units.
    Until(usize, usize),
    Err(String),
    Panic(String),
    /// Only as the first item: the feed cannot be opened.
    OpenErr(String),
    OpenPanic(String),
}

#[derive(Default, Clone, Debug)]
pub struct Got {
    pub opened: usize,
    pub units: Vec<Unit>,
    pub ended: bool,
    pub stopped: bool,
    pub error: Option<String>,
}

#[derive(Default)]
pub struct Log {
    /// feed -> (fan-out, times opened, units)
    pub sent: BTreeMap<usize, (usize, usize, Vec<Unit>)>,
    /// Feeds that came to their end.
    pub ended: Vec<usize>,
    /// (task, tasks, partition)
    pub got: BTreeMap<(usize, usize, usize), Got>,
}

type Script = Box<dyn Fn(usize, usize) -> Vec<FItem> + Send + Sync>;
type Stop = Box<dyn Fn(usize, usize) -> usize + Send + Sync>;

pub struct Ctl {
    pub id: u64,
    pub tasks: usize,
    /// (feed, fan-out) -> items
    script: Script,
    /// (task, partition) -> after how many units the consumer stops by itself
    stop: Option<Stop>,
    pub log: Mutex<Log>,
    pub fired: AtomicUsize,
    progress: tokio::sync::watch::Sender<u64>,
    pub parts: AtomicUsize,
}

impl std::fmt::Debug for Ctl {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "Ctl({})", self.id)
    }
}

static REG: LazyLock<Mutex<HashMap<u64, Arc<Ctl>>>> = LazyLock::new(Default::default);
static NEXT: AtomicU64 = AtomicU64::new(1);

pub struct FeedHandle(pub Arc<Ctl>);
impl Drop for FeedHandle {
    fn drop(&mut self) {
        REG.lock().unwrap().remove(&self.0.id);
    }
}

pub fn feed_source(
    tasks: usize,
    script: impl Fn(usize, usize) -> Vec<FItem> + Send + Sync + 'static,
    stop: Option<Stop>,
) -> FeedHandle {
    let id = NEXT.fetch_add(1, SeqCst);
    let c = Arc::new(Ctl {
        id,
        tasks,
        script: Box::new(script),
        stop,
        log: Default::default(),
        fired: Default::default(),
        progress: tokio::sync::watch::Sender::new(0),
        parts: AtomicUsize::new(0),
    });
    REG.lock().unwrap().insert(id, c.clone());
    FeedHandle(c)
}

#[derive(Debug, Clone)]
pub struct Provider(pub Option<Arc<Ctl>>);

impl WorkUnitFeedProvider for Provider {
    type WorkUnit = Unit;
    fn feed(&self, partition: usize, ctx: Arc<TaskContext>) -> Result<BoxStream<'static, Result<Unit>>> {
        let ctl = self.0.clone().expect("the provider is only used where it was made");
        let fan = DistributedWorkUnitFeedContext::from_ctx(&ctx).fan_out_tasks;
        let items = (ctl.script)(partition, fan);
        {
            let mut g = ctl.log.lock().unwrap();
            let e = g.sent.entry(partition).or_default();
            e.0 = fan;
            e.1 += 1;
        }
        match items.first() {
            Some(FItem::OpenErr(m)) => {
                ctl.fired.fetch_add(1, SeqCst);
                return Err(exec_datafusion_err!("{m}"));
            }
            Some(FItem::OpenPanic(m)) => {
                ctl.fired.fetch_add(1, SeqCst);
                panic!("{m}")
            }
            _ => {}
        }
        Ok(futures::stream::unfold((items.into_iter(), ctl, false), move |(mut it, ctl, done)| async move {
            if done {
                return None;
            }
            loop {
                match it.next() {
                    None => {
                        ctl.log.lock().unwrap().ended.push(partition);
                        return None;
                    }
                    Some(FItem::Late(s)) => tokio::time::sleep(Duration::from_secs(s)).await,
                    Some(FItem::Until(feed, n)) => {
                        let mut rx = ctl.progress.subscribe();
                        loop {
                            let have: usize = ctl.log.lock().unwrap().got.values().map(|g| g.units.iter().filter(|u| u.feed == feed as u64).count()).sum();
                            if have >= n {
                                break;
                            }
                            let _ = rx.changed().await;
                        }
                    }
                    Some(FItem::Err(m)) => {
                        ctl.fired.fetch_add(1, SeqCst);
                        return Some((Err(exec_datafusion_err!("{m}")), (it, ctl, true)));
                    }
                    Some(FItem::Panic(m)) => {
                        ctl.fired.fetch_add(1, SeqCst);
                        panic!("{m}")
                    }
                    Some(FItem::Unit(u)) => {
                        ctl.log.lock().unwrap().sent.entry(partition).or_default().2.push(u.clone());
                        return Some((Ok(u), (it, ctl, false)));
                    }
                    Some(FItem::OpenErr(_) | FItem::OpenPanic(_)) => unreachable!("only as first item"),
                }
            }
        })
        .boxed())
    }
}

pub struct FeedExec {
    pub ctl: Arc<Ctl>,
    pub parts: usize,
    pub feed: WorkUnitFeed<Provider>,
    pub projection: Option<Vec<usize>>,
    schema: SchemaRef,
    props: Arc<PlanProperties>,
}

impl FeedExec {
    pub fn new(ctl: Arc<Ctl>, parts: usize, feed: WorkUnitFeed<Provider>, projection: Option<Vec<usize>>) -> Self {
        let schema = match &projection {
            None => kv_schema(),
            Some(p) => Arc::new(kv_schema().project(p).unwrap()),
        };
        let props = PlanProperties::new(
            EquivalenceProperties::new(schema.clone()),
            Partitioning::UnknownPartitioning(parts),
            EmissionType::Incremental,
            Boundedness::Bounded,
        );
        ctl.parts.store(parts, SeqCst);
        Self { ctl, parts, feed, projection, schema, props: Arc::new(props) }
    }
}

impl std::fmt::Debug for FeedExec {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "FeedExec({})", self.ctl.id)
    }
}

impl DisplayAs for FeedExec {
    fn fmt_as(&self, _: DisplayFormatType, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "FeedExec: parts={}", self.parts)
    }
}

impl ExecutionPlan for FeedExec {
    fn name(&self) -> &str {
        "FeedExec"
    }
    fn properties(&self) -> &Arc<PlanProperties> {
        &self.props
    }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> {
        vec![]
    }
    fn apply_expressions(&self, _f: &mut dyn FnMut(&Arc<dyn PhysicalExpr>) -> Result<TreeNodeRecursion>) -> Result<TreeNodeRecursion> {
        Ok(TreeNodeRecursion::Continue)
    }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn ExecutionPlan>>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(self)
    }
    fn execute(&self, partition: usize, ctx: Arc<TaskContext>) -> Result<SendableRecordBatchStream> {
        let d = DistributedTaskContext::from_ctx(&ctx);
        let at = (d.task_index, d.task_count, partition);
        let ctl = self.ctl.clone();
        ctl.log.lock().unwrap().got.entry(at).or_default().opened += 1;
        let stop = ctl.stop.as_ref().map(|f| f(at.0, partition)).unwrap_or(usize::MAX);
        let units = self.feed.feed(partition, ctx)?;
        let projection = self.projection.clone();
        let st = futures::stream::unfold((units, ctl, 0usize, false), move |(mut units, ctl, n, done)| {
            let projection = projection.clone();
            async move {
                if done {
                    return None;
                }
                if n >= stop {
                    ctl.log.lock().unwrap().got.entry(at).or_default().stopped = true;
                    // The feed is dropped before the stream ends.
                    drop(units);
                    return None;
                }
                match units.next().await {
                    None => {
                        ctl.log.lock().unwrap().got.entry(at).or_default().ended = true;
                        None
                    }
                    Some(Err(e)) => {
                        ctl.log.lock().unwrap().got.entry(at).or_default().error = Some(e.to_string());
                        Some((Err(e), (units, ctl, n, true)))
                    }
                    Some(Ok(u)) => {
                        let b = kv_batch(&[u.row()]);
                        ctl.log.lock().unwrap().got.entry(at).or_default().units.push(u);
                        ctl.progress.send_modify(|x| *x += 1);
                        let b = match &projection {
                            None => b,
                            Some(p) => b.project(p).unwrap(),
                        };
                        Some((Ok(b), (units, ctl, n + 1, false)))
                    }
                }
            }
        });
        Ok(Box::pin(RecordBatchStreamAdapter::new(self.schema.clone(), st)))
    }
}

#[derive(Debug, Clone, Copy)]
pub struct FeedCodec;

#[derive(Clone, PartialEq, ::prost::Message)]
struct FeedExecProto {
    #[prost(uint64, tag = "1")]
    id: u64,
    #[prost(uint64, tag = "2")]
    parts: u64,
    #[prost(bool, tag = "3")]
    projected: bool,
    #[prost(uint64, repeated, tag = "4")]
    projection: Vec<u64>,
    #[prost(message, optional, tag = "5")]
    feed: Option<WorkUnitFeedProto>,
}

impl PhysicalExtensionCodec for FeedCodec {
    fn try_decode(&self, buf: &[u8], _: &[Arc<dyn ExecutionPlan>], _: &TaskContext, _: &dyn PhysicalProtoConverterExtension) -> Result<Arc<dyn ExecutionPlan>> {
        let rest = buf.strip_prefix(b"FEED1;").ok_or_else(|| exec_datafusion_err!("not a FeedExec"))?;
        let p = FeedExecProto::decode(rest).map_err(|e| exec_datafusion_err!("{e}"))?;
        let ctl = REG.lock().unwrap().get(&p.id).cloned().ok_or_else(|| exec_datafusion_err!("feed is gone"))?;
        let feed = WorkUnitFeed::from_proto(p.feed.ok_or_else(|| exec_datafusion_err!("no feed"))?)?;
        let projection = p.projected.then(|| p.projection.iter().map(|x| *x as usize).collect());
        Ok(Arc::new(FeedExec::new(ctl, p.parts as usize, feed, projection)))
    }
    fn try_encode(&self, node: Arc<dyn ExecutionPlan>, buf: &mut Vec<u8>, _: &dyn PhysicalProtoConverterExtension) -> Result<()> {
        let Some(v) = node.downcast_ref::<FeedExec>() else {
            return Err(exec_datafusion_err!("not a FeedExec: {}", node.name()));
        };
        buf.extend_from_slice(b"FEED1;");
        FeedExecProto {
            id: v.ctl.id,
            parts: v.parts as u64,
            projected: v.projection.is_some(),
            projection: v.projection.iter().flatten().map(|x| *x as u64).collect(),
            feed: Some(v.feed.to_proto()),
        }
        .encode(buf)
        .map_err(|e| exec_datafusion_err!("{e}"))
    }
}

pub fn feed_task_counts(ev: DesiredTaskCountEvent<'_>) -> Option<Result<DesiredTaskCountEventResponse>> {
    let v = ev.plan.downcast_ref::<FeedExec>()?;
    Some(Ok(DesiredTaskCountEventResponse::desired(v.ctl.tasks)))
}

#[derive(Debug)]
pub struct FeedTable {
    pub ctl: Arc<Ctl>,
    pub parts: usize,
}

#[async_trait]
impl TableProvider for FeedTable {
    fn schema(&self) -> SchemaRef {
        kv_schema()
    }
    fn table_type(&self) -> TableType {
        TableType::Base
    }
    async fn scan(&self, _: &dyn Session, projection: Option<&Vec<usize>>, _: &[Expr], _: Option<usize>) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(Arc::new(FeedExec::new(self.ctl.clone(), self.parts, WorkUnitFeed::new(Provider(Some(self.ctl.clone()))), projection.cloned())))
    }
}
