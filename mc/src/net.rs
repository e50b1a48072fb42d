//! A simulated cluster: real [Worker]s behind a harness transport where every message is an
//! event that the explorer can delay or fail.
use crate::vexec::VCodec;
use async_trait::async_trait;
use datafusion::arrow::array::RecordBatch;
use datafusion::common::{DataFusionError, Result, exec_datafusion_err};
use datafusion::execution::context::QueryPlanner;
use datafusion::execution::{SessionState, SessionStateBuilder, TaskContext};
use datafusion::logical_expr::LogicalPlan;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_distributed::*;
use futures::{FutureExt, StreamExt};
use futures::stream::BoxStream;
use http::HeaderMap;
use std::collections::{HashMap, HashSet};
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::{Arc, Mutex, Weak};
use std::task::{Context, Poll};
use std::time::Duration;
use tower::ServiceExt;
use url::Url;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    /// Obtaining a client for a worker.
    Resolve,
    /// Plan delivery call (before the worker sees it).
    SetPlan,
    /// Reply to the plan delivery call (the worker has seen it).
    SetPlanReply,
    /// A message from coordinator to worker.
    C2W,
    /// A message from worker to coordinator.
    W2C,
    /// Read request (before the worker sees it).
    Exec,
    /// Reply to the read request.
    ExecReply,
    /// A batch (or the end) of a partition stream.
    Batch,
}

#[derive(Debug, Clone)]
pub struct Ev {
    pub kind: Kind,
    pub url: Url,
    pub stage: usize,
    pub task: usize,
    pub part: usize,
    pub seq: usize,
    /// Only for Batch/W2C/C2W: this is the end of the stream rather than an item.
    pub end: bool,
    /// Only for Batch: rows of the batch (0 for errors).
    pub rows: usize,
    /// Only for Batch/W2C/C2W: an error.
    pub err: bool,
}

impl Ev {
    pub fn short(&self) -> String {
        format!(
            "{:?}@{} s{}t{}p{}#{}{}",
            self.kind,
            &self.url.as_str()[7..],
            self.stage,
            self.task,
            self.part,
            self.seq,
            if self.end { "E" } else { "" }
        )
    }
}

pub enum Decision {
    Go,
    Delay(Duration),
    Fail(String),
    Panic(String),
}

pub trait Policy: Send + Sync {
    fn decide(&self, ev: &Ev) -> Decision;
}

impl<F: Fn(&Ev) -> Decision + Send + Sync> Policy for F {
    fn decide(&self, ev: &Ev) -> Decision {
        self(ev)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Transport {
    /// Calls the worker directly; plans are passed encoded.
    Direct,
    /// The crate's gRPC client and server, connected without a socket.
    Grpc,
}

pub struct NetInner {
    pub workers: Mutex<HashMap<Url, Worker>>,
    channels: Mutex<HashMap<Url, grpc::BoxCloneSyncChannel>>,
    pub transport: Transport,
    pub policy: Mutex<Option<Arc<dyn Policy>>>,
    pub log: Mutex<Vec<Ev>>,
    frames: Mutex<Option<FramePolicy>>,
    /// The headers of every call, if somebody wants them.
    pub headers: Mutex<Option<Vec<(Kind, HeaderMap)>>>,
    /// Sees the plan of every task as the coordinator sends it.
    pub plans: Mutex<Option<PlanHook>>,
    /// Replaces messages of workers to the coordinator.
    pub w2c: Mutex<Option<W2cHook>>,
    /// Workers that are gone: every call and stream to them is broken.
    dead: tokio::sync::watch::Sender<HashSet<Url>>,
}

/// What happens to the n-th piece of a gRPC response body.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Frame {
    Go,
    /// The connection fails.
    Err,
    /// Nothing more ever arrives.
    Hang,
}
pub type FramePolicy = Arc<dyn Fn(&str, usize) -> Frame + Send + Sync>;

pub type W2cHook = Arc<dyn Fn(TaskKey, WorkerToCoordinatorMsg) -> Vec<WorkerToCoordinatorMsg> + Send + Sync>;
pub type PlanHook = Box<dyn Fn(TaskKey, &Arc<dyn ExecutionPlan>) + Send>;

#[derive(Clone)]
pub struct Net(pub Arc<NetInner>);

impl Net {
    pub fn new(transport: Transport) -> Self {
        Net(Arc::new(NetInner {
            workers: Default::default(),
            channels: Default::default(),
            transport,
            policy: Default::default(),
            log: Default::default(),
            frames: Default::default(),
            headers: Default::default(),
            plans: Default::default(),
            w2c: Default::default(),
            dead: tokio::sync::watch::Sender::new(HashSet::new()),
        }))
    }
    pub fn set_policy(&self, p: impl Policy + 'static) {
        *self.0.policy.lock().unwrap() = Some(Arc::new(p));
    }
    pub fn clear_policy(&self) {
        *self.0.policy.lock().unwrap() = None;
    }
    pub fn log(&self) -> Vec<Ev> {
        self.0.log.lock().unwrap().clone()
    }
    pub fn clear_log(&self) {
        self.0.log.lock().unwrap().clear();
    }
    /// From now on nothing gets to or from this worker.
    pub fn kill(&self, url: &Url) {
        self.0.dead.send_modify(|d| {
            d.insert(url.clone());
        });
    }
    pub fn is_dead(&self, url: &Url) -> bool {
        self.0.dead.borrow().contains(url)
    }
    async fn until_dead(&self, url: &Url) -> DataFusionError {
        let mut rx = self.0.dead.subscribe();
        let gone = rx.wait_for(|d| d.contains(url)).await.is_ok();
        if !gone {
            futures::future::pending::<()>().await;
        }
        exec_datafusion_err!("boom-net connection to {url} lost")
    }
    /// Only for [Transport::Grpc].
    pub fn set_frames(&self, p: impl Fn(&str, usize) -> Frame + Send + Sync + 'static) {
        *self.0.frames.lock().unwrap() = Some(Arc::new(p));
    }
    async fn event(&self, ev: Ev) -> Result<()> {
        self.0.log.lock().unwrap().push(ev.clone());
        let p = self.0.policy.lock().unwrap().clone();
        let Some(p) = p else { return Ok(()) };
        let d = p.decide(&ev);
        if self.is_dead(&ev.url) {
            return Err(exec_datafusion_err!("boom-net {} is gone", ev.url));
        }
        match d {
            Decision::Go => Ok(()),
            Decision::Delay(d) => {
                tokio::time::sleep(d).await;
                Ok(())
            }
            Decision::Fail(m) => Err(exec_datafusion_err!("{m}")),
            Decision::Panic(m) => panic!("{m}"),
        }
    }
    pub fn add_worker(&self, url: Url, worker: Worker) {
        self.0.workers.lock().unwrap().insert(url, worker);
    }
    pub fn worker(&self, url: &Url) -> Option<Worker> {
        self.0.workers.lock().unwrap().get(url).cloned()
    }
    /// The raw transport to a worker, without events.
    pub fn raw_channel(&self, url: &Url) -> Result<Box<dyn WorkerChannel>> {
        let Some(worker) = self.worker(url) else {
            return Err(exec_datafusion_err!("no worker at {url}"));
        };
        Ok(match self.0.transport {
            Transport::Direct => Box::new(DirectChannel { worker }),
            Transport::Grpc => {
                let mut g = self.0.channels.lock().unwrap();
                let ch = g.entry(url.clone()).or_insert_with(|| grpc_channel(worker, Arc::downgrade(&self.0))).clone();
                grpc::create_worker_client(ch)
            }
        })
    }
}

/// The crate's own tonic server used as a tower service: no socket, no HTTP/2 framing. As with a
/// real server, a panic while a request is served fails that request.
pub fn grpc_channel(worker: Worker, net: Weak<NetInner>) -> grpc::BoxCloneSyncChannel {
    let svc = worker.into_worker_server();
    let svc = ServiceExt::<http::Request<tonic::body::Body>>::map_err(svc, |e: std::convert::Infallible| match e {});
    let svc = tower::service_fn(move |req: http::Request<tonic::body::Body>| {
        let mut svc = svc.clone();
        let net = net.clone();
        async move {
            let path = req.uri().path().to_string();
            let frames = net.upgrade().and_then(|n| n.frames.lock().unwrap().clone());
            let r = AssertUnwindSafe(async { tower::Service::call(&mut svc, req).await }).catch_unwind().await;
            Ok::<_, tonic::transport::Error>(match r {
                Ok(Ok(r)) => r.map(|inner| tonic::body::Body::new(Faulty { inner, frames, path, n: 0, dead: false })),
                Ok(Err(e)) => return Err(e),
                Err(_) => http::Response::builder()
                    .status(500)
                    .body(tonic::body::Body::new(Faulty { inner: tonic::body::Body::empty(), frames: None, path, n: 0, dead: true }))
                    .unwrap(),
            })
        }
    });
    grpc::BoxCloneSyncChannel::new(svc)
}

struct Faulty {
    inner: tonic::body::Body,
    frames: Option<FramePolicy>,
    path: String,
    n: usize,
    dead: bool,
}

impl http_body::Body for Faulty {
    type Data = bytes::Bytes;
    type Error = tonic::Status;
    fn poll_frame(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
    ) -> Poll<Option<std::result::Result<http_body::Frame<Self::Data>, Self::Error>>> {
        let lost = || Poll::Ready(Some(Err(tonic::Status::unavailable("connection lost"))));
        if self.dead {
            return lost();
        }
        let me = &mut *self;
        let r = match std::panic::catch_unwind(AssertUnwindSafe(|| Pin::new(&mut me.inner).poll_frame(cx))) {
            Ok(r) => std::task::ready!(r),
            Err(_) => {
                me.dead = true;
                return lost();
            }
        };
        if let Some(f) = &me.frames {
            match f(&me.path, me.n) {
                Frame::Go => {}
                Frame::Err => {
                    me.dead = true;
                    return lost();
                }
                Frame::Hang => return Poll::Pending,
            }
        }
        me.n += 1;
        Poll::Ready(r)
    }
}

struct DirectChannel {
    worker: Worker,
}

#[async_trait]
impl WorkerChannel for DirectChannel {
    async fn coordinator_channel(
        &mut self,
        headers: HeaderMap,
        mut req: SetPlanRequest,
        c2w: BoxStream<'static, CoordinatorToWorkerMsg>,
        _metrics: ExecutionPlanMetricsSet,
        task_ctx: &Arc<TaskContext>,
    ) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> {
        let empty = MaybeEncoded::Encoded(vec![]);
        let plan = std::mem::replace(&mut req.plan, empty);
        req.plan = MaybeEncoded::Encoded(plan.encode(task_ctx)?);
        self.worker.coordinator_channel(headers, req, c2w.map(Ok).boxed()).await
    }
    async fn execute_task(
        &mut self,
        _headers: HeaderMap,
        request: ExecuteTaskRequest,
        _metrics: ExecutionPlanMetricsSet,
        _task_ctx: &Arc<TaskContext>,
    ) -> Result<Vec<BoxStream<'static, Result<RecordBatch>>>> {
        let (streams, _) = self.worker.execute_task(request).await?;
        Ok(streams.into_iter().map(|s| s.boxed()).collect())
    }
    async fn get_worker_info(&mut self, _r: GetWorkerInfoRequest) -> Result<GetWorkerInfoResponse> {
        Ok(GetWorkerInfoResponse { version: self.worker.version().to_string() })
    }
}

struct SimChannel {
    inner: Box<dyn WorkerChannel>,
    net: Net,
    url: Url,
}

impl SimChannel {
    fn ev(&self, kind: Kind, stage: usize, task: usize, part: usize, seq: usize) -> Ev {
        Ev { kind, url: self.url.clone(), stage, task, part, seq, end: false, rows: 0, err: false }
    }
}

/// The two directions of one coordinator channel break together.
type Broken = tokio::sync::watch::Sender<bool>;

fn instrument<T: Send + 'static>(
    net: Net,
    ev: Ev,
    st: BoxStream<'static, Result<T>>,
    rows: fn(&T) -> usize,
    broken: Option<Arc<Broken>>,
) -> BoxStream<'static, Result<T>> {
    let rx = broken.as_ref().map(|b| b.subscribe());
    futures::stream::unfold((st, 0usize, false, rx), move |(mut st, seq, done, mut rx)| {
        let net = net.clone();
        let mut ev = ev.clone();
        let broken = broken.clone();
        async move {
            if done {
                return None;
            }
            let mut cut = false;
            let it = tokio::select! {
                biased;
                e = net.until_dead(&ev.url) => { cut = true; Some(Err(e)) }
                _ = async {
                    match &mut rx {
                        Some(rx) => drop(rx.wait_for(|b| *b).await),
                        None => futures::future::pending().await,
                    }
                } => { cut = true; Some(Err(exec_datafusion_err!("boom-net channel broken"))) }
                it = st.next() => it,
            };
            ev.seq = seq;
            ev.end = it.is_none();
            ev.err = matches!(it, Some(Err(_)));
            ev.rows = it.as_ref().and_then(|x| x.as_ref().ok()).map(rows).unwrap_or(0);
            match net.event(ev).await {
                Err(e) => {
                    if let Some(b) = &broken {
                        b.send_replace(true);
                    }
                    Some((Err(e), (st, seq + 1, true, rx)))
                }
                Ok(()) => it.map(|x| (x, (st, seq + 1, cut, rx))),
            }
        }
    })
    .boxed()
}

#[async_trait]
impl WorkerChannel for SimChannel {
    async fn coordinator_channel(
        &mut self,
        headers: HeaderMap,
        req: SetPlanRequest,
        c2w: BoxStream<'static, CoordinatorToWorkerMsg>,
        metrics: ExecutionPlanMetricsSet,
        task_ctx: &Arc<TaskContext>,
    ) -> Result<BoxStream<'static, Result<WorkerToCoordinatorMsg>>> {
        let key = req.task_key;
        let (s, t) = (key.stage_id, key.task_number);
        if let Some(v) = &mut *self.net.0.headers.lock().unwrap() {
            v.push((Kind::SetPlan, headers.clone()));
        }
        if let (Some(f), MaybeEncoded::Decoded(p)) = (&*self.net.0.plans.lock().unwrap(), &req.plan) {
            f(req.task_key, p);
        }
        self.net.event(self.ev(Kind::SetPlan, s, t, 0, 0)).await?;
        let ev = self.ev(Kind::C2W, s, t, 0, 0);
        let broken = Arc::new(Broken::new(false));
        let c2w = instrument(self.net.clone(), ev, c2w.map(Ok).boxed(), |_| 0, Some(broken.clone()))
            // A failed message ends the coordinator -> worker direction.
            .take_while(|x| futures::future::ready(x.is_ok()))
            .filter_map(|x| futures::future::ready(x.ok()))
            .boxed();
        let st = tokio::select! {
            biased;
            e = self.net.until_dead(&self.url) => Err(e),
            r = self.inner.coordinator_channel(headers, req, c2w, metrics, task_ctx) => r,
        }?;
        self.net.event(self.ev(Kind::SetPlanReply, s, t, 0, 0)).await?;
        let st = match self.net.0.w2c.lock().unwrap().clone() {
            None => st,
            Some(f) => st
                .flat_map(move |m| {
                    futures::stream::iter(match m {
                        Ok(m) => f(key, m).into_iter().map(Ok).collect(),
                        e => vec![e],
                    })
                })
                .boxed(),
        };
        Ok(instrument(self.net.clone(), self.ev(Kind::W2C, s, t, 0, 0), st, |_| 0, Some(broken)))
    }
    async fn execute_task(
        &mut self,
        headers: HeaderMap,
        req: ExecuteTaskRequest,
        metrics: ExecutionPlanMetricsSet,
        task_ctx: &Arc<TaskContext>,
    ) -> Result<Vec<BoxStream<'static, Result<RecordBatch>>>> {
        let (s, t, p0) = (req.task_key.stage_id, req.task_key.task_number, req.target_partition_start);
        if let Some(v) = &mut *self.net.0.headers.lock().unwrap() {
            v.push((Kind::Exec, headers.clone()));
        }
        self.net.event(self.ev(Kind::Exec, s, t, p0, req.target_partition_end)).await?;
        let v = tokio::select! {
            biased;
            e = self.net.until_dead(&self.url) => Err(e),
            r = self.inner.execute_task(headers, req, metrics, task_ctx) => r,
        }?;
        self.net.event(self.ev(Kind::ExecReply, s, t, p0, 0)).await?;
        Ok(v.into_iter()
            .enumerate()
            .map(|(i, st)| instrument(self.net.clone(), self.ev(Kind::Batch, s, t, p0 + i, 0), st, RecordBatch::num_rows, None))
            .collect())
    }
    async fn get_worker_info(&mut self, r: GetWorkerInfoRequest) -> Result<GetWorkerInfoResponse> {
        self.inner.get_worker_info(r).await
    }
}

#[async_trait]
impl ChannelResolver for Net {
    async fn get_worker_client_for_url(&self, url: &Url) -> Result<Box<dyn WorkerChannel>, DataFusionError> {
        self.event(Ev { kind: Kind::Resolve, url: url.clone(), stage: 0, task: 0, part: 0, seq: 0, end: false, rows: 0, err: false })
            .await?;
        Ok(Box::new(SimChannel { inner: self.raw_channel(url)?, net: self.clone(), url: url.clone() }))
    }
}

#[derive(Clone)]
pub struct Urls(pub Vec<Url>);
impl WorkerResolver for Urls {
    fn get_urls(&self) -> Result<Vec<Url>, DataFusionError> {
        Ok(self.0.clone())
    }
}

pub type StateHook = Arc<dyn Fn(SessionStateBuilder, &HeaderMap) -> Result<SessionStateBuilder> + Send + Sync>;

/// In the configuration of every worker session: the worker that really runs it.
pub struct Me(pub Url);

struct WorkerSessions {
    me: Url,
    net: Net,
    hook: Option<StateHook>,
}

#[async_trait]
impl WorkerSessionBuilder for WorkerSessions {
    async fn build_session_state(&self, ctx: WorkerQueryContext) -> Result<SessionState, DataFusionError> {
        if let Some(ms) = ctx.headers.get("x-mc-delay").and_then(|h| h.to_str().ok()?.parse().ok()) {
            tokio::time::sleep(Duration::from_millis(ms)).await;
        }
        let mut b = ctx
            .builder
            .with_distributed_user_codec(VCodec)
            .with_distributed_channel_resolver(self.net.clone());
        b.config().get_or_insert_default().set_extension(Arc::new(Me(self.me.clone())));
        if let Some(h) = &self.hook {
            b = h(b, &ctx.headers)?;
        }
        Ok(b.build())
    }
}

/// The first workers differ by only one part of their URLs.
pub fn url(i: usize) -> Url {
    const ALIKE: [&str; 4] = ["http://w:1/", "http://w:2/", "http://w:2/b", "http://v:1/"];
    match ALIKE.get(i) {
        Some(u) => Url::parse(u).unwrap(),
        None => Url::parse(&format!("http://w{i}:1")).unwrap(),
    }
}

pub struct Cluster {
    pub net: Net,
    pub urls: Vec<Url>,
    pub worker_env: Vec<Arc<datafusion::execution::runtime_env::RuntimeEnv>>,
}

impl Cluster {
    /// The worker that a client may live in (with another one whose URL differs in the path only).
    pub fn local_url(&self) -> Url {
        self.urls.get(1).unwrap_or(&self.urls[0]).clone()
    }
    pub fn local_worker(&self) -> LocalWorkerContext {
        self.net.worker(&self.local_url()).unwrap().to_local_worker_context(self.local_url())
    }
    pub fn new(n: usize, transport: Transport) -> Self {
        Self::with(n, transport, None, || Arc::new(Default::default()))
    }

    pub fn with(
        n: usize,
        transport: Transport,
        hook: Option<StateHook>,
        env: impl Fn() -> Arc<datafusion::execution::runtime_env::RuntimeEnv>,
    ) -> Self {
        let net = Net::new(transport);
        let urls: Vec<Url> = (0..n).map(url).collect();
        let mut worker_env = vec![];
        for u in &urls {
            let e = env();
            worker_env.push(e.clone());
            net.add_worker(
                u.clone(),
                Worker::from_session_builder(WorkerSessions { me: u.clone(), net: net.clone(), hook: hook.clone() })
                    .with_runtime_env(e)
                    .with_version(format!("v-{u}")),
            );
        }
        Self { net, urls, worker_env }
    }

    /// A client session on this cluster.
    pub fn session(&self, cfg: SessionConfig, f: impl FnOnce(SessionStateBuilder) -> SessionStateBuilder) -> SessionContext {
        let b = SessionStateBuilder::new().with_default_features().with_config(cfg);
        SessionContext::new_with_state(self.finish(b, f).build())
    }

    fn finish(&self, b: SessionStateBuilder, f: impl FnOnce(SessionStateBuilder) -> SessionStateBuilder) -> SessionStateBuilder {
        let b = b
            .with_distributed_planner()
            .with_distributed_worker_resolver(Urls(self.urls.clone()))
            .with_distributed_channel_resolver(self.net.clone())
            .with_distributed_user_codec(VCodec);
        // Deterministic routing: task i on worker i (users may override it in `f`).
        f(b)
    }

    /// A client session whose physical planner returns `plan` for any query; the distributed
    /// planner of the crate then processes it.
    pub fn session_for_plan(
        &self,
        plan: Arc<dyn ExecutionPlan>,
        cfg: SessionConfig,
        f: impl FnOnce(SessionStateBuilder) -> SessionStateBuilder,
    ) -> SessionContext {
        let b = SessionStateBuilder::new()
            .with_default_features()
            .with_config(cfg)
            .with_query_planner(Arc::new(FixedPlan(plan)));
        SessionContext::new_with_state(self.finish(b, f).build())
    }

    pub async fn tasks_running(&self) -> usize {
        let ws: Vec<Worker> = self.net.0.workers.lock().unwrap().values().cloned().collect();
        let mut n = 0;
        for w in ws {
            n += w.tasks_running().await;
        }
        n
    }
}

impl Drop for Cluster {
    fn drop(&mut self) {
        // Workers hold the network and the network the workers.
        let ws = std::mem::take(&mut *self.net.0.workers.lock().unwrap());
        self.net.0.channels.lock().unwrap().clear();
        GRAVES.with(|g| g.borrow_mut().extend(ws.into_values()));
    }
}

thread_local! {
    static GRAVES: std::cell::RefCell<Vec<Worker>> = const { std::cell::RefCell::new(vec![]) };
}

/// Lets the caches of dropped clusters apply their pending operations: a cache dropped with
/// pending ones leaks its values, and with them plans, sessions and runtimes.
pub async fn bury() {
    for w in GRAVES.with(|g| std::mem::take(&mut *g.borrow_mut())) {
        w.tasks_running().await;
    }
}

/// Task i of every stage runs on worker (i % n).
pub fn fixed_routing(urls: Vec<Url>) -> impl Fn(RouteTasksEvent<'_>) -> Option<Result<RouteTasksEventResponse>> + Send + Sync + 'static {
    move |ev: RouteTasksEvent<'_>| {
        Some(Ok(RouteTasksEventResponse::new(
            (0..ev.task_count).map(|i| urls[i % urls.len()].clone()).collect(),
        )))
    }
}

#[derive(Debug)]
struct FixedPlan(Arc<dyn ExecutionPlan>);

#[async_trait]
impl QueryPlanner for FixedPlan {
    async fn create_physical_plan(
        &self,
        _: &LogicalPlan,
        _: &dyn datafusion::catalog::Session,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        Ok(self.0.clone())
    }
}

/// Runs the crate's planner over the fixed plan of `ctx`.
pub async fn plan_fixed(ctx: &SessionContext) -> Result<Arc<dyn ExecutionPlan>> {
    let lp = datafusion::logical_expr::LogicalPlanBuilder::empty(false).build()?;
    ctx.state().create_physical_plan(&lp).await
}
