//! C27: the console shows what the cluster reports, whatever happens to the workers, and stays
//! usable.  The real console (`App::tick`, `handle_key_event`, `ui::render`) talks over loopback
//! TCP to scripted workers; the clock of the process is under control (see [clock_gettime]), and
//! what is judged is the rendered screen, against a model of the cluster.
use crate::app::App;
use crate::checks::Check;
use crate::explore::*;
use crossterm::event::{KeyCode, KeyEvent, KeyEventKind, KeyModifiers};
use datafusion_distributed::grpc::*;
use ratatui::Terminal;
use ratatui::backend::TestBackend;
use ratatui::style::Color;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tonic::{Request, Response, Status};
use url::Url;

pub fn check() -> Check {
    Check {
        id: "C27",
        level: "model_checking",
        rule: "case = a family of events (what workers report, which of them fail or hang or come back, what discovery answers, keys, time); all sequences of those events up to the depth in the id, each followed by a tick of the real console over loopback gRPC, the screen compared with a model after every step; non-trivial = some worker reported a task",
        assumptions: &[
            "bounds: up to 3 workers, sequences up to the stated depth, snapshots of up to 3 tasks (60 in the history cases)",
            "the clock of the process is simulated: a request that is not answered makes simulated time pass",
        ],
        cases,
    }
}

// ------------------------------------------------------------------------------------- the clock

thread_local! {
    /// Simulated monotonic clock of this thread in ns, when there is one.
    static CLOCK: Cell<Option<u64>> = const { Cell::new(None) };
}

unsafe extern "C" {
    fn syscall(num: i64, ...) -> i64;
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

/// Takes the place of the C library's function, on which `std::time::Instant` is built.
#[unsafe(no_mangle)]
pub extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    const MONOTONIC: i32 = 1;
    if id == MONOTONIC
        && let Ok(Some(t)) = CLOCK.try_with(|c| c.get())
    {
        unsafe {
            (*ts).sec = (t / 1_000_000_000) as i64;
            (*ts).nsec = (t % 1_000_000_000) as i64;
        }
        return 0;
    }
    const SYS_CLOCK_GETTIME: i64 = 228;
    unsafe { syscall(SYS_CLOCK_GETTIME, id as i64, ts) as i32 }
}

const START: u64 = 1_000_000_000_000_000;

fn now_ms() -> u64 {
    CLOCK.with(|c| (c.get().unwrap() - START) / 1_000_000)
}

fn advance(ms: u64) {
    CLOCK.with(|c| c.set(Some(c.get().unwrap() + ms * 1_000_000)));
}

struct Frozen;
impl Frozen {
    fn new() -> Frozen {
        CLOCK.with(|c| c.set(Some(START)));
        Frozen
    }
}
impl Drop for Frozen {
    fn drop(&mut self) {
        CLOCK.with(|c| c.set(None));
    }
}

// ------------------------------------------------------------------------------- scripted workers

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Up,
    /// Answers pings, but fails to report progress.
    PollErr,
    /// Answers pings, but never reports progress.
    PollHang,
    PingErr,
    /// Accepts connections, never answers anything.
    Hang,
    /// Drops every connection.
    Down,
}

/// (query, stage, task number), running, rows; without a key when it is None
#[derive(Clone, PartialEq, Debug)]
struct Task {
    key: Option<(u8, u64, u64)>,
    running: bool,
    rows: u64,
}

fn task(q: u8, stage: u64, t: u64, rows: u64) -> Task {
    Task { key: Some((q, stage, t)), running: true, rows }
}

#[derive(Clone, PartialEq, Debug, Default)]
struct Snapshot {
    tasks: Vec<Task>,
    cpu: f64,
    rss: u64,
}

struct Script {
    mode: Mode,
    snap: Snapshot,
    /// What this worker says the cluster is; None: it fails to.
    cluster: Option<Vec<String>>,
    /// Requests served, by kind.
    pings: usize,
    polls: usize,
    discoveries: usize,
    /// When the last of them came.
    pinged: u64,
    polled: u64,
}

type W = Arc<Mutex<Script>>;

#[derive(Clone)]
struct Svc {
    w: W,
    /// Requests that are not being answered.
    hung: Arc<Mutex<usize>>,
}

struct HungOne(Arc<Mutex<usize>>);
impl Drop for HungOne {
    fn drop(&mut self) {
        *self.0.lock().unwrap() -= 1;
    }
}

impl Svc {
    async fn hang<T>(&self) -> T {
        *self.hung.lock().unwrap() += 1;
        let _h = HungOne(Arc::clone(&self.hung));
        futures::future::pending().await
    }
}

fn query_id(q: u8) -> Vec<u8> {
    vec![q * 0x11; 16]
}

#[tonic::async_trait]
impl ObservabilityService for Svc {
    async fn ping(&self, _: Request<PingRequest>) -> Result<Response<PingResponse>, Status> {
        let mode = {
            let mut w = self.w.lock().unwrap();
            w.pings += 1;
            w.pinged = now_ms();
            w.mode
        };
        match mode {
            Mode::PingErr => Err(Status::internal("no ping today")),
            Mode::Hang => self.hang().await,
            _ => Ok(Response::new(PingResponse { value: 1 })),
        }
    }
    async fn get_task_progress(
        &self,
        _: Request<GetTaskProgressRequest>,
    ) -> Result<Response<GetTaskProgressResponse>, Status> {
        let (mode, snap) = {
            let mut w = self.w.lock().unwrap();
            w.polls += 1;
            w.polled = now_ms();
            (w.mode, w.snap.clone())
        };
        match mode {
            Mode::PollErr => Err(Status::internal("no progress today")),
            Mode::PollHang | Mode::Hang => self.hang().await,
            _ => Ok(Response::new(GetTaskProgressResponse {
                tasks: snap
                    .tasks
                    .iter()
                    .map(|t| {
                        let mut p = TaskProgress {
                            status: if t.running { TaskStatus::Running as i32 } else { 0 },
                            output_rows: t.rows,
                            ..Default::default()
                        };
                        if let Some((q, s, n)) = t.key {
                            let k = p.task_key.get_or_insert_with(Default::default);
                            k.query_id = query_id(q);
                            k.stage_id = s;
                            k.task_number = n;
                        }
                        p
                    })
                    .collect(),
                worker_metrics: Some(WorkerMetrics { rss_bytes: snap.rss, cpu_usage_percent: snap.cpu }),
            })),
        }
    }
    async fn get_cluster_workers(
        &self,
        _: Request<GetClusterWorkersRequest>,
    ) -> Result<Response<GetClusterWorkersResponse>, Status> {
        let (mode, cluster) = {
            let mut w = self.w.lock().unwrap();
            w.discoveries += 1;
            (w.mode, w.cluster.clone())
        };
        match (mode, cluster) {
            (Mode::Hang, _) => self.hang().await,
            (_, Some(worker_urls)) => Ok(Response::new(GetClusterWorkersResponse { worker_urls })),
            (_, None) => Err(Status::internal("who knows")),
        }
    }
}

/// A TCP server in front of a scripted worker, whose connections can be cut.
struct Server {
    url: Url,
    w: W,
    /// Connections accepted so far, to be cut.
    conns: Arc<Mutex<Vec<tokio::task::AbortHandle>>>,
    accept: tokio::task::AbortHandle,
}

impl Server {
    async fn new(hung: &Arc<Mutex<usize>>) -> Server {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let url = Url::parse(&format!("http://{}", l.local_addr().unwrap())).unwrap();
        let w: W = Arc::new(Mutex::new(Script {
            mode: Mode::Up,
            snap: Snapshot::default(),
            cluster: None,
            pings: 0,
            polls: 0,
            discoveries: 0,
            pinged: 0,
            polled: 0,
        }));
        let conns: Arc<Mutex<Vec<tokio::task::AbortHandle>>> = Default::default();
        let (w2, conns2, hung2) = (Arc::clone(&w), Arc::clone(&conns), Arc::clone(hung));
        let accept = tokio::spawn(async move {
            loop {
                let Ok((io, _)) = l.accept().await else { continue };
                // No connection is left in TIME_WAIT: there are very many of them.
                let _ = socket_linger_zero(&io);
                if w2.lock().unwrap().mode == Mode::Down {
                    continue;
                }
                let svc = ObservabilityServiceServer::new(Svc { w: Arc::clone(&w2), hung: Arc::clone(&hung2) });
                let h = tokio::spawn(async move {
                    let svc = hyper_util::service::TowerToHyperService::new(svc);
                    let _ = hyper_util::server::conn::auto::Builder::new(hyper_util::rt::TokioExecutor::new())
                        .http2_only()
                        .serve_connection(hyper_util::rt::TokioIo::new(io), svc)
                        .await;
                });
                conns2.lock().unwrap().push(h.abort_handle());
            }
        })
        .abort_handle();
        Server { url, w, conns, accept }
    }
    fn cut(&self) {
        for c in self.conns.lock().unwrap().drain(..) {
            c.abort();
        }
    }
}

fn socket_linger_zero(s: &tokio::net::TcpStream) -> std::io::Result<()> {
    #[repr(C)]
    struct Linger {
        onoff: i32,
        linger: i32,
    }
    unsafe extern "C" {
        fn setsockopt(fd: i32, level: i32, name: i32, val: *const Linger, len: u32) -> i32;
    }
    use std::os::fd::AsRawFd;
    const SOL_SOCKET: i32 = 1;
    const SO_LINGER: i32 = 13;
    let l = Linger { onoff: 1, linger: 0 };
    unsafe { setsockopt(s.as_raw_fd(), SOL_SOCKET, SO_LINGER, &l, 8) };
    Ok(())
}

// ----------------------------------------------------------------------------------------- model

#[derive(Clone, PartialEq, Debug)]
enum Status_ {
    Connecting,
    Idle,
    Active,
    Disconnected,
}

#[derive(Clone, Debug)]
struct MWorker {
    url: String,
    status: Status_,
    connected: Option<u64>,
    attempted: Option<u64>,
    tasks: Vec<Task>,
    seen: BTreeMap<(u8, u64, u64), u64>,
    /// Newest first.
    completed: Vec<((u8, u64, u64), u64)>,
    cpu: f64,
    rss: u64,
    rows: u64,
    rows_delta: u64,
    polls: u64,
}

impl MWorker {
    fn new(url: &str) -> Self {
        MWorker {
            url: url.into(),
            status: Status_::Connecting,
            connected: None,
            attempted: None,
            tasks: vec![],
            seen: Default::default(),
            completed: vec![],
            cpu: 0.0,
            rss: 0,
            rows: 0,
            rows_delta: 0,
            polls: 0,
        }
    }
    fn queries(&self) -> BTreeSet<u8> {
        self.tasks.iter().filter_map(|t| t.key.map(|k| k.0)).collect()
    }
    fn lose(&mut self) {
        self.status = Status_::Disconnected;
        self.connected = None;
    }
    fn text(&self) -> &'static str {
        match self.status {
            Status_::Connecting => "CONNECTING",
            Status_::Idle => "IDLE",
            Status_::Active => "ACTIVE",
            Status_::Disconnected => "DISCONNECTED",
        }
    }
    /// What a successful poll means.
    fn report(&mut self, s: &Snapshot, now: u64) {
        self.polls += 1;
        self.cpu = s.cpu;
        self.rss = s.rss;
        let rows = s.tasks.iter().map(|t| t.rows).sum::<u64>();
        self.rows_delta = rows.saturating_sub(self.rows);
        self.rows = rows;
        let keys: BTreeSet<_> = s.tasks.iter().filter_map(|t| t.key).collect();
        for t in &self.tasks {
            if let Some(k) = t.key
                && t.running
                && !keys.contains(&k)
            {
                let since = self.seen.get(&k).map(|s| now - s).unwrap_or(0);
                self.completed.insert(0, (k, since));
            }
        }
        self.completed.truncate(50);
        self.seen.retain(|k, _| keys.contains(k));
        for k in keys {
            self.seen.entry(k).or_insert(now);
        }
        self.tasks = s.tasks.clone();
        let running = self.tasks.iter().any(|t| t.running && t.key.is_some());
        if running {
            // Completed tasks are the ones of the queries in flight, if some of them are.
            let q = self.queries();
            if !self.completed.iter().any(|c| q.contains(&c.0.0)) {
                self.completed.clear();
            }
            self.status = Status_::Active;
        } else {
            self.status = Status_::Idle;
        }
    }
}

// ------------------------------------------------------------------------------------ the harness

const WIDE: (u16, u16) = (126, 46);

struct Sim {
    app: App,
    term: Terminal<TestBackend>,
    seed: Server,
    servers: Vec<Server>,
    hung: Arc<Mutex<usize>>,
    // The model.
    workers: Vec<MWorker>,
    paused: bool,
    discovered: Option<u64>,
    /// Names under which discovery announces workers: index of the server, or a URL.
    rate: (u64, Option<u64>),
    /// Throughput last shown, what was measured since, and the highest ever measured.
    shown_rate: (f64, Vec<f64>, f64),
    steps: u64,
    reported: bool,
    states: Vec<u64>,
}

/// Lets everything that is ready happen: the loopback delivers at once, so that nothing is ready
/// any more after a few rounds of the I/O driver.
async fn settle() {
    for _ in 0..130 {
        tokio::task::yield_now().await;
    }
}

impl Sim {
    async fn new(n: usize) -> Sim {
        let hung: Arc<Mutex<usize>> = Default::default();
        let seed = Server::new(&hung).await;
        let mut servers = vec![];
        for _ in 0..n {
            servers.push(Server::new(&hung).await);
        }
        // The same order by URL in every run.
        servers.sort_by(|a, b| a.url.cmp(&b.url));
        let app = App::new(seed.url.clone());
        let term = Terminal::new(TestBackend::new(WIDE.0, WIDE.1)).unwrap();
        Sim {
            app,
            term,
            seed,
            servers,
            hung,
            workers: vec![],
            paused: false,
            discovered: None,
            rate: (0, None),
            shown_rate: (0.0, vec![], 0.0),
            steps: 0,
            reported: false,
            states: vec![],
        }
    }
    fn url(&self, i: usize) -> String {
        match self.servers.get(i) {
            Some(s) => s.url.to_string(),
            // Nobody listens there.
            None => "http://127.0.0.1:1/".into(),
        }
    }
    fn announce(&self, list: Option<&[usize]>) {
        self.seed.w.lock().unwrap().cluster = list.map(|l| l.iter().map(|i| self.url(*i)).collect());
    }
    fn snap(&self, i: usize, s: &Snapshot) {
        self.servers[i].w.lock().unwrap().snap = s.clone();
    }
    fn mode(&self, i: usize, m: Mode) {
        self.servers[i].w.lock().unwrap().mode = m;
        if matches!(m, Mode::Down) {
            self.servers[i].cut();
        }
    }
    fn served(&self) -> usize {
        std::iter::once(&self.seed)
            .chain(&self.servers)
            .map(|s| {
                let w = s.w.lock().unwrap();
                w.pings + w.polls + w.discoveries
            })
            .sum()
    }
    fn script(&self, url: &str) -> Option<W> {
        self.servers.iter().find(|s| s.url.as_str() == url).map(|s| Arc::clone(&s.w))
    }

    /// One tick of the console; simulated time passes only while some request is not answered and
    /// nothing else happens.
    async fn tick(&mut self) -> Result<(), Viol> {
        self.steps += 1;
        // Cut connections are seen before the tick.
        settle().await;
        let start = now_ms();
        let before = self.served();
        // A connection that is being made may keep the user waiting, but not a report that is late.
        let connecting = std::iter::once(&self.seed).chain(&self.servers).any(|s| s.w.lock().unwrap().mode == Mode::Hang);
        let limit = if connecting { 10_000 } else { 1_000 };
        {
            let mut tick = std::pin::pin!(self.app.tick());
            let mut idle = 0;
            loop {
                let mut done = false;
                std::future::poll_fn(|cx: &mut Context| {
                    done = Pin::new(&mut tick).poll(cx).is_ready();
                    Poll::Ready(())
                })
                .await;
                if done {
                    break;
                }
                tokio::task::yield_now().await;
                idle += 1;
                if idle >= 250 {
                    idle = 0;
                    if *self.hung.lock().unwrap() > 0 {
                        advance(10);
                        if now_ms() - start > limit {
                            return viol("frozen", format!("the console does nothing else for more than {limit} ms because a worker does not answer"));
                        }
                    } else {
                        std::thread::sleep(std::time::Duration::from_micros(200));
                    }
                }
            }
        }
        let served = self.served() - before;
        self.model_tick(start, served)
    }

    fn model_tick(&mut self, start: u64, served: usize) -> Result<(), Viol> {
        if self.paused {
            if served > 0 {
                return viol("paused", format!("{served} requests were sent while paused"));
            }
            return Ok(());
        }
        let now = start;
        if self.discovered.is_none_or(|d| now - d >= 5000) {
            self.discovered = Some(now);
            let (mode, cluster) = {
                let s = self.seed.w.lock().unwrap();
                (s.mode, s.cluster.clone())
            };
            if !matches!(mode, Mode::Hang | Mode::Down | Mode::PingErr)
                && let Some(list) = cluster
            {
                self.workers.retain(|w| list.contains(&w.url));
                for u in list {
                    if !self.workers.iter().any(|w| w.url == u) {
                        self.workers.push(MWorker::new(&u));
                    }
                }
            }
        }
        // Unanswered discoveries and connection attempts take time, which is accounted for below.
        let end = now_ms();
        let scripts: Vec<_> = self.workers.iter().map(|w| self.script(&w.url)).collect();
        for (w, s) in self.workers.iter_mut().zip(scripts) {
            // Other workers may have kept the console waiting before it came to this one.
            let (mode, snap, pinged, polled) = match &s {
                Some(s) => {
                    let s = s.lock().unwrap();
                    (s.mode, s.snap.clone(), s.pinged, s.polled)
                }
                None => (Mode::Down, Snapshot::default(), 0, 0),
            };
            let retry = match w.status {
                Status_::Connecting => true,
                Status_::Disconnected => w.attempted.is_none_or(|a| now - a >= 5000),
                _ => false,
            };
            if retry {
                w.attempted = Some(now);
                match mode {
                    Mode::Up | Mode::PollErr | Mode::PollHang => {
                        w.connected = Some(pinged);
                        w.status = Status_::Idle;
                    }
                    _ => w.lose(),
                }
                w.tasks.clear();
                w.seen.clear();
            }
            if w.connected.is_some() {
                match mode {
                    Mode::Up => {
                        w.report(&snap, polled);
                        self.reported |= !snap.tasks.is_empty();
                    }
                    Mode::PollErr | Mode::Down => {
                        w.lose();
                        w.tasks.clear();
                        w.seen.clear();
                        w.rows_delta = 0;
                    }
                    // No news.
                    Mode::PollHang | Mode::Hang => {}
                    // It can not be pinged, but is polled.
                    Mode::PingErr => w.report(&snap, polled),
                }
            }
        }
        let total: u64 = self.workers.iter().map(|w| w.rows).sum();
        if let Some(prev) = self.rate.1
            && end > prev
        {
            let inst = total.saturating_sub(self.rate.0) as f64 * 1000.0 / (end - prev) as f64;
            self.shown_rate.1.push(inst);
            self.shown_rate.2 = self.shown_rate.2.max(inst);
        }
        self.rate = (total, Some(end));
        Ok(())
    }

    fn key(&mut self, code: KeyCode, m: KeyModifiers) {
        crate::input::handle_key_event(&mut self.app, KeyEvent::new_with_kind(code, m, KeyEventKind::Press));
    }
    fn press(&mut self, c: char) {
        self.key(KeyCode::Char(c), KeyModifiers::NONE)
    }

    fn draw(&mut self) -> Screen {
        self.term.draw(|f| crate::ui::render(f, &mut self.app)).unwrap();
        Screen::of(self.term.backend().buffer())
    }

    /// Compares everything that is on the screen, in both views, with the model.
    fn judge(&mut self) -> Result<(), Viol> {
        self.press('1');
        self.key(KeyCode::Home, KeyModifiers::NONE);
        let s = self.draw();
        self.judge_header(&s, "Cluster Overview")?;
        self.judge_cluster(&s)?;
        let order = s.workers();
        if order.is_empty() {
            return Ok(());
        }
        self.key(KeyCode::Enter, KeyModifiers::NONE);
        for i in 0..self.workers.len() {
            let s = self.draw();
            self.judge_header(&s, "Worker Detail")?;
            if i == 0 && s.detail_url().as_deref() != order.first().map(|x| x.as_str()) {
                return viol("detail", format!("Enter on {:?} opens {:?}", order.first(), s.detail_url()));
            }
            self.judge_detail(&s)?;
            self.press('l');
        }
        let s = self.draw();
        if s.detail_url().as_deref() != Some(order[0].as_str()) {
            return viol("detail", "going through all the workers does not lead back to the first");
        }
        self.states.push(h64(&self.canon()));
        Ok(())
    }

    fn canon(&self) -> String {
        self.workers
            .iter()
            .map(|w| {
                let i = self.servers.iter().position(|s| s.url.as_str() == w.url).unwrap_or(9);
                format!("{i}{:?}{:?}{:?}{}", w.status, w.tasks, w.completed, w.polls)
            })
            .collect::<Vec<_>>()
            .join("|")
    }

    fn count(&self, s: Status_) -> usize {
        self.workers.iter().filter(|w| w.status == s).count()
    }

    fn judge_header(&self, s: &Screen, view: &str) -> Result<(), Viol> {
        let queries: BTreeSet<u8> = self.workers.iter().flat_map(|w| w.queries()).collect();
        let tasks: usize = self.workers.iter().map(|w| w.tasks.len()).sum();
        for want in [
            view.to_string(),
            format!("Workers: {} total", self.workers.len()),
            format!(" {} active", self.count(Status_::Active)),
            format!(" {} idle", self.count(Status_::Idle)),
            format!(" {} disconnected", self.count(Status_::Disconnected)),
            format!("Queries: {} ", queries.len()),
            format!("Tasks: {} ", tasks),
            if self.paused { " PAUSED ".into() } else { " LIVE ".into() },
        ] {
            if !s.header().iter().any(|l| l.contains(&want)) {
                return viol("header", format!("{want:?} is not in the header:\n{}\nexpected workers {:?}", s.header().join("\n"), self.workers));
            }
        }
        Ok(())
    }

    fn judge_cluster(&mut self, s: &Screen) -> Result<(), Viol> {
        let queries: BTreeSet<u8> = self.workers.iter().flat_map(|w| w.queries()).collect();
        let completed: Vec<u64> = self.workers.iter().flat_map(|w| w.completed.iter().map(|c| c.1)).collect();
        let now = now_ms();
        let longest = self.workers.iter().flat_map(|w| w.seen.values().map(|x| now - x)).max().unwrap_or(0);
        for want in [
            format!("Active: {}/{} workers", self.count(Status_::Active), self.workers.len()),
            format!("Queries in flight: {}", queries.len()),
            format!("Completed: {} tasks", completed.len()),
        ] {
            if !s.has(&want) {
                return viol("cluster", format!("{want:?} is not shown:\n{}", s.text()));
            }
        }
        let avg = s.after("Avg duration: ").unwrap_or_default();
        match completed.len() {
            0 => {
                if avg != "--" {
                    return viol("cluster", format!("average duration {avg} of no task"));
                }
            }
            n => same_duration(&avg, completed.iter().sum::<u64>() as f64 / n as f64, "average duration")?,
        }
        let l = s.after("Longest: ").unwrap_or_default();
        match longest {
            0 => {
                if l != "--" {
                    return viol("cluster", format!("longest task {l}, there is none"));
                }
            }
            d => same_duration(&l, d as f64, "longest task")?,
        }
        self.judge_rate(s)?;
        // The table of workers.
        let shown = s.workers();
        let mut want: Vec<String> = self.workers.iter().map(|w| w.url.clone()).collect();
        let mut got = shown.clone();
        want.sort();
        got.sort();
        if want != got {
            return viol("workers", format!("workers {want:?}, shown {got:?}:\n{}", s.text()));
        }
        for w in &self.workers {
            let row = s.row(&w.url).unwrap();
            let gone = w.status == Status_::Disconnected;
            let opt = |x: String, none: bool| match (gone, none) {
                (true, _) => "-".to_string(),
                (_, true) => "--".into(),
                _ => x,
            };
            let want = vec![
                w.text().to_string(),
                opt(w.tasks.len().to_string(), false),
                opt(w.queries().len().to_string(), false),
                opt(format!("{:.1}%", w.cpu), w.cpu == 0.0),
                opt(bytes(w.rss), w.rss == 0),
            ];
            if row != want {
                return viol("worker-row", format!("{} should be shown as {want:?}, is {row:?}", w.url));
            }
        }
        if !self.workers.is_empty() {
            let mut n: Vec<usize> = self.workers.iter().map(|w| w.tasks.len()).collect();
            n.sort();
            let avg = n.iter().sum::<usize>() as f64 / n.len() as f64;
            let want = format!("min={}  max={}  avg={avg:.1}  median={}", n[0], n[n.len() - 1], n[n.len() / 2]);
            if !s.has(&want) {
                return viol("spread", format!("{want:?} is not shown:\n{}", s.text()));
            }
        }
        Ok(())
    }

    /// The smoothed throughput moves towards what was measured, without overshooting.
    fn judge_rate(&mut self, s: &Screen) -> Result<(), Viol> {
        let t = s.after_line("Throughput: ").unwrap_or_default();
        let t = t.split("     ").next().unwrap().trim().to_string();
        let shown = match t.as_str() {
            "--" => 0.0,
            t => {
                let (n, unit) = match t.strip_suffix(" rows out/s") {
                    Some(n) if n.ends_with('K') => (n.trim_end_matches('K'), 1000.0),
                    Some(n) if n.ends_with('M') => (n.trim_end_matches('M'), 1e6),
                    Some(n) => (n, 1.0),
                    None => return viol("throughput", format!("throughput {t:?}")),
                };
                n.parse::<f64>().map_err(|_| Viol { key: "throughput".into(), msg: format!("throughput {t:?}") })? * unit
            }
        };
        let (prev, max) = (self.shown_rate.0, self.shown_rate.2);
        let measured = std::mem::take(&mut self.shown_rate.1);
        let tol = |x: f64| 1.0 + x * 0.06;
        let lo = measured.iter().fold(prev, |a, b| a.min(*b));
        let hi = measured.iter().fold(prev, |a, b| a.max(*b));
        if shown < lo - tol(lo) || shown > hi + tol(hi) {
            return viol("throughput", format!("throughput {shown} shown, was {prev}, measured {measured:?}"));
        }
        if max == 0.0 && t != "--" {
            return viol("throughput", format!("throughput {t} of nothing"));
        }
        // It does move.
        if let [inst] = measured[..]
            && (inst - prev).abs() > 20.0
            && (shown - prev).abs() < (inst - prev).abs() * 0.2 {
            return viol("throughput", format!("throughput {shown} stays at {prev}, measured {inst}"));
        }
        self.shown_rate.0 = shown;
        Ok(())
    }

    fn judge_detail(&self, s: &Screen) -> Result<(), Viol> {
        let Some(url) = s.detail_url() else {
            return viol("detail", format!("no worker in the detail view:\n{}", s.text()));
        };
        let Some(w) = self.workers.iter().find(|w| w.url == url) else {
            return viol("detail", format!("{url} is not a worker of the cluster"));
        };
        let now = now_ms();
        for want in [
            format!("Status: {} ", w.text()),
            format!("Tasks: {} ", w.tasks.len()),
            format!("Queries: {} ", w.queries().len()),
            format!("/{}]", self.workers.len()),
        ] {
            let l = s.summary().unwrap_or_default();
            if !l.contains(&want) {
                return viol("detail", format!("{want:?} is not in {l:?}; expected {w:?}"));
            }
        }
        // Active tasks, longest first.
        let rows = s.table(&format!(" Active Tasks ({}) ", w.tasks.len()), 5)?;
        let mut want: Vec<(Option<u64>, String, String)> = w
            .tasks
            .iter()
            .map(|t| match t.key {
                Some(k) => {
                    let d = w.seen.get(&k).map(|s| now - s).unwrap_or(0);
                    (Some(d), format!("{} S{} T{}", hex(k.0), k.1, k.2), count(t.rows))
                }
                None => (None, "? ? ?".into(), "-".into()),
            })
            .collect();
        want.sort_by_key(|t| std::cmp::Reverse(t.0.unwrap_or(0)));
        if rows.len() != want.len().min(rows.len().max(15)) {
            return viol("active", format!("{} active tasks, {} shown:\n{}", want.len(), rows.len(), s.text()));
        }
        let mut left = want.clone();
        let mut last = u64::MAX;
        for r in &rows {
            let name = r[..3].join(" ");
            let Some(p) = left.iter().position(|x| x.1 == name && x.2 == r[4]) else {
                return viol("active", format!("task {r:?} is not one of {want:?}"));
            };
            let (d, ..) = left.remove(p);
            match d {
                Some(d) => same_duration(&r[3], d as f64, "duration of a task")?,
                None if r[3] == "-" => {}
                None => return viol("active", format!("task without a key: {r:?}")),
            }
            let d = d.unwrap_or(0);
            if d > last {
                return viol("active", format!("tasks are not shown longest first: {rows:?}"));
            }
            last = d;
        }
        // Completed tasks, newest first.
        let rows = s.table(&format!(" Recently Completed ({}) ", w.completed.len()), 4)?;
        if rows.len() < w.completed.len().min(9) {
            return viol("completed", format!("{:?} completed, shown {rows:?}", w.completed));
        }
        for (r, (k, d)) in rows.iter().zip(&w.completed) {
            let want = format!("{} S{} T{}", hex(k.0), k.1, k.2);
            if r[..3].join(" ") != want || !r[3].starts_with('~') {
                return viol("completed", format!("{:?} completed, shown {rows:?}", w.completed));
            }
            same_duration(&r[3][1..], *d as f64, "duration of a completed task")?;
        }
        // Connection and metrics.
        let conn = &s.lines[s.lines.len() - 2];
        match w.connected {
            None if w.status == Status_::Disconnected => {
                if !conn.contains(" Disconnected: ") || conn.trim().len() < 20 {
                    return viol("connection", format!("{conn:?} of a lost worker"));
                }
            }
            c => {
                let shown = s.after(" Connected: ").unwrap_or_default();
                match c {
                    Some(c) => same_duration(&shown, (now - c) as f64, "connection")?,
                    None if shown == "-" => {}
                    None => return viol("connection", format!("{conn:?} of a worker never connected to")),
                }
                if s.after("Polls: ").as_deref() != Some(&w.polls.to_string()) {
                    return viol("connection", format!("{conn:?} after {} polls", w.polls));
                }
            }
        }
        let labels = s.metrics();
        let want = vec![format!("{:.1}%", w.cpu), bytes(w.rss), count(w.rows_delta)];
        if labels != want {
            return viol("metrics", format!("metrics should be {want:?}, are {labels:?}\n{}", s.text()));
        }
        Ok(())
    }

    async fn end(self) {
        let Sim { app, seed, servers, .. } = self;
        // The servers' ends first.
        for s in servers.iter().chain([&seed]) {
            s.accept.abort();
            s.cut();
        }
        settle().await;
        drop(app);
        settle().await;
    }
}

fn hex(q: u8) -> String {
    format!("{:02x}", q * 0x11).repeat(8)
}

fn bytes(b: u64) -> String {
    match b {
        0 => "--".into(),
        b if b >= 1 << 30 => format!("{:.1} GB", b as f64 / (1u64 << 30) as f64),
        b if b >= 1 << 20 => format!("{:.1} MB", b as f64 / (1u64 << 20) as f64),
        b if b >= 1 << 10 => format!("{:.1} KB", b as f64 / 1024.0),
        b => format!("{b} B"),
    }
}

fn count(n: u64) -> String {
    match n {
        0 => "--".into(),
        n if n >= 1_000_000 => format!("{:.1}M", n as f64 / 1e6),
        n if n >= 1000 => format!("{:.1}K", n as f64 / 1e3),
        n => n.to_string(),
    }
}

/// A displayed duration is the real one, up to the precision it is displayed with.
fn same_duration(shown: &str, ms: f64, what: &str) -> Result<(), Viol> {
    let num = |s: &str| s.parse::<f64>().ok();
    let parsed = if let Some(x) = shown.strip_suffix("ms") {
        num(x).map(|x| (x, 1.0))
    } else if let Some((h, m)) = shown.split_once("h ") {
        num(h).zip(num(m.trim_end_matches('m'))).map(|(h, m)| (h * 3.6e6 + m * 6e4, 6e4))
    } else if let Some((m, s)) = shown.split_once("m ") {
        num(m).zip(num(s.trim_end_matches('s'))).map(|(m, s)| (m * 6e4 + s * 1e3, 1e3))
    } else {
        shown.strip_suffix('s').and_then(num).map(|x| (x * 1000.0, 100.0))
    };
    match parsed {
        Some((p, unit)) if ms >= p - 0.6 && ms < p + unit + 0.6 => Ok(()),
        _ => viol("duration", format!("{what}: {ms} ms is shown as {shown:?}")),
    }
}

// ---------------------------------------------------------------------------------------- screen

struct Screen {
    lines: Vec<String>,
    colors: Vec<Vec<Color>>,
}

impl Screen {
    fn of(b: &ratatui::buffer::Buffer) -> Screen {
        let w = b.area.width;
        Screen {
            lines: b.content.chunks(w as usize).map(|l| l.iter().fold(String::new(), |s, c| s + c.symbol())).collect(),
            colors: b.content.chunks(w as usize).map(|l| l.iter().map(|c| c.fg).collect()).collect(),
        }
    }
    fn text(&self) -> String {
        self.lines.iter().map(|l| l.trim_end()).collect::<Vec<_>>().join("\n")
    }
    fn has(&self, s: &str) -> bool {
        self.lines.iter().any(|l| l.contains(s))
    }
    /// The word after a label.
    fn after(&self, label: &str) -> Option<String> {
        let rest = self.after_line(label)?;
        Some(rest.split("   ").next().unwrap_or("").trim().trim_end_matches('│').trim().to_string())
    }
    fn after_line(&self, label: &str) -> Option<String> {
        self.lines.iter().find_map(|l| l.split_once(label).map(|x| x.1.to_string()))
    }
    /// Lines of the table of workers: (selected, cells)
    fn worker_rows(&self) -> Vec<(bool, Vec<String>)> {
        self.lines
            .iter()
            .filter(|l| l.contains("http://"))
            .map(|l| (l.contains('▸'), cells(l)))
            .collect()
    }
    fn workers(&self) -> Vec<String> {
        self.worker_rows().into_iter().map(|r| r.1[0].clone()).collect()
    }
    fn row(&self, url: &str) -> Option<Vec<String>> {
        self.worker_rows().into_iter().find(|r| r.1[0] == url).map(|r| r.1[1..].to_vec())
    }
    fn selected(&self) -> Option<usize> {
        self.worker_rows().iter().position(|r| r.0)
    }
    /// The selected row of the active tasks.
    fn task_selected(&self) -> Option<usize> {
        let y = self.lines.iter().position(|l| l.contains(" Active Tasks ("))?;
        let end = y + self.lines[y..].iter().position(|l| l.starts_with('└'))?;
        self.lines[y + 2..end].iter().position(|l| l.contains('▸'))
    }
    fn detail_url(&self) -> Option<String> {
        Some(self.summary()?[" Worker: ".len()..].split_whitespace().next()?.to_string())
    }
    fn summary(&self) -> Option<String> {
        self.lines.iter().find(|l| l.starts_with(" Worker: ")).cloned()
    }
    /// What is above the line under the header.
    fn header(&self) -> &[String] {
        let n = self.lines.iter().position(|l| l.starts_with("────")).unwrap_or(0);
        &self.lines[..n]
    }
    /// The rows of the table with this title.
    fn table(&self, title: &str, cols: usize) -> Result<Vec<Vec<String>>, Viol> {
        let Some(y) = self.lines.iter().position(|l| l.contains(title)) else {
            return viol("table", format!("there is no table {title:?}:\n{}", self.text()));
        };
        let mut rows = vec![];
        for l in &self.lines[y + 2..] {
            if l.starts_with('└') {
                break;
            }
            let c = cells(l);
            if c.len() == cols {
                rows.push(c);
            } else if !c.is_empty() {
                return viol("table", format!("row {l:?} of {title:?}"));
            }
        }
        Ok(rows)
    }
    /// The labels of the three metrics.
    fn metrics(&self) -> Vec<String> {
        let Some(y) = self.lines.iter().position(|l| l.contains(" Active Tasks (")) else { return vec![] };
        // Above: bottom of the block, bottom of the panels, labels.
        self.lines[y - 3].split('│').map(|c| c.trim().to_string()).filter(|c| !c.is_empty()).collect()
    }
    /// The color of a text on the screen.
    fn color(&self, s: &str) -> Option<Color> {
        let y = self.lines.iter().position(|l| l.contains(s))?;
        let x = self.lines[y].split(s).next()?.chars().count();
        let lead = s.chars().take_while(|c| *c == ' ').count();
        Some(self.colors[y][x + lead])
    }
}

/// The cells of a row: separated by at least two blanks.
fn cells(l: &str) -> Vec<String> {
    l.trim_matches(|c: char| c == '│' || c == ' ')
        .trim_start_matches('▸')
        .split("  ")
        .map(|c| c.trim().to_string())
        .filter(|c| !c.is_empty())
        .collect()
}

// ----------------------------------------------------------------------------------------- cases

/// Runs `f` with the simulated clock on a runtime of its own.
fn simulate<F, Fut>(n: usize, f: F) -> RunResult
where
    F: FnOnce(Sim) -> Fut,
    Fut: Future<Output = (Sim, Result<String, Viol>)>,
{
    let _clock = Frozen::new();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let (r, steps, states, reported) = rt.block_on(async {
        let sim = Sim::new(n).await;
        let (mut sim, r) = f(sim).await;
        let x = (r, sim.steps, std::mem::take(&mut sim.states), sim.reported);
        sim.end().await;
        x
    });
    rt.shutdown_background();
    let outcome = r?;
    Ok(Obs { outcome, states, steps, nontrivial: reported })
}

fn snaps() -> Vec<(&'static str, Snapshot)> {
    let s = |tasks: Vec<Task>, cpu: f64, rss: u64| Snapshot { tasks, cpu, rss };
    vec![
        ("none", s(vec![], 0.0, 0)),
        ("a0", s(vec![task(1, 1, 0, 7)], 12.5, 2048)),
        ("a01", s(vec![task(1, 1, 0, 20), task(1, 2, 1, 1500), task(1, 1, 1, 3)], 99.9, 3 << 20)),
        ("b0", s(vec![task(2, 1, 0, 0)], 50.0, 5 << 30)),
        ("a1b0", s(vec![task(2, 1, 0, 3), task(1, 2, 1, 5)], 1.0, 100)),
        ("odd", s(vec![Task { key: None, running: true, rows: 4 }, Task { key: Some((3, 1, 0)), running: false, rows: 1 }], 0.0, 1)),
    ]
}


/// Plays a case: `f` drives the simulated cluster.
macro_rules! play {
    ($n:expr, $sim:ident, $body:block) => {
        simulate($n, |mut $sim| async move {
            let r: Result<String, Viol> = async { $body }.await;
            ($sim, r)
        })
    };
}

const LOADS: [[usize; 3]; 3] = [[1, 2, 0], [3, 4, 2], [2, 2, 1]];

/// What the user does and what the screen should be like.
#[derive(Clone, Debug)]
struct Nav {
    detail: bool,
    selected: usize,
    col: usize,
    dir: usize,
    worker: usize,
    panel: usize,
    task: Option<usize>,
    help: bool,
    quit: bool,
}

const COLUMNS: [&str; 6] = ["Worker", "Status", "Tasks", "Queries", "CPU", "Memory"];

impl Nav {
    fn press(&mut self, k: KeyCode, sim: &Sim, shown: &[String]) {
        let n = sim.workers.len();
        if self.help {
            self.help = false;
            return;
        }
        let c = |c: char| KeyCode::Char(c);
        if k == c('q') {
            self.quit = true;
        } else if k == c('?') {
            self.help = true;
        } else if k == c('1') {
            self.detail = false;
        } else if k == c('2') {
            self.detail = true;
        } else if !self.detail {
            match k {
                KeyCode::Down | KeyCode::Char('j') => self.selected = (self.selected + 1).min(n - 1),
                KeyCode::Up | KeyCode::Char('k') => self.selected = self.selected.saturating_sub(1),
                KeyCode::Home | KeyCode::Char('g') => self.selected = 0,
                KeyCode::End | KeyCode::Char('G') => self.selected = n - 1,
                KeyCode::Left => self.col = (self.col + 5) % 6,
                KeyCode::Right => self.col = (self.col + 1) % 6,
                KeyCode::Char(' ') => self.dir = (self.dir + 1) % 3,
                KeyCode::Enter | KeyCode::Tab => {
                    self.worker = sim.workers.iter().position(|w| w.url == shown[self.selected]).unwrap();
                    self.detail = true;
                    if k == KeyCode::Enter {
                        self.panel = 1;
                        self.task = None;
                    }
                }
                _ => {}
            }
        } else {
            let tasks = sim.workers[self.worker].tasks.len();
            match k {
                KeyCode::Esc | KeyCode::Tab => self.detail = false,
                KeyCode::Left | KeyCode::Char('h') => {
                    self.worker = (self.worker + n - 1) % n;
                    self.task = None;
                }
                KeyCode::Right | KeyCode::Char('l') => {
                    self.worker = (self.worker + 1) % n;
                    self.task = None;
                }
                KeyCode::BackTab => self.panel = (self.panel + 1) % 3,
                KeyCode::Down | KeyCode::Char('j') if self.panel == 1 && tasks > 0 => {
                    self.task = Some(self.task.map(|t| (t + 1).min(tasks - 1)).unwrap_or(0))
                }
                KeyCode::Up | KeyCode::Char('k') if self.panel == 1 && tasks > 0 => {
                    self.task = Some(self.task.map(|t| t.saturating_sub(1)).unwrap_or(0))
                }
                _ => {}
            }
        }
    }

    fn judge(&self, sim: &mut Sim) -> Result<Screen, Viol> {
        let s = sim.draw();
        let bad = |what: &str, s: &Screen| viol::<()>("keys", format!("{what}; expected {self:?}:\n{}", s.text()));
        if sim.app.should_quit != self.quit {
            bad("quits or does not", &s)?;
        }
        if s.has(" Help ") != self.help {
            bad("help", &s)?;
        }
        if self.help {
            return Ok(s);
        }
        sim.judge_header(&s, if self.detail { "Worker Detail" } else { "Cluster Overview" })?;
        if !self.detail {
            if s.selected() != Some(self.selected) {
                bad("selected row", &s)?;
            }
            let header = s.lines.iter().find(|l| l.contains("Worker") && l.contains("Status") && l.contains("Memory")).cloned().unwrap_or_default();
            let want: Vec<String> = COLUMNS
                .iter()
                .enumerate()
                .map(|(i, c)| format!("{c}{}", if i == self.col { ["", " ▲", " ▼"][self.dir] } else { "" }))
                .collect();
            if cells(&header) != want {
                bad(&format!("columns {:?}, not {want:?}", cells(&header)), &s)?;
            }
            sim.judge_cluster(&s)?;
            sorted(sim, &s, self)?;
        } else {
            if s.detail_url().as_deref() != Some(sim.workers[self.worker].url.as_str()) {
                bad("shown worker", &s)?;
            }
            if !s.summary().unwrap_or_default().contains(&format!("[{}/{}]", self.worker + 1, sim.workers.len())) {
                bad("number of the worker", &s)?;
            }
            let focus = [" Metrics ", " Active Tasks (", " Recently Completed ("].map(|t| s.color(t) == Some(Color::Cyan));
            if focus.iter().position(|f| *f) != Some(self.panel) || focus.iter().filter(|f| **f).count() != 1 {
                bad(&format!("focused panels {focus:?}"), &s)?;
            }
            let row = s.task_selected();
            if row != self.task {
                bad(&format!("selected task {row:?}"), &s)?;
            }
            sim.judge_detail(&s)?;
        }
        Ok(s)
    }
}

/// The rows are in the order that the header announces.
fn sorted(sim: &Sim, s: &Screen, nav: &Nav) -> Result<(), Viol> {
    let shown = s.workers();
    let listed: Vec<String> = sim.workers.iter().map(|w| w.url.clone()).collect();
    if nav.dir == 0 {
        if shown != listed {
            return viol("order", format!("unsorted workers {listed:?} are shown as {shown:?}"));
        }
        return Ok(());
    }
    let by_url = |u: &String| sim.workers.iter().find(|w| w.url == *u).unwrap();
    let vals: Vec<(f64, &String)> = shown
        .iter()
        .map(|u| {
            let w = by_url(u);
            let v = match nav.col {
                0 => 0.0,
                1 => match w.status {
                    Status_::Disconnected => 0.0,
                    Status_::Active => 1.0,
                    Status_::Idle => 2.0,
                    Status_::Connecting => 3.0,
                },
                2 => w.tasks.len() as f64,
                3 => w.queries().len() as f64,
                4 => w.cpu,
                _ => w.rss as f64,
            };
            (v, u)
        })
        .collect();
    for p in vals.windows(2) {
        let o = if nav.col == 0 { p[0].1.cmp(p[1].1) } else { p[0].0.partial_cmp(&p[1].0).unwrap() };
        let wrong = if nav.dir == 1 { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less };
        if o == wrong {
            return viol("order", format!("by {} {}: {vals:?}", COLUMNS[nav.col], ["", "up", "down"][nav.dir]));
        }
    }
    Ok(())
}

const KEYS: [KeyCode; 18] = [
    KeyCode::Down,
    KeyCode::Char('k'),
    KeyCode::Char('G'),
    KeyCode::Home,
    KeyCode::Left,
    KeyCode::Right,
    KeyCode::Char(' '),
    KeyCode::Enter,
    KeyCode::Tab,
    KeyCode::BackTab,
    KeyCode::Esc,
    KeyCode::Char('1'),
    KeyCode::Char('2'),
    KeyCode::Char('?'),
    KeyCode::Char('h'),
    KeyCode::Char('l'),
    KeyCode::Char('q'),
    KeyCode::Char('x'),
];

fn report_case(first: usize, wait: u64, depth: usize) -> Case {
    case(format!("report/{}/every{wait}/depth{depth}", snaps()[first].0), 99, move |ch| {
        let ch = Arc::clone(ch);
        play!(1, sim, {
            sim.announce(Some(&[0]));
            sim.snap(0, &snaps()[first].1);
            sim.tick().await?;
            sim.judge()?;
            const MODES: [Mode; 4] = [Mode::PollErr, Mode::PollHang, Mode::Down, Mode::Up];
            let n = snaps().len();
            for _ in 0..depth {
                advance(wait);
                let e = choose(&ch, n + 4, |e| match e {
                    e if e < n => snaps()[e].0.to_string(),
                    e => format!("{:?}", MODES[e - n]),
                });
                if e < n {
                    sim.snap(0, &snaps()[e].1);
                } else {
                    sim.mode(0, MODES[e - n]);
                }
                sim.tick().await?;
                sim.judge()?;
            }
            Ok(sim.canon())
        })
    })
}

/// Workers come and go, fail, hang and come back.
fn cluster_case(wait: u64, depth: usize) -> Case {
    case(format!("cluster/every{wait}/depth{depth}"), 99, move |ch| {
        let ch = Arc::clone(ch);
        play!(3, sim, {
            for (i, s) in [1, 2, 4].into_iter().enumerate() {
                sim.snap(i, &snaps()[s].1);
            }
            sim.announce(Some(&[0, 1]));
            sim.tick().await?;
            sim.judge()?;
            const LISTS: [Option<&[usize]>; 7] =
                [Some(&[0]), Some(&[1]), Some(&[0, 1, 2]), Some(&[2, 0]), Some(&[]), Some(&[1, 9]), None];
            const MODES: [(usize, Mode); 6] =
                [(0, Mode::Down), (0, Mode::Up), (1, Mode::Hang), (1, Mode::PingErr), (0, Mode::PollErr), (2, Mode::Down)];
            for _ in 0..depth {
                advance(wait);
                let e = choose(&ch, 16, |e| format!("event {e}"));
                match e {
                    0 => {}
                    1..=7 => sim.announce(LISTS[e - 1]),
                    8..=13 => sim.mode(MODES[e - 8].0, MODES[e - 8].1),
                    14 => {
                        sim.press('p');
                        sim.paused = !sim.paused;
                    }
                    _ => {
                        let hang = sim.seed.w.lock().unwrap().mode == Mode::Hang;
                        sim.seed.w.lock().unwrap().mode = if hang { Mode::Up } else { Mode::Hang };
                    }
                }
                sim.tick().await?;
                sim.judge()?;
            }
            Ok(sim.canon())
        })
    })
}

/// Keys, in a cluster that does not change.
fn keys_case(load: usize, prefix: &'static [KeyCode], depth: usize) -> Case {
    case(format!("keys/load{load}/{prefix:?}/depth{depth}"), 99, move |ch| {
        let ch = Arc::clone(ch);
        play!(3, sim, {
            for (i, s) in LOADS[load].into_iter().enumerate() {
                sim.snap(i, &snaps()[s].1);
            }
            sim.announce(Some(&[2, 0, 1]));
            sim.tick().await?;
            if load == 1 {
                sim.mode(1, Mode::Down);
                advance(100);
                sim.tick().await?;
            }
            let mut nav = Nav { detail: false, selected: 0, col: 0, dir: 0, worker: 0, panel: 1, task: None, help: false, quit: false };
            let mut s = nav.judge(&mut sim)?;
            for i in 0..prefix.len() + depth {
                let k = match prefix.get(i) {
                    Some(k) => *k,
                    None => KEYS[choose(&ch, KEYS.len(), |k| format!("{:?}", KEYS[k]))],
                };
                nav.press(k, &sim, &s.workers());
                sim.key(k, KeyModifiers::NONE);
                s = nav.judge(&mut sim)?;
                sim.states.push(h64(&format!("{nav:?}")));
            }
            Ok(format!("{nav:?}"))
        })
    })
}

/// The cluster changes while the user looks at a worker.
fn watch_case(worker: usize, depth: usize) -> Case {
    case(format!("watch/w{worker}/depth{depth}"), 99, move |ch| {
        let ch = Arc::clone(ch);
        play!(3, sim, {
            for (i, s) in [1, 2, 4].into_iter().enumerate() {
                sim.snap(i, &snaps()[s].1);
            }
            sim.announce(Some(&[0, 1, 2]));
            sim.tick().await?;
            sim.draw();
            for _ in 0..worker {
                sim.press('j');
            }
            sim.key(KeyCode::Enter, KeyModifiers::NONE);
            // The worker that the detail view shows, if it is shown.
            let mut watched = Some(sim.url(worker));
            let s = sim.draw();
            if s.detail_url() != watched {
                return viol("watch", format!("Enter on {watched:?} opens {:?}", s.detail_url()));
            }
            const LISTS: [&[usize]; 6] = [&[0, 1, 2], &[1, 2], &[2], &[0], &[], &[2, 1]];
            for _ in 0..depth {
                let e = choose(&ch, LISTS.len() + 5, |e| format!("event {e}"));
                match e {
                    e if e < LISTS.len() => {
                        advance(5000);
                        sim.announce(Some(LISTS[e]));
                        sim.tick().await?;
                        if let Some(w) = &watched
                            && !sim.workers.iter().any(|x| x.url == *w)
                        {
                            watched = None;
                        }
                        let s = sim.draw();
                        match (&watched, s.detail_url()) {
                            (Some(w), Some(d)) if *w == d => {}
                            (None, None) => {}
                            (w, d) => {
                                return viol("watch", format!("the detail view was on {w:?} and now shows {d:?}:\n{}", s.text()));
                            }
                        }
                    }
                    e => {
                        let k = [KeyCode::Esc, KeyCode::Char('l'), KeyCode::Char('2'), KeyCode::Char('j'), KeyCode::Enter][e - LISTS.len()];
                        sim.key(k, KeyModifiers::NONE);
                        let s = sim.draw();
                        if k == KeyCode::Esc && !s.has("Cluster Metrics") {
                            return viol("stuck-view", format!("Esc does not lead back:\n{}", s.text()));
                        }
                        watched = s.detail_url();
                    }
                }
                let s = sim.draw();
                if let Some(d) = s.detail_url()
                    && !sim.workers.iter().any(|w| w.url == d)
                {
                    return viol("watch", format!("{d} is shown and is not in the cluster"));
                }
                if s.has("Cluster Metrics") {
                    sim.judge_cluster(&s)?;
                } else if s.detail_url().is_some() {
                    sim.judge_detail(&s)?;
                }
            }
            let i = watched.map(|w| sim.servers.iter().position(|s| s.url.as_str() == w));
            Ok(format!("{i:?} {}", sim.canon()))
        })
    })
}

/// Any size of the terminal.
fn size_case(view: usize) -> Case {
    const W: [u16; 12] = [1, 2, 3, 10, 25, 40, 60, 99, 100, 101, 160, 300];
    const H: [u16; 12] = [1, 2, 3, 5, 8, 10, 14, 20, 24, 30, 50, 100];
    case(format!("size/view{view}"), 99, move |ch| {
        let ch = Arc::clone(ch);
        play!(3, sim, {
            let (w, h) = (W[choose(&ch, W.len(), |w| format!("width {}", W[w]))], H[choose(&ch, H.len(), |h| format!("height {}", H[h]))]);
            sim.term = Terminal::new(TestBackend::new(w, h)).unwrap();
            sim.draw();
            sim.announce(Some(&[0, 1, 2, 9]));
            for (i, s) in [5, 2, 4].into_iter().enumerate() {
                sim.snap(i, &snaps()[s].1);
            }
            for i in 0..3 {
                advance(100);
                sim.snap(1, &snaps()[[2, 4, 3][i]].1);
                sim.tick().await?;
                sim.draw();
            }
            match view {
                0 => {}
                1 => sim.press('2'),
                2 => sim.press('?'),
                _ => {
                    sim.press('G');
                    sim.key(KeyCode::Enter, KeyModifiers::NONE);
                    sim.key(KeyCode::Down, KeyModifiers::NONE);
                    sim.draw();
                    sim.press('l');
                }
            }
            sim.draw();
            Ok(format!("{w}x{h}"))
        })
    })
}

/// Long histories stay bounded.
fn history_case(together: bool) -> Case {
    case(format!("history/{}", if together { "together" } else { "one-by-one" }), 99, move |_| {
        play!(1, sim, {
            sim.announce(Some(&[0]));
            let keep = task(1, 9, 9, 0);
            let snap = |tasks: Vec<Task>| Snapshot { tasks, cpu: 10.0, rss: 1 << 20 };
            if together {
                sim.snap(0, &snap((0..60).map(|t| task(1, 1, t, 1)).chain([keep.clone()]).collect()));
                sim.tick().await?;
                advance(1000);
                sim.snap(0, &snap(vec![keep.clone()]));
                sim.tick().await?;
                let s = { sim.press('2'); sim.draw() };
                if !s.has(" Recently Completed (50) ") || !s.has(" Active Tasks (1) ") {
                    return viol("history", format!("60 tasks completed at once:\n{}", s.text()));
                }
            } else {
                for t in 0..400 {
                    sim.snap(0, &snap(vec![keep.clone(), task(1, 1, t, t)]));
                    sim.tick().await?;
                    advance(100);
                    if t % 37 == 0 || t > 395 {
                        sim.judge()?;
                    }
                }
            }
            Ok(String::new())
        })
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let deep = thorough as usize;
    for first in 0..snaps().len() {
        v.push(report_case(first, 100, 3 + deep));
        v.push(report_case(first, 2600, 2 + deep));
        v.push(report_case(first, 70_000, 2 + deep));
    }
    v.push(report_case(1, 5_000_000, 2));
    for wait in [100, 2600, 5000] {
        v.push(cluster_case(wait, if wait == 100 { 2 } else { 3 } + deep));
    }
    for load in 0..LOADS.len() {
        v.push(keys_case(load, &[], 3 + deep));
        v.push(keys_case(load, &[KeyCode::Char('j'), KeyCode::Enter], 2 + deep));
        // Every column in both directions.
        const R: KeyCode = KeyCode::Right;
        const S: KeyCode = KeyCode::Char(' ');
        for p in [&[R, S, R, R, S] as &'static [KeyCode], &[S, R, R, R, R, S, R], &[R, R, S, R, R, R], &[S, S, R, R, R, R, R, S, S]] {
            v.push(keys_case(load, p, 1 + deep));
        }
    }
    for w in 0..3 {
        v.push(watch_case(w, 3 + deep));
    }
    for view in 0..4 {
        v.push(size_case(view));
    }
    v.push(history_case(true));
    v.push(history_case(false));
    v
}
