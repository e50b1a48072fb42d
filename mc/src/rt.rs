//! Deterministic single-threaded runtimes and polling helpers.
use futures::Stream;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1)
}

/// Runs `fut` on a fresh current-thread runtime with a paused clock and a fixed `select!` seed.
pub fn sim<F: Future>(fut: F) -> F::Output {
    sim_seeded(seed(), fut)
}

pub fn sim_seeded<F: Future>(seed: u64, fut: F) -> F::Output {
    let mut b = tokio::runtime::Builder::new_current_thread();
    b.enable_all().start_paused(true);
    b.rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()));
    let rt = b.build().unwrap();
    let r = rt.block_on(async {
        let r = fut.await;
        // Let whatever was going on in the background wind down: a runtime shut down in the
        // middle of it leaves reference cycles behind.
        quiesce().await;
        crate::net::bury().await;
        r
    });
    rt.shutdown_background();
    r
}

/// Runs `fut` on a normal current-thread runtime (real clock, blocking pool allowed).
pub fn real<F: Future>(fut: F) -> F::Output {
    let mut b = tokio::runtime::Builder::new_current_thread();
    b.enable_all();
    b.rng_seed(tokio::runtime::RngSeed::from_bytes(&seed().to_le_bytes()));
    let rt = b.build().unwrap();
    let r = rt.block_on(fut);
    rt.shutdown_background();
    r
}

/// Lets every runnable task run until nothing is runnable any more.  With a paused clock the
/// sleep only elapses when the runtime is otherwise idle.
pub async fn quiesce() {
    tokio::time::sleep(Duration::from_micros(1)).await;
}

/// Polls a stream once with a no-op waker (the harness decides when to poll again).
pub fn poll_once<S: Stream + Unpin + ?Sized>(s: &mut S) -> Poll<Option<S::Item>> {
    let mut cx = Context::from_waker(Waker::noop());
    Pin::new(s).poll_next(&mut cx)
}

pub async fn vtimeout<F: Future>(secs: u64, f: F) -> Result<F::Output, ()> {
    tokio::time::timeout(Duration::from_secs(secs), f).await.map_err(|_| ())
}

use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

struct FlagWaker(AtomicBool);
impl std::task::Wake for FlagWaker {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}

/// A consumer of one stream, polled only when the explorer says so.  Records whether the stream
/// asked to be polled again, so that lost wake-ups are visible.
pub struct Reader<T> {
    stream: Option<Pin<Box<dyn Stream<Item = T> + Send>>>,
    flag: Arc<FlagWaker>,
    /// Items received so far.
    pub got: Vec<T>,
    /// The stream returned end of stream.
    pub ended: bool,
    /// The last poll returned Pending.
    pub pending: bool,
}

impl<T> Reader<T> {
    pub fn new(s: impl Stream<Item = T> + Send + 'static) -> Self {
        Self {
            stream: Some(Box::pin(s)),
            flag: Arc::new(FlagWaker(AtomicBool::new(true))),
            got: vec![],
            ended: false,
            pending: false,
        }
    }
    pub fn alive(&self) -> bool {
        self.stream.is_some() && !self.ended
    }
    /// Would a real task be polled now?
    pub fn runnable(&self) -> bool {
        self.alive() && (!self.pending || self.flag.0.load(SeqCst))
    }
    pub fn drop_stream(&mut self) {
        self.stream = None;
    }
    /// One poll. Returns true if something was received (item or end).
    pub fn poll(&mut self) -> bool {
        let Some(s) = self.stream.as_mut() else { return false };
        if self.ended {
            return false;
        }
        self.flag.0.store(false, SeqCst);
        let w = Waker::from(self.flag.clone());
        let mut cx = Context::from_waker(&w);
        match s.as_mut().poll_next(&mut cx) {
            Poll::Pending => {
                self.pending = true;
                false
            }
            Poll::Ready(Some(x)) => {
                self.pending = false;
                self.got.push(x);
                true
            }
            Poll::Ready(None) => {
                self.pending = false;
                self.ended = true;
                true
            }
        }
    }
    /// Polls for as long as the stream makes progress or asked to be polled.
    pub fn drain_ready(&mut self) -> bool {
        let mut any = false;
        for _ in 0..10_000 {
            if !self.runnable() {
                break;
            }
            any |= self.poll();
        }
        any
    }
}
