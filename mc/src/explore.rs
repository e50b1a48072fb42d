//! Stateless, deviation-bounded exhaustive exploration.
//!
//! A *case* is a deterministic closure that, whenever it has a nondeterministic decision to
//! take, asks a [Chooser].  The explorer runs the closure once per choice sequence: it starts
//! with the empty prefix, records every decision point met, and schedules every alternative of
//! every point after the prefix, as long as the number of non-default choices stays within the
//! bound of the case.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Chooser {
    prefix: Vec<(usize, usize)>,
    pub trace: Vec<(usize, usize)>,
    pub labels: Vec<String>,
    pub diverged: bool,
}

impl Chooser {
    /// This is the execution without deviations.
    pub fn default_run(&self) -> bool {
        self.prefix.iter().all(|p| p.1 == 0)
    }
    pub fn deviated(&self) -> bool {
        self.trace.iter().any(|t| t.1 > 0)
    }
    /// Picks one of `n` alternatives; 0 is the default and costs nothing.
    pub fn choose(&mut self, n: usize, label: impl FnOnce(usize) -> String) -> usize {
        assert!(n > 0);
        let i = self.trace.len();
        let c = if let Some((pn, pc)) = self.prefix.get(i) {
            if *pn != n {
                self.diverged = true;
            }
            (*pc).min(n - 1)
        } else {
            0
        };
        self.trace.push((n, c));
        self.labels.push(label(c));
        c
    }
}

pub type Ch = Arc<Mutex<Chooser>>;

pub fn choose(ch: &Ch, n: usize, label: impl FnOnce(usize) -> String) -> usize {
    if n <= 1 {
        return 0;
    }
    ch.lock().unwrap().choose(n, label)
}

/// What one execution reports when nothing is wrong.
#[derive(Default, Clone)]
pub struct Obs {
    /// Canonical description of what was observed (used for distinct-outcome counting).
    pub outcome: String,
    /// Intermediate canonical states visited.
    pub states: Vec<u64>,
    /// Steps executed.
    pub steps: u64,
    /// Non-trivial by the rule of the check.
    pub nontrivial: bool,
}

#[derive(Clone, Debug)]
pub struct Viol {
    /// Stable identification of what fails, used for known findings.
    pub key: String,
    pub msg: String,
}

pub fn viol<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { key: key.into(), msg: msg.into() })
}

pub type RunResult = Result<Obs, Viol>;

pub struct Case {
    pub id: String,
    pub bound: usize,
    pub run: Box<dyn Fn(&Ch) -> RunResult + Send + Sync>,
}

pub fn case(id: impl Into<String>, bound: usize, run: impl Fn(&Ch) -> RunResult + Send + Sync + 'static) -> Case {
    Case { id: id.into(), bound, run: Box::new(run) }
}

#[derive(Clone)]
pub struct Found {
    pub case: String,
    pub choices: Vec<(usize, usize)>,
    pub labels: Vec<String>,
    pub viol: Viol,
}

#[derive(Default)]
pub struct Stats {
    pub cases: usize,
    pub executions: u64,
    pub transitions: u64,
    pub nontrivial: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
    pub choice_points: u64,
    pub max_deviations: usize,
    pub diverged: u64,
    pub replays: u64,
    pub capped: bool,
    pub capped_cases: usize,
    pub unreproduced: u64,
    pub by_group: BTreeMap<String, u64>,
}

pub fn h64(s: &str) -> u64 {
    // FNV-1a
    let mut h = 0xcbf29ce484222325u64;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

thread_local! {
    pub static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        if std::env::var("MC_PANICS").is_ok() {
            eprintln!("panic at {loc}: {msg}");
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(format!("{loc}: {msg}")));
    }));
}

pub fn take_last_panic() -> Option<String> {
    LAST_PANIC.with(|l| l.borrow_mut().take())
}

pub struct Limits {
    pub threads: usize,
    pub deadline: Instant,
    pub max_runs_per_case: u64,
    pub stuck_after: Duration,
    pub replay_every: u64,
}

fn run_once(case: &Case, prefix: Vec<(usize, usize)>) -> (RunResult, Chooser) {
    let ch: Ch = Arc::new(Mutex::new(Chooser { prefix, ..Default::default() }));
    take_last_panic();
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| (case.run)(&ch)));
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            let p = take_last_panic().unwrap_or_default();
            Err(Viol { key: "panic".into(), msg: format!("panic: {p}") })
        }
    };
    let mut g = match ch.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    let c = std::mem::take(&mut *g);
    drop(g);
    (r, c)
}

struct Shared {
    stack: Vec<(usize, Vec<(usize, usize)>)>,
    busy: usize,
    runs: Vec<u64>,
    stats: Stats,
    found: Vec<Found>,
    bad_cases: HashSet<usize>,
}

/// Explores all the cases; returns statistics and the violations (at most one per case).
pub fn explore(cases: Vec<Case>, lim: Limits, on_stuck: impl Fn(Found) + Send + Sync) -> (Stats, Vec<Found>) {
    let n = cases.len();
    let shared = Mutex::new(Shared {
        // LIFO: push in reverse so that the first case runs first.
        stack: (0..n).rev().map(|i| (i, vec![])).collect(),
        busy: 0,
        runs: vec![0; n],
        stats: Stats { cases: n, ..Default::default() },
        found: vec![],
        bad_cases: HashSet::new(),
    });
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let current: Vec<Mutex<Option<(usize, Vec<(usize, usize)>, Instant)>>> =
        (0..lim.threads).map(|_| Mutex::new(None)).collect();
    let alive = AtomicUsize::new(lim.threads);
    let total = AtomicU64::new(0);

    std::thread::scope(|s| {
        for t in 0..lim.threads {
            let (shared, cv, cases, current, lim, alive, total) =
                (&shared, &cv, &cases, &current, &lim, &alive, &total);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let (ci, prefix) = {
                            let mut g = shared.lock().unwrap();
                            loop {
                                if Instant::now() >= lim.deadline && !g.stack.is_empty() {
                                    g.stats.capped = true;
                                    let left: HashSet<usize> = g.stack.iter().map(|x| x.0).collect();
                                    g.stats.capped_cases += left.len();
                                    g.stack.clear();
                                }
                                if let Some(x) = g.stack.pop() {
                                    if g.bad_cases.contains(&x.0) {
                                        continue;
                                    }
                                    if g.runs[x.0] >= lim.max_runs_per_case {
                                        if g.runs[x.0] == lim.max_runs_per_case {
                                            g.stats.capped_cases += 1;
                                            g.runs[x.0] += 1;
                                        }
                                        g.stats.capped = true;
                                        continue;
                                    }
                                    g.busy += 1;
                                    g.runs[x.0] += 1;
                                    break x;
                                }
                                if g.busy == 0 {
                                    cv.notify_all();
                                    alive.fetch_sub(1, SeqCst);
                                    return;
                                }
                                g = cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
                            }
                        };
                        let case = &cases[ci];
                        *current[t].lock().unwrap() = Some((ci, prefix.clone(), Instant::now()));
                        let (mut r, mut c) = run_once(case, prefix.clone());
                        let nrun = total.fetch_add(1, SeqCst);
                        let mut unreproduced = 0;
                        let mut replays = 0;
                        if r.is_err() {
                            // Only a violation that shows again on replay is believed.
                            let full: Vec<_> = c.trace.clone();
                            let mut again = 0;
                            for _ in 0..3 {
                                let (r2, _) = run_once(case, full.clone());
                                replays += 1;
                                if r2.is_err() {
                                    again += 1;
                                }
                            }
                            if again < 2 {
                                unreproduced = 1;
                                eprintln!("unreproduced in {}: {:.400}", case.id, format!("{:?}", r.as_ref().err()));
                                (r, c) = run_once(case, prefix.clone());
                                if let Err(_) = &r {
                                    r = Ok(Obs::default());
                                }
                            }
                        } else if lim.replay_every > 0 && nrun % lim.replay_every == 0 {
                            // Replay the schedule and require the identical observation.
                            let (r2, _) = run_once(case, c.trace.clone());
                            replays += 1;
                            if let (Ok(a), Ok(b)) = (&r, &r2)
                                && a.outcome != b.outcome
                            {
                                unreproduced += 1;
                                eprintln!("nondeterministic outcome in {}: {:.200} / {:.200}", case.id, a.outcome, b.outcome);
                            }
                        }
                        *current[t].lock().unwrap() = None;
                        let mut g = shared.lock().unwrap();
                        g.stats.unreproduced += unreproduced;
                        g.stats.replays += replays;
                        g.stats.executions += 1;
                        g.stats.choice_points += c.trace.len() as u64;
                        let group = case.id.split('/').next().unwrap_or("").to_string();
                        *g.stats.by_group.entry(group).or_default() += 1;
                        match r {
                            Ok(o) => {
                                g.stats.transitions += o.steps.max(c.trace.len() as u64).max(1);
                                let key = h64(&format!("{}|{}", case.id, o.outcome));
                                g.stats.outcomes.insert(key);
                                g.stats.states.insert(key);
                                g.stats.states.extend(o.states.iter());
                                if o.nontrivial {
                                    g.stats.nontrivial.insert(h64(&format!("{}|{:?}", case.id, c.trace)));
                                }
                                if g.stats.samples.len() < 5
                                    && o.nontrivial
                                    && !g.stats.samples.iter().any(|s| s.starts_with(case.id.split('/').next().unwrap_or("")))
                                {
                                    let out: String = o.outcome.chars().take(300).collect();
                                    let l: String = c.labels.join(",").chars().take(300).collect();
                                    g.stats.samples.push(format!("{} choices=[{}] -> {}", case.id, l, out));
                                }
                            }
                            Err(v) => {
                                g.bad_cases.insert(ci);
                                if g.found.len() > 3000 {
                                    g.stats.capped = true;
                                    g.stack.clear();
                                }
                                g.found.push(Found {
                                    case: case.id.clone(),
                                    choices: c.trace.clone(),
                                    labels: c.labels.clone(),
                                    viol: v,
                                });
                            }
                        }
                        if c.diverged {
                            g.stats.diverged += 1;
                        }
                        // Schedule the alternatives of every decision after the prefix.
                        if !c.diverged && !g.bad_cases.contains(&ci) {
                            let cost: usize = c.trace.iter().filter(|x| x.1 != 0).count();
                            g.stats.max_deviations = g.stats.max_deviations.max(cost);
                            if cost < case.bound {
                                for i in (prefix.len()..c.trace.len()).rev() {
                                    let (pn, _) = c.trace[i];
                                    for alt in (1..pn).rev() {
                                        let mut p = c.trace[..i].to_vec();
                                        p.push((pn, alt));
                                        g.stack.push((ci, p));
                                    }
                                }
                            }
                        }
                        g.busy -= 1;
                        cv.notify_all();
                    }
                })
                .unwrap();
        }
        // Watchdog: a run that does not come back (busy loop, blocked thread) is a hang.
        let (current, cases, lim, alive, stop) = (&current, &cases, &lim, &alive, &stop);
        let on_stuck = &on_stuck;
        s.spawn(move || {
            while alive.load(SeqCst) > 0 && !stop.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                for c in current {
                    let g = c.lock().unwrap();
                    if let Some((ci, prefix, at)) = &*g
                        && at.elapsed() > lim.stuck_after
                    {
                        on_stuck(Found {
                            case: cases[*ci].id.clone(),
                            choices: prefix.clone(),
                            labels: vec![],
                            viol: Viol {
                                key: "stuck".into(),
                                msg: format!("execution did not terminate within {:?} of real time", lim.stuck_after),
                            },
                        });
                    }
                }
            }
        });
    });
    let g = shared.into_inner().unwrap();
    (g.stats, g.found)
}

/// Runs one case with one recorded schedule.
pub fn replay(case: &Case, choices: Vec<(usize, usize)>) -> (RunResult, Chooser) {
    run_once(case, choices)
}
