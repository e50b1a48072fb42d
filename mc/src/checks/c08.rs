//! C08: a failure anywhere surfaces as a query error, never as missing rows or a hang.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::scen::*;
use futures::FutureExt;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;

pub fn check() -> Check {
    Check {
        id: "C08",
        level: "model_checking",
        rule: "case = (query, cluster, planner mode, transport, kind of fault); every place where such a fault can strike (every message, every gRPC frame, every leaf item, every session) is one execution (pairs of faults in the thorough tier); non-trivial = a fault was injected",
        assumptions: &["a lost message breaks the stream or call it belongs to, as a broken connection does", "a panicking leaf may unwind to the caller when client and operator share a thread and no worker is between them", "bounds: see case ids"],
        cases,
    }
}

/// Virtual seconds within which a failed query must have ended.
const BOUND: u64 = 120;

pub fn one(o: Setup, q: (&'static str, &'static str, Cut), fault: Fault, ch: &Ch) -> RunResult {
    rt::sim(async {
        let (w, hit) = faulty_world(o, fault, ch, |b| b);
        let exp = truth(&w, q).await?;
        let plan = df_err(async { w.ctx.sql(q.1).await?.create_physical_plan().await }.await, "plan")?;
        let t0 = tokio::time::Instant::now();
        let run = AssertUnwindSafe(run_to_end(&w.ctx, plan)).catch_unwind();
        let out = match run.await {
            Ok(o) => o,
            Err(_) if w.fired() > 0 => Outcome::Err("panic boom-leaf".into(), vec![]),
            Err(_) => return viol("panic", format!("the client panicked: {}", take_last_panic().unwrap_or_default())),
        };
        let n = hit.load(SeqCst) + w.fired();
        let what = || {
            let g = ch.lock().unwrap();
            let l: Vec<&String> = g.labels.iter().zip(&g.trace).filter(|x| x.1.1 > 0).map(|x| x.0).collect();
            format!("{} with fault {l:?}", q.1)
        };
        let outcome = match out {
            Outcome::Hang(got) => {
                return viol("hang", format!("{} did not end ({} rows arrived)", what(), got.iter().map(|b| b.num_rows()).sum::<usize>()));
            }
            Outcome::Rows(got) => {
                if !answers(q, &got, &exp) {
                    let key = if n > 0 { "silent-truncation" } else { "wrong-rows" };
                    return viol(key, format!("{} ended normally with {:?}, expected {exp:?}", what(), canon(q.0, &got)));
                }
                "rows".to_string()
            }
            Outcome::Err(e, _) => {
                if n == 0 {
                    return viol("error", format!("{} failed: {e}", q.1));
                }
                let panics = ch.lock().unwrap().labels.iter().any(|l| l.contains("Panic"));
                if w.fired() > 0 && !panics && hit.load(SeqCst) == 0 && !e.contains("boom-leaf") {
                    return viol("error-text", format!("{} failed with a message that hides the cause: {e}", what()));
                }
                "error".to_string()
            }
        };
        if t0.elapsed() > Duration::from_secs(BOUND) {
            return viol("slow", format!("{} took {:?}", what(), t0.elapsed()));
        }
        Ok(Obs { outcome: format!("{outcome} {n}"), nontrivial: n > 0, steps: w.cluster.net.log().len() as u64, ..Default::default() })
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let mut add = |o: Setup, fs: &[Fault], b: usize, every: usize| {
        for (i, q) in QUERIES.iter().enumerate() {
            for (j, f) in fs.iter().enumerate() {
                if (i + j) % every != 0 || (*f == Fault::Frame && o.tr != Transport::Grpc) {
                    continue;
                }
                let (q, f) = (*q, *f);
                v.push(case(format!("{f:?}/{}/{}/b{b}", q.0, o.short()), b, move |ch| one(o, q, f, ch)));
            }
        }
    };
    for dynamic in [false, true] {
        for (workers, max_tasks) in [(1, 3), (2, 5), (2, 0)] {
            add(Setup { dynamic, local: true, workers, max_tasks, ..SETUP }, &FAULTS, 1, if thorough { 1 } else { 4 });
            add(Setup { dynamic, workers, max_tasks, ..SETUP }, &[Fault::None], 1, 1);
            add(Setup { dynamic, local: true, workers, max_tasks, ..SETUP }, &[Fault::None], 1, 1);
        }
        for tr in [Transport::Direct, Transport::Grpc] {
            add(Setup { dynamic, tr, ..SETUP }, &FAULTS, 1, 1);
            if thorough {
                for (broadcast, metrics, batch, workers, parts) in
                    [(false, true, 2, 3, 2), (true, false, 2, 3, 2), (true, true, 1, 3, 2), (true, true, 2, 2, 3), (true, true, 2, 5, 1)]
                {
                    add(Setup { dynamic, tr, broadcast, metrics, batch, workers, parts, ..SETUP }, &FAULTS, 1, 1);
                }
                let small = Setup { dynamic, tr, workers: 2, parts: 1, batch: 8, ..SETUP };
                add(small, &FAULTS, 2, 1);
            } else {
                add(Setup { dynamic, tr, broadcast: false, metrics: false, batch: 1, workers: 2, ..SETUP }, &FAULTS, 1, 3);
            }
        }
    }
    v
}
