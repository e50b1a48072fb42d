//! C09: however a query ends, workers and memory return to their idle state.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::scen::*;
use datafusion::physical_plan::execute_stream;
use futures::{FutureExt, StreamExt};
use std::collections::BTreeMap;
use std::panic::AssertUnwindSafe;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::time::Duration;
use tokio::sync::Notify;

pub fn check() -> Check {
    Check {
        id: "C09",
        level: "model_checking",
        rule: "case = (query, cluster, planner mode, transport, way to end); the ways to end are every number of batches read before the stream is dropped, a drop at every message (which may arrive after the drop), a drop while any leaf stream has stalled at any of its items, every fault of C08, and full consumption; afterwards the cluster must be idle and answer another query; non-trivial = the query ended early or failed",
        assumptions: &["a worker forgets a task whose plan or read request reaches it after the query's end only with time (entries expire by a real-time clock)", "bounds: see case ids"],
        cases,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    /// Dropped after some number of batches.
    Batches,
    /// Dropped while some message is under way.
    Message,
    /// Dropped while an input has stalled.
    Stall,
    Fault(Fault),
}

/// Tasks that a worker may remember longer: their plan was not accepted, or a read request may
/// have come after the coordinator had ended the task.
fn excused(log: &[Ev], tr: Transport, late: bool) -> usize {
    #[derive(Default)]
    struct T {
        accepted: bool,
        ended: bool,
        late: bool,
        asked: Vec<(usize, usize)>,
    }
    let mut m: BTreeMap<(usize, usize), T> = BTreeMap::new();
    for e in log {
        let t = m.entry((e.stage, e.task)).or_default();
        match e.kind {
            Kind::SetPlanReply if tr == Transport::Direct => t.accepted = true,
            // The gRPC client returns before the plan has reached the worker.
            Kind::W2C if !e.err && !e.end => t.accepted = true,
            Kind::C2W if e.end => {
                t.ended = true;
                // A request under way may arrive later.
                t.late |= !t.asked.is_empty();
            }
            Kind::Exec if t.ended || late => t.late = true,
            Kind::Exec => t.asked.push((e.part, e.seq)),
            Kind::ExecReply if tr == Transport::Direct => t.asked.retain(|a| a.0 != e.part),
            // The gRPC client returns before its request has reached the worker.
            Kind::Batch => t.asked.retain(|a| !(a.0 <= e.part && e.part < a.1)),
            _ => {}
        }
    }
    m.remove(&(0, 0));
    m.values().filter(|t| !t.accepted || t.late).count()
}

fn one(o: Setup, q: (&'static str, &'static str, Cut), how: How, ch: &Ch) -> RunResult {
    rt::sim(async {
        let fault = if let How::Fault(f) = how { f } else { Fault::None };
        let armed = Arc::new(AtomicBool::new(true));
        let (w, hit) = match how {
            How::Stall => (world(o, Some(chosen_stalls(ch, armed.clone())), |b| b), Default::default()),
            _ => faulty_world(o, fault, ch, |b| b),
        };
        let exp = truth(&w, q).await?;
        let plan = df_err(async { w.ctx.sql(q.1).await?.create_physical_plan().await }.await, "plan")?;
        let cancel = Arc::new(Notify::new());
        let late = Arc::new(AtomicUsize::new(0));
        if how == How::Message {
            let (c, n, l) = (ch.clone(), cancel.clone(), late.clone());
            w.cluster.net.set_policy(move |ev: &Ev| match choose(&c, 3, |x| format!("{}:{}", ev.short(), ["go", "drop", "drop, late"][x])) {
                0 => Decision::Go,
                1 => {
                    n.notify_one();
                    Decision::Go
                }
                _ => {
                    n.notify_one();
                    l.fetch_add(1, SeqCst);
                    Decision::Delay(Duration::from_secs(1))
                }
            });
        }
        let ran = AssertUnwindSafe(async {
            let mut st = match execute_stream(plan, w.ctx.task_ctx()) {
                Ok(st) => st,
                Err(e) => return Ok(("failed", e.to_string())),
            };
            let patience = if how == How::Stall { 60 } else { HORIZON_SECS };
            let mut n = 0;
            loop {
                if how == How::Batches && choose(ch, 2, |c| if c == 0 { "read".into() } else { format!("drop after {n}") }) == 1 {
                    return Ok(("dropped", n.to_string()));
                }
                let next = tokio::select! {
                    biased;
                    _ = cancel.notified() => return Ok(("dropped", n.to_string())),
                    x = rt::vtimeout(patience, st.next()) => x,
                };
                match next {
                    Err(()) if how == How::Stall && ch.lock().unwrap().deviated() => return Ok(("dropped", format!("stalled after {n}"))),
                    Err(()) => return viol("hang", format!("{} hangs", q.1)),
                    Ok(None) => return Ok(("ended", n.to_string())),
                    Ok(Some(Err(e))) => return Ok(("failed", e.to_string())),
                    Ok(Some(Ok(_))) => n += 1,
                }
            }
        })
        .catch_unwind()
        .await;
        let end = match ran {
            Ok(r) => r?,
            Err(_) if w.fired() > 0 => ("failed", "panic".to_string()),
            Err(_) => return viol("panic", format!("the client panicked: {}", take_last_panic().unwrap_or_default())),
        };
        armed.store(false, SeqCst);
        // "Soon": well below the minutes after which entries would expire by themselves.
        tokio::time::sleep(Duration::from_secs(30)).await;
        let what = || {
            let g = ch.lock().unwrap();
            let l: Vec<&String> = g.labels.iter().zip(&g.trace).filter(|x| x.1.1 > 0).map(|x| x.0).collect();
            format!("after {} {} ({}; {l:?})", q.1, end.0, end.1)
        };
        // Lets the workers' task caches apply what is pending in them.
        w.cluster.tasks_running().await;
        let log = w.cluster.net.log();
        let dead: Vec<bool> = w.cluster.urls.iter().map(|u| w.cluster.net.is_dead(u)).collect();
        if w.live() > 0 {
            let l: Vec<_> = w.tables.iter().filter(|t| t.1.live() > 0).map(|t| (t.0, t.1.live())).collect();
            return viol("stream-leak", format!("{} leaf streams are still alive: {l:?}", what()));
        }
        if w.reserved() > 0 {
            return viol("memory-leak", format!("{} {} bytes are still reserved", what(), w.reserved()));
        }
        if !dead.contains(&true) {
            let running = w.cluster.tasks_running().await;
            let ok = excused(&log, o.tr, late.load(SeqCst) > 0);
            let lost = hit.load(SeqCst) > 0;
            if running > ok && !lost || running > log.iter().map(|e| (e.stage, e.task)).collect::<std::collections::BTreeSet<_>>().len() {
                if std::env::var("MC_LOG").is_ok() {
                    log.iter().for_each(|e| eprintln!("{}", e.short()));
                }
                return viol("task-leak", format!("{} {running} tasks are still registered ({ok} excused)", what()));
            }
            // Another query, on the same session.
            w.cluster.net.clear_policy();
            w.cluster.net.set_frames(|_, _| Frame::Go);
            if fault != Fault::Session && fault != Fault::Leaf {
                let again = df_err(async { w.ctx.sql(q.1).await?.create_physical_plan().await }.await, "plan")?;
                match run_to_end(&w.ctx, again).await {
                    Outcome::Rows(got) if answers(q, &got, &exp) => {}
                    Outcome::Rows(got) => return viol("next-query", format!("{} the query answers {:?} instead of {exp:?}", what(), canon(q.0, &got))),
                    Outcome::Err(e, _) => return viol("next-query", format!("{} the query fails: {e}", what())),
                    Outcome::Hang(_) => return viol("next-query", format!("{} the query hangs", what())),
                }
                tokio::time::sleep(Duration::from_secs(30)).await;
                let running2 = w.cluster.tasks_running().await;
                if w.live() > 0 || w.reserved() > 0 || running2 > running {
                    return viol("next-query-leak", format!("{} another query leaves {} streams, {} bytes, {running2} tasks", what(), w.live(), w.reserved()));
                }
            }
        }
        Ok(Obs {
            outcome: format!("{} {}", end.0, if end.0 == "failed" { "" } else { &end.1 }),
            nontrivial: end.0 != "ended",
            steps: log.len() as u64,
            ..Default::default()
        })
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let mut hows = vec![How::Batches, How::Message, How::Stall];
    hows.extend(FAULTS.map(How::Fault));
    let mut add = |o: Setup, hows: &[How], b: usize, every: usize| {
        for (i, q) in QUERIES.iter().enumerate() {
            for (j, h) in hows.iter().enumerate() {
                if (i + j) % every != 0 || (*h == How::Fault(Fault::Frame) && o.tr != Transport::Grpc) {
                    continue;
                }
                let (q, h) = (*q, *h);
                v.push(case(format!("{h:?}/{}/{}/b{b}", q.0, o.short()), b, move |ch| one(o, q, h, ch)));
            }
        }
    };
    for dynamic in [false, true] {
        for tr in [Transport::Direct, Transport::Grpc] {
            add(Setup { dynamic, tr, ..SETUP }, &hows[..3], 1, 1);
            add(Setup { dynamic, tr, ..SETUP }, &hows[3..], 1, if thorough { 1 } else { 4 });
            if thorough {
                for (broadcast, metrics, batch, workers, parts) in
                    [(false, true, 2, 3, 2), (true, false, 2, 3, 2), (true, true, 1, 3, 2), (true, true, 2, 2, 3), (true, true, 2, 5, 1)]
                {
                    add(Setup { dynamic, tr, broadcast, metrics, batch, workers, parts, ..SETUP }, &hows, 1, 1);
                }
                let small = Setup { dynamic, tr, workers: 2, parts: 1, batch: 8, ..SETUP };
                add(small, &hows[3..], 2, 1);
            } else {
                add(Setup { dynamic, tr, broadcast: false, metrics: false, batch: 1, workers: 2, ..SETUP }, &hows, 1, 8);
            }
        }
    }
    v
}
