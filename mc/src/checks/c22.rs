//! C22: queries that run at the same time on the same workers do not affect each other.
use super::Check;
use super::c15::Custom;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::scen::*;
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::{ExecutionPlan, execute_stream};
use datafusion_distributed::*;
use futures::{FutureExt, StreamExt};
use http::{HeaderMap, HeaderValue};
use std::collections::BTreeMap;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::Notify;

pub fn check() -> Check {
    Check {
        id: "C22",
        level: "model_checking",
        rule: "case = (two queries of two clients with different data, settings and headers, how the second fares, planner mode, transport); the second starts together with the first while any message may be late, or at any message of the first, and is dropped at any message, fails or runs to its end; Twin = the second is the same query of the same client, planned again; Again = a physical plan is executed a second time, after or during the first execution; non-trivial = both queries ran at the same time",
        assumptions: &["a physical plan that is executed while it is already being executed may be refused with an error", "bounds: see case ids"],
        cases,
    }
}

type Query = (&'static str, &'static str, Cut);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Other {
    /// Runs to its end.
    Full,
    /// Is the same query of the same client, planned again; runs to its end.
    Twin,
    /// Dropped at some message.
    Drop,
    /// A leaf fails.
    Leaf,
    /// Workers cannot build its sessions.
    Session,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Start {
    /// Together; any message may be late.
    Once,
    /// At any message of the first.
    During,
}

/// Collects what tasks see that do not belong together.
type Mixed = Arc<Mutex<Vec<String>>>;

fn hook(mixed: Mixed, fail: Option<Ch>, failed: Arc<AtomicBool>) -> StateHook {
    Arc::new(move |b: SessionStateBuilder, h: &HeaderMap| {
        let b = b.with_distributed_option_extension_from_headers::<Custom>(h)?;
        let who = h.get("x-who").and_then(|v| v.to_str().ok()).unwrap_or("").to_string();
        if who == "b"
            && let Some(ch) = &fail
            && choose(ch, 2, |c| format!("session {}", if c == 0 { "ok" } else { "fails" })) == 1
        {
            failed.store(true, SeqCst);
            return Err(datafusion::common::exec_datafusion_err!("boom-session"));
        }
        let m = mixed.clone();
        Ok(b.with_distributed_worker_plan_rewrite_handler(move |ev: WorkerPlanRewriteEvent<'_>| {
            let foo = ev.session_config.options().extensions.get::<Custom>().map(|c| c.foo.clone()).unwrap_or_default();
            if foo != who {
                m.lock().unwrap().push(format!("a task with the headers of {who:?} has the settings of {foo:?}"));
            }
            Ok(WorkerPlanRewriteEventResponse::new(ev.plan))
        }))
    })
}

fn client(who: &'static str) -> impl FnOnce(SessionStateBuilder) -> SessionStateBuilder {
    move |b| {
        let mut h = HeaderMap::new();
        h.insert("x-who", HeaderValue::from_static(who));
        b.with_distributed_option_extension(Custom { foo: who.into(), ..Default::default() }).with_distributed_passthrough_headers(h).unwrap()
    }
}

fn watch(w: &World, who: &'static str, mixed: &Mixed) {
    for (name, t) in &w.tables {
        if name.is_empty() {
            continue;
        }
        let m = mixed.clone();
        *t.0.on_open.lock().unwrap() = Some(Box::new(move |ctx, s| {
            let foo = ctx.session_config().options().extensions.get::<Custom>().map(|c| c.foo.clone()).unwrap_or_default();
            if foo != who {
                m.lock().unwrap().push(format!("leaf of {who:?} (task {} of {}) ran with the settings of {foo:?}", s.task, s.tasks));
            }
        }));
    }
}

/// Rows that every operator has put out.
async fn rows_out(plan: &Arc<dyn ExecutionPlan>) -> std::result::Result<BTreeMap<String, usize>, Viol> {
    let p = match rt::vtimeout(HORIZON_SECS, rewrite_distributed_plan_with_metrics(plan.clone(), DistributedMetricsFormat::PerTask)).await {
        Err(()) => return viol("metrics-hang", "waiting for the metrics hangs"),
        Ok(r) => df_err(r, "metrics")?,
    };
    let mut m = BTreeMap::new();
    for (i, _, p) in super::c10::stages(&p) {
        super::c10::entries(&p, "", true, &mut |path, _, set| {
            for x in set.iter() {
                if let datafusion::physical_plan::metrics::MetricValue::OutputRows(n) = x.value() {
                    let l: Vec<String> = x.labels().iter().map(|l| l.to_string()).collect();
                    *m.entry(format!("{i}: {path} {l:?} {:?}", x.partition())).or_default() += n.value();
                }
            }
        });
    }
    Ok(m)
}

async fn plan(w: &World, q: Query) -> std::result::Result<Arc<dyn ExecutionPlan>, Viol> {
    df_err(async { w.ctx.sql(q.1).await?.create_physical_plan().await }.await, "plan")
}

async fn single(w: &World, q: Query) -> std::result::Result<Vec<String>, Viol> {
    Ok(canon(q.0, &df_err(async { w.one.sql(q.1).await?.collect().await }.await, "single-node")?))
}

/// The operators of these put out as many rows in whatever order things happen.
fn steady(q: Query) -> bool {
    q.2 == Cut::No && !matches!(q.0, "top" | "limits" | "empty" | "semi")
}

fn pair(o: Setup, qa: Query, qb: Query, other: Other, start: Start, ch: &Ch) -> RunResult {
    rt::sim(async {
        let mixed = Mixed::default();
        let failed = Arc::new(AtomicBool::new(false));
        let h = hook(mixed.clone(), (other == Other::Session).then(|| ch.clone()), failed.clone());
        let a = world_with(o, None, Some(h), client("a"));
        let fault = (other == Other::Leaf).then(|| chosen_faults(ch));
        let b = world_on(a.cluster.clone(), o, fault, 1000, client("b"));
        watch(&a, "a", &mixed);
        watch(&b, "b", &mixed);
        let wb = if other == Other::Twin { &a } else { &b };
        let (xa, xb) = (single(&a, qa).await?, single(wb, qb).await?);
        let check_rows = !o.dynamic && o.metrics && steady(qa) && start == Start::During;
        let alone = match check_rows {
            true => {
                let p = plan(&a, qa).await?;
                let _ = run_to_end(&a.ctx, p.clone()).await;
                Some(rows_out(&p).await?)
            }
            false => None,
        };
        let (pa, pb) = (plan(&a, qa).await?, plan(wb, qb).await?);
        let (go, stop) = (Arc::new(Notify::new()), Arc::new(Notify::new()));
        let begun = Arc::new(AtomicBool::new(start == Start::Once));
        let (c, g, s, bg) = (ch.clone(), go.clone(), stop.clone(), begun.clone());
        if start == Start::Once {
            go.notify_one();
        }
        a.cluster.net.set_policy(move |ev: &Ev| {
            if !bg.load(SeqCst) {
                if choose(&c, 2, |x| format!("{}{}", ev.short(), ["", ": the other starts"][x])) == 1 {
                    bg.store(true, SeqCst);
                    g.notify_one();
                }
            } else if other == Other::Drop {
                if choose(&c, 2, |x| format!("{}{}", ev.short(), ["", ": the other is dropped"][x])) == 1 {
                    s.notify_one();
                }
            } else if matches!(other, Other::Full | Other::Twin) && start == Start::Once && choose(&c, 2, |x| format!("{}{}", ev.short(), ["", ": late"][x])) == 1 {
                return Decision::Delay(Duration::from_secs(1));
            }
            Decision::Go
        });
        let ran_a = async {
            let r = AssertUnwindSafe(run_to_end(&a.ctx, pa.clone())).catch_unwind().await;
            // Nothing more to start after.
            let during = begun.swap(true, SeqCst);
            go.notify_one();
            (r, during)
        };
        let ran_b = async {
            go.notified().await;
            let run = AssertUnwindSafe(run_to_end(&wb.ctx, pb.clone())).catch_unwind();
            tokio::select! {
                biased;
                _ = stop.notified() => None,
                r = run => Some(r),
            }
        };
        let ((ra, during), rb) = tokio::join!(ran_a, ran_b);
        let what = || {
            let g = ch.lock().unwrap();
            let l: Vec<&String> = g.labels.iter().zip(&g.trace).filter(|x| x.1.1 > 0).map(|x| x.0).collect();
            format!("{} with {} ({other:?}, {l:?})", qa.1, qb.1)
        };
        let judge = |name: &str, q: Query, r: std::thread::Result<Outcome>, exp: &[String], may_fail: bool| -> std::result::Result<&'static str, Viol> {
            match r {
                Err(_) if may_fail => Ok("panic"),
                Err(_) => viol("panic", format!("{}: {name} panicked: {}", what(), take_last_panic().unwrap_or_default())),
                Ok(Outcome::Hang(_)) => viol("hang", format!("{}: {name} hangs", what())),
                Ok(Outcome::Err(..)) if may_fail => Ok("failed"),
                Ok(Outcome::Err(e, _)) => viol("error", format!("{}: {name} failed: {e}", what())),
                Ok(Outcome::Rows(got)) if !answers(q, &got, exp) => viol("wrong-rows", format!("{}: {name} answers {:?}, expected {exp:?}", what(), canon(q.0, &got))),
                Ok(Outcome::Rows(_)) => Ok("rows"),
            }
        };
        judge("the first", qa, ra, &xa, false)?;
        let end = match rb {
            None => "dropped",
            Some(r) => judge("the other", qb, r, &xb, b.fired() > 0 || failed.load(SeqCst))?,
        };
        if let Some(m) = mixed.lock().unwrap().first() {
            return viol("mixed", format!("{}: {m}", what()));
        }
        if let Some(x) = alone {
            let got = rows_out(&pa).await?;
            if got != x {
                let d: Vec<_> = x.iter().filter(|(k, v)| got.get(*k) != Some(v)).map(|(k, v)| format!("{k}: {:?} instead of {v}", got.get(k))).collect();
                return viol("metrics", format!("{}: the row counts of the first differ: {d:?}", what()));
            }
        }
        Ok(Obs { outcome: format!("{end} {during}"), nontrivial: during, steps: a.cluster.net.log().len() as u64, ..Default::default() })
    })
}

/// The head stage contains a repartitioning, so that DataFusion itself executes it only once.
fn repartitions(p: &Arc<dyn ExecutionPlan>) -> bool {
    p.name() == "RepartitionExec" || !p.is_network_boundary() && p.children().into_iter().any(repartitions)
}

/// One physical plan is executed twice.
fn again(o: Setup, q: Query, ch: &Ch) -> RunResult {
    rt::sim(async {
        let w = world(o, None, |b| b);
        let exp = truth(&w, q).await?;
        let p = plan(&w, q).await?;
        let once = repartitions(&p);
        let go = Arc::new(Notify::new());
        let begun = Arc::new(AtomicBool::new(false));
        let (c, g, bg) = (ch.clone(), go.clone(), begun.clone());
        w.cluster.net.set_policy(move |ev: &Ev| {
            if !bg.load(SeqCst) && choose(&c, 2, |x| format!("{}{}", ev.short(), ["", ": again"][x])) == 1 {
                bg.store(true, SeqCst);
                g.notify_one();
            }
            Decision::Go
        });
        let first = async {
            let r = AssertUnwindSafe(run_to_end(&w.ctx, p.clone())).catch_unwind().await;
            let during = begun.swap(true, SeqCst);
            go.notify_one();
            (r, during)
        };
        let second = async {
            go.notified().await;
            AssertUnwindSafe(async {
                let mut got = vec![];
                let mut st = execute_stream(p.clone(), w.ctx.task_ctx()).map_err(|e| e.to_string())?;
                while let Some(b) = rt::vtimeout(HORIZON_SECS, st.next()).await.map_err(|_| "hang".to_string())? {
                    got.push(b.map_err(|e| e.to_string())?);
                }
                Ok::<_, String>(got)
            })
            .catch_unwind()
            .await
        };
        let ((r1, during), r2) = tokio::join!(first, second);
        let mut out = vec![];
        let r1 = r1.map(|r| match r {
            Outcome::Rows(r) => Ok(r),
            Outcome::Err(e, _) => Err(e),
            Outcome::Hang(_) => Err("hang".into()),
        });
        for (i, r) in [r1, r2].into_iter().enumerate() {
            let at = format!("{} executed twice ({}), execution {}", q.1, if during { "at the same time" } else { "in turn" }, i + 1);
            match r {
                // DataFusion's repartitioning hands out its partitions once.
                Err(_) if during || once && i == 1 => out.push("panic"),
                Err(_) => return viol("again-panic", format!("{at}: panic {}", take_last_panic().unwrap_or_default())),
                Ok(Err(e)) if e == "hang" => return viol("again-hang", at),
                Ok(Err(e)) => {
                    if !during && !(once && i == 1) {
                        return viol("again-error", format!("{at}: {e}"));
                    }
                    out.push("err");
                }
                Ok(Ok(got)) if !answers(q, &got, &exp) => return viol("again-rows", format!("{at}: {:?}, expected {exp:?}", canon(q.0, &got))),
                Ok(Ok(_)) => out.push("rows"),
            }
        }
        Ok(Obs { outcome: format!("{out:?} {during}"), nontrivial: during, steps: w.cluster.net.log().len() as u64, ..Default::default() })
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let mut k = 0;
    for dynamic in [false, true] {
        for tr in [Transport::Direct, Transport::Grpc] {
            let o = Setup { dynamic, tr, ..SETUP };
            for (i, qa) in QUERIES.into_iter().enumerate() {
                for (other, start, b) in [
                    (Other::Full, Start::During, 1),
                    (Other::Full, Start::Once, 1),
                    (Other::Drop, Start::Once, 1),
                    (Other::Leaf, Start::Once, 1),
                    (Other::Session, Start::Once, 1),
                    (Other::Drop, Start::During, 2),
                ] {
                    // The same query and some other one.
                    for j in [i, (i + 7) % QUERIES.len()] {
                        k += 1;
                        if !thorough && (k % 9 != 0 || b > 1) {
                            continue;
                        }
                        let qb = QUERIES[j];
                        v.push(case(format!("Pair/{other:?}/{start:?}/{}+{}/{}/b{b}", qa.0, qb.0, o.short()), b, move |ch| pair(o, qa, qb, other, start, ch)));
                    }
                }
                for (j, start) in [Start::During, Start::Once].into_iter().enumerate() {
                    if thorough || (i + j + dynamic as usize + 2 * (tr as usize)) % 4 == 0 {
                        v.push(case(format!("Pair/Twin/{start:?}/{}/{}", qa.0, o.short()), 1, move |ch| pair(o, qa, qa, Other::Twin, start, ch)));
                    }
                }
                if !thorough && (i + tr as usize) % 2 == 0 {
                    continue;
                }
                v.push(case(format!("Again/{}/{}", qa.0, o.short()), 1, move |ch| again(o, qa, ch)));
            }
        }
    }
    v
}
