//! C20: metrics survive the wire, and merge the same way whatever the order and grouping.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::vexec::*;
use crate::vtable::*;
use datafusion::physical_plan::metrics::*;
use datafusion::physical_plan::{ExecutionPlan, Metric};
use datafusion_distributed::*;
use std::borrow::Cow;
use std::sync::Arc;
use std::time::Duration;

pub fn check() -> Check {
    Check {
        id: "C20",
        level: "model_checking",
        rule: "wire: every kind of metric with every value, partition, name and label of a domain is recorded by an operator on a worker and must reach the client's plan unchanged; tasks: every combination of recordings of three tasks, merged by the client for all tasks and per task, as metrics and as text; merge: every permutation and every grouping of up to four recordings; the expected value is computed from the recordings; non-trivial = something was recorded",
        assumptions: &["percentiles are estimates: within 1.1% of a recorded value of that rank", "sums stay within 64 bits"],
        cases,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    OutputRows,
    ElapsedCompute,
    SpillCount,
    SpilledBytes,
    OutputBytes,
    OutputBatches,
    SpilledRows,
    CurrentMemory,
    Count,
    Gauge,
    Peak,
    Time,
    Start,
    End,
    Pruning,
    RatioAdd,
    RatioSetTotal,
    RatioSetPart,
    RatioPlain,
    Min,
    Max,
    Avg,
    First,
    P50,
    P75,
    P95,
    P99,
    Bytes,
    MaxGauge,
}
use K::*;

const KINDS: [K; 29] = [
    OutputRows, ElapsedCompute, SpillCount, SpilledBytes, OutputBytes, OutputBatches, SpilledRows, CurrentMemory, Count, Gauge, Peak, Time, Start, End,
    Pruning, RatioAdd, RatioSetTotal, RatioSetPart, RatioPlain, Min, Max, Avg, First, P50, P75, P95, P99, Bytes, MaxGauge,
];

/// The name by which this kind is registered when it does not determine its name itself.
fn make(k: K, name: &str, rec: &[u64]) -> MetricValue {
    let name: Cow<'static, str> = name.to_string().into();
    let count = || {
        let c = datafusion::physical_plan::metrics::Count::new();
        rec.iter().for_each(|v| c.add(*v as usize));
        c
    };
    let gauge = || {
        let c = datafusion::physical_plan::metrics::Gauge::new();
        rec.iter().for_each(|v| c.add(*v as usize));
        c
    };
    let time = || {
        let c = datafusion::physical_plan::metrics::Time::new();
        rec.iter().for_each(|v| c.add_duration(Duration::from_nanos(*v)));
        c
    };
    let stamp = |pick: fn(&[u64]) -> Option<u64>| {
        let c = Timestamp::new();
        if let Some(v) = pick(rec) {
            c.set(chrono::DateTime::from_timestamp_nanos(v as i64));
        }
        c
    };
    let ratio = |s: RatioMergeStrategy, raw: bool| {
        let r = RatioMetrics::new().with_merge_strategy(s).with_display_raw_values(raw);
        rec.iter().for_each(|v| {
            r.add_part(*v as usize / 2);
            r.add_total(*v as usize);
        });
        r
    };
    macro_rules! custom {
        ($t:ty, $add:ident) => {{
            let m = <$t>::default();
            rec.iter().for_each(|v| drop(m.$add(*v as usize)));
            MetricValue::Custom { name, value: Arc::new(m) }
        }};
    }
    match k {
        OutputRows => MetricValue::OutputRows(count()),
        ElapsedCompute => MetricValue::ElapsedCompute(time()),
        SpillCount => MetricValue::SpillCount(count()),
        SpilledBytes => MetricValue::SpilledBytes(count()),
        OutputBytes => MetricValue::OutputBytes(count()),
        OutputBatches => MetricValue::OutputBatches(count()),
        SpilledRows => MetricValue::SpilledRows(count()),
        CurrentMemory => MetricValue::CurrentMemoryUsage(gauge()),
        K::Count => MetricValue::Count { name, count: count() },
        K::Gauge => MetricValue::Gauge { name, gauge: gauge() },
        Peak => MetricValue::PeakMemoryUsage { name, gauge: gauge() },
        K::Time => MetricValue::Time { name, time: time() },
        Start => MetricValue::StartTimestamp(stamp(|r| r.iter().min().copied())),
        End => MetricValue::EndTimestamp(stamp(|r| r.iter().max().copied())),
        Pruning => {
            let p = PruningMetrics::new();
            rec.iter().for_each(|v| {
                p.add_pruned(*v as usize);
                p.add_matched(*v as usize / 2);
                p.add_fully_matched(*v as usize / 3);
            });
            MetricValue::PruningMetrics { name, pruning_metrics: p }
        }
        RatioAdd => MetricValue::Ratio { name, ratio_metrics: ratio(RatioMergeStrategy::AddPartAddTotal, true) },
        RatioSetTotal => MetricValue::Ratio { name, ratio_metrics: ratio(RatioMergeStrategy::AddPartSetTotal, true) },
        RatioSetPart => MetricValue::Ratio { name, ratio_metrics: ratio(RatioMergeStrategy::SetPartAddTotal, true) },
        RatioPlain => MetricValue::Ratio { name, ratio_metrics: ratio(RatioMergeStrategy::AddPartAddTotal, false) },
        Min => custom!(MinLatencyMetric, add_nanos),
        Max => custom!(MaxLatencyMetric, add_nanos),
        Avg => custom!(AvgLatencyMetric, add_nanos),
        First => custom!(FirstLatencyMetric, add_nanos),
        P50 => custom!(P50LatencyMetric, add_nanos),
        P75 => custom!(P75LatencyMetric, add_nanos),
        P95 => custom!(P95LatencyMetric, add_nanos),
        P99 => custom!(P99LatencyMetric, add_nanos),
        Bytes => custom!(BytesCounterMetric, add_bytes),
        MaxGauge => custom!(MaxGaugeMetric, set_max),
    }
}

/// Everything there is to know about a value.
fn raw(v: &MetricValue) -> String {
    let n = v.name();
    match v {
        MetricValue::PruningMetrics { pruning_metrics: p, .. } => format!("pruning {n} {} {} {}", p.pruned(), p.matched(), p.fully_matched()),
        MetricValue::Ratio { ratio_metrics: r, .. } => format!("ratio {n} {}/{} {:?} {}", r.part(), r.total(), r.merge_strategy(), r.display_raw_values()),
        MetricValue::StartTimestamp(t) => format!("start {:?}", t.value()),
        MetricValue::EndTimestamp(t) => format!("end {:?}", t.value()),
        MetricValue::OutputRows(c) => format!("rows {}", c.value()),
        MetricValue::ElapsedCompute(c) => format!("compute {}", c.value()),
        MetricValue::SpillCount(c) => format!("spills {}", c.value()),
        MetricValue::SpilledBytes(c) => format!("spilled {}", c.value()),
        MetricValue::OutputBytes(c) => format!("bytes {}", c.value()),
        MetricValue::OutputBatches(c) => format!("batches {}", c.value()),
        MetricValue::SpilledRows(c) => format!("srows {}", c.value()),
        MetricValue::CurrentMemoryUsage(c) => format!("mem {}", c.value()),
        MetricValue::Count { count, .. } => format!("count {n} {}", count.value()),
        MetricValue::Gauge { gauge, .. } => format!("gauge {n} {}", gauge.value()),
        MetricValue::PeakMemoryUsage { gauge, .. } => format!("peak {n} {}", gauge.value()),
        MetricValue::Time { time, .. } => format!("time {n} {}", time.value()),
        MetricValue::Custom { value, .. } => {
            let a = value.as_any();
            macro_rules! pct {
                ($($t:ty),*) => {
                    $(if let Some(p) = a.downcast_ref::<$t>() {
                        return format!("{} {n} {} {} {:?}", stringify!($t), p.count(), p.value(), p.serialize_sketch().unwrap());
                    })*
                };
            }
            pct!(P50LatencyMetric, P75LatencyMetric, P95LatencyMetric, P99LatencyMetric);
            macro_rules! simple {
                ($($t:ty),*) => { $(if let Some(p) = a.downcast_ref::<$t>() { return format!("{} {n} {}", stringify!($t), p.value()); })* };
            }
            if let Some(p) = a.downcast_ref::<AvgLatencyMetric>() {
                return format!("avg {n} {}/{}", p.nanos_sum(), p.count());
            }
            simple!(MinLatencyMetric, MaxLatencyMetric, FirstLatencyMetric, BytesCounterMetric, MaxGaugeMetric);
            format!("unknown {n} {value}")
        }
    }
}

/// What the merge of recordings must show; several answers where the order decides.
fn expect(k: K, tasks: &[Vec<u64>], v: &MetricValue) -> std::result::Result<(), String> {
    let all: Vec<u64> = tasks.concat();
    // Latencies and times count at least one nanosecond.
    let ns: Vec<u64> = all.iter().map(|v| (*v).max(1)).collect();
    let one = |want: u64, got: usize| if want as usize == got { Ok(()) } else { Err(format!("{k:?} of {tasks:?} is {got}, not {want}")) };
    let num = |got: usize| -> std::result::Result<(), String> {
        match k {
            Min => one(ns.iter().min().copied().unwrap_or(u64::MAX), got),
            Max => one(ns.iter().max().copied().unwrap_or(0), got),
            Avg => one(ns.iter().sum::<u64>() / ns.len().max(1) as u64, got),
            MaxGauge => one(all.iter().max().copied().unwrap_or(0), got),
            Bytes => one(all.iter().sum(), got),
            First => {
                let firsts: Vec<usize> = tasks.iter().filter_map(|t| t.first()).map(|v| (*v).max(1) as usize).collect();
                if firsts.contains(&got) || firsts.is_empty() && got == 0 { Ok(()) } else { Err(format!("First of {tasks:?} is {got}")) }
            }
            P50 | P75 | P95 | P99 => {
                let q = match k {
                    P50 => 0.5,
                    P75 => 0.75,
                    P95 => 0.95,
                    _ => 0.99,
                };
                let mut s = all.clone();
                s.sort();
                if s.is_empty() {
                    return one(0, got);
                }
                let r = q * (s.len() - 1) as f64;
                let near = |v: u64| (got as f64 - v as f64).abs() <= v as f64 * 0.011 + 1.0;
                if near(s[r.floor() as usize]) || near(s[r.ceil() as usize]) { Ok(()) } else { Err(format!("{k:?} of {s:?} is {got}")) }
            }
            _ => unreachable!(),
        }
    };
    match v {
        MetricValue::OutputRows(c) | MetricValue::SpillCount(c) | MetricValue::SpilledBytes(c) | MetricValue::OutputBytes(c) | MetricValue::OutputBatches(c)
        | MetricValue::SpilledRows(c) => one(all.iter().sum(), c.value()),
        MetricValue::Count { count, .. } => one(all.iter().sum(), count.value()),
        MetricValue::CurrentMemoryUsage(gauge) | MetricValue::Gauge { gauge, .. } | MetricValue::PeakMemoryUsage { gauge, .. } => one(all.iter().sum(), gauge.value()),
        MetricValue::ElapsedCompute(time) | MetricValue::Time { time, .. } => {
            // DataFusion counts a nanosecond whenever it merges a time that was never recorded.
            let sum = ns.iter().sum::<u64>() as usize;
            if (sum..=sum + 2 * tasks.len() + 2).contains(&time.value()) { Ok(()) } else { one(sum as u64, time.value()) }
        }
        MetricValue::StartTimestamp(t) => {
            let want = all.iter().min().map(|v| chrono::DateTime::from_timestamp_nanos(*v as i64));
            if t.value() == want { Ok(()) } else { Err(format!("start of {tasks:?} is {t}")) }
        }
        MetricValue::EndTimestamp(t) => {
            let want = all.iter().max().map(|v| chrono::DateTime::from_timestamp_nanos(*v as i64));
            if t.value() == want { Ok(()) } else { Err(format!("end of {tasks:?} is {t}")) }
        }
        MetricValue::PruningMetrics { pruning_metrics: p, .. } => {
            one(all.iter().sum(), p.pruned())?;
            one(all.iter().map(|v| v / 2).sum(), p.matched())?;
            one(all.iter().map(|v| v / 3).sum(), p.fully_matched())
        }
        MetricValue::Ratio { ratio_metrics: r, .. } => {
            let part = |t: &[u64]| t.iter().map(|v| v / 2).sum::<u64>() as usize;
            let total = |t: &[u64]| t.iter().sum::<u64>() as usize;
            let (p, t) = (part(&all), total(&all));
            let ok = match k {
                RatioSetTotal => r.part() == p && tasks.iter().any(|x| total(x) == r.total()),
                RatioSetPart => r.total() == t && tasks.iter().any(|x| part(x) == r.part()),
                _ => (r.part(), r.total()) == (p, t),
            };
            if ok && r.display_raw_values() == (k != RatioPlain) { Ok(()) } else { Err(format!("{k:?} of {tasks:?} is {r} ({}/{})", r.part(), r.total())) }
        }
        MetricValue::Custom { value, .. } => num(value.as_usize()),
    }
}

fn named(k: K) -> String {
    format!("m_{k:?}").to_lowercase()
}

async fn run(tr: Transport, tasks: usize, f: impl Fn(Slot) -> Vec<Metric> + Send + Sync + 'static, format: DistributedMetricsFormat) -> std::result::Result<(Arc<dyn ExecutionPlan>, String), Viol> {
    let cluster = Cluster::new(tasks.max(2), tr);
    let src = SrcBuilder::new(kv_schema(), |s| if s.part == 0 { vec![Item::Batch(kv_batch(&[(Some(1), s.task as i64)]))] } else { vec![] }).build();
    *src.0.extra_metrics.lock().unwrap() = Some(Box::new(move |s: Slot| if s.part == 0 { f(s) } else { vec![] }));
    let urls = cluster.urls.clone();
    let ctx = cluster.session(cfg(2), |b| {
        b.with_distributed_route_tasks_handler(fixed_routing(urls))
            .with_distributed_desired_task_count_handler(tag_task_counts)
            .with_distributed_metrics_collection(true)
            .unwrap()
    });
    ctx.register_table("t", Arc::new(VTable { src: src.0.clone(), parts: 2, tag: format!("d{tasks}") })).unwrap();
    let plan = df_err(async { ctx.sql("SELECT * FROM t").await?.create_physical_plan().await }.await, "plan")?;
    match run_to_end(&ctx, plan.clone()).await {
        Outcome::Rows(_) => {}
        Outcome::Err(e, _) => return viol("query", e),
        Outcome::Hang(_) => return viol("query", "hangs"),
    }
    let text = match rt::vtimeout(HORIZON_SECS, explain_analyze(plan.clone(), format)).await {
        Ok(t) => df_err(t, "explain")?,
        Err(()) => return viol("metrics-never-arrive", "waiting for the metrics never ends"),
    };
    let r = df_err(rewrite_distributed_plan_with_metrics(plan, format).await, "rewrite")?;
    fn leaf(p: &Arc<dyn ExecutionPlan>) -> Option<Arc<dyn ExecutionPlan>> {
        if p.downcast_ref::<VExec>().is_some() {
            return Some(p.clone());
        }
        if let Some(b) = p.as_network_boundary() {
            return b.input_stage().local_plan().and_then(leaf);
        }
        p.children().into_iter().find_map(leaf)
    }
    if std::env::var("MC_PLAN").is_ok() {
        println!("{}", display_plan_ascii(r.as_ref(), true));
    }
    match leaf(&r) {
        Some(l) => Ok((l, text)),
        None => viol("no-leaf", format!("no leaf in\n{}", display_plan_ascii(r.as_ref(), true))),
    }
}

fn task_of(m: &Metric) -> Option<usize> {
    m.labels().iter().find(|l| l.name() == DISTRIBUTED_DATAFUSION_TASK_ID_LABEL).and_then(|l| l.value().parse().ok())
}

/// All metrics of this kind reach the client as they were recorded.
fn wire(k: K, tr: Transport) -> RunResult {
    let mut recs: Vec<Vec<u64>> = vec![vec![], vec![3, 1, 2], vec![1000, 1]];
    recs.extend([0u64, 1, 2, 999, 1 << 20, u32::MAX as u64, i64::MAX as u64].map(|v| vec![v]));
    if !matches!(k, Start | End | P50 | P75 | P95 | P99 | Pruning) {
        recs.push(vec![u64::MAX - 1]);
    }
    let labels: [Vec<(&'static str, &'static str)>; 4] = [vec![], vec![("a", "b")], vec![("filename", "x=y, z"), ("filename", "")], vec![("é", "{}")]];
    let parts = [None, Some(0), Some(7), Some(u32::MAX as usize + 1)];
    let names = ["n", "", "two words", "ü=1, {2}"];
    let mk = {
        let recs = recs.clone();
        move |s: Slot| {
            let mut v = vec![];
            for (i, r) in recs.iter().enumerate() {
                for (j, l) in labels.iter().enumerate() {
                    let l = l.iter().map(|(a, b)| Label::new(*a, *b)).collect();
                    v.push(Metric::new_with_labels(make(k, names[(i + j + s.task) % names.len()], r), parts[(i + j) % 4], l));
                }
            }
            v
        }
    };
    rt::sim(async {
        let mut steps = 0;
        let (l, _) = run(tr, 2, mk.clone(), DistributedMetricsFormat::PerTask).await?;
        let ms = l.metrics().unwrap_or_default();
        for task in 0..2 {
            let slot = Slot { task, tasks: 2, part: 0, parts: 1 };
            let show = |v: &MetricValue, p: Option<usize>, l: &[Label]| {
                let l: Vec<String> = l.iter().filter(|l| l.name() != DISTRIBUTED_DATAFUSION_TASK_ID_LABEL).map(|l| format!("{}={}", l.name(), l.value())).collect();
                format!("{} {p:?} {l:?}", raw(v))
            };
            let want: Vec<String> = mk(slot).iter().map(|m| show(m.value(), m.partition(), m.labels())).collect();
            // Besides the operator's own count of rows.
            let got: Vec<String> = ms.iter().filter(|m| task_of(m) == Some(task)).map(|m| show(m.value(), m.partition(), m.labels())).filter(|s| k == OutputRows || !s.starts_with("rows")).collect();
            let got = if k == OutputRows { got[..got.len().min(want.len())].to_vec() } else { got };
            steps += want.len() as u64;
            if let Some(i) = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)) {
                return viol(&format!("wire-{k:?}"), format!("task {task}: recorded {:?}, reported {:?} ({} recorded, {} reported)", want.get(i), got.get(i), want.len(), got.len()));
            }
        }
        Ok(Obs { outcome: format!("{k:?} {steps}"), steps, nontrivial: true, ..Default::default() })
    })
}

fn combos(n: usize, d: &[Vec<u64>]) -> Vec<Vec<Vec<u64>>> {
    (0..d.len().pow(n as u32)).map(|mut x| (0..n).map(|_| { let r = d[x % d.len()].clone(); x /= d.len(); r }).collect()).collect()
}

fn tasks(tr: Transport, recs: Vec<Vec<u64>>) -> RunResult {
    rt::sim(async {
        let n = recs.len();
        let mk = {
            let recs = recs.clone();
            move |s: Slot| {
                // What a task records is spread over partitions.
                KINDS
                    .iter()
                    .filter(|k| **k != OutputRows)
                    .flat_map(|k| {
                        let r = &recs[s.task];
                        let h = if matches!(k, RatioSetPart | RatioSetTotal | First) { r.len() } else { r.len() / 2 };
                        [Metric::new(make(*k, &named(*k), &r[..h]), Some(0)), Metric::new(make(*k, &named(*k), &r[h..]), Some(1))].into_iter().take(if h < r.len() { 2 } else { 1 })
                    })
                    .collect()
            }
        };
        let find = |set: &MetricsSet, k: K| -> std::result::Result<MetricValue, Viol> {
            let want = make(k, &named(k), &[]);
            let v: Vec<MetricValue> = set.aggregate_by_name().iter().map(|m| m.value().clone()).filter(|v| v.name() == want.name()).collect();
            if v.len() != 1 {
                return viol("missing", format!("{k:?} is reported {} times", v.len()));
            }
            Ok(v[0].clone())
        };
        // "name=" or "name={" must be followed by this text.
        let shown = |text: &str, k: K, val: &str| -> RunResult {
            let pat = format!("{}={val}", make(k, &named(k), &[]).name());
            let line = text.lines().find(|l| l.contains("VExec")).unwrap_or("");
            match line.match_indices(&pat).any(|(i, _)| (line[..i].ends_with([' ', '[']) ) && line[i + pat.len()..].starts_with([',', ']'])) {
                true => Ok(Obs::default()),
                false => viol(&format!("text-{k:?}"), format!("no {pat:?} in {line}")),
            }
        };
        let (l, text) = run(tr, n, mk.clone(), DistributedMetricsFormat::Aggregated).await?;
        let ms = l.metrics().unwrap_or_default();
        let skip = |k: K| k == OutputRows;
        for k in KINDS {
            if skip(k) {
                continue;
            }
            let v = find(&ms, k)?;
            if let Err(e) = expect(k, &recs, &v) {
                return viol(&format!("all-{k:?}"), e);
            }
            if !matches!(k, Start | End) {
                shown(&text, k, &v.to_string())?;
            }
        }
        let (l, text) = run(tr, n, mk, DistributedMetricsFormat::PerTask).await?;
        let ms = l.metrics().unwrap_or_default();
        for k in KINDS {
            if skip(k) {
                continue;
            }
            let mut parts = vec![];
            for (t, rec) in recs.iter().enumerate() {
                let mut set = MetricsSet::new();
                ms.iter().filter(|m| task_of(m) == Some(t)).for_each(|m| set.push(m.clone()));
                let v = find(&set, k)?;
                if let Err(e) = expect(k, std::slice::from_ref(rec), &v) {
                    return viol(&format!("task-{k:?}"), e);
                }
                parts.push(format!("{t}:{v}"));
            }
            if !matches!(k, Start | End) {
                shown(&text, k, &format!("{{{}}}", parts.join(", ")))?;
            }
        }
        Ok(Obs { outcome: format!("{recs:?}"), nontrivial: recs.iter().any(|r| !r.is_empty()), ..Default::default() })
    })
}

/// All groupings of the sequence, merged the way the library merges.
fn trees(v: &[Vec<u64>], k: K) -> Vec<Metric> {
    if v.len() == 1 {
        return vec![Metric::new(make(k, "m", &v[0]), Some(0))];
    }
    let mut out = vec![];
    for i in 1..v.len() {
        for a in trees(&v[..i], k) {
            for b in trees(&v[i..], k) {
                let mut s = MetricsSet::new();
                s.push(Arc::new(Metric::new(a.value().clone(), a.partition())));
                s.push(Arc::new(Metric::new(b.value().clone(), b.partition())));
                let v: Vec<_> = s.aggregate_by_name().iter().cloned().collect();
                out.push(Metric::new(v[0].value().clone(), None));
            }
        }
    }
    out
}

fn merge(k: K, recs: &[Vec<u64>]) -> RunResult {
    let n = recs.len();
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        orders = orders.into_iter().flat_map(|o| (0..n).filter(|i| !o.contains(i)).map(|i| { let mut o = o.clone(); o.push(i); o }).collect::<Vec<_>>()).collect();
    }
    let free = matches!(k, First | RatioSetPart | RatioSetTotal | K::Time | ElapsedCompute);
    let mut first: Option<String> = None;
    let mut steps = 0;
    for o in &orders {
        let seq: Vec<Vec<u64>> = o.iter().map(|i| recs[*i].clone()).collect();
        for m in trees(&seq, k) {
            steps += 1;
            if let Err(e) = expect(k, &seq, m.value()) {
                return viol(&format!("merge-{k:?}"), e);
            }
            if k == First {
                let want = seq.iter().flatten().next().map(|v| (*v).max(1)).unwrap_or(0);
                if m.value().as_usize() as u64 != want {
                    return viol("merge-First", format!("{seq:?} gives {}", m.value()));
                }
            }
            // The sketches of percentiles hold a floating-point sum of all values.
            let r = if matches!(k, P50 | P75 | P95 | P99) { m.value().as_usize().to_string() } else { raw(m.value()) };
            if !free && *first.get_or_insert(r.clone()) != r {
                return viol(&format!("order-{k:?}"), format!("{recs:?} merge to {first:?} and to {r} (order {o:?})"));
            }
        }
    }
    Ok(Obs { outcome: format!("{first:?}"), steps, nontrivial: recs.iter().any(|r| !r.is_empty()), ..Default::default() })
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for tr in [Transport::Direct, Transport::Grpc] {
        for k in KINDS {
            v.push(case(format!("wire/{tr:?}/{k:?}"), 0, move |_| wire(k, tr)));
        }
    }
    let d: Vec<Vec<u64>> = vec![vec![], vec![1], vec![4, 2], vec![5000, 7, 300]];
    for tr in [Transport::Direct, Transport::Grpc] {
        for n in 2..=if thorough { 5 } else { 3 } {
            for c in combos(n, &d) {
                v.push(case(format!("tasks/{tr:?}/{c:?}"), 0, move |_| tasks(tr, c.clone())));
            }
        }
    }
    let d: Vec<Vec<u64>> = vec![vec![], vec![0], vec![1], vec![6], vec![1000, 2], vec![3, 9, 1 << 30]];
    for k in KINDS {
        for n in 1..=if thorough { 5 } else { 4 } {
            for c in combos(n, &d) {
                if c.windows(2).all(|w| w[0] <= w[1]) {
                    v.push(case(format!("merge/{k:?}/{c:?}"), 0, move |_| merge(k, &c)));
                }
            }
        }
    }
    v
}
