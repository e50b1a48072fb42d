//! C15: workers run with the client's configuration, extensions and headers.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::vexec::*;
use crate::vtable::*;
use datafusion::common::config_err;
use datafusion::common::extensions_options;
use datafusion::common::{DataFusionError, Result};
use datafusion::config::{ConfigEntry, ConfigExtension, ExtensionOptions};
use datafusion::execution::SessionStateBuilder;
use datafusion::physical_plan::{ExecutionPlan, execute_stream};
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion_distributed::*;
use futures::{FutureExt, StreamExt};
use http::{HeaderMap, HeaderName, HeaderValue};
use std::collections::BTreeMap;
use std::panic::AssertUnwindSafe;
use std::str::FromStr;
use std::sync::{Arc, Mutex};

pub fn check() -> Check {
    Check {
        id: "C15",
        level: "model_checking",
        rule: "case = (extension, key, value | headers | malformed headers, transport, planner mode); the session of every task must see what the client's session sees; non-trivial = some task's session was compared",
        assumptions: &["values with control characters cannot be sent in a header: the query must fail", "general DataFusion options (datafusion.*) are the worker's own, as documented", "headers that gRPC itself owns (content-type, te, user-agent, grpc-*) are not compared"],
        cases,
    }
}

extensions_options! {
    pub struct Custom {
        pub foo: String, default = "dflt".to_string()
        pub bar: usize, default = 7
        pub baz: bool, default = false
        pub neg: u64, default = 3
        pub fl: f64, default = 0.5
        pub opt: Option<usize>, default = None
        pub optd: Option<usize>, default = Some(5)
        pub custom: String, default = "inner".to_string()
    }
}
impl ConfigExtension for Custom {
    const PREFIX: &'static str = "custom";
}

extensions_options! {
    /// Its name starts with that of another extension.
    pub struct Customer {
        pub foo: String, default = "customer".to_string()
        pub bar: usize, default = 1
    }
}
impl ConfigExtension for Customer {
    const PREFIX: &'static str = "customer";
}

/// Written by hand: keys with dots, dashes, digits and capitals.
#[derive(Debug, Clone)]
pub struct Hand(BTreeMap<String, String>);
pub const HAND_KEYS: [&str; 9] = ["x", "hand.x", "hand.hand.x", "hand", "a.b.c", "with-dash", "Mixed.Case", "9", "_"];
impl Default for Hand {
    fn default() -> Self {
        Hand(HAND_KEYS.iter().map(|k| (k.to_string(), "d".to_string())).collect())
    }
}
impl ExtensionOptions for Hand {
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn std::any::Any {
        self
    }
    fn cloned(&self) -> Box<dyn ExtensionOptions> {
        Box::new(self.clone())
    }
    fn set(&mut self, key: &str, value: &str) -> Result<()> {
        match self.0.get_mut(key) {
            Some(v) => *v = value.to_string(),
            None => return config_err!("no option {key}"),
        }
        Ok(())
    }
    fn entries(&self) -> Vec<ConfigEntry> {
        self.0.iter().map(|(k, v)| ConfigEntry { key: k.clone(), value: Some(v.clone()), description: "" }).collect()
    }
}
impl ConfigExtension for Hand {
    const PREFIX: &'static str = "hand";
}

const TEXTS: [&str; 14] = [
    "x", "", " ", " lead", "trail ", "a=b;c,d", "tab\there", "q\"'\\", "ünï", "😀 日本", "x-datafusion-distributed-config-custom.foo", "none", "%20%zz", "1e400",
];
const CONTROL: [&str; 4] = ["new\nline", "cr\r", "nul\0", "del\x7f"];

type Entries = BTreeMap<String, Option<String>>;

fn entries<T: ConfigExtension>(c: &SessionConfig) -> Option<Entries> {
    c.options().extensions.get::<T>().map(|t| ExtensionOptions::entries(t).into_iter().map(|e| (e.key, e.value)).collect())
}

fn show(c: &SessionConfig) -> Vec<Option<Entries>> {
    vec![entries::<Custom>(c), entries::<Customer>(c), entries::<Hand>(c), entries::<DistributedConfig>(c)]
}

#[derive(Clone, Default)]
struct Seen {
    /// Extensions and batch size of every task's session.
    sessions: Arc<Mutex<Vec<(Vec<Option<Entries>>, usize)>>>,
    /// The same, at the leaves.
    leaves: Arc<Mutex<Vec<Vec<Option<Entries>>>>>,
    headers: Arc<Mutex<Vec<HeaderMap>>>,
}

#[derive(Clone, Copy, Default)]
struct Regs {
    custom: bool,
    customer: bool,
    hand: bool,
    /// Workers pass the user's headers on.
    forward: bool,
}

fn user_headers(h: &HeaderMap) -> BTreeMap<String, Vec<Vec<u8>>> {
    let mut m: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    for (k, v) in h {
        let k = k.as_str();
        if !k.starts_with("x-datafusion-distributed-config-") && !k.starts_with("grpc-") && !["content-type", "te", "user-agent"].contains(&k) {
            m.entry(k.to_string()).or_default().push(v.as_bytes().to_vec());
        }
    }
    m
}

fn hook(seen: Seen, r: Regs) -> StateHook {
    Arc::new(move |b: SessionStateBuilder, h: &HeaderMap| {
        seen.headers.lock().unwrap().push(h.clone());
        let b = if r.custom { b.with_distributed_option_extension_from_headers::<Custom>(h)? } else { b };
        let b = if r.customer { b.with_distributed_option_extension_from_headers::<Customer>(h)? } else { b };
        let b = if r.hand { b.with_distributed_option_extension_from_headers::<Hand>(h)? } else { b };
        let b = match r.forward {
            true => {
                let mine = h.iter().filter(|(k, _)| !k.as_str().starts_with("x-datafusion-distributed-config-")).map(|(k, v)| (k.clone(), v.clone())).collect();
                b.with_distributed_passthrough_headers(mine)?
            }
            false => b,
        };
        let seen = seen.clone();
        Ok(b.with_distributed_worker_plan_rewrite_handler(move |ev: WorkerPlanRewriteEvent<'_>| {
            seen.sessions.lock().unwrap().push((show(ev.session_config), ev.session_config.batch_size()));
            Ok(WorkerPlanRewriteEventResponse::new(ev.plan))
        }))
    })
}

struct W {
    cluster: Cluster,
    ctx: SessionContext,
    seen: Seen,
    _t: SrcHandle,
}

#[derive(Clone, Copy, Debug)]
struct How {
    tr: Transport,
    dynamic: bool,
}
const HOWS: [How; 4] = [
    How { tr: Transport::Direct, dynamic: false },
    How { tr: Transport::Grpc, dynamic: false },
    How { tr: Transport::Direct, dynamic: true },
    How { tr: Transport::Grpc, dynamic: true },
];

impl How {
    fn short(&self) -> String {
        format!("{:?}{}", self.tr, if self.dynamic { "-dyn" } else { "" })
    }
}

fn world(how: How, r: Regs, f: impl FnOnce(SessionStateBuilder) -> SessionStateBuilder) -> W {
    let seen = Seen::default();
    let cluster = Cluster::with(2, how.tr, Some(hook(seen.clone(), r)), crate::scen::pool_env);
    *cluster.net.0.headers.lock().unwrap() = Some(vec![]);
    let urls = cluster.urls.clone();
    let ctx = cluster.session(cfg(2), |b| {
        f(b.with_distributed_route_tasks_handler(fixed_routing(urls))
            .with_distributed_desired_task_count_handler(tag_task_counts)
            .with_distributed_dynamic_task_count(how.dynamic)
            .unwrap())
    });
    let t = SrcBuilder::new(kv_schema(), |s| (0..2).map(|i| Item::Batch(kv_batch(&[(Some(s.part as i64 + i), s.task as i64)]))).collect()).build();
    let s2 = seen.clone();
    *t.0.on_open.lock().unwrap() = Some(Box::new(move |ctx, _| s2.leaves.lock().unwrap().push(show(ctx.session_config()))));
    ctx.register_table("t", Arc::new(VTable { src: t.0.clone(), parts: 2, tag: "d2".into() })).unwrap();
    W { cluster, ctx, seen, _t: t }
}

const SQL: &str = "SELECT c, count(*) FROM (SELECT k, count(*) c FROM t GROUP BY k) GROUP BY c";

async fn plan(ctx: &SessionContext) -> std::result::Result<Arc<dyn ExecutionPlan>, Viol> {
    df_err(async { ctx.sql(SQL).await?.create_physical_plan().await }.await, "plan")
}

async fn run(ctx: &SessionContext, plan: Arc<dyn ExecutionPlan>) -> std::result::Result<Result<()>, Viol> {
    let go = async {
        let mut st = execute_stream(plan, ctx.task_ctx())?;
        while let Some(b) = st.next().await {
            b?;
        }
        Ok(())
    };
    match rt::vtimeout(HORIZON_SECS, AssertUnwindSafe(go).catch_unwind()).await {
        Err(()) => viol("hang", "the query hangs"),
        Ok(Err(_)) => viol("panic", format!("panic: {}", take_last_panic().unwrap_or_default())),
        Ok(Ok(r)) => Ok(r),
    }
}

/// Every task saw `want`; the key names what differs.
fn same(w: &W, want: &[Option<Entries>], regs: Regs) -> std::result::Result<usize, Viol> {
    let on = [regs.custom, regs.customer, regs.hand, true];
    let sessions = w.seen.sessions.lock().unwrap();
    let leaves = w.seen.leaves.lock().unwrap();
    for (at, got) in sessions.iter().map(|s| ("session", &s.0)).chain(leaves.iter().map(|l| ("leaf", l))) {
        for i in (0..4).filter(|i| on[*i]) {
            if got[i] != want[i] {
                let empty = Entries::new();
                let (g, x) = (got[i].as_ref().unwrap_or(&empty), want[i].as_ref().unwrap_or(&empty));
                let keys: Vec<&String> = x.keys().filter(|k| g.get(*k) != x.get(*k)).collect();
                let d: Vec<String> = keys.iter().map(|k| format!("{k}: client {:?}, worker {:?}", x.get(*k), g.get(*k))).collect();
                // Known: see known_findings.txt.
                let key = if i == 0 && keys == ["optd"] && x["optd"].is_none() { "unset-option-with-default" } else { "option" };
                return viol(key, format!("{} of a worker's {at} differs: {}", ["custom", "customer", "hand", "distributed"][i], d.join("; ")));
            }
        }
    }
    if leaves.is_empty() {
        return viol("tasks", format!("{} sessions, {} leaves", sessions.len(), leaves.len()));
    }
    Ok(sessions.len())
}

fn ok(n: usize) -> RunResult {
    Ok(Obs { outcome: format!("{n}"), nontrivial: n > 0, ..Default::default() })
}

async fn compare(w: &W, regs: Regs, may_fail: bool) -> RunResult {
    let want = show(&w.ctx.copied_config());
    let p = plan(&w.ctx).await?;
    match run(&w.ctx, p).await? {
        Err(e) if may_fail => Ok(Obs { outcome: format!("{e:.30}"), ..Default::default() }),
        Err(e) => viol("error", format!("the query fails: {e}")),
        Ok(()) => ok(same(w, &want, regs)?),
    }
}

fn reserved_names() -> Vec<String> {
    let p = "x-datafusion-distributed-config-";
    ["", "custom.foo", "distributed.collect_metrics", "anything", "-", "x-datafusion-distributed-config-custom.foo"].iter().map(|s| format!("{p}{s}")).collect()
}

/// Sets passthrough headers in each of the ways there are.
fn set_headers(api: usize, h: HeaderMap) -> Result<SessionConfig> {
    Ok(match api {
        0 => SessionConfig::new().with_distributed_passthrough_headers(h)?,
        1 => {
            let mut c = SessionConfig::new();
            c.set_distributed_passthrough_headers(h)?;
            c
        }
        2 => SessionStateBuilder::new().with_distributed_passthrough_headers(h)?.build().config().clone(),
        3 => {
            let mut b = SessionStateBuilder::new();
            b.set_distributed_passthrough_headers(h)?;
            b.build().config().clone()
        }
        4 => SessionContext::new().with_distributed_passthrough_headers(h)?.copied_config(),
        5 => {
            let mut c = SessionContext::new();
            c.set_distributed_passthrough_headers(h)?;
            c.copied_config()
        }
        6 => SessionContext::new().state().with_distributed_passthrough_headers(h)?.config().clone(),
        _ => {
            let mut s = SessionContext::new().state();
            s.set_distributed_passthrough_headers(h)?;
            s.config().clone()
        }
    })
}
const APIS: usize = 8;

/// Calls a setter in each of the ways there are; gives the configuration that results.
macro_rules! setter {
    ($with:ident, $set:ident, $key:literal, $v:expr, $shown:expr) => {{
        let f: Setter = Box::new(|api| {
            let base = || SessionStateBuilder::new().with_distributed_planner().build();
            Ok(match api {
                0 => base().config().clone().$with($v)?,
                1 => {
                    let mut c = base().config().clone();
                    c.$set($v)?;
                    c
                }
                2 => SessionStateBuilder::new().with_distributed_planner().$with($v)?.build().config().clone(),
                3 => {
                    let mut b = SessionStateBuilder::new().with_distributed_planner();
                    b.$set($v)?;
                    b.build().config().clone()
                }
                4 => SessionContext::new_with_state(base()).$with($v)?.copied_config(),
                5 => {
                    let mut c = SessionContext::new_with_state(base());
                    c.$set($v)?;
                    c.copied_config()
                }
                6 => base().$with($v)?.config().clone(),
                _ => {
                    let mut s = base();
                    s.$set($v)?;
                    s.config().clone()
                }
            })
        });
        ($key, $shown.to_string(), f)
    }};
}
type Setter = Box<dyn Fn(usize) -> Result<SessionConfig> + Send + Sync>;

fn setters() -> Vec<(&'static str, String, Setter)> {
    use datafusion::arrow::ipc::CompressionType as Z;
    let mut v = vec![
        setter!(with_distributed_compression, set_distributed_compression, "compression", Some(Z::ZSTD), "zstd"),
        setter!(with_distributed_compression, set_distributed_compression, "compression", Some(Z::LZ4_FRAME), "lz4"),
        setter!(with_distributed_compression, set_distributed_compression, "compression", None, "none"),
        setter!(with_distributed_cardinality_effect_task_scale_factor, set_distributed_cardinality_effect_task_scale_factor, "cardinality_task_count_factor", 2.75, "2.75"),
    ];
    macro_rules! sizes {
        ($($with:ident, $set:ident, $key:literal;)*) => {$(
            v.push(setter!($with, $set, $key, 0, "0"));
            v.push(setter!($with, $set, $key, 1, "1"));
            v.push(setter!($with, $set, $key, 12345, "12345"));
            v.push(setter!($with, $set, $key, usize::MAX, usize::MAX));
        )*};
    }
    sizes! {
        with_distributed_file_scan_config_bytes_per_partition, set_distributed_file_scan_config_bytes_per_partition, "file_scan_config_bytes_per_partition";
        with_distributed_shuffle_batch_size, set_distributed_shuffle_batch_size, "shuffle_batch_size";
        with_distributed_max_tasks_per_stage, set_distributed_max_tasks_per_stage, "max_tasks_per_stage";
        with_distributed_worker_connection_buffer_budget_bytes, set_distributed_worker_connection_buffer_budget_bytes, "worker_connection_buffer_budget_bytes";
        with_distributed_dynamic_bytes_per_partition, set_distributed_dynamic_bytes_per_partition, "dynamic_bytes_per_partition";
    }
    macro_rules! flags {
        ($($with:ident, $set:ident, $key:literal;)*) => {$(
            v.push(setter!($with, $set, $key, true, "true"));
            v.push(setter!($with, $set, $key, false, "false"));
        )*};
    }
    flags! {
        with_distributed_metrics_collection, set_distributed_metrics_collection, "collect_metrics";
        with_distributed_children_isolator_unions, set_distributed_children_isolator_unions, "children_isolator_unions";
        with_distributed_broadcast_joins, set_distributed_broadcast_joins, "broadcast_joins";
        with_distributed_partial_reduce, set_distributed_partial_reduce, "partial_reduce";
        with_distributed_dynamic_task_count, set_distributed_dynamic_task_count, "dynamic_task_count";
    }
    v
}

/// A setter changes the option it names, to the value it is given, and no other.
fn setter_case(key: &str, shown: &str, f: &Setter) -> RunResult {
    let mut want = entries::<DistributedConfig>(SessionStateBuilder::new().with_distributed_planner().build().config()).unwrap();
    if !want.contains_key(key) {
        return viol("setter", format!("no option {key}"));
    }
    want.insert(key.to_string(), Some(shown.to_string()));
    for api in 0..APIS {
        let c = df_err(f(api), "setter")?;
        let got = entries::<DistributedConfig>(&c).unwrap_or_default();
        if got != want {
            return viol("setter", format!("setting {key} to {shown} (way {api}) gives {got:?}"));
        }
    }
    ok(APIS)
}

fn passthrough_sets() -> Vec<(String, Vec<(&'static str, &'static [u8])>)> {
    let one: Vec<(&'static str, &'static [u8])> = vec![
        ("x-request-id", b"abc"),
        ("x-request-id", b""),
        ("x-request-id", b" spaced "),
        ("x-request-id", b"tab\there"),
        ("x-request-id", "ünï".as_bytes()),
        ("x-request-id", b"\xff\xfe"),
        ("authorization", b"Bearer a.b=c"),
        ("x-datafusion-distributed-other", b"1"),
        ("x-datafusion-distributed-config", b"1"),
        ("y-x-datafusion-distributed-config-custom.foo", b"1"),
        ("custom.foo", b"evil"),
        ("distributed.collect_metrics", b"false"),
        ("traceparent", b"00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01"),
        ("x-bin", b"YWJj"),
        ("cookie", b"a=b; c=d"),
        ("accept-encoding", b"gzip"),
        ("_", b"."),
    ];
    let mut v: Vec<(String, Vec<(&'static str, &'static [u8])>)> = vec![("none".into(), vec![])];
    for (i, a) in one.iter().enumerate() {
        v.push((format!("{i}"), vec![*a]));
        for (j, b) in one.iter().enumerate() {
            v.push((format!("{i}-{j}"), vec![*a, *b]));
        }
    }
    v.push(("many".into(), one.iter().cycle().take(60).copied().collect()));
    v
}

async fn passthrough(how: How, set: &[(&'static str, &'static [u8])], forward: bool, api: usize) -> RunResult {
    let mut h = HeaderMap::new();
    for (k, v) in set {
        h.append(HeaderName::from_str(k).unwrap(), HeaderValue::from_bytes(v).unwrap());
    }
    let regs = Regs { custom: true, forward, ..Default::default() };
    let w = world(how, regs, |b| b.with_distributed_option_extension(Custom { bar: 11, ..Default::default() }));
    let mut ctx = w.ctx.clone();
    match api {
        // Set twice: the later one counts.
        1 => {
            ctx.set_distributed_passthrough_headers(HeaderMap::from_iter([(HeaderName::from_static("x-old"), HeaderValue::from_static("1"))])).unwrap();
            ctx.set_distributed_passthrough_headers(h.clone()).unwrap();
        }
        _ => ctx.set_distributed_passthrough_headers(h.clone()).unwrap(),
    }
    let want = show(&ctx.copied_config());
    let p = plan(&ctx).await?;
    // Changed after the query started: not seen by it.
    if let Err(e) = run(&ctx, p).await? {
        return viol("error", format!("the query fails: {e}"));
    }
    same(&w, &want, regs)?;
    let expect = user_headers(&h);
    for got in w.seen.headers.lock().unwrap().iter() {
        if user_headers(got) != expect {
            return viol("headers", format!("a task's session was built with {:?}, the client set {expect:?}", user_headers(got)));
        }
    }
    let calls = w.cluster.net.0.headers.lock().unwrap().clone().unwrap();
    let mut bare = 0;
    for (k, got) in &calls {
        let got = user_headers(got);
        if got != expect && (*k == Kind::SetPlan || forward) {
            return viol("call-headers", format!("a {k:?} request carries {got:?}, the client set {expect:?}"));
        }
        bare += (got != expect && got.is_empty()) as usize;
        if got != expect && !got.is_empty() {
            return viol("call-headers", format!("a {k:?} request carries {got:?}, the client set {expect:?}"));
        }
    }
    // The client's own requests carry them in any case.
    if !expect.is_empty() && calls.iter().filter(|c| c.0 == Kind::Exec && user_headers(&c.1) == expect).count() == 0 {
        return viol("call-headers", format!("no request for results carries {expect:?}"));
    }
    ok(calls.len() - bare)
}

fn malformed() -> Vec<(String, Vec<(String, Vec<u8>)>)> {
    let p = "x-datafusion-distributed-config-";
    let mut v = vec![];
    for key in [
        "", ".", "custom", "custom.", "custom..foo", "custom.foo", "custom.bar", "custom.baz", "custom.neg", "custom.fl", "custom.opt", "custom.unknown", "custom.custom",
        "custom.custom.foo", "customer.foo", "customer.bar", "hand.x", "hand.hand.x", "hand.", "distributed.", "distributed.collect_metrics",
        "distributed.max_tasks_per_stage", "distributed.compression", "distributed.worker_connection_buffer_budget_bytes", "distributed.cardinality_task_count_factor",
        "distributed.shuffle_batch_size", "distributed.unknown", "datafusion.execution.batch_size", "x-datafusion-distributed-config-custom.foo", "CUSTOM.FOO",
    ] {
        for val in ["", "1", "-1", "true", "x", "99999999999999999999999", "NaN", "ünï", "\u{0}", "\n", " 5 "] {
            if HeaderValue::from_bytes(val.as_bytes()).is_ok() {
                v.push((format!("{key}={}", h64(val) % 1000), vec![(format!("{p}{key}"), val.as_bytes().to_vec())]));
            }
        }
        v.push((format!("{key}=raw"), vec![(format!("{p}{key}"), vec![0xff, 0xfe, 0x80])]));
        v.push((format!("{key}=twice"), vec![(format!("{p}{key}"), b"1".to_vec()), (format!("{p}{key}"), b"2".to_vec())]));
    }
    v
}

async fn bad_headers(how: How, set: &[(String, Vec<u8>)]) -> RunResult {
    let regs = Regs { custom: true, customer: true, hand: true, forward: false };
    let w = world(how, regs, |b| b);
    let mut h = HeaderMap::new();
    for (k, v) in set {
        h.append(HeaderName::from_str(k).unwrap(), HeaderValue::from_bytes(v).unwrap());
    }
    let src = SrcBuilder::new(kv_schema(), |_| vec![Item::Batch(kv_batch(&[(Some(1), 1)]))]).build();
    let url = w.cluster.urls[0].clone();
    let ctx = w.ctx.task_ctx();
    let go = async {
        let mut c = w.cluster.net.raw_channel(&url)?;
        let key = TaskKey { query_id: uuid::Uuid::from_u128(7), stage_id: 1, task_number: 0 };
        let req = SetPlanRequest {
            task_key: key,
            task_count: 1,
            plan: MaybeEncoded::Decoded(src.0.exec(1)),
            work_unit_feed_declarations: vec![],
            target_worker_url: url.clone(),
            query_start_time_ns: 1,
        };
        let hang = futures::stream::pending().boxed();
        let w2c = c.coordinator_channel(h, req, hang, Default::default(), &ctx).await?;
        drop(w2c);
        Ok::<_, DataFusionError>(())
    };
    match rt::vtimeout(HORIZON_SECS, AssertUnwindSafe(go).catch_unwind()).await {
        Err(()) => return viol("hang", format!("{set:?}: the worker does not answer")),
        Ok(Err(_)) => return viol("crash", format!("{set:?}: the worker panicked: {}", take_last_panic().unwrap_or_default())),
        Ok(Ok(Err(e))) if e.to_string().contains("panic") || take_last_panic().is_some() => return viol("crash", format!("{set:?}: the worker panicked: {e}")),
        Ok(Ok(r)) => {
            // Refused, or every option has the default or the value that was sent.
            let outcome = if r.is_ok() { "accepted" } else { "refused" };
            if r.is_ok() {
                let dflt = show(
                    &SessionConfig::new()
                        .with_distributed_option_extension(Custom::default())
                        .with_distributed_option_extension(Customer::default())
                        .with_distributed_option_extension(Hand::default())
                        .with_distributed_option_extension(DistributedConfig::default()),
                );
                let sent: BTreeMap<String, Vec<String>> = set.iter().fold(BTreeMap::new(), |mut m, (k, v)| {
                    let k = k.strip_prefix("x-datafusion-distributed-config-").unwrap_or("?").to_lowercase();
                    m.entry(k).or_insert_with(Vec::new).push(String::from_utf8_lossy(v).to_string());
                    m
                });
                for (s, _) in w.seen.sessions.lock().unwrap().iter() {
                    for (i, name) in ["custom", "customer", "hand", "distributed"].into_iter().enumerate() {
                        for (k, g) in s[i].as_ref().unwrap() {
                            let d = &dflt[i].as_ref().unwrap()[k];
                            if g != d && !sent.contains_key(&format!("{name}.{}", k.to_lowercase())) {
                                return viol("override", format!("{set:?} changed {name}.{k} to {g:?}"));
                            }
                        }
                    }
                }
            }
            // Nothing else is harmed.
            w.seen.sessions.lock().unwrap().clear();
            let p = plan(&w.ctx).await?;
            if let Err(e) = run(&w.ctx, p).await? {
                return viol("aftermath", format!("after {set:?} a normal query fails: {e}"));
            }
            Ok(Obs { outcome: outcome.into(), nontrivial: true, ..Default::default() })
        }
    }
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let all = Regs { custom: true, customer: true, hand: true, forward: false };
    type Set = Arc<dyn Fn(SessionStateBuilder) -> SessionStateBuilder + Send + Sync>;
    let mut exts: Vec<(String, Regs, bool, Set)> = vec![];
    let c = |f: fn(&mut Custom, usize)| f;
    for (i, t) in TEXTS.iter().chain(CONTROL.iter()).enumerate() {
        let bad = i >= TEXTS.len();
        let t = t.to_string();
        let custom = Regs { custom: true, ..Default::default() };
        let t2 = t.clone();
        exts.push((format!("custom.foo={i}"), custom, bad, Arc::new(move |b| b.with_distributed_option_extension(Custom { foo: t2.clone(), ..Default::default() }))));
        let t2 = t.clone();
        exts.push((
            format!("custom+customer={i}"),
            all,
            bad,
            Arc::new(move |b| {
                b.with_distributed_option_extension(Custom { foo: t2.clone(), custom: format!("c{t2}"), ..Default::default() })
                    .with_distributed_option_extension(Customer { foo: format!("{t2}!"), bar: 2 })
                    .with_distributed_option_extension(Hand::default())
            }),
        ));
        for (j, k) in HAND_KEYS.into_iter().enumerate() {
            let t = t.clone();
            exts.push((
                format!("hand.{j}={i}"),
                Regs { hand: true, ..Default::default() },
                bad,
                Arc::new(move |b| {
                    let mut h = Hand::default();
                    h.set(k, &t).unwrap();
                    b.with_distributed_option_extension(h)
                }),
            ));
        }
        let t2 = t.clone();
        exts.push((
            format!("twice={i}"),
            custom,
            bad,
            Arc::new(move |b| {
                b.with_distributed_option_extension(Custom { foo: "first".into(), bar: 99, ..Default::default() })
                    .with_distributed_option_extension(Custom { foo: t2.clone(), ..Default::default() })
            }),
        ));
    }
    let sets: Vec<(&str, fn(&mut Custom, usize))> = vec![
        ("bar", c(|c, i| c.bar = [0, 1, 7, usize::MAX][i])),
        ("baz", c(|c, i| c.baz = i % 2 == 0)),
        ("neg", c(|c, i| c.neg = [0, u64::MAX, 3, i64::MAX as u64 + 1][i])),
        ("fl", c(|c, i| c.fl = [0.1 + 0.2, f64::MIN_POSITIVE, -f64::MAX, f64::INFINITY][i])),
        ("opt", c(|c, i| c.opt = [None, Some(0), Some(1), Some(usize::MAX)][i])),
        ("optd", c(|c, i| c.optd = [None, Some(0), Some(5), Some(usize::MAX)][i])),
    ];
    for (n, f) in sets {
        for i in 0..4 {
            exts.push((
                format!("custom.{n}={i}"),
                Regs { custom: true, ..Default::default() },
                false,
                Arc::new(move |b| {
                    let mut c = Custom::default();
                    f(&mut c, i);
                    b.with_distributed_option_extension(c)
                }),
            ));
        }
    }
    exts.push(("long".into(), Regs { custom: true, ..Default::default() }, false, Arc::new(|b| b.with_distributed_option_extension(Custom { foo: "y".repeat(5000), ..Default::default() }))));
    for how in HOWS {
        for (n, regs, bad, set) in &exts {
            let (regs, bad, set) = (*regs, *bad, set.clone());
            v.push(case(format!("ext/{}/{n}", how.short()), 0, move |_| {
                rt::sim(async {
                    let w = world(how, regs, |b| set(b));
                    compare(&w, regs, bad).await
                })
            }));
        }
    }
    // The library's own options.
    for how in HOWS {
        let dflt = entries::<DistributedConfig>(&SessionConfig::new().with_distributed_option_extension(DistributedConfig::default())).unwrap();
        for (k, d) in dflt {
            let kind = d.clone().unwrap_or_default();
            let vals: Vec<String> = match kind.as_str() {
                "true" | "false" => vec!["true".into(), "false".into()],
                x if x.parse::<u64>().is_ok() => ["0", "1", "2", "3", "1000", "9223372036854775807", "18446744073709551615"].map(String::from).to_vec(),
                x if x.parse::<f64>().is_ok() => ["0.1", "1", "1.0", "2.75", "1e3", "100000000000000000000000", "0.30000000000000004"].map(String::from).to_vec(),
                _ => ["lz4", "zstd", "none"].map(String::from).to_vec(),
            };
            for val in vals {
                // A batch size that no memory can hold fails any query.
                if k == "shuffle_batch_size" && val.len() > 10 {
                    continue;
                }
                if how.dynamic && k == "dynamic_task_count" {
                    continue;
                }
                let k = k.clone();
                v.push(case(format!("own/{}/{k}={val}", how.short()), 0, move |_| {
                    rt::sim(async {
                        let regs = Regs::default();
                        let w = world(how, regs, |b| b);
                        if let Err(e) = w.ctx.sql(&format!("SET distributed.{k} = '{val}'")).await {
                            return viol("set", format!("SET distributed.{k} = '{val}' fails: {e}"));
                        }
                        let r = compare(&w, regs, false).await?;
                        if k == "shuffle_batch_size" {
                            let n: usize = val.parse().unwrap();
                            let want = if n == 0 { SessionConfig::new().batch_size() } else { n };
                            if w.seen.sessions.lock().unwrap().iter().any(|s| s.1 != want) {
                                return viol("batch-size", format!("shuffle_batch_size = {val}: sessions with batch sizes {:?}", w.seen.sessions.lock().unwrap().iter().map(|s| s.1).collect::<Vec<_>>()));
                            }
                        }
                        Ok(r)
                    })
                }));
            }
        }
    }
    for (i, (key, shown, f)) in setters().into_iter().enumerate() {
        v.push(case(format!("setter/{i}/{key}={shown}"), 0, move |_| setter_case(key, &shown, &f)));
    }
    // Several sessions and changes between queries; changes while a query runs.
    for how in HOWS {
        for first in 0..3 {
            for second in 0..3 {
                v.push(case(format!("change/{}/{first}{second}", how.short()), 0, move |ch| {
                    let ch = ch.clone();
                    rt::sim(async move {
                        let regs = Regs { custom: true, customer: true, ..Default::default() };
                        let w = world(how, regs, |b| b.with_distributed_option_extension(Custom::default()).with_distributed_option_extension(Customer::default()));
                        w.cluster.net.set_policy(delays(&ch, &[], 1));
                        for step in [first, second] {
                            let p = plan(&w.ctx).await?;
                            match step {
                                // Between planning and running.
                                0 => drop(w.ctx.sql("SET custom.foo = 'changed'").await.unwrap()),
                                1 => drop(w.ctx.sql("SET customer.bar = 12").await.unwrap()),
                                _ => drop(w.ctx.sql("SET distributed.compression = 'none'").await.unwrap()),
                            }
                            let want = show(&w.ctx.copied_config());
                            let task_ctx = w.ctx.task_ctx();
                            let mut st = df_err(execute_stream(p, task_ctx), "execute")?;
                            // After it was started.
                            drop(w.ctx.sql("SET custom.bar = 77").await.unwrap());
                            drop(w.ctx.sql("SET distributed.collect_metrics = 'false'").await.unwrap());
                            loop {
                                match rt::vtimeout(HORIZON_SECS, st.next()).await {
                                    Err(()) => return viol("hang", "hangs"),
                                    Ok(None) => break,
                                    Ok(Some(Err(e))) => return viol("error", format!("{e}")),
                                    Ok(Some(Ok(_))) => {}
                                }
                            }
                            same(&w, &want, regs)?;
                            w.seen.sessions.lock().unwrap().clear();
                            w.seen.leaves.lock().unwrap().clear();
                            drop(w.ctx.sql("SET custom.bar = 7").await.unwrap());
                        }
                        ok(1)
                    })
                }));
            }
        }
        v.push(case(format!("parallel/{}", how.short()), 1, move |ch| {
            let ch = ch.clone();
            rt::sim(async move {
                let regs = Regs { custom: true, ..Default::default() };
                let w = world(how, regs, |b| b.with_distributed_option_extension(Custom::default()));
                w.cluster.net.set_policy(delays(&ch, &[Kind::SetPlan, Kind::Exec], 1));
                // A second session on the same workers.
                let urls = w.cluster.urls.clone();
                let ctx2 = w.cluster.session(cfg(2), |b| {
                    b.with_distributed_route_tasks_handler(fixed_routing(urls))
                        .with_distributed_desired_task_count_handler(tag_task_counts)
                        .with_distributed_dynamic_task_count(how.dynamic)
                        .unwrap()
                        .with_distributed_option_extension(Custom { foo: "second".into(), bar: 2, ..Default::default() })
                });
                ctx2.register_table("t", Arc::new(VTable { src: w._t.0.clone(), parts: 2, tag: "d2".into() })).unwrap();
                let (p1, p2) = (plan(&w.ctx).await?, plan(&ctx2).await?);
                let (a, b) = futures::future::join(run(&w.ctx, p1), run(&ctx2, p2)).await;
                df_err(a?, "first")?;
                df_err(b?, "second")?;
                let (x, y) = (show(&w.ctx.copied_config()), show(&ctx2.copied_config()));
                let s = w.seen.sessions.lock().unwrap();
                let n = |z: &Vec<Option<Entries>>| s.iter().filter(|s| s.0 == *z).count();
                if n(&x) == 0 || n(&x) != n(&y) || n(&x) + n(&y) != s.len() {
                    return viol("mixed", format!("{} tasks saw the first session's values, {} the second's, of {}", n(&x), n(&y), s.len()));
                }
                ok(s.len())
            })
        }));
    }
    for how in HOWS {
        for (n, set) in passthrough_sets() {
            if how.dynamic && n.contains('-') && !thorough {
                continue;
            }
            for forward in [false, true] {
                // Workers cannot know which of the headers of a transport are the user's.
                if forward && how.tr == Transport::Grpc {
                    continue;
                }
                for api in 0..2 {
                    let set = set.clone();
                    v.push(case(format!("pass/{}/{n}/f{}a{api}", how.short(), forward as u8), 0, move |_| rt::sim(passthrough(how, &set, forward, api))));
                }
            }
        }
    }
    for (i, n) in reserved_names().into_iter().enumerate() {
        for api in 0..APIS {
            let n = n.clone();
            v.push(case(format!("reserved/{i}/{api}"), 0, move |_| {
                for other in [false, true] {
                    let mut h = HeaderMap::new();
                    if other {
                        h.append(HeaderName::from_static("x-ok"), HeaderValue::from_static("1"));
                    }
                    for name in [n.clone(), n.to_uppercase()] {
                        let mut h = h.clone();
                        h.append(HeaderName::from_str(&name).unwrap(), HeaderValue::from_static("1"));
                        if set_headers(api, h).is_ok() {
                            return viol("reserved", format!("a user may set the header {name}"));
                        }
                    }
                }
                ok(1)
            }));
        }
    }
    for how in HOWS.into_iter().filter(|h| !h.dynamic) {
        for (n, set) in malformed() {
            v.push(case(format!("malformed/{}/{n}", how.short()), 0, move |_| rt::sim(bad_headers(how, &set))));
        }
    }
    v
}
