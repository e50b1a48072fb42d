//! C14: an error raised on a worker reaches the client with its kind and text.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use crate::vexec::*;
use crate::vtable::*;
use datafusion::arrow::error::ArrowError;
use datafusion::common::{Column, DataFusionError, Diagnostic, SchemaError, TableReference};
use datafusion::parquet::errors::ParquetError;
use datafusion::physical_plan::execute_stream;
use datafusion::sql::sqlparser::parser::ParserError;
use datafusion_distributed::*;
use futures::StreamExt;
use object_store::Error as OsError;
use std::io::{Error as IoError, ErrorKind};
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub fn check() -> Check {
    Check {
        id: "C14",
        level: "model_checking",
        rule: "case = (error, place where it is raised, query, transport); the client's error must be the raised one, possibly below wrappers that name a context; non-trivial = the error was raised on a worker",
        assumptions: &["errors of foreign types (boxed errors, join errors, invalid paths) are compared by text", "diagnostics' spans and column spans are not part of the message"],
        cases,
    }
}

type Mk = MakeErr;

fn mk(f: impl Fn() -> DataFusionError + Send + Sync + 'static) -> Mk {
    Arc::new(f)
}

#[derive(Debug)]
struct Foreign(String);
impl std::fmt::Display for Foreign {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "foreign<{}>", self.0)
    }
}
impl std::error::Error for Foreign {}

const TEXTS: [&str; 5] = ["boom", "", "línea 1\nline 2\t\"q\" %20 {}\0x", "DataFusionError", "Resources exhausted: boom: caused by\nPlan"];

fn io_kinds() -> Vec<ErrorKind> {
    use ErrorKind::*;
    vec![
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected,
        AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty,
        ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, QuotaExceeded,
        FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, CrossesDevices, TooManyLinks, InvalidFilename, ArgumentListTooLong,
        Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
    ]
}

fn refs() -> Vec<TableReference> {
    vec![TableReference::bare("t"), TableReference::partial("s", "t"), TableReference::full("c", "s", "T\"x")]
}

fn columns() -> Vec<Column> {
    let mut v = vec![Column::new_unqualified("a"), Column::new_unqualified("")];
    v.extend(refs().into_iter().map(|r| Column::new(Some(r), "B c")));
    v
}

fn schema_errors() -> Vec<Arc<dyn Fn() -> SchemaError + Send + Sync>> {
    let mut v: Vec<Arc<dyn Fn() -> SchemaError + Send + Sync>> = vec![];
    for c in columns() {
        let c2 = c.clone();
        v.push(Arc::new(move || SchemaError::AmbiguousReference { field: Box::new(c2.clone()) }));
        for n in [0, 1, 3, 5] {
            let c = c.clone();
            v.push(Arc::new(move || SchemaError::FieldNotFound { field: Box::new(c.clone()), valid_fields: columns().into_iter().take(n).collect() }));
        }
    }
    for r in refs() {
        v.push(Arc::new(move || SchemaError::DuplicateQualifiedField { qualifier: Box::new(r.clone()), name: "n".into() }));
    }
    v.push(Arc::new(|| SchemaError::DuplicateUnqualifiedField { name: "n".into() }));
    v
}

/// Every kind of error that is not built from other DataFusion errors.
fn leaves() -> Vec<(String, Mk)> {
    use DataFusionError as D;
    let mut v: Vec<(String, Mk)> = vec![];
    for (i, t) in TEXTS.into_iter().enumerate() {
        let s = move || t.to_string();
        v.push((format!("notimpl{i}"), mk(move || D::NotImplemented(s()))));
        v.push((format!("internal{i}"), mk(move || D::Internal(s()))));
        v.push((format!("plan{i}"), mk(move || D::Plan(s()))));
        v.push((format!("config{i}"), mk(move || D::Configuration(s()))));
        v.push((format!("exec{i}"), mk(move || D::Execution(s()))));
        v.push((format!("resources{i}"), mk(move || D::ResourcesExhausted(s()))));
        v.push((format!("substrait{i}"), mk(move || D::Substrait(s()))));
        v.push((format!("ffi{i}"), mk(move || D::Ffi(s()))));
        v.push((format!("external{i}"), mk(move || D::External(Box::new(Foreign(s()))))));
        v.push((format!("externalstr{i}"), mk(move || D::External(s().into()))));
        v.push((format!("externaldf{i}"), mk(move || D::External(Box::new(D::Plan(s()))))));
        for (j, bt) in [None, Some(""), Some("\n\nbacktrace: 1 foo")].into_iter().enumerate() {
            let b = move || bt.map(str::to_string);
            let arrow: Vec<(&str, fn(String) -> ArrowError)> = vec![
                ("nyi", ArrowError::NotYetImplemented),
                ("external", |s| ArrowError::ExternalError(Box::new(Foreign(s)))),
                ("externaldf", |s| ArrowError::ExternalError(Box::new(D::ResourcesExhausted(s)))),
                ("cast", ArrowError::CastError),
                ("memory", ArrowError::MemoryError),
                ("parse", ArrowError::ParseError),
                ("schema", ArrowError::SchemaError),
                ("compute", ArrowError::ComputeError),
                ("zero", |_| ArrowError::DivideByZero),
                ("overflow", ArrowError::ArithmeticOverflow),
                ("csv", ArrowError::CsvError),
                ("json", ArrowError::JsonError),
                ("avro", ArrowError::AvroError),
                ("io", |s| ArrowError::IoError(s.clone(), IoError::new(ErrorKind::NotFound, s))),
                ("ipc", ArrowError::IpcError),
                ("arg", ArrowError::InvalidArgumentError),
                ("parquet", ArrowError::ParquetError),
                ("cdata", ArrowError::CDataInterface),
                ("dict", |_| ArrowError::DictionaryKeyOverflowError),
                ("runend", |_| ArrowError::RunEndIndexOverflowError),
                ("offset", |s| ArrowError::OffsetOverflowError(if s.is_empty() { usize::MAX } else { s.len() })),
            ];
            for (n, f) in arrow {
                v.push((format!("arrow-{n}{i}.{j}"), mk(move || D::ArrowError(Box::new(f(s())), b()))));
            }
            let sql: Vec<(&str, fn(String) -> ParserError)> =
                vec![("token", ParserError::TokenizerError), ("parser", ParserError::ParserError), ("recursion", |_| ParserError::RecursionLimitExceeded)];
            for (n, f) in sql {
                v.push((format!("sql-{n}{i}.{j}"), mk(move || D::SQL(Box::new(f(s())), b()))));
            }
            if i == 0 {
                for (k, e) in schema_errors().into_iter().enumerate() {
                    v.push((format!("schema{k}.{j}"), mk(move || D::SchemaError(Box::new(e()), Box::new(b())))));
                }
            }
        }
        let parquet: Vec<(&str, fn(String) -> ParquetError)> = vec![
            ("general", ParquetError::General),
            ("nyi", ParquetError::NYI),
            ("eof", ParquetError::EOF),
            ("arrow", ParquetError::ArrowError),
            ("index", |s| ParquetError::IndexOutOfBound(s.len(), usize::MAX)),
            ("external", |s| ParquetError::External(Box::new(Foreign(s)))),
            ("more", |s| ParquetError::NeedMoreData(s.len())),
            ("range", |s| ParquetError::NeedMoreDataRange(s.len() as u64..u64::MAX)),
        ];
        for (n, f) in parquet {
            v.push((format!("parquet-{n}{i}"), mk(move || D::ParquetError(Box::new(f(s()))))));
        }
        let src = |s: String| -> Box<dyn std::error::Error + Send + Sync> { Box::new(Foreign(s)) };
        for (j, path) in ["a/b.parquet", ""].into_iter().enumerate() {
            let p = move || path.to_string();
            let os: Vec<(&str, Box<dyn Fn() -> OsError + Send + Sync>)> = vec![
                ("notfound", Box::new(move || OsError::NotFound { path: p(), source: src(s()) })),
                ("exists", Box::new(move || OsError::AlreadyExists { path: p(), source: src(s()) })),
                ("precondition", Box::new(move || OsError::Precondition { path: p(), source: src(s()) })),
                ("notmodified", Box::new(move || OsError::NotModified { path: p(), source: src(s()) })),
                ("denied", Box::new(move || OsError::PermissionDenied { path: p(), source: src(s()) })),
                ("unauth", Box::new(move || OsError::Unauthenticated { path: p(), source: src(s()) })),
                ("notsupported", Box::new(move || OsError::NotSupported { source: src(s()) })),
                ("notimpl", Box::new(move || OsError::NotImplemented { operation: p(), implementer: s() })),
                ("badpath", Box::new(move || OsError::InvalidPath { source: object_store::path::Error::EmptySegment { path: s() } })),
            ];
            for (n, f) in os {
                v.push((format!("store-{n}{i}.{j}"), mk(move || D::ObjectStore(Box::new(f())))));
            }
        }
        for store in [
            "GCS", "MicrosoftAzure", "S3", "Config", "ChunkedStore", "LineDelimiter", "HTTP client", "HTTP", "URL", "InMemory", "ObjectStoreRegistry",
            "Parts", "LocalFileSystem", "Unknown", "MyStore",
        ] {
            v.push((format!("store-generic-{store}{i}"), mk(move || D::ObjectStore(Box::new(OsError::Generic { store, source: src(s()) })))));
            v.push((format!("store-key-{store}{i}"), mk(move || D::ObjectStore(Box::new(OsError::UnknownConfigurationKey { key: s(), store })))));
        }
        for k in io_kinds() {
            v.push((format!("io-{k:?}{i}"), mk(move || D::IoError(IoError::new(k, s())))));
            if i == 0 {
                v.push((format!("iosimple-{k:?}"), mk(move || D::IoError(k.into()))));
            }
        }
    }
    v.push(("io-os".into(), mk(|| D::IoError(IoError::from_raw_os_error(2)))));
    v
}

fn wraps() -> Vec<(&'static str, fn(DataFusionError) -> DataFusionError)> {
    use DataFusionError as D;
    vec![
        ("context", |e| D::Context("while boom".into(), Box::new(e))),
        ("contextempty", |e| D::Context("".into(), Box::new(e))),
        ("shared", |e| D::Shared(Arc::new(e))),
        ("diagnostic", |e| D::Diagnostic(Box::new(Diagnostic::new_error("d", None)), Box::new(e))),
        ("collection1", |e| D::Collection(vec![e])),
        ("collection2", |e| D::Collection(vec![e, D::Plan("second".into())])),
        ("collection3", |e| D::Collection(vec![D::Execution("first".into()), D::Context("c".into(), Box::new(D::Internal("x".into()))), e])),
    ]
}

fn errors(thorough: bool) -> Vec<(String, Mk)> {
    let mut v = leaves();
    // One of each kind below wrappers.
    let kinds: Vec<(String, Mk)> = leaves()
        .into_iter()
        .filter(|(n, _)| (n.ends_with('0') || n.ends_with("0.0") || n.ends_with("0.2")) && !n.starts_with("io-") || n == "io-TimedOut0")
        .filter(|(n, _)| thorough || !n.starts_with("store-generic") && !n.starts_with("store-key") && !n.ends_with("0.2"))
        .collect();
    for (w, f) in wraps() {
        for (n, e) in &kinds {
            let e = e.clone();
            v.push((format!("{w}/{n}"), mk(move || f(e()))));
        }
        for (w2, f2) in wraps() {
            for (n, e) in kinds.iter().filter(|k| thorough || ["resources0", "arrow-avro0.0", "schema0.0", "external0"].contains(&k.0.as_str())) {
                let e = e.clone();
                v.push((format!("{w}/{w2}/{n}"), mk(move || f(f2(e())))));
            }
            for (w3, f3) in wraps() {
                v.push((format!("{w}/{w2}/{w3}/resources0"), mk(move || f(f2(f3(DataFusionError::ResourcesExhausted("boom".into())))))));
            }
        }
    }
    for depth in [10, 20] {
        for (w, f) in wraps() {
            v.push((format!("{w}^{depth}"), mk(move || (0..depth).fold(DataFusionError::Plan("deep".into()), |e, _| f(e)))));
        }
    }
    v
}

/// Long texts: plans and rows are often printed in errors.
fn long(thorough: bool) -> Vec<(String, Mk)> {
    let mut v: Vec<(String, Mk)> = vec![];
    let mut sizes = vec![1_000, 4_000, 8_000, 11_000, 12_000, 13_000, 16_000, 20_000, 60_000, 70_000, 1_000_000];
    if thorough {
        sizes.extend([2_000, 6_000, 10_000, 14_000, 30_000, 100_000, 300_000, 5_000_000]);
    }
    for n in sizes {
        let t = move || format!("boom {} end", "x y\n".repeat(n / 4));
        v.push((format!("long-exec{n}"), mk(move || DataFusionError::Execution(t()))));
        v.push((format!("long-resources{n}"), mk(move || DataFusionError::ResourcesExhausted(t()))));
        v.push((format!("long-context{n}"), mk(move || DataFusionError::Context(t(), Box::new(DataFusionError::Plan("boom".into()))))));
        v.push((format!("long-collection{n}"), mk(move || DataFusionError::Collection((0..10).map(|_| DataFusionError::Internal(t()[..n / 10].into())).collect()))));
    }
    v
}

fn variant(d: &impl std::fmt::Debug) -> String {
    let s = format!("{d:?}");
    s.split(['(', ' ', '{']).next().unwrap().to_string()
}

/// The structure of an error, with text for everything of foreign types. None: only the text can be carried over.
fn canon(e: &DataFusionError) -> Option<String> {
    use DataFusionError as D;
    Some(match e {
        D::ArrowError(a, bt) => format!("Arrow:{}:{}:{:?}", variant(a), a, bt),
        D::ParquetError(p) => match p.as_ref() {
            ParquetError::NeedMoreDataRange(_) => return None,
            p => format!("Parquet:{}:{}", variant(p), p),
        },
        D::ObjectStore(o) => match o.as_ref() {
            OsError::InvalidPath { .. } | OsError::JoinError { .. } => return None,
            OsError::Generic { store: "MyStore" | "Unknown", .. } | OsError::UnknownConfigurationKey { store: "MyStore" | "Unknown", .. } => return None,
            o => format!("ObjectStore:{}:{}", variant(o), o),
        },
        D::IoError(i) => format!("Io:{:?}:{}", i.kind(), i),
        D::SQL(p, bt) => format!("Sql:{p:?}:{bt:?}"),
        D::SchemaError(s, bt) => format!("Schema:{s:?}:{bt:?}"),
        D::External(x) => format!("External:{x}"),
        D::Context(c, e) => format!("Context:{c:?}({})", canon(e)?),
        D::Diagnostic(_, e) => format!("Diagnostic({})", canon(e)?),
        D::Shared(e) => format!("Shared({})", canon(e)?),
        D::Collection(v) => format!("Collection[{}]", v.iter().map(canon).collect::<Option<Vec<_>>>()?.join(";")),
        D::ExecutionJoin(_) => return None,
        e => format!("{e:?}"),
    })
}

/// The text that must not be lost, for what cannot be carried over.
fn essence(e: &DataFusionError) -> Vec<String> {
    use DataFusionError as D;
    match e {
        D::Context(c, e) => [vec![c.clone()], essence(e)].concat(),
        D::Diagnostic(_, e) => essence(e),
        D::Shared(e) => essence(e),
        // A collection displays its first error.
        D::Collection(v) => essence(&v[0]),
        D::ObjectStore(o) => match o.as_ref() {
            OsError::InvalidPath { source } => vec![source.to_string()],
            o => vec![o.to_string()],
        },
        D::ParquetError(p) => vec![p.to_string()],
        e => vec![e.message().to_string()],
    }
}

fn matches(got: &DataFusionError, want: &DataFusionError) -> bool {
    let Some(w) = canon(want) else {
        let t = got.to_string();
        return essence(want).iter().all(|e| t.contains(e.as_str()));
    };
    let mut got = got;
    loop {
        if canon(got).is_some_and(|g| g == w) {
            return true;
        }
        // What adds context to an error on its way is welcome.
        got = match got {
            DataFusionError::Context(_, e) => e,
            DataFusionError::Shared(e) => e,
            DataFusionError::External(e) => match e.downcast_ref::<DataFusionError>() {
                Some(e) => e,
                None => match e.downcast_ref::<Arc<DataFusionError>>() {
                    Some(e) => e,
                    None => return false,
                },
            },
            _ => return false,
        };
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Place {
    /// First item of a stream.
    First,
    /// After a batch.
    Later,
    /// `execute` of the leaf.
    Open,
    /// Building the session of a task.
    Session,
}

const PLANS: [(&str, &str); 7] = [
    ("gather", "SELECT k, v FROM t"),
    ("shuffle", "SELECT k, count(*) FROM t GROUP BY k"),
    ("twice", "SELECT c, count(*) FROM (SELECT k, count(*) c FROM t GROUP BY k) GROUP BY c"),
    ("join", "SELECT t.v, u.v FROM u JOIN t ON t.k = u.k"),
    ("bcast", "SELECT t.v, u.v FROM t CROSS JOIN u"),
    ("union", "SELECT v FROM u UNION ALL SELECT v FROM t"),
    ("sort", "SELECT v FROM t ORDER BY v"),
];

async fn one(err: &Mk, place: Place, sql: &str, dynamic: bool, tr: Transport) -> RunResult {
    let raised = err.clone();
    let hook: Option<StateHook> = match place {
        Place::Session => Some(Arc::new(move |_, _: &http::HeaderMap| Err(raised()))),
        _ => None,
    };
    let cluster = Cluster::with(2, tr, hook, crate::scen::pool_env);
    let urls = cluster.urls.clone();
    let ctx = cluster.session(cfg(2), |b| {
        b.with_distributed_route_tasks_handler(fixed_routing(urls))
            .with_distributed_desired_task_count_handler(tag_task_counts)
            .with_distributed_dynamic_task_count(dynamic)
            .unwrap()
            .with_distributed_broadcast_joins(true)
            .unwrap()
    });
    let raised = err.clone();
    let fired = Arc::new(AtomicUsize::new(0));
    let t = SrcBuilder::new(kv_schema(), move |s| {
        let b = Item::Batch(kv_batch(&[(Some(s.part as i64), s.task as i64)]));
        match (place, s.task, s.part) {
            (Place::First, 1, 0) => vec![Item::Fail(raised.clone())],
            (Place::Later, 0, 1) => vec![b, Item::Fail(raised.clone())],
            (Place::Open, 1, 1) => vec![Item::OpenFail(raised.clone())],
            _ => vec![b],
        }
    })
    .fired(fired.clone())
    .build();
    let u = SrcBuilder::new(kv_schema(), |s| vec![Item::Batch(kv_batch(&[(Some(s.part as i64), s.task as i64)]))]).build();
    ctx.register_table("t", Arc::new(VTable { src: t.0.clone(), parts: 2, tag: "d2".into() })).unwrap();
    ctx.register_table("u", Arc::new(VTable { src: u.0.clone(), parts: 2, tag: "d2".into() })).unwrap();
    let plan = df_err(async { ctx.sql(sql).await?.create_physical_plan().await }.await, "plan")?;
    let run = async {
        let mut st = execute_stream(plan.clone(), ctx.task_ctx())?;
        while let Some(b) = st.next().await {
            b?;
        }
        Ok::<_, DataFusionError>(())
    };
    let want = err();
    let brief = |e: &DataFusionError| format!("{:.300}", format!("{e:?}"));
    match rt::vtimeout(HORIZON_SECS, run).await {
        Err(()) => viol("hang", format!("{sql} never fails although {} is raised", brief(&want))),
        // A branch of a union may have too few tasks to meet the error.
        Ok(Ok(())) if place != Place::Session && fired.load(SeqCst) == 0 => Ok(Obs { outcome: "unraised".into(), ..Default::default() }),
        Ok(Ok(())) => viol("swallowed", format!("{sql} succeeds although {} is raised", brief(&want))),
        Ok(Err(e)) if matches(&e, &want) => Ok(Obs { outcome: variant(&e), nontrivial: true, ..Default::default() }),
        Ok(Err(e)) => viol("error", format!("{sql}: raised on the worker:\n  {}\nreceived by the client:\n  {}", brief(&want), brief(&e))),
    }
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let mut add = |n: &str, e: &Mk, place: Place, plan: (&'static str, &'static str), dynamic: bool, tr: Transport| {
        let e = e.clone();
        let id = format!("{tr:?}/{}{place:?}/{}/{n}", if dynamic { "dyn-" } else { "" }, plan.0);
        v.push(case(id, 0, move |_| rt::sim(one(&e, place, plan.1, dynamic, tr))));
    };
    let errs = errors(thorough);
    for (i, (n, e)) in errs.iter().enumerate() {
        // Every error, over one connection and over several.
        add(n, e, Place::First, PLANS[0], false, Transport::Grpc);
        add(n, e, Place::First, PLANS[2], false, Transport::Grpc);
        if thorough || i % 32 == 0 {
            for place in [Place::First, Place::Later, Place::Open, Place::Session] {
                for p in PLANS {
                    for dynamic in [false, true] {
                        for tr in [Transport::Direct, Transport::Grpc] {
                            if (place, dynamic, tr) != (Place::First, false, Transport::Grpc) {
                                add(n, e, place, p, dynamic, tr);
                            }
                        }
                    }
                }
            }
        }
    }
    for (n, e) in long(thorough) {
        for place in [Place::First, Place::Later, Place::Open, Place::Session] {
            for p in [PLANS[0], PLANS[2]] {
                add(&n, &e, place, p, false, Transport::Grpc);
            }
        }
    }
    v
}
