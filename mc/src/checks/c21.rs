//! C21: row limits are applied exactly once and stop producers early.
use super::Check;
use super::c05::show;
use crate::explore::*;
use crate::net::*;
use crate::pipe::*;
use crate::rt;
use super::c06::rows_text;
use crate::vexec::*;
use crate::vtable::*;
use datafusion::common::Result;
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_plan::limit::GlobalLimitExec;
use datafusion::prelude::SessionContext;
use datafusion_distributed::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn check() -> Check {
    Check {
        id: "C21",
        level: "model_checking",
        rule: "case = (query template, relation under the limit, data placement, planner options); choices = (limit, offset), all combinations, each executed on the simulated cluster; non-trivial = some stage ran in several tasks and the limit cut rows off",
        assumptions: &["rows are compared with single-node DataFusion over the same leaves", "bounds: limits {none,0,1,2,5,100} x offsets {0,1,4,100}, up to 3 tasks and 3 partitions"],
        cases,
    }
}

const ROWS: usize = 12;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    Spread,
    First,
    Last,
    Blocks,
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct O {
    tp: usize,
    parts: usize,
    batch: usize,
    place: Place,
    iso: bool,
    broadcast: bool,
    dynamic: bool,
    tr: Transport,
}

struct World {
    cluster: Cluster,
    ctx: SessionContext,
    one: SessionContext,
    t: SrcHandle,
    _keep: Vec<SrcHandle>,
}

fn world(o: O) -> World {
    let place = move |i: usize, tasks: usize, parts: usize| match o.place {
        Place::Spread => (i % tasks, (i / tasks) % parts),
        Place::First => (0, 0),
        Place::Last => (tasks - 1, parts - 1),
        Place::Blocks => {
            let b = i * tasks * parts / ROWS;
            (b / parts, b % parts)
        }
    };
    let t = placed((0..ROWS as i64).map(|i| (Some(i % 5), (i * 7) % ROWS as i64)).collect(), o.batch, place);
    let u = placed((0..4).map(|i| (Some(i), i * 3)).collect(), 2, |i, tasks, parts| (i % tasks, i % parts));
    // Cannot be split.
    let m = placed((0..3).map(|i| (Some(i), i)).collect(), 1, |i, _, parts| (0, i % parts));
    let cluster = Cluster::new(3, o.tr);
    let urls = cluster.urls.clone();
    let ctx = cluster.session(cfg(o.tp), |b| {
        b.with_distributed_route_tasks_handler(fixed_routing(urls))
            .with_distributed_desired_task_count_handler(tag_task_counts)
            .with_distributed_children_isolator_unions(o.iso)
            .unwrap()
            .with_distributed_broadcast_joins(o.broadcast)
            .unwrap()
            .with_distributed_dynamic_task_count(o.dynamic)
            .unwrap()
    });
    let one = SessionContext::new_with_config(cfg(o.tp));
    for c in [&ctx, &one] {
        for (n, s, parts, tag) in [("t", &t, o.parts, "d3"), ("u", &u, 1, "d2"), ("m", &m, 2, "m1")] {
            c.register_table(n, Arc::new(VTable { src: s.0.clone(), parts, tag: tag.into() })).unwrap();
        }
    }
    World { cluster, ctx, one, t, _keep: vec![u, m] }
}

/// Relations with columns (k, v).
const RELS: [(&str, &str); 9] = [
    ("t", "SELECT k, v FROM t"),
    ("filter", "SELECT k, v FROM t WHERE v % 2 = 0"),
    ("project", "SELECT k + 1 AS k, v * 2 AS v FROM t"),
    ("union", "SELECT k, v FROM t UNION ALL SELECT k, v FROM u"),
    ("unionm", "SELECT k, v FROM m UNION ALL SELECT k, v FROM t UNION ALL SELECT k, v FROM u"),
    ("agg", "SELECT k, count(*) AS v FROM t GROUP BY k"),
    ("join", "SELECT t.k, t.v FROM t JOIN u ON t.k = u.k"),
    ("nljoin", "SELECT t.k, t.v FROM t JOIN u ON t.v < u.v"),
    ("distinct", "SELECT DISTINCT k, v FROM t"),
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    /// Some `n` rows of the relation.
    Some_,
    /// Exactly these rows in this order.
    Slice,
    /// A single number: how many rows passed the limit (times `mult`).
    Count(usize),
    /// `mult` rows per row that passed the limit.
    Mult(usize),
    /// Rows of the relation that passed the inner limit and then LIMIT 2 OFFSET 1.
    Twice,
    /// A single number: sum of v of the ordered slice.
    Sum,
}

/// `{R}` the relation, `{L}` the limit clause.
const TEMPLATES: [(&str, &str, Want); 20] = [
    ("plain", "{R} {L}", Want::Some_),
    ("ordered", "SELECT k, v FROM ({R}) ORDER BY v, k {L}", Want::Slice),
    ("desc", "SELECT k, v FROM ({R}) ORDER BY v DESC, k DESC {L}", Want::Slice),
    ("filtered", "SELECT k, v FROM (SELECT k, v FROM ({R}) {L}) WHERE v >= 0", Want::Some_),
    ("count", "SELECT count(*) FROM (SELECT k, v FROM ({R}) {L})", Want::Count(1)),
    ("twice", "SELECT k, v FROM (SELECT k, v FROM ({R}) {L}) WHERE v >= 0 LIMIT 2 OFFSET 1", Want::Twice),
    ("sum", "SELECT sum(v) FROM (SELECT k, v FROM ({R}) ORDER BY v, k {L})", Want::Sum),
    ("unioned", "(SELECT k, v FROM ({R}) {L}) UNION ALL (SELECT k, v FROM ({R}) {L})", Want::Mult(2)),
    ("unionedm", "SELECT count(*) FROM ((SELECT k, v FROM ({R}) {L}) UNION ALL (SELECT k, v FROM ({R}) ORDER BY v, k {L}))", Want::Count(2)),
    ("crossed", "SELECT a.k, a.v FROM (SELECT k, v FROM ({R}) {L}) a CROSS JOIN m", Want::Mult(3)),
    ("crossing", "SELECT a.k, a.v FROM m CROSS JOIN (SELECT k, v FROM ({R}) {L}) a", Want::Mult(3)),
    ("lefted", "SELECT a.k, a.v FROM (SELECT k, v FROM ({R}) {L}) a LEFT JOIN u ON a.v = u.v", Want::Mult(1)),
    ("righted", "SELECT a.k, a.v FROM u RIGHT JOIN (SELECT k, v FROM ({R}) {L}) a ON a.v = u.v", Want::Mult(1)),
    ("grouped", "SELECT sum(c) FROM (SELECT k, count(*) AS c FROM (SELECT k, v FROM ({R}) {L}) GROUP BY k)", Want::Count(1)),
    ("numbered", "SELECT max(n) FROM (SELECT row_number() OVER () AS n FROM (SELECT k, v FROM ({R}) {L}))", Want::Count(1)),
    ("existing", "SELECT count(*) FROM (SELECT k, v FROM ({R}) {L}) a WHERE EXISTS (SELECT 1 FROM u WHERE u.v >= 0 AND a.k = a.k)", Want::Count(1)),
    ("looped", "SELECT a.k, a.v FROM (SELECT k, v FROM ({R}) {L}) a LEFT JOIN t ON a.v > t.v + 1000", Want::Mult(1)),
    ("loopanti", "SELECT a.k, a.v FROM (SELECT k, v FROM ({R}) {L}) a WHERE NOT EXISTS (SELECT 1 FROM t WHERE a.v > t.v + 1000)", Want::Some_),
    ("loopsemi", "SELECT a.k, a.v FROM (SELECT k, v FROM ({R}) {L}) a WHERE EXISTS (SELECT 1 FROM t WHERE a.v < t.v + 1000)", Want::Some_),
    ("anti", "SELECT a.k, a.v FROM (SELECT k, v FROM ({R}) {L}) a WHERE NOT EXISTS (SELECT 1 FROM t WHERE a.v = t.v + 1000)", Want::Some_),
];

const LIMITS: [Option<usize>; 6] = [Some(2), None, Some(0), Some(1), Some(5), Some(100)];
const OFFSETS: [usize; 4] = [0, 1, 4, 100];

fn minus(a: &[String], b: &[String]) -> Vec<String> {
    let mut m: BTreeMap<&String, i64> = BTreeMap::new();
    for x in b {
        *m.entry(x).or_default() += 1;
    }
    let mut out = vec![];
    for x in a {
        let n = m.entry(x).or_default();
        *n -= 1;
        if *n < 0 {
            out.push(x.clone());
        }
    }
    out
}

fn fetch_of(p: &Arc<dyn ExecutionPlan>) -> Option<usize> {
    match p.downcast_ref::<GlobalLimitExec>() {
        Some(g) => g.fetch().map(|f| f + g.skip()),
        None => p.fetch(),
    }
}

/// Stage -> rows that each of its partitions may send, for gathered stages directly below a limit.
fn gathered(p: &Arc<dyn ExecutionPlan>, out: &mut BTreeMap<usize, usize>) {
    for c in p.children() {
        if c.is::<NetworkCoalesceExec>()
            && let (Some(f), Some(nb)) = (fetch_of(p), c.as_network_boundary())
        {
            out.insert(nb.input_stage().num(), f);
        }
        gathered(c, out);
    }
}

async fn one(ctx: &SessionContext, sql: &str) -> Result<Vec<String>> {
    Ok(rows_text(&ctx.sql(sql).await?.collect().await?))
}

fn run(o: O, rel: &'static str, tpl: &'static str, ch: &Ch) -> RunResult {
    let (_, rsql) = RELS.iter().find(|r| r.0 == rel).unwrap();
    let (_, tsql, want) = TEMPLATES.iter().find(|r| r.0 == tpl).unwrap();
    let lim = LIMITS[choose(ch, LIMITS.len(), |c| format!("{:?}", LIMITS[c]))];
    let off = OFFSETS[choose(ch, OFFSETS.len(), |c| format!("+{}", OFFSETS[c]))];
    let mut clause = lim.map(|l| format!("LIMIT {l}")).unwrap_or_default();
    if off > 0 {
        clause += &format!(" OFFSET {off}");
    }
    let sql = tsql.replace("{R}", rsql).replace("{L}", &clause);
    rt::sim(async {
        let w = world(o);
        let order = if tpl == "desc" { "v DESC, k DESC" } else { "v, k" };
        let full = df_err(one(&w.one, &format!("SELECT k, v FROM ({rsql}) ORDER BY {order}")).await, "single-node")?;
        let n = full.len().saturating_sub(off).min(lim.unwrap_or(usize::MAX));
        w.t.opened.lock().unwrap().clear();
        w.t.emitted_rows.lock().unwrap().clear();
        let planned = async { w.ctx.sql(&sql).await?.create_physical_plan().await }.await;
        let plan = df_err(planned, "planning")?;
        let shown = format!("{sql}\n{}", show(&plan));
        if std::env::var("MC_PLAN").is_ok() {
            println!("{shown}");
        }
        let got = match run_to_end(&w.ctx, plan.clone()).await {
            Outcome::Rows(b) => rows_text(&b),
            Outcome::Err(e, _) => return viol("query-error", format!("{e}\n{shown}")),
            Outcome::Hang(_) => return viol("hang", shown),
        };
        let count = |rows: usize, k: &str| -> RunResult {
            viol(k, format!("{} rows instead of {rows}: {got:?}\n{shown}", got.len()))
        };
        match *want {
            Want::Some_ | Want::Mult(_) | Want::Twice => {
                let mult = if let Want::Mult(m) = *want { m } else { 1 };
                let exp = if *want == Want::Twice { n.saturating_sub(1).min(2) } else { n * mult };
                if got.len() != exp {
                    return count(exp, "row-count");
                }
                let all: Vec<String> = (0..mult).flat_map(|_| full.clone()).collect();
                let extra = minus(&got, &all);
                if !extra.is_empty() {
                    return viol("made-up-rows", format!("rows that are not in the relation (or too often): {extra:?}\n{shown}"));
                }
            }
            Want::Slice => {
                let exp = &full[off.min(full.len())..off.min(full.len()) + n];
                if got != exp {
                    return viol("wrong-rows", format!("{got:?} instead of {exp:?}\n{shown}"));
                }
            }
            Want::Sum | Want::Count(_) => {
                let exp = match *want {
                    Want::Count(m) => n as i64 * m as i64,
                    _ => full[off.min(full.len())..off.min(full.len()) + n]
                        .iter()
                        .map(|r| r.split('|').next_back().unwrap().trim().parse::<i64>().unwrap())
                        .sum(),
                };
                // Aggregates other than count are NULL over nothing.
                let x: i64 = got.first().and_then(|x: &String| x.trim().parse().ok()).unwrap_or(0);
                if x != exp || got.len() != 1 {
                    return viol("wrong-number", format!("{got:?} instead of {exp}\n{shown}"));
                }
            }
        }
        // What the producers sent.
        let mut sent: BTreeMap<(usize, usize, usize), usize> = BTreeMap::new();
        let log = w.cluster.net.log();
        for e in &log {
            if e.kind == Kind::Batch {
                *sent.entry((e.stage, e.task, e.part)).or_default() += e.rows;
            }
        }
        if !o.dynamic {
            let mut bounds = BTreeMap::new();
            gathered(&plan, &mut bounds);
            for ((s, t, p), rows) in &sent {
                if let Some(b) = bounds.get(s)
                    && rows > b
                {
                    return viol("sent-too-much", format!("partition {p} of task {t} of stage {s} sent {rows} rows, the limit above needs {b}\n{shown}"));
                }
            }
            if let (Some(l), true) = (lim, matches!(tpl, "plain" | "ordered" | "desc") && matches!(rel, "t" | "filter" | "project" | "join")) {
                // The last exchange gathers the answer.
                let last = sent.keys().map(|k| k.0).max().unwrap_or(0);
                for ((s, t, p), rows) in &sent {
                    if *s == last && *rows > l + off {
                        return viol("sent-too-much", format!("partition {p} of task {t} of stage {s} sent {rows} rows, the query needs {}\n{shown}", l + off));
                    }
                }
                if tpl == "plain" && matches!(rel, "t" | "project") {
                    for (s, rows) in w.t.emitted() {
                        if rows > (l + off).next_multiple_of(o.batch) + o.batch {
                            return viol("read-too-much", format!("{s:?} was read for {rows} rows, the query needs {}\n{shown}", l + off));
                        }
                    }
                }
            }
        }
        let tasks = stage_tasks(&log);
        Ok(Obs {
            outcome: format!("{lim:?}+{off}:{}", got.len()),
            nontrivial: tasks.values().any(|t| t.len() > 1) && n < full.len(),
            steps: log.len() as u64,
            ..Default::default()
        })
    })
}

fn cases(thorough: bool) -> Vec<Case> {
    let base = O { tp: 2, parts: 2, batch: 1, place: Place::Spread, iso: true, broadcast: true, dynamic: false, tr: Transport::Direct };
    let mut opts = vec![
        base,
        O { place: Place::First, tp: 3, broadcast: false, ..base },
        O { place: Place::Last, parts: 1, batch: 3, iso: false, ..base },
        O { place: Place::Blocks, tp: 1, dynamic: true, ..base },
    ];
    if thorough {
        for place in [Place::Spread, Place::First, Place::Last, Place::Blocks] {
            for (tp, parts, batch) in [(1, 1, 3), (2, 3, 1), (3, 2, 3), (4, 1, 1)] {
                for (iso, broadcast) in [(true, true), (false, false)] {
                    for (dynamic, tr) in [(false, Transport::Direct), (false, Transport::Grpc), (true, Transport::Direct)] {
                        opts.push(O { tp, parts, batch, place, iso, broadcast, dynamic, tr });
                    }
                }
            }
        }
    }
    let mut v = vec![];
    for (i, o) in opts.into_iter().enumerate() {
        for (j, (tpl, _, _)) in TEMPLATES.iter().enumerate() {
            for (k, (rel, _)) in RELS.iter().enumerate() {
                if !thorough && (i + j + k) % 2 == 1 {
                    continue;
                }
                let (tpl, rel) = (*tpl, *rel);
                v.push(case(format!("{tpl}/{rel}/{o:?}"), 2, move |ch| run(o, rel, tpl, ch)));
            }
        }
    }
    v
}
