//! C01: a distributed query returns exactly the single-node answer.
use super::Check;
use crate::explore::*;
use crate::net::*;
use crate::pipe::delays;
use crate::rt;
use crate::sql::*;

pub fn check() -> Check {
    Check {
        id: "C01",
        level: "model_checking",
        rule: "case = (source x tail query of the grammar, cluster and planner configuration); every case plans and executes the query on the simulated cluster and compares it with plain DataFusion; the delay cases explore every single late message; non-trivial = some stage ran in at least two tasks",
        assumptions: &["queries whose answer plain DataFusion does not determine are compared up to the permitted freedom", "a query that plain DataFusion itself gets wrong with the same settings is not judged", "bounds: see case ids"],
        cases,
    }
}

pub const SOURCES: &[(&str, &str)] = &[
    ("t", "SELECT g, x, s, k FROM t"),
    ("filter", "SELECT g, x, s, k FROM t WHERE x > 2 AND s <> 's1'"),
    ("none", "SELECT g, x, s, k FROM t WHERE k > 100000"),
    ("empty", "SELECT g, x, s, k FROM e"),
    ("inner", "SELECT t.g, u.x, t.s, t.k * 1000 + u.k AS k FROM t JOIN u ON t.g = u.g"),
    ("inner2", "SELECT t.g, u.x, u.s, t.k * 1000 + u.k AS k FROM t JOIN u ON t.g = u.g AND t.x < u.x"),
    ("left", "SELECT t.g, u.x, t.s, t.k * 1000 + coalesce(u.k, 0) AS k FROM t LEFT JOIN u ON t.g = u.g AND t.s = u.s"),
    ("right", "SELECT u.g, t.x, t.s, coalesce(t.k, 0) * 1000 + u.k AS k FROM t RIGHT JOIN u ON t.x = u.x"),
    ("full", "SELECT coalesce(t.g, u.g) AS g, u.x, t.s, coalesce(t.k, 0) * 1000 + coalesce(u.k, 0) AS k FROM t FULL JOIN u ON t.g = u.g AND t.x = u.x"),
    ("leftd", "SELECT d.g, t.x, t.s, coalesce(t.k, 0) * 1000 + d.k AS k FROM d LEFT JOIN t ON t.g = d.g"),
    ("semi", "SELECT g, x, s, k FROM t LEFT SEMI JOIN u ON t.g = u.g AND t.x <> u.x"),
    ("anti", "SELECT g, x, s, k FROM t LEFT ANTI JOIN u ON t.x = u.x"),
    ("rsemi", "SELECT u.g, u.x, u.s, u.k FROM t RIGHT SEMI JOIN u ON t.g = u.g"),
    ("ranti", "SELECT u.g, u.x, u.s, u.k FROM t RIGHT ANTI JOIN u ON t.g = u.g AND t.s = u.s"),
    ("cross", "SELECT t.g, d.x, d.s, t.k * 1000 + d.k AS k FROM t CROSS JOIN d"),
    ("nlj", "SELECT t.g, u.x, t.s, t.k * 1000 + u.k AS k FROM t JOIN u ON t.x < u.x - 2"),
    ("nljleft", "SELECT t.g, d.x, t.s, t.k * 1000 + coalesce(d.k, 0) AS k FROM t LEFT JOIN d ON t.x > d.x + 3"),
    ("nljfull", "SELECT t.g, d.x, d.s, coalesce(t.k, 0) * 1000 + coalesce(d.k, 0) AS k FROM t FULL JOIN d ON t.x > d.x + 5"),
    ("joinempty", "SELECT t.g, e.x, t.s, t.k FROM t LEFT JOIN e ON t.g = e.g"),
    ("in", "SELECT g, x, s, k FROM t WHERE x IN (SELECT x FROM u WHERE k % 2 = 0)"),
    ("notin", "SELECT g, x, s, k FROM t WHERE x NOT IN (SELECT x FROM d WHERE x IS NOT NULL)"),
    ("notinnull", "SELECT g, x, s, k FROM t WHERE g NOT IN (SELECT g FROM u)"),
    ("notinkey", "SELECT g, x, s, k FROM t WHERE k NOT IN (SELECT g FROM u)"),
    ("notinnone", "SELECT g, x, s, k FROM t WHERE g NOT IN (SELECT k FROM u)"),
    ("notinfew", "SELECT g, x, s, k FROM t WHERE g NOT IN (SELECT k FROM u WHERE k < 0)"),
    ("exists", "SELECT g, x, s, k FROM t WHERE EXISTS (SELECT 1 FROM u WHERE u.g = t.g AND u.x > t.x)"),
    ("scalar", "SELECT g, x, s, k FROM t WHERE x > (SELECT avg(x) FROM u)"),
    ("corr", "SELECT g, (SELECT max(u.x) FROM u WHERE u.g = t.g) AS x, s, k FROM t"),
    ("unionall", "SELECT g, x, s, k FROM t UNION ALL SELECT g, x + 1, s, k FROM u UNION ALL SELECT g, x, s, k FROM d WHERE x > 1"),
    ("union", "SELECT g, x, s, 1 AS k FROM t UNION SELECT g, x, s, 1 AS k FROM u"),
    ("unionagg", "SELECT g, max(x) AS x, min(s) AS s, min(k) AS k FROM t GROUP BY g UNION ALL SELECT g, x, s, k FROM u"),
    ("unionjoin", "SELECT t.g, d.x, t.s, t.k FROM t JOIN d ON t.g = d.g UNION ALL SELECT g, x, s, k FROM e UNION ALL SELECT g, count(*), max(s), min(k) FROM u GROUP BY g"),
    ("intersect", "SELECT g, x, 'c' AS s, 1 AS k FROM t INTERSECT SELECT g, x, 'c', 1 FROM u"),
    ("except", "SELECT g, x, s, 1 AS k FROM t EXCEPT SELECT g, x, s, 1 FROM u"),
    ("agg", "SELECT g, count(x) AS x, max(s) AS s, min(k) AS k FROM t GROUP BY g"),
    ("agg2", "SELECT g % 2 AS g, x, s, count(*) AS k FROM t GROUP BY g % 2, x, s"),
    ("global", "SELECT count(*) AS g, sum(x) AS x, max(s) AS s, min(k) AS k FROM t"),
    ("topk", "SELECT g, x, s, k FROM t ORDER BY x DESC NULLS LAST, k LIMIT 7"),
    ("topkjoin", "SELECT t.g, y.x, t.s, t.k * 1000 + y.k AS k FROM t JOIN (SELECT * FROM u ORDER BY k DESC LIMIT 5) y ON t.g = y.g"),
    ("jointopk", "SELECT y.g, u.x, u.s, y.k * 1000 + u.k AS k FROM (SELECT * FROM t ORDER BY k LIMIT 9 OFFSET 2) y LEFT JOIN u ON y.x = u.x"),
    ("distinct", "SELECT DISTINCT g, x, s, 1 AS k FROM t"),
    ("window", "SELECT g, row_number() OVER (PARTITION BY g ORDER BY k) AS x, s, k FROM t"),
    ("windowall", "SELECT g, sum(x) OVER (ORDER BY k ROWS BETWEEN 2 PRECEDING AND CURRENT ROW) AS x, s, k FROM t"),
    ("twoaggs", "SELECT a.g, b.n AS x, CAST(NULL AS VARCHAR) AS s, a.n AS k FROM (SELECT g, count(*) n FROM t GROUP BY g) a JOIN (SELECT g, sum(x) n FROM u GROUP BY g) b ON a.g = b.g"),
    ("three", "SELECT t.g, u.x, d.s, t.k * 1000000 + u.k * 1000 + d.k AS k FROM t JOIN u ON t.g = u.g JOIN d ON u.x = d.x"),
    ("threeleft", "SELECT t.g, u.x, d.s, t.k * 1000000 + coalesce(u.k, 0) * 1000 + coalesce(d.k, 0) AS k FROM t LEFT JOIN u ON t.k = u.k - 100 LEFT JOIN d ON t.g = d.g"),
    ("self", "SELECT a.g, b.x, a.s, a.k * 1000 + b.k AS k FROM t a JOIN t b ON a.k = b.k + 1"),
    ("values", "SELECT column1 AS g, column2 AS x, column3 AS s, column1 AS k FROM (VALUES (1, 2, 'a'), (2, NULL, 'b'), (NULL, 4, NULL))"),
    ("joinvalues", "SELECT t.g, v.column2 AS x, t.s, t.k FROM t JOIN (VALUES (1, 20), (2, 30), (4, 50)) v ON t.g = v.column1"),
    ("unnest", "SELECT g, unnest(a) AS x, s, k FROM (SELECT g, array_agg(x ORDER BY k) a, min(s) s, min(k) k FROM t GROUP BY g)"),
    ("cte", "WITH c AS (SELECT g, sum(x) AS x FROM t GROUP BY g) SELECT a.g, a.x, CAST(NULL AS VARCHAR) AS s, b.x AS k FROM c a JOIN c b ON a.g >= b.g"),
    ("probe", "SELECT t.g, t.x, t.s, t.k FROM u JOIN t ON u.g = t.g AND u.k = t.k + 100"),
    ("probes", "SELECT t.g, t.x, t.s, t.k FROM t WHERE g IN (SELECT g FROM d)"),
    ("limbc", "SELECT t.g, t.x, t.s, t.k FROM (SELECT k FROM u LIMIT 5) y JOIN t ON y.k < t.k + 1000"),
    ("limbcd", "SELECT 1 AS g, 2 AS x, 'a' AS s, count(DISTINCT y.k) AS k FROM (SELECT k FROM u LIMIT 3) y CROSS JOIN t"),
    ("limsub", "SELECT 1 AS g, 2 AS x, 'a' AS s, d.k FROM (SELECT k FROM t LIMIT 6 OFFSET 1) y CROSS JOIN d"),
    ("limunion", "SELECT 1 AS g, 2 AS x, 'a' AS s, 0 AS k FROM (SELECT k FROM t LIMIT 6) UNION ALL SELECT g, x, s, k FROM d"),
    ("series", "SELECT t.g, v.value AS x, t.s, t.k FROM t JOIN generate_series(1, 4) v ON t.g = v.value"),
    ("rec", "SELECT t.g, v.n AS x, t.s, t.k FROM t JOIN (WITH RECURSIVE r AS (SELECT 1 AS n UNION ALL SELECT n + 1 FROM r WHERE n < 4) SELECT n FROM r) v ON t.g = v.n"),
    ("recscan", "SELECT v.n AS g, v.n AS x, 'r' AS s, v.n AS k FROM (WITH RECURSIVE r AS (SELECT min(k) AS n FROM t UNION ALL SELECT t.k + 0 FROM r JOIN t ON t.k = r.n + 3) SELECT n FROM r) v"),
    ("winpart", "SELECT g, count(*) OVER (PARTITION BY g, s) AS x, s, sum(k) OVER (PARTITION BY x ORDER BY k) AS k FROM t"),
    ("lag", "SELECT lag(g) OVER (PARTITION BY s ORDER BY k) AS g, first_value(x) OVER (PARTITION BY g ORDER BY k) AS x, s, ntile(3) OVER (ORDER BY k) AS k FROM t"),
    ("mark", "SELECT g, x, s, k FROM t WHERE x = 3 OR EXISTS (SELECT 1 FROM u WHERE u.x = t.x)"),
    ("inmark", "SELECT g, x, s, k FROM t WHERE x = 3 OR g IN (SELECT g FROM d)"),
    ("notexists", "SELECT g, x, s, k FROM u WHERE NOT EXISTS (SELECT 1 FROM t WHERE t.g = u.g AND t.s = u.s)"),
    ("aggprobe", "SELECT u.g, u.x, u.s, u.k FROM (SELECT g, count(*) n FROM t GROUP BY g) a JOIN u ON a.g = u.g"),
    ("case", "SELECT CASE WHEN x > 4 THEN g ELSE -1 END AS g, x, upper(s) AS s, k FROM t"),
];

pub fn tails() -> Vec<(&'static str, &'static str, Cmp)> {
    use Cmp::*;
    vec![
        ("all", "SELECT g, x, s, k FROM Q", Multiset),
        ("where", "SELECT k, s FROM Q WHERE x >= 3 OR s IS NULL", Multiset),
        ("group", "SELECT g, count(*), sum(x), min(k), max(s) FROM Q GROUP BY g", Multiset),
        ("group2", "SELECT s, g, count(x), avg(x) FROM Q GROUP BY s, g", Multiset),
        ("global", "SELECT count(*), sum(x), min(s), max(k), avg(x) FROM Q", Multiset),
        ("cdist", "SELECT g, count(DISTINCT x), count(DISTINCT s) FROM Q GROUP BY g", Multiset),
        ("cdistall", "SELECT count(DISTINCT x), sum(DISTINCT x), count(*) FROM Q", Multiset),
        ("having", "SELECT x, count(*) FROM Q GROUP BY x HAVING count(*) > 2", Multiset),
        ("distinct", "SELECT DISTINCT s, g FROM Q", Multiset),
        ("order", "SELECT x, k, g, s FROM Q ORDER BY x DESC NULLS LAST, k, g, s", Sequence),
        ("ordgroup", "SELECT g, count(*) n, sum(x) FROM Q GROUP BY g ORDER BY n DESC, g", Sequence),
        ("topk", "SELECT g, k, x, s FROM Q ORDER BY g NULLS FIRST, k DESC, x, s LIMIT 4 OFFSET 2", Sequence),
        ("offset", "SELECT k, g, x, s FROM Q ORDER BY k, g, x, s OFFSET 3", Sequence),
        ("ordk", "SELECT k, g FROM Q ORDER BY k LIMIT 1000", Prefix(1000)),
        ("winkey", "SELECT k, g, count(*) OVER (PARTITION BY g ORDER BY k, x, s ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW), lag(x) OVER (PARTITION BY k ORDER BY g, x, s) FROM Q", Multiset),
        ("winord", "SELECT k, g, row_number() OVER (PARTITION BY g ORDER BY k) FROM Q", Multiset),
        ("grpk", "SELECT k, count(*), max(g) FROM Q GROUP BY k", Multiset),
        ("limit", "SELECT k, g FROM Q LIMIT 4", AnyOf(4)),
        ("limit0", "SELECT k, g FROM Q LIMIT 0", AnyOf(0)),
        ("prefix", "SELECT x, k, g FROM Q ORDER BY x LIMIT 5", Prefix(5)),
        ("rollup", "SELECT g, s, count(*), sum(x), grouping(g) FROM Q GROUP BY ROLLUP(g, s)", Multiset),
        ("sets", "SELECT g, s, count(*) FROM Q GROUP BY GROUPING SETS ((g), (s), ())", Multiset),
        ("rank", "SELECT g, k, x, rank() OVER (PARTITION BY g ORDER BY x), count(*) OVER (PARTITION BY g) FROM Q", Multiset),
        ("winall", "SELECT k, x, s, count(*) OVER (), sum(x) OVER (ORDER BY k, x, s) FROM Q", Multiset),
        ("arr", "SELECT g, array_agg(x ORDER BY x, k), string_agg(s, ',' ORDER BY s) FROM Q GROUP BY g", Multiset),
        ("first", "SELECT g, first_value(x ORDER BY k, x, s), last_value(s ORDER BY k, s, x) FROM Q GROUP BY g", Multiset),
        ("filt", "SELECT g, count(*) FILTER (WHERE x > 3), median(x), bool_or(x > 2) FROM Q GROUP BY g", Multiset),
        ("nested", "SELECT n, count(*) FROM (SELECT g, count(*) n FROM Q GROUP BY g) GROUP BY n", Multiset),
        ("best", "SELECT g, x, k FROM (SELECT g, x, k, s, row_number() OVER (PARTITION BY g ORDER BY k, x, s) r FROM Q) WHERE r <= 2", Multiset),
        ("selfjoin", "SELECT a.g, a.n, b.m FROM (SELECT g, count(*) n FROM Q GROUP BY g) a LEFT JOIN (SELECT x, max(k) m FROM Q GROUP BY x) b ON a.g = b.x", Multiset),
        ("limjoin", "SELECT a.k, d.x, d.k FROM (SELECT * FROM Q ORDER BY k, g, x, s LIMIT 3) a LEFT JOIN d ON a.g = d.g", Multiset),
        ("unionself", "SELECT k FROM Q UNION ALL SELECT x FROM Q", Multiset),
        ("noc", "SELECT 1 FROM Q", Multiset),
        ("cnt", "SELECT count(*) FROM (SELECT 1 FROM Q)", Multiset),
    ]
}

pub fn queries() -> Vec<Query> {
    let mut v = vec![];
    for (sn, s) in SOURCES {
        for (tn, t, cmp) in tails() {
            // The source is a CTE so that every tail can use it more than once.
            v.push(Query { name: format!("{sn}.{tn}"), sql: format!("WITH q AS ({s}) {}", t.replace(" Q", " q")), cmp });
        }
    }
    v
}

/// Configurations: every value of every dimension, and every pair of values of the planner options.
pub fn opts(thorough: bool) -> Vec<Opt> {
    let b = BASE;
    let mut v = vec![b];
    for layout in 0..layouts().len() {
        for (tp, n) in [(1, 2), (2, 3), (3, 2), (4, 4)] {
            v.push(Opt { layout, tp, tasks: (n, n, false), workers: n, ..b });
        }
    }
    for tasks in [(1, 3, false), (3, 1, false), (2, 1, true), (3, 2, true), (2, 3, false)] {
        for join in [0, 1, 2, 3] {
            v.push(Opt { tasks, join, ..b });
        }
    }
    for bits in 0..32u8 {
        for join in [0, 1, 2, 3] {
            let o = Opt { bcast: bits & 1 == 0, iso: bits & 2 == 0, partial: bits & 4 != 0, dynamic: bits & 8 != 0, metrics: bits & 16 != 0, join, ..b };
            if thorough || bits.count_ones() <= 1 || bits == 12 || bits == 9 || bits == 24 {
                v.push(o);
            }
        }
    }
    for layout in 0..layouts().len() {
        v.push(Opt { layout, dynamic: true, workers: 4, tasks: (4, 2, false), ..b });
        v.push(Opt { layout, dynamic: true, tp: 1, workers: 2, tasks: (2, 2, true), join: 1, ..b });
        v.push(Opt { layout, partial: true, tp: 3, join: 1, ..b });
    }
    v.push(Opt { batch: 3, ..b });
    v.push(Opt { batch: 20, layout: 4, join: 1, ..b });
    v.push(Opt { batch: 20, layout: 4, join: 2, ..b });
    v.push(Opt { pes: true, layout: 3, join: 1, tp: 3, ..b });
    v.push(Opt { pes: true, layout: 3, batch: 3, join: 1, tp: 3, partial: true, ..b });
    v.push(Opt { pes: true, layout: 4, batch: 3, join: 2, ..b });
    v.push(Opt { batch: 1, join: 1, ..b });
    v.push(Opt { batch: 2, dynamic: true, ..b });
    v.push(Opt { workers: 1, tasks: (1, 1, false), ..b });
    v.push(Opt { workers: 5, tasks: (5, 4, false), tp: 3, layout: 2, ..b });
    v.push(Opt { tr: Transport::Grpc, ..b });
    v.push(Opt { tr: Transport::Grpc, batch: 2, join: 1, ..b });
    for (workers, max, n) in [(1, 3, 3), (2, 4, 4), (3, 0, 3)] {
        for join in [0, 1, 2] {
            for dynamic in [false, true] {
                v.push(Opt { local: true, workers, max, tasks: (n, n, false), dynamic, join, layout: [1, 4, 3][join as usize], ..b });
            }
        }
        v.push(Opt { workers, max, tasks: (n, n, false), join: 1, ..b });
        v.push(Opt { local: true, workers, max, tasks: (n, n, false), join: 1, batch: 2, tr: Transport::Grpc, ..b });
    }
    v.dedup();
    v
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let os = opts(thorough);
    let qs = queries();
    for (qi, q) in qs.iter().enumerate() {
        for (oi, o) in os.iter().enumerate() {
            // Quick: every query meets every configuration class, each pair of them in a third of
            // the combinations.
            if !thorough && (qi + oi * 5) % 17 != 0 {
                continue;
            }
            let (q, o) = (q.clone(), *o);
            v.push(case(format!("sql/{}/{}", q.name, o.name()), 0, move |_| rt::sim(run_query(o, &q, |_| {}))));
        }
    }
    // Queries that rely on the order of the data below an exchange.
    for q in qs.iter().filter(|q| q.name.ends_with(".ordk") || q.name.ends_with(".winord") || q.name.ends_with(".winkey")) {
        for (i, o) in os.iter().enumerate().filter(|(_, o)| o.layout == 3 || o.layout == 4) {
            if !thorough && !(q.name.starts_with("agg") && (o.pes || o.batch == 20) || q.name.starts_with("t.") && i % 5 == 0) {
                continue;
            }
            for tr in [Transport::Direct, Transport::Grpc] {
                if !thorough && tr == Transport::Grpc {
                    continue;
                }
                let (q, o) = (q.clone(), Opt { tr, ..*o });
                v.push(case(format!("sorted/{}/{}", q.name, o.name()), 1, move |ch| {
                    rt::sim(run_query(o, &q, |c| c.net.set_policy(delays(ch, &[Kind::SetPlan, Kind::Exec, Kind::Batch], 1))))
                }));
            }
        }
    }
    for (qi, q) in qs.iter().enumerate() {
        if qi % if thorough { 5 } else { 37 } != 0 {
            continue;
        }
        for dynamic in [false, true] {
            for tr in [Transport::Direct, Transport::Grpc] {
                if tr == Transport::Grpc && !thorough {
                    continue;
                }
                let (q, o) = (q.clone(), Opt { dynamic, tr, workers: 2, tasks: (2, 2, false), ..BASE });
                v.push(case(format!("late/{}/{}", q.name, o.name()), 1, move |ch| {
                    rt::sim(run_query(o, &q, |c| c.net.set_policy(delays(ch, &[Kind::SetPlan, Kind::Exec, Kind::Batch, Kind::W2C], 1))))
                }));
            }
        }
    }
    v
}
