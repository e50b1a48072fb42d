//! Command line, evidence, known findings and replay files.
use crate::checks;
use crate::explore::*;
use serde_json::json;
use std::time::{Duration, Instant};

const ROOT: &str = "/verif";

fn known(id: &str) -> Vec<(String, String)> {
    // "known: property=<id> key=<key> :: <description>"
    let text = std::fs::read_to_string(format!("{ROOT}/known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ")
            && let Some(rest) = rest.strip_prefix(&format!("property={id} key="))
            && let Some((k, d)) = rest.split_once(" :: ")
        {
            v.push((k.to_string(), d.to_string()));
        }
    }
    v
}

fn write_replay(id: &str, n: usize, f: &Found) -> String {
    let dir = format!("{ROOT}/replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{n}.json");
    let v = json!({
        "property": id, "case": f.case, "choices": f.choices.iter().map(|c| vec![c.0, c.1]).collect::<Vec<_>>(),
        "labels": f.labels, "key": f.viol.key, "message": f.viol.msg,
        "rerun": format!("/verif/run.sh {id} --replay {path}"),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn rss_gb() -> f64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<f64>().ok()))
        .map(|p| p * 4096.0 / 1e9)
        .unwrap_or(0.0)
}

pub fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(id) = args.first().cloned() else {
        for c in checks::all() {
            println!("{}", c.id);
        }
        return;
    };
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let checks = checks::all();
    let Some(check) = checks.into_iter().find(|c| c.id == id) else {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    };
    let start = Instant::now();
    let mut cases = (check.cases)(thorough);
    if args.get(1).map(|s| s.as_str()) == Some("--list") {
        for c in &cases {
            println!("{}", c.id);
        }
        return;
    }
    if args.get(1).map(|s| s.as_str()) == Some("--replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
        let case = v["case"].as_str().unwrap();
        let choices: Vec<(usize, usize)> = v["choices"]
            .as_array()
            .unwrap()
            .iter()
            .map(|c| (c[0].as_u64().unwrap() as usize, c[1].as_u64().unwrap() as usize))
            .collect();
        let Some(c) = cases.iter().find(|c| c.id == case) else {
            eprintln!("no such case");
            std::process::exit(2);
        };
        let (r, ch) = replay(c, choices);
        println!("choices: {:?}", ch.labels);
        match r {
            Ok(o) => println!("holds: {}", o.outcome),
            Err(v) => {
                println!("VIOLATION property={id} replay={}", args[2]);
                println!("  [{}] {}", v.key, v.msg);
                std::process::exit(1);
            }
        }
        return;
    }
    if args.get(1).map(|s| s.as_str()) == Some("--case") {
        cases.retain(|c| c.id.starts_with(&args[2]));
        println!("{} cases", cases.len());
    }
    let known = known(&id);
    let cap = std::env::var("MC_CAP").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 3600 } else { 240 });
    let lim = Limits {
        threads: std::env::var("MC_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8),
        deadline: start + Duration::from_secs(cap),
        max_runs_per_case: if thorough { 400_000 } else { 20_000 },
        stuck_after: Duration::from_secs(90),
        replay_every: 53,
    };
    let id2 = id.clone();
    let (stats, found) = explore(cases, lim, move |f| {
        let p = write_replay(&id2, 0, &f);
        println!("VIOLATION property={id2} replay={p}");
        println!("  case {}: [{}] {}", f.case, f.viol.key, f.viol.msg);
        std::process::exit(1);
    });
    let mut violations = 0;
    let mut by_key = std::collections::BTreeMap::<(String, String), usize>::new();
    let mut seen_known = std::collections::BTreeMap::new();
    for f in &found {
        if let Some((k, d)) = known.iter().find(|(k, _)| *k == f.viol.key) {
            *seen_known.entry((k.clone(), d.clone())).or_insert(0) += 1;
            continue;
        }
        violations += 1;
        let g: Vec<&str> = f.case.split('/').take(2).collect();
        let first = by_key.entry((g.join("/"), f.viol.key.clone())).or_insert(0);
        *first += 1;
        if std::env::var("MC_ALL").is_ok() {
            println!("  fails: {} [{}]", f.case, f.viol.key);
        }
        if *first <= 2 && violations <= 400 {
            let p = write_replay(&id, violations, f);
            println!("VIOLATION property={id} replay={p}");
            println!("  case {}: [{}] {}", f.case, f.viol.key, f.viol.msg.chars().take(1500).collect::<String>());
        }
    }
    for ((g, k), n) in &by_key {
        println!("  {n} violations [{k}] in {g}");
    }
    for ((k, d), n) in &seen_known {
        println!("KNOWN-FINDING: property={id} {d} (key {k}, {n} cases)");
    }
    let wall = start.elapsed().as_secs_f64();
    let mut coverage = json!({
        "exhaustive": !stats.capped && stats.unreproduced == 0,
        "cases": stats.cases,
        "choice_points": stats.choice_points,
        "distinct_outcomes": stats.outcomes.len(),
        "max_deviations": stats.max_deviations,
        "schedules_replayed_identically": stats.replays,
        "unreproduced": stats.unreproduced,
        "diverged": stats.diverged,
        "capped_cases": stats.capped_cases,
        "executions_by_group": stats.by_group,
        "rule": check.rule,
        "samples": stats.samples,
    });
    let m = coverage.as_object_mut().unwrap();
    if check.level == "model_checking" {
        m.insert("states".into(), json!(stats.states.len()));
        m.insert("transitions".into(), json!(stats.transitions));
        m.insert("traces_validated_against_impl".into(), json!(stats.executions));
    } else {
        m.insert("evaluations".into(), json!(stats.executions));
        m.insert("distinct_nontrivial".into(), json!(stats.nontrivial.len()));
    }
    let ev = json!({
        "property": id, "tier": tier, "seed": crate::rt::seed() as i64, "level": check.level,
        "coverage": coverage, "assumptions": check.assumptions, "wall_s": wall, "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{ROOT}/evidence"));
    std::fs::write(format!("{ROOT}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    println!(
        "{id} {tier}: cases={} executions={} choice_points={} states={} outcomes={} nontrivial={} max_dev={} capped={} unreproduced={} diverged={} wall={:.1}s rss={:.1}GB",
        stats.cases, stats.executions, stats.choice_points, stats.states.len(), stats.outcomes.len(),
        stats.nontrivial.len(), stats.max_deviations, stats.capped_cases, stats.unreproduced, stats.diverged, wall, rss_gb()
    );
    std::process::exit(if violations > 0 { 1 } else { 0 });
}
