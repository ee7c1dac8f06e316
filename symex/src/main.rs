//! `symex check <id> --tier quick|thorough --out FILE --replays DIR [--budget S] [--case NAME]`
//! `symex replay FILE`
mod engine;
mod grid;
mod props;
mod real;
mod solver;

use engine::*;
use props::{Case, Domain, Tier};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn config(case: &Case, budget: Duration, lanes: usize) -> Config {
    Config {
        solver: std::env::var("SOLVER").unwrap_or(case.solver.into()),
        logic: "",
        query_timeout_ms: if case.domain == Domain::Real { 25_000 } else { 60_000 },
        workers: std::env::var("WORKERS")
            .ok()
            .and_then(|w| w.parse().ok())
            .unwrap_or(8 / lanes),
        budget,
        max_decisions: 20_000,
        new_dom: match case.domain {
            Domain::Grid => grid::Grid::boxed,
            Domain::Real => real::Reals::boxed,
        },
        conform: case.conform,
        // A model of the bounds of a real need not be a value that takes the path.
        lenient: case.domain == Domain::Real,
        refine: match case.domain {
            Domain::Grid => None,
            Domain::Real => Some(real::consistent),
        },
        fresh: match case.domain {
            Domain::Grid => None,
            Domain::Real => Some((
                std::env::var("FRESH_N").map_or(3, |n| n.parse().unwrap()),
                Duration::from_millis(std::env::var("FRESH_T").map_or(700, |n| n.parse().unwrap())),
            )),
        },
        max_unconfirmed: 3,
    }
}

fn replay_case(case: &Case, inputs: &Inputs) -> Vec<(&'static str, String)> {
    let natives: &[_] = match case.domain {
        Domain::Grid => &[("f64", &case.native64), ("f32", &case.native32)],
        Domain::Real => &[("machine type of the case", &case.native64)],
    };
    natives
        .iter()
        .copied()
        .filter_map(|(t, run)| match run_native(inputs, run) {
            PathEnd::Violation(m) => Some((t, m)),
            _ => None,
        })
        .collect()
}

fn run_case(case: &Case, budget: Duration, lanes: usize) -> Report {
    let confirm = |inputs: &Inputs, _: &str| -> Option<Found> {
        let hits = replay_case(case, inputs);
        let (_, message) = hits.first()?.clone();
        Some(Found {
            message,
            inputs: inputs.clone(),
            reproduced_in: hits.iter().map(|h| h.0.to_string()).collect(),
        })
    };
    let natives: Vec<Harness> = match case.domain {
        Domain::Grid => vec![&*case.native64, &*case.native32],
        Domain::Real => vec![&*case.native64],
    };
    explore(&config(case, budget, lanes), &*case.symbolic, &natives, &confirm)
}

fn report_json(case: &Case, r: &Report, missing: &[&str]) -> Value {
    json!({
        "case": case.name,
        "bounds": case.bounds,
        "complete": r.complete,
        "paths": r.paths,
        "cut_by_assumption": r.cut,
        "decisions": r.decisions,
        "paths_replayed_natively_with_equal_outcome": r.validated,
        "distinct_outcomes": r.outcomes.len(),
        "solver": case.solver,
        "queries": r.solver.queries,
        "queries_sat": r.solver.sat,
        "queries_unsat": r.solver.unsat,
        "queries_unknown": r.solver.unknown,
        "solver_s": (r.solver.nanos / 1_000_000) as f64 / 1000.0,
        "wall_s": (r.wall * 1000.0).round() / 1000.0,
        "witnesses": r.covers.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
        "witnesses_missing": missing,
        "inconclusive": r.inconclusive,
        "errors": r.errors,
        "nonconforming": r.nonconforming,
        "unconfirmed": r.unconfirmed.iter().map(|(m, i)| json!({"message": m, "inputs": i.values, "choices": i.choices})).collect::<Vec<_>>(),
        "samples": r.samples,
    })
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| -> Option<String> {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1).cloned())
    };
    match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let id = args[1].clone();
            let tier = if opt("--tier").as_deref() == Some("thorough") {
                Tier::Thorough
            } else {
                Tier::Quick
            };
            let budget: u64 = opt("--budget").and_then(|b| b.parse().ok()).unwrap_or(700);
            std::process::exit(check(&id, tier, budget, opt("--out"), opt("--replays"), opt("--case")));
        }
        Some("replay") => std::process::exit(replay(&args[1])),
        _ => {
            eprintln!("usage: symex check ID [--tier T] [--out F] [--replays D] | replay FILE");
            std::process::exit(2);
        }
    }
}

/// Situations that no explored path reached.
fn uncovered(case: &Case, r: &Report) -> Vec<&'static str> {
    if r.found.is_some() {
        return vec![];
    }
    case.covers.iter().filter(|c| !r.covers.contains_key(*c)).copied().collect()
}

fn check(
    id: &str,
    tier: Tier,
    budget: u64,
    out: Option<String>,
    replays: Option<String>,
    only: Option<String>,
) -> i32 {
    let Some(check) = props::check(id) else {
        eprintln!("no check {id}");
        return 2;
    };
    let start = Instant::now();
    let cases: Vec<&Case> = check
        .cases
        .iter()
        .filter(|c| c.tier <= tier && only.as_ref().is_none_or(|o| c.name.contains(o.as_str())))
        .collect();
    let next = AtomicUsize::new(0);
    let lanes = check.lanes().min(cases.len()).max(1);
    let reports: Mutex<Vec<Option<Report>>> = Mutex::new(cases.iter().map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..lanes {
            s.spawn(|| loop {
                let at = next.fetch_add(1, SeqCst);
                if at >= cases.len() || HALT.load(SeqCst) {
                    break;
                }
                let case = cases[at];
                let left = Duration::from_secs(budget).saturating_sub(start.elapsed());
                set_hash_seed(case.seed);
                let r = run_case(case, left, lanes);
                eprintln!(
                    "  {:<44} {:>7} paths {:>8} queries {:>7.2} s  solver {:>8.2} s {}",
                    case.name,
                    r.paths,
                    r.solver.queries,
                    r.wall,
                    r.solver.nanos as f64 / 1e9,
                    if r.found.is_some() {
                        "VIOLATED"
                    } else if r.conclusive() && uncovered(case, &r).is_empty() {
                        "ok"
                    } else {
                        "INCONCLUSIVE"
                    }
                );
                if r.found.is_some() {
                    HALT.store(true, SeqCst);
                }
                reports.lock().unwrap()[at] = Some(r);
            });
        }
    });
    let mut results = vec![];
    let mut violation = None;
    let mut bad = vec![];
    for (case, r) in cases.iter().zip(reports.into_inner().unwrap()) {
        let Some(r) = r else { continue };
        let missing = uncovered(case, &r);
        results.push(report_json(case, &r, &missing));
        if let Some(f) = &r.found {
            let v = json!({
                "property": id,
                "case": case.name,
                "bounds": case.bounds,
                "message": f.message,
                "inputs": f.inputs.values,
                "choices": f.inputs.choices,
                "hash_seed": case.seed,
                "reproduced_in": f.reproduced_in,
            });
            eprintln!("  violated: {v}");
            violation = Some(v);
        } else if !HALT.load(SeqCst) && (!r.conclusive() || !missing.is_empty()) {
            let why = format!(
                "{}: complete {} unknown {} missing {:?} inconclusive {:?} errors {:?} nonconforming {:?} unconfirmed {:?}",
                case.name, r.complete, r.unknown, missing, r.inconclusive, r.errors, r.nonconforming, r.unconfirmed
            );
            eprintln!("  {why}");
            bad.push(why);
        }
    }
    let mut replay_path = Value::Null;
    if let (Some(v), Some(dir)) = (&violation, &replays) {
        let _ = std::fs::create_dir_all(dir);
        let path = format!("{dir}/{id}.json");
        std::fs::write(&path, serde_json::to_string_pretty(v).unwrap()).unwrap();
        replay_path = json!(path);
    }
    let summary = json!({
        "property": id,
        "functions": check.functions,
        "assumptions": check.assumptions,
        "cases": results,
        "violation": violation,
        "replay": replay_path,
        "inconclusive": bad,
        "wall_s": start.elapsed().as_secs_f64(),
    });
    if let Some(out) = out {
        std::fs::write(out, serde_json::to_string_pretty(&summary).unwrap()).unwrap();
    }
    if violation.is_some() {
        1
    } else if bad.is_empty() {
        0
    } else {
        2
    }
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap();
    let name = v["case"].as_str().unwrap();
    if let Some(seed) = v["hash_seed"].as_u64() {
        set_hash_seed(seed);
    }
    let inputs = Inputs {
        values: v["inputs"].as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect(),
        choices: v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
    };
    let check = props::check(id).expect("check");
    let case = check.cases.iter().find(|c| c.name == name).expect("case");
    let hits = replay_case(case, &inputs);
    for (t, m) in &hits {
        println!("{id} {name} ({t}): {m}");
    }
    if hits.is_empty() {
        println!("{id} {name}: does not reproduce");
        0
    } else {
        1
    }
}
