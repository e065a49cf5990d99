#![allow(dead_code)]
mod block;
mod diff;
mod env;
mod extra;
mod forks;
mod gen;
mod hostile;
mod known;
mod model;
mod props;
mod real;
mod statetest;
mod report;
mod rng;

use report::{Ctx, Report};
use serde_json::json;
use std::sync::Mutex;
use std::time::Instant;

fn usage() -> ! {
    eprintln!("usage: mega-monitor PROPERTY --tier quick|thorough --seed N --evidence FILE --replay-dir DIR [--only MODULE:INDEX] [--scale PCT]");
    std::process::exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        usage();
    }
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = args[1].clone();
    let thorough = get("--tier").as_deref() == Some("thorough");
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = get("--only").map(|s| {
        let (a, b) = s.rsplit_once(':').unwrap_or_else(|| usage());
        (a.to_string(), b.parse().unwrap_or_else(|_| usage()))
    });
    report::install_panic_hook();
    let c = Ctx {
        prop: prop.clone(),
        thorough,
        seed,
        threads: if only.is_some() { 1 } else { std::thread::available_parallelism().map_or(8, |n| n.get()) },
        start: Instant::now(),
        scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(100),
        only,
        replay_dir: get("--replay-dir").unwrap_or_else(|| ".".into()),
        report: Mutex::new(Report::default()),
    };
    if c.only.is_none() {
        let listed = get("--known").and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
        for (_, id, seen) in known::all().into_iter().filter(|k| k.0 == prop) {
            let line = listed.lines().find(|l| l.starts_with(&format!("finding: property={prop} id={id} ")));
            match report::guard(seen) {
                report::Caught::Done(true) => match line {
                    Some(l) => c.report.lock().unwrap().known.push(l["finding: property=Cxx ".len()..].to_string()),
                    None => c.report.lock().unwrap().violations.push(report::Violation { module: format!("known-{id}"), index: 0, text: format!("unlisted defect {id} (harness/src/known.rs)") }),
                },
                report::Caught::Done(false) => {}
                report::Caught::Panicked(e) | report::Caught::Internal(e) => eprintln!("known finding {id}: {e}"),
            }
        }
    }
    checks(&c);
    let r = c.report.into_inner().unwrap();
    for k in &r.known {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    for m in &r.modules {
        eprintln!("{}: {} cases, {} transactions, {} distinct, {:.1} s", m["name"], m["cases"], m["transactions"], m["distinct"], m["wall_s"].as_f64().unwrap_or(0.0));
        if std::env::var("MON_V").is_ok() {
            eprintln!("   {} {}", m["outcomes"], m["events"]);
        }
    }
    let mut code = 0;
    for e in &r.internal {
        eprintln!("INTERNAL {e}");
        code = 2;
    }
    if let Some(ev) = get("--evidence") {
        let j = json!({
            "property": prop,
            "tier": if thorough { "thorough" } else { "quick" },
            "seed": seed,
            "level": if prop == "C21" { "fault_enumeration" } else { "exploration" },
            "coverage": {
                "evaluations": r.evaluations.max(r.stat.txs).max(r.stat.seen.len() as u64),
                "distinct_nontrivial": r.stat.seen.len(),
                "rule": r.modules.iter().map(|m| format!("{}: {}", m["name"].as_str().unwrap_or(""), m["rule"].as_str().unwrap_or(""))).collect::<Vec<_>>().join(" | "),
                "samples": r.samples.iter().take(12).collect::<Vec<_>>(),
                "modules": r.modules,
                "known_findings_observed": r.known,
            },
            "assumptions": r.assumptions,
            "wall_s": c.start.elapsed().as_secs_f64(),
            "violations": r.violations.len(),
        });
        std::fs::write(&ev, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    }
    let dir = &c.replay_dir;
    for v in r.violations.iter().take(3) {
        let path = format!("{dir}/{prop}-{}-{}.txt", v.module, v.index);
        let text = format!("property {prop}\nmodule {}\nindex {}\nseed {seed}\nreplay: mega-monitor {prop} --seed {seed} --only {}:{}\n\n{}\n", v.module, v.index, v.module, v.index, v.text);
        let _ = std::fs::write(&path, &text);
        eprintln!("{text}");
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

fn checks(c: &Ctx) {
    match c.prop.as_str() {
        "C01" => {
            extra::op_differential(c, 14);
            props::run_works(c, 8);
        }
        "C15" => {
            extra::fresh_instance(c, 12);
            props::run_works(c, 8);
        }
        "C16" => {
            extra::determinism(c, 12);
            extra::intercept(c, 6);
            props::run_works(c, 8);
        }
        "C25" => {
            extra::read_set(c, 10);
            extra::batch(c, 8);
            block::blocks(c, 10, "blocks", &[block::T::Witness]);
        }
        "C12" => {
            props::run_works(c, 16);
            extra::batch(c, 4);
            block::blocks(c, 6, "blocks", &[block::T::Result]);
        }
        "C21" => {
            extra::faults(c, 12, true, "db");
            extra::faults(c, 8, false, "salt");
            block::faults(c, 10);
        }
        "C17" => {
            block::limiter(c, 4);
            block::blocks(c, 18, "blocks", &[block::T::Admit, block::T::Result]);
        }
        "C18" => {
            block::blocks(c, 18, "blocks", &[block::T::Result]);
            block::generic(c, 6);
        }
        "C20" => block::blocks(c, 18, "blocks", &[block::T::System]),
        "C03" => {
            props::run_works(c, 10);
            forks::new_blocks(c, 6);
            block::blocks(c, 6, "blocks", &[block::T::Witness]);
        }
        "C04" => {
            forks::sizes(c, 10, &[diff::F::Status, diff::F::Compute]);
            props::run_works(c, 18);
        }
        "C26" => statetest::suites(c, 26),
        "C24" => {
            let _ = mega_evm::revm::precompile::kzg_point_evaluation::run(&gen::hex(gen::KZG), 1_000_000);
            props::run_works(c, 24);
        }
        "C19" => {
            forks::tables(c);
            forks::schedules(c, 10);
            forks::defaults(c, 25);
        }
        "C23" => {
            forks::sizes(c, 30, &[]);
            props::run_works(c, 10);
        }
        "C22" => {
            hostile::recursion(c, 60);
            hostile::transactions(c, 20);
            hostile::blocks(c, 12);
        }
        _ => props::run_works(c, 18),
    }
}
