#![allow(dead_code)]
//! mc check <ID> [--tier quick|thorough] [--only <scenario>] [--keep-going]
//! mc replay <file>
//! mc list
mod det;
mod engine;
mod exec;
mod net;
mod props;
mod scratch;
mod sysfs;

use std::{
    io::Write,
    os::unix::process::ExitStatusExt,
    time::{Duration, Instant},
};

use engine::*;

fn arg(name: &str) -> Option<String> {
    let args: Vec<String> = std::env::args().collect();
    args.iter()
        .position(|a| a == name)
        .and_then(|p| args.get(p + 1).cloned())
}

fn flag(name: &str) -> bool {
    std::env::args().any(|a| a == name)
}

fn out_dir() -> String {
    std::env::var("MC_OUT").unwrap_or("/verif".into())
}

fn options() -> Options {
    let tier = arg("--tier")
        .or(std::env::var("VERIF_TIER").ok())
        .unwrap_or("quick".into());
    let tier = if tier == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let wall = std::env::var("MC_WALL")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(tier.pick(240u64, 3000));
    Options {
        tier,
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        workers: std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .clamp(1, 16),
        wall: Duration::from_secs(wall),
        hang: Duration::from_secs(tier.pick(40, 90)),
        keep_going: flag("--keep-going"),
        only: arg("--only"),
        out_dir: out_dir(),
    }
}

fn find(id: &str) -> Prop {
    props::all()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        })
}

fn main() {
    // Every error would collect a backtrace, one after the other
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.level);
            }
        }
        Some("check") => {
            let id = args.get(2).expect("property id").clone();
            if std::env::var("MC_CHILD").is_ok() {
                child(&id);
            } else {
                parent(&id);
            }
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(
                &std::fs::read_to_string(args.get(2).expect("file")).expect("reading"),
            )
            .expect("json");
            install_panic_hook();
            let p = find(v["property"].as_str().unwrap());
            let tier = if v["tier"] == "Thorough" {
                Tier::Thorough
            } else {
                Tier::Quick
            };
            let path = v["path"]
                .as_array()
                .unwrap()
                .iter()
                .map(|c| c.as_u64().unwrap() as u16)
                .collect();
            let bad = replay(
                &p,
                tier,
                v["seed"].as_u64().unwrap_or(1),
                v["scenario"].as_str().unwrap(),
                path,
            );
            let _ = std::fs::remove_dir_all(scratch::root(std::process::id()));
            std::process::exit(if bad { 1 } else { 0 });
        }
        _ => {
            eprintln!("usage: mc check <ID> [--tier quick|thorough] | mc replay <file> | mc list");
            std::process::exit(2);
        }
    }
}

fn write_evidence(p: &Prop, o: &Options, coverage: serde_json::Value, wall: f64, violations: usize) {
    let dir = format!("{}/evidence", o.out_dir);
    let _ = std::fs::create_dir_all(&dir);
    let ev = serde_json::json!({
        "property": p.id,
        "level": p.level,
        "coverage": coverage,
        "violations": violations,
        "assumptions": p.assumptions,
        "seed": o.seed,
        "tier": o.tier.pick("quick", "thorough"),
        "wall_s": wall,
    });
    std::fs::write(
        format!("{dir}/{}.json", p.id),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("writing evidence");
}

fn child(id: &str) -> ! {
    if let Ok(f) = std::env::var("MC_CRUMBS") {
        crumbs::init(&f);
    }
    if std::env::var("MC_PANIC").is_err() {
        install_panic_hook();
    }
    let o = options();
    let p = find(id);
    let known = Known::load(&format!("{}/known-findings.json", out_dir()));
    let start = Instant::now();
    let res = match std::panic::catch_unwind(|| explore(&p, &o, &known)) {
        Ok(r) => r,
        Err(_) => {
            eprintln!("the checker panicked: {}", take_panic().unwrap_or_default());
            std::process::exit(2)
        }
    };
    write_evidence(&p, &o, res.coverage.clone(), start.elapsed().as_secs_f64(), res.violations.len());
    for (pr, k, what) in &known.list {
        if pr == p.id && res.known.contains_key(k) {
            println!("KNOWN-FINDING: property={} {what}", p.id);
        }
    }
    for v in &res.violations {
        let file = write_replay(&p, &o, v);
        println!("{}: {} [{}]: {}", p.id, v.scenario, v.key, v.msg);
        println!("VIOLATION property={} replay={}", p.id, file);
    }
    println!(
        "{}: {} executions, {} transitions, {} states, {} distinct outcomes, exhaustive={} in {:.1}s",
        p.id,
        res.totals[0],
        res.totals[1],
        res.totals[4],
        res.totals[5],
        res.coverage["exhaustive"],
        start.elapsed().as_secs_f64()
    );
    let _ = std::io::stdout().flush();
    // Don't wait for threads which are stuck in the code under test.
    unsafe { libc::_exit(if res.violations.is_empty() { 0 } else { 1 }) }
}

fn parent(id: &str) -> ! {
    let o = options();
    let p = find(id);
    let dir = format!("{}/.scratch", out_dir());
    let _ = std::fs::create_dir_all(&dir);
    let crumbs_file = format!("{dir}/crumbs-{}-{}", id, std::process::id());
    std::fs::write(&crumbs_file, vec![0u8; crumbs::SLOT * crumbs::SLOTS]).expect("crumbs");
    let start = Instant::now();
    let mut proc = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(std::env::args().skip(1))
        .env("MC_CHILD", "1")
        .env("MC_CRUMBS", &crumbs_file)
        .spawn()
        .expect("child");
    let status = proc.wait().expect("child");
    let _ = std::fs::remove_dir_all(scratch::root(proc.id()));
    let raw = std::fs::read(&crumbs_file).unwrap_or_default();
    let _ = std::fs::remove_file(&crumbs_file);
    if let Some(code) = status.code() {
        std::process::exit(code);
    }
    let sig = status.signal().unwrap_or(0);
    if sig != libc::SIGSEGV && sig != libc::SIGABRT && sig != libc::SIGILL && sig != libc::SIGBUS {
        eprintln!("the checker has been killed by signal {sig}");
        std::process::exit(2);
    }
    // The code under test crashed the process, e.g., by a stack overflow: find out which execution.
    let scns = (p.scenarios)(o.tier);
    for slot in 0..crumbs::SLOTS {
        if let Some((scn, path)) = crumbs::read(&raw, slot) {
            let Some(s) = scns.get(scn) else { continue };
            let v = Violation {
                key: "crash".into(),
                msg: format!("the process has been killed by signal {sig}"),
                scenario: s.name.clone(),
                path,
            };
            let file = write_replay(&p, &o, &v);
            let st = std::process::Command::new(std::env::current_exe().expect("exe"))
                .args(["replay", &file])
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status()
                .expect("replay");
            if st.code().is_none() || st.code() == Some(1) {
                write_evidence(
                    &p,
                    &o,
                    serde_json::json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule,
                        "samples": [format!("{}: {:?}", v.scenario, v.path)], "states": 1,
                        "transitions": 1, "traces_validated_against_impl": 1, "exhaustive": false}),
                    start.elapsed().as_secs_f64(),
                    1,
                );
                println!("{}: {} [crash]: {}", p.id, v.scenario, v.msg);
                println!("VIOLATION property={} replay={}", p.id, file);
                std::process::exit(1);
            }
            let _ = std::fs::remove_file(&file);
        }
    }
    eprintln!("the checker crashed with signal {sig}, but no execution reproduces it");
    std::process::exit(2);
}
