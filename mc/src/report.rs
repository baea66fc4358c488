//! evidence file, known findings, verdict lines
use crate::engine::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::*;

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn load_known() -> Vec<Known> {
    let p = verif_dir().join("known_findings.jsonl");
    let Ok(s) = std::fs::read_to_string(&p) else { return Vec::new() };
    s.lines().filter(|l| l.trim_start().starts_with('{')).map(|l| {
        let v: Value = serde_json::from_str(l).unwrap_or_else(|e| { eprintln!("bad known finding {l}: {e}"); std::process::exit(3) });
        Known {
            property: v["property"].as_str().unwrap_or("").into(),
            sig: v["sig"].as_str().unwrap_or("\u{0}").into(),
            case_contains: v["case_contains"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default(),
            what: v["what"].as_str().unwrap_or("").into(),
        }
    }).collect()
}

pub fn finish(ctx: &Ctx) -> i32 {
    let dir = verif_dir();
    let ev_dir = dir.join("evidence");
    let _ = std::fs::create_dir_all(&ev_dir);
    let found = ctx.found.lock().unwrap();
    for (i, k) in ctx.known.iter().enumerate() {
        if k.property != ctx.property { continue; }
        let n = ctx.known_hits.lock().unwrap().get(&i).map(|x| x.0).unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} (met {} times in this run)", k.property, k.what, n);
    }
    let mut code = 0;
    if !found.is_empty() {
        let rd = ev_dir.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let mut all: Vec<&Found> = found.values().collect();
        all.sort_by_key(|f| f.order);
        for (n, f) in all.iter().enumerate() {
            let p = rd.join(format!("{}-{}.json", ctx.property, n));
            let mut case = f.case.clone();
            case["property"] = json!(ctx.property);
            case["tier"] = json!(format!("{:?}", ctx.tier));
            case["sig"] = json!(f.v.sig);
            case["msg"] = json!(f.v.msg);
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&case).unwrap());
            println!("--- {} [{}] {}", f.family, f.v.sig, f.v.msg);
            println!("    case: {}", clip(&f.case.to_string(), 1500));
            println!("VIOLATION property={} replay={}", ctx.property, p.display());
            code = 1;
            if n >= 9 { break; }
        }
    }
    if ctx.replay_only.is_some() { return code; }
    let wall = ctx.start.elapsed().as_secs_f64();
    let ev = json!({
        "property": ctx.property,
        "tier": match ctx.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": ctx.states.load(Relaxed),
            "transitions": ctx.transitions.load(Relaxed),
            "traces_validated_against_impl": ctx.traces.load(Relaxed),
            "distinct_outcomes_at_least": ctx.outcome_count(),
            "nontrivial_executions": ctx.nontrivial.load(Relaxed),
            "exhaustive": !ctx.capped.load(Relaxed) && found.is_empty(),
            "families": *ctx.families.lock().unwrap(),
            "samples": *ctx.samples.lock().unwrap(),
        },
        "assumptions": crate::props::assumptions(&ctx.property),
        "wall_s": wall,
        "violations": found.len(),
    });
    write_atomic(&ev_dir.join(format!("{}.json", ctx.property)), &serde_json::to_string_pretty(&ev).unwrap());
    println!("{} {:?}: states={} transitions={} executions={} outcomes>={} capped={} wall={:.1}s", ctx.property, ctx.tier,
        ctx.states.load(Relaxed), ctx.transitions.load(Relaxed), ctx.traces.load(Relaxed), ctx.outcome_count(), ctx.capped.load(Relaxed), wall);
    if std::env::var("MC_VERBOSE").is_ok() {
        for f in ctx.families.lock().unwrap().iter() { println!("  {f}"); }
    }
    code
}

fn write_atomic(p: &Path, s: &str) {
    let t = p.with_extension("tmp");
    std::fs::write(&t, s).expect("write evidence");
    std::fs::rename(&t, p).expect("rename evidence");
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.into() } else { s.chars().take(n).collect::<String>() + "…" }
}
