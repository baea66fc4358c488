#![allow(static_mut_refs)]
mod explore;
mod props;
mod rt;
mod term;
use explore::*;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn verif_dir() -> PathBuf { std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif")) }

fn main() {
    std::env::remove_var("NO_COLOR");
    crossbeam_channel::mc::set_point(rt::point);
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).cloned().unwrap_or_default();
    match arg(1).as_str() {
        "worker" => {
            let quick = arg(3) == "quick";
            let fams = props::families(&arg(2), quick).unwrap();
            let deadline = Instant::now() + Duration::from_secs(arg(6).parse().unwrap());
            worker(&fams, arg(4).parse().unwrap(), arg(5).parse().unwrap(), deadline);
        }
        "replay" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(arg(2)).expect("replay file")).expect("json");
            let fams = props::families(v["property"].as_str().unwrap(), v["tier"] == "quick").unwrap();
            let fam = fams.iter().find(|f| f.name == v["family"].as_str().unwrap()).expect("family");
            let choices: Vec<u8> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            match replay(fam, v["idx"].as_u64().unwrap(), rt::Shm::map(), &choices) {
                Outcome::Held => println!("held"),
                Outcome::Violation { sig, msg, .. } => { println!("[{sig}] {msg}"); println!("VIOLATION property={} replay={}", v["property"].as_str().unwrap(), arg(2)); std::process::exit(1) }
                Outcome::Internal(m) => { println!("internal error: {m}"); std::process::exit(3) }
            }
        }
        _ => std::process::exit(check(&arg(1), args.get(2).cloned().or(std::env::var("VERIF_TIER").ok()).as_deref() != Some("thorough"))),
    }
}

fn check(property: &str, quick: bool) -> i32 {
    let start = Instant::now();
    let tier = if quick { "quick" } else { "thorough" };
    let Some(fams) = props::families(property, quick) else { eprintln!("unknown property {property}"); return 3 };
    let shards: u64 = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64));
    let cap = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { 400u64 } else { 840 });
    let exe = std::env::current_exe().unwrap();
    let kids: Vec<_> = (0..shards).map(|s| Command::new(&exe).args(["worker", property, tier, &s.to_string(), &shards.to_string(), &cap.to_string()]).stdout(Stdio::piped()).spawn().expect("worker")).collect();
    let mut tot: Vec<Value> = fams.iter().map(|f| json!({"family": f.name, "bounds": f.bounds, "delay_bound": f.bound, "cases": f.n, "explored": 0, "executions": 0, "steps": 0, "nontrivial": 0, "states": 0, "outcomes": 0, "max_points": 0, "exhaustive": true})).collect();
    let mut found: Vec<(usize, Value)> = Vec::new();
    for mut k in kids {
        let out = BufReader::new(k.stdout.take().unwrap());
        let mut seen = 0;
        for l in out.lines() {
            let Ok(v) = serde_json::from_str::<Value>(&l.unwrap()) else { continue };
            seen += 1;
            let f = v["family"].as_u64().unwrap() as usize;
            for (a, b) in [("explored", "scenarios"), ("executions", "executions"), ("steps", "steps"), ("nontrivial", "nontrivial"), ("states", "states"), ("outcomes", "outcomes")] {
                tot[f][a] = json!(tot[f][a].as_u64().unwrap() + v[b].as_u64().unwrap());
            }
            tot[f]["max_points"] = json!(tot[f]["max_points"].as_u64().unwrap().max(v["max_points"].as_u64().unwrap()));
            if v["capped"].as_u64().unwrap() > 0 || v["timeout"] == json!(true) { tot[f]["exhaustive"] = json!(false); }
            if !v["violation"].is_null() { found.push((f, v["violation"].clone())); tot[f]["exhaustive"] = json!(false); }
        }
        let st = k.wait().unwrap();
        if !st.success() || seen != fams.len() { eprintln!("a worker died ({st})"); return 3; }
    }
    let mut code = 0;
    let known = known(property);
    let mut hits = vec![0u64; known.len()];
    let ev_dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(ev_dir.join("replays"));
    found.sort_by_key(|(f, v)| (*f, v["idx"].as_u64().unwrap_or(0)));
    let mut seen: Vec<String> = Vec::new();
    let mut violations = 0;
    for (f, v) in &found {
        if let Some(m) = v["internal"].as_str() { eprintln!("internal error in {} {}: {m}", fams[*f].name, v["idx"]); if code == 0 { code = 3; } continue; }
        let sig = v["sig"].as_str().unwrap().to_string();
        let case = (fams[*f].describe)(v["idx"].as_u64().unwrap());
        let text = format!("{case} {}", v["msg"].as_str().unwrap());
        if let Some(i) = known.iter().position(|k| sig.starts_with(k["sig"].as_str().unwrap_or("\0")) && k["case_contains"].as_array().is_none_or(|a| a.iter().all(|x| text.contains(x.as_str().unwrap())))) { hits[i] += 1; continue; }
        if seen.contains(&sig) { continue; }
        seen.push(sig.clone());
        violations += 1;
        let p = ev_dir.join("replays").join(format!("{property}-{}.json", violations - 1));
        let r = json!({"property": property, "tier": tier, "family": fams[*f].name, "idx": v["idx"], "choices": v["choices"], "case": case, "sig": sig, "msg": v["msg"]});
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&r).unwrap());
        println!("--- {} [{sig}] {}\n    case: {case}", fams[*f].name, v["msg"].as_str().unwrap());
        println!("VIOLATION property={property} replay={}", p.display());
        code = 1;
    }
    for (k, h) in known.iter().zip(&hits) { println!("KNOWN-FINDING: property={property} {} (met {h} times in this run)", k["what"].as_str().unwrap_or("")); }
    let sum = |k: &str| tot.iter().map(|f| f[k].as_u64().unwrap()).sum::<u64>();
    let samples: Vec<Value> = fams.iter().flat_map(|f| [f.n / 3, f.n * 2 / 3].map(|i| json!({"family": f.name, "case": (f.describe)(i.min(f.n - 1))}))).collect();
    let exhaustive = tot.iter().all(|f| f["exhaustive"] == json!(true));
    let wall = start.elapsed().as_secs_f64();
    let ev = json!({
        "property": property, "tier": tier, "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1), "level": "model_checking",
        "coverage": {
            "states": sum("states"), "transitions": sum("steps"), "traces_validated_against_impl": sum("executions"),
            "distinct_outcomes_at_least": sum("outcomes"), "nontrivial": sum("nontrivial"), "exhaustive": exhaustive, "families": tot, "samples": samples,
        },
        "assumptions": ["sequentially consistent memory; context switches at operations on channels, futexes, thread creations and ends, and calls to the terminal",
            "the terminal behaves as the model of sched/src/term.rs", "crokey's Combiner combines keys as it should (it is a dependency)",
            "states counts the distinct (history, thread statuses, time) met by each worker process"],
        "wall_s": wall, "violations": violations,
    });
    let p = ev_dir.join(format!("{property}.json"));
    std::fs::write(p.with_extension("tmp"), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    std::fs::rename(p.with_extension("tmp"), &p).expect("evidence");
    println!("{property} {tier}: states={} transitions={} executions={} outcomes>={} exhaustive={exhaustive} wall={wall:.1}s", sum("states"), sum("steps"), sum("executions"), sum("outcomes"));
    if std::env::var("MC_VERBOSE").is_ok() { for f in &tot { println!("  {f}"); } }
    code
}

fn known(property: &str) -> Vec<Value> {
    let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.jsonl")) else { return Vec::new() };
    s.lines().filter(|l| l.trim_start().starts_with('{')).filter_map(|l| serde_json::from_str::<Value>(l).ok()).filter(|v| v["property"] == property).collect()
}
