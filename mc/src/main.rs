#![allow(dead_code)]
mod docs;
mod emu;
mod engine;
mod props;
mod report;
mod spec;
use engine::*;
use std::time::Duration;

fn main() {
    std::env::remove_var("NO_COLOR");
    std::env::remove_var("TERM_PROGRAM");
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("worker") { props::worker::child(&args[2..]); return; }
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        let s = std::fs::read_to_string(&args[2]).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&s).expect("json");
        let tier = if v["tier"].as_str() == Some("Thorough") { Tier::Thorough } else { Tier::Quick };
        let mut ctx = Ctx::new(v["property"].as_str().unwrap(), tier, Duration::from_secs(600), report::load_known());
        ctx.replay_only = Some(v);
        props::run(&ctx);
        std::process::exit(report::finish(&ctx));
    }
    let property = args.get(1).cloned().unwrap_or_default();
    let tier = match args.get(2).map(|s| s.as_str()).or(std::env::var("VERIF_TIER").ok().as_deref()) { Some("thorough") => Tier::Thorough, _ => Tier::Quick };
    let cap = match std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()) {
        Some(s) => s,
        None => if tier == Tier::Quick { 400 } else { 840 },
    };
    let ctx = Ctx::new(&property, tier, Duration::from_secs(cap), report::load_known());
    if !props::run(&ctx) { eprintln!("unknown property {property}"); std::process::exit(3); }
    ctx.finish_and_exit();
}
