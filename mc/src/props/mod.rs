use crate::engine::*;
pub mod api;
pub mod faults;
pub mod fit;
pub mod inputs;
pub mod lists;
pub mod misc;
pub mod render;
pub mod styles;
pub mod views;
pub mod worker;

pub fn run(ctx: &Ctx) -> bool {
    match ctx.property.as_str() {
        p if render::handles(p) => render::run(ctx),
        "C07" | "C08" => fit::run(ctx),
        "C09" | "C10" | "C11" => views::run(ctx),
        "C12" | "C13" | "C14" => inputs::run(ctx),
        "C17" | "C18" | "C26" => styles::run(ctx),
        "C23" => worker::run(ctx),
        "C24" | "C25" | "C27" | "C28" | "C29" => misc::run(ctx),
        "C30" => api::run(ctx),
        "C31" => faults::run(ctx),
        "C15" | "C16" => lists::run(ctx),
        _ => return false,
    }
    true
}

pub fn assumptions(p: &str) -> Vec<String> {
    let mut v = vec!["minimad parses markdown as it should (it is a dependency)".to_string(),
        "column widths of chars are the ones of unicode-width 0.1.14; control characters and multi-char emoji sequences are outside of the alphabets".to_string()];
    let _ = p;
    v.push("the terminal interprets CUP/SGR/EL as the emulator of mc/src/emu.rs does".to_string());
    v
}
