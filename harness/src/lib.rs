#![allow(clippy::all)]
pub mod calloc;
pub mod dump;
pub mod engine;
pub mod geo;
pub mod giants;
pub mod joins;
pub mod model;
pub mod queries;
pub mod runner;
pub mod sound;
pub mod spaces;
pub mod tracked;
pub mod variants;
pub mod prelude {
    pub use crate::dump::*;
    pub use crate::engine::*;
    pub use crate::joins::*;
    pub use crate::model::*;
    pub use crate::queries::*;
    pub use crate::runner::*;
    pub use crate::spaces::*;
    pub use crate::variants::*;
    pub use crate::{ensure, explore_all, pick, viol};
}

/// Command line of every check:
/// `<bin> quick|thorough`, `<bin> replay FILE`, and internally
/// `<bin> worker PROP TIER` and `<bin> replay-case PROP TIER CASE`.
pub fn main_for(
    prop: &str,
    level: &str,
    run: fn(&engine::Ctx),
    one: fn(&engine::Case, engine::Tier) -> engine::Res,
) -> ! {
    use engine::*;
    let args: Vec<String> = std::env::args().collect();
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let nthreads = match std::env::var("MC_THREADS") {
        Ok(n) => n.parse().expect("MC_THREADS"),
        Err(_) => std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 8),
    };
    let slots = || {
        if let Ok(p) = std::env::var("RTREE_MC_SLOTS") {
            map_slots(&p);
        }
        limit_memory(24 << 30);
        install_panic_hook();
    };
    let run_one = |case: &str, t: Tier| -> i32 {
        if case == "whole=1" {
            let ctx = Ctx::new(prop, t, nthreads);
            run(&ctx);
            return ctx.finish(level);
        }
        slot_write(0, case);
        match guarded(|| one(&Case::parse(case), t)) {
            Ok(()) => {
                println!("the case passes: {case}");
                0
            }
            Err(Fail::Violation(m)) => {
                println!("VIOLATED property={prop}\n  case: {case}\n  {m}");
                1
            }
            Err(Fail::Engine(m)) => {
                println!("ENGINE-ERROR {m}");
                2
            }
        }
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            slots();
            let ctx = Ctx::new(prop, tier(&args[3]), nthreads);
            run(&ctx);
            ctx.finish(level)
        }
        Some("replay-case") => {
            slots();
            run_one(&args[4], tier(&args[3]))
        }
        Some("replay") => {
            slots();
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let case = text.lines().find_map(|l| l.strip_prefix("case: ")).expect("case line");
            run_one(case, Tier::Quick)
        }
        Some(t @ ("quick" | "thorough")) => {
            let (hang, total) = if t == "quick" { (60, 780) } else { (300, 14400) };
            supervise(prop, t, "worker", hang, total)
        }
        _ => {
            eprintln!("usage: {} quick|thorough | replay FILE", args[0]);
            2
        }
    };
    std::process::exit(code)
}
