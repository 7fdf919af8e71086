mod broker;
mod checks;
mod client;
mod codec;
mod report;
mod rng;
mod sys;

use std::sync::atomic::{AtomicBool, AtomicU64};
use std::sync::Mutex;

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into());
    sys::raise_files();
    report::start_heartbeat();
    let ctx = report::Ctx {
        prop: prop.clone(),
        tier: if tier == "thorough" { tier } else { "quick".into() },
        seed,
        dir,
        rule: Mutex::default(),
        assumptions: Mutex::default(),
        evaluations: AtomicU64::new(0),
        distinct: Mutex::default(),
        counters: Mutex::default(),
        samples: Mutex::default(),
        violations: Mutex::default(),
        inconclusive: Mutex::default(),
        stop: AtomicBool::new(false),
        t0: std::time::Instant::now(),
    };
    let Some((_, f)) = checks::ALL.iter().find(|c| c.0 == prop) else {
        eprintln!("usage: vh ID");
        std::process::exit(2);
    };
    f(&ctx);
    std::process::exit(ctx.finish());
}
