//! vharness <ID> [--replay FILE | --guided]: decides one property by generated-input search.
mod alloc_count;
mod dict;
mod gen;
mod guided;
mod model;
mod props;
mod real;
mod runner;

use runner::{Cfg, Tier};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let Some(id) = args.get(1).cloned() else {
        eprintln!("usage: vharness <ID> [--replay FILE]");
        std::process::exit(3);
    };
    let env = |k: &str| std::env::var(k).ok();
    if id == "--dict" {
        let d = dict::dict();
        println!("{:?}\n{:?}\n{:?}", d.words, d.chars, d.nums);
        return;
    }
    let tier = if env("VERIF_TIER").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let cfg = Cfg {
        trace: env("VERIF_TRACE").map(Into::into),
        tier,
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        verif: env("VERIF_DIR").unwrap_or_else(|| "/verif".into()).into(),
        // keeps the thorough tier near ten minutes on eight cores
        scale: env("VERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Thorough { 0.5 } else { 1.0 }),
    };
    runner::install_panic_hook();
    // deep generated structures: run everything on threads with room
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            if let Some(k) = args.iter().position(|a| a == "--replay") {
                let file = &args[k + 1];
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
                props::replay(&id, v["case"].clone())
            } else if args.iter().any(|a| a == "--guided") {
                props::guided(&id, &cfg)
            } else if let Some(k) = args.iter().position(|a| a == "--guided-worker") {
                let num = |k: usize| args[k].parse().expect("number");
                let job = guided::Job {
                    round: num(k + 1),
                    worker: num(k + 2),
                    dir: args[k + 3].clone().into(),
                    trace: std::env::var("VERIF_GUIDED_TRACE").is_ok_and(|t| !t.is_empty()),
                };
                props::guided_worker(&id, &cfg, &job)
            } else {
                props::run(&id, &cfg)
            }
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| {
            eprintln!("the harness itself failed: {}", runner::last_panic());
            3
        });
    std::process::exit(code);
}
