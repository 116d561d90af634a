#![allow(dead_code)]
mod checks;
mod codec;
mod drv_rust;
mod drv_ts;
mod drv_tst;
mod evolve;
mod exec;
mod model;
mod names;
mod parse;
mod raw;
mod report;
mod typical;
mod util;
mod validate;
mod wire;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let code = match args.get(1).map(String::as_str) {
        Some("check") => {
            let tier = args.get(3).cloned().unwrap_or(tier);
            // Large stack: values nest deeply.
            let prop = args[2].clone();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || checks::run(&prop, &tier, seed, &root))
                .unwrap()
                .join()
                .unwrap_or(2)
        }
        _ => {
            eprintln!("usage: vh check <property> [tier]");
            2
        }
    };
    std::process::exit(code);
}
