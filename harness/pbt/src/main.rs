//! Property-based tests of rustc_apfloat: `apf-pbt run <property>`,
//! `apf-pbt replay <file>`, `apf-pbt list`.

pub mod big;
pub mod case;
pub mod engine;
pub mod gen;
pub mod model;
pub mod props;
pub mod rng;
pub mod wide;

use engine::{Config, Outcome};

fn env(k: &str, d: &str) -> String {
    std::env::var(k).ok().filter(|v| !v.is_empty()).unwrap_or_else(|| d.to_string())
}

fn main() {
    engine::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let all = props::all();
    let tier = env("VERIF_TIER", "quick");
    let seed = env("VERIF_SEED", "1");
    let seed = seed.parse::<u64>().unwrap_or_else(|_| seed.bytes().fold(17, |h, b| h * 31 + b as u64));
    let effort = env("APF_EFFORT", if tier == "thorough" { "30" } else { "3" }).parse().unwrap_or(3);
    let cfg = Config {
        seed,
        tier: if tier == "thorough" { tier } else { "quick".into() },
        effort,
        threads: env("APF_THREADS", "").parse().unwrap_or_else(|_| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)),
        dir: env("APF_DIR", "/verif"),
        hang_secs: 60,
    };
    let code = match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in &all {
                println!("{} {}", p.id, p.title);
            }
            0
        }
        Some(cmd @ ("run" | "run-inner")) if args.len() == 2 => match all.iter().find(|p| p.id == args[1]) {
            Some(p) if cmd == "run" => engine::supervise(p, &cfg),
            Some(p) => engine::run(p, &cfg),
            None => {
                println!("ERROR: no property {}", args[1]);
                3
            }
        },
        Some("chunk") if args.len() == 5 => {
            let n = |i: usize| args[i].parse::<u64>().unwrap_or(0);
            match all.iter().find(|p| p.id == args[1]) {
                Some(p) => engine::run_chunk(p, &cfg, n(2), n(3), n(4)),
                None => 3,
            }
        }
        Some("case") if args.len() == 3 => match (all.iter().find(|p| p.id == args[1]), case::Case::from_line(&args[2])) {
            (Some(p), Some(c)) => matches!(engine::run_case(p, &c), Outcome::Fail(_)) as i32,
            _ => 3,
        },
        Some("replay") if args.len() == 2 => {
            let text = std::fs::read_to_string(&args[1]).unwrap_or_default();
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.to_string());
            match (get("property="), get("case=").and_then(|l| case::Case::from_line(&l))) {
                (Some(id), Some(c)) => match all.iter().find(|p| p.id == id) {
                    Some(p) => {
                        println!("{}: {}", p.id, (p.describe)(&c));
                        match engine::run_guarded(p, &c) {
                            Outcome::Ok(..) => {
                                println!("holds");
                                0
                            }
                            Outcome::Skip => {
                                println!("outside of the domain");
                                0
                            }
                            Outcome::Fail(m) => {
                                println!("  {}", m);
                                println!("VIOLATION property={} replay={}", p.id, args[1]);
                                1
                            }
                            Outcome::Broken(m) => {
                                println!("ERROR: {}", m);
                                3
                            }
                        }
                    }
                    None => 3,
                },
                _ => {
                    println!("ERROR: cannot read replay file {}", args[1]);
                    3
                }
            }
        }
        _ => {
            println!("usage: apf-pbt run <property> | replay <file> | list");
            3
        }
    };
    std::process::exit(code);
}
