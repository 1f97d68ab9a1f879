#![allow(dead_code, deprecated)]
mod client;
mod codec;
#[cfg(feature = "serial")]
mod cobsacc;
mod csim;
mod e2e;
mod hostdev;
mod icd;
mod icd_e2e;
mod icd_zoo;
mod local;
#[path = "../../shared/probe_common.rs"]
mod probe_common;
use hostdev::side as probe_side;
mod pubs;
mod refc;
mod schema;
#[cfg(feature = "serial")]
mod serialhost;
mod serv;
mod ssim;
#[cfg(feature = "usbdev")]
mod usbdev;
#[cfg(all(feature = "usbdev", feature = "nusb"))]
mod usbcable;
#[cfg(feature = "usbdev")]
mod usbenum;
mod exec;
mod growth;
#[cfg(feature = "nusb")]
mod nusbhost;
#[cfg(feature = "webusb")]
mod webhost;
mod report;
mod rng;

#[global_allocator]
static ALLOC: growth::Counting = growth::Counting;

use report::*;
use std::time::Duration;

fn checks() -> Vec<Check> {
    let mut v = vec![];
    v.extend(codec::checks());
    #[cfg(feature = "serial")]
    v.extend(cobsacc::checks());
    #[cfg(feature = "serial")]
    v.extend(serialhost::checks());
    #[cfg(feature = "usbdev")]
    v.extend(usbdev::checks());
    #[cfg(feature = "usbdev")]
    v.extend(usbenum::checks());
    #[cfg(feature = "nusb")]
    v.extend(nusbhost::checks());
    #[cfg(feature = "webusb")]
    v.extend(webhost::checks());
    #[cfg(all(feature = "usbdev", feature = "nusb"))]
    v.extend(usbcable::checks());
    v.extend(hostdev::checks());
    v.extend(schema::checks());
    v.extend(serv::checks());
    v.extend(client::checks());
    v.extend(growth::checks());
    v.extend(e2e::checks());
    v.extend(local::checks());
    v
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let checks = checks();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in &checks {
                for s in &c.scenarios {
                    println!("{} {}", c.id, s.name);
                }
            }
        }
        // few ID SCENARIO N: N cases in this thread, for interpreters and sanitizers (C20). Only
        // panics of the library are judged here; the oracles of ID belong to its own check.
        Some("few") => {
            let c = checks.iter().find(|c| c.id == args[2]).expect("unknown id");
            let s = c.scenarios.iter().find(|s| s.name == args[3]).expect("unknown scenario");
            let n: u64 = args[4].parse().unwrap();
            let (mut evals, mut sigs, mut other) = (0u64, std::collections::BTreeSet::new(), 0u64);
            for i in 0..n {
                let mut case = Case::new(case_seed(seed, c.id, s.name, 1_000_000 + i), Tier::Quick);
                match run_case(s.f, &mut case) {
                    Outcome::Ok => {}
                    Outcome::Violation(m) if m.contains("panic") => {
                        println!("FEW-VIOLATION {} {} case {i}: {m}", c.id, s.name);
                        std::process::exit(1)
                    }
                    Outcome::Violation(_) => other += 1,
                    Outcome::Internal(m) => {
                        println!("INTERNAL: {m}");
                        std::process::exit(2)
                    }
                }
                evals += case.evals;
                sigs.insert(case.sig);
            }
            println!("FEW-OK {} {} cases={n} evals={evals} distinct={} other={other}", c.id, s.name, sigs.len());
        }
        Some("replay") => {
            let id = &args[2];
            let c = checks.iter().find(|c| c.id == id).expect("unknown id");
            let s = c.scenarios.iter().find(|s| s.name == args[3]).expect("unknown scenario");
            let cs = u64::from_str_radix(args[4].trim_start_matches("0x"), 16).expect("seed");
            let n: u64 = args.get(5).and_then(|x| x.parse().ok()).unwrap_or(1);
            for _ in 0..n {
                let mut case = Case::new(cs, Tier::Quick);
                case.trace_on = true;
                let out = run_case(s.f, &mut case);
                for l in &case.trace {
                    println!("{l}");
                }
                match out {
                    Outcome::Ok => println!("OK"),
                    Outcome::Violation(m) => {
                        println!("VIOLATION: {m}");
                        std::process::exit(1)
                    }
                    Outcome::Internal(m) => {
                        println!("INTERNAL: {m}");
                        std::process::exit(2)
                    }
                }
            }
        }
        Some(id) => {
            let Some(c) = checks.iter().find(|c| c.id == id) else {
                eprintln!("unknown check {id}");
                std::process::exit(2);
            };
            let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
            let tier = if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 12.0 } else { 240.0 });
            let threads = get("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
                std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
            });
            let opts = Opts {
                tier,
                seed,
                budget: Duration::from_secs_f64(budget),
                threads,
                evidence: get("--evidence"),
                replay_dir: get("--replay-dir").unwrap_or_else(|| "/tmp/pmon-replay".into()),
                scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                level: if matches!(id, "C06" | "C08" | "C28" | "C29" | "C16" | "C22" | "C23" | "C24") { "fault_enumeration" } else { "exploration" },
                only: get("--only"),
            };
            std::process::exit(run_check(c, &opts));
        }
        None => {
            eprintln!("usage: pmon <ID> [--tier quick|thorough] [--budget s] | replay ID SCENARIO SEED | list");
            std::process::exit(2);
        }
    }
}
