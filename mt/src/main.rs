//! Multi-threaded use of client clones, subscriptions and server senders, with the oracles of the
//! behavioural properties. Runs natively, under ThreadSanitizer / AddressSanitizer and under Miri.
//!   mt SCENARIO SEED ROUNDS
//! Prints "MT-VIOLATION: ..." and exits 1 when an oracle fails.
#[path = "../../harness/src/rng.rs"]
#[allow(dead_code)]
mod rng;
mod client;
mod link;
mod server;

use rng::Rng;
use std::hash::{BuildHasher, Hasher};

pub fn violation(m: &str) -> ! {
    println!("MT-VIOLATION: {m}");
    std::process::exit(1)
}
#[macro_export]
macro_rules! bad { ($($t:tt)*) => { $crate::violation(&format!($($t)*)) } }

#[derive(Default)]
pub struct Stats(pub std::collections::BTreeMap<&'static str, u64>);
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.0.entry(k).or_default() += n;
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let scen = a[1].as_str();
    let mut seed: u64 = a[2].parse().expect("seed");
    let rounds: u64 = a[3].parse().expect("rounds");
    if cfg!(miri) {
        // Miri seeds the system randomness with its own seed: another workload for each schedule
        seed ^= std::collections::hash_map::RandomState::new().build_hasher().finish();
    }
    std::panic::set_hook(Box::new(|i| {
        println!("MT-VIOLATION: panic: {i}");
        std::process::exit(1)
    }));
    #[cfg(not(miri))]
    {
        // everything here takes microseconds; 45 s without progress is a hang
        std::thread::spawn(|| {
            let mut last = 0;
            loop {
                std::thread::sleep(std::time::Duration::from_secs(45));
                let now = PROGRESS.load(std::sync::atomic::Ordering::Relaxed);
                if now == last {
                    violation("an operation never finished (no progress for 45 s)");
                }
                last = now;
            }
        });
    }
    let mut st = Stats::default();
    for r in 0..rounds {
        let rng = Rng::new(seed.wrapping_add(r.wrapping_mul(0x9E37_79B9_7F4A_7C15)));
        match scen {
            "calls" => client::calls(rng, &mut st),
            "close" => client::close(rng, &mut st),
            "closesub" => client::closesub(rng, &mut st),
            "subs" => client::subs(rng, &mut st),
            "publish" => client::publish(rng, &mut st),
            "server" => server::senders(rng, &mut st),
            "logs" => server::logs(rng, &mut st),
            _ => panic!("unknown scenario"),
        }
        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    println!("MT-OK {scen} rounds={rounds} {}", st.0.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "));
}
pub static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
