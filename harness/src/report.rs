//! Case driver, evidence, verdicts.
use crate::rng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one case may use: randomness, trace, counters, signature.
pub struct Case {
    pub rng: Rng,
    pub seed: u64,
    pub tier: Tier,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub counters: BTreeMap<&'static str, u64>,
    pub sig: u64,
    pub nontrivial: bool,
    pub note: Option<String>,
    /// number of individual evaluations in this case (default 1)
    pub evals: u64,
}

impl Case {
    pub fn new(seed: u64, tier: Tier) -> Self {
        Case {
            rng: Rng::new(seed),
            seed,
            tier,
            trace_on: false,
            trace: vec![],
            counters: BTreeMap::new(),
            sig: 0x1234_5678_9abc_def0,
            nontrivial: false,
            note: None,
            evals: 1,
        }
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    pub fn sig(&mut self, v: u64) {
        self.sig = mix(self.sig ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    }
    pub fn sig_bytes(&mut self, b: &[u8]) {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for x in b {
            h ^= *x as u64;
            h = h.wrapping_mul(0x100_0000_01b3);
        }
        self.sig(h);
    }
    pub fn log(&mut self, s: impl FnOnce() -> String) {
        if self.trace_on && self.trace.len() < 4000 {
            let s = s();
            self.trace.push(s);
        }
    }
}

pub type CaseFn = fn(&mut Case) -> Result<(), String>;

/// One family of cases.
pub struct Scenario {
    pub name: &'static str,
    pub f: CaseFn,
    /// cases always executed in the quick tier (the thorough tier multiplies this)
    pub quick: u64,
    /// relative share of the remaining time budget
    pub weight: u32,
    /// run on one thread only (process-wide resources)
    pub serial: bool,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub scenarios: Vec<Scenario>,
    pub assumptions: &'static [&'static str],
    /// counters that must be non-zero for the run to be conclusive
    pub must_see: &'static [&'static str],
}

#[derive(Clone)]
pub struct Violation {
    pub scenario: String,
    pub case_seed: u64,
    pub msg: String,
    pub trace: Vec<String>,
}

#[derive(Default)]
struct Totals {
    evals: u64,
    cases: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    per_scenario: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    internal: Vec<String>,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

/// every panic raised outside harness code, on any thread or task
static LIB_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") && !loc.starts_with("src/icd")
}

thread_local! {
    static EXPECTING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// run something that may legitimately panic; None if it did
pub fn expect_panic<T>(f: impl FnOnce() -> T) -> Option<T> {
    EXPECTING.with(|e| e.set(true));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    EXPECTING.with(|e| e.set(false));
    r
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        if std::env::var("PMON_BT").is_ok() {
            eprintln!("panic {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if EXPECTING.with(|e| e.get()) {
            return;
        }
        if !is_harness(&loc) {
            LIB_PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(format!("{msg} at {loc}"));
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Outcome of running one case
pub enum Outcome {
    Ok,
    Violation(String),
    Internal(String),
}

/// A panic raised in harness code is a harness error, everything else is the library's.
fn classify_panic() -> Outcome {
    let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
    if is_harness(&loc) {
        Outcome::Internal(format!("harness panic at {loc}: {msg}"))
    } else {
        Outcome::Violation(format!("panic in code under test at {loc}: {msg}"))
    }
}

pub fn run_case(f: CaseFn, case: &mut Case) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| f(case))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(m)) => {
            if let Some(m) = m.strip_prefix("INTERNAL: ") {
                Outcome::Internal(m.to_string())
            } else {
                Outcome::Violation(m)
            }
        }
        Err(_) => classify_panic(),
    }
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub budget: Duration,
    pub threads: usize,
    pub evidence: Option<String>,
    pub replay_dir: String,
    pub scale: f64,
    pub level: &'static str,
    pub only: Option<String>,
}

fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn case_seed(seed: u64, id: &str, scen: &str, idx: u64) -> u64 {
    mix(seed ^ hash_str(id).rotate_left(17) ^ hash_str(scen).rotate_left(31)).wrapping_add(mix(idx))
}

/// Runs a check; returns the process exit code.
pub fn run_check(check: &Check, opts: &Opts) -> i32 {
    let start = Instant::now();
    let totals = Mutex::new(Totals::default());
    let stop = AtomicBool::new(false);
    let total_weight: u32 = check.scenarios.iter().map(|s| s.weight).sum();
    let mut deadline = start;

    for sc in &check.scenarios {
        if let Some(o) = &opts.only {
            if o != sc.name {
                continue;
            }
        }
        let share = opts.budget.mul_f64(sc.weight as f64 / total_weight.max(1) as f64);
        deadline = std::cmp::max(deadline, start) + share;
        let mult = if opts.tier == Tier::Thorough { 8.0 } else { 1.0 };
        let min_cases = ((sc.quick as f64 * opts.scale * mult).ceil() as u64).max(1);
        let next = AtomicU64::new(0);
        let nthreads = if sc.serial { 1 } else { opts.threads };
        // watchdog: per-thread start of the current case
        let started: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
        let seeds: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
        let live = AtomicU64::new(nthreads as u64);
        std::thread::scope(|scope| {
            for t in 0..nthreads {
                let (totals, stop, next, started, seeds, live) = (&totals, &stop, &next, &started, &seeds, &live);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .name(format!("w{t}"))
                    .spawn_scoped(scope, move || {
                        let mut local = Totals::default();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let idx = next.fetch_add(1, Ordering::Relaxed);
                            if idx >= min_cases && Instant::now() >= deadline {
                                break;
                            }
                            let cs = case_seed(opts.seed, check.id, sc.name, idx);
                            seeds[t].store(cs, Ordering::Relaxed);
                            started[t].store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let mut case = Case::new(cs, opts.tier);
                            let out = run_case(sc.f, &mut case);
                            started[t].store(0, Ordering::Relaxed);
                            local.cases += 1;
                            local.evals += case.evals;
                            *local.per_scenario.entry(sc.name.into()).or_insert(0) += 1;
                            for (k, v) in &case.counters {
                                *local.counters.entry((*k).into()).or_insert(0) += v;
                            }
                            if case.nontrivial && local.distinct.len() < 600_000 {
                                local.distinct.insert(case.sig ^ hash_str(sc.name));
                            }
                            if local.samples.len() < 2 && case.nontrivial {
                                if let Some(n) = case.note.take() {
                                    local.samples.push(format!("{} seed={:#x}: {}", sc.name, cs, n));
                                }
                            }
                            match out {
                                Outcome::Ok => {}
                                Outcome::Internal(m) => {
                                    local.internal.push(format!("{} seed={cs:#x}: {m}", sc.name));
                                    stop.store(true, Ordering::Relaxed);
                                }
                                Outcome::Violation(m) => {
                                    // re-run with tracing to get a witness
                                    let mut again = Case::new(cs, opts.tier);
                                    again.trace_on = true;
                                    let msg2 = match run_case(sc.f, &mut again) {
                                        Outcome::Violation(m2) => m2,
                                        _ => {
                                            again.trace.push("(not reproduced on immediate re-run; schedule dependent)".into());
                                            m
                                        }
                                    };
                                    local.violations.push(Violation {
                                        scenario: sc.name.into(),
                                        case_seed: cs,
                                        msg: msg2,
                                        trace: again.trace,
                                    });
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        let mut g = totals.lock().unwrap();
                        g.cases += local.cases;
                        g.evals += local.evals;
                        g.distinct.extend(local.distinct);
                        for (k, v) in local.counters {
                            *g.counters.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in local.per_scenario {
                            *g.per_scenario.entry(k).or_insert(0) += v;
                        }
                        if g.samples.len() < 24 {
                            g.samples.extend(local.samples);
                        }
                        g.violations.extend(local.violations);
                        g.internal.extend(local.internal);
                        drop(g);
                        live.fetch_sub(1, Ordering::Relaxed);
                    })
                    .unwrap();
            }
            // watchdog in this thread
            let limit = if cfg!(miri) { u64::MAX } else { 90_000 };
            while live.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(if cfg!(miri) { 200 } else { 5 }));
                let now = start.elapsed().as_millis() as u64;
                for t in 0..nthreads {
                    let s = started[t].load(Ordering::Relaxed);
                    if s != 0 && now > s.saturating_add(limit) {
                        let v = Violation {
                            scenario: sc.name.into(),
                            case_seed: seeds[t].load(Ordering::Relaxed),
                            msg: format!("case did not finish within {} s of wall time: the code under test spins without yielding", limit / 1000),
                            trace: vec![],
                        };
                        let path = write_replay(check.id, opts, &v);
                        println!("VIOLATION property={} replay={}", check.id, path);
                        println!("  {}: {}", v.scenario, v.msg);
                        std::process::exit(1);
                    }
                }
            }
        });
        if stop.load(Ordering::Relaxed) {
            break;
        }
    }

    let wall = start.elapsed().as_secs_f64();
    let mut t = totals.into_inner().unwrap();
    if t.violations.is_empty() {
        if let Some(p) = LIB_PANICS.lock().unwrap_or_else(|e| e.into_inner()).first() {
            t.violations.push(Violation { scenario: "background".into(), case_seed: 0, msg: format!("panic in code under test: {p}"), trace: vec![] });
        }
    }
    t.violations.sort_by(|a, b| a.case_seed.cmp(&b.case_seed));
    let mut inconclusive = vec![];
    if t.violations.is_empty() && t.internal.is_empty() && opts.only.is_none() {
        for m in check.must_see {
            if t.counters.get(*m).copied().unwrap_or(0) == 0 {
                inconclusive.push(format!("monitor never observed '{m}'"));
            }
        }
        if t.distinct.is_empty() {
            inconclusive.push("no non-trivial case".into());
        }
    }
    if let Some(path) = &opts.evidence {
        let tier = if opts.tier == Tier::Quick { "quick" } else { "thorough" };
        let mut s = String::new();
        s.push_str("{\n");
        s.push_str(&format!(" \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": \"{}\",\n", jstr(check.id), opts.seed, opts.level));
        s.push_str(" \"coverage\": {\n");
        s.push_str(&format!("  \"evaluations\": {},\n  \"executions\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", t.evals, t.cases, t.distinct.len(), jstr(check.rule)));
        s.push_str("  \"executions_per_scenario\": {");
        s.push_str(&t.per_scenario.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "));
        s.push_str("},\n  \"observed_events\": {");
        s.push_str(&t.counters.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "));
        s.push_str("},\n  \"samples\": [");
        t.samples.truncate(12);
        if t.samples.is_empty() {
            t.samples.push("(see executions_per_scenario)".into());
        }
        s.push_str(&t.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",\n   "));
        s.push_str("]\n },\n");
        s.push_str(&format!(" \"assumptions\": [{}],\n", check.assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ")));
        s.push_str(&format!(" \"wall_s\": {wall:.3},\n \"violations\": {}\n}}\n", t.violations.len()));
        if let Err(e) = std::fs::write(path, s) {
            eprintln!("cannot write evidence {path}: {e}");
            return 2;
        }
    }
    println!(
        "{}: {} executions, {} evaluations, {} distinct non-trivial, {:.1}s; {}",
        check.id,
        t.cases,
        t.evals,
        t.distinct.len(),
        wall,
        t.counters.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
    );
    if let Some(v) = t.violations.first() {
        let path = write_replay(check.id, opts, v);
        println!("VIOLATION property={} replay={}", check.id, path);
        println!("  {} (seed {:#x}): {}", v.scenario, v.case_seed, v.msg);
        return 1;
    }
    if !t.internal.is_empty() {
        println!("INCONCLUSIVE property={}: {}", check.id, t.internal[0]);
        return 2;
    }
    if !inconclusive.is_empty() {
        println!("INCONCLUSIVE property={}: {}", check.id, inconclusive.join("; "));
        return 2;
    }
    0
}

fn write_replay(id: &str, opts: &Opts, v: &Violation) -> String {
    let _ = std::fs::create_dir_all(&opts.replay_dir);
    let path = format!("{}/{}-{}-{:016x}.txt", opts.replay_dir, id, v.scenario, v.case_seed);
    let mut s = format!(
        "property={id}\nscenario={}\ncase_seed={:#x}\nrun_seed={}\nreplay: harness/target/debug/pmon replay {id} {} {:#x}\nviolation: {}\n\ntrace:\n",
        v.scenario, v.case_seed, opts.seed, v.scenario, v.case_seed, v.msg
    );
    for l in &v.trace {
        s.push_str(l);
        s.push('\n');
    }
    let _ = std::fs::write(&path, s);
    path
}
