//! Runs one property: sharded, seeded proptest campaigns plus enumerated cases; evidence; replays.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Notes about one case.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// signature of the failure, where it could be a listed known finding
    pub sig: Option<String>,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l)
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c
    }
}

pub trait Prop: Sync {
    const ID: &'static str;
    const RULE: &'static str;
    type Case: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Hash + Send + 'static;
    fn cases(&self, t: Tier) -> u64;
    fn strategy(&self) -> BoxedStrategy<Self::Case>;
    fn check(&self, c: &Self::Case, ctx: &mut Ctx) -> Result<(), String>;
    /// systematically enumerated cases
    fn enum_len(&self, _t: Tier) -> u64 {
        0
    }
    fn enum_case(&self, _i: u64) -> Self::Case {
        unreachable!()
    }
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
static LAST: Mutex<String> = Mutex::new(String::new());
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panicked at {loc}: {msg}");
        if let Ok(mut l) = LAST.lock() {
            *l = text.clone();
        }
        PANIC.with(|p| *p.borrow_mut() = text);
    }));
}
pub fn last_panic() -> String {
    LAST.lock().map(|l| l.clone()).unwrap_or_default()
}
/// Runs `f`, turning a panic into Err.
pub fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn run_one<P: Prop>(p: &P, c: &P::Case, ctx: &mut Ctx) -> Result<(), String> {
    crate::real::reset_outs();
    match quietly(|| p.check(c, ctx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    // fixed keys: the same in every run
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial_seen: u64,
    pub distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    known: BTreeMap<String, u64>,
}
impl Stats {
    pub fn note<P: Prop>(&mut self, c: &P::Case, ctx: &Ctx) {
        self.evals += 1;
        for l in &ctx.labels {
            *self.labels.entry(l).or_default() += 1;
        }
        if ctx.nontrivial {
            self.nontrivial_seen += 1;
            if self.distinct.insert(hash_of(c)) && self.samples.len() < 2 {
                let v = serde_json::to_value(c).unwrap();
                if v.to_string().len() < 1500 {
                    self.samples.push(v);
                }
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.nontrivial_seen += o.nontrivial_seen;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        if self.samples.len() < 6 {
            self.samples.extend(o.samples);
        }
    }
}

fn spawn<'s, 'e>(s: &'s std::thread::Scope<'s, 'e>, f: impl FnOnce() + Send + 's) {
    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).expect("thread");
}

/// What each worker is busy with, for the watchdog.
pub type Slot<C> = Mutex<Option<(std::time::Instant, f64, C)>>;
/// no single case takes anywhere near this long on code that works
const CASE_LIMIT_S: f64 = 90.0;
/// ... and the process must have worked that long as well: a machine that stood still proves nothing
const CPU_LIMIT_S: f64 = 60.0;
/// unless nothing moves at all (a deadlock)
const STILL_LIMIT_S: f64 = 400.0;
fn cpu_s() -> f64 {
    std::fs::read_to_string("/proc/self/stat")
        .ok()
        .and_then(|s| {
            let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
            Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
        })
        .unwrap_or(0.0)
}
const RSS_LIMIT: u64 = 12 << 30;
fn rss() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok())
        .unwrap_or(0)
        * 4096
}

/// seconds of processor time used so far, kept by the watchdog
static CPU_NOW: AtomicUsize = AtomicUsize::new(0);

pub fn cpu_now() -> f64 {
    CPU_NOW.load(Ordering::Relaxed) as f64
}
/// the case that is running for too long or eats the memory, if any
pub fn stuck<'s, C: Clone + 's>(slots: impl Iterator<Item = &'s Slot<C>>) -> Option<(C, String)> {
    CPU_NOW.store(cpu_s() as usize, Ordering::Relaxed);
    let fat = rss() > RSS_LIMIT;
    let mut longest: Option<(f64, f64, C)> = None;
    for s in slots {
        if let Some((t, cpu, c)) = &*s.lock().unwrap() {
            let el = t.elapsed().as_secs_f64();
            if longest.as_ref().map_or(true, |l| el > l.0) {
                longest = Some((el, *cpu, c.clone()));
            }
        }
    }
    let (el, cpu, c) = longest?;
    let stuck = el > CASE_LIMIT_S && (cpu_s() - cpu > CPU_LIMIT_S || el > STILL_LIMIT_S);
    (stuck || (fat && el > 2.0)).then(|| (c, format!("the case was still running after {el:.0} s, memory in use {} MB", rss() >> 20)))
}

pub struct Cfg {
    /// record every case in this file before running it (one worker)
    pub trace: Option<std::path::PathBuf>,
    pub tier: Tier,
    pub seed: u64,
    pub verif: std::path::PathBuf,
    pub scale: f64,
}

pub fn known_findings(cfg: &Cfg, id: &str) -> Vec<(String, String)> {
    // lines "known: property=<id> signature=<sig> <what fails>"
    let Ok(s) = std::fs::read_to_string(cfg.verif.join("KNOWN_FINDINGS.txt")) else {
        return vec![];
    };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?.strip_prefix(id)?.strip_prefix(" signature=")?;
            let (sig, what) = l.split_once(' ')?;
            Some((sig.to_string(), what.to_string()))
        })
        .collect()
}

pub fn evidence<P: Prop>(cfg: &Cfg, st: &Stats, enumerated: u64, failed: bool, wall: f64) -> serde_json::Value {
    serde_json::json!({
        "property": P::ID,
        "tier": if cfg.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": st.distinct.len(),
            "nontrivial_evaluations": st.nontrivial_seen,
            "enumerated": enumerated,
            "generated": st.evals - enumerated,
            "rule": P::RULE,
            "classes": st.labels,
            "samples": st.samples.iter().take(6).collect::<Vec<_>>(),
            "known_finding_hits": st.known,
        },
        "assumptions": ["std, proptest, unicode-segmentation, unicode-width, rust_decimal and the part-of-speech dictionary crate behave as specified"],
        "wall_s": wall,
        "violations": if failed { 1 } else { 0 },
    })
}
fn write_evidence<P: Prop>(cfg: &Cfg, st: &Stats, enumerated: u64, failed: bool, wall: f64) -> bool {
    let ev = evidence::<P>(cfg, st, enumerated, failed, wall);
    let evdir = cfg.verif.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(evdir.join(format!("{}.json", P::ID)), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write evidence: {e}");
        return false;
    }
    true
}
pub fn replay_text<P: Prop>(c: &P::Case, why: &str) -> String {
    serde_json::to_string_pretty(&serde_json::json!({"property": P::ID, "why": why, "case": c})).unwrap() + "\n"
}
pub fn print_violation<P: Prop>(cfg: &Cfg, c: &P::Case, why: &str) {
    let dir = cfg.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.json", P::ID, hash_of(c)));
    let _ = std::fs::write(&path, replay_text::<P>(c, why));
    println!("{}", why.chars().take(3000).collect::<String>());
    println!("case: {}", serde_json::to_string(c).unwrap().chars().take(3000).collect::<String>());
    println!("VIOLATION property={} replay={}", P::ID, path.display());
}

pub fn run<P: Prop>(p: P, cfg: &Cfg) -> i32 {
    let t0 = std::time::Instant::now();
    let known = known_findings(cfg, P::ID);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Stats::default());
    let failure: Mutex<Option<(u64, P::Case, String)>> = Mutex::new(None);
    let report = |ord: u64, c: P::Case, why: String| {
        let mut f = failure.lock().unwrap();
        if f.as_ref().map_or(true, |x| ord < x.0) {
            *f = Some((ord, c, why));
        }
        stop.store(true, Ordering::SeqCst);
    };
    let workers = if cfg.trace.is_some() {
        1
    } else {
        std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)
    };
    let slots: Vec<Slot<P::Case>> = (0..workers).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);
    let enumerated = AtomicUsize::new(0);

    // a failing case with a listed signature is counted, not reported
    let judge = |c: &P::Case, stats: Option<&mut Stats>, slot: &Slot<P::Case>| -> Result<(), String> {
        let mut ctx = Ctx::default();
        if let Some(t) = &cfg.trace {
            let _ = std::fs::write(t, replay_text::<P>(c, "the check did not survive this case"));
        }
        *slot.lock().unwrap() = Some((std::time::Instant::now(), cpu_now(), c.clone()));
        let r = run_one(&p, c, &mut ctx);
        *slot.lock().unwrap() = None;
        let is_known = r.is_err() && ctx.sig.as_ref().is_some_and(|s| known.iter().any(|k| &k.0 == s));
        if let Some(stats) = stats {
            stats.note::<P>(c, &ctx);
            if is_known {
                *stats.known.entry(ctx.sig.clone().unwrap()).or_default() += 1;
            }
        }
        if is_known {
            Ok(())
        } else {
            r
        }
    };

    // the watchdog: a case that does not come back is a failure of the code under test
    std::thread::scope(|outer| {
        outer.spawn(|| {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(100));
                if let Some((c, why)) = stuck(slots.iter()) {
                    write_evidence::<P>(cfg, &Stats::default(), 0, true, t0.elapsed().as_secs_f64());
                    print_violation::<P>(cfg, &c, &why);
                    std::process::exit(1);
                }
            }
        });

        // 1. enumerated cases
        let n_enum = p.enum_len(cfg.tier);
        if n_enum > 0 {
            const CHUNK: u64 = 512;
            let next = AtomicUsize::new(0);
            std::thread::scope(|s| {
                for slot in &slots {
                    let (next, stop, judge, p, report, total) = (&next, &stop, &judge, &p, &report, &total);
                    spawn(s, move || {
                        let mut stats = Stats::default();
                        loop {
                            let lo = next.fetch_add(1, Ordering::SeqCst) as u64 * CHUNK;
                            if lo >= n_enum || stop.load(Ordering::SeqCst) {
                                break;
                            }
                            for i in lo..(lo + CHUNK).min(n_enum) {
                                let c = p.enum_case(i);
                                if let Err(why) = judge(&c, Some(&mut stats), slot) {
                                    report(i, c, why);
                                    break;
                                }
                            }
                        }
                        total.lock().unwrap().merge(stats);
                    });
                }
            });
        }
        enumerated.store(total.lock().unwrap().evals as usize, Ordering::SeqCst);

        // 2. generated cases
        let n = (p.cases(cfg.tier) as f64 * cfg.scale).ceil() as u64;
        let shards: u64 = 64;
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for slot in &slots {
                let (next, stop, judge, p, report, total) = (&next, &stop, &judge, &p, &report, &total);
                spawn(s, move || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst) as u64;
                    if k >= shards || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let cases = (n / shards + u64::from(k < n % shards)) as u32;
                    if cases == 0 {
                        continue;
                    }
                    let mut seed = [0u8; 32];
                    seed[..8].copy_from_slice(&cfg.seed.to_le_bytes());
                    seed[8..16].copy_from_slice(&hash_of(&P::ID).to_le_bytes());
                    seed[16..24].copy_from_slice(&k.to_le_bytes());
                    let mut config = Config::default();
                    config.cases = cases;
                    config.failure_persistence = None;
                    config.max_shrink_iters = 20000;
                    config.max_shrink_time = 60_000;
                    config.max_global_rejects = cases.saturating_mul(20).max(1000);
                    config.result_cache = proptest::test_runner::noop_result_cache;
                    let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                    let stats = RefCell::new(Stats::default());
                    let failed = std::cell::Cell::new(false);
                    let r = runner.run(&p.strategy(), |c| {
                        if !failed.get() && stop.load(Ordering::SeqCst) {
                            return Ok(());
                        }
                        let mut st = stats.borrow_mut();
                        match judge(&c, if failed.get() { None } else { Some(&mut st) }, slot) {
                            Ok(()) => Ok(()),
                            Err(why) => {
                                failed.set(true);
                                Err(TestCaseError::fail(why))
                            }
                        }
                    });
                    total.lock().unwrap().merge(stats.into_inner());
                    match r {
                        Ok(()) => {}
                        Err(TestError::Fail(why, c)) => report(n_enum + k, c, why.message().to_string()),
                        Err(TestError::Abort(why)) => {
                            eprintln!("generator problem in {}: {why}", P::ID);
                            std::process::exit(3);
                        }
                    }
                });
            }
        });
        done.store(true, Ordering::SeqCst);
    });
    let enumerated = enumerated.into_inner() as u64;

    let st = total.into_inner().unwrap();
    let failure = failure.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    if !write_evidence::<P>(cfg, &st, enumerated, failure.is_some(), wall) {
        return 3;
    }
    for (sig, what) in &known {
        if st.known.contains_key(sig) {
            println!("KNOWN-FINDING: property={} {what}", P::ID);
        }
    }
    println!(
        "{}: {} cases ({} enumerated), {} distinct non-trivial, {:.1}s",
        P::ID,
        st.evals,
        enumerated,
        st.distinct.len(),
        wall
    );
    match failure {
        None => 0,
        Some((_, c, why)) => {
            print_violation::<P>(cfg, &c, &why);
            1
        }
    }
}

/// Runs one saved case, without proptest.
pub fn replay<P: Prop>(p: P, case: serde_json::Value) -> i32 {
    let c: P::Case = match serde_json::from_value(case) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("not a case of {}: {e}", P::ID);
            return 3;
        }
    };
    let mut ctx = Ctx::default();
    match run_one(&p, &c, &mut ctx) {
        Ok(()) => {
            println!("{}: the case passes (labels {:?})", P::ID, ctx.labels);
            0
        }
        Err(why) => {
            println!("{}: the case fails: {why}", P::ID);
            1
        }
    }
}
