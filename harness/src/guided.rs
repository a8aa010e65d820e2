//! The coverage-guided stage. Cases come from the same strategies as in the random stage, but drawn from byte streams that
//! are mutated and kept when the check reached something new in them: an edge of the code under test (or of the model), a new
//! count of an edge, or a comparison that came closer (sanitizer coverage, see cov-rustc.sh). Workers are processes, because
//! the counters are global; they work in rounds and share what they kept between rounds, so a run is a function of the seed.
use crate::runner::{self, Cfg, Ctx, Prop, Stats, Tier};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::Relaxed;

// ---------------------------------------------------------------- coverage
use covrt::{CMP, CMP_NEW, LENS, MAX_MODULES, MODULES, ON, STARTS};

static LIGHT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// in a worker of the guided stage: leave out the kinds of cases that take a hundred times longer than the others. They are
/// the business of the random stage; here, once found, they would be varied over and over.
pub fn light() -> bool {
    LIGHT.load(Relaxed)
}

fn counters() -> impl Iterator<Item = &'static mut [u8]> {
    // SAFETY: the sections live as long as the program; the instrumentation only increments bytes in them
    (0..MODULES.load(Relaxed).min(MAX_MODULES)).map(|i| unsafe { std::slice::from_raw_parts_mut(STARTS[i].load(Relaxed), LENS[i].load(Relaxed)) })
}
fn clear() {
    for c in counters() {
        c.fill(0);
    }
}
fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}
/// which (edge, count) pairs were seen so far
struct Seen(Vec<Vec<u8>>, u64);
impl Seen {
    fn new() -> Self {
        Seen(counters().map(|c| vec![0; c.len()]).collect(), 0)
    }
    /// (new edges, new counts) of the run that just ended
    fn take(&mut self) -> (u32, u32) {
        let mut new = (0, 0);
        for (c, s) in counters().zip(&mut self.0) {
            for (cw, sw) in c.chunks(8).zip(s.chunks_mut(8)) {
                if cw.len() == 8 && u64::from_ne_bytes(cw.try_into().unwrap()) == 0 {
                    continue;
                }
                for (c, s) in cw.iter().zip(sw) {
                    let b = bucket(*c);
                    if b & !*s != 0 {
                        if *s == 0 {
                            new.0 += 1;
                            self.1 += 1;
                        } else {
                            new.1 += 1;
                        }
                        *s |= b;
                    }
                }
            }
        }
        new
    }
}

// ---------------------------------------------------------------- byte streams
struct Mix(u64);
impl Mix {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n.div_ceil(8)).flat_map(|_| self.next().to_le_bytes()).take(n).collect()
    }
}
const MAX_STREAM: usize = 32 << 10;

fn mutate(r: &mut Mix, mut b: Vec<u8>, other: &[u8]) -> Vec<u8> {
    let times = 1 << r.below(5);
    for _ in 0..times {
        let words = b.len() / 4;
        if words == 0 {
            return r.bytes(4096);
        }
        let at = r.below(words) * 4;
        match r.below(12) {
            0..=3 => {
                let w = r.next().to_le_bytes();
                let n = if r.below(2) == 0 { 4 } else { 8 };
                for (k, x) in w[..n].iter().enumerate() {
                    if let Some(t) = b.get_mut(at + k) {
                        *t = *x;
                    }
                }
            }
            4 => {
                let w: [u8; 4] = if r.below(2) == 0 { [0; 4] } else { [255; 4] };
                b[at..at + 4].copy_from_slice(&w);
            }
            5 | 6 => {
                let w = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
                let d = 1u32 << r.below(32);
                let w = if r.below(2) == 0 { w.wrapping_add(d) } else { w.wrapping_sub(d) };
                b[at..at + 4].copy_from_slice(&w.to_le_bytes());
            }
            7 => {
                // repeat a block
                let n = (1 + r.below(16)) * 4;
                let block: Vec<u8> = b[at..(at + n).min(b.len())].to_vec();
                let to = r.below(words) * 4;
                b.splice(to..to, block);
            }
            8 => {
                let n = (1 + r.below(16)) * 4;
                let block = r.bytes(n);
                b.splice(at..at, block);
            }
            9 => {
                let n = (1 + r.below(16)) * 4;
                let end = (at + n).min(b.len());
                b.drain(at..end);
            }
            10 => {
                // go on as another one does
                let from = r.below(other.len() / 4 + 1) * 4;
                b.truncate(at);
                b.extend_from_slice(&other[from.min(other.len())..]);
            }
            _ => {
                // a block of another one
                let n = (1 + r.below(32)) * 4;
                let from = r.below(other.len() / 4 + 1) * 4;
                let block = other[from.min(other.len())..(from + n).min(other.len())].to_vec();
                let end = (at + block.len()).min(b.len());
                b.splice(at..end, block);
            }
        }
    }
    b.truncate(MAX_STREAM);
    b
}

// ---------------------------------------------------------------- a worker
const ROUNDS: u64 = 3;
/// what a worker takes over from the rounds before, at most
const INHERIT: usize = 400;
const WORKERS: u64 = 8;

pub struct Job {
    pub round: u64,
    pub worker: u64,
    pub dir: PathBuf,
    pub trace: bool,
}

fn save(dir: &Path, name: &str, data: &[u8]) {
    let tmp = dir.join(format!(".{name}"));
    let _ = std::fs::write(&tmp, data);
    let _ = std::fs::rename(&tmp, dir.join(name));
}

/// exit 0: done, 1: a failure is in DIR/fail-<round>-<worker>.json
pub fn worker<P: Prop>(p: P, cfg: &Cfg, job: &Job) -> i32 {
    if MODULES.load(Relaxed) == 0 {
        eprintln!("built without coverage");
        return 3;
    }
    let known = runner::known_findings(cfg, P::ID);
    let fail_file = format!("fail-{}-{}.json", job.round, job.worker);
    let slot: std::sync::Arc<runner::Slot<P::Case>> = Default::default();
    {
        // a case that does not come back
        let (slot, dir, fail_file) = (slot.clone(), job.dir.clone(), fail_file.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if let Some((c, why)) = runner::stuck(std::iter::once(&*slot)) {
                save(&dir, &fail_file, runner::replay_text::<P>(&c, &why).as_bytes());
                std::process::exit(1);
            }
        });
    }
    let total = guided_cases::<P>(&p, cfg);
    let mine = total / (ROUNDS * WORKERS);
    LIGHT.store(true, Relaxed);
    let strategy = p.strategy();
    let mut config = Config::default();
    config.failure_persistence = None;
    let mut r = Mix(cfg.seed.wrapping_mul(0x1000_0001_b3) ^ runner::hash_of(&(P::ID, job.round, job.worker)));
    let mut seen = Seen::new();
    let mut stats = Stats::default();
    // stream, how much was new in it, how much work it was
    let mut corpus: Vec<(Vec<u8>, u32, u64)> = vec![];
    // the work of freshly drawn cases, and of all
    let (mut fresh_n, mut fresh_work, mut work) = (0, 0, 0);
    let mut names: Vec<_> = std::fs::read_dir(&job.dir)
        .into_iter()
        .flatten()
        .flatten()
        .filter(|e| e.file_name().to_string_lossy().starts_with("in-"))
        .map(|e| e.path())
        .collect();
    names.sort();
    // an even sample of what the workers kept, other than their first random draws
    let step = names.len().div_ceil(INHERIT).max(1);
    let mut queue: Vec<Vec<u8>> = names.iter().skip(job.worker as usize % step).step_by(step).filter_map(|n| std::fs::read(n).ok()).collect();
    let inherited = queue.len() as u64;
    queue.reverse();
    let mut kept = 0;
    let mut n = 0;
    while n < mine + inherited && (fresh_n < 100 || work < 2 * mine * (fresh_work / fresh_n)) {
        n += 1;
        let old = queue.pop();
        let replayed = old.is_some();
        let fresh = !replayed && (corpus.len() < 8 || r.below(8) == 0);
        let data = old.unwrap_or_else(|| {
            if fresh {
                r.bytes(4096)
            } else {
                // recent finds and those with new edges more often
                let pick = |r: &mut Mix| {
                    let span = corpus.len();
                    let mut k = 0;
                    for _ in 0..20 {
                        k = match r.below(3) {
                            0 => r.below(span),
                            1 => span - 1 - r.below(span.min(32)),
                            _ => (0..4).map(|_| r.below(span)).max_by_key(|k| corpus[*k].1).unwrap(),
                        };
                        // the slower, the less often
                        let limit = 2 * fresh_work / fresh_n.max(1) + 1;
                        if corpus[k].2 <= limit || (r.below(1 << 20) as u64) < (limit << 20) / corpus[k].2 {
                            break;
                        }
                    }
                    k
                };
                let (a, b) = (pick(&mut r), r.below(corpus.len()));
                mutate(&mut r, corpus[a].0.clone(), &corpus[b].0)
            }
        });
        let mut tr = TestRunner::new_with_rng(config.clone(), TestRng::from_seed(RngAlgorithm::PassThrough, &data));
        let Ok(mut tree) = strategy.new_tree(&mut tr) else { continue };
        let read = tr.rng().pass_through_read();
        let c = tree.current();
        if job.trace {
            save(&job.dir, &fail_file, runner::replay_text::<P>(&c, "the check did not survive this case").as_bytes());
        }
        let mut judge = |c: &P::Case, watch: bool| -> (Ctx, Result<(), String>) {
            let mut ctx = Ctx::default();
            *slot.lock().unwrap() = Some((std::time::Instant::now(), runner::cpu_now(), c.clone()));
            if watch {
                clear();
                CMP_NEW.store(0, Relaxed);
                ON.store(true, Relaxed);
            }
            let r = runner::run_one(&p, c, &mut ctx);
            ON.store(false, Relaxed);
            *slot.lock().unwrap() = None;
            if r.is_err() && ctx.sig.as_ref().is_some_and(|s| known.iter().any(|k| &k.0 == s)) {
                return (ctx, Ok(()));
            }
            (ctx, r)
        };
        let t = std::time::Instant::now();
        let (ctx, res) = judge(&c, true);
        let took = t.elapsed();
        let new = seen.take();
        let closer = CMP_NEW.load(Relaxed) as u32;
        let cost = took.as_micros() as u64 + 1;
        if !replayed {
            work += cost;
        }
        if fresh {
            fresh_n += 1;
            fresh_work += cost;
        }
        if !replayed {
            stats.note::<P>(&c, &ctx);
        }
        if let Err(mut why) = res {
            // shrink
            let mut best = c;
            let t0 = std::time::Instant::now();
            let mut steps = 0;
            if tree.simplify() {
                while steps < 20_000 && t0.elapsed().as_secs() < 60 {
                    steps += 1;
                    let c = tree.current();
                    match judge(&c, false).1 {
                        Err(w) => {
                            (best, why) = (c, w);
                            if !tree.simplify() {
                                break;
                            }
                        }
                        Ok(()) => {
                            if !tree.complicate() {
                                break;
                            }
                        }
                    }
                }
            }
            save(&job.dir, &fail_file, runner::replay_text::<P>(&best, &why).as_bytes());
            return 1;
        }
        // an ordinary case for a new count or distance; any for a new edge
        if (new.0 > 0 && cost * fresh_n <= 50 * fresh_work) || ((new.1 > 0 || closer > 0) && cost * fresh_n <= 4 * fresh_work) {
            let mut data = data;
            data.truncate(read.max(4));
            if !replayed && (new.0 > 0 || new.1 + closer > 2 || kept % 4 == 0) {
                save(&job.dir, &format!("in-{}-{}-{kept:06}", job.round, job.worker), &data);
                kept += 1;
            }
            corpus.push((data, new.0 * 16 + new.1 + closer.min(8), cost));
        }
    }
    let distinct: Vec<u8> = stats.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
    save(&job.dir, &format!("distinct-{}-{}", job.round, job.worker), &distinct);
    let cmp = CMP.iter().filter(|c| c.load(Relaxed) != 0).count();
    let v = serde_json::json!({"evals": stats.evals, "nontrivial": stats.nontrivial_seen, "edges": seen.1, "cmp": cmp, "corpus": corpus.len()});
    save(&job.dir, &format!("stats-{}-{}", job.round, job.worker), v.to_string().as_bytes());
    if job.trace {
        let _ = std::fs::remove_file(job.dir.join(&fail_file));
    }
    0
}

pub fn guided_cases<P: Prop>(p: &P, cfg: &Cfg) -> u64 {
    let n = p.cases(cfg.tier) / if cfg.tier == Tier::Quick { 8 } else { 16 };
    ((n as f64 * cfg.scale) as u64).max(ROUNDS * WORKERS * 20)
}

// ---------------------------------------------------------------- the master
pub fn run<P: Prop>(_: P, cfg: &Cfg) -> i32 {
    let t0 = std::time::Instant::now();
    let dir = cfg.verif.join("target").join(format!("guided-{}-{}", P::ID, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    if std::fs::create_dir_all(&dir).is_err() {
        eprintln!("cannot make {}", dir.display());
        return 3;
    }
    let code = rounds::<P>(cfg, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn rounds<P: Prop>(cfg: &Cfg, dir: &Path, t0: std::time::Instant) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let start = |round: u64, worker: u64, trace: bool| {
        let mut c = std::process::Command::new(&exe);
        c.args([P::ID, "--guided-worker", &round.to_string(), &worker.to_string()]).arg(dir);
        c.env("VERIF_GUIDED_TRACE", if trace { "1" } else { "" });
        c.stdout(std::process::Stdio::null()).spawn()
    };
    let mut failed = None;
    'all: for round in 0..ROUNDS {
        let mut kids = vec![];
        for w in 0..WORKERS {
            match start(round, w, false) {
                Ok(k) => kids.push(k),
                Err(e) => {
                    eprintln!("cannot start a worker: {e}");
                    for mut k in kids {
                        let _ = k.kill();
                        let _ = k.wait();
                    }
                    return 3;
                }
            }
        }
        let codes: Vec<Option<i32>> = kids.iter_mut().map(|k| k.wait().ok().and_then(|s| s.code())).collect();
        for (w, code) in codes.into_iter().enumerate() {
            let mut code = code;
            let fail = dir.join(format!("fail-{round}-{w}.json"));
            if code.is_none() {
                // died of a signal: again, with every case written down first
                code = start(round, w as u64, true).ok().and_then(|mut k| k.wait().ok()).and_then(|s| s.code());
                if code.is_none() && fail.exists() {
                    code = Some(1);
                }
            }
            match code {
                Some(0) => {}
                Some(1) => {
                    failed = std::fs::read_to_string(&fail).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok());
                    if failed.is_none() {
                        eprintln!("a worker of the guided stage left no report");
                        return 3;
                    }
                    break 'all;
                }
                _ => {
                    eprintln!("a worker of the guided stage failed: {code:?}");
                    return 3;
                }
            }
        }
    }
    // evidence: next to what the random stage wrote
    let (mut evals, mut nontrivial, mut edges, mut cmp, mut corpus) = (0, 0, 0, 0, 0);
    let mut distinct = std::collections::HashSet::new();
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let name = e.file_name().to_string_lossy().to_string();
        let Ok(data) = std::fs::read(e.path()) else { continue };
        if name.starts_with("distinct-") {
            distinct.extend(data.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        } else if name.starts_with("stats-") {
            if let Ok(v) = serde_json::from_slice::<serde_json::Value>(&data) {
                let n = |k: &str| v[k].as_u64().unwrap_or(0);
                evals += n("evals");
                nontrivial += n("nontrivial");
                edges = edges.max(n("edges"));
                cmp = cmp.max(n("cmp"));
                corpus = corpus.max(n("corpus"));
            }
        }
    }
    let path = cfg.verif.join("evidence").join(format!("{}.json", P::ID));
    let read = std::fs::read_to_string(&path).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok());
    let wall = t0.elapsed().as_secs_f64();
    let mut ev = read.unwrap_or_else(|| runner::evidence::<P>(cfg, &Stats::default(), 0, failed.is_some(), 0.0));
    ev["coverage"]["guided"] = serde_json::json!({
        "evaluations": evals, "nontrivial_evaluations": nontrivial, "distinct_nontrivial": distinct.len(),
        "edges_reached": edges, "comparison_features": cmp, "inputs_kept": corpus,
    });
    if let Some(w) = ev["wall_s"].as_f64() {
        ev["wall_s"] = (w + wall).into();
    }
    if failed.is_some() {
        ev["violations"] = 1.into();
    }
    if std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n").is_err() {
        eprintln!("cannot write evidence");
        return 3;
    }
    println!("{}: guided {} cases, {} distinct non-trivial, {} edges, {} inputs kept, {:.1}s", P::ID, evals, distinct.len(), edges, corpus, wall);
    match failed {
        None => 0,
        Some(v) => match serde_json::from_value::<P::Case>(v["case"].clone()) {
            Ok(c) => {
                runner::print_violation::<P>(cfg, &c, v["why"].as_str().unwrap_or(""));
                1
            }
            Err(e) => {
                eprintln!("unreadable report: {e}");
                3
            }
        },
    }
}
