//! Property-based test driver: seeded, multi-threaded, shrinking, with replay files and evidence.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a run measured.
#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub classes: BTreeMap<String, u64>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<serde_json::Value>,
    quiet: bool,
}

impl Stats {
    pub fn hit(&mut self, class: &str) {
        self.add(class, 1);
    }
    pub fn add(&mut self, class: &str, n: u64) {
        if !self.quiet {
            if let Some(c) = self.classes.get_mut(class) {
                *c += n;
            } else {
                self.classes.insert(class.to_string(), n);
            }
        }
    }
    /// Records a non-trivial situation; `key` identifies it for distinctness.
    pub fn nontrivial<K: Hash>(&mut self, key: K, sample: impl FnOnce() -> serde_json::Value) {
        if self.quiet {
            return;
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        if self.nontrivial.len() < 4_000_000
            && self.nontrivial.insert(h.finish())
            && self.nontrivial.len() % 997 == 1
            && self.samples.len() < 3
        {
            self.samples.push(sample());
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        self.nontrivial.extend(o.nontrivial);
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
    }
}

pub type Check = Result<(), String>;

/// One generator + oracle.
pub trait Part: Sync {
    fn name(&self) -> &'static str;
    fn run(&self, cfg: &RunCfg) -> (Stats, Option<Failure>);
    fn replay(&self, case: &serde_json::Value) -> Result<Check, String>;
}

pub struct Failure {
    pub part: &'static str,
    pub case: serde_json::Value,
    pub message: String,
}

pub struct RunCfg {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: u64,
    pub deadline: Instant,
}

pub struct P<C> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strategy: fn(bool) -> BoxedStrategy<C>,
    pub test: fn(&C, &mut Stats) -> Check,
}

/// A case that never returns is reported after this long.
const HANG_S: u64 = 60;

static CRASHED: AtomicI32 = AtomicI32::new(0);
static CRASHED_WORKER: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static WORKER: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}

/// A crash parks the crashing thread; the watchdog then reports the case it was running.
extern "C" fn on_signal(sig: libc::c_int) {
    CRASHED_WORKER.store(WORKER.with(|w| w.get()), Ordering::SeqCst);
    CRASHED.store(sig, Ordering::SeqCst);
    loop {
        unsafe { libc::sleep(1000) };
    }
}

pub fn install_signals() {
    for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

type Slot<C> = Mutex<Option<(Instant, C)>>;

/// Ends the process with a violation if a worker crashes or hangs.
fn watch<C: Clone + Serialize>(cfg: &RunCfg, part: &'static str, slots: &[Slot<C>], done: &AtomicBool) {
    let t0 = Instant::now();
    while !done.load(Ordering::Relaxed) {
        std::thread::sleep(Duration::from_millis(20));
        let sig = CRASHED.load(Ordering::SeqCst);
        let mut bad = None;
        if sig != 0 {
            let w = CRASHED_WORKER.load(Ordering::SeqCst) as usize;
            let c = slots.get(w).and_then(|s| s.lock().unwrap().clone());
            bad = Some((c.map(|c| c.1), format!("crashed with signal {sig}")));
        } else {
            for s in slots {
                let g = s.lock().unwrap();
                if let Some((t, c)) = &*g {
                    if t.elapsed() > Duration::from_secs(HANG_S) {
                        bad = Some((Some(c.clone()), format!("did not return within {HANG_S} s")));
                    }
                }
            }
        }
        if let Some((c, message)) = bad {
            let Some(c) = c else {
                eprintln!("{message} outside any case");
                std::process::exit(2);
            };
            let f = Failure {
                part,
                case: serde_json::to_value(&c).unwrap(),
                message,
            };
            let ev = serde_json::json!({
                "property": cfg.property, "tier": if cfg.thorough {"thorough"} else {"quick"},
                "seed": cfg.seed, "level": "exploration",
                "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run ended early by a crash or hang",
                    "samples": [f.case.clone()]},
                "wall_s": t0.elapsed().as_secs_f64(), "violations": 1,
            });
            write_evidence(&cfg.property, &ev);
            report(&cfg.property, cfg.seed, &f);
            use std::io::Write;
            std::io::stdout().flush().ok();
            unsafe { libc::_exit(1) };
        }
    }
}

fn write_evidence(id: &str, ev: &serde_json::Value) -> bool {
    let dir = format!("{}/evidence", verif());
    std::fs::create_dir_all(&dir).ok();
    let r = std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(ev).unwrap() + "\n");
    if let Err(e) = &r {
        eprintln!("cannot write evidence: {e}");
    }
    r.is_ok()
}

fn report(id: &str, seed: u64, f: &Failure) {
    let dir = format!("{}/replays", verif());
    std::fs::create_dir_all(&dir).ok();
    let body = serde_json::json!({"property": id, "part": f.part, "seed": seed,
        "message": f.message, "case": f.case});
    let text = serde_json::to_string_pretty(&body).unwrap() + "\n";
    let mut h = std::collections::hash_map::DefaultHasher::new();
    text.hash(&mut h);
    let path = format!("{dir}/{}-{:016x}.json", id, h.finish());
    std::fs::write(&path, text).ok();
    let m: String = f.message.chars().take(2000).collect();
    println!("{} [{}]: {}", id, f.part, m);
    println!("VIOLATION property={id} replay={path}");
}

fn guarded<C>(test: fn(&C, &mut Stats) -> Check, c: &C, st: &mut Stats) -> Check {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| test(c, st))) {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            Err(format!("panicked: {m}"))
        }
    }
}

impl<C> Part for P<C>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn run(&self, cfg: &RunCfg) -> (Stats, Option<Failure>) {
        let total = if cfg.thorough { self.thorough } else { self.quick };
        let total = (total as u128 * env_u64("XH_PERCENT", 100) as u128 / 100) as u64;
        let per = total.div_ceil(cfg.threads);
        let stop = AtomicBool::new(false);
        let slots: Vec<Slot<C>> = (0..cfg.threads).map(|_| Mutex::new(None)).collect();
        let done = AtomicBool::new(false);
        let results: Vec<(Stats, Option<Failure>)> = std::thread::scope(|s| {
            let (slots, done) = (&slots, &done);
            s.spawn(move || watch(cfg, self.name, slots, done));
            let hs: Vec<_> = (0..cfg.threads)
                .map(|t| {
                    let stop = &stop;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || self.worker(cfg, t, per, stop, &slots[t as usize]))
                        .unwrap()
                })
                .collect();
            let r = hs.into_iter().map(|h| h.join().unwrap()).collect();
            done.store(true, Ordering::Relaxed);
            r
        });
        let mut st = Stats::default();
        let mut fail = None;
        for (s, f) in results {
            st.merge(s);
            if fail.is_none() {
                fail = f;
            }
        }
        (st, fail)
    }

    fn replay(&self, case: &serde_json::Value) -> Result<Check, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        Ok(guarded(self.test, &c, &mut Stats::default()))
    }
}

impl<C> P<C>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
{
    fn worker(&self, cfg: &RunCfg, t: u64, per: u64, stop: &AtomicBool, slot: &Slot<C>) -> (Stats, Option<Failure>) {
        WORKER.with(|w| w.set(t));
        let mut seed = [0u8; 32];
        let h = |i: u64| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (cfg.seed, &cfg.property, self.name, t, cfg.thorough, i).hash(&mut h);
            h.finish()
        };
        for i in 0..4 {
            seed[i * 8..i * 8 + 8].copy_from_slice(&h(i as u64).to_le_bytes());
        }
        let conf = Config {
            cases: per as u32,
            failure_persistence: None,
            max_shrink_iters: 20_000,
            max_shrink_time: 60_000,
            max_global_rejects: u32::MAX,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(conf, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let st = RefCell::new(Stats::default());
        let failed_here = std::cell::Cell::new(false);
        let strat = (self.strategy)(cfg.thorough);
        let r = runner.run(&strat, |c| {
            if !failed_here.get() && (stop.load(Ordering::Relaxed) || Instant::now() > cfg.deadline) {
                return Ok(());
            }
            let mut st = st.borrow_mut();
            st.quiet = failed_here.get();
            if !st.quiet {
                st.evals += 1;
            }
            *slot.lock().unwrap() = Some((Instant::now(), c.clone()));
            let r = guarded(self.test, &c, &mut st);
            *slot.lock().unwrap() = None;
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    failed_here.set(true);
                    stop.store(true, Ordering::Relaxed);
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let fail = match r {
            Ok(()) => None,
            Err(TestError::Fail(_, c)) => {
                // message of the shrunk case
                let message = guarded(self.test, &c, &mut Stats::default())
                    .err()
                    .unwrap_or_else(|| "failure did not repeat on the shrunk case".into());
                Some(Failure {
                    part: self.name,
                    case: serde_json::to_value(&c).unwrap(),
                    message,
                })
            }
            Err(TestError::Abort(r)) => {
                eprintln!("generator aborted: {r}");
                std::process::exit(2);
            }
        };
        (st.into_inner(), fail)
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub parts: Vec<Box<dyn Part>>,
    /// classes that must have been reached, otherwise the run proves too little
    pub must_hit: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

pub fn verif() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// Runs all parts of one property; returns the process exit code.
pub fn run_property(p: &Property, thorough: bool) -> i32 {
    let seed = env_u64("VERIF_SEED", 1);
    let t0 = Instant::now();
    let budget = env_u64("XH_BUDGET_S", if thorough { 3000 } else { 420 });
    let cfg = RunCfg {
        property: p.id.to_string(),
        seed,
        thorough,
        threads: env_u64("XH_THREADS", 8),
        deadline: t0 + Duration::from_secs(budget),
    };
    let mut all = Stats::default();
    let mut per_part = serde_json::Map::new();
    let mut fail = None;
    for part in &p.parts {
        let t = Instant::now();
        let (st, f) = part.run(&cfg);
        per_part.insert(
            part.name().into(),
            serde_json::json!({"cases": st.evals, "distinct_nontrivial": st.nontrivial.len(),
                "wall_s": (t.elapsed().as_secs_f64()*1000.0).round()/1000.0}),
        );
        all.merge(st);
        if f.is_some() {
            fail = f;
            break;
        }
    }
    let missed: Vec<&str> = p
        .must_hit
        .iter()
        .copied()
        .filter(|c| all.classes.get(*c).copied().unwrap_or(0) == 0)
        .collect();
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.evals,
            "distinct_nontrivial": all.nontrivial.len(),
            "rule": p.rule,
            "samples": all.samples,
            "classes": all.classes,
            "parts": per_part,
            "expected_classes_not_reached": missed,
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64()*1000.0).round()/1000.0,
        "violations": fail.is_some() as u32,
    });
    if !write_evidence(p.id, &ev) {
        return 2;
    }
    match fail {
        Some(f) => {
            report(p.id, seed, &f);
            1
        }
        None => {
            println!(
                "{} held on {} cases ({} distinct non-trivial) in {:.1}s{}",
                p.id,
                all.evals,
                all.nontrivial.len(),
                t0.elapsed().as_secs_f64(),
                if missed.is_empty() { String::new() } else { format!("; classes not reached: {missed:?}") }
            );
            0
        }
    }
}

pub fn replay(props: &[Property], path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let v: serde_json::Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let (id, part) = (v["property"].as_str().unwrap_or(""), v["part"].as_str().unwrap_or(""));
    for p in props.iter().filter(|p| p.id == id) {
        for q in p.parts.iter().filter(|q| q.name() == part) {
            return match q.replay(&v["case"]) {
                Err(e) => {
                    eprintln!("bad case: {e}");
                    2
                }
                Ok(Ok(())) => {
                    println!("{id} [{part}]: the recorded case passes");
                    0
                }
                Ok(Err(m)) => {
                    println!("{id} [{part}]: {m}");
                    println!("VIOLATION property={id} replay={path}");
                    1
                }
            };
        }
    }
    eprintln!("unknown property/part in {path}");
    2
}
