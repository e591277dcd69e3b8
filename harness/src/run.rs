//! Search engine shared by all in-process properties: seeded proptest search,

use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

pub const WORKERS: u64 = 8;

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub root: PathBuf,
    pub replay: Option<(String, Value)>,
    pub replayed: bool,
    start: Instant,
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    parts: Vec<Value>,
    rules: Vec<String>,
    pub assumptions: Vec<String>,
    violations: u64,
    known_hits: Vec<String>,
    known: Vec<Known>,
    /// Factor of the quick tier's budgets.
    pub mult: f64,
}

#[derive(Clone, serde::Deserialize)]
pub struct Known {
    pub property: String,
    #[serde(default)]
    pub part: String,
    /// The specific failing case, compared for equality with the (shrunk) case.
    pub case: Value,
    pub what: String,
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            LAST_PANIC.with(|l| *l.borrow_mut() = info.to_string());
        } else {
            old(info)
        }
    }));
}

/// Run a check, turning a panic of the code under test into a failure.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    match r {
        Ok(r) => r,
        Err(_) => Err(format!(
            "panic: {}",
            LAST_PANIC.with(|l| l.borrow().clone())
        )),
    }
}

/// Exit code of a process whose case doesn't return.
pub const HUNG: i32 = 97;

const SLOTS: usize = 64;
static STARTED: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static NEXT: AtomicUsize = AtomicUsize::new(0);

fn millis() -> u64 {
    static START: OnceLock<Instant> = OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// End the process when a case takes longer than `limit`, or memory runs low.
pub fn watchdog(limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let now = millis();
        let late = STARTED.iter().any(|s| {
            let t = s.load(Ordering::Relaxed);
            t != 0 && now.saturating_sub(t) > limit.as_millis() as u64
        });
        let pages: u64 = std::fs::read_to_string("/proc/self/statm")
            .ok()
            .and_then(|s| s.split(' ').nth(1).and_then(|n| n.parse().ok()))
            .unwrap_or(0);
        if late || pages > (12 << 30) / 4096 {
            std::process::exit(HUNG);
        }
    });
}

/// The cases which one worker runs, one after another.
struct Slot {
    id: String,
    part: String,
    index: usize,
    note: Option<PathBuf>,
}

impl Slot {
    fn new(id: &str, part: &str) -> Slot {
        let index = NEXT.fetch_add(1, Ordering::Relaxed) % SLOTS;
        Slot {
            id: id.into(),
            part: part.into(),
            index,
            note: std::env::var_os("VERIF_JOURNAL")
                .map(|d| PathBuf::from(d).join(format!("{index}.json"))),
        }
    }

    /// Check a case, turning a panic into a failure.
    fn run<T: Serialize>(
        &self,
        case: &T,
        check: impl Fn(&T) -> Result<(), String>,
    ) -> Result<(), String> {
        if let Some(path) = &self.note {
            let v = json!({"property": self.id, "part": self.part, "case": case});
            std::fs::write(path, v.to_string()).ok();
        }
        STARTED[self.index].store(millis(), Ordering::Relaxed);
        let r = guarded(|| check(case));
        STARTED[self.index].store(0, Ordering::Relaxed);
        r
    }
}

pub fn runner_for(seed: u64) -> TestRunner {
    let mut bytes = [0u8; 32];
    for (i, chunk) in bytes.chunks_mut(8).enumerate() {
        let v = hash_of(&(seed, i as u64, 0x67656e63u64));
        chunk.copy_from_slice(&v.to_le_bytes());
    }
    let config = Config {
        failure_persistence: None,
        ..Config::default()
    };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

/// Shrink a failing tree against `fails`; returns the minimal failing value and message.
pub fn shrink<T: ValueTree>(
    tree: &mut T,
    first: String,
    max: usize,
    mut fails: impl FnMut(&T::Value) -> Option<String>,
) -> (T::Value, String)
where
    T::Value: Clone,
{
    let mut best = tree.current();
    let mut msg = first;
    let mut steps = 0;
    let start = Instant::now();
    if !tree.simplify() {
        return (best, msg);
    }
    loop {
        steps += 1;
        if steps > max || start.elapsed() > Duration::from_secs(120) {
            return (best, msg);
        }
        let cur = tree.current();
        match fails(&cur) {
            Some(m) => {
                best = cur;
                msg = m;
                if !tree.simplify() {
                    return (best, msg);
                }
            }
            None => {
                if !tree.complicate() {
                    return (best, msg);
                }
            }
        }
    }
}

struct WorkerOut<T> {
    evals: u64,
    nontrivial: u64,
    hashes: Vec<u64>,
    samples: Vec<Value>,
    failure: Option<(T, String)>,
}

impl Ctx {
    pub fn new(id: &str, root: PathBuf, replay: Option<(String, Value)>) -> Ctx {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
        let known_path = root.join("known_findings.json");
        let known: Vec<Known> = match std::fs::read_to_string(&known_path) {
            Ok(s) => {
                let v: Value = serde_json::from_str(&s).expect("known_findings.json");
                serde_json::from_value(v["findings"].clone()).expect("findings")
            }
            Err(_) => Vec::new(),
        };
        Ctx {
            known: known.into_iter().filter(|k| k.property == id).collect(),
            id: id.to_string(),
            seed,
            thorough,
            root,
            replay,
            replayed: false,
            start: Instant::now(),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: Vec::new(),
            parts: Vec::new(),
            rules: Vec::new(),
            assumptions: Vec::new(),
            violations: 0,
            known_hits: Vec::new(),
            mult: 1.0,
        }
    }

    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let scale: f64 = std::env::var("VERIF_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.0);
        let n = if self.thorough { thorough as f64 } else { quick as f64 * self.mult };
        ((n * scale) as u64).max(1)
    }

    pub fn part_seed(&self, name: &str) -> u64 {
        hash_of(&(self.seed, &self.id, name))
    }

    pub fn known_for(&self, part: &str, case: &Value) -> Option<&Known> {
        self.known
            .iter()
            .find(|k| (k.part.is_empty() || k.part == part) && &k.case == case)
    }

    /// Handle replay mode for a part. Returns true if the part was handled.
    pub fn replay_part<T: Serialize + DeserializeOwned>(
        &mut self,
        name: &str,
        check: impl Fn(&T) -> Result<(), String>,
    ) -> bool {
        let Some((part, case)) = self.replay.clone() else {
            return false;
        };
        if part != name {
            return true;
        }
        self.replayed = true;
        let case: T = serde_json::from_value(case).expect("replay case does not parse");
        match Slot::new(&self.id, name).run(&case, check) {
            Ok(()) => println!("REPLAY property={} part={name}: passes", self.id),
            Err(e) => {
                println!("REPLAY property={} part={name}: FAILS\n{e}", self.id);
                self.violations += 1;
            }
        }
        true
    }

    pub fn note(&mut self, name: &str, rule: &str, evals: u64, nontrivial: u64, extra: Value) {
        let mut p = json!({"part": name, "evaluations": evals, "nontrivial": nontrivial});
        if let (Some(p), Some(e)) = (p.as_object_mut(), extra.as_object()) {
            for (k, v) in e {
                p.insert(k.clone(), v.clone());
            }
        }
        self.parts.push(p);
        self.evaluations += evals;
        self.rules.push(format!("{name}: {rule}"));
    }

    pub fn add_distinct(&mut self, part: &str, h: impl IntoIterator<Item = u64>) {
        for h in h {
            self.distinct.insert(hash_of(&(part, h)));
        }
    }

    pub fn add_sample(&mut self, part: &str, v: Value) {
        let per = self
            .samples
            .iter()
            .filter(|s| s["part"] == json!(part))
            .count();
        if per < 3 {
            let mut s = v.to_string();
            if s.len() > 1200 {
                s.truncate((0..=1200).rev().find(|i| s.is_char_boundary(*i)).unwrap());
                s.push('…');
                self.samples.push(json!({"part": part, "case": s}));
            } else {
                self.samples.push(json!({"part": part, "case": v}));
            }
        }
    }

    pub fn report<T: Serialize + Debug>(&mut self, name: &str, case: &T, msg: &str) {
        let case_json = serde_json::to_value(case).unwrap();
        if let Some(k) = self.known_for(name, &case_json) {
            self.known_hits.push(k.what.clone());
            return;
        }
        self.violations += 1;
        let dir = self.root.join("replays");
        std::fs::create_dir_all(&dir).ok();
        let path = dir.join(format!("{}-{}.json", self.id, name));
        let v = json!({"property": self.id, "part": name, "seed": self.seed,
            "case": case_json, "message": msg});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
        println!("--- {} / {name}: {msg}", self.id);
        println!("VIOLATION property={} replay={}", self.id, path.display());
    }

    /// Random search over a strategy.
    pub fn part<S, M>(
        &mut self,
        name: &str,
        rule: &str,
        cases: u64,
        make: M,
        nontrivial: impl Fn(&S::Value) -> bool + Sync,
        check: impl Fn(&S::Value) -> Result<(), String> + Sync,
    ) where
        S: Strategy,
        M: Fn() -> S + Sync,
        S::Value: Serialize + DeserializeOwned + Clone + Debug + Send,
    {
        if self.replay_part(name, &check) {
            return;
        }
        let seed = self.part_seed(name);
        let stop = AtomicBool::new(false);
        let id = self.id.as_str();
        let per = cases.div_ceil(WORKERS);
        let known: Vec<Value> = self
            .known
            .iter()
            .filter(|k| k.part.is_empty() || k.part == name)
            .map(|k| k.case.clone())
            .collect();
        let outs: Vec<WorkerOut<S::Value>> = std::thread::scope(|s| {
            let handles: Vec<_> = (0..WORKERS)
                .map(|w| {
                    let (make, nontrivial, check, stop, known) =
                        (&make, &nontrivial, &check, &stop, &known);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let slot = Slot::new(id, name);
                            let strategy = make();
                            let mut runner = runner_for(hash_of(&(seed, w)));
                            let mut out = WorkerOut {
                                evals: 0,
                                nontrivial: 0,
                                hashes: Vec::new(),
                                samples: Vec::new(),
                                failure: None,
                            };
                            for i in 0..per {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                let mut tree =
                                    strategy.new_tree(&mut runner).expect("generator");
                                let case = tree.current();
                                out.evals += 1;
                                if nontrivial(&case) {
                                    out.nontrivial += 1;
                                    let text = serde_json::to_string(&case).unwrap();
                                    out.hashes.push(hash_of(&text));
                                    if out.samples.is_empty() && (i > 3 || i + 1 == per) {
                                        out.samples.push(serde_json::to_value(&case).unwrap());
                                    }
                                }
                                if let Err(m) = slot.run(&case, check) {
                                    let (min, msg) = shrink(&mut tree, m, 4000, |c| {
                                        slot.run(c, check).err()
                                    });
                                    if known.contains(&serde_json::to_value(&min).unwrap()) {
                                        // reported through the sequential path below
                                        if out.failure.is_none() {
                                            out.failure = Some((min, msg));
                                        }
                                        continue;
                                    }
                                    out.failure = Some((min, msg));
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                            }
                            out
                        })
                        .unwrap()
                })
                .collect();
            handles.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut evals = 0;
        let mut nt = 0;
        let mut fail: Option<(S::Value, String)> = None;
        let listed = |c: &S::Value| known.contains(&serde_json::to_value(c).unwrap());
        for o in outs {
            evals += o.evals;
            nt += o.nontrivial;
            self.add_distinct(name, o.hashes);
            for s in o.samples {
                self.add_sample(name, s);
            }
            if let Some((c, m)) = o.failure {
                // A failure that is not listed as known always comes first.
                let rank = |c: &S::Value| (listed(c), serde_json::to_string(c).unwrap().len());
                let better = match &fail {
                    None => true,
                    Some((b, _)) => rank(&c) < rank(b),
                };
                if better {
                    fail = Some((c, m));
                }
            }
        }
        self.note(name, rule, evals, nt, json!({"mode": "random"}));
        if let Some((c, m)) = fail {
            self.report(name, &c, &m);
        }
    }

    /// Enumerate a list of cases completely.
    pub fn list<T>(
        &mut self,
        name: &str,
        rule: &str,
        cases: impl IntoIterator<Item = T>,
        nontrivial: impl Fn(&T) -> bool + Sync,
        check: impl Fn(&T) -> Result<(), String> + Sync,
    ) where
        T: Serialize + DeserializeOwned + Clone + Debug + Send + Sync,
    {
        if self.replay_part(name, &check) {
            return;
        }
        let cases: Vec<T> = cases.into_iter().collect();
        let id = self.id.as_str();
        let chunk = (cases.len() / WORKERS as usize).max(1);
        let outs: Vec<(u64, Vec<u64>, Option<(T, String)>)> = std::thread::scope(|s| {
            let handles: Vec<_> = cases
                .chunks(chunk)
                .map(|cs| {
                    let (check, nontrivial) = (&check, &nontrivial);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let slot = Slot::new(id, name);
                            let mut hashes = Vec::new();
                            let mut n = 0;
                            for c in cs {
                                n += 1;
                                if nontrivial(c) {
                                    hashes.push(hash_of(&serde_json::to_string(c).unwrap()));
                                }
                                if let Err(m) = slot.run(c, check) {
                                    return (n, hashes, Some((c.clone(), m)));
                                }
                            }
                            (n, hashes, None)
                        })
                        .unwrap()
                })
                .collect();
            handles.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut evals = 0;
        let mut nt = 0;
        let mut fail = None;
        for (n, h, f) in outs {
            evals += n;
            nt += h.len() as u64;
            self.add_distinct(name, h);
            if fail.is_none() {
                fail = f;
            }
        }
        for i in [cases.len() / 3, cases.len() / 2, cases.len().saturating_sub(1)] {
            if let Some(c) = cases.get(i) {
                self.add_sample(name, serde_json::to_value(c).unwrap());
            }
        }
        self.note(name, rule, evals, nt, json!({"mode": "enumerated"}));
        if let Some((c, m)) = fail {
            self.report(name, &c, &m);
        }
    }

    pub fn finish(self) -> i32 {
        if self.replay.is_some() {
            if !self.replayed {
                println!("REPLAY: no such part");
                return 2;
            }
            return if self.violations > 0 { 1 } else { 0 };
        }
        let level = if self.id == "C04" { "fault_enumeration" } else { "exploration" };
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.distinct.len(),
                "rule": self.rules.join(" | "),
                "samples": self.samples,
                "parts": self.parts,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations,
        });
        let dir = self.root.join("evidence");
        std::fs::create_dir_all(&dir).ok();
        std::fs::write(
            dir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("write evidence");
        let mut hits = self.known_hits.clone();
        hits.sort();
        hits.dedup();
        for h in hits {
            println!("KNOWN-FINDING: property={} {}", self.id, h);
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s",
            self.id,
            self.evaluations,
            self.distinct.len(),
            self.violations,
            self.start.elapsed().as_secs_f64()
        );
        if self.violations > 0 {
            1
        } else {
            0
        }
    }
}
