//! The search loop shared by all checks: generate, run, count, shrink, report.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub enum Verdict {
    Pass,
    /// The case does not count: it left what this property speaks about.
    Abort(String),
    Fail(String),
}

pub struct Outcome {
    pub verdict: Verdict,
    pub nontrivial: bool,
    /// feature name -> the case had it
    pub labels: Vec<&'static str>,
}

pub trait Engine: Sync {
    type Case: Clone + Debug + Serialize + DeserializeOwned + Hash + Send + Sync + 'static;
    fn name(&self) -> &'static str;
    fn rule(&self) -> String;
    fn strategy(&self) -> BoxedStrategy<Self::Case>;
    fn run(&self, case: &Self::Case) -> Outcome;
    /// A case did not return.  Decide deterministically whether the crate under test is stuck.
    fn confirm_hang(&self, _case: &Self::Case) -> Option<String> {
        None
    }
    /// The process was aborted (a panic while unwinding); `text` is the last panic before.
    fn crash(&self, _case: &Self::Case, text: &str) -> Option<String> {
        Some(format!("the process was aborted after: {text}"))
    }
    /// More numbers for the evidence.
    fn extra(&self) -> serde_json::Value {
        serde_json::Value::Null
    }
    /// How long shrinking may take.
    fn shrink_budget(&self) -> (usize, Duration) {
        (4000, Duration::from_secs(20))
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub aborted: u64,
    pub abort_sample: Option<String>,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<serde_json::Value>,
}

pub struct Report {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub parts: Vec<serde_json::Value>,
    pub rules: Vec<String>,
    pub samples: Vec<serde_json::Value>,
    pub evaluations: u64,
    pub distinct: u64,
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

impl Report {
    pub fn new(property: &str, tier: &str, seed: u64) -> Self {
        Report {
            property: property.into(),
            tier: tier.into(),
            seed,
            start: Instant::now(),
            parts: vec![],
            rules: vec![],
            samples: vec![],
            evaluations: 0,
            distinct: 0,
        }
    }
    pub fn add(&mut self, engine: &str, rule: String, st: Stats, extra: serde_json::Value) {
        self.evaluations += st.evaluations;
        self.distinct += st.nontrivial.len() as u64;
        self.rules.push(format!("[{engine}] {rule}"));
        for s in st.samples.iter().take(3) {
            self.samples.push(serde_json::json!({"engine": engine, "case": s}));
        }
        self.parts.push(serde_json::json!({
            "engine": engine,
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.nontrivial.len(),
            "set_aside": st.aborted,
            "set_aside_example": st.abort_sample,
            "cases_with_feature": st.labels,
            "extra": extra,
        }));
    }
    pub fn write(&self, violations: u64) {
        let v = serde_json::json!({
            "property": self.property,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.distinct,
                "rule": self.rules.join(" "),
                "samples": self.samples,
                "engines": self.parts,
            },
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": violations,
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{}.json", self.property));
        if let Err(e) = std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap() + "\n") {
            eprintln!("cannot write {}: {e}", f.display());
            std::process::exit(2);
        }
    }
    /// Report a violation and end the process.
    pub fn violation(&self, engine: &str, case: serde_json::Value, msg: &str) -> ! {
        self.write(1);
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{}-{}.json", self.property, engine));
        let v = serde_json::json!({
            "property": self.property,
            "engine": engine,
            "message": msg,
            "case": case,
        });
        let _ = std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap() + "\n");
        println!("{}: {}", self.property, msg);
        println!("VIOLATION property={} replay={}", self.property, f.display());
        std::process::exit(1);
    }
}

pub fn splitmix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
pub fn rng(seed: u64, stream: u64) -> TestRunner {
    let mut bytes = [0u8; 32];
    let mut x = splitmix(seed ^ stream.wrapping_mul(0xD1342543DE82EF95));
    for c in bytes.chunks_mut(8) {
        x = splitmix(x);
        c.copy_from_slice(&x.to_le_bytes());
    }
    TestRunner::new_with_rng(
        Config { failure_persistence: None, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &bytes),
    )
}

pub struct Budget {
    pub cases: u64,
    pub time: Duration,
}

thread_local! {
    static CURRENT: Cell<Option<(*const (), fn(*const (), &str))>> = const { Cell::new(None) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
struct Current<'a, E: Engine> {
    rep: &'a Report,
    eng: &'a E,
    case: &'a E::Case,
    file: Option<&'a str>,
}
fn crashed<E: Engine>(p: *const (), text: &str) {
    // Set by `run_guarded` and valid until it returns, which this very thread has not done.
    let c = unsafe { &*(p as *const Current<E>) };
    match (c.eng.crash(c.case, text), c.file) {
        (Some(m), None) => c.rep.violation(c.eng.name(), serde_json::to_value(c.case).unwrap(), &m),
        (Some(m), Some(file)) => {
            println!("{}: {m}", c.rep.property);
            println!("VIOLATION property={} replay={file}", c.rep.property);
            std::process::exit(1)
        }
        (None, _) => eprintln!("aborted: {text}"),
    }
}
extern "C" fn on_abort(_: libc::c_int) {
    if let Some((p, f)) = CURRENT.with(|c| c.take()) {
        let text = PANIC.with(|p| p.try_borrow().map(|s| s.clone()).unwrap_or_default());
        f(p, &text);
    }
    unsafe { libc::_exit(2) }
}
/// Remember the panics, and report the case when one aborts the process.
pub fn install_hooks() {
    std::panic::set_hook(Box::new(|i| {
        let t = match i.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => i.payload().downcast_ref::<String>().cloned().unwrap_or_default(),
        };
        let t = t.lines().next().unwrap_or("").to_string();
        PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                // the panic that cannot be unwound is only the consequence
                if !t.contains("panic in a destructor") {
                    *p = t;
                }
            }
        });
    }));
    unsafe { libc::signal(libc::SIGABRT, on_abort as *const () as libc::sighandler_t) };
}
fn run_guarded<E: Engine>(rep: &Report, eng: &E, case: &E::Case, file: Option<&str>) -> Outcome {
    let cur = Current { rep, eng, case, file };
    CURRENT.with(|c| c.set(Some((&cur as *const Current<E> as *const (), crashed::<E>))));
    let out = eng.run(case);
    CURRENT.with(|c| c.set(None));
    out
}

const WORKERS: usize = 8;
const STUCK: Duration = Duration::from_secs(40);

/// Search with one engine; returns only if nothing was found.
pub fn search<E: Engine>(rep: &mut Report, eng: &E, budget: &Budget) {
    let per = budget.cases.div_ceil(WORKERS as u64);
    let deadline = Instant::now() + budget.time;
    let stop = AtomicBool::new(false);
    let running = AtomicUsize::new(WORKERS);
    let slots: Vec<Mutex<Option<(Instant, E::Case)>>> = (0..WORKERS).map(|_| Mutex::new(None)).collect();
    let found: Mutex<Option<(usize, E::Case, String)>> = Mutex::new(None);
    let stats: Vec<Mutex<Stats>> = (0..WORKERS).map(|_| Mutex::new(Stats::default())).collect();
    let rep0 = rep;
    let rep = &*rep0;
    let seed = rep.seed;
    let stream0 = hash_of(&eng.name()) ^ hash_of(&rep.property);
    std::thread::scope(|s| {
        for w in 0..WORKERS {
            let (stop, running, slots, found, stats) = (&stop, &running, &slots, &found, &stats);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let strat = eng.strategy();
                    let mut runner = rng(seed, stream0 ^ (w as u64 + 1));
                    let mut st = Stats::default();
                    for _ in 0..per {
                        if stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                            break;
                        }
                        let mut tree = strat.new_tree(&mut runner).expect("generator");
                        let case = tree.current();
                        *slots[w].lock().unwrap() = Some((Instant::now(), case.clone()));
                        let out = run_guarded(rep, eng, &case, None);
                        st.evaluations += 1;
                        for l in &out.labels {
                            *st.labels.entry(l).or_insert(0) += 1;
                        }
                        match out.verdict {
                            Verdict::Abort(m) => {
                                st.aborted += 1;
                                if st.abort_sample.is_none() {
                                    st.abort_sample = Some(m);
                                }
                            }
                            Verdict::Pass => {
                                if out.nontrivial && st.nontrivial.insert(hash_of(&case)) && st.samples.len() < 2 {
                                    st.samples.push(serde_json::to_value(&case).unwrap());
                                }
                            }
                            Verdict::Fail(msg) => {
                                let first = {
                                    let mut f = found.lock().unwrap();
                                    let first = f.is_none();
                                    if first {
                                        *f = Some((w, case.clone(), msg));
                                    }
                                    first
                                };
                                stop.store(true, Ordering::Relaxed);
                                if first {
                                    let (steps, time) = eng.shrink_budget();
                                    let end = Instant::now() + time;
                                    let mut more = tree.simplify();
                                    for _ in 0..steps {
                                        if !more || Instant::now() > end {
                                            break;
                                        }
                                        let case = tree.current();
                                        *slots[w].lock().unwrap() = Some((Instant::now(), case.clone()));
                                        match run_guarded(rep, eng, &case, None).verdict {
                                            Verdict::Fail(m) => {
                                                *found.lock().unwrap() = Some((w, case, m));
                                                more = tree.simplify();
                                            }
                                            _ => more = tree.complicate(),
                                        }
                                    }
                                }
                                break;
                            }
                        }
                    }
                    *slots[w].lock().unwrap() = None;
                    *stats[w].lock().unwrap() = st;
                    running.fetch_sub(1, Ordering::SeqCst);
                })
                .expect("thread");
        }
        // watchdog
        while running.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            let stuck = slots.iter().find_map(|s| match &*s.lock().unwrap() {
                Some((t, c)) if t.elapsed() > STUCK => Some(c.clone()),
                _ => None,
            });
            if let Some(case) = stuck {
                if let Some((_, c, m)) = found.lock().unwrap().take() {
                    rep.violation(eng.name(), serde_json::to_value(&c).unwrap(), &m);
                }
                if let Some(m) = eng.confirm_hang(&case) {
                    rep.violation(eng.name(), serde_json::to_value(&case).unwrap(), &m);
                }
                eprintln!("watchdog: a case of engine {} did not return: {case:?}", eng.name());
                std::process::exit(2);
            }
        }
    });
    let mut all = Stats::default();
    for st in stats {
        let st = st.into_inner().unwrap();
        all.evaluations += st.evaluations;
        all.aborted += st.aborted;
        all.abort_sample = all.abort_sample.or(st.abort_sample);
        all.nontrivial.extend(st.nontrivial);
        for (k, v) in st.labels {
            *all.labels.entry(k).or_insert(0) += v;
        }
        all.samples.extend(st.samples);
    }
    // smallest samples read best
    all.samples.sort_by_key(|s| s.to_string().len());
    let (evals, dist, ab) = (all.evaluations, all.nontrivial.len(), all.aborted);
    let rep = rep0;
    rep.add(eng.name(), eng.rule(), all, eng.extra());
    if let Some((_, case, msg)) = found.into_inner().unwrap() {
        rep.violation(eng.name(), serde_json::to_value(&case).unwrap(), &msg);
    }
    println!(
        "{} [{}]: {evals} cases, {dist} distinct non-trivial, {ab} set aside",
        rep.property,
        eng.name()
    );
}

/// Run one recorded case again.
pub fn replay<E: Engine>(eng: &E, property: &str, file: &str, case: &serde_json::Value) -> ! {
    let case: E::Case = match serde_json::from_value(case.clone()) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{file}: not a case of engine {}: {e}", eng.name());
            std::process::exit(2)
        }
    };
    println!("{case:#?}");
    let (tx, rx) = std::sync::mpsc::channel();
    let out = std::thread::scope(|s| {
        let c = &case;
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                let rep = Report::new(property, "replay", 0);
                let _ = tx.send(run_guarded(&rep, eng, c, Some(file)));
            })
            .expect("thread");
        match rx.recv_timeout(STUCK) {
            Ok(o) => o,
            Err(_) => match eng.confirm_hang(c) {
                Some(m) => {
                    println!("{property}: {m}");
                    println!("VIOLATION property={property} replay={file}");
                    std::process::exit(1)
                }
                None => std::process::exit(2),
            },
        }
    });
    match out.verdict {
        Verdict::Fail(m) => {
            println!("{property}: {m}");
            println!("VIOLATION property={property} replay={file}");
            std::process::exit(1)
        }
        Verdict::Abort(m) => println!("set aside: {m}"),
        Verdict::Pass => println!("passes"),
    }
    std::process::exit(0)
}
