//! Property runner on top of proptest: every test of a property is a strategy, an
//! oracle and a rule for what counts as non-trivial. Cases are generated in shards
//! (one proptest TestRunner each, seeded from VERIF_SEED, the test name and the shard
//! number), failures are shrunk by proptest and stored as JSON replay files.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

/// What a check observed about one case.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub excluded: bool,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l)
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true
        }
    }
}

pub type CheckResult = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)+) => { if !$c { return Err(format!($($arg)+)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b)); }
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

/// Called by the thread that is about to end the run. Only the first one gets through: what
/// the others meet from now on (the scratch directory is being removed) means nothing.
fn ending() {
    use std::sync::atomic::{AtomicBool, Ordering};
    static ENDING: AtomicBool = AtomicBool::new(false);
    thread_local!(static MINE: std::cell::Cell<bool> = std::cell::Cell::new(false));
    if ENDING.swap(true, Ordering::SeqCst) && !MINE.with(|m| m.get()) {
        loop {
            std::thread::park();
        }
    }
    MINE.with(|m| m.set(true));
}

/// Ends the run without a verdict (exit 2): hangs, resource limits, broken environment.
pub fn inconclusive(msg: &str) -> ! {
    ending();
    eprintln!("INCONCLUSIVE: {}", msg);
    println!("INCONCLUSIVE: {}", msg);
    crate::cli::cleanup();
    unsafe { libc::_exit(2) }
}

thread_local! {
    static SLOT: RefCell<Option<Arc<Slot>>> = RefCell::new(None);
}

/// Runs code under test; a panic becomes an Err carrying its message. The time spent
/// in here counts against the code under test, everything else against the check.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let slot = SLOT.with(|s| s.borrow().clone());
    let outer = match &slot {
        Some(s) => s.inner_ms.swap(cpu_ms(s.clock) + 1, Ordering::SeqCst),
        None => 0,
    };
    let r = catching(f);
    if let Some(s) = &slot {
        s.inner_ms.store(outer, Ordering::SeqCst);
    }
    r
}
/// Like guarded, but panics go on to the runner, which reports them.
pub fn sut<T>(f: impl FnOnce() -> T) -> T {
    let slot = SLOT.with(|s| s.borrow().clone());
    let Some(s) = slot else { return f() };
    let outer = s.inner_ms.swap(cpu_ms(s.clock) + 1, Ordering::SeqCst);
    let r = f();
    s.inner_ms.store(outer, Ordering::SeqCst);
    r
}
fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())),
    }
}

struct Slot {
    since_ms: AtomicU64, // 0 = idle
    name: String,
    /// CPU clock of the thread, and its reading when the current case started
    clock: libc::clockid_t,
    cpu_start_ms: AtomicU64,
    /// its reading (plus 1) when it entered the code under test; 0: not in there
    inner_ms: AtomicU64,
    /// the case being evaluated and how to serialise it
    current: Mutex<Option<(usize, fn(usize) -> Value)>>,
}

fn cpu_ms(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe {
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return 0;
        }
    }
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

fn to_value<C: Serialize>(p: usize) -> Value {
    // only called while the owning thread is blocked from clearing `current`
    serde_json::to_value(unsafe { &*(p as *const C) }).unwrap()
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    excluded: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    seen: u64,
}

struct Failure {
    test: String,
    message: String,
    case: Value,
}

type RunFn = Box<dyn Fn(&Env) -> (Stats, Option<Failure>) + Send + Sync>;
type ReplayFn = Box<dyn Fn(&Value, u32) -> Result<CheckResult, String> + Send + Sync>;

struct Test {
    name: &'static str,
    rule: &'static str,
    run: RunFn,
    replay: ReplayFn,
}

pub struct Env {
    id: &'static str,
    write_evidence: bool,
    pub tier: Tier,
    pub seed: u64,
    stop: AtomicBool,
    start: Instant,
    /// when the test that is running stops generating (ms since start), and whether it did
    until_ms: AtomicU64,
    cut: AtomicBool,
    slots: Mutex<Vec<Arc<Slot>>>,
}

impl Env {
    /// Slow code under test is no violation: a test that takes too long (code of the same
    /// behaviour can be slower) tries fewer cases, and says so in the evidence.
    fn begin(&self) {
        let now = self.start.elapsed().as_millis() as u64;
        let until = self.tier.pick((now + 120_000).min(480_000).max(now + 10_000), u64::MAX);
        self.until_ms.store(until, Ordering::SeqCst);
        self.cut.store(false, Ordering::SeqCst);
    }
    fn over(&self) -> bool {
        let over = self.start.elapsed().as_millis() as u64 > self.until_ms.load(Ordering::SeqCst);
        if over {
            self.cut.store(true, Ordering::SeqCst);
        }
        over
    }
}

pub struct Suite {
    id: &'static str,
    tests: Vec<Test>,
    assumptions: Vec<&'static str>,
    known: Vec<Box<dyn Fn(&str, &Value) -> Option<String>>>,
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn seed_bytes(seed: u64, name: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, ch) in out.chunks_mut(8).enumerate() {
        ch.copy_from_slice(&hash_of(&(seed, name, shard, i as u64, 0x9e37u64)).to_le_bytes());
    }
    out
}

impl Suite {
    pub fn new(id: &'static str) -> Suite {
        Suite {
            id,
            tests: vec![],
            assumptions: vec![],
            known: vec![],
        }
    }

    pub fn assume(&mut self, a: &'static str) {
        self.assumptions.push(a)
    }

    /// Registers how a listed known finding of this property is re-examined:
    /// returns Some(what fails) while it still fails.
    pub fn known_finding(&mut self, f: impl Fn(&str, &Value) -> Option<String> + 'static) {
        self.known.push(Box::new(f));
    }

    /// A generated test. `cases` = (quick, thorough).
    pub fn test<C, S>(
        &mut self,
        name: &'static str,
        cases: (u32, u32),
        rule: &'static str,
        strat: fn(Tier) -> S,
        check: fn(&C, &mut Obs) -> CheckResult,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + Hash + Send + Sync + 'static,
        S: Strategy<Value = C> + 'static,
    {
        self.test_shrink(name, cases, 20_000, rule, strat, check)
    }

    pub fn test_shrink<C, S>(
        &mut self,
        name: &'static str,
        cases: (u32, u32),
        shrink: u32,
        rule: &'static str,
        strat: fn(Tier) -> S,
        check: fn(&C, &mut Obs) -> CheckResult,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + Hash + Send + Sync + 'static,
        S: Strategy<Value = C> + 'static,
    {
        let run: RunFn = Box::new(move |env: &Env| {
            let total = env.tier.pick(cases.0, cases.1);
            let shards = (total.min(64)).max(1);
            let next = AtomicUsize::new(0);
            let merged = Mutex::new((Stats::default(), None::<Failure>));
            let threads = std::thread::available_parallelism()
                .map(|x| x.get())
                .unwrap_or(4)
                .min(8);
            std::thread::scope(|sc| {
                for _ in 0..threads {
                    sc.spawn(|| {
                        let slot = register_slot(env, name);
                        loop {
                            let shard = next.fetch_add(1, Ordering::SeqCst) as u32;
                            if shard >= shards || env.stop.load(Ordering::SeqCst) || env.over() {
                                break;
                            }
                            let n = total / shards + if shard < total % shards { 1 } else { 0 };
                            let (st, fail) = run_shard(
                                env,
                                name,
                                shard as u64,
                                n,
                                shrink,
                                strat(env.tier).boxed(),
                                check,
                                &slot,
                            );
                            let mut m = merged.lock().unwrap();
                            merge(&mut m.0, st);
                            if let Some(f) = fail {
                                env.stop.store(true, Ordering::SeqCst);
                                if m.1.is_none() {
                                    m.1 = Some(f);
                                }
                            }
                        }
                    });
                }
            });
            merged.into_inner().unwrap()
        });
        self.tests.push(Test {
            name,
            rule,
            run,
            replay: make_replay(check),
        });
    }

    /// A completely enumerated finite family of cases.
    pub fn exhaustive<C>(
        &mut self,
        name: &'static str,
        rule: &'static str,
        total: fn(Tier) -> u64,
        nth: fn(Tier, u64) -> C,
        check: fn(&C, &mut Obs) -> CheckResult,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + Hash + Send + Sync + 'static,
    {
        let run: RunFn = Box::new(move |env: &Env| {
            let total = total(env.tier);
            let next = AtomicU64::new(0);
            let merged = Mutex::new((Stats::default(), None::<(u64, Failure)>));
            std::thread::scope(|sc| {
                for _ in 0..8 {
                    sc.spawn(|| {
                        let slot = register_slot(env, name);
                        let mut st = Stats::default();
                        let mut first: Option<(u64, Failure)> = None;
                        const CH: u64 = 64;
                        'o: loop {
                            let b = next.fetch_add(CH, Ordering::SeqCst);
                            if b >= total || env.stop.load(Ordering::SeqCst) || env.over() {
                                break;
                            }
                            for i in b..(b + CH).min(total) {
                                let c = nth(env.tier, i);
                                let (obs, res) = eval(check, &c, env, &slot);
                                st.record(&c, &obs);
                                if let Err(message) = res {
                                    env.stop.store(true, Ordering::SeqCst);
                                    first = Some((
                                        i,
                                        Failure {
                                            test: name.to_string(),
                                            message,
                                            case: serde_json::to_value(&c).unwrap(),
                                        },
                                    ));
                                    break 'o;
                                }
                            }
                        }
                        let mut m = merged.lock().unwrap();
                        merge(&mut m.0, st);
                        if let Some(f) = first {
                            if m.1.as_ref().map(|x| f.0 < x.0).unwrap_or(true) {
                                m.1 = Some(f);
                            }
                        }
                    });
                }
            });
            let (s, f) = merged.into_inner().unwrap();
            (s, f.map(|x| x.1))
        });
        self.tests.push(Test {
            name,
            rule,
            run,
            replay: make_replay(check),
        });
    }

    /// Runs everything; never returns.
    pub fn main(self) -> ! {
        install_hook();
        unsafe {
            // Runaway allocation ends this process, not the sandbox.
            let lim = libc::rlimit {
                rlim_cur: 26 << 30,
                rlim_max: 26 << 30,
            };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        let args: Vec<String> = std::env::args().collect();
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        if let Some(i) = args.iter().position(|a| a == "--replay") {
            self.replay_file(&args[i + 1]);
        }
        let only = args
            .iter()
            .position(|a| a == "--test")
            .map(|i| args[i + 1].clone());
        let env = Env {
            id: self.id,
            write_evidence: only.is_none(),
            tier,
            seed,
            stop: AtomicBool::new(false),
            start: Instant::now(),
            until_ms: AtomicU64::new(u64::MAX),
            cut: AtomicBool::new(false),
            slots: Mutex::new(vec![]),
        };
        let env = Arc::new(env);
        spawn_watchdog(env.clone());

        let mut failure: Option<Failure> = None;
        let mut total = Stats::default();
        let mut per_test = serde_json::Map::new();
        let mut rules = vec![];
        let mut samples = vec![];

        // 1. saved shrunk failures, replayed without the generator
        let mut regress = 0u64;
        for (test, case) in load_regressions(self.id) {
            let Some(t) = self.tests.iter().find(|t| t.name == test) else {
                inconclusive(&format!("regression for unknown test {}", test));
            };
            if only.as_ref().map(|o| o != t.name).unwrap_or(false) {
                continue;
            }
            regress += 1;
            match (t.replay)(&case, 12) {
                Err(e) => inconclusive(&format!("bad regression case: {}", e)),
                Ok(Err(m)) => {
                    failure = Some(Failure {
                        test: test.clone(),
                        message: m,
                        case,
                    });
                    break;
                }
                Ok(Ok(())) => {}
            }
        }

        // 2. generated / enumerated cases
        if failure.is_none() {
            for t in &self.tests {
                if only.as_ref().map(|o| o != t.name).unwrap_or(false) {
                    continue;
                }
                let t0 = Instant::now();
                env.begin();
                let (st, f) = (t.run)(&env);
                let cut = env.cut.load(Ordering::SeqCst) && f.is_none();
                per_test.insert(
                    t.name.to_string(),
                    json!({
                        "evaluations": st.evaluations,
                        "distinct_nontrivial": st.nontrivial.len(),
                        "excluded": st.excluded,
                        "classes": st.labels,
                        "rule": t.rule,
                        "cut_short": cut,
                        "wall_s": (t0.elapsed().as_secs_f64()*100.0).round()/100.0,
                    }),
                );
                eprintln!(
                    "[{}] {}: {} cases, {} distinct non-trivial, {} excluded, {:.1}s {:?}",
                    self.id,
                    t.name,
                    st.evaluations,
                    st.nontrivial.len(),
                    st.excluded,
                    t0.elapsed().as_secs_f64(),
                    st.labels
                );
                rules.push(format!("{}: {}", t.name, t.rule));
                for s in st.samples.iter().take(3) {
                    samples.push(json!({"test": t.name, "case": s}));
                }
                let salt = hash_of(&t.name);
                total.evaluations += st.evaluations;
                total.excluded += st.excluded;
                for h in st.nontrivial {
                    total.nontrivial.insert(h ^ salt);
                }
                if f.is_some() {
                    failure = f;
                    break;
                }
            }
        }

        // 3. listed known findings (only reported, never a violation)
        let mut known = vec![];
        for (sig, input) in load_known(self.id) {
            for k in &self.known {
                if let Some(what) = k(&sig, &input) {
                    println!("KNOWN-FINDING: property={} {}", self.id, what);
                    known.push(what);
                }
            }
        }

        let ev = json!({
            "property": self.id,
            "tier": tier.name(),
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": total.evaluations + regress,
                "distinct_nontrivial": total.nontrivial.len(),
                "rule": rules.join(" | "),
                "samples": samples,
                "regressions_replayed": regress,
                "excluded_by_construction": total.excluded,
                "tests": per_test,
                "known_findings": known,
            },
            "assumptions": self.assumptions,
            "wall_s": env.start.elapsed().as_secs_f64(),
            "violations": if failure.is_some() {1} else {0},
        });
        let root = verif_root();
        let evdir = format!("{}/evidence", root);
        let _ = std::fs::create_dir_all(&evdir);
        if only.is_none() {
            std::fs::write(
                format!("{}/{}.json", evdir, self.id),
                serde_json::to_string_pretty(&ev).unwrap() + "\n",
            )
            .expect("write evidence");
        }
        let code = match failure {
            None => 0,
            Some(f) => {
                report_violation(self.id, &f);
                1
            }
        };
        ending();
        crate::cli::cleanup();
        std::process::exit(code)
    }

    fn replay_file(&self, path: &str) -> ! {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file"))
            .expect("json");
        let test = v["test"].as_str().unwrap().to_string();
        let t = self
            .tests
            .iter()
            .find(|t| t.name == test)
            .expect("unknown test in replay file");
        let code = match (t.replay)(&v["case"], 200) {
            Err(e) => inconclusive(&e),
            Ok(Ok(())) => {
                println!("replay passes: {}", path);
                0
            }
            Ok(Err(m)) => {
                println!("[{}] {} failed: {}", self.id, test, m);
                println!("VIOLATION property={} replay={}", self.id, path);
                1
            }
        };
        ending();
        crate::cli::cleanup();
        std::process::exit(code)
    }
}

fn report_violation(id: &str, f: &Failure) {
    let dir = format!("{}/replays", verif_root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!(
        "{}/{}-{}-{:016x}.json",
        dir,
        id,
        f.test,
        hash_of(&f.case.to_string())
    );
    let body = json!({"property": id, "test": f.test, "message": f.message, "case": f.case});
    std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap() + "\n")
        .expect("write replay");
    println!("[{}] {} failed: {}", id, f.test, f.message);
    let case: String = f.case.to_string().chars().take(2000).collect();
    println!("case: {}", case);
    println!("VIOLATION property={} replay={}", id, path);
}

/// A case of the code under test that does not end: reported from the watchdog, since
/// the thread running it cannot be interrupted.
fn report_runaway(env: &Env, s: &Slot, message: String) -> ! {
    let cur = s.current.lock().unwrap();
    let case = match *cur {
        Some((p, f)) => f(p),
        None => inconclusive(&message),
    };
    ending();
    let f = Failure {
        test: s.name.clone(),
        message,
        case,
    };
    if env.write_evidence {
        let ev = json!({
            "property": env.id, "tier": env.tier.name(), "seed": env.seed, "level": "exploration",
            "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped by a case that does not end", "samples": [f.case]},
            "assumptions": [], "wall_s": env.start.elapsed().as_secs_f64(), "violations": 1,
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_root()));
        let _ = std::fs::write(
            format!("{}/evidence/{}.json", verif_root(), env.id),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        );
    }
    report_violation(env.id, &f);
    crate::cli::cleanup();
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}

pub fn verif_root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string())
}

fn load_regressions(id: &str) -> Vec<(String, Value)> {
    let p = format!("{}/regressions/{}.jsonl", verif_root(), id);
    let Ok(s) = std::fs::read_to_string(p) else {
        return vec![];
    };
    s.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let v: Value = serde_json::from_str(l).expect("regression json");
            (v["test"].as_str().unwrap().to_string(), v["case"].clone())
        })
        .collect()
}

/// Lines of known-findings.txt:  known: property=<id> signature=<sig> input=<json>
fn load_known(id: &str) -> Vec<(String, Value)> {
    let p = format!("{}/known-findings.txt", verif_root());
    let Ok(s) = std::fs::read_to_string(p) else {
        return vec![];
    };
    let mut out = vec![];
    for l in s.lines() {
        let Some(r) = l.strip_prefix(&format!("known: property={} signature=", id)) else {
            continue;
        };
        let Some((sig, rest)) = r.split_once(" input=") else {
            continue;
        };
        let json = rest.split(" -- ").next().unwrap();
        if let Ok(v) = serde_json::from_str(json) {
            out.push((sig.to_string(), v));
        }
    }
    out
}

fn make_replay<C>(check: fn(&C, &mut Obs) -> CheckResult) -> ReplayFn
where
    C: DeserializeOwned + 'static,
{
    Box::new(move |v: &Value, times: u32| {
        let c: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        // Hash-map order differs between instances: try the same case several times.
        for _ in 0..times {
            let mut obs = Obs::default();
            let r = match catching(|| check(&c, &mut obs)) {
                Ok(r) => r,
                Err(p) => panic_verdict(p),
            };
            if r.is_err() {
                return Ok(r);
            }
        }
        Ok(Ok(()))
    })
}

/// A panic inside the checks' own code is an error of the check, not a verdict.
fn panic_verdict(p: String) -> CheckResult {
    if p.contains(" at src/") {
        inconclusive(&format!("the check itself panicked: {}", p));
    }
    Err(format!("code under test panicked: {}", p))
}

fn eval<C: Serialize>(
    check: fn(&C, &mut Obs) -> CheckResult,
    c: &C,
    env: &Env,
    slot: &Slot,
) -> (Obs, CheckResult) {
    let mut obs = Obs::default();
    *slot.current.lock().unwrap() = Some((c as *const C as usize, to_value::<C>));
    slot.cpu_start_ms.store(cpu_ms(slot.clock), Ordering::SeqCst);
    slot.since_ms.store(
        env.start.elapsed().as_millis() as u64 + 1,
        Ordering::SeqCst,
    );
    let r = match catching(|| check(c, &mut obs)) {
        Ok(r) => r,
        Err(p) => panic_verdict(p),
    };
    slot.inner_ms.store(0, Ordering::SeqCst);
    slot.since_ms.store(0, Ordering::SeqCst);
    *slot.current.lock().unwrap() = None;
    (obs, r)
}

fn run_shard<C>(
    env: &Env,
    name: &'static str,
    shard: u64,
    n: u32,
    shrink: u32,
    strat: BoxedStrategy<C>,
    check: fn(&C, &mut Obs) -> CheckResult,
    slot: &Slot,
) -> (Stats, Option<Failure>)
where
    C: Serialize + Debug + Clone + Hash,
{
    let cfg = Config {
        cases: n,
        failure_persistence: None,
        max_shrink_iters: shrink,
        max_shrink_time: 0,
        max_global_rejects: 1_000_000,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(env.seed, name, shard));
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    let stats = RefCell::new(Stats::default());
    let failing = std::cell::Cell::new(false);
    let shrink_deadline = std::cell::Cell::new(None::<Instant>);
    let res = runner.run(&strat, |c: C| {
        if !failing.get() && (env.stop.load(Ordering::SeqCst) || env.over()) {
            return Ok(());
        }
        // Shrinking is best effort: stop it after a while, the case at hand still fails.
        if let Some(d) = shrink_deadline.get() {
            if Instant::now() > d {
                return Ok(());
            }
        }
        // hash order varies per instance: while shrinking, give a failure a few chances
        let tries = if failing.get() { 3 } else { 1 };
        let mut out = Ok(());
        for _ in 0..tries {
            let (obs, r) = eval(check, &c, env, slot);
            if !failing.get() {
                stats.borrow_mut().record(&c, &obs);
            }
            if r.is_err() {
                out = r;
                break;
            }
        }
        if out.is_err() {
            if !failing.get() {
                // a command that does not end is too slow to shrink
                let hang = matches!(&out, Err(m) if m.contains("HANG"));
                shrink_deadline.set(Some(Instant::now() + Duration::from_secs(if hang { 0 } else { 45 })));
            }
            failing.set(true);
            env.stop.store(true, Ordering::SeqCst);
        }
        out.map_err(TestCaseError::fail)
    });
    let fail = match res {
        Ok(()) => None,
        Err(TestError::Fail(reason, c)) => Some(Failure {
            test: name.to_string(),
            message: reason.message().to_string(),
            case: serde_json::to_value(&c).unwrap(),
        }),
        Err(TestError::Abort(r)) => inconclusive(&format!("{}: generator aborted: {}", name, r)),
    };
    (stats.into_inner(), fail)
}

impl Stats {
    fn record<C: Serialize + Hash>(&mut self, c: &C, obs: &Obs) {
        self.seen += 1;
        if obs.excluded {
            self.excluded += 1;
            return;
        }
        self.evaluations += 1;
        for l in &obs.labels {
            *self.labels.entry(l).or_insert(0) += 1;
        }
        if obs.nontrivial {
            let new = self.nontrivial.insert(hash_of(c));
            // keep a few small samples
            if new && self.samples.len() < 3 && self.seen > 8 {
                let v = serde_json::to_value(c).unwrap();
                if v.to_string().len() < 600 {
                    self.samples.push(v);
                }
            }
        }
    }
}

fn merge(a: &mut Stats, b: Stats) {
    a.evaluations += b.evaluations;
    a.excluded += b.excluded;
    a.nontrivial.extend(b.nontrivial);
    for (k, v) in b.labels {
        *a.labels.entry(k).or_insert(0) += v;
    }
    for s in b.samples {
        if a.samples.len() < 4 {
            a.samples.push(s);
        }
    }
}

fn register_slot(env: &Env, name: &str) -> Arc<Slot> {
    let mut clock: libc::clockid_t = 0;
    unsafe {
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock);
    }
    let s = Arc::new(Slot {
        since_ms: AtomicU64::new(0),
        name: name.to_string(),
        clock,
        cpu_start_ms: AtomicU64::new(0),
        inner_ms: AtomicU64::new(0),
        current: Mutex::new(None),
    });
    env.slots.lock().unwrap().push(s.clone());
    SLOT.with(|t| *t.borrow_mut() = Some(s.clone()));
    s
}

fn rss_bytes() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace()
        .nth(1)
        .and_then(|x| x.parse::<u64>().ok())
        .unwrap_or(0)
        * 4096
}

/// Cases take milliseconds. A single call into the code under test that has burnt 60 s
/// (240 s for the largest inputs) of its thread's CPU time, or during which memory grows beyond 5 GB, does not end: on
/// these inputs that is a wrong answer. Time spent in the checks' own code and
/// wall-clock time are never a verdict: they end the process with exit 2.
fn spawn_watchdog(env: Arc<Env>) {
    let limit = env.tier.pick(840u64, 36_000u64);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(50));
        let now = env.start.elapsed().as_millis() as u64;
        if now > limit * 1000 {
            inconclusive("time limit of the whole check reached");
        }
        let rss = rss_bytes();
        let mut worst: Option<(u64, Arc<Slot>)> = None;
        for s in env.slots.lock().unwrap().iter() {
            let t = s.since_ms.load(Ordering::SeqCst);
            if t == 0 {
                continue;
            }
            let inner = s.inner_ms.load(Ordering::SeqCst);
            if inner != 0 {
                let used = (cpu_ms(s.clock) + 1).saturating_sub(inner);
                if used > 1000 && worst.as_ref().map(|w| used > w.0).unwrap_or(true) {
                    worst = Some((used, s.clone()));
                }
            }
            if now > t + 400_000 {
                inconclusive(&format!("a single case of {} has run for over 400 s", s.name));
            }
        }
        if let Some((used, s)) = worst {
            // larger inputs get more time
            let large = ["huge", "tens-of-thousands"].iter().any(|x| s.name.contains(x));
            let most = if large { 240_000 } else { 60_000 };
            if used > most && s.inner_ms.load(Ordering::SeqCst) != 0 {
                report_runaway(&env, &s, format!("the code under test does not end: over {} s of CPU time in one call", most / 1000));
            }
            if rss > 5 << 30 {
                report_runaway(&env, &s, format!("the code under test does not end: over {} GB of memory in one call", rss >> 30));
            }
        } else if rss > 12 << 30 {
            inconclusive("out of memory");
        }
    });
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{}{}", msg, loc)));
        if std::env::var("GCV_PANICS").is_ok() {
            eprintln!("panic: {}{}", msg, loc);
        }
    }));
}
