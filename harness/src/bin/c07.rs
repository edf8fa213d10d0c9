//! C07: locks, over histories, nested and interleaved schedules.
use gc_command::graph_utils;
use gcv::edits::*;
use gcv::*;
use proptest::collection::vec;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Barrier, Mutex};

const ALL: [&str; 6] = ["gc-add", "gc-delete", "gc-build", "gc-clean", "gc-random", "gc-init"];

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Edit(Edit),
    Build,
    /// forced, or confirmed
    Clean(bool),
    /// an edgeless graph of this many vertices
    Random(u8),
}
impl Op {
    fn cmd(&self, s: &cli::Scratch, dir: &str, inside: bool) -> cli::Cmd {
        let base = |bin| if inside { cli::cmd(bin, &s.path(dir)) } else { cli::cmd(bin, &s.root).args(["-p", dir]) };
        match self {
            Op::Edit(e) => base(e.bin()).args(e.spelled()),
            Op::Build => base("gc-build"),
            Op::Clean(true) => base("gc-clean").arg("-f"),
            Op::Clean(false) => base("gc-clean").stdin(b"yes\n"),
            Op::Random(n) => base("gc-random").args(["-f", "-e", "0", "-v"]).arg(n),
        }
    }
    /// None: the command cannot succeed here
    fn apply(&self, m: &Option<M>) -> Option<Option<M>> {
        let mut g = m.clone()?;
        match self {
            Op::Edit(e) => e.apply(&mut g),
            Op::Build => {}
            Op::Clean(_) => return Some(None),
            Op::Random(n) => g = random_graph(*n),
        }
        Some(Some(g))
    }
    /// the parts of this command that are stored one after the other
    fn parts(&self) -> Vec<Op> {
        match self {
            Op::Edit(Edit::Add(a)) => {
                let d = || Add { reverse: a.reverse, long: a.long, ..Add::default() };
                let mut out = vec![];
                for (used, p) in [
                    (!a.v.is_empty(), Add { v: a.v.clone(), ..d() }),
                    (!a.e.is_empty(), Add { e: a.e.clone(), ..d() }),
                    (!a.chain.is_empty(), Add { chain: a.chain.clone(), ..d() }),
                    (!a.cycle.is_empty(), Add { cycle: a.cycle.clone(), ..d() }),
                    (!a.star.is_empty(), Add { star: a.star.clone(), ..d() }),
                    (!a.clique.is_empty(), Add { clique: a.clique.clone(), ..d() }),
                ] {
                    if used {
                        out.push(Op::Edit(Edit::Add(p)));
                    }
                }
                out
            }
            Op::Edit(Edit::Del(d)) => {
                let mut out = vec![];
                if !d.v.is_empty() {
                    out.push(Op::Edit(Edit::Del(Del { v: d.v.clone(), e: vec![], long: d.long })));
                }
                if !d.e.is_empty() {
                    out.push(Op::Edit(Edit::Del(Del { v: vec![], e: d.e.clone(), long: d.long })));
                }
                out
            }
            o => vec![o.clone()],
        }
    }
}
/// What gc-random makes of this request when it is alone (C21 judges that).
fn random_graph(n: u8) -> M {
    static SEEN: Mutex<BTreeMap<u8, M>> = Mutex::new(BTreeMap::new());
    let mut seen = SEEN.lock().unwrap_or_else(|e| e.into_inner());
    seen.entry(n)
        .or_insert_with(|| {
            let s = cli::Scratch::new();
            s.put_graph("r", &[7], &[]);
            let _ = Op::Random(n).cmd(&s, "r", false).run();
            cli::stored(&s.path("r")).ok().flatten().unwrap_or_default()
        })
        .clone()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![8 => edit(false).prop_map(Op::Edit), 2 => Just(Op::Build), 1 => any::<bool>().prop_map(Op::Clean), 1 => (0u8..5).prop_map(Op::Random)].boxed()
}
fn is_locked(s: &cli::Scratch, dir: &str) -> bool {
    s.path(dir).join("lock").symlink_metadata().is_ok()
}

// ---- histories with locks held by someone else ----------------------------------------
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Step {
    Op(Op),
    /// with a file size limit of the stored size plus this much
    Limited(Op, u8),
    /// malformed arguments
    Bad(u8),
    Init,
    /// someone else takes the lock (with this content), releases it
    Take(String),
    /// the same, some time ago
    TakeOld(String, u8),
    Release,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Hist {
    g: G,
    steps: Vec<(u8, bool, Step)>,
    #[serde(default)]
    dir: u8,
}
fn check_hist(c: &Hist, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    let dirs = [if c.dir < 128 { "a" } else { cli::name(c.dir) }, "b"];
    s.put_graph(dirs[0], &c.g.vs, &c.g.es);
    s.mkdir("b");
    let mut model = [Some(c.g.model()), None];
    let mut lock: [Option<String>; 2] = [None, None];
    let (mut refused, mut done, mut failed) = (0, 0, 0);
    for (i, (k, inside, st)) in c.steps.iter().enumerate() {
        let k = *k as usize % 2;
        let dir = dirs[k];
        let before = s.snapshot();
        let (cmd, op) = match st {
            Step::Take(content) | Step::TakeOld(content, _) => {
                if lock[k].is_none() {
                    s.take_lock(dir, content.as_bytes(), if let Step::TakeOld(_, how) = st { *how } else { 0 });
                    lock[k] = Some(content.clone());
                }
                continue;
            }
            Step::Release => {
                if lock[k].take().is_some() {
                    let _ = std::fs::remove_file(s.path(dir).join("lock"));
                }
                continue;
            }
            Step::Init => {
                let cmd = cli::cmd("gc-init", &s.path(dir));
                let out = cmd.run()?;
                // whether gc-init respects the lock is not judged
                if out.ok() && model[k].is_none() {
                    model[k] = Some(M::new());
                }
                let at = format!("step {}: {} in {} ({})", i, cmd.show(), dir, out.brief());
                ensure!(out.ok() || lock[k].is_some(), "{}: failed", at);
                settle(&s, &dirs, &model, &lock, &at)?;
                continue;
            }
            Step::Op(op) => (op.cmd(&s, dir, *inside), Some(op)),
            Step::Limited(op, n) => {
                let size = s.path(dir).join(cli::STORE).metadata().map(|m| m.len()).unwrap_or(0);
                (op.cmd(&s, dir, *inside).fsize(Some(size + *n as u64)), Some(op))
            }
            Step::Bad(n) => {
                let (b, a): (&'static str, Vec<&str>) = [
                    ("gc-add", vec!["-v", "x"]),
                    ("gc-add", vec!["-v", "1", "-e", "1", "2", "3"]),
                    ("gc-delete", vec!["-e", "1"]),
                    ("gc-delete", vec!["-v", "1", "-e", "1", "2", "z", "4"]),
                    ("gc-build", vec!["--nonsense"]),
                ][*n as usize % 5]
                    .clone();
                (cli::cmd(b, &s.root).args(["-p", dir]).args(a), None)
            }
        };
        let out = cmd.run()?;
        let at = format!("step {}: {} in {}, lock {:?} ({})", i, cmd.show(), dir, lock[k], out.brief());
        let limited = matches!(st, Step::Limited(..));
        if lock[k].is_some() {
            ensure!(!out.ok(), "{}: reported success although the graph is locked", at);
            let after = s.snapshot();
            ensure!(before == after, "{}: changed {:?} although the graph is locked", at, diff(&before, &after));
            refused += 1;
        } else if let Some(op) = op {
            match op.apply(&model[k]) {
                None => ensure!(!out.ok(), "{}: reported success without a graph", at),
                Some(m) if out.ok() => {
                    model[k] = m;
                    done += 1;
                }
                Some(_) => {
                    ensure!(limited, "{}: failed although nothing was in the way", at);
                    failed += 1;
                    // what a failed write leaves behind is not judged
                    o.label("edit failed on a full device");
                    ensure!(!is_locked(&s, dir), "{}: the lock was left behind", at);
                    return Ok(());
                }
            }
        } else {
            ensure!(!out.ok(), "{}: reported success", at);
            failed += 1;
        }
        settle(&s, &dirs, &model, &lock, &at)?;
    }
    o.label_if(refused > 0, "refused while locked");
    o.label_if(failed > 0, "failed without a lock");
    o.label_if(refused > 0 && done > 0, "refused and done");
    o.nontrivial_if(refused > 0 || failed > 0);
    Ok(())
}
fn diff(a: &BTreeMap<String, Option<Vec<u8>>>, b: &BTreeMap<String, Option<Vec<u8>>>) -> Vec<String> {
    a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).cloned().collect()
}
fn settle(s: &cli::Scratch, dirs: &[&str; 2], model: &[Option<M>; 2], lock: &[Option<String>; 2], at: &str) -> CheckResult {
    for (k, d) in dirs.iter().enumerate() {
        match (&lock[k], is_locked(s, d)) {
            (None, true) => return Err(format!("{}: left a lock in {}", at, d)),
            (Some(_), false) => return Err(format!("{}: removed the lock of {} held by another", at, d)),
            (Some(l), true) => {
                let now = std::fs::read(s.path(d).join("lock")).unwrap_or_default();
                ensure!(now == l.as_bytes(), "{}: changed the lock file of another to {:?}", at, String::from_utf8_lossy(&now));
            }
            _ => {}
        }
        let got = cli::stored(&s.path(d)).map_err(|e| format!("{}: {}", at, e))?;
        ensure!(got == model[k], "{}: the graph of {} is {:?}, expected {:?}", at, d, got, model[k]);
    }
    Ok(())
}
fn hist(t: Tier) -> BoxedStrategy<Hist> {
    let step = prop_oneof![
        8 => op().prop_map(Step::Op),
        2 => (op(), prop_oneof![Just(0u8), 0u8..30]).prop_map(|(a, b)| Step::Limited(a, b)),
        2 => any::<u8>().prop_map(Step::Bad),
        2 => Just(Step::Init),
        4 => (proptest::sample::select(vec!["", "", "x", "1", "1234\n", "4194305", "999999999\n", "pid 99999999", "0", "-1", "locked by me", "1577836800", "2020-01-01T00:00:00Z"]), any::<u8>()).prop_map(|(x, how)| Step::TakeOld(x.to_string(), how)),
        2 => Just(Step::Release),
    ];
    (graph(0, 6, 10, 14), vec((prop_oneof![3 => Just(0u8), 1 => Just(1u8)], any::<bool>(), step), 1..t.pick(12, 25)), any::<u8>()).prop_map(|(g, steps, dir)| Hist { g, steps, dir }).boxed()
}

// ---- nested: everything fails inside a critical section ---------------------------------
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Nested {
    g: G,
    inner: Vec<Op>,
    lib: Vec<(u8, u64, u64)>,
    /// the critical section reports a failure
    fails: bool,
    then: Edit,
}
fn lib_op(d: &str, (k, a, b): (u8, u64, u64)) -> std::io::Result<()> {
    let e = vec![(vid(a), vid(b))];
    match k % 8 {
        0 => graph_utils::add_vertex(d, vid(a)),
        1 => graph_utils::add_vertices(d, vec![vid(a), vid(b)]),
        2 => graph_utils::add_edge(d, vid(a), vid(b)),
        3 => graph_utils::add_edges(d, e),
        4 => graph_utils::remove_vertex(d, vid(a)),
        5 => graph_utils::remove_vertices(d, vec![vid(a), vid(b)]),
        6 => graph_utils::remove_edges(d, e),
        _ => graph_utils::with_lock(d, || Ok(())),
    }
}
fn lib_model(m: &mut M, (k, a, b): (u8, u64, u64)) {
    match k % 8 {
        0 => drop(m.add_v(a)),
        1 => {
            m.add_v(a);
            m.add_v(b);
        }
        2 | 3 => drop(m.add_e(a, b)),
        4 => drop(m.rm_v(a)),
        5 => {
            m.rm_v(a);
            m.rm_v(b);
        }
        6 => drop(m.rm_e(a, b)),
        _ => {}
    }
}
fn check_nested(c: &Nested, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    cli::warm(&ALL);
    s.put_graph("a", &c.g.vs, &c.g.es);
    let mut m = c.g.model();
    let d = s.path("a").to_str().unwrap().to_string();
    let mut bad = None;
    let mut ran = 0;
    let inner = || -> CheckResult {
        ensure!(graph_utils::is_locked(&d), "is_locked is false inside with_lock");
        let before = s.snapshot();
        for op in &c.inner {
            let out = op.cmd(&s, "a", false).run()?;
            ensure!(!out.ok(), "inside with_lock, '{}' reported success", op.cmd(&s, "a", false).show());
        }
        for l in &c.lib {
            let r = lib_op(&d, *l);
            ensure!(r.is_err(), "inside with_lock, library edit {:?} reported success", l);
        }
        let mut inner_ran = false;
        let r = graph_utils::with_lock(&d, || {
            inner_ran = true;
            Ok(())
        });
        ensure!(r.is_err() && !inner_ran, "with_lock inside with_lock: ran {}, {:?}", inner_ran, r);
        ensure!(graph_utils::lock(&d).is_err(), "lock inside with_lock succeeds");
        let after = s.snapshot();
        ensure!(before == after, "edits refused by the lock changed {:?}", diff(&before, &after));
        Ok(())
    };
    let r = cli::confined(|| {
        graph_utils::with_lock(&d, || {
            ran += 1;
            bad = Some(inner());
            if c.fails {
                Err(std::io::Error::new(std::io::ErrorKind::Other, "planned"))
            } else {
                Ok(7)
            }
        })
    });
    if let Some(Err(e)) = bad {
        return Err(e);
    }
    ensure!(ran == 1, "with_lock ran its block {} times on an unlocked graph", ran);
    ensure!(r.is_err() == c.fails && r.as_ref().ok().map(|x| *x == 7).unwrap_or(true), "with_lock returned {:?}, its block {}", r, if c.fails { "failed" } else { "returned 7" });
    ensure!(!is_locked(&s, "a") && !graph_utils::is_locked(&d), "the lock is still there after with_lock (block failed: {})", c.fails);
    // and afterwards edits work again
    let out = c.then.cmd(&s, "a").run()?;
    ensure!(out.ok(), "after with_lock, {} fails: {}", c.then.cmd(&s, "a").show(), out.brief());
    c.then.apply(&mut m);
    for l in &c.lib {
        let r = cli::confined(|| lib_op(&d, *l));
        ensure!(r.is_ok(), "after with_lock, library edit {:?} fails: {:?}", l, r);
        lib_model(&mut m, *l);
        ensure!(!is_locked(&s, "a"), "library edit {:?} left the lock", l);
    }
    let got = cli::stored(&s.path("a"))?;
    ensure!(got.as_ref() == Some(&m), "the stored graph is {:?}, expected {:?}", got, m);
    o.label_if(c.fails, "block fails");
    o.label_if(!c.inner.is_empty(), "commands inside");
    o.nontrivial_if(!c.inner.is_empty() || !c.lib.is_empty());
    Ok(())
}
fn nested(_: Tier) -> BoxedStrategy<Nested> {
    (graph(0, 6, 8, 10), vec(op(), 0..4), vec((0u8..8, 0u64..6, 0u64..6), 0..5), any::<bool>(), single())
        .prop_map(|(g, inner, lib, fails, then)| Nested { g, inner, lib, fails, then })
        .boxed()
}

// ---- one command stopped before its k-th file operation, others run meanwhile -----------
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Sched {
    g: G,
    first: Op,
    at: u8,
    others: Vec<Op>,
}
/// Final graph against the outcomes: a successful command stored all its parts, a failed one not
/// all of them; in which order a command stores its parts is its own business.
fn explain(s: &cli::Scratch, start: &M, cmds: &[(Op, bool, String)], o: &mut Obs) -> CheckResult {
    let story = || cmds.iter().map(|(_, ok, t)| format!("[{}: {}]", t, if *ok { "ok" } else { "failed" })).collect::<Vec<_>>().join(" ");
    let got = cli::stored(&s.path("a")).map_err(|e| format!("after {}: {}", story(), e))?;
    ensure!(!is_locked(s, "a"), "after {}: the lock was left behind", story());
    let mut parts: Vec<Op> = vec![];
    // per command, which of the parts are its own
    let mut own: Vec<(usize, bool)> = vec![];
    for (op, ok, _) in cmds {
        let p = op.parts();
        own.push((((1 << p.len()) - 1) << parts.len(), *ok));
        parts.extend(p);
        if parts.len() > 11 {
            o.excluded = true;
            return Ok(());
        }
    }
    // all the graphs that some order of these parts leaves
    let mut after: Vec<BTreeSet<Option<M>>> = vec![BTreeSet::new(); 1 << parts.len()];
    after[0].insert(Some(start.clone()));
    for set in 0..after.len() {
        if after[set].contains(&got) && own.iter().all(|(m, ok)| *m == 0 || (set & m == *m) == *ok) {
            return Ok(());
        }
        for (i, p) in parts.iter().enumerate().filter(|(i, _)| set >> i & 1 == 0) {
            let next: Vec<_> = after[set].iter().filter_map(|g| p.apply(g)).collect();
            after[set | 1 << i].extend(next);
        }
    }
    Err(format!("after {} on {:?}: the stored graph is {:?}, which no order of the successful commands explains", story(), start, got))
}
fn check_sched(c: &Sched, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    s.put_graph("a", &c.g.vs, &c.g.es);
    let cmd = c.first.cmd(&s, "a", false).shim("GCV_STOP_AT", c.at);
    let mut run = cmd.spawn();
    let stopped = run.wait_stop();
    let locked = is_locked(&s, "a");
    let mut res = vec![];
    if stopped {
        for op in &c.others {
            let other = op.cmd(&s, "a", false);
            let out = match other.run() {
                Ok(x) => x,
                Err(e) => {
                    run.resume();
                    let _ = run.wait();
                    return Err(format!("while '{}' was stopped: {}", cmd.show(), e));
                }
            };
            res.push((op.clone(), out.ok(), other.show()));
            if locked && out.ok() {
                run.resume();
                let _ = run.wait();
                return Err(format!("'{}' reported success while '{}' held the lock", other.show(), cmd.show()));
            }
        }
        run.resume();
    }
    let out = run.wait()?;
    if !stopped {
        o.excluded = true;
        return Ok(());
    }
    let n = res.iter().filter(|x| x.1).count();
    o.label(if locked { "stopped with the lock" } else { "stopped without the lock" });
    o.label_if(n > 0, "others succeeded meanwhile");
    o.label_if(!out.ok(), "stopped command failed");
    res.push((c.first.clone(), out.ok(), cmd.show()));
    o.nontrivial_if(!c.others.is_empty());
    explain(&s, &c.g.model(), &res, o)
}
fn sched(_: Tier) -> BoxedStrategy<Sched> {
    (graph(0, 5, 8, 10), prop_oneof![2 => op(), 1 => Just(Op::Build), 1 => (0u8..5).prop_map(Op::Random)], prop_oneof![6 => 1u8..10, 1 => 1u8..24], vec(op(), 1..4))
        .prop_map(|(g, first, at, others)| Sched { g, first, at, others })
        .boxed()
}

// ---- truly concurrent commands ------------------------------------------------------------
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Conc {
    g: G,
    ops: Vec<Op>,
}
fn check_conc(c: &Conc, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    s.put_graph("a", &c.g.vs, &c.g.es);
    let running: Vec<_> = c.ops.iter().map(|op| op.cmd(&s, "a", false).spawn()).collect();
    let outs: Vec<_> = running.into_iter().map(|r| r.wait()).collect();
    let mut res = vec![];
    for (op, out) in c.ops.iter().zip(outs) {
        res.push((op.clone(), out?.ok(), op.cmd(&s, "a", false).show()));
    }
    let ok = res.iter().filter(|x| x.1).count();
    o.label_if(ok < res.len(), "some refused");
    o.label_if(ok > 1, "several succeeded");
    o.nontrivial_if(c.ops.len() > 1);
    explain(&s, &c.g.model(), &res, o)
}
fn conc(_: Tier) -> BoxedStrategy<Conc> {
    let big = (25u64..50, 0u64..3).prop_map(|(n, b)| Op::Edit(Edit::Add(Add { clique: (0..n).map(|i| i * 3 + b * 100).collect(), ..Add::default() })));
    let o = prop_oneof![4 => single().prop_map(Op::Edit), 2 => Just(Op::Build), 2 => big, 1 => op()];
    (graph_shapes(3, 60, 80, 120, vec![0, 2, 3, 6]), vec(o, 2..6)).prop_map(|(g, ops)| Conc { g, ops }).boxed()
}

// ---- with_lock from many threads ------------------------------------------------------------
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Race {
    threads: u8,
    rounds: u16,
    /// how long a critical section spins
    spin: u16,
    fails: bool,
}
fn check_race(c: &Race, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    s.put_graph("a", &[], &[]);
    let d = s.path("a").to_str().unwrap().to_string();
    let inside = AtomicI64::new(0);
    let most = AtomicI64::new(0);
    let (ran, oks) = (AtomicU64::new(0), AtomicU64::new(0));
    let lost = AtomicBool::new(false);
    let bar = Barrier::new(c.threads as usize);
    std::thread::scope(|sc| {
        for _ in 0..c.threads {
            sc.spawn(|| {
                bar.wait();
                for _ in 0..c.rounds {
                    let mut mine = false;
                    let r = cli::confined(|| {
                        graph_utils::with_lock(&d, || {
                            mine = true;
                            let n = inside.fetch_add(1, Ordering::SeqCst) + 1;
                            most.fetch_max(n, Ordering::SeqCst);
                            for _ in 0..c.spin {
                                std::hint::spin_loop();
                            }
                            if !graph_utils::is_locked(&d) {
                                lost.store(true, Ordering::SeqCst);
                            }
                            inside.fetch_sub(1, Ordering::SeqCst);
                            if c.fails {
                                return Err(std::io::Error::new(std::io::ErrorKind::Other, "planned"));
                            }
                            Ok(())
                        })
                    });
                    if mine {
                        ran.fetch_add(1, Ordering::SeqCst);
                    }
                    if r.is_ok() {
                        oks.fetch_add(1, Ordering::SeqCst);
                    }
                }
            });
        }
    });
    let (ran, oks, most) = (ran.into_inner(), oks.into_inner(), most.into_inner());
    ensure!(most <= 1, "{} critical sections of one graph ran at the same time ({:?})", most, c);
    ensure!(!lost.into_inner(), "the lock disappeared inside a critical section ({:?})", c);
    ensure!(oks == if c.fails { 0 } else { ran }, "{} critical sections ran, {} were reported as successful ({:?})", ran, oks, c);
    ensure!(ran > 0, "no critical section ran at all ({:?})", c);
    ensure!(!is_locked(&s, "a"), "a lock is left ({:?})", c);
    let tries = c.threads as u64 * c.rounds as u64;
    o.label_if(ran < tries, "contention");
    o.nontrivial_if(ran < tries);
    Ok(())
}
fn race(t: Tier) -> BoxedStrategy<Race> {
    (2u8..7, 20u16..t.pick(150, 600), prop_oneof![Just(0u16), 0u16..300, 0u16..3000], any::<bool>()).prop_map(|(threads, rounds, spin, fails)| Race { threads, rounds, spin, fails }).boxed()
}

fn main() {
    let mut s = Suite::new("C07");
    s.assume("a graph is locked while a file named lock is in its directory, whatever it contains");
    s.assume("one command is preempted at a time in the controlled schedules; other interleavings come from real concurrency");
    s.test_shrink("histories", (1_500, 20_000), 300, "a command met a lock, or failed without one", hist, check_hist);
    s.test_shrink("nested", (800, 10_000), 300, "edits were tried inside a critical section", nested, check_nested);
    s.test_shrink("preempted", (2_500, 30_000), 300, "other commands ran while one was stopped", sched, check_sched);
    s.test_shrink("concurrent", (400, 6_000), 40, "two or more commands at the same time", conc, check_conc);
    s.test_shrink("with-lock-race", (150, 1_500), 20, "some attempts met a held lock", race, check_race);
    s.main()
}
