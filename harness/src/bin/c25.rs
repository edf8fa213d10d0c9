//! C25: the store functions of the library, against a model of each directory: its graph,
//! if it has one, and whether it is locked.
use gc_command::graph_utils as gu;
use gcv::*;
use proptest::collection::vec;
use std::io;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Init,
    AddV(u64),
    AddVs(Vec<u64>),
    AddE(u64, u64),
    AddEs(Vec<E>),
    RmV(u64),
    RmVs(Vec<u64>),
    RmEs(Vec<E>),
    Save(G),
    Replace(G),
    Clean,
    Lock,
    Unlock,
    /// the lock of another program, with something written in it
    Foreign,
    /// what its block does, and what it returns
    With(Vec<Step>, Result<u8, u8>),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Step {
    dir: u8,
    /// how the directory is named
    alias: u8,
    op: Op,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    steps: Vec<Step>,
    #[serde(default)]
    odd: u8,
}
const DIRS: [&str; 4] = ["a", "b", "a/inner", "another one"];
/// the directories of a case: one of them can have another name
fn dirs(odd: u8) -> [String; 4] {
    let mut d = DIRS.map(String::from);
    match cli::name(odd) {
        "d" => {}
        n if odd % 2 == 0 => {
            d[0] = n.to_string();
            d[2] = format!("{}/inner", n);
        }
        // names that would be part of the graph of a, or its lock
        ".graph" | "lock" => {}
        n => d[2] = format!("a/{}", n),
    }
    d
}
fn named(s: &cli::Scratch, dirs: &[String; 4], st: &Step) -> (usize, String) {
    let i = st.dir as usize % dirs.len();
    let p = s.path(&dirs[i]).to_str().unwrap().to_string();
    // not through the directory itself, which need not exist
    let root = s.root.to_str().unwrap();
    (
        i,
        match st.alias % 8 {
            0 => format!("{}/", p),
            1 => format!("{}//", p),
            2 => format!("{}/./{}", root, dirs[i]),
            3 => format!("{}//{}", root, dirs[i]),
            _ => p,
        },
    )
}
#[derive(Clone, Default)]
struct Dir {
    g: Option<M>,
    lock: Option<Vec<u8>>,
}
struct World<'a> {
    dirs: [String; 4],
    s: &'a cli::Scratch,
    d: Vec<Dir>,
    /// operations that succeeded and changed a graph, and those that failed on a lock
    edits: usize,
    refused: usize,
    /// locks taken by others so far
    foreign: usize,
    nested: usize,
    /// directories whose lock a block that is running holds
    held: Vec<usize>,
}
fn vids(l: &[u64]) -> Vec<gc_core::graph::VertexId> {
    l.iter().map(|v| vid(*v)).collect()
}
fn vpairs(l: &[E]) -> Vec<(gc_core::graph::VertexId, gc_core::graph::VertexId)> {
    l.iter().map(|e| (vid(e.0), vid(e.1))).collect()
}
/// the failures a block can report, the ones the calls themselves meet among them
fn kind(k: u8) -> io::ErrorKind {
    use io::ErrorKind::*;
    let all = [Other, AlreadyExists, NotFound, PermissionDenied, WouldBlock, Interrupted, TimedOut, InvalidData, InvalidInput, WriteZero, UnexpectedEof, BrokenPipe, Unsupported, OutOfMemory];
    all[k as usize % all.len()]
}
impl<'a> World<'a> {
    fn same(&self, after: &str) -> CheckResult {
        let dirs = &self.dirs;
        for (i, d) in self.d.iter().enumerate() {
            let p = self.s.path(&dirs[i]);
            let name = p.to_str().unwrap();
            ensure_eq!(sut(|| gu::is_locked(name)), d.lock.is_some(), "is_locked({}) after {}", dirs[i], after);
            // what the library writes in its own is not judged
            let lock = std::fs::read(p.join("lock")).ok().map(|l| if d.lock == Some(vec![]) { vec![] } else { l });
            ensure_eq!(lock, d.lock, "lock file of {} after {}", dirs[i], after);
            let got = sut(|| gu::load_graph(name));
            match (&d.g, got) {
                (None, Err(_)) => {}
                (None, Ok(g)) => return Err(format!("load_graph({}) after {}: {:?}, but there is no graph", dirs[i], after, M::of(&g))),
                (Some(_), Err(e)) => return Err(format!("load_graph({}) after {}: {}", dirs[i], after, e)),
                (Some(m), Ok(g)) => same_sets(&g, m).map_err(|e| format!("load_graph({}) after {}: {}", dirs[i], after, e))?,
            }
            if p.exists() {
                ensure_eq!(std::fs::read(p.join("other")).ok(), (i != 1).then(|| b"other".to_vec()), "another file in {} after {}", dirs[i], after);
            }
        }
        Ok(())
    }
    fn step(&mut self, st: &Step, depth: usize) -> CheckResult {
        let (i, name) = named(self.s, &self.dirs, st);
        let n = name.as_str();
        let what = format!("{:?} on {:?}", st.op, n);
        let locked = self.d[i].lock.is_some();
        let mut m = self.d[i].g.clone();
        // what a call that edits has to return, and the graph it leaves
        let editing = !matches!(st.op, Op::Init | Op::Save(_) | Op::Lock | Op::Unlock | Op::Foreign | Op::With(..));
        let expect_ok = match &st.op {
            Op::Init => !locked,
            Op::Save(_) => m.is_some(),
            Op::Lock => !locked,
            Op::Unlock => locked,
            Op::Foreign | Op::With(..) => true,
            _ => m.is_some() && !locked,
        };
        match &st.op {
            // left open: making a graph while someone holds the lock
            Op::Init if locked => return Ok(()),
            // left open: replacing, or editing in no way, what is not there
            Op::Replace(_) if m.is_none() && !locked => return Ok(()),
            Op::AddVs(l) | Op::RmVs(l) if l.is_empty() && m.is_none() && !locked => return Ok(()),
            Op::AddEs(l) | Op::RmEs(l) if l.is_empty() && m.is_none() && !locked => return Ok(()),
            Op::Foreign => {
                if !locked && self.s.path(&self.dirs[i]).exists() {
                    let how = self.foreign as u8;
                    self.foreign += 1;
                    self.s.take_lock(&self.dirs[i], b"held", how.wrapping_mul(37));
                    self.d[i].lock = Some(b"held".to_vec());
                }
                return Ok(());
            }
            Op::With(steps, ret) => return self.with(i, n, steps, ret, depth, &what),
            _ => {}
        }
        let res: io::Result<()> = sut(|| match &st.op {
            Op::Init => gu::init(n),
            Op::AddV(v) => gu::add_vertex(n, vid(*v)),
            Op::AddVs(l) => gu::add_vertices(n, vids(l)),
            Op::AddE(a, b) => gu::add_edge(n, vid(*a), vid(*b)),
            Op::AddEs(l) => gu::add_edges(n, vpairs(l)),
            Op::RmV(v) => gu::remove_vertex(n, vid(*v)),
            Op::RmVs(l) => gu::remove_vertices(n, vids(l)),
            Op::RmEs(l) => gu::remove_edges(n, vpairs(l)),
            Op::Save(g) => gu::save_graph_as_commands(n, &g.build()),
            Op::Replace(g) => gu::replace_graph(n, &g.build()),
            Op::Clean => gu::clean(n),
            Op::Lock => gu::lock(n),
            Op::Unlock => gu::unlock(n),
            Op::Foreign | Op::With(..) => unreachable!(),
        });
        ensure_eq!(res.is_ok(), expect_ok, "{} ({}, {}) returned {:?}; success", what, if m.is_some() { "a graph" } else { "no graph" }, if locked { "locked" } else { "not locked" }, res);
        if expect_ok {
            let g = m.get_or_insert_with(M::new);
            match &st.op {
                Op::AddV(v) => {
                    g.add_v(*v);
                }
                Op::AddVs(l) => l.iter().for_each(|v| {
                    g.add_v(*v);
                }),
                Op::AddE(a, b) => {
                    g.add_e(*a, *b);
                }
                Op::AddEs(l) => l.iter().for_each(|(a, b)| {
                    g.add_e(*a, *b);
                }),
                Op::RmV(v) => {
                    g.rm_v(*v);
                }
                Op::RmVs(l) => l.iter().for_each(|v| {
                    g.rm_v(*v);
                }),
                Op::RmEs(l) => l.iter().for_each(|(a, b)| {
                    g.rm_e(*a, *b);
                }),
                Op::Save(x) | Op::Replace(x) => *g = x.model(),
                _ => {}
            }
            match &st.op {
                Op::Lock => self.d[i].lock = Some(vec![]),
                Op::Unlock => self.d[i].lock = None,
                Op::Clean => self.d[i].g = None,
                _ => self.d[i].g = m,
            }
            self.edits += editing as usize;
        } else if editing && locked {
            self.refused += 1;
        }
        self.same(&what)
    }
    fn with(&mut self, i: usize, n: &str, steps: &[Step], ret: &Result<u8, u8>, depth: usize, what: &str) -> CheckResult {
        let was = self.d[i].lock.clone();
        let mut ran = 0;
        let mut inner: CheckResult = Ok(());
        let res = {
            let (w, ran, inner) = (&mut *self, &mut ran, &mut inner);
            gu::with_lock(n, || {
                *ran += 1;
                w.d[i].lock = Some(vec![]);
                w.held.push(i);
                let mut go = || -> CheckResult {
                    w.same(&format!("taking the lock in {}", what))?;
                    for st in steps {
                        // the lock it runs under is not its to give away
                        if depth < 3 && !(matches!(st.op, Op::Unlock) && w.held.contains(&named(w.s, &w.dirs, st).0)) {
                            w.step(st, depth + 1)?;
                        }
                    }
                    Ok(())
                };
                *inner = go();
                w.held.pop();
                match ret {
                    Ok(k) => Ok(*k),
                    Err(k) => Err(io::Error::new(kind(*k), format!("block says {}", k))),
                }
            })
        };
        inner?;
        ensure_eq!(ran, was.is_none() as usize, "{} (locked: {}): times its block ran", what, was.is_some());
        if was.is_some() {
            ensure!(res.is_err(), "{} on a locked directory returned {:?}", what, res);
            self.refused += 1;
        } else {
            let got = res.map_err(|e| (e.kind(), e.to_string()));
            let want = ret.map_err(|k| (kind(k), format!("block says {}", k)));
            ensure_eq!(got, want, "result of {}", what);
            self.d[i].lock = None;
            self.nested += !steps.is_empty() as usize;
        }
        self.same(&format!("{} has ended", what))
    }
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    let dirs = dirs(c.odd);
    for (i, d) in dirs.iter().enumerate() {
        // one directory does not exist at first
        if i != 1 {
            s.mkdir(d);
            s.write(&format!("{}/other", d), b"other");
        }
    }
    let mut w = World { d: vec![Dir::default(); dirs.len()], dirs, s: &s, edits: 0, refused: 0, nested: 0, foreign: 0, held: vec![] };
    cli::confined(|| {
        for st in &c.steps {
            w.step(st, 0)?;
        }
        Ok::<(), String>(())
    })?;
    o.label_if(w.refused > 0, "refused: locked");
    o.label_if(w.nested > 0, "block with calls");
    o.label_if(w.d.iter().filter(|d| d.g.is_some()).count() > 1, "several graphs");
    o.nontrivial_if(w.edits >= 2 && (w.refused > 0 || w.nested > 0 || w.d.iter().any(|d| d.g.as_ref().map_or(false, |m| !m.e.is_empty()))));
    Ok(())
}
fn op(depth: u32) -> BoxedStrategy<Op> {
    let id = prop_oneof![8 => 0u64..6, 1 => proptest::sample::select(BOUNDARY_IDS.to_vec()), 1 => any::<u64>()];
    let e = (id.clone(), id.clone());
    let flat = prop_oneof![
        3 => Just(Op::Init),
        2 => id.clone().prop_map(Op::AddV),
        2 => vec(id.clone(), 0..5).prop_map(Op::AddVs),
        2 => e.clone().prop_map(|(a, b)| Op::AddE(a, b)),
        3 => vec(e.clone(), 0..6).prop_map(Op::AddEs),
        1 => id.clone().prop_map(Op::RmV),
        1 => vec(id, 0..4).prop_map(Op::RmVs),
        1 => vec(e, 0..4).prop_map(Op::RmEs),
        1 => graph(0, 5, 6, 8).prop_map(Op::Save),
        2 => graph(0, 5, 6, 8).prop_map(Op::Replace),
        1 => Just(Op::Clean),
        2 => Just(Op::Lock),
        3 => Just(Op::Unlock),
        1 => Just(Op::Foreign),
    ];
    if depth == 0 {
        return flat.boxed();
    }
    let ret = prop_oneof![2 => any::<u8>().prop_map(Ok), 1 => any::<u8>().prop_map(Err)];
    prop_oneof![9 => flat, 2 => (vec(step(depth - 1), 0..4), ret).prop_map(|(s, r)| Op::With(s, r))].boxed()
}
fn step(depth: u32) -> BoxedStrategy<Step> {
    let dir = prop_oneof![4 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)];
    (dir, any::<u8>(), op(depth)).prop_map(|(dir, alias, op)| Step { dir, alias, op }).boxed()
}
fn strat(_: Tier) -> BoxedStrategy<Case> {
    (0u8..4, vec(step(2), 1..14), any::<u8>())
        .prop_map(|(n, mut steps, odd)| {
            for k in 0..n.min(2) {
                steps.insert(0, Step { dir: k * 2, alias: 7, op: Op::Init });
            }
            Case { steps, odd }
        })
        .boxed()
}

// edits of many elements in one call, and what a later call sees
fn strat_large(t: Tier) -> BoxedStrategy<Case> {
    let big = (0u8..8, any::<u64>(), sizes(50, t.pick(9_000, 24_000)), 0u8..6)
        .prop_map(|(mode, salt, n, kind)| {
            let l = ids_for(mode, n, salt);
            let es: Vec<E> = (0..n).map(|k| (l[k], l[mix(salt ^ k as u64) as usize % n])).collect();
            match kind {
                0 => Op::AddVs(l),
                1 => Op::AddEs(es),
                2 => Op::RmVs(l[..n / 2].to_vec()),
                3 => Op::RmEs(es[n / 3..].to_vec()),
                4 => Op::Save(G { vs: l, es }),
                _ => Op::Replace(G { vs: l, es }),
            }
        })
        .boxed();
    let one = prop_oneof![5 => big, 1 => op(1)];
    let one = (prop_oneof![4 => Just(0u8), 1 => Just(2u8)], any::<u8>(), one).prop_map(|(dir, alias, op)| Step { dir, alias, op });
    vec(one, 1..6)
        .prop_map(|mut steps| {
            steps.insert(0, Step { dir: 2, alias: 7, op: Op::Init });
            steps.insert(0, Step { dir: 0, alias: 7, op: Op::Init });
            Case { steps, odd: 0 }
        })
        .boxed()
}

// ---- several threads -----------------------------------------------------------------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Threads {
    /// per thread: what it tries, in order
    t: Vec<Vec<u8>>,
}
fn check_threads(c: &Threads, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    s.put_graph("d", &[], &[]);
    let name = s.path("d").to_str().unwrap().to_string();
    let n = c.t.len();
    let inside = AtomicUsize::new(0);
    let two = AtomicUsize::new(0);
    let start = Barrier::new(n);
    // per thread: the edges it has added, how often it was refused
    let done: Vec<Result<(Vec<E>, usize), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = c
            .t
            .iter()
            .enumerate()
            .map(|(k, tries)| {
                let (name, inside, two, start) = (&name, &inside, &two, &start);
                sc.spawn(move || {
                    cli::confined(|| {
                        guarded(|| {
                            let (mut ok, mut no) = (vec![], 0);
                            start.wait();
                            for (j, x) in tries.iter().enumerate() {
                                let e = (k as u64, 100 + j as u64);
                                let r = match x % 4 {
                                    0 | 1 => gu::add_edge(name, vid(e.0), vid(e.1)),
                                    2 => gu::add_edges(name, vec![(vid(e.0), vid(e.1)), (vid(e.1), vid(e.0))]),
                                    _ => gu::with_lock(name, || {
                                        if inside.fetch_add(1, Ordering::SeqCst) != 0 {
                                            two.fetch_add(1, Ordering::SeqCst);
                                        }
                                        for _ in 0..(x / 4) {
                                            std::thread::yield_now();
                                        }
                                        inside.fetch_sub(1, Ordering::SeqCst);
                                        Ok(())
                                    }),
                                };
                                match r {
                                    Ok(()) if x % 4 < 2 => ok.push(e),
                                    Ok(()) if x % 4 == 2 => ok.extend([e, (e.1, e.0)]),
                                    Ok(()) => {}
                                    Err(_) => no += 1,
                                }
                            }
                            (ok, no)
                        })
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread ended".to_string()))).collect()
    });
    let mut m = M::new();
    let mut refused = 0;
    for d in done {
        let (ok, no) = d?;
        refused += no;
        for (a, b) in ok {
            m.add_e(a, b);
        }
    }
    ensure_eq!(two.load(Ordering::SeqCst), 0, "times a block was run while another one was running");
    ensure!(!gu::is_locked(&name), "the lock is still there once all threads have ended");
    let got = cli::stored(&s.path("d"))?.ok_or("the graph is gone")?;
    ensure_eq!(got, m, "stored graph and the edits that returned success");
    o.label_if(refused > 0, "some refused");
    o.nontrivial_if(n > 1 && refused > 0 && !m.e.is_empty());
    Ok(())
}
fn threads(t: Tier) -> BoxedStrategy<Threads> {
    vec(vec(any::<u8>(), 1..t.pick(30, 80)), 2..6).prop_map(|t| Threads { t }).boxed()
}

// ---- all short sequences -------------------------------------------------------------

fn small(k: u64) -> Op {
    match k {
        0 => Op::Init,
        1 => Op::AddE(1, 2),
        2 => Op::RmVs(vec![2]),
        3 => Op::Replace(G { vs: vec![7], es: vec![] }),
        4 => Op::Clean,
        5 => Op::Lock,
        6 => Op::Unlock,
        7 => Op::With(vec![Step { dir: 0, alias: 7, op: Op::AddV(3) }], Ok(1)),
        _ => Op::With(vec![Step { dir: 2, alias: 7, op: Op::Init }], Err(2)),
    }
}
fn ex_total(t: Tier) -> u64 {
    9u64.pow(t.pick(4, 5))
}
fn ex_nth(t: Tier, k: u64) -> Case {
    let init = Step { dir: 0, alias: 7, op: Op::Init };
    let rest = (0..t.pick(4u32, 5)).map(|i| Step { dir: 0, alias: 7, op: small(k / 9u64.pow(i) % 9) });
    Case { steps: (k % 5 != 0).then_some(init).into_iter().chain(rest).collect(), odd: 0 }
}
fn main() {
    let mut s = Suite::new("C25");
    s.exhaustive("all-short-sequences", "all sequences of 4 (5) of 9 calls on one directory; non-trivial: two edits succeeded and a lock refused one, a block made calls, or edges are left", ex_total, ex_nth, check);
    s.test("histories", (12_000, 150_000), "two edits succeeded, and a lock refused one, a block made calls, or edges are left", strat, check);
    s.test("large-edits", (600, 6_000), "as in histories, with up to 9000 (24000) elements in one call", strat_large, check);
    s.test("threads", (2_000, 20_000), "several threads, with calls that were refused and edits that were made", threads, check_threads);
    s.main()
}
