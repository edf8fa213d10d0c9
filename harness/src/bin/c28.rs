//! C28: commands cut short, by being killed or by a failing device, lose nothing.
use gcv::edits::*;
use gcv::*;
use proptest::collection::vec;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Edit(Edit),
    Init,
    Build,
    /// a query, by number
    Ask(u8),
}
const ASK: [(&str, &[&str]); 7] = [
    ("gc-desc", &[]),
    ("gc-topo-sort", &[]),
    ("gc-cycle", &["--count", "--max-length", "3"]),
    ("gc-cycle", &["--head"]),
    ("gc-short-path", &["-s", "1", "-e", "2"]),
    ("gc-csp", &["-s", "1", "-e", "2", "--no-cycle"]),
    ("gc-csp", &["-s", "1", "-e", "2", "--max-length", "3"]),
];
impl Op {
    fn cmd(&self, s: &cli::Scratch) -> cli::Cmd {
        match self {
            Op::Edit(e) => e.cmd(s, "a"),
            Op::Init => cli::cmd("gc-init", &s.path("a")),
            Op::Build => cli::cmd("gc-build", &s.root).args(["-p", "a"]),
            Op::Ask(k) => {
                let (b, a) = ASK[*k as usize % ASK.len()];
                cli::cmd(b, &s.root).args(["-p", "a"]).args(a)
            }
        }
    }
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Cut {
    /// killed before its k-th file operation
    Kill(u8),
    /// the same, with writes of at most n bytes at a time
    KillShort(u8, u16),
    /// the k-th file operation fails (and all later writes)
    Fail(u8, bool, i32),
    /// the same, with short writes
    FailShort(u8, u16, i32),
    /// files cannot grow by more than n bytes
    Full(u16),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: G,
    /// the file's last line is left open
    open: bool,
    /// edits done before
    before: Vec<Edit>,
    op: Op,
    cut: Cut,
    then: Vec<Edit>,
}
fn within(lo: &M, x: &M, hi: &M) -> bool {
    lo.v.is_subset(&x.v) && lo.e.is_subset(&x.e) && x.v.is_subset(&hi.v) && x.e.is_subset(&hi.e)
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    s.put_graph("a", &c.g.vs, &c.g.es);
    let file = s.path("a").join(cli::STORE);
    if c.open {
        let mut t = cli::store_text(&c.g.vs, &c.g.es);
        t.pop();
        s.write(&format!("a/{}", cli::STORE), t.as_bytes());
    }
    let mut old = c.g.model();
    for e in &c.before {
        let out = e.cmd(&s, "a").run()?;
        ensure!(out.ok(), "{} failed: {}", e.cmd(&s, "a").show(), out.brief());
        e.apply(&mut old);
    }
    let bytes = std::fs::read(&file).unwrap_or_default();
    let mut new = old.clone();
    if let Op::Edit(e) = &c.op {
        e.apply(&mut new);
    }
    let cmd = c.op.cmd(&s);
    let (cmd, kill) = match &c.cut {
        Cut::Kill(k) => (cmd.shim("GCV_STOP_AT", k), true),
        Cut::KillShort(k, n) => (cmd.shim("GCV_STOP_AT", k).shim("GCV_SHORT", n), true),
        Cut::Fail(k, all, e) => (cmd.shim("GCV_FAIL_AT", k).shim("GCV_FAIL_ALL", *all as u8).shim("GCV_ERRNO", e), false),
        Cut::FailShort(k, n, e) => (cmd.shim("GCV_FAIL_AT", k).shim("GCV_FAIL_ALL", 1).shim("GCV_ERRNO", e).shim("GCV_SHORT", n), false),
        Cut::Full(n) => (cmd.fsize(Some(bytes.len() as u64 + *n as u64)), false),
    };
    let how;
    if kill {
        let mut run = cmd.spawn();
        if run.wait_stop() {
            run.kill();
            how = "killed".to_string();
        } else {
            // it has fewer operations than that
            let _ = run.wait()?;
            o.excluded = true;
            return Ok(());
        }
    } else {
        let out = cmd.run()?;
        how = out.brief();
        if out.ok() {
            // what success means is judged elsewhere
            o.excluded = true;
            return Ok(());
        }
    }
    let at = format!("{} ({:?}, {})", cmd.show(), c.cut, how);
    let now = match std::fs::read(&file) {
        Ok(b) => b,
        Err(e) => return Err(format!("{}: the stored graph is gone: {}", at, e)),
    };
    if matches!(c.op, Op::Init | Op::Ask(_)) {
        ensure!(now == bytes, "{}: the stored graph changed to {:?}", at, String::from_utf8_lossy(&now));
    }
    let (lo, hi) = if matches!(c.op, Op::Edit(Edit::Del(_))) { (&new, &old) } else { (&old, &new) };
    let whole = cli::parse_store(&now);
    let fine = matches!(&whole, Ok(m) if within(lo, m, hi));
    if !fine {
        ensure!(matches!(c.op, Op::Edit(_)), "{}: the stored graph was {:?} and is now {:?}", at, old, whole);
        // all but its last line
        let cut = now.iter().rposition(|b| *b == b'\n').unwrap_or(0);
        let rest = cli::parse_store(&now[..cut]).map_err(|e| format!("{}: the stored graph has a bad line other than its last one: {}", at, e))?;
        ensure!(within(lo, &rest, hi), "{}: the stored graph is now {:?}, it was {:?} and would be {:?}", at, rest, old, new);
        // an incomplete line can only come from the edit itself
        ensure!(now != bytes, "{}: harness: the old graph is not within its own bounds", at);
        o.label("incomplete last line");
    }
    let stored = match whole {
        Ok(m) => m,
        Err(_) => {
            o.nontrivial_if(true);
            return Ok(());
        }
    };
    // a lock left by a killed command is removed by hand; then all goes on
    let lock = s.path("a").join("lock");
    let locked = lock.symlink_metadata().is_ok();
    if locked {
        let _ = std::fs::remove_file(&lock);
    }
    let got = cli::stored(&s.path("a")).map_err(|e| format!("{}: {}", at, e))?;
    ensure!(got.as_ref() == Some(&stored), "{}: {:?} is loaded as {:?}", at, stored, got);
    let mut m = stored.clone();
    for e in &c.then {
        let cmd = e.cmd(&s, "a");
        let out = cmd.run()?;
        ensure!(out.ok(), "after {}: {} failed: {}", at, cmd.show(), out.brief());
        e.apply(&mut m);
        let got = cli::stored(&s.path("a")).map_err(|e| format!("after {}, {}: {}", at, cmd.show(), e))?;
        ensure!(got.as_ref() == Some(&m), "after {}, {}: the stored graph is {:?}, expected {:?}", at, cmd.show(), got, m);
    }
    o.label_if(locked, "lock left");
    o.label_if(stored == old && new != old, "nothing stored");
    o.label_if(stored == new && new != old, "all stored");
    o.label_if(stored != new && stored != old, "partly stored");
    o.nontrivial_if(locked || stored != old);
    Ok(())
}
fn cut() -> BoxedStrategy<Cut> {
    let k = || prop_oneof![5 => 1u8..12, 2 => 1u8..30];
    let n = || prop_oneof![3 => 1u16..12, 2 => 1u16..60, 1 => 1u16..6000];
    let e = || proptest::sample::select(vec![libc::EIO, libc::ENOSPC, libc::EDQUOT]);
    prop_oneof![
        6 => k().prop_map(Cut::Kill),
        4 => (k(), n()).prop_map(|(k, n)| Cut::KillShort(k, n)),
        2 => (k(), any::<bool>(), e()).prop_map(|(k, a, e)| Cut::Fail(k, a, e)),
        2 => (k(), n(), e()).prop_map(|(k, n, e)| Cut::FailShort(k, n, e)),
        2 => prop_oneof![3 => 0u16..60, 1 => 0u16..20_000].prop_map(Cut::Full),
    ]
    .boxed()
}
fn strat(_: Tier) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        10 => edit(true).prop_map(Op::Edit),
        1 => Just(Op::Init),
        1 => Just(Op::Build),
        2 => any::<u8>().prop_map(Op::Ask),
    ];
    let g = prop_oneof![6 => graph(0, 8, 12, 20), 1 => graph_shapes(3, 60, 80, 120, vec![0, 2, 3, 6])];
    (g, any::<bool>(), vec(edit(true), 0..3), op, cut(), vec(single(), 0..3))
        .prop_map(|(g, open, mut before, mut op, cut, then)| {
            // searches on small graphs only
            if let Op::Ask(k) = &mut op {
                before.clear();
                if g.vs.len() > 8 {
                    *k = 0;
                }
            }
            Case { g, open, before, op, cut, then }
        })
        .boxed()
}
// files of many buffers: what is stored is large
fn large(t: Tier) -> BoxedStrategy<Case> {
    let big = (60u64..t.pick(120, 200), 0u64..1000).prop_map(|(n, b)| Edit::Add(Add { clique: (0..n).map(|i| i * 3 + b).collect(), ..Add::default() }));
    let e = prop_oneof![2 => big, 1 => edit(true), 1 => del()];
    let k = prop_oneof![4 => 1u8..14, 2 => 1u8..60];
    let cut = prop_oneof![3 => k.prop_map(Cut::Kill), 1 => (0u16..60_000).prop_map(Cut::Full), 2 => cut()];
    (long_graph(500, t.pick(9_000, 20_000), vec![LONG_CHAIN, LONG_TREE_IN, LONG_CYCLE], 2, true), any::<bool>(), e, cut, vec(single(), 0..2))
        .prop_map(|(g, open, e, cut, then)| Case { g, open, before: vec![], op: Op::Edit(e), cut, then })
        .boxed()
}

fn main() {
    let mut s = Suite::new("C28");
    s.assume("a command is killed between file operations (of at most n bytes when writes are made short), not within one");
    s.assume("gc-clean and gc-random are told to remove the graph: what a killed one leaves is not judged");
    let rule = "the command held the lock or had stored something when it was cut short";
    s.test("cut-short", (3_000, 40_000), rule, strat, check);
    s.test_shrink("large", (250, 3_000), 60, rule, large, check);
    s.main()
}
