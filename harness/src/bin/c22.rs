//! C22: queries with good and bad options, on good and bad graphs; nothing may change.
use gcv::*;
use proptest::collection::vec;
use std::os::unix::fs::PermissionsExt;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Q {
    Desc,
    Topo,
    Short { s: u16, e: u16 },
    /// lists: include, exclude, ordered; flags; min, max, exact length; min, max, exact score
    Csp { s: u16, e: u16, lists: [Vec<u16>; 3], cycle: bool, no_cycle: bool, n: [Option<u8>; 6] },
    /// lists: include, exclude vertices, include, exclude edges
    Cycle { action: u8, take: u8, lists: [Vec<u16>; 4], n: [Option<u8>; 6] },
}
const NUM: [&str; 6] = ["--min-length", "--max-length", "--exact-length", "--min-score", "--max-score", "--exact-score"];
/// an option: its name and its values
type Opts = Vec<(String, Vec<String>)>;
impl Q {
    fn bin(&self) -> &'static str {
        match self {
            Q::Desc => "gc-desc",
            Q::Topo => "gc-topo-sort",
            Q::Short { .. } => "gc-short-path",
            Q::Csp { .. } => "gc-csp",
            Q::Cycle { .. } => "gc-cycle",
        }
    }
    fn opts(&self, vs: &[u64]) -> Opts {
        let id = |r: &u16| if vs.is_empty() || *r % 17 == 0 { "77".to_string() } else { pick(vs, *r).to_string() };
        let mut o: Opts = vec![];
        let mut put = |n: &str, v: Vec<String>| {
            if !v.is_empty() {
                o.push((n.to_string(), v));
            }
        };
        match self {
            Q::Desc | Q::Topo => {}
            Q::Short { s, e } => {
                put("-s", vec![id(s)]);
                put("--end", vec![id(e)]);
            }
            Q::Csp { s, e, lists, cycle, no_cycle, n } => {
                put("--start", vec![id(s)]);
                put("-e", vec![id(e)]);
                for (name, l) in ["--include", "--exclude", "--ordered"].iter().zip(lists) {
                    put(name, l.iter().map(id).collect());
                }
                for (i, name) in NUM.iter().enumerate() {
                    let v = if i == 1 { Some(n[1].unwrap_or(5).min(5)) } else { n[i] };
                    put(name, v.iter().map(|x| x.to_string()).collect());
                }
                if *cycle {
                    o.push(("--include-cycle".into(), vec![]));
                }
                if *no_cycle {
                    o.push(("--no-cycle".into(), vec![]));
                }
            }
            Q::Cycle { action, take, lists, n } => {
                for (name, l) in ["--include-all", "--exclude-all"].iter().zip(lists) {
                    put(name, l.iter().map(id).collect());
                }
                for (name, l) in ["--include-all-edges", "--exclude-all-edges"].iter().zip(&lists[2..]) {
                    put(name, l.iter().flat_map(|r| [id(r), id(&r.rotate_left(7))]).collect());
                }
                for (i, name) in NUM.iter().enumerate() {
                    put(name, n[i].iter().map(|x| x.to_string()).collect());
                }
                if *action == 4 {
                    put("--take-n", vec![take.to_string()]);
                } else {
                    o.push((["--girth", "--hamiltonian", "--count", "--head", "", "--all", "--shortest", "--longest"][*action as usize % 8].into(), vec![]));
                }
            }
        }
        o
    }
}
fn line(s: &cli::Scratch, bin: &'static str, dir: &str, inside: bool, opts: &Opts, order: u64) -> cli::Cmd {
    let cmd = if inside { cli::cmd(bin, &s.path(dir)) } else { cli::cmd(bin, &s.root).args(["-p", dir]) };
    cmd.args(perm(opts.len(), order).into_iter().flat_map(|i| {
        let mut v = vec![opts[i].0.clone()];
        v.extend(opts[i].1.clone());
        v
    }))
}

// ---- queries change nothing -----------------------------------------------------------
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: G,
    /// commands stored after those of the graph: they leave it as it is
    tail: Vec<u8>,
    /// that many times
    #[serde(default)]
    times: u16,
    lock: Option<String>,
    inside: bool,
    #[serde(default)]
    dir: u8,
    qs: Vec<Q>,
    order: u64,
}
fn store(g: &G, tail: &[u8], times: u16) -> String {
    let mut t = String::from("# history\n");
    t.push_str(&cli::store_text(&g.vs, &g.es));
    for x in (0..times.max(1)).flat_map(|_| tail) {
        t.push_str(match x % 5 {
            0 => "AddVertex 900\nRemoveVertex 900\n",
            1 => "RemoveVertex 901\n",
            2 => "\n",
            3 => "# note\n",
            _ => "AddEdge 900 901\nRemoveEdge 900 901\nRemoveVertex 901\nRemoveVertex 900\n",
        });
    }
    t
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    let dir = cli::name(c.dir);
    s.mkdir(&format!("{}/.graph", dir));
    s.write(&format!("{}/{}", dir, cli::STORE), store(&c.g, &c.tail, c.times).as_bytes());
    s.write(&format!("{}/note", dir), b"something");
    s.put_graph("e", &[1], &[(1, 1)]);
    if let Some(l) = &c.lock {
        s.write(&format!("{}/lock", dir), l.as_bytes());
    }
    let before = s.snapshot();
    let vs: Vec<u64> = c.g.model().v.into_iter().collect();
    for q in &c.qs {
        let cmd = line(&s, q.bin(), dir, c.inside, &q.opts(&vs), c.order);
        let out = cmd.run()?;
        let after = s.snapshot();
        ensure!(after == before, "{} ({}): the directory holds {:?}, was {:?}", cmd.show(), out.brief(), show(&after, &before), show(&before, &after));
        o.label(q.bin());
        o.label(if out.ok() { "answered" } else { "refused" });
    }
    o.label_if(c.lock.is_some(), "locked");
    o.nontrivial_if(c.qs.len() > 1 && !c.g.es.is_empty());
    Ok(())
}
fn show(a: &std::collections::BTreeMap<String, Option<Vec<u8>>>, b: &std::collections::BTreeMap<String, Option<Vec<u8>>>) -> Vec<(String, String)> {
    a.iter().filter(|(k, v)| b.get(*k) != Some(v)).map(|(k, v)| (k.clone(), String::from_utf8_lossy(v.as_deref().unwrap_or(b"(directory)")).to_string())).collect()
}
fn nums(p: u32) -> BoxedStrategy<[Option<u8>; 6]> {
    let n = move || prop_oneof![10 => Just(None), p => (0u8..6).prop_map(Some)].boxed();
    [n(), n(), n(), n(), n(), n()].boxed()
}
fn list(p: u32, lo: usize) -> BoxedStrategy<Vec<u16>> {
    prop_oneof![10 => Just(vec![]), p => vec(any::<u16>(), lo..4)].boxed()
}
fn query(p: u32) -> BoxedStrategy<Q> {
    prop_oneof![
        1 => Just(Q::Desc),
        1 => Just(Q::Topo),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(s, e)| Q::Short { s, e }),
        3 => (any::<u16>(), any::<u16>(), [list(p, 1), list(p, 1), list(p, 2)], any::<bool>(), any::<bool>(), nums(p))
            .prop_map(|(s, e, lists, cycle, no_cycle, n)| Q::Csp { s, e, lists, cycle, no_cycle, n }),
        3 => (0u8..8, 0u8..4, [list(p, 1), list(p, 1), list(p, 1), list(p, 1)], nums(p)).prop_map(|(action, take, lists, n)| Q::Cycle { action, take, lists, n }),
    ]
    .boxed()
}
fn strat(_: Tier) -> BoxedStrategy<Case> {
    (
        graph(1, 5, 8, 9),
        vec(any::<u8>(), 0..5),
        prop_oneof![3 => Just(None), 1 => proptest::sample::select(vec!["", "pid 1"]).prop_map(|x| Some(x.to_string()))],
        any::<bool>(),
        any::<u8>(),
        vec(query(3), 1..5),
        any::<u64>(),
    )
        .prop_map(|(g, tail, lock, inside, dir, qs, order)| Case { g, tail, times: 1, lock, inside, dir, qs, order })
        .boxed()
}
/// long histories, or many vertices and edges
fn strat_large(t: Tier) -> BoxedStrategy<Case> {
    let g = long_graph(100, t.pick(1_500, 3_000), vec![LONG_CHAIN, LONG_CYCLE, LONG_LASSO, LONG_STAR_OUT, LONG_LOCAL_DAG], 3, false);
    (strat(t), vec(any::<u8>(), 1..5), sizes(30, t.pick(4_000, 20_000)), prop_oneof![2 => Just(None), 1 => g.prop_map(Some)])
        .prop_map(|(c, tail, times, g)| match g {
            // searches with many options could take long
            Some(g) => Case { g, tail, times: (times / 100).max(1) as u16, qs: c.qs.into_iter().map(|q| if matches!(q, Q::Csp { .. } | Q::Cycle { .. }) { if c.inside { Q::Desc } else { Q::Topo } } else { q }).collect(), ..c },
            None => Case { tail, times: times as u16, ..c },
        })
        .boxed()
}

// ---- malformed option values ------------------------------------------------------------
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Bad {
    g: G,
    q: Q,
    /// which option value becomes malformed
    at: u16,
    word: String,
    /// drop one edge end instead
    odd: bool,
    order: u64,
}
fn check_bad(c: &Bad, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    s.put_graph("d", &c.g.vs, &c.g.es);
    let vs: Vec<u64> = c.g.model().v.into_iter().collect();
    let mut opts = c.q.opts(&vs);
    let what;
    if c.odd {
        match opts.iter().position(|x| x.0.ends_with("-edges") && x.1.len() >= 4) {
            Some(i) => {
                opts[i].1.pop();
                what = (opts[i].0.clone(), "odd number of edge ends");
            }
            None => {
                if c.q.bin() != "gc-cycle" || opts.iter().any(|x| x.0 == "--include-all-edges") {
                    o.excluded = true;
                    return Ok(());
                }
                opts.push(("--include-all-edges".into(), vec!["1".into(), "2".into(), "3".into()]));
                what = ("--include-all-edges".to_string(), "odd number of edge ends");
            }
        }
    } else {
        let places: Vec<(usize, usize)> = opts.iter().enumerate().flat_map(|(i, x)| (0..x.1.len()).map(move |j| (i, j))).collect();
        if places.is_empty() {
            o.excluded = true;
            return Ok(());
        }
        let (i, j) = pick(&places, c.at);
        opts[i].1[j] = c.word.clone();
        what = (opts[i].0.clone(), "malformed value");
    }
    let before = s.snapshot();
    let cmd = line(&s, c.q.bin(), "d", false, &opts, c.order);
    let out = cmd.run()?;
    ensure!(!out.ok(), "{} ({} of {} ignored): {}", cmd.show(), what.1, what.0, out.brief());
    ensure!(s.snapshot() == before, "{} ({}): changed the directory", cmd.show(), out.brief());
    o.label(what.1);
    o.label(c.q.bin());
    o.nontrivial_if(what.0 != "-s" && what.0 != "-e" && what.0 != "--start" && what.0 != "--end");
    Ok(())
}
fn bad(_: Tier) -> BoxedStrategy<Bad> {
    let word = prop_oneof![
        proptest::sample::select(vec!["x", "1x", "x1", "1.5", "2.", "1e3", "18446744073709551616", "99999999999999999999999", "0x10", "", " ", "1 ", " 1", "1,2", "one", "1_0", "inf", "NaN"]).prop_map(|x| x.to_string()),
        "[0-9]{1,3}[a-z,.;:/_]{1,2}[0-9]{0,2}".prop_map(|x| x),
    ];
    (graph(1, 5, 8, 9), query(8), any::<u16>(), word, proptest::bool::weighted(0.15), any::<u64>()).prop_map(|(g, q, at, word, odd, order)| Bad { g, q, at, word, odd, order }).boxed()
}

// ---- missing and unreadable graphs ---------------------------------------------------------
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Gone {
    g: G,
    q: Q,
    how: u8,
    junk: String,
    at: u16,
    inside: bool,
}
fn check_gone(c: &Gone, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    let f = format!("d/{}", cli::STORE);
    let mut inside = c.inside;
    let what = match c.how {
        0 => {
            inside = false;
            "no directory"
        }
        1 => {
            s.mkdir("d");
            "no graph"
        }
        2 => {
            s.mkdir("d/.graph");
            "empty .graph"
        }
        3 => {
            s.mkdir(&f);
            "graph is a directory"
        }
        4 => {
            s.put_graph("d", &c.g.vs, &c.g.es);
            let _ = std::fs::set_permissions(s.path(&f), std::fs::Permissions::from_mode(0));
            "not permitted"
        }
        5 => {
            s.put_graph("d", &c.g.vs, &c.g.es);
            let mut t = std::fs::read(s.path(&f)).unwrap_or_default();
            let at = c.at as usize * (t.len() + 1) / 65536;
            t.splice(at..at, [0xffu8, 0xfe]);
            s.write(&f, &t);
            "not text"
        }
        _ => {
            let mut lines: Vec<String> = cli::store_text(&c.g.vs, &c.g.es).lines().map(|x| x.to_string()).collect();
            let at = c.at as usize * (lines.len() + 1) / 65536;
            lines.insert(at, c.junk.clone());
            s.mkdir("d/.graph");
            s.write(&f, (lines.join("\n") + "\n").as_bytes());
            "malformed line"
        }
    };
    let before = s.snapshot();
    let vs: Vec<u64> = c.g.model().v.into_iter().collect();
    let cmd = line(&s, c.q.bin(), "d", inside, &c.q.opts(&vs), 0);
    let out = cmd.run()?;
    ensure!(!out.ok(), "{} on {}: reported success ({})", cmd.show(), what, out.brief());
    ensure!(s.snapshot() == before, "{} on {} ({}): changed the directory", cmd.show(), what, out.brief());
    o.label(what);
    o.label(c.q.bin());
    o.nontrivial_if(c.how > 1);
    Ok(())
}
fn gone(_: Tier) -> BoxedStrategy<Gone> {
    let junk = proptest::sample::select(vec!["junk", "AddVertex", "AddVertex x", "AddEdge 1", "AddEdge 1 x", "RemoveEdge", "addvertex 1", "AddVertex 99999999999999999999", "Remove 1"]).prop_map(|x| x.to_string());
    (graph(1, 5, 8, 9), query(3), 0u8..8, junk, any::<u16>(), any::<bool>()).prop_map(|(g, q, how, junk, at, inside)| Gone { g, q, how, junk, at, inside }).boxed()
}

fn main() {
    let mut s = Suite::new("C22");
    s.assume("graphs of up to 9 vertices; gc-csp is always given a maximum length, so that every query ends");
    s.test_shrink("unchanged", (1_200, 20_000), 300, "2 or more queries on a graph with edges", strat, check);
    s.test_shrink("unchanged-large", (300, 3_000), 60, "2 or more queries on a graph with edges; files of up to some 30000 (150000) lines", strat_large, check);
    s.test_shrink("malformed-options", (3_000, 40_000), 300, "the malformed value is not a start or end vertex", bad, check_bad);
    s.test_shrink("no-graph", (1_200, 12_000), 300, "there is something that cannot be read", gone, check_gone);
    s.main()
}
