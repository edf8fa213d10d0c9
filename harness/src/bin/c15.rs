//! C15: gc-cycle with every action and combination of constraints, against filtering the
//! enumerated simple cycles of the stored graph.
use gcv::*;
use proptest::collection::vec;
use std::collections::BTreeSet;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: G,
    link: u16,
    /// which cycle the constraints are drawn around (most of them hold for it)
    around: u16,
    action: u8,
    take: u16,
    inc: Vec<u16>,
    exc: Vec<u16>,
    inc_e: Vec<u16>,
    exc_e: Vec<u16>,
    /// min, max, exact length; min, max, exact score: offset to the cycle's length
    n: [Option<i8>; 6],
    #[serde(default)]
    pad: u16,
    /// order in which the options are given
    order: u64,
}
fn opt(p: u32) -> BoxedStrategy<Option<i8>> {
    prop_oneof![10 => Just(None), p => prop_oneof![3 => Just(0i8), 1 => Just(1), 1 => Just(-1), 1 => -3i8..4, 1 => -116i8..-100, 2 => 100i8..116].prop_map(Some)].boxed()
}
fn some(p: u32, max: usize) -> BoxedStrategy<Vec<u16>> {
    prop_oneof![10 => Just(vec![]), p => vec(any::<u16>(), 1..=max)].boxed()
}
fn strat(_: Tier) -> BoxedStrategy<Case> {
    (
        (
            prop_oneof![3 => graph_shapes(2, 6, 12, 14, vec![0, 2, 4, 8, 9, 13, 11]), 1 => graph(1, 7, 14, 14), 1 => graph_shapes(4, 8, 10, 14, vec![2, 5, 8])],
            any::<u16>(),
            any::<u16>(),
        ),
        (0u8..8, prop_oneof![8 => 0u16..5, 1 => 65_000u16..65_016]),
        (some(3, 3), some(2, 3), some(3, 2), some(2, 2)),
        [opt(2), opt(2), opt(1), opt(2), opt(2), opt(1)],
        any::<u64>(),
    )
        .prop_map(|((g, link, around), (action, take), (inc, exc, inc_e, exc_e), n, order)| Case { g, link, around, action, take, inc, exc, inc_e, exc_e, n, order, pad: 0 })
        .boxed()
}
/// very many constraints
fn padded(t: Tier) -> BoxedStrategy<Case> {
    (strat(t), sizes(50, t.pick(2_600, 5_200))).prop_map(|(c, n)| Case { pad: n as u16, action: c.action.max(2), ..c }).boxed()
}
/// joins the weak components of a graph by edges
fn connected(g: &G, r: u16) -> G {
    let mut g = g.clone();
    let cs = g.model().weak_components();
    for w in cs.windows(2) {
        let a: Vec<u64> = w[0].iter().copied().collect();
        let b: Vec<u64> = w[1].iter().copied().collect();
        let (x, y) = (pick(&a, r), pick(&b, r.rotate_left(5)));
        g.es.push(if r.count_ones() % 2 == 0 { (x, y) } else { (y, x) });
    }
    g
}
fn edges_of(c: &[u64]) -> BTreeSet<E> {
    (0..c.len()).map(|i| (c[i], c[(i + 1) % c.len()])).collect()
}
fn parse_cycle(s: &str) -> Option<Vec<u64>> {
    let s = s.trim().strip_prefix('[')?.strip_suffix(']')?;
    s.split(',').map(|x| x.trim().parse::<u64>().ok()).collect()
}
/// the same cycle written from its smallest vertex
fn turned(c: &[u64]) -> Vec<u64> {
    let at = (0..c.len()).min_by_key(|i| c[*i]).unwrap_or(0);
    c[at..].iter().chain(&c[..at]).copied().collect()
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let g = connected(&c.g, c.link);
    let m = g.model();
    let Some(all) = m.simple_cycles(2_000, 200_000) else {
        o.excluded = true;
        return Ok(());
    };
    let lists: Vec<Vec<u64>> = all.iter().cloned().collect();
    let base: Vec<u64> = if lists.is_empty() { m.v.iter().copied().take(2).collect() } else { lists[c.around as usize * lists.len() / 65536].clone() };
    let vs: Vec<u64> = m.v.iter().copied().collect();
    let es: Vec<E> = m.e.iter().copied().collect();
    let rest: Vec<u64> = vs.iter().copied().filter(|v| !base.contains(v)).collect();
    let base_e: Vec<E> = edges_of(&base).into_iter().collect();
    let rest_e: Vec<E> = es.iter().copied().filter(|e| !base_e.contains(e)).collect();
    // three in four constraints hold for the chosen cycle, others are about anything
    let choose_v = |r: &u16, good: &[u64]| if r % 4 == 0 || good.is_empty() { if r % 16 == 0 { 424_242 } else { pick(&vs, *r) } } else { pick(good, *r) };
    let choose_e = |r: &u16, good: &[E]| if r % 4 == 0 || good.is_empty() { if es.is_empty() || r % 16 == 0 { (vs[0], 424_242) } else { pick(&es, *r) } } else { pick(good, *r) };
    let inc: Vec<u64> = c.inc.iter().map(|r| choose_v(r, &base)).collect();
    let exc: Vec<u64> = c.exc.iter().map(|r| choose_v(r, &rest)).collect();
    let inc_e: Vec<E> = c.inc_e.iter().map(|r| choose_e(r, &base_e)).collect();
    let exc_e: Vec<E> = c.exc_e.iter().map(|r| choose_e(r, &rest_e)).collect();
    let value = |i: usize, d: i8| match d {
        100.. if i < 3 && d == 115 => u64::MAX as i128,
        100.. => LIMITS[d as usize % 16] as i128,
        ..=-100 if i < 3 => 0,
        ..=-100 => -(LIMITS[-(d as i64) as usize % 16] as i128),
        _ => (base.len() as i128 + d as i128).max(0),
    };
    // very many that hold for every cycle, before the others
    let pad = c.pad as u64;
    let (exc, exc_e): (Vec<u64>, Vec<E>) = match c.link % 3 {
        0 => ((0..pad).map(|i| 1_000_000_000_000 + i).chain(exc).collect(), exc_e),
        1 => (exc, (0..pad).map(|i| (1_000_000_000_000 + i, i)).chain(exc_e).collect()),
        _ => ((0..pad / 2).map(|i| 1_000_000_000_000 + i).chain(exc).collect(), (0..pad / 2).map(|i| (1_000_000_000_000 + i, i)).chain(exc_e).collect()),
    };
    let n: Vec<Option<i128>> = c.n.iter().enumerate().map(|(i, x)| x.map(|d| value(i, d))).collect();
    let matches = |x: &Vec<u64>| {
        let l = x.len() as i128;
        let e = edges_of(x);
        inc.iter().all(|v| x.contains(v))
            && !exc.iter().any(|v| x.contains(v))
            && inc_e.iter().all(|v| e.contains(v))
            && !exc_e.iter().any(|v| e.contains(v))
            && [0, 3].iter().all(|i| n[*i].map(|k| l >= k).unwrap_or(true))
            && [1, 4].iter().all(|i| n[*i].map(|k| l <= k).unwrap_or(true))
            && [2, 5].iter().all(|i| n[*i].map(|k| l == k).unwrap_or(true))
    };
    // girth and hamiltonian answer over all cycles
    let free = c.action < 2;
    let want: BTreeSet<Vec<u64>> = all.iter().filter(|x| free || matches(x)).cloned().collect();

    let s = cli::Scratch::new();
    s.put_graph("d", &g.vs, &g.es);
    let mut opts: Vec<Vec<String>> = vec![vec!["-p".into(), "d".into()]];
    let take = if c.take > 60_000 { LIMITS[c.take as usize % 16] } else { c.take as u64 };
    let action: Vec<String> = match c.action {
        0 => vec!["--girth".into()],
        1 => vec!["--hamiltonian".into()],
        2 => vec!["--count".into()],
        3 => vec!["--head".into()],
        4 => vec!["--take-n".into(), take.to_string()],
        5 => vec!["--all".into()],
        6 => vec!["--shortest".into()],
        _ => vec!["--longest".into()],
    };
    opts.push(action);
    let mut add = |name: &str, vals: Vec<String>| {
        if !vals.is_empty() {
            let mut v = vec![name.to_string()];
            v.extend(vals);
            opts.push(v);
        }
    };
    let flat = |l: &[E]| -> Vec<String> { l.iter().flat_map(|e| [e.0.to_string(), e.1.to_string()]).collect() };
    add("--include-all", inc.iter().map(|x| x.to_string()).collect());
    add("--exclude-all", exc.iter().map(|x| x.to_string()).collect());
    add("--include-all-edges", flat(&inc_e));
    add("--exclude-all-edges", flat(&exc_e));
    for (i, name) in ["--min-length", "--max-length", "--exact-length", "--min-score", "--max-score", "--exact-score"].iter().enumerate() {
        match n[i] {
            Some(x) if x < 0 => opts.push(vec![format!("{}={}", name, x)]),
            Some(x) => opts.push(vec![name.to_string(), x.to_string()]),
            None => {}
        }
    }
    let k = opts.len();
    let cmd = cli::cmd("gc-cycle", &s.root).args(perm(k, c.order).into_iter().flat_map(|i| opts[i].clone()));
    let out = cmd.run()?;
    let fail = |what: String| -> String { format!("{}: {} ({} of {} cycles match; {})", cmd.show(), what, want.len(), all.len(), out.brief()) };
    ensure!(out.ok(), "{}", fail("failed".into()));
    let lines: Vec<&str> = out.stdout.lines().filter(|l| !l.trim().is_empty()).collect();
    let answer = |name: &str| -> Result<String, String> {
        match lines.as_slice() {
            [l] => l.strip_prefix(name).map(|x| x.trim().to_string()).ok_or_else(|| fail("unexpected output".into())),
            _ => Err(fail("unexpected output".into())),
        }
    };
    let one = |text: &str, len: Option<usize>| -> CheckResult {
        match len {
            None => ensure!(text == "N/A", "{}", fail("a cycle is printed although none matches".into())),
            Some(k) => {
                let l = parse_cycle(text).ok_or_else(|| fail("no cycle is printed although some match".into()))?;
                ensure!(want.contains(&turned(&l)), "{}", fail(format!("{:?} is not a matching cycle", l)));
                ensure!(l.len() == k, "{}", fail(format!("{:?} does not have length {}", l, k)));
            }
        }
        Ok(())
    };
    let min = want.iter().map(|x| x.len()).min();
    let max = want.iter().map(|x| x.len()).max();
    match c.action {
        0 => ensure!(answer("girth:")? == min.map(|x| x.to_string()).unwrap_or("Infinity".into()), "{}", fail(format!("expected girth {:?}", min))),
        1 => one(&answer("hamiltonian:")?, max.filter(|x| *x == m.v.len()))?,
        2 => ensure!(answer("count:")? == want.len().to_string(), "{}", fail(format!("expected count {}", want.len()))),
        6 => one(&answer("shortest cycle:")?, min)?,
        7 => one(&answer("longest cycle:")?, max)?,
        a => {
            let expect = match a {
                3 => want.len().min(1),
                4 => want.len().min(take as usize),
                _ => want.len(),
            };
            let mut seen = BTreeSet::new();
            for l in &lines {
                let x = parse_cycle(l).ok_or_else(|| fail("unexpected output".into()))?;
                ensure!(want.contains(&turned(&x)), "{}", fail(format!("{:?} is not a matching cycle", x)));
                ensure!(seen.insert(turned(&x)), "{}", fail(format!("{:?} is listed twice", x)));
            }
            ensure!(seen.len() == expect, "{}", fail(format!("{} cycles are listed, expected {}", seen.len(), expect)));
        }
    }
    o.label_if(k >= 4, "2 or more constraints");
    o.label_if(!want.is_empty() && want.len() < all.len(), "some cycles match, some do not");
    o.label_if(want.is_empty() && !all.is_empty(), "no cycle matches");
    o.label_if(!inc_e.is_empty() || !exc_e.is_empty(), "edge constraints");
    o.label_if([&inc, &exc].iter().any(|x| x.len() > 1) || [&inc_e, &exc_e].iter().any(|x| x.len() > 1), "lists");
    o.nontrivial_if((!want.is_empty() && want.len() < all.len()) || (free && all.len() > 1));
    Ok(())
}

fn large(t: Tier) -> BoxedStrategy<Case> {
    large_of(14, t.pick(300, 600))
}
fn huge(t: Tier) -> BoxedStrategy<Case> {
    large_of(600, t.pick(1_100, 2_100))
}
fn deep(t: Tier) -> BoxedStrategy<Case> {
    large_of(4_100, t.pick(4_300, 5_000))
}
fn hub(t: Tier) -> BoxedStrategy<Case> {
    case_of(hubs(graph(2, 5, 8, 9), 20, t.pick(2_200, 4_200), vec![HUB_OUT, HUB_OUT, HUB_IN, HUB_ALTERNATING, HUB_MIDS, HUB_BIDI]).prop_map(|h| h.g).boxed())
}
fn large_of(lo: usize, hi: usize) -> BoxedStrategy<Case> {
    case_of(long_graph(lo, hi, vec![LONG_CYCLE, LONG_CYCLE, LONG_LASSO, LONG_BIDI, LONG_CHAIN, LONG_STAR_OUT], 3, false))
}
fn case_of(g: BoxedStrategy<G>) -> BoxedStrategy<Case> {
    (
        (g, any::<u16>(), any::<u16>()),
        (0u8..8, prop_oneof![Just(3u16), Just(200), Just(256), Just(300), Just(70)]),
        (some(3, 20), some(2, 6), some(3, 10), some(2, 6)),
        [opt(2), opt(2), opt(1), opt(2), opt(2), opt(1)],
        any::<u64>(),
    )
        .prop_map(|((g, link, around), (action, take), (inc, exc, inc_e, exc_e), n, order)| {
            // constraints that hold for the chosen cycle, but for one in eight
            let good = |l: Vec<u16>| l.into_iter().map(|r| if r % 64 == 0 { r } else { r | 1 }).collect();
            Case { g, link, around, action, take, inc: good(inc), exc: good(exc), inc_e: good(inc_e), exc_e: good(exc_e), n, order, pad: 0 }
        })
        .boxed()
}

fn main() {
    let mut s = Suite::new("C15");
    s.assume("connected graphs whose cycles can be enumerated");
    s.test("gc-cycle", (8_000, 80_000), "some but not all cycles match the constraints (girth, hamiltonian: 2 or more cycles)", strat, check);
    s.test("gc-cycle-large", (1_500, 20_000), "some but not all cycles match the constraints (girth, hamiltonian: 2 or more cycles)", large, check);
    s.test_shrink("gc-cycle-many-constraints", (600, 6_000), 30, "some but not all cycles match the constraints; 50 to 2600 (5200) excluded vertices or edges", padded, check);
    s.test_shrink("gc-cycle-huge", (200, 2_000), 30, "600 to 1100 (2100) vertices", huge, check);
    s.test_shrink("gc-cycle-hubs", (800, 8_000), 20, "some but not all cycles match the constraints (girth, hamiltonian: 2 or more cycles); one vertex of 20 to 2200 (4200) neighbours", hub, check);
    s.test_shrink("gc-cycle-deep", (24, 200), 10, "4100 to 4300 (5000) vertices", deep, check);
    s.main()
}
