//! C16: Hamiltonian paths, against backtracking over all simple paths.
use gc_core::algorithm::hamiltonian;
use gc_core::path::Path;
use gcv::*;
use std::collections::BTreeSet;

fn check(g: &G, o: &mut Obs) -> CheckResult {
    let m = g.model();
    let n = m.v.len();
    let Some((want, total)) = m.hamiltonian_paths(600_000) else {
        o.excluded = true;
        return Ok(());
    };
    let real = g.build();
    let list = |p: &Path| p.vertices.iter().map(un).collect::<Vec<u64>>();
    let got: Vec<Vec<u64>> = sut(|| hamiltonian::iter_hamiltonian_paths(&real).take(want.len() + 1).map(|p| list(&p)).collect());
    let mut seen = BTreeSet::new();
    for p in &got {
        ensure!(want.contains(p), "{:?} is listed, but is not a Hamiltonian path", p);
        ensure!(seen.insert(p.clone()), "{:?} is listed twice", p);
    }
    if let Some(x) = want.difference(&seen).next() {
        return Err(format!("Hamiltonian path {:?} is not listed", x));
    }
    match sut(|| hamiltonian::first_path(&real)) {
        None => ensure!(want.is_empty(), "first_path finds none of {} Hamiltonian paths", want.len()),
        Some(p) => ensure!(want.contains(&list(&p)), "first_path {:?} is not a Hamiltonian path", list(&p)),
    }
    ensure_eq!(sut(|| hamiltonian::is_hamiltonian(&real)), n == 0 || !want.is_empty(), "is_hamiltonian");
    o.label_if(!want.is_empty(), "has one");
    o.label_if(want.is_empty(), "has none");
    o.label_if(n <= 1, "at most 1 vertex");
    o.nontrivial_if(n >= 3 && (!want.is_empty() || total > 3 * n));
    same_sets(&real, &m)
}
fn strat(t: Tier) -> BoxedStrategy<G> {
    prop_oneof![
        3 => graph(0, 6, 16, 24),
        2 => graph_shapes(3, 7, 14, 18, vec![2, 3, 8, 9, 10]),
        1 => graph_shapes(5, t.pick(8, 9), 10, 16, vec![1, 2, 3, 6, 7]),
    ]
    .boxed()
}
fn ex_total(_: Tier) -> u64 {
    all_digraphs_total(4)
}
fn ex_nth(_: Tier, k: u64) -> G {
    all_digraphs_nth(4, k)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct W {
    g: G,
    start: u16,
    steps: Vec<u16>,
    avoid: bool,
}
/// a walk of the graph, mostly without repeats
fn check_walk(c: &W, o: &mut Obs) -> CheckResult {
    let m = c.g.model();
    let vs: Vec<u64> = m.v.iter().copied().collect();
    let mut p: Vec<u64> = vec![];
    if !vs.is_empty() {
        p.push(pick(&vs, c.start));
        for r in &c.steps {
            let all: Vec<u64> = m.succ(*p.last().unwrap()).collect();
            let fresh: Vec<u64> = all.iter().copied().filter(|v| !p.contains(v)).collect();
            let from = if c.avoid || r % 8 != 0 { &fresh } else { &all };
            if from.is_empty() {
                break;
            }
            p.push(pick(from, *r));
        }
    }
    let want = p.iter().collect::<BTreeSet<_>>().len() == p.len() && p.len() == m.v.len();
    let path = Path::from(&p.iter().map(|x| vid(*x)).collect());
    ensure_eq!(hamiltonian::is_path_hamiltonian(&path, &c.g.build()), want, "is_path_hamiltonian({:?})", p);
    o.label(if want { "is Hamiltonian" } else { "is not" });
    o.label_if(!want && p.len() == m.v.len(), "right length, repeats a vertex");
    o.label_if(!want && p.iter().collect::<BTreeSet<_>>().len() == m.v.len(), "visits all, repeats a vertex");
    o.nontrivial_if(p.len() >= 3 && p.len() >= m.v.len());
    Ok(())
}
fn walks(_: Tier) -> BoxedStrategy<W> {
    (
        prop_oneof![2 => graph_shapes(1, 6, 14, 20, vec![2, 3, 4, 9]), 1 => graph(0, 6, 12, 16)],
        any::<u16>(),
        proptest::collection::vec(any::<u16>(), 0..9),
        any::<bool>(),
    )
        .prop_map(|(g, start, steps, avoid)| W { g, start, steps, avoid })
        .boxed()
}

fn large(t: Tier) -> BoxedStrategy<G> {
    let k = vec![LONG_CHAIN, LONG_CYCLE, LONG_BIDI, LONG_LASSO];
    prop_oneof![
        6 => long_graph(9, 70, k.clone(), 2, false),
        1 => long_graph(9, t.pick(280, 400), k, 1, false),
        3 => long_graph(9, t.pick(280, 400), vec![LONG_CHAIN], 0, true),
    ].boxed()
}
/// a chain whose first vertex leads to all the others too
fn hub(t: Tier) -> BoxedStrategy<G> {
    (sizes(20, t.pick(520, 700)), 0usize..3, 0u8..8, any::<u64>())
        .prop_map(|(n, before, mode, salt)| {
            let ids = ids_for(mode, n, salt);
            let mut es: Vec<E> = (1..n).map(|i| (ids[i - 1], ids[i])).collect();
            let more: Vec<E> = (before + 2..n).map(|i| (ids[before], ids[i])).collect();
            es = match salt % 4 {
                0 => es.into_iter().chain(more).collect(),
                1 => more.into_iter().chain(es).collect(),
                _ => {
                    es.extend(more);
                    perm(es.len(), salt).into_iter().map(|i| es[i]).collect()
                }
            };
            G { vs: ids, es }
        })
        .boxed()
}
fn huge(t: Tier) -> BoxedStrategy<G> {
    long_graph(500, t.pick(1_100, 1_500), vec![LONG_CHAIN], 0, true)
}
/// a cycle has a Hamiltonian path from wherever the search starts
fn deep(t: Tier) -> BoxedStrategy<G> {
    long_graph(4_100, t.pick(4_600, 8_600), vec![LONG_CYCLE], 0, false).prop_map(|mut g| {
        // no isolated vertices
        let on: BTreeSet<u64> = g.es.iter().flat_map(|e| [e.0, e.1]).collect();
        g.vs.retain(|v| on.contains(v));
        g
    }).boxed()
}
fn check_deep(g: &G, o: &mut Obs) -> CheckResult {
    let m = g.model();
    let real = g.build();
    let n = m.v.len();
    let one = |name: &str, p: Option<Path>| -> CheckResult {
        let Some(p) = p else { return Err(format!("{} finds no Hamiltonian path in a cycle of {} vertices", name, n)) };
        let l: Vec<u64> = p.vertices.iter().map(un).collect();
        ensure!(m.is_walk(&l) && l.len() == n && l.iter().collect::<BTreeSet<_>>().len() == n, "{}: not a Hamiltonian path of a cycle of {} vertices: {} vertices", name, n, l.len());
        ensure!(hamiltonian::is_path_hamiltonian(&p, &real), "{}: its path is not recognised", name);
        Ok(())
    };
    one("first_path", sut(|| hamiltonian::first_path(&real)))?;
    one("iter_hamiltonian_paths", sut(|| hamiltonian::iter_hamiltonian_paths(&real).next()))?;
    ensure!(sut(|| hamiltonian::is_hamiltonian(&real)), "a cycle of {} vertices is not called Hamiltonian", n);
    o.nontrivial_if(n >= 4_000);
    Ok(())
}
fn long_walks(t: Tier) -> BoxedStrategy<W> {
    walks_of(9, t.pick(400, 700))
}
fn huge_walks(t: Tier) -> BoxedStrategy<W> {
    walks_of(1_000, t.pick(4_200, 9_000))
}
fn walks_of(lo: usize, hi: usize) -> BoxedStrategy<W> {
    (
        long_graph(lo, hi, vec![LONG_CHAIN, LONG_CYCLE, LONG_CYCLE, LONG_BIDI, LONG_LASSO], 3, false),
        any::<u16>(),
        proptest::collection::vec(any::<u16>(), 1..40),
        0u8..5,
    )
        .prop_map(|(g, start, raw, k)| {
            let m = g.model();
            let d = deep_start(&m, start);
            let i = m.v.iter().position(|v| *v == d).unwrap();
            let n = m.v.len();
            let len = if k < 3 { n } else { n + k as usize - 4 };
            let steps = (0..len).map(|i| raw[i % raw.len()] | 1).collect::<Vec<u16>>();
            let mut steps = steps;
            // free to go anywhere
            if k == 2 || k == 4 {
                let from = if raw[0] % 3 == 0 { 0 } else { steps.len() - 1 - raw[0] as usize % steps.len().min(5) };
                for s in &mut steps[from..] {
                    *s &= !7;
                }
            }
            W { g, start: if k == 1 { start } else { ((i * 65536 + 65535) / n) as u16 }, steps, avoid: false }
        })
        .boxed()
}

fn vast_walks(_: Tier) -> BoxedStrategy<W> {
    walks_of(65_000, 66_500)
}
fn main() {
    let mut s = Suite::new("C16");
    s.assume("is_path_hamiltonian is asked about walks of the graph, as its documentation requires");
    s.exhaustive("all-small-digraphs", "all digraphs with up to 4 vertices, self-loops included; non-trivial: 3 or more vertices and a Hamiltonian path or many simple paths", ex_total, ex_nth, check);
    s.test("paths", (60_000, 400_000), "3 or more vertices and a Hamiltonian path or many simple paths", strat, check);
    s.test("recognise", (150_000, 600_000), "walk of at least 3 and at least as many vertices as the graph has", walks, check_walk);
    s.test("large", (2_000, 20_000), "3 or more vertices and a Hamiltonian path or many simple paths", large, check);
    s.test("recognise-long", (6_000, 60_000), "walk of at least as many vertices as the graph has", long_walks, check_walk);
    s.test_shrink("huge", (40, 300), 60, "500 to 1100 (1500) vertices", huge, check);
    s.test_shrink("hubs", (60, 400), 20, "a chain whose first vertex has 20 to 520 (700) successors", hub, check);
    s.test_shrink("deep", (12, 100), 20, "a cycle of 4100 to 4600 (8600) vertices", deep, check_deep);
    s.test_shrink("recognise-huge", (300, 3_000), 60, "walk of at least as many vertices as the graph has: 1000 to 4200 (9000)", huge_walks, check_walk);
    s.test_shrink("recognise-65536", (16, 100), 10, "walk of at least as many vertices as the graph has: 65000 to 66500", vast_walks, check_walk);
    s.main()
}
