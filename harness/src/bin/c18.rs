//! C18: traversals, against reachability, distances, depth-first replay and simple paths.
use gc_core::iter::{iter_best, iter_breadth, iter_depth};
use gc_core::path::Path;
use gcv::wgraph::*;
use gcv::*;
use std::collections::BTreeSet;

/// every vertex reachable from the first one, once; `limit` cuts off endless iteration
fn visits(m: &M, name: &str, l: &[u64], s: u64) -> CheckResult {
    ensure!(l.first() == Some(&s), "{} from {} starts with {:?}", name, s, l.first());
    let set: BTreeSet<u64> = l.iter().copied().collect();
    ensure!(set.len() == l.len(), "{} from {} visits a vertex twice: {:?}", name, s, l);
    let want: BTreeSet<u64> = m.dist(s).keys().copied().collect();
    ensure!(set == want, "{} from {} visits {:?}, reachable are {:?}", name, s, set, want);
    Ok(())
}
fn breadth(m: &M, l: &[u64], s: u64) -> CheckResult {
    visits(m, "breadth-first", l, s)?;
    let d = m.dist(s);
    for w in l.windows(2) {
        ensure!(d[&w[0]] <= d[&w[1]], "breadth-first from {}: {} (distance {}) comes before {} (distance {}) in {:?}", s, w[0], d[&w[0]], w[1], d[&w[1]], l);
    }
    Ok(())
}
/// replays a depth-first search: the next vertex has to be an unvisited successor of the
/// deepest vertex that still has one
fn depth(m: &M, l: &[u64], s: u64) -> CheckResult {
    visits(m, "depth-first", l, s)?;
    let mut seen = BTreeSet::from([s]);
    let mut stack = vec![s];
    for x in &l[1..] {
        loop {
            let Some(top) = stack.last() else {
                return Err(format!("depth-first from {}: {} comes out of order in {:?}", s, x, l));
            };
            if m.succ(*top).any(|y| !seen.contains(&y)) {
                ensure!(m.e.contains(&(*top, *x)), "depth-first from {}: {} comes while {} has unvisited successors, in {:?}", s, x, top, l);
                break;
            }
            stack.pop();
        }
        seen.insert(*x);
        stack.push(*x);
    }
    Ok(())
}
fn vertices(g: &G, o: &mut Obs) -> CheckResult {
    let m = g.model();
    let real = g.build();
    let limit = m.v.len() + 2;
    let seq = |it: &mut dyn Iterator<Item = gc_core::graph::VertexId>| -> Vec<u64> { sut(|| it.take(limit).map(|v| v.0).collect()) };
    for s in &starts(&m) {
        breadth(&m, &seq(&mut iter_breadth::bfs_iter_from(&real, vid(*s))), *s)?;
        depth(&m, &seq(&mut iter_depth::dfs_iter_from(&real, vid(*s))), *s)?;
        let d = m.dist(*s);
        o.nontrivial_if(d.len() >= 4 && m.e.iter().filter(|e| d.contains_key(&e.0)).count() >= d.len());
    }
    let b = seq(&mut iter_breadth::bfs_iter(&real));
    let d = seq(&mut iter_depth::dfs_iter(&real));
    if m.v.is_empty() {
        ensure!(b.is_empty() && d.is_empty(), "traversal of the empty graph visits {:?} {:?}", b, d);
    } else {
        for (name, l) in [("bfs_iter", &b), ("dfs_iter", &d)] {
            match l.first() {
                Some(x) if m.v.contains(x) => {}
                x => return Err(format!("{} of a graph that is not empty starts with {:?}", name, x)),
            }
        }
        breadth(&m, &b, b[0])?;
        depth(&m, &d, d[0])?;
    }
    same_sets(&real, &m)
}
fn paths(g: &G, o: &mut Obs) -> CheckResult {
    let m = g.model();
    let real = g.build();
    for s in &starts(&m) {
        let Some(want) = m.simple_paths(*s, 3_000.max(2 * m.v.len())) else {
            o.excluded = true;
            return Ok(());
        };
        let list = |it: &mut dyn Iterator<Item = Path>| -> Vec<Vec<u64>> { sut(|| it.take(want.len() + 1).map(|p| p.vertices.iter().map(un).collect()).collect()) };
        let b = list(&mut iter_breadth::bfs_path_iter_from(&real, vid(*s)));
        let d = list(&mut iter_depth::dfs_iter_path_from(&real, vid(*s)));
        for (name, l) in [("breadth-first paths", &b), ("depth-first paths", &d)] {
            let mut seen = BTreeSet::new();
            for p in l {
                ensure!(want.contains(p), "{} from {}: {:?} is not a simple path", name, s, p);
                ensure!(seen.insert(p), "{} from {}: {:?} is listed twice", name, s, p);
            }
            if let Some(x) = want.iter().find(|x| !seen.contains(x)) {
                return Err(format!("{} from {}: {:?} is not listed", name, s, x));
            }
        }
        for w in b.windows(2) {
            ensure!(w[0].len() <= w[1].len(), "breadth-first paths from {}: {:?} comes before {:?}", s, w[0], w[1]);
        }
        let mut stack: Vec<&Vec<u64>> = vec![];
        for p in &d {
            while let Some(top) = stack.last() {
                if top[..] == p[..p.len() - 1] {
                    break;
                }
                stack.pop();
            }
            ensure!(p.len() == 1 || !stack.is_empty(), "depth-first paths from {}: {:?} does not come right after the path it extends, or its extensions", s, p);
            stack.push(p);
        }
        o.nontrivial_if(want.len() >= 6);
        o.label_if(want.len() >= 30, "30 or more paths");
    }
    same_sets(&real, &m)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Best {
    wg: WG,
    s: u16,
    /// 0: additive cost; others: some score of the path as a whole
    score: u8,
    /// the start itself, in graphs with too many vertices for the above
    #[serde(default, skip_serializing_if = "Option::is_none")]
    from: Option<u64>,
}
fn best(c: &Best, o: &mut Obs) -> CheckResult {
    let m = c.wg.g.model();
    let vs: Vec<u64> = m.v.iter().copied().collect();
    if vs.is_empty() {
        o.excluded = true;
        return Ok(());
    }
    let s = c.from.unwrap_or_else(|| pick(&vs, c.s));
    let w = c.wg.map();
    let real = c.wg.g.build();
    let score = |l: &[u64]| -> i64 {
        match c.score {
            0 => c.wg.cost(&w, l),
            1 => l.len() as i64,
            2 => -c.wg.cost(&w, l),
            _ => (l.iter().fold(17u64, |h, v| mix(h ^ *v)) % 1000) as i64 - 500,
        }
    };
    let list = |p: &Path| p.vertices.iter().map(un).collect::<Vec<u64>>();
    let got: Vec<(Vec<u64>, i64)> = sut(|| {
        iter_best::best_iter_from(&real, |_, p: &Path| score(&list(p)), vid(s)).take(vs.len() + 2).map(|p| (list(&p.path), p.score)).collect()
    });
    let ends: Vec<u64> = got.iter().map(|p| *p.0.last().unwrap()).collect();
    visits(&m, "best-first", &ends, s)?;
    for (l, k) in &got {
        ensure!(m.is_walk(l) && l[0] == s, "best-first from {}: {:?} is not a path from it", s, l);
        ensure_eq!(*k, score(l), "score of {:?}", l);
    }
    if c.score == 0 {
        let d = distances(&m, &w, s).expect("not negative");
        for (l, k) in &got {
            ensure_eq!(*k, d[l.last().unwrap()], "cost of {:?} against the minimum", l);
        }
        for p in got.windows(2) {
            ensure!(p[0].1 <= p[1].1, "best-first from {}: cost {} comes before {}", s, p[0].1, p[1].1);
        }
        let hops = m.dist(s);
        o.label_if(got.iter().any(|(l, _)| l.len() - 1 > hops[l.last().unwrap()]), "cheapest path is not the one with fewest edges");
    } else {
        o.label("score that is not a cost");
    }
    o.nontrivial_if(got.len() >= 4);
    same_sets(&real, &m)
}
fn g_strat(t: Tier) -> BoxedStrategy<G> {
    prop_oneof![4 => graph(0, 9, 24, 40), 1 => graph(8, t.pick(24, 60), 80, 160)].boxed()
}
fn p_strat(t: Tier) -> BoxedStrategy<G> {
    prop_oneof![3 => graph(1, 6, 14, 18), 1 => dag(3, t.pick(9, 11), 20, 22), 1 => graph_shapes(3, 8, 8, 14, vec![2, 4, 8, 10])].boxed()
}
fn b_strat(t: Tier) -> BoxedStrategy<Best> {
    let g = prop_oneof![4 => graph(1, 9, 24, 40), 2 => dag(3, 10, 30, 40), 1 => graph(8, t.pick(24, 60), 80, 160)].boxed();
    prop_oneof![Just((0, 3i64)), Just((0, 30)), Just((0, 1 << 40)), Just(((1 << 55) - 3, 1 << 55))]
        .prop_flat_map(move |(lo, hi)| (weights(g.clone(), lo, hi), any::<u16>(), prop_oneof![5 => Just(0u8), 1 => 1u8..4]))
        .prop_map(|(wg, s, score)| Best { wg, s, score, from: None })
        .boxed()
}
fn ex_total(_: Tier) -> u64 {
    all_digraphs_total(4)
}
fn ex_nth(_: Tier, k: u64) -> G {
    all_digraphs_nth(4, k)
}
const HUBS: [u8; 6] = [HUB_OUT, HUB_OUT, HUB_ALTERNATING, HUB_IN, HUB_MIDS, HUB_BIDI];
fn hub_v(t: Tier) -> BoxedStrategy<G> {
    hubs(graph(2, 8, 14, 18), 20, t.pick(5_000, 10_000), HUBS.to_vec()).prop_map(|h| h.g).boxed()
}
fn hub_p(t: Tier) -> BoxedStrategy<G> {
    hubs(prop_oneof![dag(3, 6, 8, 9), graph(2, 4, 6, 6)].boxed(), 20, t.pick(2_200, 4_400), HUBS.to_vec()).prop_map(|h| h.g).boxed()
}
fn hub_b(t: Tier) -> BoxedStrategy<Best> {
    deep_best(hubs(graph(2, 8, 14, 18), 20, t.pick(2_200, 4_400), HUBS.to_vec()).prop_map(|h| h.g).boxed())
}
fn large_v(t: Tier) -> BoxedStrategy<G> {
    long_graph(20, t.pick(500, 1100), (0..=10).collect(), 30, false)
}
fn huge_v(t: Tier) -> BoxedStrategy<G> {
    long_graph(1_000, t.pick(10_000, 20_000), (0..=10).collect(), 30, false)
}
fn huge_b(t: Tier) -> BoxedStrategy<Best> {
    best_of(1_000, t.pick(2_100, 4_200))
}
fn large_p(t: Tier) -> BoxedStrategy<G> {
    paths_of(20, t.pick(300, 500))
}
fn huge_p(t: Tier) -> BoxedStrategy<G> {
    paths_of(500, t.pick(1_100, 2_100))
}
fn paths_of(lo: usize, hi: usize) -> BoxedStrategy<G> {
    let k = vec![LONG_CHAIN, LONG_CYCLE, LONG_STAR_OUT, LONG_STAR_IN, LONG_TREE_OUT, LONG_TREE_IN, LONG_TWO_ROUTES, LONG_BINARY, LONG_BIDI, LONG_LASSO];
    long_graph(lo, hi, k, 2, false)
}
fn large_b(t: Tier) -> BoxedStrategy<Best> {
    best_of(20, t.pick(400, 800))
}
fn best_of(lo: usize, hi: usize) -> BoxedStrategy<Best> {
    deep_best(long_graph(lo, hi, (0..=10).collect(), 30, false))
}
fn deep_best(g: BoxedStrategy<G>) -> BoxedStrategy<Best> {
    prop_oneof![Just(0i64), Just(3), Just(30), Just(1 << 50)]
        .prop_flat_map(move |hi| (weights(g.clone(), 0, hi), any::<u16>(), prop_oneof![5 => Just(0u8), 1 => 1u8..4]))
        .prop_map(|(wg, s, score)| {
            let m = wg.g.model();
            let d = deep_start(&m, s);
            let at = m.v.iter().position(|v| *v == d).unwrap();
            Best { s: if s % 4 == 0 { s } else { ((at * 65536 + 65535) / m.v.len()) as u16 }, from: if m.v.len() > 20_000 { Some(d) } else { None }, wg, score }
        })
        .boxed()
}
/// all vertices of a small graph, a few of a large one
fn starts(m: &M) -> Vec<u64> {
    let vs: Vec<u64> = m.v.iter().copied().collect();
    if vs.len() <= 64 {
        return vs;
    }
    let n = vs.len();
    let mut out: std::collections::HashMap<u64, usize> = Default::default();
    m.e.iter().for_each(|e| *out.entry(e.0).or_default() += 1);
    let most = out.into_iter().max_by_key(|x| (x.1, x.0)).map(|x| x.0).unwrap_or(vs[0]);
    BTreeSet::from([deep_start(m, 0), deep_start(m, 20_000), vs[0], vs[n / 2], vs[n - 1], most]).into_iter().collect()
}

/// one way onwards only: the simple paths are the beginnings of that way
fn deep_p(t: Tier) -> BoxedStrategy<G> {
    long_graph(4_100, t.pick(8_600, 10_500), vec![LONG_CHAIN, LONG_CYCLE, LONG_LASSO], 0, false)
}
fn deep_paths(g: &G, o: &mut Obs) -> CheckResult {
    let m = g.model();
    let real = g.build();
    let s = deep_start(&m, 0);
    let next: std::collections::HashMap<u64, u64> = m.e.iter().copied().collect();
    let mut way = vec![s];
    let mut seen = BTreeSet::from([s]);
    while let Some(x) = next.get(way.last().unwrap()).filter(|x| seen.insert(**x)) {
        way.push(*x);
    }
    let each = |name: &str, it: &mut dyn Iterator<Item = Path>| -> CheckResult {
        for k in 1..=way.len() + 1 {
            let got = sut(|| it.next());
            let right = match &got {
                None => k > way.len(),
                Some(p) => k <= way.len() && p.vertices.len() == k && p.vertices.iter().map(un).eq(way[..k].iter().copied()),
            };
            ensure!(right, "{} from {}: path number {} of {} has {:?} vertices", name, s, k, way.len(), got.map(|p| p.vertices.len()));
        }
        Ok(())
    };
    each("breadth-first paths", &mut iter_breadth::bfs_path_iter_from(&real, vid(s)))?;
    each("depth-first paths", &mut iter_depth::dfs_iter_path_from(&real, vid(s)))?;
    o.nontrivial_if(way.len() >= 4_000);
    Ok(())
}
fn shallow_v(_: Tier) -> BoxedStrategy<G> {
    prop_oneof![2 => shallow(30, false), 1 => long_graph(65_000, 66_500, vec![LONG_CHAIN, LONG_CYCLE, LONG_LASSO], 3, false)].boxed()
}
fn shallow_p(_: Tier) -> BoxedStrategy<G> {
    shallow(2, false)
}
fn shallow_b(_: Tier) -> BoxedStrategy<Best> {
    deep_best(shallow(30, false))
}
fn main() {
    let mut s = Suite::new("C18");
    s.assume("traversals start from vertices of the graph");
    s.exhaustive("all-small-digraphs", "all digraphs with up to 4 vertices, all starts; non-trivial: 4 vertices reachable over at least as many edges", ex_total, ex_nth, vertices);
    s.exhaustive("all-small-digraphs-paths", "all digraphs with up to 4 vertices, all starts; non-trivial: 6 or more simple paths from one vertex", ex_total, ex_nth, paths);
    s.test("vertices", (80_000, 500_000), "4 vertices reachable over at least as many edges", g_strat, vertices);
    s.test("paths", (60_000, 300_000), "6 or more simple paths from one vertex", p_strat, paths);
    s.test("best-first", (150_000, 600_000), "4 or more vertices visited", b_strat, best);
    s.test("vertices-large", (3_000, 40_000), "4 vertices reachable over at least as many edges", large_v, vertices);
    s.test("paths-large", (1_500, 20_000), "6 or more simple paths from one vertex", large_p, paths);
    s.test_shrink("paths-huge", (60, 600), 60, "500 to 1100 (2100) vertices", huge_p, paths);
    s.test_shrink("paths-deep", (12, 100), 20, "a path of 4000 or more vertices", deep_p, deep_paths);
    s.test("best-first-large", (4_000, 40_000), "4 or more vertices visited", large_b, best);
    s.test_shrink("vertices-huge", (100, 1_000), 60, "1000 to 10000 (20000) vertices", huge_v, vertices);
    s.test_shrink("best-first-huge", (100, 1_000), 60, "1000 to 2100 (4200) vertices", huge_b, best);
    s.test_shrink("vertices-hubs", (100, 1_000), 30, "4 vertices reachable over at least as many edges; one vertex of 20 to 5000 (10000) neighbours", hub_v, vertices);
    s.test_shrink("paths-hubs", (1_000, 10_000), 30, "6 or more simple paths from one vertex; one vertex of 20 to 2200 (4400) neighbours", hub_p, paths);
    s.test_shrink("best-first-hubs", (600, 6_000), 30, "4 or more vertices visited; one vertex of 20 to 2200 (4400) neighbours", hub_b, best);
    s.test_shrink("65536-vertices", (16, 100), 10, "65000 to 66500 vertices", shallow_v, vertices);
    s.test_shrink("65536-paths", (16, 100), 10, "65000 to 66500 vertices, no long path", shallow_p, paths);
    s.test_shrink("65536-best-first", (16, 100), 10, "65000 to 66500 vertices, no long path", shallow_b, best);
    s.main()
}
