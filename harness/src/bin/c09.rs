//! C09: shortest path (A*), against plain relaxation.
use gc_core::path::Path;
use gc_core::search::a_star;
use gcv::wgraph::*;
use gcv::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    wg: WG,
    s: u16,
    t: u16,
    /// 0: none, 1: exact distance, 2: half of it, 3: capped distance, 4: one edge's worth
    h: u8,
}
fn strat(t: Tier) -> BoxedStrategy<Case> {
    let g = prop_oneof![
        5 => graph(1, 9, 30, 60),
        2 => dag(2, 12, 40, 60),
        2 => layered(),
        1 => graph(10, t.pick(30, 60), 120, 300),
    ]
    .boxed();
    let range = prop_oneof![Just((0, 1i64)), Just((0, 20)), Just((0, 1000)), Just((0, 1 << 40)), Just(((1 << 55) - 3, 1 << 55))];
    range.prop_flat_map(move |(lo, hi)| (weights(g.clone(), lo, hi), any::<u16>(), any::<u16>(), 0u8..5))
        .prop_map(|(wg, s, t, h)| Case { wg, s, t, h })
        .boxed()
}
/// many routes of different edge counts between two ends
fn layered() -> BoxedStrategy<G> {
    (3usize..9, proptest::collection::vec((any::<u16>(), any::<u16>()), 0..12))
        .prop_map(|(n, extra)| {
            let mut es: Vec<E> = (1..n as u64).map(|i| (i - 1, i)).collect();
            for (a, b) in extra {
                let (a, b) = (a as u64 % n as u64, b as u64 % n as u64);
                let e = (a.min(b), a.max(b));
                if a != b && !es.contains(&e) {
                    es.push(e);
                }
            }
            G { vs: (0..n as u64).collect(), es }
        })
        .boxed()
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let m = c.wg.g.model();
    let vs: Vec<u64> = m.v.iter().copied().collect();
    if vs.is_empty() {
        return Ok(());
    }
    let s = pick(&vs, c.s);
    // mostly the far half of what is reachable
    let reach = m.dist(s);
    let mut far: Vec<u64> = reach.keys().copied().collect();
    far.sort_by_key(|v| (reach[v], *v));
    let t = if c.t % 8 == 0 { pick(&vs, c.t) } else { pick(&far[far.len() / 2..], c.t) };
    check_pair(c, &m, s, t, o)
}
fn check_pair(c: &Case, m: &M, s: u64, t: u64, o: &mut Obs) -> CheckResult {
    let w = c.wg.map();
    let real = c.wg.g.build();
    let dist = distances(m, &w, s).expect("non-negative");
    let to = distances_to(m, &w, t);
    let cap = w.values().copied().max().unwrap_or(0) / 2 + 1;
    let far = to.values().copied().max().unwrap_or(0);
    let hv = |v: u64| -> i64 {
        let d = to.get(&v).copied().unwrap_or(far + 1);
        match c.h {
            0 => 0,
            1 => d,
            2 => d / 2,
            3 => d.min(cap),
            _ => d.min(1),
        }
    };
    let got = sut(|| {
        a_star::shortest_path(
            &real,
            |_, p: &Path| c.wg.cost(&w, &p.vertices.iter().map(un).collect::<Vec<_>>()),
            |_, p: &Path| p.last().map(|v| hv(v.0)).unwrap_or(0),
            vid(s),
            vid(t),
        )
    });
    match (got, dist.get(&t)) {
        (None, None) => o.label("unreachable"),
        (None, Some(d)) => return Err(format!("no path from {} to {}, but there is one of cost {}", s, t, d)),
        (Some(p), None) => return Err(format!("path {:?} from {} to {}, which is not reachable", p, s, t)),
        (Some(p), Some(d)) => {
            let l: Vec<u64> = p.path.vertices.iter().map(un).collect();
            ensure!(m.is_walk(&l), "{:?} is not a path of the graph", l);
            ensure!(l[0] == s && *l.last().unwrap() == t, "{:?} does not go from {} to {}", l, s, t);
            let cost = c.wg.cost(&w, &l);
            ensure_eq!(p.score, cost, "score of {:?} against its cost", l);
            ensure_eq!(cost, *d, "cost of {:?} from {} to {} against the minimum", l, s, t);
            let hops = m.dist(s)[&t];
            o.label_if(l.len() - 1 > hops, "cheapest path is not the one with fewest edges");
            o.nontrivial_if(l.len() >= 3);
        }
    }
    same_sets(&real, m)?;
    Ok(())
}
// every pair of the graph, unit costs, through the stock functions
fn check_unit(g: &G, o: &mut Obs) -> CheckResult {
    let m = g.model();
    let real = g.build();
    for s in &m.v {
        let d = m.dist(*s);
        for t in &m.v {
            let got = sut(|| a_star::shortest_path(&real, a_star::one_weighted_edge, a_star::zero_heuristic, vid(*s), vid(*t)));
            match (got, d.get(t)) {
                (None, None) => {}
                (Some(p), Some(k)) => {
                    let l: Vec<u64> = p.path.vertices.iter().map(un).collect();
                    ensure!(m.is_walk(&l) && l[0] == *s && l.last() == Some(t), "{:?} is not a path from {} to {}", l, s, t);
                    ensure!(p.score == *k as i64 && l.len() == k + 1, "path {:?} of score {} from {} to {}, expected {} edges", l, p.score, s, t, k);
                    o.nontrivial_if(*k >= 2);
                }
                (a, b) => return Err(format!("from {} to {}: got {:?}, expected distance {:?}", s, t, a, b)),
            }
        }
    }
    Ok(())
}
fn ex_total(t: Tier) -> u64 {
    all_digraphs_total(t.pick(3, 4))
}
fn ex_nth(t: Tier, k: u64) -> G {
    all_digraphs_nth(t.pick(3, 4), k)
}

// all weightings in {0,1,3} of all routes in a 4-vertex DAG with 6 edges
fn exw_total(_: Tier) -> u64 {
    4u64.pow(6) * 2
}
fn exw_nth(_: Tier, k: u64) -> Case {
    let all = [(0u64, 1u64), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
    let mut g = G { vs: vec![0, 1, 2, 3], es: vec![] };
    let mut w = vec![];
    let mut r = k / 2;
    for e in all {
        match r % 4 {
            0 => {}
            x => {
                g.es.push(e);
                w.push([0, 0, 1, 3][x as usize]);
            }
        }
        r /= 4;
    }
    Case { wg: WG { g, w }, s: 0, t: u16::MAX, h: if k % 2 == 0 { 0 } else { 1 } }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Cl {
    g: G,
    s: u16,
    t: u16,
    /// the ends themselves, in graphs with too many vertices for the above
    #[serde(default, skip_serializing_if = "Option::is_none")]
    ends: Option<E>,
}
fn cl(_: Tier) -> BoxedStrategy<Cl> {
    (graph(1, 10, 26, 60), any::<u16>(), any::<u16>()).prop_map(|(g, s, t)| Cl { g, s, t, ends: None }).boxed()
}
fn check_cli(c: &Cl, o: &mut Obs) -> CheckResult {
    let m = c.g.model();
    let vs: Vec<u64> = m.v.iter().copied().collect();
    let (a, b) = c.ends.unwrap_or((pick(&vs, c.s), pick(&vs, c.t)));
    let s = cli::Scratch::new();
    s.put_graph("d", &c.g.vs, &c.g.es);
    let out = cli::cmd("gc-short-path", &s.root).args(["-p", "d"]).arg("-s").arg(a).arg("-e").arg(b).run()?;
    ensure!(out.ok(), "gc-short-path failed: {}", out.brief());
    match m.dist(a).get(&b) {
        None => {
            ensure!(out.stdout.contains("not reachable"), "{} is not reachable from {}, but: {}", b, a, out.brief());
            o.label("unreachable");
        }
        Some(k) => {
            let mut lines = out.stdout.lines();
            let head = lines.next().unwrap_or("");
            ensure!(!out.stdout.contains("not reachable"), "{} is reachable from {}, but: {}", b, a, out.brief());
            let cost = head.trim_end_matches('.').rsplit(' ').next().unwrap_or("").parse::<i64>();
            ensure!(cost == Ok(*k as i64), "cost printed for {} to {}, expected {}: {}", a, b, k, out.brief());
            let l: Vec<u64> = lines.filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse::<u64>().map_err(|_| format!("unexpected output {}", out.brief()))).collect::<Result<_, _>>()?;
            ensure!(m.is_walk(&l) && l[0] == a && l.last() == Some(&b) && l.len() == k + 1, "{:?} is not a shortest path from {} to {} ({} edges)", l, a, b, k);
            o.nontrivial_if(*k >= 2);
        }
    }
    Ok(())
}

// long paths and large graphs
fn huge(t: Tier) -> BoxedStrategy<Case> {
    weighted_case(long_graph(1_000, t.pick(2_100, 4_200), (0..11).collect(), 6, false))
}
fn deep(t: Tier) -> BoxedStrategy<Case> {
    weighted_case(long_graph(4_100, t.pick(4_600, 8_600), vec![LONG_CHAIN, LONG_CYCLE, LONG_LASSO, LONG_TWO_ROUTES], 2, false))
}
fn large(t: Tier) -> BoxedStrategy<Case> {
    let g = prop_oneof![
        4 => long_graph(16, t.pick(540, 1100), (0..11).collect(), 6, false),
        2 => long_graph(16, t.pick(300, 600), vec![LONG_CHAIN, LONG_LOCAL_DAG, LONG_CYCLE, LONG_BIDI], 60, false),
        1 => graph(60, t.pick(150, 300), 900, 1500),
    ]
    .boxed();
    weighted_case(g)
}
fn weighted_case(g: BoxedStrategy<G>) -> BoxedStrategy<Case> {
    prop_oneof![2 => Just((1i64, 1i64)), 1 => Just((0, 20)), 1 => Just((0, 1000)), 1 => Just((0, 1 << 40)), 1 => Just(((1 << 40) - 3, 1 << 40))]
        .prop_flat_map(move |(lo, hi)| (weights(g.clone(), lo, hi), any::<u16>(), prop_oneof![any::<u16>(), Just(u16::MAX), 60000u16..], 0u8..5))
        .prop_map(|(wg, s, t, h)| Case { wg, s, t, h })
        .boxed()
}
fn check_large(c: &Case, o: &mut Obs) -> CheckResult {
    let m = c.wg.g.model();
    // from the vertex that reaches most of the graph, or from any
    let s = if c.s % 4 == 0 { pick(&c.wg.g.vs, c.s) } else { deep_start(&m, c.s) };
    let reach = m.dist(s);
    let mut far: Vec<u64> = reach.keys().copied().collect();
    far.sort_by_key(|v| (reach[v], *v));
    let t = if c.t % 16 == 0 { pick(&c.wg.g.vs, c.t) } else { pick(&far[far.len() / 2..], c.t) };
    o.label_if(reach.get(&t).map(|d| *d >= 255).unwrap_or(false), "255 or more edges apart");
    check_pair(c, &m, s, t, o)?;
    // the stock functions
    let real = c.wg.g.build();
    match (sut(|| a_star::shortest_path(&real, a_star::one_weighted_edge, a_star::zero_heuristic, vid(s), vid(t))), reach.get(&t)) {
        (None, None) => {}
        (Some(p), Some(k)) => {
            let l: Vec<u64> = p.path.vertices.iter().map(un).collect();
            ensure!(m.is_walk(&l) && l[0] == s && l.last() == Some(&t), "{:?} is not a path from {} to {}", l, s, t);
            ensure!(p.score == *k as i64 && l.len() == k + 1, "path of {} vertices and score {} from {} to {}, expected {} edges", l.len(), p.score, s, t, k);
        }
        (a, b) => return Err(format!("from {} to {}: got {:?}, expected distance {:?}", s, t, a, b)),
    }
    Ok(())
}
fn cl_large(t: Tier) -> BoxedStrategy<Cl> {
    cl_of(long_graph(16, t.pick(540, 1100), (0..11).collect(), 4, false))
}
fn cl_vast(_: Tier) -> BoxedStrategy<Cl> {
    cl_of(shallow(4, false))
}
fn cl_of(g: BoxedStrategy<G>) -> BoxedStrategy<Cl> {
    (g, any::<u16>(), any::<u16>())
        .prop_map(|(g, s, t)| {
            let m = g.model();
            let vs: Vec<u64> = m.v.iter().copied().collect();
            let from = if s % 4 == 0 { pick(&vs, s) } else { deep_start(&m, s) };
            let reach = m.dist(from);
            let to = if t % 4 == 0 { pick(&vs, t) } else { *reach.iter().max_by_key(|x| (x.1, x.0)).unwrap().0 };
            let at = |x: u64| {
                let i = vs.iter().position(|v| *v == x).unwrap();
                ((i * 65536 + vs.len() - 1) / vs.len() + 1).min(65535) as u16
            };
            let ends = if vs.len() > 20_000 { Some((from, to)) } else { None };
            Cl { s: at(from), t: at(to), g, ends }
        })
        .boxed()
}

fn shallow_g(_: Tier) -> BoxedStrategy<Case> {
    weighted_case(shallow(20, false))
}
fn main() {
    let mut s = Suite::new("C09");
    s.assume("edge costs are additive and non-negative, heuristics are consistent and zero at the target; both ends are vertices of the graph");
    s.exhaustive("all-small-digraphs", "all pairs of all directed graphs on up to 3 (thorough: 4) vertices with unit costs; non-trivial: some pair at distance 2 or more", ex_total, ex_nth, check_unit);
    s.exhaustive("all-small-weightings", "all subsets of a 4-vertex DAG with costs 0, 1 or 3, with no heuristic and with the exact one; non-trivial: the path found has 2 edges or more", exw_total, exw_nth, check);
    s.test("weighted", (40_000, 800_000), "the path found has 2 edges or more", strat, check);
    s.test("gc-short-path", (600, 8_000), "the ends are 2 edges or more apart", cl, check_cli);
    s.test_shrink("large", (1_500, 16_000), 3_000, "the path found has 2 edges or more; 16 to 540 (1100) vertices", large, check_large);
    s.test_shrink("huge", (100, 1_000), 60, "the path found has 2 edges or more; 1000 to 2100 (4200) vertices", huge, check_large);
    s.test_shrink("deep", (16, 100), 20, "the path found has 2 edges or more; 4100 to 4600 (8600) vertices", deep, check_large);
    s.test_shrink("65536-vertices", (16, 100), 10, "65000 to 66500 vertices, no long path", shallow_g, check_large);
    s.test_shrink("gc-short-path-large", (150, 2_000), 300, "the ends are 2 edges or more apart; 16 to 540 (1100) vertices", cl_large, check_cli);
    s.test_shrink("gc-short-path-65536", (16, 100), 10, "65000 to 66500 vertices, no long path", cl_vast, check_cli);
    s.main()
}
