//! C10: DAG shortest and longest paths, Bellman-Ford, SPFA.
use gc_core::algorithm::{longest_path, shortest_path, topo_sort};
use gc_core::graph::{Edge, VertexId};
use gc_core::path::ScoredPath;
use gcv::wgraph::*;
use gcv::*;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    wg: WG,
    s: u16,
}

fn compare(what: &str, got: &HashMap<VertexId, ScoredPath>, want: &BTreeMap<u64, i64>, c: &WG, m: &M, s: u64) -> CheckResult {
    let w = c.map();
    for (t, d) in want {
        let Some(p) = got.get(&vid(*t)) else {
            return Err(format!("{}: nothing for vertex {}, which is reachable from {} (cost {})", what, t, s, d));
        };
        let l: Vec<u64> = p.path.vertices.iter().map(un).collect();
        ensure!(m.is_walk(&l) && l[0] == s && l.last() == Some(t), "{}: {:?} is not a path from {} to {}", what, l, s, t);
        ensure_eq!(p.score, c.cost(&w, &l), "{}: score of {:?} against its weight", what, l);
        ensure_eq!(p.score, *d, "{}: score of {:?} against the optimum", what, l);
    }
    for t in got.keys() {
        ensure!(want.contains_key(&t.0), "{}: a path to {}, which is not reachable from {}", what, t.0, s);
    }
    Ok(())
}
fn longest(m: &M, w: &HashMap<E, i64>, s: u64) -> BTreeMap<u64, i64> {
    let neg: HashMap<E, i64> = w.iter().map(|(e, x)| (*e, -x)).collect();
    distances(m, &neg, s).expect("acyclic").into_iter().map(|(v, x)| (v, -x)).collect()
}

fn check_dag(c: &Case, o: &mut Obs) -> CheckResult {
    let m = c.wg.g.model();
    let vs: Vec<u64> = m.v.iter().copied().collect();
    if vs.is_empty() || m.has_cycle() {
        o.excluded = true;
        return Ok(());
    }
    let s = pick(&vs, c.s);
    let w = c.wg.map();
    let real = c.wg.g.build();
    let f = |e: &Edge| w.get(&un_edge(e)).copied().unwrap_or(0);
    let short = distances(&m, &w, s).expect("acyclic");
    let long = longest(&m, &w, s);
    let dag = || sut(|| topo_sort::try_dag(&real)).ok_or("an acyclic graph is not taken as a DAG".to_string());
    compare("dag_shortest_paths", &run(dag()?, |d| shortest_path::dag_shortest_paths(d, f, vid(s))), &short, &c.wg, &m, s)?;
    compare("dag_longest_paths", &run(dag()?, |d| longest_path::dag_longest_paths(d, f, vid(s))), &long, &c.wg, &m, s)?;
    // on large graphs, a few of the ends
    let step = if m.v.len() > 40 { m.v.len() / 5 } else { 1 };
    for t in vs.iter().rev().step_by(step) {
        let one: HashMap<_, _> = run(dag()?, |d| shortest_path::dag_shortest_path(d, f, vid(s), vid(*t))).map(|p| (vid(*t), p)).into_iter().collect();
        let want: BTreeMap<_, _> = short.get(t).map(|d| (*t, *d)).into_iter().collect();
        compare("dag_shortest_path", &one, &want, &c.wg, &m, s)?;
        let one: HashMap<_, _> = run(dag()?, |d| longest_path::dag_longest_path(d, f, vid(s), vid(*t))).map(|p| (vid(*t), p)).into_iter().collect();
        let want: BTreeMap<_, _> = long.get(t).map(|d| (*t, *d)).into_iter().collect();
        compare("dag_longest_path", &one, &want, &c.wg, &m, s)?;
    }
    o.label_if(short.len() < m.v.len(), "some vertex unreachable");
    o.label_if(short.iter().any(|(t, d)| long[t] != *d), "shortest and longest differ");
    o.label_if(short.values().any(|d| *d < 0), "negative total");
    o.nontrivial_if(short.len() >= 3);
    Ok(())
}

fn run<D, T>(d: D, f: impl FnOnce(D) -> T) -> T {
    sut(|| f(d))
}

fn check_any(c: &Case, o: &mut Obs) -> CheckResult {
    let m = c.wg.g.model();
    let vs: Vec<u64> = m.v.iter().copied().collect();
    if vs.is_empty() {
        return Ok(());
    }
    let s = pick(&vs, c.s);
    let w = c.wg.map();
    let real = c.wg.g.build();
    let f = |e: &Edge| w.get(&un_edge(e)).copied().unwrap_or(0);
    let want = distances(&m, &w, s);
    match (sut(|| shortest_path::bellman_ford(&real, f, vid(s))), &want) {
        (None, None) => o.label("negative cycle reachable"),
        (None, Some(_)) => return Err(format!("bellman_ford returned nothing, but no negative cycle is reachable from {}", s)),
        (Some(_), None) => return Err(format!("bellman_ford returned paths although a negative cycle is reachable from {}", s)),
        (Some(got), Some(d)) => compare("bellman_ford", &got, d, &c.wg, &m, s)?,
    }
    if let Some(d) = &want {
        // termination is judged by the number of edges looked at
        let calls = Cell::new(0u64);
        let limit = 2_000_000u64;
        let got = guarded(|| {
            shortest_path::spfa(
                &real,
                |e: &Edge| {
                    calls.set(calls.get() + 1);
                    if calls.get() > limit {
                        panic!("too many steps");
                    }
                    f(e)
                },
                vid(s),
            )
        });
        match got {
            Ok(got) => compare("spfa", &got, d, &c.wg, &m, s)?,
            Err(p) if calls.get() > limit => return Err(format!("spfa did not end within {} edge visits ({})", limit, p)),
            Err(p) => return Err(format!("spfa panicked: {}", p)),
        }
        o.label_if(d.values().any(|x| *x < 0), "negative total");
        o.label_if(d.len() < m.v.len(), "some vertex unreachable");
        o.label_if(m.has_cycle(), "cyclic, no negative cycle");
        o.nontrivial_if(d.len() >= 3);
    } else {
        o.nontrivial_if(m.e.len() >= 3);
    }
    same_sets(&real, &m)?;
    Ok(())
}
fn dag_strat(t: Tier) -> BoxedStrategy<Case> {
    let g = prop_oneof![5 => dag(1, 10, 30, 60), 1 => dag(10, t.pick(24, 40), 80, 160)].boxed();
    prop_oneof![Just((-9i64, 9i64)), Just((-30, -1)), Just((0, 30)), Just((-(1i64 << 40), 1i64 << 40)), Just(((1i64 << 57) - 9, 1i64 << 57)), Just((-(1i64 << 57), 9 - (1i64 << 57)))]
        .prop_flat_map(move |(lo, hi)| (weights(g.clone(), lo, hi), any::<u16>()))
        .prop_map(|(wg, s)| Case { wg, s })
        .boxed()
}
fn any_strat(t: Tier) -> BoxedStrategy<Case> {
    let g = prop_oneof![5 => graph(1, 8, 20, 40), 1 => graph(8, t.pick(20, 40), 60, 140)].boxed();
    prop_oneof![Just((-1i64, 9i64)), Just((-3, 30)), Just((0, 30)), Just((-9, 9)), Just((-(1i64 << 30), 1i64 << 40)), Just(((1i64 << 57) - 9, 1i64 << 57))]
        .prop_flat_map(move |(lo, hi)| (weights(g.clone(), lo, hi), any::<u16>()))
        .prop_map(|(wg, s)| Case { wg, s })
        .boxed()
}
/// weights from a potential: w(a,b) = r + p(b) - p(a) with r >= 0, so cycles are never
/// negative although many edges are
fn potential(t: Tier) -> BoxedStrategy<Case> {
    (weights(graph(2, t.pick(12, 20), 40, 80), 0, 6), any::<u64>(), any::<u16>(), 0u8..3)
        .prop_map(|(mut wg, salt, s, tight)| {
            for (i, e) in wg.g.es.clone().iter().enumerate() {
                let p = |v: u64| (mix(v ^ salt) % 40) as i64;
                if tight == 0 {
                    wg.w[i] = 0;
                }
                wg.w[i] += p(e.1) - p(e.0);
            }
            // at times push one edge just below
            if tight == 2 && !wg.w.is_empty() {
                let i = (salt % wg.w.len() as u64) as usize;
                wg.w[i] -= 1;
            }
            Case { wg, s }
        })
        .boxed()
}
// all graphs on 3 vertices with weights in {-1, 0, 2} on present edges
fn ex_total(_: Tier) -> u64 {
    4u64.pow(9) * 3
}
fn ex_nth(_: Tier, k: u64) -> Case {
    let mut es = vec![];
    let mut w = vec![];
    let mut r = k / 3;
    for a in 0..3u64 {
        for b in 0..3u64 {
            if r % 4 > 0 {
                es.push((a, b));
                w.push([-1i64, 0, 2][(r % 4 - 1) as usize]);
            }
            r /= 4;
        }
    }
    Case { wg: WG { g: G { vs: vec![0, 1, 2], es }, w }, s: ((k % 3) * 65536 / 3 + 100) as u16 }
}
// all weightings of 4-vertex DAGs
fn exd_total(_: Tier) -> u64 {
    4u64.pow(6) * 4
}
fn exd_nth(_: Tier, k: u64) -> Case {
    let mut es = vec![];
    let mut w = vec![];
    let mut r = k / 4;
    for a in 0..4u64 {
        for b in a + 1..4 {
            if r % 4 > 0 {
                es.push((a, b));
                w.push([-2i64, 1, 3][(r % 4 - 1) as usize]);
            }
            r /= 4;
        }
    }
    Case { wg: WG { g: G { vs: vec![0, 1, 2, 3], es }, w }, s: ((k % 4) * 16384 + 100) as u16 }
}

fn long_case(g: BoxedStrategy<G>, ranges: Vec<(i64, i64)>) -> BoxedStrategy<Case> {
    proptest::sample::select(ranges).prop_flat_map(move |(lo, hi)| (weights(g.clone(), lo, hi), any::<u16>(), any::<u16>())).prop_map(|(wg, s, deep)| {
        let m = wg.g.model();
        // most starts reach far
        let s = if deep % 4 == 0 { s } else {
            let d = deep_start(&m, s);
            let i = m.v.iter().position(|v| *v == d).unwrap();
            ((i * 65536 + 65535) / m.v.len()) as u16
        };
        Case { wg, s }
    }).boxed()
}
const BIG: i64 = 1 << 50;
fn long_dag(t: Tier) -> BoxedStrategy<Case> {
    dag_of(20, t.pick(300, 600))
}
fn huge_dag(t: Tier) -> BoxedStrategy<Case> {
    dag_of(600, t.pick(1_100, 2_100))
}
fn deep_dag(t: Tier) -> BoxedStrategy<Case> {
    long_case(long_graph(4_100, t.pick(4_400, 5_000), vec![LONG_CHAIN, LONG_TWO_ROUTES], 3, true), vec![(-9, 9), (-300, -1), (1, 1)])
}
fn deep_any(t: Tier) -> BoxedStrategy<Case> {
    long_case(long_graph(4_100, t.pick(4_200, 4_400), vec![LONG_CHAIN, LONG_TWO_ROUTES, LONG_CYCLE], 3, false), vec![(0, 9), (1, 1)])
}
fn dag_of(lo: usize, hi: usize) -> BoxedStrategy<Case> {
    let k = vec![LONG_CHAIN, LONG_STAR_OUT, LONG_TREE_OUT, LONG_TREE_IN, LONG_TWO_ROUTES, LONG_BINARY, LONG_LOCAL_DAG];
    long_case(long_graph(lo, hi, k, 12, true), vec![(-9, 9), (-300, -1), (0, 30), (1, 1), (-BIG, BIG)])
}
fn long_any(t: Tier) -> BoxedStrategy<Case> {
    any_of(20, t.pick(280, 500))
}
fn huge_any(t: Tier) -> BoxedStrategy<Case> {
    any_of(500, t.pick(1_100, 2_100))
}
fn any_of(lo: usize, hi: usize) -> BoxedStrategy<Case> {
    let k = vec![LONG_CHAIN, LONG_CYCLE, LONG_STAR_OUT, LONG_TREE_OUT, LONG_TWO_ROUTES, LONG_BINARY, LONG_LOCAL_DAG, LONG_BIDI, LONG_LASSO];
    let ranges = vec![(0, 30), (1, 1), (0, 1), (1, BIG), (-1, 500)];
    prop_oneof![
        3 => long_case(long_graph(lo, hi, k.clone(), 8, false), ranges),
        // negative edges, no negative cycle unless one edge is pushed below
        2 => (long_case(long_graph(lo, hi, k, 8, false), vec![(0, 6), (0, 0)]), any::<u64>()).prop_map(|(mut c, salt)| {
            let p = |v: u64| (mix(v ^ salt) % 1000) as i64;
            for (i, e) in c.wg.g.es.clone().iter().enumerate() {
                c.wg.w[i] += p(e.1) - p(e.0);
            }
            if salt % 3 == 0 && !c.wg.w.is_empty() {
                let i = (salt / 4 % c.wg.w.len() as u64) as usize;
                c.wg.w[i] -= 1;
            }
            c
        }),
    ]
    .boxed()
}

/// ladders whose way round each rung pays more than everything after it: vertices enter a queue
/// again and again
fn ladder(t: Tier) -> BoxedStrategy<Case> {
    (2usize..t.pick(10, 12), any::<u64>(), 0usize..4, any::<bool>())
        .prop_map(|(n, salt, extra, shift)| {
            let mut es: Vec<(u64, u64)> = vec![];
            let mut w: Vec<i64> = vec![];
            let (mut at, mut next) = (0u64, 1u64);
            let mut depth = vec![0i64];
            for i in 0..n {
                let r = mix(salt ^ i as u64);
                let by = 1 + r % 3;
                let pay = 1i64 << (n - i);
                let end = next + by;
                depth.resize(end as usize + 1, 0);
                let mut rung = vec![((at, end), 0i64)];
                let mut last = at;
                for k in 0..by {
                    rung.push(((last, next + k), if k == 0 { -pay } else { 0 }));
                    depth[(next + k) as usize] = depth[last as usize] + 1;
                    last = next + k;
                }
                rung.push(((last, end), 0));
                depth[end as usize] = depth[last as usize] + 1;
                if r & 8 == 0 {
                    rung.rotate_left(1);
                }
                for (e, x) in rung {
                    es.push(e);
                    w.push(x);
                }
                at = end;
                next = end + 1;
            }
            for k in 0..extra {
                // back to where it cannot pay
                let r = mix(salt.rotate_left(7) ^ k as u64);
                let e = (r % next, (r >> 20) % next);
                if !es.contains(&e) {
                    es.push(e);
                    w.push(if e.0 < e.1 { 1 } else { 1 << (n + 2) });
                }
            }
            if shift {
                // the same with weights of zero and more
                for (i, e) in es.iter().enumerate() {
                    w[i] += (depth[e.1 as usize] - depth[e.0 as usize]) * (1 << (n + 1));
                }
            }
            let vs: Vec<u64> = (0..next).collect();
            Case { wg: WG { g: G { vs, es }, w }, s: 0 }
        })
        .boxed()
}

fn hub_dag(t: Tier) -> BoxedStrategy<Case> {
    long_case(hubs(dag(3, 7, 10, 12), 20, t.pick(3_000, 6_000), vec![HUB_OUT, HUB_ALTERNATING, HUB_IN]).prop_map(|h| h.g).boxed(), vec![(-9, 9), (0, 30), (1, 1), (-BIG, BIG)])
}
fn hub_any(t: Tier) -> BoxedStrategy<Case> {
    long_case(hubs(graph(2, 7, 12, 14), 20, t.pick(1_300, 2_100), vec![HUB_OUT, HUB_OUT, HUB_ALTERNATING, HUB_IN, HUB_MIDS, HUB_BIDI]).prop_map(|h| h.g).boxed(), vec![(0, 30), (1, 1), (0, 1), (1, BIG), (-1, 500)])
}
fn shallow_dag(_: Tier) -> BoxedStrategy<Case> {
    long_case(shallow(12, true), vec![(-9, 9), (-300, -1), (0, 30), (1, 1), (-BIG, BIG)])
}
fn main() {
    let mut s = Suite::new("C10");
    s.assume("the start is a vertex of the graph and total weights fit in 64 bits; spfa is documented not to end on reachable negative cycles and is not run on them");
    s.exhaustive("all-3-vertex-weighted", "all directed graphs on 3 vertices with weights -1, 0 or 2, from every start (Bellman-Ford, SPFA); non-trivial: 3 vertices reachable, or a negative cycle among 3 edges", ex_total, ex_nth, check_any);
    s.exhaustive("all-4-vertex-dags", "all 4-vertex DAGs with weights -2, 1 or 3, from every start; non-trivial: 3 vertices reachable", exd_total, exd_nth, check_dag);
    s.test("dag", (25_000, 500_000), "3 or more vertices reachable from the start", dag_strat, check_dag);
    s.test("any-graph", (40_000, 600_000), "3 or more vertices reachable, or a negative cycle in a graph of 3 edges", any_strat, check_any);
    s.test("negative-edges-no-negative-cycle", (25_000, 500_000), "3 or more vertices reachable", potential, check_any);
    s.test("large-dag", (4_000, 60_000), "3 or more vertices reachable from the start", long_dag, check_dag);
    s.test("large-any-graph", (4_000, 60_000), "3 or more vertices reachable, or a negative cycle", long_any, check_any);
    s.test_shrink("huge-dag", (100, 1_000), 60, "600 to 1100 (2100) vertices", huge_dag, check_dag);
    s.test_shrink("huge-any-graph", (100, 1_000), 60, "500 to 1100 (2100) vertices", huge_any, check_any);
    s.test_shrink("hubs-dag", (300, 3_000), 20, "3 or more vertices reachable; one vertex of 20 to 3000 (6000) neighbours", hub_dag, check_dag);
    s.test_shrink("hubs-any-graph", (100, 1_000), 20, "3 or more vertices reachable, or a negative cycle; one vertex of 20 to 1300 (2100) neighbours", hub_any, check_any);
    s.test_shrink("deep-dag", (12, 60), 10, "4100 to 4400 (5000) vertices", deep_dag, check_dag);
    s.test_shrink("deep-any-graph", (8, 40), 6, "4100 to 4200 (4400) vertices", deep_any, check_any);
    s.test("ladders", (3_000, 30_000), "3 or more vertices reachable, or a negative cycle", ladder, check_any);
    s.test_shrink("65536-dag", (16, 100), 10, "65000 to 66500 vertices, no long path", shallow_dag, check_dag);
    s.main()
}
