//! C17: maximum flow, against feasibility of the flow and the minimum over all cuts.
use gc_core::algorithm::max_flow::max_flow;
use gc_core::graph::Edge;
use gcv::wgraph::*;
use gcv::*;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    wg: WG,
    s: u16,
    t: u16,
    /// 0: capacities as given; otherwise one edge takes what the others leave of 2^64 - 1
    /// (1: all of it, 2: half of it, and another edge the other half)
    #[serde(default)]
    wide: u8,
    /// the ends themselves, in graphs with too many vertices for the above
    #[serde(default, skip_serializing_if = "Option::is_none")]
    ends: Option<E>,
}
impl Case {
    fn caps(&self) -> HashMap<E, u64> {
        let mut cap: HashMap<E, u64> = self.wg.map().into_iter().map(|(e, w)| (e, w as u64)).collect();
        let es = &self.wg.g.es;
        if self.wide > 0 && !es.is_empty() {
            let i = self.s as usize % es.len();
            let j = if self.wide == 2 { self.t as usize % es.len() } else { i };
            let rest: u64 = cap.iter().filter(|(e, _)| **e != es[i] && **e != es[j]).map(|x| *x.1).sum();
            let left = u64::MAX - rest;
            if i == j {
                cap.insert(es[i], left - self.t as u64 % 3);
            } else {
                cap.insert(es[i], left / 2 + left % 2);
                cap.insert(es[j], left / 2);
            }
        }
        cap
    }
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let m = c.wg.g.model();
    let vs: Vec<u64> = m.v.iter().copied().collect();
    if vs.len() < 2 {
        o.excluded = true;
        return Ok(());
    }
    let s = if let Some(e) = c.ends {
        e.0
    } else if c.s % 4 == 0 {
        pick(&vs, c.s)
    } else {
        let mut by: Vec<u64> = vs.clone();
        by.sort_by_cached_key(|v| (std::cmp::Reverse(m.dist(*v).len()), *v));
        pick(&by[..by.len().div_ceil(2)], c.s)
    };
    let rest: Vec<u64> = vs.iter().copied().filter(|v| *v != s).collect();
    // mostly the far half of what is reachable
    let reach = m.dist(s);
    let mut far: Vec<u64> = rest.iter().copied().filter(|v| reach.contains_key(v)).collect();
    far.sort_by_key(|v| (reach[v], *v));
    let t = if let Some(e) = c.ends {
        e.1
    } else if c.t % 8 == 0 || far.is_empty() { pick(&rest, c.t) } else { pick(&far[far.len() / 2..], c.t) };
    let cap = c.caps();
    let real = c.wg.g.build();
    let (value, flows) = sut(|| max_flow(&real, |e: &Edge| cap.get(&un_edge(e)).copied().unwrap_or(0), vid(s), vid(t)));
    let keys: BTreeSet<E> = flows.keys().map(un_edge).collect();
    ensure_eq!(keys, m.e, "edges of the flow");
    let mut net: HashMap<u64, i128> = HashMap::new();
    for (e, (f, k)) in &flows {
        let e = un_edge(e);
        ensure_eq!(*k, cap[&e], "capacity reported for {:?}", e);
        ensure!(f <= k, "flow {} of {:?} exceeds its capacity {}", f, e, k);
        *net.entry(e.0).or_default() += *f as i128;
        *net.entry(e.1).or_default() -= *f as i128;
    }
    for v in &vs {
        let x = net.get(v).copied().unwrap_or(0);
        let want = if *v == s { value as i128 } else if *v == t { -(value as i128) } else { 0 };
        ensure!(x == want, "net flow out of {} is {}, expected {} (value {}, source {}, target {})", v, x, want, value, s, t);
    }
    // optimal exactly when no residual capacity leads from the source to the target
    let mut next: HashMap<u64, Vec<u64>> = HashMap::new();
    for (e, (f, k)) in &flows {
        let e = un_edge(e);
        if f < k {
            next.entry(e.0).or_default().push(e.1);
        }
        if *f > 0 {
            next.entry(e.1).or_default().push(e.0);
        }
    }
    let mut side = BTreeSet::from([s]);
    let mut work = vec![s];
    while let Some(x) = work.pop() {
        for y in next.get(&x).into_iter().flatten() {
            if side.insert(*y) {
                work.push(*y);
            }
        }
    }
    ensure!(!side.contains(&t), "value {} from {} to {} is not maximal: more can be sent", value, s, t);
    let k: u128 = cap.iter().filter(|(e, _)| side.contains(&e.0) && !side.contains(&e.1)).map(|x| *x.1 as u128).sum();
    ensure!(value as u128 == k, "value {} from {} to {}, but a cut of capacity {} separates them", value, s, t, k);
    // minimum cut over all sets that contain the source and not the target, on small graphs
    let others: Vec<u64> = vs.iter().copied().filter(|v| *v != s && *v != t).collect();
    let mut cut = if others.len() > 8 { k } else { u128::MAX };
    for bits in 0u32..if others.len() > 8 { 0 } else { 1 << others.len() } {
        let mut side: BTreeSet<u64> = others.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|x| *x.1).collect();
        side.insert(s);
        let k: u128 = cap.iter().filter(|(e, _)| side.contains(&e.0) && !side.contains(&e.1)).map(|x| *x.1 as u128).sum();
        cut = cut.min(k);
    }
    ensure!(value as u128 == cut, "value {} from {} to {}, but the minimum cut is {}", value, s, t, cut);
    let used = flows.values().filter(|f| f.0 > 0).count();
    o.label_if(value == 0, "no flow");
    o.label_if(used >= 4, "4 or more edges used");
    o.label_if(m.e.iter().any(|e| e.0 == t && flows[&edge(*e)].1 > 0), "edges out of the target");
    o.label_if(m.e.iter().any(|e| e.0 != e.1 && m.e.contains(&(e.1, e.0))), "antiparallel edges");
    o.label_if(cap.values().any(|k| *k > i64::MAX as u64), "capacity beyond 2^63");
    // a greedy choice of paths along edges only, never giving flow back, can fall short
    o.label_if(greedy(&m, &cap, s, t) < value, "flow has to be given back");
    o.nontrivial_if(used >= 3);
    same_sets(&real, &m)
}
/// fewest-edges augmentation without backward edges (only to classify cases)
fn greedy(m: &M, cap: &HashMap<E, u64>, s: u64, t: u64) -> u64 {
    let mut left = cap.clone();
    let mut total = 0;
    loop {
        let mut from: HashMap<u64, u64> = HashMap::new();
        let mut q = std::collections::VecDeque::from([s]);
        while let Some(x) = q.pop_front() {
            for y in m.succ(x) {
                if y != s && left[&(x, y)] > 0 && !from.contains_key(&y) {
                    from.insert(y, x);
                    q.push_back(y);
                }
            }
        }
        if !from.contains_key(&t) {
            return total;
        }
        let mut p = vec![];
        let mut x = t;
        while x != s {
            p.push((from[&x], x));
            x = from[&x];
        }
        let d = p.iter().map(|e| left[e]).min().unwrap();
        for e in &p {
            *left.get_mut(e).unwrap() -= d;
        }
        total += d;
    }
}
fn strat(_: Tier) -> BoxedStrategy<Case> {
    let g = prop_oneof![
        3 => graph(3, 6, 14, 12),
        2 => graph_shapes(3, 6, 12, 11, vec![3, 10, 12, 5, 4]),
        1 => dag(4, 7, 12, 12),
    ]
    .boxed();
    prop_oneof![2 => Just(1i64), 2 => Just(5), 1 => Just(40), 1 => Just(1 << 50), 1 => Just(1 << 60)]
        .prop_flat_map(move |hi| (prop_oneof![1 => weights(g.clone(), 0, hi), 3 => weights(g.clone(), 1, hi + 1)], any::<u16>(), any::<u16>(), prop_oneof![6 => Just(0u8), 1 => Just(1), 1 => Just(2)]))
        .prop_map(|(wg, s, t, wide)| Case { wg, s, t, wide, ends: None })
        .boxed()
}
/// layers between a source and a target with crossing edges: flow often has to be rerouted
fn layers(t: Tier) -> BoxedStrategy<Case> {
    (2usize..4, 2usize..t.pick(4, 5), proptest::collection::vec((any::<u16>(), 1i64..4), 4..11), any::<u64>(), 0u8..8, 0u16..4)
        .prop_map(|(a, b, raw, salt, mode, flip)| {
            let n = a + b + 2;
            let ids = ids_for(mode, n, salt);
            let mut es = vec![];
            let mut w = vec![];
            let push = |x: usize, y: usize, k: i64, es: &mut Vec<E>, w: &mut Vec<i64>| {
                let e = (ids[x], ids[y]);
                if x != y && !es.contains(&e) && es.len() < 14 {
                    es.push(e);
                    w.push(k);
                }
            };
            for i in 0..a {
                push(0, 1 + i, 1 + (mix(salt ^ i as u64) % 3) as i64, &mut es, &mut w);
            }
            for i in 0..b {
                push(1 + a + i, n - 1, 1 + (mix(salt ^ 77 ^ i as u64) % 3) as i64, &mut es, &mut w);
            }
            for (r, k) in raw {
                let (x, y) = (1 + (r as usize % a), 1 + a + (r as usize / 16) % b);
                match r >> 13 {
                    0 => push(y, x, k, &mut es, &mut w),
                    1 => push(1 + (r as usize % (a + b)), 1 + ((r as usize / 8) % (a + b)), k, &mut es, &mut w),
                    _ => push(x, y, k, &mut es, &mut w),
                }
            }
            let mut vs = ids.clone();
            vs.sort();
            let at = |x: u64, l: &[u64]| (l.iter().position(|y| *y == x).unwrap() * 65536 / l.len() + 65536 / l.len() / 2) as u16 & !7;
            let s = at(ids[0], &vs);
            let rest: Vec<u64> = vs.iter().copied().filter(|v| *v != ids[0]).collect();
            let t = at(ids[n - 1], &rest);
            if flip == 1 {
                es.reverse();
                w.reverse();
            }
            Case { wg: WG { g: G { vs: ids.clone(), es }, w }, s, t, wide: (salt >> 40) as u8 % 3 * ((salt >> 48) % 4 == 0) as u8, ends: Some((ids[0], ids[n - 1])) }
        })
        .boxed()
}
/// The short ways from source to target use an edge (a_i, b_i) each; all of these have to be given
/// back, one after the other along a single long way, for the flow to be greatest.
fn undone(t: Tier) -> BoxedStrategy<Case> {
    (1usize..t.pick(8, 10), 1i64..4, any::<u64>(), 0u8..8, any::<bool>())
        .prop_map(|(k, c, salt, mode, flip)| {
            let mut n = 2 + 2 * k;
            let (a, b) = (|i: usize| 2 + i, |i: usize| 2 + k + i);
            let mut es: Vec<(usize, usize)> = vec![];
            for i in 0..k {
                es.extend([(0, a(i)), (a(i), b(i)), (b(i), 1)]);
            }
            // connectors of some length: into the first b, from each a to the next b, out of the last a
            for i in 0..=k {
                let (x, y) = (if i == 0 { 0 } else { a(i - 1) }, if i == k { 1 } else { b(i) });
                let len = 1 + (mix(salt ^ i as u64) % 2) as usize + (i == 0 || i == k) as usize;
                let mut at = x;
                for _ in 0..len {
                    es.push((at, n));
                    at = n;
                    n += 1;
                }
                es.push((at, y));
            }
            let ids = ids_for(mode, n, salt);
            let mut es: Vec<E> = es.into_iter().map(|(x, y)| (ids[x], ids[y])).collect();
            if flip {
                es = perm(es.len(), salt).into_iter().map(|i| es[i]).collect();
            }
            let w = es.iter().map(|_| c).collect();
            Case { wg: WG { g: G { vs: ids.clone(), es }, w }, s: 0, t: 0, wide: 0, ends: Some((ids[0], ids[1])) }
        })
        .boxed()
}
/// the same, and one vertex has very many more neighbours
fn hub(t: Tier) -> BoxedStrategy<Case> {
    (prop_oneof![3 => undone(t), 1 => layers(t)], any::<u64>())
        .prop_flat_map(move |(c, salt)| {
            let w = c.wg.map();
            let ends = c.ends;
            hubs(Just(c.wg.g).boxed(), 20, t.pick(1_300, 2_100), vec![HUB_IN, HUB_IN, HUB_OUT, HUB_OUT, HUB_ALTERNATING, HUB_BIDI]).prop_map(move |h| {
                let w = h.g.es.iter().map(|e| w.get(e).copied().unwrap_or_else(|| 1 + (mix(salt ^ e.0 ^ e.1.rotate_left(9)) % 4) as i64)).collect();
                Case { wg: WG { g: h.g, w }, s: 0, t: 0, wide: 0, ends }
            })
        })
        .boxed()
}
// all graphs on 4 vertices with the edges of the two-route network and capacities 0..=2
fn ex_total(_: Tier) -> u64 {
    3u64.pow(8) * 12
}
fn ex_nth(_: Tier, k: u64) -> Case {
    let all = [(0u64, 1u64), (0, 2), (1, 2), (2, 1), (1, 3), (2, 3), (3, 0), (3, 3)];
    let (pair, mut k) = (k % 12, k / 12);
    let mut es = vec![];
    let mut w = vec![];
    for e in all {
        es.push(e);
        w.push((k % 3) as i64);
        k /= 3;
    }
    let at = |i: u64, n: u64| ((i * 65536 + 32768) / n) as u16 & !7;
    Case { wg: WG { g: G { vs: vec![0, 1, 2, 3], es }, w }, s: at(pair / 3, 4), t: at(pair % 3, 3), wide: 0, ends: None }
}

fn huge(t: Tier) -> BoxedStrategy<Case> {
    sparse(long_graph(600, t.pick(1_100, 2_100), vec![LONG_CHAIN, LONG_TWO_ROUTES, LONG_CYCLE, LONG_LASSO, LONG_TREE_IN, LONG_TREE_OUT, LONG_BINARY, LONG_STAR_OUT], 1, false))
}
fn deep(t: Tier) -> BoxedStrategy<Case> {
    sparse(long_graph(4_100, t.pick(4_400, 8_600), vec![LONG_CHAIN, LONG_CYCLE, LONG_LASSO, LONG_TWO_ROUTES], 0, false))
}
fn large(t: Tier) -> BoxedStrategy<Case> {
    let g = prop_oneof![
        3 => long_graph(12, t.pick(300, 500), vec![LONG_CHAIN, LONG_TWO_ROUTES, LONG_TWO_ROUTES, LONG_CYCLE, LONG_LASSO, LONG_TREE_IN, LONG_TREE_OUT, LONG_BINARY], 2, false),
        1 => long_graph(12, t.pick(300, 500), vec![LONG_STAR_OUT, LONG_STAR_IN], 1, false),
        // from one vertex over many to another
        2 => (sizes(8, t.pick(120, 300)), 0u8..8, any::<u64>()).prop_map(|(n, mode, salt)| {
            let ids = ids_for(mode, n, salt);
            let mut es: Vec<E> = (1..n - 1).flat_map(|i| [(ids[0], ids[i]), (ids[i], ids[n - 1])]).collect();
            if salt % 3 == 0 {
                es = perm(es.len(), salt).into_iter().map(|i| es[i]).collect();
            }
            G { vs: ids, es }
        }),
    ]
    .boxed();
    sparse(g)
}
fn sparse(g: BoxedStrategy<G>) -> BoxedStrategy<Case> {
    prop_oneof![2 => Just(1i64), 2 => Just(5), 1 => Just(400), 2 => Just(1 << 54)]
        .prop_flat_map(move |hi| (weights(g.clone(), 1, hi), any::<u16>(), any::<u16>()))
        .prop_map(|(wg, s, t)| {
            // the far end of what is reachable
            let m = wg.g.model();
            let vs: Vec<u64> = m.v.iter().copied().collect();
            let at = |v: u64, l: &[u64]| ((l.iter().position(|x| *x == v).unwrap() * 65536 + 65535) / l.len()) as u16 & !7;
            let a = deep_start(&m, s);
            let d = m.dist(a);
            let far: Vec<u64> = {
                let mut l: Vec<u64> = d.keys().copied().filter(|v| *v != a).collect();
                l.sort_by_key(|v| (d[v], *v));
                l
            };
            let rest: Vec<u64> = vs.iter().copied().filter(|v| *v != a).collect();
            let t = if far.is_empty() || rest.len() > 8_000 { t } else { at(if t % 4 == 0 { pick(&far, t) } else { far[far.len() - 1] }, &rest) };
            let ends = if vs.len() > 20_000 && !far.is_empty() { Some((a, far[far.len() - 1])) } else { None };
            Case { wg, s: at(a, &vs), t, wide: 0, ends }
        })
        .boxed()
}

fn shallow_g(_: Tier) -> BoxedStrategy<Case> {
    sparse(shallow(1, false))
}
fn main() {
    let mut s = Suite::new("C17");
    s.assume("dense graphs of up to 8 vertices, sparse ones of up to 1100 (2100), single ways of up to 4400 (8600): the search under test enumerates paths");
    s.assume("capacities sum to less than 2^64");
    s.exhaustive("all-capacities-4-vertices", "8 fixed edges on 4 vertices, capacities 0, 1, 2, all sources and targets; non-trivial: 3 or more edges carry flow", ex_total, ex_nth, check);
    s.test("flow", (100_000, 300_000), "3 or more edges carry flow", strat, check);
    s.test("layered-networks", (100_000, 300_000), "3 or more edges carry flow", layers, check);
    s.test("undone-choices", (2_000, 10_000), "3 or more edges carry flow", undone, check);
    s.test("large-networks", (1_500, 20_000), "3 or more edges carry flow", large, check);
    s.test_shrink("huge-networks", (100, 1_000), 60, "600 to 1100 (2100) vertices", huge, check);
    s.test_shrink("hubs", (1_000, 10_000), 20, "3 or more edges carry flow; one vertex of 20 to 1300 (2100) neighbours", hub, check);
    s.test_shrink("deep", (12, 80), 10, "4100 to 4400 (8600) vertices", deep, check);
    s.test_shrink("65536-vertices", (16, 100), 10, "65000 to 66500 vertices, no long path", shallow_g, check);
    s.main()
}
