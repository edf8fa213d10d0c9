//! Generated constrained searches: a weighted graph, two ends and a list of constraints.
use crate::ct::*;
use crate::gen::*;
use crate::model::*;
use crate::run::Tier;
use crate::wgraph::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    pub wg: WG,
    pub s: u16,
    pub t: u16,
    pub cs: Vec<Ct>,
    pub h: u8,
}

pub fn item() -> BoxedStrategy<Ct> {
    let n = |c| Ct::Not(Box::new(c));
    prop_oneof![
        5 => (0u64..7).prop_map(Ct::V),
        3 => (0u64..7).prop_map(move |v| n(Ct::V(v))),
        2 => (0u64..7, 0u64..7).prop_map(|(a, b)| Ct::E(a, b)),
        2 => (0u64..7, 0u64..7).prop_map(move |(a, b)| n(Ct::E(a, b))),
        3 => vec(0u64..7, 2..5).prop_map(|l| Ct::Ord(distinct(l))),
        2 => Just(Ct::Cyc),
        2 => Just(n(Ct::Cyc)),
        2 => (1usize..7).prop_map(Ct::MinL),
        3 => (1usize..8).prop_map(Ct::MaxL),
        2 => (0i64..9).prop_map(Ct::MinS),
        3 => (0i64..12).prop_map(Ct::MaxS),
        2 => tree(7, 6, 10, 2),
    ]
    .boxed()
}
pub fn raised(c: &Ct, base: i64, r: usize) -> Ct {
    let b = |x: &Ct, k: usize| Box::new(raised(x, base, r + k));
    match c {
        Ct::MinS(n) => Ct::MinS(n + base * (r % 5) as i64),
        Ct::MaxS(n) => Ct::MaxS(n + base * (r % 5) as i64),
        Ct::MinL(n) if r % 16 == 3 => Ct::MinL(*n + LIMITS[r / 16 % LIMITS.len()] as usize),
        Ct::MaxL(n) if r % 4 == 3 => Ct::MaxL(*n + LIMITS[r / 16 % LIMITS.len()] as usize),
        Ct::Or(x, y) => Ct::Or(b(x, 1), b(y, 2)),
        Ct::Xor(x, y) => Ct::Xor(b(x, 1), b(y, 2)),
        Ct::And(x, y) => Ct::And(b(x, 1), b(y, 2)),
        Ct::Not(x) => Ct::Not(b(x, 1)),
        o => o.clone(),
    }
}
pub fn strat(_: Tier) -> BoxedStrategy<Case> {
    let g = prop_oneof![4 => graph(1, 6, 12, 14), 1 => dag(2, 8, 16, 18), 1 => graph_shapes(3, 6, 8, 12, vec![2, 4, 8])].boxed();
    let hi = prop_oneof![2 => Just(1i64), 1 => Just(4)];
    let base = prop_oneof![6 => Just(0i64), 1 => Just((1i64 << 31) - 2), 1 => Just(1i64 << 53)];
    (hi, base).prop_flat_map(move |(hi, base)| (weights(g.clone(), 1, hi), any::<u16>(), any::<u16>(), vec(item(), 0..5), 0u8..4, 3usize..7, 0u8..3, Just(base)))
        .prop_map(|(mut wg, s, t, mut cs, h, cap, bounded, base)| {
            // costs and score bounds of a few times the base
            if base > 0 {
                wg.w.iter_mut().for_each(|w| *w += base);
                cs = cs.iter().enumerate().map(|(i, c)| raised(c, base, t as usize + i)).collect();
            }
            // most lists end with a bound, so that infeasible ones can be decided
            if bounded > 0 {
                let at = (s as usize) % (cs.len() + 1);
                cs.insert(at, Ct::MaxL(cap));
            }
            Case { wg, s, t, cs, h: (h == 0) as u8 }
        })
        .boxed()
}

// all constraint singletons and pairs on all 3-vertex graphs would be too many: pairs on a
// fixed set of 4-vertex graphs
pub fn fixed_graphs() -> Vec<G> {
    let vs = vec![0, 1, 2, 3];
    vec![
        G { vs: vs.clone(), es: vec![(0, 1), (1, 2), (2, 3), (0, 3)] },
        G { vs: vs.clone(), es: vec![(0, 1), (1, 0), (1, 2), (2, 1), (2, 3), (3, 2)] },
        G { vs: vs.clone(), es: vec![(0, 1), (1, 2), (2, 0), (2, 3), (3, 3)] },
        G { vs: vs.clone(), es: vec![(0, 0), (0, 1), (0, 2), (1, 3), (2, 3), (3, 0)] },
        G { vs, es: vec![(0, 1), (0, 2), (1, 2), (2, 1), (1, 3), (2, 3), (0, 3)] },
    ]
}
pub fn small_items() -> Vec<Ct> {
    let n = |c| Ct::Not(Box::new(c));
    let mut v = vec![Ct::Cyc, n(Ct::Cyc), Ct::Ord(vec![2, 1]), Ct::Ord(vec![1, 2]), Ct::Ord(vec![3, 1, 0]), Ct::Ord(vec![0, 3])];
    for i in 0..4 {
        v.push(Ct::V(i));
        v.push(n(Ct::V(i)));
    }
    for e in [(0, 1), (1, 2), (2, 1), (2, 3), (0, 3), (0, 0), (3, 0)] {
        v.push(Ct::E(e.0, e.1));
        v.push(n(Ct::E(e.0, e.1)));
    }
    for k in 1..5 {
        v.push(Ct::MinL(k));
        v.push(Ct::MaxL(k));
        v.push(Ct::MinS(k as i64));
        v.push(Ct::MaxS(k as i64));
    }
    v
}
pub fn ex_total(_: Tier) -> u64 {
    let k = small_items().len() as u64;
    fixed_graphs().len() as u64 * 16 * k * k
}
pub fn ex_nth(_: Tier, k: u64) -> Case {
    thread_local! { static A: (Vec<G>, Vec<Ct>) = (fixed_graphs(), small_items()); }
    A.with(|(gs, it)| {
        let n = it.len() as u64;
        let g = gs[(k / (16 * n * n)) as usize].clone();
        let r = k % (16 * n * n);
        let (st, r) = (r / (n * n), r % (n * n));
        let w = vec![1; g.es.len()];
        Case {
            wg: WG { g, w },
            s: ((st / 4) * 16384) as u16,
            t: ((st % 4) * 16384) as u16,
            cs: vec![it[(r / n) as usize].clone(), it[(r % n) as usize].clone(), Ct::MaxL(6)],
            h: 0,
        }
    })
}

// long walks in sparse graphs
pub fn long(t: Tier) -> BoxedStrategy<Case> {
    long_of(12, t.pick(300, 420))
}
pub fn huge(t: Tier) -> BoxedStrategy<Case> {
    long_of(500, t.pick(1_100, 1_500))
}
pub fn deep(t: Tier) -> BoxedStrategy<Case> {
    long_kinds(4_100, t.pick(4_400, 5_000), vec![LONG_CHAIN, LONG_CYCLE, LONG_LASSO], 1)
}
pub fn long_of(lo: usize, hi: usize) -> BoxedStrategy<Case> {
    let k = vec![LONG_CHAIN, LONG_CYCLE, LONG_TWO_ROUTES, LONG_TWO_ROUTES, LONG_BIDI, LONG_LASSO, LONG_LOCAL_DAG, LONG_TREE_IN];
    long_kinds(lo, hi, k, 3)
}
pub fn long_kinds(lo: usize, hi: usize, k: Vec<u8>, extra: usize) -> BoxedStrategy<Case> {
    let g = long_graph(lo, hi, k, extra, false);
    let max = hi + hi / 10;
    let hi = prop_oneof![2 => Just(1i64), 1 => Just(3), 1 => Just(1i64 << 40)];
    let v = || 0u64..100_000;
    let n = |c| Ct::Not(Box::new(c));
    let item = prop_oneof![
        6 => v().prop_map(Ct::V),
        2 => v().prop_map(move |v| n(Ct::V(v))),
        2 => vec(v(), 2..12).prop_map(|l| Ct::Ord(distinct(l))),
        1 => Just(Ct::Cyc),
        1 => Just(n(Ct::Cyc)),
        1 => (1..max).prop_map(Ct::MinL),
        1 => (1..max).prop_map(Ct::MaxL),
        1 => (1..max as i64).prop_map(Ct::MinS),
        2 => (1..max as i64).prop_map(Ct::MaxS),
    ];
    hi.prop_flat_map(move |hi| (weights(g.clone(), 1, hi), any::<u16>(), any::<u16>(), vec(item.clone(), 0..4), any::<u16>(), 0u8..4))
        .prop_map(|(wg, s, t, mut cs, r, bound)| {
            let m = wg.g.model();
            let vs: Vec<u64> = m.v.iter().copied().collect();
            let at = |v: u64| ((vs.iter().position(|x| *x == v).unwrap() * 65536 + 65535) / vs.len()) as u16;
            // mostly a far end, and a bound on the length around its distance
            let (mut s, mut t) = (s, t);
            if r % 5 > 0 {
                let a = deep_start(&m, s);
                let d = m.dist(a);
                let far = *d.iter().max_by_key(|x| (x.1, x.0)).unwrap().0;
                let back = m.dist(far).contains_key(&a);
                s = at(a);
                t = if back && r % 5 == 1 { s } else { at(far) };
                if bound < 3 {
                    let l = d[&far] + 1 + r as usize / 5 % 6;
                    cs.push(if bound == 0 { Ct::MinL(l) } else { Ct::MaxL(l.saturating_sub(1).max(1)) });
                    if bound == 0 {
                        cs.push(Ct::MaxL(l + 12));
                    }
                }
            }
            let way = way(&m, pick(&vs, s), pick(&vs, t));
            let cs = cs.iter().map(|c| along(c, &vs, &way)).collect();
            Case { wg, s, t, cs, h: (r % 3 == 0) as u8 }
        })
        .boxed()
}
// many times round a small cycle
pub fn ring() -> BoxedStrategy<G> {
    (1usize..6, 0usize..4, 0usize..4, prop_oneof![3 => Just(0u8), 1 => 1u8..4], 0u8..8, any::<u64>())
        .prop_map(|(n, before, after, extra, mode, salt)| {
            let all = n + before + after;
            let ids = ids_for(mode, all, salt);
            let mut es: Vec<(usize, usize)> = (0..n).map(|i| (i, (i + 1) % n)).collect();
            // a way in and a way out
            for i in 0..before {
                es.push((n + i, if i + 1 == before { 0 } else { n + i + 1 }));
            }
            for i in 0..after {
                es.push((if i == 0 { n / 2 } else { n + before + i - 1 }, n + before + i));
            }
            match extra {
                1 => es.push((0, 0)),
                2 => es.push((n / 2, 0)),
                3 => es.push((0, n - 1)),
                _ => {}
            }
            let mut seen = std::collections::BTreeSet::new();
            let es = es.into_iter().filter(|e| seen.insert(*e)).map(|(a, b)| (ids[a], ids[b])).collect();
            G { vs: ids, es }
        })
        .boxed()
}
pub fn laps(_: Tier) -> BoxedStrategy<Case> {
    let v = || 0u64..12;
    let n = |c| Ct::Not(Box::new(c));
    let item = prop_oneof![
        3 => v().prop_map(Ct::V),
        1 => v().prop_map(move |v| n(Ct::V(v))),
        1 => (v(), v()).prop_map(|(a, b)| Ct::E(a, b)),
        1 => Just(Ct::Cyc),
        1 => vec(v(), 2..4).prop_map(|l| Ct::Ord(distinct(l))),
    ];
    let hi = prop_oneof![3 => Just(1i64), 1 => Just(3), 1 => Just(1i64 << 40)];
    (hi.prop_flat_map(|hi| (weights(ring(), 1, hi), Just(hi))), any::<u16>(), any::<u16>(), vec(item, 0..3), (0u8..5, prop_oneof![1 => 1usize..40, 2 => 40usize..420]), (0usize..12, 0u8..4))
        .prop_map(move |((wg, hi), s, t, mut cs, (kind, len), (slack, h))| {
            let most = Ct::MaxL(len + slack);
            match kind {
                0 => cs.push(Ct::MinL(len)),
                1 => cs.extend([Ct::MinL(len), most]),
                2 => cs.extend([most, n(Ct::MaxL(len - 1))]),
                3 => cs.extend([Ct::MinS(len as i64 * ((hi + 1) / 2)), Ct::MaxL(len + slack)]),
                _ => cs.push(Ct::And(Box::new(Ct::MinL(len)), Box::new(most))),
            }
            Case { wg, s, t, cs, h: (h == 0) as u8 }
        })
        .boxed()
}
/// one shortest way, to place constraints on
pub fn way(m: &M, a: u64, b: u64) -> Vec<u64> {
    let d = m.dist(a);
    let mut p = vec![b];
    while let Some(k) = d.get(p.last().unwrap()).filter(|k| **k > 0) {
        let x = *p.last().unwrap();
        p.push(*d.iter().find(|(v, j)| **j + 1 == *k && m.e.contains(&(**v, x))).unwrap().0);
    }
    p.reverse();
    p
}
/// two of three included vertices and ordered lists lie on the way, two of three excluded
/// ones off it; the numbers become indices into vs
pub fn along(c: &Ct, vs: &[u64], way: &[u64]) -> Ct {
    let at = |v: u64| vs.iter().position(|x| *x == v).unwrap() as u64;
    let on = |i: u64| at(way[(i / 3) as usize % way.len()]);
    match c {
        Ct::V(i) if i % 3 > 0 => Ct::V(on(*i)),
        Ct::Ord(l) if l[0] % 3 > 0 => {
            let mut k: Vec<usize> = l.iter().map(|i| (i / 3) as usize % way.len()).collect();
            k.sort();
            Ct::Ord(distinct(k.into_iter().map(|i| at(way[i])).collect()))
        }
        Ct::Not(x) => match **x {
            Ct::V(i) if i % 3 > 0 => {
                let off: Vec<u64> = vs.iter().copied().filter(|v| !way.contains(v)).collect();
                Ct::Not(Box::new(Ct::V(if off.is_empty() { i } else { at(off[(i / 3) as usize % off.len()]) })))
            }
            _ => c.clone(),
        },
        _ => c.clone(),
    }
}


/// a search among very many further constraints that hold for every walk from the start
pub fn many_constraints(t: Tier) -> BoxedStrategy<Case> {
    (strat(t), sizes(50, t.pick(2_600, 5_200)), any::<u64>(), any::<u16>())
        .prop_map(|(c, n, salt, at)| {
            let m = c.wg.g.model();
            let vs: Vec<u64> = m.v.iter().copied().collect();
            if vs.is_empty() {
                return c;
            }
            let s = pick(&vs, c.s);
            let i = vs.iter().position(|v| *v == s).unwrap() as u64;
            let none: Vec<(u64, u64)> = (0..vs.len()).flat_map(|a| (0..vs.len()).map(move |b| (a, b))).filter(|(a, b)| !m.e.contains(&(vs[*a], vs[*b]))).map(|(a, b)| (a as u64, b as u64)).collect();
            let mut cs: Vec<Ct> = (0..n)
                .map(|k| match mix(salt ^ k as u64) {
                    r if r % 3 == 0 && !none.is_empty() => {
                        let e = none[(r >> 8) as usize % none.len()];
                        Ct::Not(Box::new(Ct::E(e.0, e.1)))
                    }
                    r if r % 3 == 1 => Ct::Or(Box::new(Ct::V(i)), Box::new(Ct::Cyc)),
                    _ => Ct::V(i),
                })
                .collect();
            // those that matter together, mostly late
            let at = if salt % 4 == 0 { at as usize * (n + 1) / 65536 } else { n - (at as usize * (n / 4)) / 65536 };
            cs.splice(at..at, c.cs.iter().cloned());
            Case { cs, ..c }
        })
        .boxed()
}
/// one vertex with very many successors or predecessors
pub fn hub_cases(t: Tier) -> BoxedStrategy<Case> {
    let base = prop_oneof![2 => dag(3, 6, 8, 9), 1 => graph(2, 5, 7, 8)].boxed();
    let h = hubs(base, 20, t.pick(2_200, 4_200), vec![HUB_OUT, HUB_OUT, HUB_OUT, HUB_MIDS, HUB_ALTERNATING, HUB_IN]);
    let n = |c| Ct::Not(Box::new(c));
    let v = || 0u64..100_000;
    let item = prop_oneof![
        4 => v().prop_map(Ct::V),
        3 => v().prop_map(move |v| n(Ct::V(v))),
        1 => vec(v(), 2..4).prop_map(|l| Ct::Ord(distinct(l))),
        1 => Just(n(Ct::Cyc)),
        1 => Just(Ct::Cyc),
        1 => (1i64..6).prop_map(Ct::MinS),
    ];
    (h, vec(any::<u16>(), 1..40), vec(item, 0..3), 2usize..6, any::<u16>(), any::<u16>(), 0u8..4)
        .prop_map(|(h, raw, cs, most, r, q, heur)| {
            let m = h.g.model();
            let vs: Vec<u64> = m.v.iter().copied().collect();
            let at = |v: u64| ((vs.iter().position(|x| *x == v).unwrap() * 65536 + 65535) / vs.len()) as u16;
            let w: Vec<i64> = (0..h.g.es.len()).map(|i| 1 + (raw[i % raw.len()] % 3) as i64).collect();
            // from the hub or before it, mostly to the small graph
            let before: Vec<u64> = h.base.iter().copied().filter(|v| m.dist(*v).contains_key(&h.hub)).collect();
            let s = if r % 3 == 0 { pick(&before, r) } else { h.hub };
            let reach = m.dist(s);
            let ends: Vec<u64> = h.base.iter().copied().filter(|v| reach.contains_key(v)).collect();
            let t = if q % 6 == 0 { pick(&vs, q) } else { pick(&ends, q) };
            let on = way(&m, s, t);
            let mut cs: Vec<Ct> = cs.iter().map(|c| along(c, &vs, &on)).collect();
            cs.push(Ct::MaxL(most.max(on.len())));
            Case { wg: WG { g: h.g, w }, s: at(s), t: at(t), cs, h: (heur == 0) as u8 }
        })
        .boxed()
}
