//! Graph generators. A graph is built from plain numbers (shape, size, raw pairs, id
//! mode), all drawn by proptest, so that shrinking works on those numbers.
use crate::model::G;
use proptest::collection::vec;
use proptest::prelude::*;
use std::collections::{BTreeSet, HashMap};

/// a position below n: any, or the last, or next to a power of two or a round number
pub fn spot(r: u64, n: usize) -> usize {
    let x = mix(r);
    if n < 20 || x % 2 == 0 {
        return (r % n as u64) as usize;
    }
    let near: Vec<usize> = [16usize, 32, 64, 100, 128, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10_000, 16_384].into_iter().filter(|p| *p <= n).collect();
    match near.get((x >> 8) as usize % (near.len() + 1)) {
        Some(p) => (p + (x >> 20) as usize % 3).saturating_sub(1).min(n - 1),
        None => n - 1,
    }
}
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

pub const BOUNDARY_IDS: [u64; 24] = [
    0,
    1,
    2,
    9,
    10,
    99,
    127,
    128,
    255,
    256,
    65535,
    65536,
    2147483647,
    2147483648,
    4294967295,
    4294967296,
    4294967297,
    9007199254740993,
    9223372036854775807,
    9223372036854775808,
    9999999999999999999,
    10000000000000000000,
    18446744073709551614,
    18446744073709551615,
];

/// index -> vertex id, injective. mode 0: identity; 1: from 1; 2: reversed;
/// 3: shuffled small; 4: boundary ids; 5: scattered over 64 bits;
/// 6: shuffled small numbers of different digit counts (7, in `ids_for`: see `aliased`).
pub fn id_of(mode: u8, n: usize, salt: u64, i: usize) -> u64 {
    match mode {
        0 => i as u64,
        1 => i as u64 + 1,
        2 => (n - 1 - i) as u64,
        3 => perm(n, salt)[i] as u64,
        4 => {
            let b = BOUNDARY_IDS.len();
            let p = perm(b, salt);
            if i < b {
                BOUNDARY_IDS[p[i]]
            } else {
                // beyond the pool: distinct values away from the boundary ids
                5_000_000_000 + i as u64 * 7
            }
        }
        5 => mix(salt.wrapping_mul(31).wrapping_add(i as u64)),
        _ => {
            let k = perm(n, salt)[i] as u64;
            k * 7 + k * k * 3
        }
    }
}

/// Bounds far away from any size, each close to where a narrower type ends.
pub const LIMITS: [u64; 16] = [
    1 << 8,
    (1 << 8) + 3,
    1 << 15,
    (1 << 16) + 2,
    (1 << 31) - 1,
    1 << 31,
    (1 << 31) + 1,
    1 << 32,
    (1 << 32) + 2,
    (1 << 32) + 5,
    (3 << 32) + 1,
    1 << 53,
    (1 << 53) + 1,
    1 << 62,
    i64::MAX as u64 - 1,
    i64::MAX as u64,
];

/// Ids that coincide when cut to fewer bits, rounded to a float, or combined by a simple
/// arithmetic hash: a few consecutive numbers, repeated at a distance.
fn aliased(total: usize, salt: u64) -> Vec<u64> {
    const APART: [u64; 28] = [
        10, 16, 31, 32, 33, 37, 64, 97, 100, 101, 127, 128, 131, 255, 256, 257, 1_000, 1_009, 1 << 15, 1 << 16, 65_599, 1_000_003, 1 << 31, 1 << 32, (1 << 32) - 1, 1 << 48, 1 << 53, 1 << 63,
    ];
    let apart = APART[(salt >> 8) as usize % APART.len()];
    let blocks = (u64::MAX / apart).saturating_add(1).min(total as u64).max(1) as usize;
    let run = total.div_ceil(blocks).max(2 + (salt >> 16) as usize % 3);
    let run = if run as u64 > apart { return (0..total as u64).collect() } else { run };
    let from = [0, 1, 1 << 53, (1 << 32) - 1][(salt >> 24) as usize % 4];
    let ids: Vec<u64> = (0..total).map(|i| ((i % run) as u64 + (i / run) as u64 * apart).wrapping_add(from)).collect();
    perm(total, salt).into_iter().map(|i| ids[i]).collect()
}

pub fn perm(n: usize, salt: u64) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    p.sort_by_key(|i| (mix(salt ^ mix(*i as u64)), *i));
    p
}

pub const SHAPES: u8 = 14;

/// Pairs of indices below n for a shape, from raw random pairs.
pub fn shape_edges(shape: u8, n: usize, raw: &[(u16, u16)], salt: u64) -> Vec<(usize, usize)> {
    let r: Vec<(usize, usize)> = raw
        .iter()
        .map(|(a, b)| (*a as usize % n, *b as usize % n))
        .collect();
    let mut es: Vec<(usize, usize)> = vec![];
    match shape {
        // arbitrary pairs, self-loops included
        0 => es = r,
        // DAG
        1 => es = r.iter().filter(|p| p.0 != p.1).map(|p| (p.0.min(p.1), p.0.max(p.1))).collect(),
        // one cycle through everything, plus chords
        2 => {
            es = (0..n).map(|i| (i, (i + 1) % n)).collect();
            es.extend(r.iter().take(r.len() / 2));
        }
        // chain plus chords forward
        3 => {
            es = (1..n).map(|i| (i - 1, i)).collect();
            es.extend(r.iter().take(r.len() / 2).map(|p| (p.0.min(p.1), p.0.max(p.1))).filter(|p| p.0 != p.1));
        }
        // bidirectional edges
        4 => {
            for p in &r {
                es.push(*p);
                es.push((p.1, p.0));
            }
        }
        // two halves, sparse bridge from first to second
        5 => {
            let h = (n / 2).max(1);
            for (k, p) in r.iter().enumerate() {
                let (a, b) = *p;
                if k % 5 == 4 && n > h {
                    es.push((a % h, h + b % (n - h)));
                } else if k % 2 == 0 || n == h {
                    es.push((a % h, b % h));
                } else {
                    es.push((h + a % (n - h), h + b % (n - h)));
                }
            }
        }
        // out-tree with some extra edges
        6 => {
            for i in 1..n {
                es.push(((mix(salt ^ i as u64) % i as u64) as usize, i));
            }
            es.extend(r.iter().take(r.len() / 3));
        }
        // in-tree (many sources, one sink) with extra edges
        7 => {
            for i in 1..n {
                es.push((i, (mix(salt ^ i as u64) % i as u64) as usize));
            }
            es.extend(r.iter().take(r.len() / 3));
        }
        // disjoint 2-cycles and 3-cycles, linked by a few edges
        8 => {
            let mut i = 0;
            let mut k = 0;
            while i < n {
                let len = (2 + (mix(salt ^ k) % 2) as usize).min(n - i);
                if len >= 2 {
                    for j in 0..len {
                        es.push((i + j, i + (j + 1) % len));
                    }
                }
                i += len;
                k += 1;
            }
            es.extend(r.iter().take(r.len() / 3));
        }
        // complete graph minus the raw pairs
        9 => {
            let minus: BTreeSet<(usize, usize)> = r.iter().copied().collect();
            let m = n.min(7);
            for a in 0..m {
                for b in 0..m {
                    if !minus.contains(&(a, b)) && (a != b || (a + salt as usize) % 3 == 0) {
                        es.push((a, b));
                    }
                }
            }
        }
        // diamonds in series
        10 => {
            let mut i = 0;
            while i + 3 < n {
                es.extend([(i, i + 1), (i, i + 2), (i + 1, i + 3), (i + 2, i + 3)]);
                i += 3;
            }
            es.extend(r.iter().take(r.len() / 4));
        }
        // self-loops and few others
        11 => {
            for (k, p) in r.iter().enumerate() {
                es.push(if k % 2 == 0 { (p.0, p.0) } else { *p });
            }
        }
        // layered (flow-like)
        12 => {
            let l = 3.max((n as f64).sqrt() as usize);
            let layer = |i: usize| i * l / n;
            es = r.iter().copied().filter(|p| layer(p.0) <= layer(p.1)).collect();
            es.extend((1..n).map(|i| (i - 1, i)).filter(|p| (p.0 as u64 ^ salt) % 2 == 0));
        }
        // star in or out, and reverse edges
        _ => {
            for i in 1..n {
                match mix(salt ^ i as u64) % 3 {
                    0 => es.push((0, i)),
                    1 => es.push((i, 0)),
                    _ => {
                        es.push((0, i));
                        es.push((i, 0));
                    }
                }
            }
            es.extend(r.iter().take(r.len() / 3));
        }
    }
    es
}

/// Builds the graph; `cap_edges` bounds the number of edges kept.
pub fn make_graph(shape: u8, n: usize, raw: &[(u16, u16)], mode: u8, salt: u64, isolated: u8, cap_edges: usize) -> G {
    let total = n + isolated as usize;
    let mut seen = BTreeSet::new();
    let mut es = vec![];
    if n > 0 {
        for e in shape_edges(shape, n, raw, salt) {
            if es.len() < cap_edges && seen.insert(e) {
                es.push(e);
            }
        }
    }
    let ids: Vec<u64> = ids_for(mode, total, salt);
    // isolated vertices sit at the end of the index range
    let mut vs: Vec<u64> = ids.clone();
    if salt % 2 == 1 {
        vs.reverse();
    }
    let mut es: Vec<(u64, u64)> = es.into_iter().map(|(a, b)| (ids[a], ids[b])).collect();
    if salt % 3 == 1 {
        let p = perm(es.len(), salt);
        es = p.into_iter().map(|i| es[i]).collect();
    }
    G { vs, es }
}

pub fn ids_for(mode: u8, total: usize, salt: u64) -> Vec<u64> {
    if mode == 7 {
        return aliased(total, salt);
    }
    if matches!(mode, 3 | 6) {
        let p = perm(total, salt);
        return p
            .into_iter()
            .map(|k| {
                let k = k as u64;
                if mode == 3 {
                    k
                } else {
                    k * 7 + k * k * 3
                }
            })
            .collect();
    }
    if mode == 4 {
        let p = perm(BOUNDARY_IDS.len(), salt);
        return (0..total)
            .map(|i| {
                if i < p.len() {
                    BOUNDARY_IDS[p[i]]
                } else {
                    5_000_000_000 + i as u64 * 7
                }
            })
            .collect();
    }
    (0..total).map(|i| id_of(mode, total, salt, i)).collect()
}

/// Graphs with lo..=hi vertices (plus up to 3 isolated) and at most max_e edges.
pub fn graph(lo: usize, hi: usize, max_raw: usize, max_e: usize) -> BoxedStrategy<G> {
    graph_shapes(lo, hi, max_raw, max_e, (0..SHAPES).collect())
}

pub fn graph_shapes(lo: usize, hi: usize, max_raw: usize, max_e: usize, shapes: Vec<u8>) -> BoxedStrategy<G> {
    (
        proptest::sample::select(shapes),
        lo..=hi,
        vec((any::<u16>(), any::<u16>()), 0..=max_raw),
        prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8), 4 => Just(3u8), 2 => Just(4u8), 2 => Just(5u8), 2 => Just(6u8), 2 => Just(7u8)],
        any::<u64>(),
        prop_oneof![5 => Just(0u8), 1 => 1u8..=3],
    )
        .prop_map(move |(shape, n, raw, mode, salt, iso)| make_graph(shape, n, &raw, mode, salt, iso, max_e))
        .boxed()
}

/// Acyclic graphs, by construction.
pub fn dag(lo: usize, hi: usize, max_raw: usize, max_e: usize) -> BoxedStrategy<G> {
    graph_shapes(lo, hi, max_raw, max_e, (0..SHAPES).collect())
        .prop_map(|g| {
            // orient every edge along the position of the vertices in vs; drop self-loops
            let pos: HashMap<u64, usize> = g.vs.iter().enumerate().map(|(i, v)| (*v, i)).collect();
            let mut seen = BTreeSet::new();
            let mut es = vec![];
            for (a, b) in &g.es {
                if a == b {
                    continue;
                }
                let e = if pos[a] < pos[b] { (*a, *b) } else { (*b, *a) };
                if seen.insert(e) {
                    es.push(e);
                }
            }
            G { vs: g.vs, es }
        })
        .boxed()
}

/// k-th directed graph (self-loops included) on n labelled vertices 0..n.
pub fn nth_digraph(n: usize, k: u64) -> G {
    let mut es = vec![];
    let mut bit = 0;
    for a in 0..n {
        for b in 0..n {
            if k >> bit & 1 == 1 {
                es.push((a as u64, b as u64));
            }
            bit += 1;
        }
    }
    G {
        vs: (0..n as u64).collect(),
        es,
    }
}

/// Counts of all digraphs with up to n vertices, and the k-th of them.
pub fn all_digraphs_total(n: usize) -> u64 {
    (0..=n).map(|i| 1u64 << (i * i)).sum()
}
pub fn all_digraphs_nth(n: usize, mut k: u64) -> G {
    for i in 0..=n {
        let c = 1u64 << (i * i);
        if k < c {
            return nth_digraph(i, k);
        }
        k -= c;
    }
    unreachable!()
}

/// Picks an element of a non-empty list from a raw number.
pub fn pick<T: Copy>(xs: &[T], r: u16) -> T {
    xs[r as usize * xs.len() / 65536]
}

/// Sizes up to `max`: half of them around a power of two, where narrow counters and
/// fixed buffers give way.
pub fn sizes(min: usize, max: usize) -> BoxedStrategy<usize> {
    let near: Vec<usize> = [16usize, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10_000, 16_384, 65_536]
        .into_iter()
        .filter(|p| *p + 1 >= min && *p <= max)
        .collect();
    if near.is_empty() {
        return (min..=max).boxed();
    }
    prop_oneof![
        1 => min..=max,
        1 => (proptest::sample::select(near), 0usize..6).prop_map(move |(p, d)| (p + d).saturating_sub(2).clamp(min, max)),
    ]
    .boxed()
}

pub const LONG_CHAIN: u8 = 0;
pub const LONG_CYCLE: u8 = 1;
pub const LONG_STAR_OUT: u8 = 2;
pub const LONG_STAR_IN: u8 = 3;
pub const LONG_TREE_OUT: u8 = 4;
pub const LONG_TREE_IN: u8 = 5;
pub const LONG_TWO_ROUTES: u8 = 6;
pub const LONG_BINARY: u8 = 7;
pub const LONG_LOCAL_DAG: u8 = 8;
pub const LONG_BIDI: u8 = 9;
pub const LONG_LASSO: u8 = 10;

/// More than 65536 vertices (or somewhat fewer), no long path; if forward, no vertex with very
/// many inbound edges (the topological sort takes the square of their number).
pub fn shallow(extra: usize, forward: bool) -> BoxedStrategy<G> {
    let mut kinds = vec![LONG_STAR_OUT, LONG_BINARY, LONG_TREE_OUT, LONG_TREE_IN];
    if !forward {
        kinds.push(LONG_STAR_IN);
    }
    long_graph(65_000, 66_500, kinds, extra, forward)
}

fn long_edges(kind: u8, n: usize, salt: u64) -> Vec<(usize, usize)> {
    match kind {
        LONG_CHAIN => (1..n).map(|i| (i - 1, i)).collect(),
        LONG_CYCLE => (0..n).map(|i| (i, (i + 1) % n)).collect(),
        LONG_STAR_OUT => (1..n).map(|i| (0, i)).collect(),
        LONG_STAR_IN => (1..n).map(|i| (i, 0)).collect(),
        LONG_TREE_OUT => (1..n).map(|i| ((mix(salt ^ i as u64) % i as u64) as usize, i)).collect(),
        LONG_TREE_IN => (1..n).map(|i| (i, (mix(salt ^ i as u64) % i as u64) as usize)).collect(),
        // a long and a short way from the first to the last vertex
        LONG_TWO_ROUTES => {
            let k = 1 + (salt % (n as u64 / 3 + 1)) as usize;
            let mut es: Vec<(usize, usize)> = vec![];
            let (mut a, mut b) = (0, 0);
            for i in 1..n.saturating_sub(1) {
                if i <= k {
                    es.push((a, i));
                    a = i;
                } else {
                    es.push((b, i));
                    b = i;
                }
            }
            if n > 1 {
                es.push((a, n - 1));
                es.push((b, n - 1));
            }
            es.dedup();
            es
        }
        LONG_BINARY => (1..n).map(|i| ((i - 1) / 2, i)).collect(),
        LONG_LOCAL_DAG => (1..n)
            .flat_map(|i| {
                let h = mix(salt ^ i as u64);
                let mut v = vec![(i - 1, i)];
                let back = 2 + (h % 5) as usize;
                if i >= back && h >> 9 & 1 == 0 {
                    v.push((i - back, i));
                }
                v
            })
            .collect(),
        LONG_BIDI => (1..n).flat_map(|i| [(i - 1, i), (i, i - 1)]).collect(),
        // a chain leading into a cycle
        _ => {
            let back = (salt % n as u64) as usize;
            (1..n).map(|i| (i - 1, i)).chain([(n - 1, back)]).collect()
        }
    }
}

/// Large sparse graphs: a base (LONG_*) of min..=max vertices plus up to `extra` edges
/// (forward along the base only, if `forward`).
pub fn long_graph(min: usize, max: usize, kinds: Vec<u8>, extra: usize, forward: bool) -> BoxedStrategy<G> {
    (
        proptest::sample::select(kinds),
        sizes(min, max),
        vec((any::<u16>(), any::<u16>()), 0..=extra),
        prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8), 4 => Just(3u8), 1 => Just(4u8), 3 => Just(5u8), 2 => Just(6u8), 2 => Just(7u8)],
        any::<u64>(),
        prop_oneof![5 => Just(0usize), 1 => 1usize..=3],
    )
        .prop_map(move |(kind, n, raw, mode, salt, iso)| {
            let mut seen = BTreeSet::new();
            let mut es = vec![];
            for e in long_edges(kind, n, salt) {
                if seen.insert(e) {
                    es.push(e);
                }
            }
            for (a, b) in &raw {
                let (mut a, mut b) = (*a as usize % n, *b as usize % n);
                if forward {
                    if a == b {
                        continue;
                    }
                    if a > b {
                        std::mem::swap(&mut a, &mut b);
                    }
                }
                if seen.insert((a, b)) {
                    es.push((a, b));
                }
            }
            let ids = ids_for(mode, n + iso, salt);
            let mut vs = ids.clone();
            if salt % 2 == 1 {
                vs.reverse();
            }
            let mut es: Vec<(u64, u64)> = es.into_iter().map(|(a, b)| (ids[a], ids[b])).collect();
            if salt % 3 == 1 {
                let p = perm(es.len(), salt);
                es = p.into_iter().map(|i| es[i]).collect();
            }
            G { vs, es }
        })
        .boxed()
}

/// A vertex from which far ones can be reached: the best of a few samples.
pub fn deep_start(m: &crate::model::M, r: u16) -> u64 {
    let vs: Vec<u64> = m.v.iter().copied().collect();
    let no_in: Vec<u64> = {
        let t: BTreeSet<u64> = m.e.iter().filter(|e| e.0 != e.1).map(|e| e.1).collect();
        vs.iter().copied().filter(|v| !t.contains(v)).take(4).collect()
    };
    let mut cand = vec![pick(&vs, r), pick(&vs, r.rotate_left(5)), pick(&vs, r.rotate_left(9))];
    cand.extend(no_in);
    cand.into_iter().max_by_key(|v| (m.dist(*v).values().max().copied().unwrap_or(0), *v)).unwrap()
}

pub const HUB_OUT: u8 = 0;
pub const HUB_IN: u8 = 1;
pub const HUB_ALTERNATING: u8 = 2;
pub const HUB_MIDS: u8 = 3;
pub const HUB_BIDI: u8 = 4;

/// A vertex of a small graph gets very many further neighbours; what they hang on to comes
/// before, after or among the edges of the small graph, and so do their ids.
#[derive(Clone, Debug)]
pub struct Hub {
    pub g: G,
    pub hub: u64,
    /// vertices of the small graph
    pub base: Vec<u64>,
}
pub fn hubs(base: BoxedStrategy<G>, lo: usize, hi: usize, kinds: Vec<u8>) -> BoxedStrategy<Hub> {
    (base, proptest::sample::select(kinds), sizes(lo, hi), any::<u16>(), any::<u16>(), 0u8..8, any::<u64>())
        .prop_map(|(g, kind, n, r, q, mode, salt)| {
            // mostly a vertex that leads somewhere
            let from: Vec<u64> = if r % 4 == 0 || g.es.is_empty() { g.vs.clone() } else { g.es.iter().map(|e| if kind == HUB_IN && r % 8 > 2 { e.1 } else { e.0 }).collect() };
            let hub = pick(&from, r);
            let others: Vec<u64> = g.vs.iter().copied().filter(|v| *v != hub).collect();
            let to = if others.is_empty() { hub } else { pick(&others, q) };
            let used: BTreeSet<u64> = g.vs.iter().copied().collect();
            let mut new: Vec<u64> = ids_for(mode, n + used.len(), salt).into_iter().filter(|v| !used.contains(v)).collect();
            new.truncate(n);
            let mut more: Vec<(u64, u64)> = vec![];
            for (i, x) in new.iter().enumerate() {
                match kind {
                    HUB_OUT => more.push((hub, *x)),
                    HUB_IN => more.push((*x, hub)),
                    HUB_ALTERNATING => more.push(if i % 2 == 0 { (hub, *x) } else { (*x, hub) }),
                    HUB_MIDS => more.extend([(hub, *x), (*x, to)]),
                    _ => more.extend([(hub, *x), (*x, hub)]),
                }
            }
            let mut es = match salt % 3 {
                0 => g.es.iter().copied().chain(more).collect::<Vec<_>>(),
                _ => more.into_iter().chain(g.es.iter().copied()).collect(),
            };
            if salt % 3 == 2 {
                es = perm(es.len(), salt).into_iter().map(|i| es[i]).collect();
            }
            let vs = if salt >> 8 & 1 == 0 { g.vs.iter().copied().chain(new).collect() } else { new.into_iter().chain(g.vs.iter().copied()).collect() };
            Hub { g: G { vs, es }, hub, base: g.vs }
        })
        .boxed()
}
