//! C24: paths, against the list of vertices they are made from.
use gc_core::graph::Edge;
use gc_core::path::{Path, ScoredPath};
use gcv::*;
use proptest::collection::vec;
use std::collections::BTreeSet;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    l: Vec<u64>,
    /// how much of it is appended one by one
    tail: u16,
    probe: Vec<u64>,
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let l = &c.l;
    let ids: Vec<_> = l.iter().map(|v| vid(*v)).collect();
    // built at once, and from a part of it by appending; every part stays as it was
    let at = l.len() - (c.tail as usize).min(l.len());
    let mut p = if at == 0 { Path::empty() } else { Path::from(&ids[..at].to_vec()) };
    for v in &ids[at..] {
        let before = p.clone();
        let longer = p.append(*v);
        ensure_eq!(p, before, "path after appending {:?} to a copy of it", v);
        p = longer;
    }
    ensure_eq!(p, Path::from(&ids), "the path appended one by one and the path made at once");
    let got: Vec<u64> = p.vertices.iter().map(un).collect();
    ensure_eq!(&got, l, "vertices of the path");
    let got: Vec<u64> = p.to_vertex_list().map(un).collect();
    ensure_eq!(&got, l, "to_vertex_list");
    ensure_eq!(p.size(), l.len(), "size of {:?}", l);
    ensure_eq!(p.is_empty(), l.is_empty(), "is_empty of {:?}", l);
    ensure_eq!(p.first().map(un), l.first().copied(), "first of {:?}", l);
    ensure_eq!(p.last().map(un), l.last().copied(), "last of {:?}", l);
    let pairs: Vec<E> = l.windows(2).map(|w| (w[0], w[1])).collect();
    let got: Vec<E> = p.to_edge_list().map(|e: Edge| un_edge(&e)).collect();
    ensure_eq!(got, pairs, "to_edge_list of {:?}", l);
    let set: BTreeSet<u64> = l.iter().copied().collect();
    ensure_eq!(p.contains_cycle(), set.len() < l.len(), "contains_cycle of {:?}", l);
    // membership, for some of its vertices and some others
    let some: Vec<u64> = l.iter().copied().step_by(1 + l.len() / 6).chain(c.probe.iter().copied()).chain(l.last().copied()).collect();
    let all: BTreeSet<E> = pairs.iter().copied().collect();
    for a in &some {
        ensure_eq!(p.contains_vertex(&vid(*a)), set.contains(a), "contains_vertex({}) of {:?}", a, l);
        for b in &some {
            ensure_eq!(p.contains_edge(&edge((*a, *b))), all.contains(&(*a, *b)), "contains_edge({:?}) of {:?}", (a, b), l);
        }
    }
    for e in &pairs {
        ensure!(p.contains_edge(&edge(*e)), "contains_edge({:?}) of {:?} is false", e, l);
        ensure_eq!(p.contains_edge(&edge((e.1, e.0))), all.contains(&(e.1, e.0)), "contains_edge({:?}) of {:?}", (e.1, e.0), l);
    }
    o.label(if set.len() < l.len() { "repeats a vertex" } else { "no repetition" });
    o.label_if(pairs.len() > all.len(), "repeats an edge");
    o.label_if(l.first() == l.last() && l.len() > 1, "closed");
    o.nontrivial_if(l.len() >= 3);
    Ok(())
}
fn strat(_: Tier) -> BoxedStrategy<Case> {
    let id = prop_oneof![6 => 0u64..5, 2 => 0u64..40, 1 => proptest::sample::select(BOUNDARY_IDS.to_vec()), 1 => any::<u64>()];
    (vec(id.clone(), 0..10), 0u16..10, vec(id, 0..4)).prop_map(|(l, tail, probe)| Case { l, tail, probe }).boxed()
}
fn large(t: Tier) -> BoxedStrategy<Case> {
    large_of(10, t.pick(600, 1100), 700)
}
fn huge(t: Tier) -> BoxedStrategy<Case> {
    large_of(1_000, t.pick(9_000, 66_000), 60)
}
fn large_of(lo: usize, hi: usize, tail: u16) -> BoxedStrategy<Case> {
    (0u8..8, any::<u64>(), sizes(lo, hi), 0..tail, vec(any::<u16>(), 0..3))
        .prop_map(|(mode, salt, n, tail, dup)| {
            let mut l = ids_for(mode, n, salt);
            // at most a few repetitions
            for d in dup {
                let v = pick(&l, d.rotate_left(7));
                let at = d as usize % (l.len() + 1);
                l.insert(at, v);
            }
            Case { l, tail, probe: vec![salt, n as u64] }
        })
        .boxed()
}
// all vertex lists of up to 5 (6) over 3 ids
fn ex_total(t: Tier) -> u64 {
    (0..=t.pick(5u32, 7)).map(|k| 3u64.pow(k)).sum()
}
fn ex_nth(t: Tier, mut k: u64) -> Case {
    for len in 0..=t.pick(5u32, 7) {
        if k < 3u64.pow(len) {
            let l = (0..len).map(|i| k / 3u64.pow(i) % 3).collect();
            return Case { l, tail: (k % 4) as u16, probe: vec![0, 1, 2, 3] };
        }
        k -= 3u64.pow(len);
    }
    unreachable!()
}

// scored paths compare by score
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Scores {
    a: (Vec<u64>, i64),
    b: (Vec<u64>, i64),
}
fn check_order(c: &Scores, o: &mut Obs) -> CheckResult {
    let make = |x: &(Vec<u64>, i64)| ScoredPath { path: Path::from(&x.0.iter().map(|v| vid(*v)).collect()), score: x.1 };
    let (a, b) = (make(&c.a), make(&c.b));
    let want = c.a.1.cmp(&c.b.1);
    ensure_eq!(a.cmp(&b), want, "cmp of scores {} and {}", c.a.1, c.b.1);
    ensure_eq!(a.partial_cmp(&b), Some(want), "partial_cmp of scores {} and {}", c.a.1, c.b.1);
    ensure_eq!(a == b, c.a == c.b, "equality of {:?} and {:?}", c.a, c.b);
    ensure_eq!(a < b, c.a.1 < c.b.1, "< of scores {} and {}", c.a.1, c.b.1);
    ensure_eq!(a > b, c.a.1 > c.b.1, "> of scores {} and {}", c.a.1, c.b.1);
    o.label_if(c.a.1 == c.b.1, "same score");
    o.nontrivial_if(c.a.0 != c.b.0);
    Ok(())
}
fn order(_: Tier) -> BoxedStrategy<Scores> {
    let s = prop_oneof![4 => -3i64..4, 1 => any::<i64>(), 1 => proptest::sample::select(vec![i64::MIN, i64::MAX, 1 << 31, 1 << 32, 1 << 53, (1 << 53) + 1, -(1 << 31), -(1 << 53) - 1])];
    let p = (vec(0u64..4, 0..4), s.clone());
    (p.clone(), p, 0i64..3, any::<bool>())
        .prop_map(|(a, mut b, d, near)| {
            if near {
                b.1 = a.1.saturating_add(d);
            }
            Scores { a, b }
        })
        .boxed()
}
fn main() {
    let mut s = Suite::new("C24");
    s.exhaustive("all-short-paths", "all lists of up to 5 (7) vertices over 3 ids; non-trivial: 3 or more vertices", ex_total, ex_nth, check);
    s.test("paths", (60_000, 600_000), "3 or more vertices", strat, check);
    s.test("long-paths", (3_000, 30_000), "10 to 600 (1100) vertices", large, check);
    s.test_shrink("huge-paths", (100, 1_000), 60, "1000 to 9000 (66000) vertices", huge, check);
    s.test("scores", (40_000, 400_000), "different paths", order, check_order);
    s.main()
}
