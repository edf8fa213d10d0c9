//! C14: cycle search, against backtracking enumeration of simple cycles.
use gc_core::algorithm::cycle;
use gc_core::iter::iter_cycle::{cycle_iter, Cycle};
use gc_core::path::Path;
use gcv::*;
use std::collections::BTreeSet;

const CAP: usize = 3_000;

fn list(c: &Cycle) -> Vec<u64> {
    c.iter().map(un).collect()
}
fn is_cycle(m: &M, l: &[u64]) -> bool {
    let set: BTreeSet<_> = l.iter().collect();
    !l.is_empty() && set.len() == l.len() && (0..l.len()).all(|i| m.e.contains(&(l[i], l[(i + 1) % l.len()])))
}
/// a listed cycle: simple, of the graph, canonical, consistent forms
fn well_formed(m: &M, c: &Cycle) -> CheckResult {
    let l = list(c);
    ensure!(is_cycle(m, &l), "{:?} is not a simple cycle of the graph", l);
    ensure!(l.iter().min() == l.first(), "{:?} does not start with its smallest vertex", l);
    ensure!(c.is_canonical(), "{:?} is canonical, but is_canonical is false", l);
    ensure_eq!(list(&c.canonical()), l, "canonical form of a canonical cycle");
    ensure_eq!(c.len(), l.len(), "len of {:?}", l);
    let p: Vec<u64> = c.as_path().vertices.iter().map(un).collect();
    let mut closed = l.clone();
    closed.push(l[0]);
    ensure_eq!(p, closed, "path form of {:?}", l);
    Ok(())
}
fn check(g: &G, o: &mut Obs) -> CheckResult {
    let m = g.model();
    let Some(all) = m.simple_cycles(CAP, 200_000) else {
        o.excluded = true;
        return Ok(());
    };
    let real = g.build();
    let connected = m.weak_components().len() <= 1;
    // one more than can exist: a listing that repeats itself forever is cut off there
    let got: Vec<Cycle> = sut(|| cycle_iter(&real).take(all.len() + 1).collect());
    let mut seen = BTreeSet::new();
    for c in &got {
        well_formed(&m, c)?;
        ensure!(seen.insert(list(c)), "cycle {:?} is listed twice", list(c));
    }
    if connected {
        if let Some(miss) = all.difference(&seen).next() {
            return Err(format!("cycle {:?} is not listed (listed: {} of {})", miss, seen.len(), all.len()));
        }
        let n = m.v.len();
        let min = all.iter().map(|c| c.len()).min();
        let max = all.iter().map(|c| c.len()).max();
        ensure_eq!(sut(|| cycle::count(&real)), all.len(), "count");
        ensure_eq!(sut(|| cycle::girth(&real)), min, "girth");
        let first = sut(|| cycle::first(&real));
        ensure_eq!(first.is_some(), !all.is_empty(), "first");
        let sets = |v: &[Cycle]| v.iter().map(list).collect::<BTreeSet<_>>();
        let taken = sut(|| cycle::take_all(&real));
        ensure!(taken.len() == all.len() && sets(&taken) == all, "take_all lists {:?}, expected {:?}", sets(&taken), all);
        let mut ks = vec![0, 1, 2, all.len() / 2, all.len(), all.len() + 1];
        ks.dedup();
        for k in ks {
            let t = sut(|| cycle::take(&real, k));
            let s = sets(&t);
            ensure!(t.len() == k.min(all.len()) && s.len() == t.len() && s.is_subset(&all), "take {} lists {:?}", k, s);
            for c in &t {
                well_formed(&m, c)?;
            }
        }
        let pick = |name: &str, c: Option<Cycle>, want: Option<usize>| -> CheckResult {
            match (&c, want) {
                (None, None) => Ok(()),
                (Some(c), Some(w)) if c.len() == w => {
                    well_formed(&m, c)
                }
                _ => Err(format!("{}: got {:?}, expected one of length {:?}", name, c.map(|c| list(&c)), want)),
            }
        };
        if let Some(c) = &first {
            well_formed(&m, c)?;
        }
        pick("shortest", sut(|| cycle::shortest(&real)), min)?;
        pick("longest", sut(|| cycle::longest(&real)), max)?;
        pick("hamiltonian", sut(|| cycle::hamiltonian(&real)), max.filter(|x| *x == n))?;
        o.label_if(max == Some(n) && n > 1, "hamiltonian");
        o.label_if(all.len() >= 2, "2 or more cycles");
        o.label_if(all.is_empty(), "acyclic");
    } else {
        o.label("disconnected");
        o.label_if(seen.len() < all.len(), "disconnected, not all listed");
    }
    o.label_if(m.e.iter().any(|e| e.0 == e.1), "self-loop");
    o.nontrivial_if(all.len() >= 2 && connected);
    same_sets(&real, &m)
}

/// joins the weak components, most of the time by one edge
fn joined(g: G, r: u16) -> G {
    let m = g.model();
    let cs = m.weak_components();
    let mut g = g;
    if r % 6 != 0 {
        for w in cs.windows(2) {
            let a: Vec<u64> = w[0].iter().copied().collect();
            let b: Vec<u64> = w[1].iter().copied().collect();
            let (x, y) = (pick(&a, r), pick(&b, r.rotate_left(5)));
            g.es.push(if r.count_ones() % 2 == 0 { (x, y) } else { (y, x) });
        }
    }
    g
}
fn strat(t: Tier) -> BoxedStrategy<G> {
    let g = prop_oneof![
        4 => graph(1, 7, 14, 14),
        2 => graph_shapes(4, 10, 12, 16, vec![1, 3, 6, 7, 8, 10, 13]),
        1 => graph_shapes(2, 12, 10, 14, vec![2, 5, 8]),
        1 => graph(1, t.pick(8, 9), 20, t.pick(18, 22)),
    ];
    (g, any::<u16>()).prop_map(|(g, r)| joined(g, r)).boxed()
}
/// a core that has cycles, reached from or reaching into other cyclic parts: what a search
/// from a few start vertices easily misses
fn parts(_: Tier) -> BoxedStrategy<G> {
    (proptest::collection::vec((1usize..4, any::<u64>()), 1..5), proptest::collection::vec((any::<u16>(), any::<u16>()), 0..6), any::<u64>(), 0u8..8)
        .prop_map(|(ps, links, salt, mode)| {
            let n: usize = ps.iter().map(|p| p.0).sum();
            let ids = ids_for(mode, n, salt);
            let mut es = BTreeSet::new();
            let mut from = 0;
            let mut starts = vec![];
            for (k, r) in &ps {
                for i in 0..*k {
                    if r % 3 > 0 {
                        es.insert((from + i, from + (i + 1) % k));
                    } else if i + 1 < *k {
                        es.insert((from + i, from + i + 1));
                    }
                }
                starts.push((from, *k, *r));
                from += k;
            }
            for w in starts.windows(2) {
                let a = w[0].0 + (w[0].2 >> 8) as usize % w[0].1;
                let b = w[1].0 + (w[1].2 >> 8) as usize % w[1].1;
                es.insert(if w[1].2 >> 20 & 1 == 0 { (a, b) } else { (b, a) });
            }
            for (a, b) in &links {
                es.insert((*a as usize % n, *b as usize % n));
            }
            let es: Vec<_> = es.into_iter().map(|(a, b)| (ids[a], ids[b])).collect();
            let p = perm(es.len(), salt);
            G { vs: ids, es: p.into_iter().map(|i| es[i]).collect() }
        })
        .boxed()
}
fn ex_total(_: Tier) -> u64 {
    all_digraphs_total(4)
}
fn ex_nth(_: Tier, k: u64) -> G {
    all_digraphs_nth(4, k)
}

// cycles built by hand
fn check_form(l: &Vec<u64>, o: &mut Obs) -> CheckResult {
    let vs: Vec<_> = l.iter().map(|x| vid(*x)).collect();
    let distinct = l.iter().collect::<BTreeSet<_>>().len() == l.len();
    let c = Cycle::from_vertices(&vs);
    let p = Cycle::from_path(&Path::from(&vs));
    ensure_eq!(c, p, "from_vertices and from_path");
    if !distinct {
        ensure!(c.is_none(), "{:?} repeats a vertex, but makes a cycle", l);
        return Ok(());
    }
    let Some(c) = c else {
        ensure!(l.len() < 2, "{:?} does not make a cycle", l);
        return Ok(());
    };
    ensure_eq!(list(&c), *l, "vertices of the cycle");
    let min = l.iter().min();
    ensure_eq!(c.is_canonical(), l.first() == min, "is_canonical of {:?}", l);
    let k = list(&c.canonical());
    ensure!(k.first() == min, "canonical form {:?} of {:?} does not start with the smallest vertex", k, l);
    let at = l.iter().position(|x| Some(x) == min).unwrap();
    let turned: Vec<u64> = l[at..].iter().chain(&l[..at]).copied().collect();
    ensure_eq!(k, turned, "canonical form of {:?}", l);
    for i in (0..l.len()).step_by((l.len() / 600).max(1)) {
        let mut r = vs.clone();
        r.rotate_left(i);
        ensure_eq!(Cycle::from_vertices(&r).map(|x| x.canonical()), Some(c.canonical()), "canonical form of a rotation of {:?}", l);
    }
    let p: Vec<u64> = c.as_path().vertices.iter().map(un).collect();
    ensure!(p.len() == l.len() + 1 && p[..l.len()] == l[..] && p.last() == l.first(), "path form {:?} of cycle {:?}", p, l);
    o.nontrivial_if(at > 0);
    Ok(())
}
fn form(_: Tier) -> BoxedStrategy<Vec<u64>> {
    (0u8..8, 0usize..9, any::<u64>(), any::<bool>())
        .prop_map(|(mode, n, salt, dup)| {
            let mut l = ids_for(mode, n, salt);
            if dup && n > 1 && salt % 4 == 0 {
                l[n - 1] = l[(salt >> 7) as usize % (n - 1)];
            }
            l
        })
        .boxed()
}

/// long cycles, few of them
fn large(t: Tier) -> BoxedStrategy<G> {
    long_graph(14, t.pick(300, 600), LOOPY.to_vec(), 3, false).prop_flat_map(|g| (Just(g), any::<u16>())).prop_map(|(g, r)| joined(g, r)).boxed()
}
const LOOPY: [u8; 7] = [LONG_CYCLE, LONG_CYCLE, LONG_LASSO, LONG_BIDI, LONG_CHAIN, LONG_STAR_OUT, LONG_TREE_IN];
fn huge(t: Tier) -> BoxedStrategy<G> {
    long_graph(600, t.pick(1_100, 2_100), LOOPY.to_vec(), 2, false).prop_flat_map(|g| (Just(g), any::<u16>())).prop_map(|(g, r)| joined(g, r)).boxed()
}
fn deep(t: Tier) -> BoxedStrategy<G> {
    long_graph(4_100, t.pick(4_600, 8_600), vec![LONG_CYCLE, LONG_CYCLE, LONG_LASSO, LONG_CHAIN], 1, false).prop_flat_map(|g| (Just(g), any::<u16>())).prop_map(|(g, r)| joined(g, r)).boxed()
}
fn hub(t: Tier) -> BoxedStrategy<G> {
    hubs(graph(2, 5, 8, 9), 20, t.pick(1_300, 2_100), vec![HUB_OUT, HUB_OUT, HUB_IN, HUB_ALTERNATING, HUB_MIDS, HUB_BIDI]).prop_flat_map(|h| (Just(h.g), any::<u16>())).prop_map(|(g, r)| joined(g, r)).boxed()
}
fn large_form(t: Tier) -> BoxedStrategy<Vec<u64>> {
    form_of(9, t.pick(600, 1100))
}
fn huge_form(t: Tier) -> BoxedStrategy<Vec<u64>> {
    form_of(2_100, t.pick(4_200, 9_000))
}
fn form_of(lo: usize, hi: usize) -> BoxedStrategy<Vec<u64>> {
    (0u8..8, sizes(lo, hi), any::<u64>())
        .prop_map(|(mode, n, salt)| {
            let ids = ids_for(mode, n, salt);
            let mut l: Vec<u64> = perm(n, salt).into_iter().map(|i| ids[i]).collect();
            // ascending but for one
            if salt % 3 == 0 {
                l.sort_unstable();
                let x = l.remove((salt >> 9) as usize % 3);
                l.insert((salt >> 20) as usize % n, x);
            }
            if salt % 4 == 0 {
                l[n - 1] = l[(salt >> 7) as usize % (n - 1)];
            }
            l
        })
        .boxed()
}

fn main() {
    let mut s = Suite::new("C14");
    s.assume("graphs of up to 1100 (2100) vertices, single cycles of up to 4600 (8600), whose cycles can be enumerated; disconnected graphs are held only to soundness and uniqueness of the listing, as documented by the repository");
    s.exhaustive("all-small-digraphs", "all digraphs with up to 4 vertices, self-loops included; non-trivial: connected with 2 or more cycles", ex_total, ex_nth, check);
    s.test("cycles", (80_000, 600_000), "connected with 2 or more cycles", strat, check);
    s.test("linked-parts", (80_000, 600_000), "connected with 2 or more cycles", parts, check);
    s.test("cycle-forms", (20_000, 200_000), "not already canonical", form, check_form);
    s.test("large", (5_000, 50_000), "connected with 2 or more cycles", large, check);
    s.test_shrink("huge", (200, 2_000), 60, "600 to 1100 (2100) vertices", huge, check);
    s.test_shrink("hubs", (500, 5_000), 30, "connected with 2 or more cycles; one vertex of 20 to 1300 (2100) neighbours", hub, check);
    s.test_shrink("deep", (12, 100), 20, "connected with 2 or more cycles, 4100 to 4600 (8600) vertices", deep, check);
    s.test("large-cycle-forms", (6_000, 60_000), "not already canonical", large_form, check_form);
    s.test_shrink("huge-cycle-forms", (120, 1_200), 30, "not already canonical; 2100 to 4200 (9000) vertices", huge_form, check_form);
    s.main()
}
