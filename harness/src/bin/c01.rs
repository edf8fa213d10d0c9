//! C01: the graph store against a pair of sets, over edit histories.
use gc_core::directed_graph::DirectedGraph;
use gcv::*;
use proptest::collection::vec;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    AddV(u64),
    RmV(u64),
    AddE(u64, u64),
    RmE(u64, u64),
    /// re-adds an edge present / removes one present: chosen by rank
    RmNthE(u16),
    RmNthV(u16),
    DupNthE(u16),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    ops: Vec<Op>,
}

fn id() -> BoxedStrategy<u64> {
    prop_oneof![6 => 0u64..6, 2 => 0u64..24, 1 => proptest::sample::select(BOUNDARY_IDS.to_vec())].boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        2 => id().prop_map(Op::AddV),
        2 => id().prop_map(Op::RmV),
        7 => (id(), id()).prop_map(|(a, b)| Op::AddE(a, b)),
        1 => id().prop_map(|a| Op::AddE(a, a)),
        2 => (id(), id()).prop_map(|(a, b)| Op::RmE(a, b)),
        2 => any::<u16>().prop_map(Op::RmNthE),
        1 => any::<u16>().prop_map(Op::RmNthV),
        1 => any::<u16>().prop_map(Op::DupNthE),
    ]
    .boxed()
}
fn strat(t: Tier) -> BoxedStrategy<Case> {
    vec(op(), 0..t.pick(40, 120)).prop_map(|ops| Case { ops }).boxed()
}

fn run_ops(ops: &[Op], o: &mut Obs, every: bool) -> CheckResult {
    run_ops_from(ops, o, if every { 0 } else { ops.len().saturating_sub(1) })
}
/// compares everything after every edit from the given one on
fn run_ops_from(ops: &[Op], o: &mut Obs, from: usize) -> CheckResult {
    let mut g = DirectedGraph::new();
    let mut m = M::new();
    let extra: Vec<u64> = vec![0, 1, 2, 3, 4, 5, 23, u64::MAX, 7777];
    let (mut removed_with_edges, mut loops, mut dups, mut missing) = (false, false, false, false);
    same_graph(&g, &m, &extra).map_err(|e| format!("new graph: {}", e))?;
    for (i, op) in ops.iter().enumerate() {
        let nth_e = |r: u16| {
            let v: Vec<E> = m.e.iter().copied().collect();
            if v.is_empty() { (0, 1) } else { pick(&v, r) }
        };
        let nth_v = |r: u16| {
            let v: Vec<u64> = m.v.iter().copied().collect();
            if v.is_empty() { 0 } else { pick(&v, r) }
        };
        let op = match op {
            Op::RmNthE(r) => { let e = nth_e(*r); Op::RmE(e.0, e.1) }
            Op::DupNthE(r) => { let e = nth_e(*r); Op::AddE(e.0, e.1) }
            Op::RmNthV(r) => Op::RmV(nth_v(*r)),
            x => x.clone(),
        };
        match op {
            Op::AddV(v) => {
                dups |= m.v.contains(&v);
                g.add_vertex(vid(v));
                m.add_v(v);
            }
            Op::RmV(v) => {
                removed_with_edges |= m.e.iter().any(|e| e.0 == v || e.1 == v);
                let got = g.remove_vertex(vid(v));
                let want = m.rm_v(v);
                missing |= !want;
                ensure_eq!(got, want, "step {}: remove_vertex({}) result", i, v);
            }
            Op::AddE(a, b) => {
                loops |= a == b;
                let got = g.add_edge(edge((a, b)));
                let want = m.add_e(a, b);
                dups |= !want;
                ensure_eq!(got, want, "step {}: add_edge({},{}) result", i, a, b);
                let e = edge((a, b));
                let f = gc_core::graph::Edge::from((vid(a), vid(b)));
                ensure!(f == e, "the edge made from the pair ({},{}) is {:?}", a, b, f);
                ensure!(un_edge(&e.reverse()) == (b, a), "reverse of ({},{}) is {:?}", a, b, e.reverse());
                ensure!(e.reverse().reverse() == e, "reverse of reverse of {:?} is {:?}", e, e.reverse().reverse());
            }
            Op::RmE(a, b) => {
                g.remove_edge(edge((a, b)));
                missing |= !m.rm_e(a, b);
            }
            _ => unreachable!(),
        }
        if i >= from {
            same_graph(&g, &m, &extra).map_err(|e| format!("after step {} ({:?}): {}", i, op, e))?;
        }
    }
    equality(&g, &m)?;
    o.label_if(loops, "self-loop");
    o.label_if(removed_with_edges, "vertex removed with edges");
    o.label_if(dups, "repeated edit");
    o.label_if(missing, "no-op removal");
    o.nontrivial_if(m.e.len() >= 2 && (removed_with_edges || missing || dups || loops));
    Ok(())
}
/// The graph equals those made of the same vertices and edges in other orders, and none that differs.
fn equality(g: &DirectedGraph, m: &M) -> CheckResult {
    let made = |vs: &mut dyn Iterator<Item = &u64>, es: &mut dyn Iterator<Item = &E>, edges_first: bool| {
        let mut h = DirectedGraph::new();
        let es: Vec<E> = es.cloned().collect();
        if edges_first {
            es.iter().for_each(|e| drop(h.add_edge(edge(*e))));
        }
        vs.for_each(|v| drop(h.add_vertex(vid(*v))));
        es.iter().for_each(|e| drop(h.add_edge(edge(*e))));
        h
    };
    let mut up = made(&mut m.v.iter(), &mut m.e.iter(), false);
    let mut down = made(&mut m.v.iter().rev(), &mut m.e.iter().rev(), true);
    ensure!(*g == up && up == *g, "not equal to the graph with the same vertices and edges, added in increasing order");
    ensure!(*g == down && down == *g, "not equal to the graph with the same vertices and edges, added in decreasing order");
    ensure!(up == down, "graphs made in increasing and decreasing order are not equal");
    if let Some(x) = (0..).find(|x| !m.v.contains(x)) {
        up.add_vertex(vid(x));
        ensure!(*g != up && up != *g, "equal to a graph with one more vertex, {}", x);
        up.remove_vertex(vid(x));
        // one vertex replaced by another
        if let Some(v) = m.v.iter().find(|v| m.e.iter().all(|e| e.0 != **v && e.1 != **v)) {
            up.remove_vertex(vid(*v));
            up.add_vertex(vid(x));
            ensure!(*g != up && up != *g, "equal to a graph with vertex {} in place of {}", x, v);
        }
    }
    if let Some((a, b)) = m.e.iter().nth(m.e.len() / 2) {
        down.remove_edge(edge((*a, *b)));
        ensure!(*g != down && down != *g, "equal to a graph without the edge ({},{})", a, b);
        if !m.e.contains(&(*b, *a)) {
            down.add_edge(edge((*b, *a)));
            ensure!(*g != down && down != *g, "equal to a graph with the edge ({},{}) reversed", a, b);
        }
    }
    Ok(())
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    run_ops(&c.ops, o, true)
}

// larger graphs, one pass of checks at the end of each phase
fn big(t: Tier) -> BoxedStrategy<Case> {
    let n = t.pick(40u64, 90);
    vec(
        prop_oneof![
            12 => (0..n, 0..n).prop_map(|(a, b)| Op::AddE(a, b)),
            1 => (0..n).prop_map(Op::AddV),
            1 => (0..n).prop_map(Op::RmV),
            3 => any::<u16>().prop_map(Op::RmNthE),
        ],
        100..t.pick(300, 1500),
    )
    .prop_map(|ops| Case { ops })
    .boxed()
}
fn check_big(c: &Case, o: &mut Obs) -> CheckResult {
    run_ops(&c.ops, o, false)
}

// all histories of a few edits on two ids
const SMALL: u64 = 12; // 2 AddV, 2 RmV, 4 AddE, 4 RmE
fn small_op(k: u64) -> Op {
    match k {
        0..=1 => Op::AddV(k),
        2..=3 => Op::RmV(k - 2),
        4..=7 => Op::AddE((k - 4) / 2, (k - 4) % 2),
        _ => Op::RmE((k - 8) / 2, (k - 8) % 2),
    }
}
fn ex_total(t: Tier) -> u64 {
    SMALL.pow(t.pick(4, 6))
}
fn ex_nth(t: Tier, mut k: u64) -> Case {
    let mut ops = vec![];
    for _ in 0..t.pick(4, 6) {
        ops.push(small_op(k % SMALL));
        k /= SMALL;
    }
    Case { ops }
}

/// vertices with very many edges, in both directions, and what is left when they go
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Hubs {
    mode: u8,
    salt: u64,
    n: usize,
    hubs: usize,
    /// of every 8 edges: how many leave the hub
    out: u8,
    ops: Vec<Op>,
}
fn hubs(t: Tier) -> BoxedStrategy<Hubs> {
    hubs_of(20, t.pick(640, 1100), 12)
}
fn huge_hubs(t: Tier) -> BoxedStrategy<Hubs> {
    hubs_of(1_000, t.pick(9_000, 20_000), 5)
}
fn hubs_of(lo: usize, hi: usize, edits: usize) -> BoxedStrategy<Hubs> {
    let op = prop_oneof![
        1 => any::<u64>().prop_map(Op::AddV),
        2 => (0u64..4).prop_map(Op::RmV),
        2 => any::<u64>().prop_map(Op::RmV),
        3 => (0u64..4, any::<u64>()).prop_map(|(a, b)| Op::AddE(a, b)),
        3 => (any::<u64>(), 0u64..4).prop_map(|(a, b)| Op::AddE(a, b)),
        2 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| Op::AddE(a, b)),
        3 => any::<u16>().prop_map(Op::RmNthE),
        2 => any::<u16>().prop_map(Op::DupNthE),
        1 => any::<u16>().prop_map(Op::RmNthV),
    ];
    (0u8..8, any::<u64>(), sizes(lo, hi), 1usize..3, 0u8..9, vec(op, 0..edits)).prop_map(|(mode, salt, n, hubs, out, ops)| Hubs { mode, salt, n, hubs, out, ops }).boxed()
}
fn check_hubs(c: &Hubs, o: &mut Obs) -> CheckResult {
    let ids = ids_for(c.mode, c.n, c.salt);
    let id = |x: u64| ids[x as usize % c.n];
    let mut ops: Vec<Op> = vec![];
    for h in 0..c.hubs {
        for i in 0..c.n {
            let out = (mix(c.salt ^ i as u64) % 8) < c.out as u64;
            ops.push(if out { Op::AddE(ids[h], ids[i]) } else { Op::AddE(ids[i], ids[h]) });
        }
    }
    let from = ops.len();
    ops.extend(c.ops.iter().map(|x| match x {
        Op::AddV(a) => Op::AddV(id(*a)),
        Op::RmV(a) => Op::RmV(id(*a)),
        Op::AddE(a, b) => Op::AddE(id(*a), id(*b)),
        x => x.clone(),
    }));
    run_ops_from(&ops, o, from.saturating_sub(2))?;
    o.label_if(c.n > 256, "more than 256 edges at a vertex");
    Ok(())
}

fn main() {
    let mut s = Suite::new("C01");
    s.assume("the return values of add_vertex and remove_edge are not part of the property (remove_edge documents its value as unreliable)");
    s.exhaustive("all-short-histories", "every history of 4 (thorough: 6) edits over two vertex ids; non-trivial when at least 2 edges remain after a repeated edit, a no-op removal, a self-loop or the removal of a vertex with edges", ex_total, ex_nth, check);
    s.test("histories", (24_000, 400_000), "at least 2 edges remain after a repeated edit, a no-op removal, a self-loop or the removal of a vertex with edges; every query compared after every edit", strat, check);
    s.test("big-histories", (1_500, 20_000), "as above on graphs of 40 (90) vertices", big, check_big);
    s.test("hubs", (1_000, 12_000), "a vertex with 20 to 640 (1100) edges, then up to 12 edits, every query compared after each", hubs, check_hubs);
    s.test_shrink("huge-hubs", (100, 1_000), 60, "a vertex with 1000 to 9000 (20000) edges, then up to 5 edits, every query compared after each", huge_hubs, check_hubs);
    s.main()
}
