//! C08: topological sort, against acyclicity by repeated stripping of sinks.
use gc_core::algorithm::topo_sort;
use gcv::*;
use std::collections::BTreeMap;

fn valid_order(m: &M, order: &[u64]) -> CheckResult {
    let mut pos = BTreeMap::new();
    for (i, v) in order.iter().enumerate() {
        ensure!(pos.insert(*v, i).is_none(), "vertex {} is listed twice in {:?}", v, order);
        ensure!(m.v.contains(v), "{} in {:?} is not a vertex", v, order);
    }
    for v in &m.v {
        ensure!(pos.contains_key(v), "vertex {} is missing from {:?}", v, order);
    }
    for (a, b) in &m.e {
        ensure!(pos[a] < pos[b], "edge ({},{}) goes backwards in {:?}", a, b, order);
    }
    Ok(())
}
fn classes(m: &M, cyc: bool, o: &mut Obs) {
    o.label(if cyc { "cyclic" } else { "acyclic" });
    o.label_if(m.e.iter().any(|e| e.0 == e.1), "self-loop");
    let ends: std::collections::BTreeSet<u64> = m.e.iter().flat_map(|e| [e.0, e.1]).collect();
    o.label_if(ends.len() < m.v.len(), "isolated vertex");
    o.nontrivial_if(m.e.len() >= 3);
}
fn check(g: &G, o: &mut Obs) -> CheckResult {
    let m = g.model();
    let cyc = m.has_cycle();
    let real = g.build();
    let order = sut(|| topo_sort::topological_sort(&real));
    match &order {
        None => ensure!(cyc, "no order for an acyclic graph"),
        Some(l) => {
            let l: Vec<u64> = l.iter().map(un).collect();
            ensure!(!cyc, "order {:?} for a cyclic graph", l);
            valid_order(&m, &l)?;
        }
    }
    ensure_eq!(sut(|| topo_sort::is_dag(&real)), !cyc, "is_dag");
    match sut(|| topo_sort::try_dag(&real)) {
        None => ensure!(cyc, "try_dag is None for an acyclic graph"),
        Some(d) => {
            ensure!(!cyc, "try_dag accepts a cyclic graph");
            same_sets(d.as_graph(), &m)?;
        }
    }
    same_sets(&real, &m).map_err(|e| format!("sorting changed the graph: {}", e))?;
    classes(&m, cyc, o);
    Ok(())
}
fn strat(t: Tier) -> BoxedStrategy<G> {
    prop_oneof![
        4 => graph(0, 9, 24, 60),
        4 => dag(1, 12, 30, 60),
        3 => almost_dag(),
        1 => dag(10, t.pick(40, 100), 160, 400),
        1 => graph(10, t.pick(40, 100), 160, 400),
    ]
    .boxed()
}
/// a DAG with one extra edge, often closing a (long) cycle, or a self-loop
fn almost_dag() -> BoxedStrategy<G> {
    (dag(2, 12, 30, 60), any::<u16>(), any::<u16>())
        .prop_map(|(mut g, a, b)| {
            let e = (pick(&g.vs, a), pick(&g.vs, b));
            if !g.es.contains(&e) {
                g.es.push(e);
            }
            g
        })
        .boxed()
}
fn ex_total(t: Tier) -> u64 {
    all_digraphs_total(t.pick(3, 4))
}
fn ex_nth(t: Tier, k: u64) -> G {
    all_digraphs_nth(t.pick(3, 4), k)
}

// the command
fn check_cli(g: &G, o: &mut Obs) -> CheckResult {
    let m = g.model();
    let cyc = m.has_cycle();
    let s = cli::Scratch::new();
    s.put_graph("d", &g.vs, &g.es);
    let out = cli::cmd("gc-topo-sort", &s.root).args(["-p", "d"]).run()?;
    ensure!(out.ok(), "gc-topo-sort failed: {}", out.brief());
    let not_dag = out.stdout.contains("not a DAG");
    ensure_eq!(not_dag, cyc, "gc-topo-sort says 'not a DAG' ({})", out.brief());
    if !cyc {
        let tail = out.stdout.rsplit(':').next().unwrap_or("");
        let l: Vec<u64> = tail
            .split_whitespace()
            .map(|x| x.parse::<u64>().map_err(|_| format!("unexpected output {}", out.brief())))
            .collect::<Result<_, _>>()?;
        valid_order(&m, &l)?;
    }
    classes(&m, cyc, o);
    Ok(())
}
fn cli_strat(_: Tier) -> BoxedStrategy<G> {
    prop_oneof![graph(0, 9, 24, 60), dag(1, 14, 30, 60), almost_dag()].boxed()
}

// large graphs
fn large(t: Tier) -> BoxedStrategy<G> {
    let all = || (0..11u8).collect::<Vec<_>>();
    prop_oneof![
        3 => long_graph(16, t.pick(640, 2100), vec![0, 2, 3, 4, 5, 6, 7, 8], 20, true),
        3 => long_graph(16, t.pick(640, 2100), all(), 3, false),
        2 => dag(100, t.pick(400, 700), 1500, 3000),
        1 => (dag(30, 60, 2000, 2000), any::<u16>(), any::<u16>()).prop_map(|(mut g, a, b)| {
            let e = (pick(&g.vs, a), pick(&g.vs, b));
            if !g.es.contains(&e) {
                g.es.push(e);
            }
            g
        }),
    ]
    .boxed()
}
fn huge(t: Tier) -> BoxedStrategy<G> {
    let hi = t.pick(10_000, 20_000);
    prop_oneof![long_graph(1_000, hi, vec![0, 2, 3, 4, 5, 6, 7, 8], 20, true), long_graph(1_000, hi, (0..11).collect(), 2, false)].boxed()
}
fn large_cli(t: Tier) -> BoxedStrategy<G> {
    prop_oneof![long_graph(16, t.pick(600, 1100), vec![0, 2, 3, 4, 5, 6, 7, 8], 20, true), long_graph(16, 600, (0..11).collect(), 3, false)].boxed()
}

fn shallow_g(_: Tier) -> BoxedStrategy<G> {
    prop_oneof![2 => shallow(30, true), 1 => long_graph(65_000, 66_500, vec![LONG_CHAIN, LONG_LOCAL_DAG, LONG_CYCLE, LONG_LASSO], 3, true)].boxed()
}
fn main() {
    let mut s = Suite::new("C08");
    s.exhaustive("all-small-digraphs", "all directed graphs on up to 3 (thorough: 4) vertices, self-loops included; non-trivial: at least 3 edges", ex_total, ex_nth, check);
    s.test("sort", (40_000, 800_000), "at least 3 edges", strat, check);
    s.test("gc-topo-sort", (600, 8_000), "at least 3 edges", cli_strat, check_cli);
    s.test("large", (2_000, 20_000), "16 to 640 (2100) vertices, degrees up to as many", large, check);
    s.test_shrink("huge", (100, 1_000), 60, "1000 to 10000 (20000) vertices", huge, check);
    s.test_shrink("65536-vertices", (16, 100), 10, "65000 to 66500 vertices", shallow_g, check);
    s.test_shrink("gc-topo-sort-large", (120, 1_500), 300, "16 to 600 (1100) vertices", large_cli, check_cli);
    s.test_shrink("gc-topo-sort-65536", (16, 100), 10, "65000 to 66500 vertices", shallow_g, check_cli);
    s.main()
}
