//! C11: constrained shortest path, against enumeration of walks by increasing cost.
use gc_core::path::Path;
use gc_core::search::a_star;
use gcv::csp::*;
use gcv::ct::*;
use gcv::wgraph::*;
use gcv::*;
use proptest::collection::vec;
use std::cell::Cell;
use std::collections::HashMap;

const BUDGET: Budget = Budget { walks: 12_000, len: 24 };
const LONG: Budget = Budget { walks: 2_000, len: 450 };
const DEEP: Budget = Budget { walks: 14_000, len: 6_000 };
const HUGE: Budget = Budget { walks: 6_000, len: 1_700 };

enum Got {
    Path(Vec<u64>, i64),
    None,
    TooLong,
}
fn search(c: &Case, m: &M, w: &HashMap<E, i64>, s: u64, t: u64, cs: &[Ct], limit: u64) -> Result<Got, String> {
    let real = c.wg.g.build();
    let to = distances_to(m, w, t);
    let far = to.values().copied().max().unwrap_or(0) + 1;
    let calls = Cell::new(0u64);
    let r = guarded(|| {
        a_star::constrained_shortest_path(
            &real,
            |_, p: &Path| {
                calls.set(calls.get() + 1);
                if calls.get() > limit {
                    panic!("too many steps");
                }
                c.wg.cost(w, &p.vertices.iter().map(un).collect::<Vec<_>>())
            },
            |_, p: &Path| if c.h == 1 { p.last().map(|v| to.get(&v.0).copied().unwrap_or(far)).unwrap_or(0) } else { 0 },
            vid(s),
            vid(t),
            cs.iter().map(|x| x.real()).collect(),
        )
    });
    match r {
        Err(_) if calls.get() > limit => Ok(Got::TooLong),
        Err(p) => Err(format!("the search panicked: {}", p)),
        Ok(None) => Ok(Got::None),
        Ok(Some(p)) => Ok(Got::Path(p.path.vertices.iter().map(un).collect(), p.score)),
    }
}
fn judge(m: &M, s: u64, t: u64, cs: &[Ct], got: &Got, want: &Ref, cost: &dyn Fn(&[u64]) -> i64) -> CheckResult {
    match (got, want) {
        (_, Ref::Unknown) => unreachable!(),
        (Got::TooLong, Ref::None(n)) => Err(format!("no walk satisfies the constraints ({} candidates), but the search does not end", n)),
        (Got::TooLong, Ref::Found(k, n)) => Err(format!("a walk of cost {} exists ({} candidates up to it), but the search does not find it", k, n)),
        (Got::None, Ref::None(_)) => Ok(()),
        (Got::None, Ref::Found(k, _)) => Err(format!("no walk from {} to {} reported, but there is one of cost {}", s, t, k)),
        (Got::Path(l, score), _) => {
            ensure!(m.is_walk(l) && l[0] == s && l.last() == Some(&t), "{:?} is not a walk from {} to {}", l, s, t);
            ensure_eq!(*score, cost(l), "score of {:?} against its cost", l);
            for c in cs {
                ensure!(c.holds(l, *score), "{:?} (score {}) violates {:?}", l, score, c);
            }
            match want {
                Ref::Found(k, _) => ensure_eq!(*score, *k, "cost of {:?} against the minimum", l),
                _ => return Err(format!("harness: {:?} satisfies everything but the reference found nothing", l)),
            }
            Ok(())
        }
    }
}
fn labels(want: &Ref, cs: &[Ct], m: &M, w: &HashMap<E, i64>, s: u64, t: u64, budget: Budget, o: &mut Obs) {
    match want {
        Ref::Found(k, _) => {
            let free = match reference(m, w, s, t, &[], budget) { Ref::Found(f, _) => f, _ => *k };
            o.label_if(*k > free, "constraints make it dearer");
            o.label("feasible");
            o.nontrivial_if(*k > free && !cs.is_empty());
        }
        _ => {
            o.label("infeasible");
            o.nontrivial_if(m.dist(s).contains_key(&t));
        }
    }
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    check_with(c, BUDGET, o)
}
fn check_long(c: &Case, o: &mut Obs) -> CheckResult {
    check_with(c, LONG, o)
}
fn check_huge(c: &Case, o: &mut Obs) -> CheckResult {
    check_with(c, HUGE, o)
}
fn check_deep(c: &Case, o: &mut Obs) -> CheckResult {
    check_with(c, DEEP, o)
}
fn check_cli_huge(c: &Cl, o: &mut Obs) -> CheckResult {
    check_cli_with(c, HUGE, o)
}
const HUB: Budget = Budget { walks: 9_000, len: 40 };
fn check_hub(c: &Case, o: &mut Obs) -> CheckResult {
    check_with(c, HUB, o)
}
fn check_with(c: &Case, budget: Budget, o: &mut Obs) -> CheckResult {
    let m = c.wg.g.model();
    let vs: Vec<u64> = m.v.iter().copied().collect();
    if vs.is_empty() {
        o.excluded = true;
        return Ok(());
    }
    let (s, t) = (pick(&vs, c.s), pick(&vs, c.t));
    let cs: Vec<Ct> = c.cs.iter().map(|x| rename(x, &|i| vertex_of(&vs, i))).collect();
    let w = c.wg.map();
    let want = reference(&m, &w, s, t, &cs, budget);
    let n = match want {
        // not decided within the budget: too big, or the listed non-termination
        Ref::Unknown => {
            o.excluded = true;
            return Ok(());
        }
        Ref::Found(_, n) | Ref::None(n) => n,
    };
    let deg = vs.iter().map(|v| m.succ(*v).count()).max().unwrap_or(0) as u64;
    let got = search(c, &m, &w, s, t, &cs, (n + 50) * (deg + 1) * 30)?;
    judge(&m, s, t, &cs, &got, &want, &|p| c.wg.cost(&w, p))?;
    labels(&want, &cs, &m, &w, s, t, budget, o);
    o.label_if(c.h == 1, "with heuristic");
    Ok(())
}
// the command: unit costs and options
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Cl {
    g: G,
    s: u16,
    t: u16,
    include: Vec<u64>,
    exclude: Vec<u64>,
    ordered: Vec<u64>,
    with_cycle: bool,
    no_cycle: bool,
    /// min, max, exact length; min, max, exact score
    n: [Option<u16>; 6],
}
fn opt(p: u32) -> BoxedStrategy<Option<u16>> {
    prop_oneof![10 => Just(None), p => prop_oneof![12 => 0u16..8, 1 => 65_000u16..65_016, 1 => 64_000u16..64_016].prop_map(Some)].boxed()
}
fn cl(_: Tier) -> BoxedStrategy<Cl> {
    let some = |p: u32, lo: usize| prop_oneof![10 => Just(vec![]), p => vec(0u64..8, lo..4)];
    (
        prop_oneof![graph(1, 7, 14, 16), graph_shapes(3, 6, 8, 12, vec![2, 4, 8])],
        (any::<u16>(), any::<u16>()),
        (some(5, 1), some(4, 1), some(4, 2)),
        (proptest::bool::weighted(0.15), proptest::bool::weighted(0.2)),
        [opt(3), opt(8), opt(2), opt(3), opt(6), opt(2)],
    )
        .prop_map(|(g, (s, t), (include, exclude, ordered), (with_cycle, no_cycle), n)| Cl { g, s, t, include, exclude, ordered, with_cycle, no_cycle, n })
        .boxed()
}
fn cl_long(t: Tier) -> BoxedStrategy<Cl> {
    cl_of(12, t.pick(300, 420))
}
fn cl_huge(t: Tier) -> BoxedStrategy<Cl> {
    cl_of(500, t.pick(1_100, 1_500))
}
fn cl_of(lo: usize, hi: usize) -> BoxedStrategy<Cl> {
    let k = vec![LONG_CHAIN, LONG_CYCLE, LONG_TWO_ROUTES, LONG_TWO_ROUTES, LONG_LASSO, LONG_LOCAL_DAG];
    let some = |p: u32, lo: usize, hi: usize| prop_oneof![10 => Just(vec![]), p => vec(0u64..100_000, lo..hi)];
    (
        long_graph(lo, hi, k, 2, false),
        (any::<u16>(), any::<u16>()),
        (some(5, 1, 20), some(4, 1, 4), some(4, 2, 8)),
        (proptest::bool::weighted(0.1), proptest::bool::weighted(0.2)),
        (0u8..7, 0u16..8),
    )
        .prop_map(|(g, (s, t), (include, exclude, ordered), (with_cycle, no_cycle), (kind, slack))| {
            let m = g.model();
            let vs: Vec<u64> = m.v.iter().copied().collect();
            let at = |v: u64| ((vs.iter().position(|x| *x == v).unwrap() * 65536 + 65535) / vs.len()) as u16;
            let a = deep_start(&m, s);
            let d = m.dist(a);
            let far = *d.iter().max_by_key(|x| (x.1, x.0)).unwrap().0;
            // bounds around the distance to the far end
            let mut n = [None; 6];
            let len = d[&far] as u16 + slack;
            match kind {
                0 => (n[0], n[1]) = (Some(len), Some(len + 9)),
                1 => n[1] = Some(len),
                2 => n[2] = Some(len),
                3 => (n[3], n[4]) = (Some(len), Some(len + 9)),
                4 => n[4] = Some(len),
                5 => n[5] = Some(len),
                _ => {}
            }
            let t = if t % 8 == 0 { t } else { at(far) };
            let w = way(&m, a, pick(&vs, t));
            let v = |c: Ct| match along(&c, &vs, &w) {
                Ct::V(i) => vec![i],
                Ct::Ord(l) => l,
                Ct::Not(x) => match *x { Ct::V(i) => vec![i], _ => vec![] },
                _ => vec![],
            };
            let include = include.into_iter().flat_map(|i| v(Ct::V(i))).collect();
            let exclude = exclude.into_iter().flat_map(|i| v(Ct::Not(Box::new(Ct::V(i))))).collect();
            let ordered = if ordered.is_empty() { ordered } else { v(Ct::Ord(ordered)) };
            Cl { g, s: at(a), t, include, exclude, ordered, with_cycle, no_cycle, n }
        })
        .boxed()
}
fn check_cli(c: &Cl, o: &mut Obs) -> CheckResult {
    check_cli_with(c, BUDGET, o)
}
fn check_cli_long(c: &Cl, o: &mut Obs) -> CheckResult {
    check_cli_with(c, LONG, o)
}
fn check_cli_with(c: &Cl, budget: Budget, o: &mut Obs) -> CheckResult {
    let m = c.g.model();
    let vs: Vec<u64> = m.v.iter().copied().collect();
    let (a, b) = (pick(&vs, c.s), pick(&vs, c.t));
    let name = |l: &Vec<u64>| -> Vec<u64> { distinct(l.iter().map(|i| vertex_of(&vs, *i)).collect()) };
    let (inc, exc, ord) = (name(&c.include), name(&c.exclude), name(&c.ordered));
    let n = |x: Ct| Ct::Not(Box::new(x));
    let mut cs: Vec<Ct> = vec![];
    let s = cli::Scratch::new();
    s.put_graph("d", &c.g.vs, &c.g.es);
    let mut cmd = cli::cmd("gc-csp", &s.root).args(["-p", "d"]).arg("-s").arg(a).arg("-e").arg(b);
    if !inc.is_empty() {
        cmd = cmd.arg("--include").args(&inc);
        cs.extend(inc.iter().map(|v| Ct::V(*v)));
    }
    if !exc.is_empty() {
        cmd = cmd.arg("--exclude").args(&exc);
        cs.extend(exc.iter().map(|v| n(Ct::V(*v))));
    }
    if ord.len() >= 2 {
        cmd = cmd.arg("--ordered").args(&ord);
        cs.push(Ct::Ord(ord.clone()));
    }
    if c.with_cycle {
        cmd = cmd.arg("--include-cycle");
        cs.push(Ct::Cyc);
    }
    if c.no_cycle {
        cmd = cmd.arg("--no-cycle");
        cs.push(n(Ct::Cyc));
    }
    for (i, name) in ["--min-length", "--max-length", "--exact-length", "--min-score", "--max-score", "--exact-score"].iter().enumerate() {
        if let Some(x) = c.n[i] {
            // 65000 and up: a huge bound; 64000 and up: a negative score
            let (l, k) = match x {
                65_015 => (usize::MAX, i64::MAX),
                65_000.. => (LIMITS[x as usize % 16] as usize, LIMITS[x as usize % 16] as i64),
                64_000.. => (0, -(LIMITS[x as usize % 16] as i64)),
                _ => (x as usize, x as i64),
            };
            cmd = cmd.arg(format!("{}={}", name, if i < 3 { l.to_string() } else { k.to_string() }));
            match i {
                0 => cs.push(Ct::MinL(l)),
                1 => cs.push(Ct::MaxL(l)),
                2 => cs.extend([Ct::MinL(l), Ct::MaxL(l)]),
                3 => cs.push(Ct::MinS(k)),
                4 => cs.push(Ct::MaxS(k)),
                _ => cs.extend([Ct::MinS(k), Ct::MaxS(k)]),
            }
        }
    }
    let w: HashMap<E, i64> = m.e.iter().map(|e| (*e, 1)).collect();
    let want = reference(&m, &w, a, b, &cs, budget);
    if let Ref::Unknown = want {
        o.excluded = true;
        return Ok(());
    }
    let out = cmd.run()?;
    ensure!(out.ok(), "gc-csp failed: {}", out.brief());
    let got = if out.stdout.contains("not reachable") {
        Got::None
    } else {
        let lines: Vec<&str> = out.stdout.lines().collect();
        let at = lines.iter().position(|l| l.contains("total cost of")).ok_or(format!("unexpected output {}", out.brief()))?;
        let score = lines[at].trim_end_matches('.').rsplit(' ').next().unwrap_or("").parse::<i64>().map_err(|_| format!("unexpected output {}", out.brief()))?;
        let l: Vec<u64> = lines[at + 1..].iter().filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse::<u64>().map_err(|_| format!("unexpected output {}", out.brief()))).collect::<Result<_, _>>()?;
        Got::Path(l, score)
    };
    judge(&m, a, b, &cs, &got, &want, &|p| p.len() as i64 - 1).map_err(|e| format!("{}: {}", cmd.show(), e))?;
    labels(&want, &cs, &m, &w, a, b, budget, o);
    o.label_if(cs.len() >= 3, "3 or more constraints");
    Ok(())
}

fn known(sig: &str, input: &serde_json::Value) -> Option<String> {
    if sig != "unbounded-infeasible-search" {
        return None;
    }
    let c: Case = serde_json::from_value(input.clone()).ok()?;
    let m = c.wg.g.model();
    let vs: Vec<u64> = m.v.iter().copied().collect();
    let (s, t) = (pick(&vs, c.s), pick(&vs, c.t));
    let cs: Vec<Ct> = c.cs.iter().map(|x| rename(x, &|i| vertex_of(&vs, i))).collect();
    let w = c.wg.map();
    match search(&c, &m, &w, s, t, &cs, 3_000) {
        Ok(Got::TooLong) => Some("constrained_shortest_path searches forever when no walk satisfies the constraints, none of them bounds the walk and a cycle is reachable from the start (over 3000 steps on a graph of 3 vertices)".to_string()),
        _ => None,
    }
}

fn cl_laps(_: Tier) -> BoxedStrategy<Cl> {
    (ring(), any::<u16>(), any::<u16>(), prop_oneof![2 => Just(vec![]), 1 => vec(0u64..12, 1..3)], any::<bool>(), (0u8..4, prop_oneof![1 => 1u16..40, 2 => 40u16..420]), 0u16..12)
        .prop_map(|(g, s, t, include, with_cycle, (kind, len), slack)| {
            let mut n = [None; 6];
            match kind {
                0 => n[2] = Some(len),
                1 => (n[0], n[1]) = (Some(len), Some(len + slack)),
                2 => n[5] = Some(len),
                _ => (n[3], n[4]) = (Some(len), Some(len + slack)),
            }
            Cl { g, s, t, include, exclude: vec![], ordered: vec![], with_cycle, no_cycle: false, n }
        })
        .boxed()
}
fn main() {
    let mut s = Suite::new("C11");
    s.assume("edge costs are positive and both ends are vertices of the graph");
    s.assume("cases whose reference enumeration does not end within its budget are left out and counted: those are the listed known finding (infeasible and unbounded) or too big");
    s.exhaustive("all-pairs-of-constraints", "5 fixed 4-vertex graphs x all ends x all ordered pairs of 42 constraints, walks of at most 6 vertices; non-trivial: infeasible although the end is reachable, or dearer than without constraints", ex_total, ex_nth, check);
    s.test("search", (60_000, 700_000), "infeasible although the end is reachable, or dearer than without constraints", strat, check);
    s.test("gc-csp", (1_500, 20_000), "infeasible although the end is reachable, or dearer than without constraints", cl, check_cli);
    s.known_finding(known);
    s.test("large", (4_000, 60_000), "infeasible although the end is reachable, or dearer than without constraints", long, check_long);
    s.test("laps", (3_000, 40_000), "infeasible although the end is reachable, or dearer than without constraints", laps, check_long);
    s.test("gc-csp-laps", (500, 6_000), "infeasible although the end is reachable, or dearer than without constraints", cl_laps, check_cli_long);
    s.test("gc-csp-large", (600, 8_000), "infeasible although the end is reachable, or dearer than without constraints", cl_long, check_cli_long);
    s.test_shrink("hubs", (4_000, 40_000), 40, "infeasible although the end is reachable, or dearer than without constraints; one vertex of 20 to 2200 (4200) neighbours", hub_cases, check_hub);
    s.test_shrink("many-constraints", (1_500, 15_000), 60, "infeasible although the end is reachable, or dearer than without constraints; 50 to 2600 (5200) constraints", many_constraints, check);
    s.test_shrink("huge", (500, 5_000), 40, "500 to 1100 (1500) vertices", huge, check_huge);
    s.test_shrink("deep", (16, 100), 10, "4100 to 4400 (5000) vertices", deep, check_deep);
    s.test_shrink("gc-csp-huge", (150, 1_500), 30, "500 to 1100 (1500) vertices", cl_huge, check_cli_huge);
    s.main()
}
