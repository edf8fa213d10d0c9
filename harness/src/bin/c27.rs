//! C27: constrained best-first traversal, against enumeration of all walks by cost.
use gc_core::iter::iter_best_constraint::constrained_best_iter_from;
use gc_core::path::Path;
use gcv::csp::*;
use gcv::ct::*;
use gcv::wgraph::*;
use gcv::*;
use std::cell::Cell;
use std::collections::HashSet;

const SMALL: Budget = Budget { walks: 3_000, len: 24 };
const LARGE: Budget = Budget { walks: 1_500, len: 450 };
const HUGE: Budget = Budget { walks: 2_500, len: 2_200 };

fn check(c: &Case, o: &mut Obs) -> CheckResult {
    check_with(c, SMALL, o)
}
fn check_large(c: &Case, o: &mut Obs) -> CheckResult {
    check_with(c, LARGE, o)
}
fn check_huge(c: &Case, o: &mut Obs) -> CheckResult {
    check_with(c, HUGE, o)
}
const HUB: Budget = Budget { walks: 9_000, len: 40 };
fn check_hub(c: &Case, o: &mut Obs) -> CheckResult {
    check_with(c, HUB, o)
}
fn check_with(c: &Case, budget: Budget, o: &mut Obs) -> CheckResult {
    let m = c.wg.g.model();
    let vs: Vec<u64> = m.v.iter().copied().collect();
    if vs.is_empty() {
        o.excluded = true;
        return Ok(());
    }
    let s = pick(&vs, c.s);
    let cs: Vec<Ct> = c.cs.iter().map(|x| rename(x, &|i| vertex_of(&vs, i))).collect();
    let w = c.wg.map();
    // all walks that satisfy the constraints and cost at most `upto`
    let (want, upto, looked) = satisfying(&m, &w, s, &cs, budget);
    let real = c.wg.g.build();
    let deg = vs.iter().map(|v| m.succ(*v).count()).max().unwrap_or(0) as u64;
    let limit = (looked + 50) * (deg + 1) * 10;
    let calls = Cell::new(0u64);
    let scorefn = |_: &gc_core::directed_graph::DirectedGraph, p: &Path| {
        calls.set(calls.get() + 1);
        c.wg.cost(&w, &p.vertices.iter().map(un).collect::<Vec<_>>())
    };
    let listed = guarded(|| {
        let mut l: Vec<(Vec<u64>, i64)> = vec![];
        let mut ended = false;
        let mut it = constrained_best_iter_from(&real, scorefn, cs.iter().map(|x| x.real()).collect(), vid(s));
        loop {
            match it.next() {
                None => {
                    ended = true;
                    // and stays ended
                    if it.next().is_some() {
                        l.push((vec![], i64::MIN));
                    }
                    break;
                }
                Some(p) => {
                    let over = upto.map(|k| p.score > k).unwrap_or(false);
                    l.push((p.path.vertices.iter().map(un).collect(), p.score));
                    if over || l.len() as u64 > limit {
                        break;
                    }
                }
            }
        }
        (l, ended)
    });
    let (l, ended) = listed.map_err(|p| format!("the traversal panicked: {}", p))?;
    let mut seen: HashSet<&[u64]> = HashSet::new();
    let mut last = i64::MIN;
    for (p, score) in &l {
        ensure!(!p.is_empty() && m.is_walk(p) && p[0] == s, "{:?} is not a walk from {}", p, s);
        ensure_eq!(*score, c.wg.cost(&w, p), "score of {:?} against its cost", p);
        ensure!(*score >= last, "{:?} of cost {} is listed after one of cost {}", p, score, last);
        ensure!(seen.insert(p), "{:?} is listed twice", p);
        last = *score;
    }
    let complete = ended || upto.map(|k| last > k).unwrap_or(false);
    if !complete {
        ensure!(upto.is_some(), "the constraints leave {} walks, but the traversal does not end", looked);
        // more walks than looked at, none of them wrong: not decided
        o.excluded = true;
        return Ok(());
    }
    for p in &want {
        ensure!(seen.contains(&p[..]), "{:?} satisfies the constraints and is not listed", p);
    }
    o.label_if(upto.is_none(), "finitely many walks");
    o.label_if(cs.is_empty(), "no constraint");
    o.label_if(want.is_empty(), "none satisfies");
    let ends: HashSet<u64> = want.iter().map(|p| *p.last().unwrap()).collect();
    o.label_if(ends.len() >= 2 && want.len() > ends.len(), "several walks to one vertex");
    o.nontrivial_if(want.len() >= 3 && want.len() < l.len() && cs.len() >= 1);
    Ok(())
}

// the fixed graphs and pairs of constraints of C11, from every start
fn pairs_total(t: Tier) -> u64 {
    ex_total(t) / 4
}
fn pairs_nth(t: Tier, k: u64) -> Case {
    let n = ex_total(t) / (5 * 16);
    // start k / n % 4, end 0
    ex_nth(t, (k / (4 * n)) * 16 * n + (k / n % 4) * 4 * n + k % n)
}

fn main() {
    let mut s = Suite::new("C27");
    s.assume("edge costs are positive and additive, and the start is a vertex of the graph");
    s.assume("whether a walk that no satisfying walk begins with is listed is not judged");
    let rule = "3 or more walks satisfy the constraints and not all listed ones do";
    s.exhaustive("all-pairs-of-constraints", "5 fixed 4-vertex graphs x all starts x all ordered pairs of 42 constraints, walks of at most 6 vertices", pairs_total, pairs_nth, check);
    s.test("traversal", (40_000, 500_000), rule, strat, check);
    s.test("large", (2_500, 40_000), rule, long, check_large);
    s.test("laps", (2_000, 30_000), rule, laps, check_large);
    s.test_shrink("hubs", (4_000, 40_000), 40, "3 or more walks satisfy the constraints and not all listed ones do; one vertex of 20 to 2200 (4200) neighbours", hub_cases, check_hub);
    s.test_shrink("many-constraints", (1_000, 10_000), 60, "3 or more walks satisfy the constraints and not all listed ones do; 50 to 2600 (5200) constraints", many_constraints, check);
    s.test_shrink("huge", (300, 3_000), 40, "500 to 1100 (1500) vertices", huge, check_huge);
    s.main()
}
