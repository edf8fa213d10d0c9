//! C13: validation of constraint lists.
use gc_core::constraint::checker;
use gcv::ct::*;
use gcv::*;
use proptest::collection::vec;
use std::collections::BTreeSet;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    l: Vec<Ct>,
}
fn conflicts(l: &[Ct]) -> Vec<&'static str> {
    let mut out = vec![];
    let not = |f: &dyn Fn(&Ct) -> Option<Ct>| -> Vec<Ct> { l.iter().filter_map(|c| match c { Ct::Not(x) => f(x), _ => None }).collect() };
    let mut need_v = BTreeSet::new();
    let mut need_e = BTreeSet::new();
    for c in l {
        match c {
            Ct::V(v) => { need_v.insert(*v); }
            Ct::E(a, b) => { need_v.insert(*a); need_v.insert(*b); need_e.insert((*a, *b)); }
            _ => {}
        }
    }
    if not(&|x| match x { Ct::V(v) if need_v.contains(v) => Some(x.clone()), _ => None }).len() > 0 {
        out.push("vertex required and forbidden");
    }
    if not(&|x| match x { Ct::E(a, b) if need_e.contains(&(*a, *b)) => Some(x.clone()), _ => None }).len() > 0 {
        out.push("edge required and forbidden");
    }
    if l.contains(&Ct::Cyc) && l.contains(&Ct::Not(Box::new(Ct::Cyc))) {
        out.push("cycle required and forbidden");
    }
    let nums = |f: &dyn Fn(&Ct) -> Option<i128>| -> Vec<i128> { l.iter().filter_map(|c| f(c)).collect() };
    let (minl, maxl) = (nums(&|c| match c { Ct::MinL(n) => Some(*n as i128), _ => None }), nums(&|c| match c { Ct::MaxL(n) => Some(*n as i128), _ => None }));
    let (mins, maxs) = (nums(&|c| match c { Ct::MinS(n) => Some(*n as i128), _ => None }), nums(&|c| match c { Ct::MaxS(n) => Some(*n as i128), _ => None }));
    if minl.len() > 1 || maxl.len() > 1 {
        out.push("several length bounds");
    }
    if mins.len() > 1 || maxs.len() > 1 {
        out.push("several score bounds");
    }
    if minl.iter().any(|a| maxl.iter().any(|b| a > b)) {
        out.push("length minimum above maximum");
    }
    if mins.iter().any(|a| maxs.iter().any(|b| a > b)) {
        out.push("score minimum above maximum");
    }
    out
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let want = conflicts(&c.l);
    let real: Vec<_> = c.l.iter().map(|x| x.real()).collect();
    let got = checker::validate(&real);
    match (&got, want.is_empty()) {
        (Err(e), true) => return Err(format!("a list without conflict was rejected ({})", e)),
        (Ok(()), false) => return Err(format!("accepted despite: {}", want.join(", "))),
        _ => {}
    }
    // the verdict does not depend on the order
    let rev: Vec<_> = real.iter().rev().cloned().collect();
    ensure_eq!(checker::validate(&rev).is_ok(), got.is_ok(), "verdict on the reversed list");
    let mut sorted = c.l.clone();
    sorted.sort_by_key(|x| mix(format!("{:?}", x).len() as u64));
    let sorted: Vec<_> = sorted.iter().map(|x| x.real()).collect();
    ensure_eq!(checker::validate(&sorted).is_ok(), got.is_ok(), "verdict on a permuted list");
    for w in &want {
        o.label(w);
    }
    o.label_if(want.len() == 1, "exactly one conflict");
    o.label_if(want.is_empty(), "no conflict");
    o.nontrivial_if(c.l.len() >= 3);
    Ok(())
}
fn item(ids: u64) -> BoxedStrategy<Ct> {
    let b = |s: BoxedStrategy<Ct>| s.prop_map(Box::new);
    prop_oneof![
        4 => (0..ids).prop_map(Ct::V),
        4 => (0..ids).prop_map(|v| Ct::Not(Box::new(Ct::V(v)))),
        3 => (0..ids, 0..ids).prop_map(|(a, b)| Ct::E(a, b)),
        3 => (0..ids, 0..ids).prop_map(|(a, b)| Ct::Not(Box::new(Ct::E(a, b)))),
        2 => Just(Ct::Cyc),
        2 => Just(Ct::Not(Box::new(Ct::Cyc))),
        1 => vec(0..ids, 0..4).prop_map(|l| Ct::Ord(distinct(l))),
        2 => (0usize..9).prop_map(Ct::MinL),
        2 => (0usize..9).prop_map(Ct::MaxL),
        2 => (-5i64..9).prop_map(Ct::MinS),
        2 => (-5i64..9).prop_map(Ct::MaxS),
        1 => proptest::sample::select(vec![Ct::MinS(i64::MIN), Ct::MaxS(i64::MIN), Ct::MinS(i64::MAX), Ct::MaxS(i64::MAX), Ct::MinL(usize::MAX), Ct::MaxL(usize::MAX), Ct::MaxL(0)]),
        1 => (proptest::sample::select(LIMITS.to_vec()), 0u8..6, 0u64..3).prop_map(|(l, k, d)| match k {
            0 => Ct::MinL((l - d) as usize),
            1 => Ct::MaxL((l - d) as usize),
            2 => Ct::MinS((l - d) as i64),
            3 => Ct::MaxS((l - d) as i64),
            4 => Ct::MinS(-((l - d) as i64)),
            _ => Ct::MaxS(-((l - d) as i64)),
        }),
        1 => b(atom(ids, 8, 8)).prop_map(|x| Ct::Not(Box::new(Ct::Not(x)))),
        1 => (b(tree(ids, 8, 8, 1)), b(tree(ids, 8, 8, 1)), 0u8..3).prop_map(|(x, y, k)| match k { 0 => Ct::And(x, y), 1 => Ct::Or(x, y), _ => Ct::Xor(x, y) }),
        1 => (0usize..9, 0i64..9, 0u8..4).prop_map(|(n, s, k)| Ct::Not(Box::new(match k { 0 => Ct::MinL(n), 1 => Ct::MaxL(n), 2 => Ct::MinS(s), _ => Ct::MaxS(s) }))),
    ]
    .boxed()
}
fn strat(_: Tier) -> BoxedStrategy<Case> {
    prop_oneof![
        3 => vec(item(5), 0..8),
        3 => vec(item(30), 0..8),
        1 => vec(item(200), 0..14),
    ]
    .prop_map(|l| Case { l })
    .boxed()
}
/// a conflict-free list with one conflict added at a random place (or none)
fn planted(_: Tier) -> BoxedStrategy<Case> {
    (vec(item(400), 1..8), 0u8..11, any::<u16>(), any::<u16>(), 0u64..400)
        .prop_map(|(mut l, k, a, b, v)| {
            let mut kept: Vec<Ct> = vec![];
            for c in l.drain(..) {
                kept.push(c);
                if !conflicts(&kept).is_empty() {
                    kept.pop();
                }
            }
            plant(kept, k, a, b, v)
        })
        .boxed()
}
fn plant(mut kept: Vec<Ct>, k: u8, a: u16, b: u16, v: u64) -> Case {
            let n = |c| Ct::Not(Box::new(c));
            let pair = match k {
                0 => Some((Ct::V(v), n(Ct::V(v)))),
                1 => Some((Ct::E(v, v + 1), n(Ct::E(v, v + 1)))),
                2 => Some((Ct::E(v, v + 1), n(Ct::V(v)))),
                3 => Some((Ct::E(v, v + 1), n(Ct::V(v + 1)))),
                4 => Some((Ct::Cyc, n(Ct::Cyc))),
                // at times close to where a narrower type ends
                5 => {
                    let v = if a % 3 == 0 { LIMITS[v as usize % LIMITS.len()] as usize } else { v as usize };
                    Some((Ct::MinL(v + 1), Ct::MaxL(v)))
                }
                6 => {
                    let l = LIMITS[v as usize % LIMITS.len()] as i64;
                    let v = match a % 6 { 0 => l - 1, 1 => -l, _ => v as i64 };
                    Some((Ct::MinS(v + 1), Ct::MaxS(v)))
                }
                // not a conflict: bounds that leave one value
                8 => Some((Ct::MinL(v as usize), Ct::MaxL(v as usize))),
                9 => {
                    let l = LIMITS[v as usize % LIMITS.len()] as i64;
                    Some((Ct::MinS(if a % 2 == 0 { l } else { -l }), Ct::MaxS(if a % 2 == 0 { l } else { -l })))
                }
                // not a conflict: the reverse edge
                7 => Some((Ct::E(v, v + 1), n(Ct::E(v + 1, v)))),
                _ => None,
            };
            if let Some((x, y)) = pair {
                // one bound of each kind only
                kept.retain(|c| !(((k == 5 || k == 8) && matches!(c, Ct::MinL(_) | Ct::MaxL(_))) || ((k == 6 || k == 9) && matches!(c, Ct::MinS(_) | Ct::MaxS(_)))));
                let i = spot(a as u64, kept.len() + 1);
                kept.insert(i, x);
                let j = spot(b as u64, kept.len() + 1);
                kept.insert(j, y);
            }
            Case { l: kept }
}
// all lists of up to 3 (4) constraints over a small alphabet
fn alphabet() -> Vec<Ct> {
    let n = |c| Ct::Not(Box::new(c));
    vec![
        Ct::V(0), n(Ct::V(0)), Ct::V(1), n(Ct::V(1)), Ct::E(0, 1), n(Ct::E(0, 1)), Ct::E(1, 0), n(Ct::E(1, 0)), Ct::E(0, 0), n(Ct::E(0, 0)),
        Ct::Cyc, n(Ct::Cyc), Ct::MinL(1), Ct::MinL(2), Ct::MaxL(1), Ct::MaxL(2), Ct::MinS(1), Ct::MinS(2), Ct::MaxS(1), Ct::MaxS(2), Ct::Ord(vec![0, 1]), Ct::Ord(vec![1, 0]),
        n(n(Ct::V(0))), n(Ct::MinL(2)), Ct::Or(Box::new(Ct::V(0)), Box::new(n(Ct::V(1)))), n(Ct::MaxS(1)),
    ]
}
fn ex_total(t: Tier) -> u64 {
    let a = alphabet().len() as u64;
    (0..=t.pick(3u32, 4)).map(|k| a.pow(k)).sum()
}
fn ex_nth(t: Tier, mut k: u64) -> Case {
    thread_local! { static A: Vec<Ct> = alphabet(); }
    A.with(|al| {
        let a = al.len() as u64;
        for len in 0..=t.pick(3u32, 4) {
            if k < a.pow(len) {
                let mut l = vec![];
                for _ in 0..len {
                    l.push(al[(k % a) as usize].clone());
                    k /= a;
                }
                return Case { l };
            }
            k -= a.pow(len);
        }
        unreachable!()
    })
}
/// long lists over many ids, with at most one conflict
fn long(t: Tier) -> BoxedStrategy<Case> {
    long_of(20, t.pick(300, 600))
}
fn huge(t: Tier) -> BoxedStrategy<Case> {
    long_of(900, t.pick(16_000, 30_000))
}
fn long_of(lo: usize, hi: usize) -> BoxedStrategy<Case> {
    (vec(item(1_000_000_000_000), lo..hi), 0u8..11, any::<u16>(), any::<u16>(), 0u64..400, any::<bool>())
        .prop_map(|(l, k, a, b, v, wide)| {
            // one bound of each kind is kept, and no cycle constraint of either sign twice
            let mut seen = BTreeSet::new();
            let kept: Vec<Ct> = l
                .into_iter()
                .filter(|c| {
                    let kind = match c {
                        Ct::MinL(_) | Ct::MaxL(_) => 1,
                        Ct::MinS(_) | Ct::MaxS(_) => 2,
                        Ct::Cyc => 3,
                        Ct::Not(x) if **x == Ct::Cyc => 3,
                        _ => 0,
                    };
                    kind == 0 || seen.insert(kind)
                })
                .collect();
            let c = plant(kept, k, a, b, v);
            if wide {
                let big = |v: u64| mix(v);
                return Case { l: c.l.iter().map(|x| rename(x, &big)).collect() };
            }
            c
        })
        .boxed()
}

fn main() {
    let mut s = Suite::new("C13");
    s.assume("as documented, constraints nested in and/or/xor or under more than one negation are not examined");
    s.exhaustive("all-short-lists", "all lists of up to 3 (4) constraints over a 26-constraint alphabet; non-trivial: 3 or more constraints", ex_total, ex_nth, check);
    s.test("lists", (60_000, 1_000_000), "3 or more constraints", strat, check);
    s.test("one-conflict", (60_000, 1_000_000), "3 or more constraints; a conflict-free list with at most one conflicting pair added", planted, check);
    s.test("long-lists", (3_000, 50_000), "3 or more constraints; up to 300 (600) constraints with at most one conflict", long, check);
    s.test_shrink("huge-lists", (400, 4_000), 100, "900 to 16000 (30000) constraints with at most one conflict", huge, check);
    s.main()
}
