//! C12: meaning of constraints, and soundness of the check on partial paths.
use gc_core::path::{Path, ScoredPath};
use gcv::ct::*;
use gcv::*;
use proptest::collection::vec;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    c: Ct,
    p: Vec<u64>,
    /// increments of the score after the first vertex (all >= 0)
    inc: Vec<u64>,
    /// score of the first vertex
    #[serde(default)]
    at: i64,
}
fn sp(p: &[u64], score: i64) -> ScoredPath {
    ScoredPath { path: Path::from(&p.iter().map(|v| vid(*v)).collect()), score }
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let mut scores = vec![];
    let mut s = c.at;
    for i in 0..c.p.len() {
        s += if i == 0 { 0 } else { c.inc.get(i % c.inc.len().max(1)).copied().unwrap_or(1) as i64 };
        scores.push(s);
    }
    let total = scores.last().copied().unwrap_or(c.at);
    let real = c.c.real();
    let want = c.c.holds(&c.p, total);
    let got = real.check_complete(&sp(&c.p, total));
    ensure_eq!(got, want, "check_complete of {:?} on {:?} with score {}", c.c, c.p, total);
    if want {
        for k in 1..=c.p.len() {
            let part = real.check_partial(&sp(&c.p[..k], scores[k - 1]));
            ensure!(part, "check_partial of {:?} rejects {:?} (score {}), but its extension {:?} (score {}) satisfies it", c.c, &c.p[..k], scores[k - 1], c.p, total);
        }
    }
    o.label(if want { "satisfied" } else { "violated" });
    o.label_if(matches!(c.c, Ct::Not(_)), "negation");
    o.label_if(matches!(c.c, Ct::Or(..) | Ct::Xor(..) | Ct::And(..)), "combination");
    o.nontrivial_if(c.p.len() >= 3);
    Ok(())
}
fn strat(_: Tier) -> BoxedStrategy<Case> {
    (tree(6, 8, 14, 3), vec(0u64..6, 1..9), vec(0u64..4, 1..6), 0u8..4)
        .prop_map(|(c, mut p, inc, k)| {
            // half of the paths without repetition, so that "no cycle" has positive cases
            if k < 2 {
                p = distinct(p);
            }
            Case { c, p, inc, at: 0 }
        })
        .boxed()
}
/// scores and bounds far from zero, or close to where a narrower type ends
fn shifted(t: Tier) -> BoxedStrategy<Case> {
    const AT: [i64; 16] = [-3, 254, -129, 32_766, 65_534, (1 << 24) - 1, (1 << 31) - 3, -(1 << 31) - 2, (1 << 32) - 2, -(1 << 32), (1 << 53) - 2, 1 << 53, -(1 << 53) - 2, 1 << 60, i64::MAX - 400, i64::MIN];
    (strat(t), proptest::sample::select(AT.to_vec()), any::<u32>())
        .prop_map(|(c, at, r)| Case { c: far(&c.c, at, r), at, ..c })
        .boxed()
}
/// score bounds moved by `at`; at times a length or score bound replaced by a distant one
fn far(c: &Ct, at: i64, r: u32) -> Ct {
    let b = |x: &Ct, k: u32| Box::new(far(x, at, r.rotate_left(k)));
    let l = LIMITS[(r >> 8) as usize % LIMITS.len()];
    match c {
        Ct::MinL(_) if r % 4 == 0 => Ct::MinL(l as usize),
        Ct::MaxL(_) if r % 4 == 0 => Ct::MaxL(l as usize),
        Ct::MinS(_) if r % 16 == 0 => Ct::MinS(if r & 16 == 0 { l as i64 } else { -(l as i64) }),
        Ct::MaxS(_) if r % 16 == 0 => Ct::MaxS(if r & 16 == 0 { l as i64 } else { -(l as i64) }),
        Ct::MinS(n) => Ct::MinS(at.saturating_add(*n)),
        Ct::MaxS(n) => Ct::MaxS(at.saturating_add(*n)),
        Ct::Or(x, y) => Ct::Or(b(x, 3), b(y, 7)),
        Ct::Xor(x, y) => Ct::Xor(b(x, 3), b(y, 7)),
        Ct::And(x, y) => Ct::And(b(x, 3), b(y, 7)),
        Ct::Not(x) => Ct::Not(b(x, 5)),
        o => o.clone(),
    }
}
/// long paths and wide ids
fn wide(_: Tier) -> BoxedStrategy<Case> {
    (tree(40, 40, 100, 2), vec(0u64..40, 8..40), vec(0u64..6, 1..6), any::<bool>())
        .prop_map(|(c, mut p, inc, d)| {
            if d {
                p = distinct(p);
            }
            let big = |v: u64| if v % 3 == 0 { u64::MAX - v } else { v };
            Case { c: rename(&c, &big), p: p.into_iter().map(big).collect(), inc, at: 0 }
        })
        .boxed()
}
// all paths of up to 5 (6) vertices over 3 ids x all small constraints
fn atoms() -> Vec<Ct> {
    let mut v = vec![Ct::Cyc];
    for a in 0..3 {
        v.push(Ct::V(a));
        for b in 0..3 {
            v.push(Ct::E(a, b));
            if a != b {
                v.push(Ct::Ord(vec![a, b]));
                for c in 0..3 {
                    if c != a && c != b {
                        v.push(Ct::Ord(vec![a, b, c]));
                    }
                }
            }
        }
    }
    for n in 0..7usize {
        v.push(Ct::MinL(n));
        v.push(Ct::MaxL(n));
        v.push(Ct::MinS(n as i64));
        v.push(Ct::MaxS(n as i64));
    }
    let n = v.len();
    for i in 0..n {
        v.push(Ct::Not(Box::new(v[i].clone())));
    }
    for i in 0..n {
        v.push(Ct::Not(Box::new(Ct::Not(Box::new(v[i].clone())))));
    }
    // pairs of a few representative ones under each operator
    let reps = [Ct::V(0), Ct::Not(Box::new(Ct::V(1))), Ct::E(0, 1), Ct::Not(Box::new(Ct::E(1, 2))), Ct::Ord(vec![2, 0]), Ct::Cyc, Ct::Not(Box::new(Ct::Cyc)), Ct::MinL(3), Ct::MaxL(3), Ct::MinS(2), Ct::MaxS(2)];
    for a in &reps {
        for b in &reps {
            let (x, y) = (Box::new(a.clone()), Box::new(b.clone()));
            for t in [Ct::Or(x.clone(), y.clone()), Ct::Xor(x.clone(), y.clone()), Ct::And(x.clone(), y.clone())] {
                v.push(Ct::Not(Box::new(t.clone())));
                v.push(t);
            }
        }
    }
    v
}
fn ex_paths(t: Tier) -> u64 {
    (1..=t.pick(5u32, 6)).map(|k| 3u64.pow(k)).sum()
}
fn ex_total(t: Tier) -> u64 {
    ex_paths(t) * atoms().len() as u64 * 2
}
fn ex_nth(t: Tier, k: u64) -> Case {
    thread_local! { static A: Vec<Ct> = atoms(); }
    let (n, mut r) = (ex_paths(t), k / 2);
    let c = A.with(|a| a[(r / n) as usize].clone());
    r %= n;
    let mut len = 1u32;
    while r >= 3u64.pow(len) {
        r -= 3u64.pow(len);
        len += 1;
    }
    let mut p = vec![];
    for _ in 0..len {
        p.push(r % 3);
        r /= 3;
    }
    Case { c, p, inc: if k % 2 == 0 { vec![1] } else { vec![0, 2] }, at: 0 }
}
/// hundreds of vertices, 64-bit ids, large scores
fn long(t: Tier) -> BoxedStrategy<Case> {
    long_of(30, t.pick(420, 700))
}
fn huge(t: Tier) -> BoxedStrategy<Case> {
    long_of(1_000, t.pick(4_200, 9_000))
}
fn long_of(lo: usize, len: usize) -> BoxedStrategy<Case> {
    (0u8..3, any::<u64>())
        .prop_flat_map(move |(scale, salt)| {
            let unit = [1u64, 300, 1 << 40][scale as usize];
            (tree(len as u64, len, 2 * len as i64, 2), sizes(lo, len), vec(0u8..5, 1..6), 0u8..4, Just(unit), Just(salt), vec((any::<u16>(), any::<u16>()), 0..4))
        })
        .prop_map(move |(c, n, inc, mode, unit, salt, repeats)| {
            let ids = ids_for([0, 3, 5, 7][mode as usize], len + 100, salt);
            let mut p = ids[..n].to_vec();
            if mode == 3 {
                p = perm(n, salt).into_iter().map(|i| ids[i]).collect();
            }
            if salt % 2 == 0 {
                for (a, b) in repeats {
                    p[a as usize % n] = p[b as usize % n];
                }
            }
            let c = scaled(&rename(&c, &|v| ids[v as usize]), unit as i64);
            Case { c, p, inc: inc.into_iter().map(|x| x as u64 * unit).collect(), at: 0 }
        })
        .boxed()
}
/// orders over many vertices
fn orders(t: Tier) -> BoxedStrategy<Case> {
    (0u8..8, any::<u64>(), sizes(20, t.pick(3_000, 9_000)), (0usize..4, 0u8..4, any::<u16>(), any::<u16>()), any::<bool>())
        .prop_map(|(mode, salt, n, (other, how, r, q), neg)| {
            let ids = ids_for(mode, n * (other + 1), salt);
            // the ordered vertices, of which a part is on the path
            let l = ids.clone();
            let mut p: Vec<u64> = ids.iter().copied().skip(if how == 3 { 0 } else { r as usize % (other + 1) }).step_by(other + 1).collect();
            let k = p.len();
            let (a, b) = match q % 3 {
                0 => (spot(r as u64, k), (spot(r as u64, k) + 1) % k),
                1 => (k - 1, k.saturating_sub(1 + r as usize % (k / 3).max(1))),
                _ => (r as usize % k, q as usize % k),
            };
            match how {
                0 => p.swap(a, b),
                1 => p[a] = p[b],
                2 => p.insert(a, p[b]),
                _ => {}
            }
            let c = Ct::Ord(l);
            Case { c: if neg && salt % 4 == 0 { Ct::Not(Box::new(c)) } else { c }, p, inc: vec![1], at: 0 }
        })
        .boxed()
}
fn check_orders(c: &Case, o: &mut Obs) -> CheckResult {
    // of the beginnings, some
    let real = c.c.real();
    let want = c.c.holds(&c.p, 0);
    let got = sut(|| real.check_complete(&sp(&c.p, 0)));
    ensure_eq!(got, want, "check_complete of {:?} on {:?}", c.c, c.p);
    if want {
        for k in [1, 2, c.p.len() / 3, c.p.len() / 2, c.p.len() - 1, c.p.len()] {
            let k = k.max(1);
            ensure!(sut(|| real.check_partial(&sp(&c.p[..k], 0))), "check_partial of {:?} rejects the first {} vertices of {:?}, which satisfies it", c.c, k, c.p);
        }
    }
    o.label(if want { "satisfied" } else { "violated" });
    o.nontrivial_if(c.p.len() >= 3);
    Ok(())
}
fn scaled(c: &Ct, k: i64) -> Ct {
    let b = |x: &Ct| Box::new(scaled(x, k));
    match c {
        Ct::MinS(n) => Ct::MinS(n * k),
        Ct::MaxS(n) => Ct::MaxS(n * k),
        Ct::Or(x, y) => Ct::Or(b(x), b(y)),
        Ct::Xor(x, y) => Ct::Xor(b(x), b(y)),
        Ct::And(x, y) => Ct::And(b(x), b(y)),
        Ct::Not(x) => Ct::Not(b(x)),
        o => o.clone(),
    }
}

fn main() {
    let mut s = Suite::new("C12");
    s.assume("the vertices of an ordered list are distinct; the score does not decrease along a path");
    s.exhaustive("all-small-paths", "all paths of up to 5 (6) vertices over 3 ids against 800 constraints (every atom, its negation and double negation, pairs under and/or/xor and their negations), two score profiles; non-trivial: 3 or more vertices", ex_total, ex_nth, check);
    s.test("trees", (120_000, 3_000_000), "paths of 3 or more vertices", strat, check);
    s.test("far-scores", (60_000, 1_000_000), "paths of 3 or more vertices; scores and bounds around 16 values between the ends of the 64-bit range", shifted, check);
    s.test("wide", (20_000, 400_000), "paths of 8 to 40 vertices over 40 ids", wide, check);
    s.test("long-paths", (20_000, 300_000), "paths of 30 to 420 (700) vertices", long, check);
    s.test_shrink("long-orders", (1_500, 15_000), 60, "20 to 12000 (36000) ordered vertices", orders, check_orders);
    s.test_shrink("huge-paths", (200, 2_000), 200, "paths of 1000 to 4200 (9000) vertices", huge, check);
    s.main()
}
