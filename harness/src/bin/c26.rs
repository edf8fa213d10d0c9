//! C26: reading ids and edges from text, and the constraints made from options.
use gc_command::arg_utils as au;
use gc_core::constraint::checker::validate;
use gc_core::constraint::constraint::Constraint;
use gc_core::path::{Path, ScoredPath};
use gcv::*;
use proptest::collection::vec;

// ---- reading -------------------------------------------------------------------------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Words {
    w: Vec<String>,
}
/// None: not specified (a leading plus sign)
fn number(w: &str) -> Option<Option<u64>> {
    if let Some(r) = w.strip_prefix('+') {
        if matches!(number(r), Some(Some(_))) {
            return None;
        }
        return Some(None);
    }
    if w.is_empty() || !w.bytes().all(|b| b.is_ascii_digit()) {
        return Some(None);
    }
    let mut n: u64 = 0;
    for b in w.bytes() {
        match n.checked_mul(10).and_then(|n| n.checked_add((b - b'0') as u64)) {
            Some(x) => n = x,
            None => return Some(None),
        }
    }
    Some(Some(n))
}
fn check_words(c: &Words, o: &mut Obs) -> CheckResult {
    let mut all = Some(vec![]);
    for w in &c.w {
        let got = sut(|| au::parse_vertex_id(w));
        match number(w) {
            Some(want) => {
                ensure_eq!(got, want, "parse_vertex_id({:?})", w);
            }
            None => {
                let n = number(&w[1..]).flatten();
                ensure!(got.is_none() || got == n, "parse_vertex_id({:?}) is {:?}", w, got);
            }
        }
        match (got, &mut all) {
            (Some(n), Some(l)) => l.push(n),
            _ => all = None,
        }
    }
    let words = || c.w.iter().map(|w| w.as_str()).collect::<Vec<_>>();
    let got = sut(|| au::parse_vertex_id_list(words())).map(|l| l.iter().map(un).collect::<Vec<_>>());
    ensure_eq!(got, all, "parse_vertex_id_list({:?})", c.w);
    let pairs = all.as_ref().filter(|l| l.len() % 2 == 0).map(|l| l.chunks(2).map(|p| (p[0], p[1])).collect::<Vec<E>>());
    let got = sut(|| au::parse_edge_list(words())).map(|l| l.iter().map(un_edge).collect::<Vec<_>>());
    ensure_eq!(got, pairs, "parse_edge_list({:?})", c.w);
    if let Some(l) = &all {
        let got = sut(|| au::as_vertex_tuple(l.iter().map(|v| vid(*v)).collect())).map(|l| l.iter().map(|(a, b)| (un(a), un(b))).collect::<Vec<_>>());
        ensure_eq!(got, pairs, "as_vertex_tuple({:?})", l);
    }
    o.label(match (&all, &pairs) {
        (None, _) => "not a list of ids",
        (_, None) => "an odd number of ids",
        _ => "pairs",
    });
    o.nontrivial_if(c.w.len() >= 2);
    Ok(())
}
fn word() -> BoxedStrategy<String> {
    let n = prop_oneof![6 => 0u64..100, 2 => any::<u64>(), 2 => proptest::sample::select(BOUNDARY_IDS.to_vec())];
    prop_oneof![
        24 => n.clone().prop_map(|n| n.to_string()),
        2 => (n.clone(), 1usize..30).prop_map(|(n, z)| format!("{}{}", "0".repeat(z), n)),
        1 => (proptest::sample::select(vec!["-", "+", " ", "0x", "#", "--", "+-", "++", "\u{a0}", "\t"]), n.clone()).prop_map(|(p, n)| format!("{}{}", p, n)),
        1 => (n.clone(), proptest::sample::select(vec![" ", ".", ".0", "e3", "u64", ",", "_", "\n", "\0", "\u{660}", "\u{ff11}", "%", "-1", "/2"])).prop_map(|(n, p)| format!("{}{}", n, p)),
        1 => (n.clone(), proptest::sample::select(vec![",", "_", " ", "-", ".", ":"]), n).prop_map(|(a, s, b)| format!("{}{}{}", a, s, b)),
        1 => proptest::sample::select(vec!["", "18446744073709551616", "18446744073709551625", "99999999999999999999", "340282366920938463463374607431768211456", "36893488147419103232", "one", "NaN", "inf", "\u{0663}", "１", "²", "1\u{301}"]).prop_map(|s| s.to_string()),
        1 => "\\PC{0,4}",
    ]
    .boxed()
}
fn words(_: Tier) -> BoxedStrategy<Words> {
    vec(word(), 0..9).prop_map(|w| Words { w }).boxed()
}
fn many_words(t: Tier) -> BoxedStrategy<Words> {
    (0u8..8, any::<u64>(), sizes(10, t.pick(1200, 5000)), prop_oneof![3 => Just(None), 1 => (any::<u16>(), word()).prop_map(Some)])
        .prop_map(|(mode, salt, n, odd)| {
            let mut w: Vec<String> = ids_for(mode, n, salt).iter().map(|v| v.to_string()).collect();
            if let Some((at, x)) = odd {
                let at = spot(at as u64, w.len());
                w[at] = x;
            }
            Words { w }
        })
        .boxed()
}

// ---- constraints ---------------------------------------------------------------------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Opt {
    Include(Vec<u64>),
    Exclude(Vec<u64>),
    IncludeEdges(Vec<E>),
    ExcludeEdges(Vec<E>),
    Ordered(Vec<u64>),
    Cycle,
    NoCycle,
    MinLength(usize),
    MaxLength(usize),
    ExactLength(usize),
    MinScore(i64),
    MaxScore(i64),
    ExactScore(i64),
}
impl Opt {
    fn built(&self) -> Vec<Constraint> {
        let vs = |l: &[u64]| l.iter().map(|v| vid(*v)).collect::<Vec<_>>();
        let es = |l: &[E]| l.iter().map(|e| edge(*e)).collect::<Vec<_>>();
        match self {
            Opt::Include(l) => au::build_constraint_include(vs(l)),
            Opt::Exclude(l) => au::build_constraint_exclude(vs(l)),
            Opt::IncludeEdges(l) => au::build_constraint_include_edges(es(l)),
            Opt::ExcludeEdges(l) => au::build_constraint_exclude_edges(es(l)),
            Opt::Ordered(l) => vec![au::build_constraint_ordered(vs(l))],
            Opt::Cycle => vec![au::build_constraint_include_cycle()],
            Opt::NoCycle => vec![au::build_constraint_no_cycle()],
            Opt::MinLength(n) => vec![au::build_constraint_min_length(*n)],
            Opt::MaxLength(n) => vec![au::build_constraint_max_length(*n)],
            Opt::ExactLength(n) => au::build_constraint_exact_length(*n),
            Opt::MinScore(n) => vec![au::build_constraint_min_score(*n)],
            Opt::MaxScore(n) => vec![au::build_constraint_max_score(*n)],
            Opt::ExactScore(n) => au::build_constraint_exact_score(*n),
        }
    }
    fn holds(&self, p: &[u64], score: i64) -> bool {
        let pairs: std::collections::HashSet<E> = p.windows(2).map(|w| (w[0], w[1])).collect();
        let has_e = |e: &E| pairs.contains(e);
        let repeats = p.iter().collect::<std::collections::HashSet<_>>().len() < p.len();
        match self {
            Opt::Include(l) => l.iter().all(|v| p.contains(v)),
            Opt::Exclude(l) => !l.iter().any(|v| p.contains(v)),
            Opt::IncludeEdges(l) => l.iter().all(has_e),
            Opt::ExcludeEdges(l) => !l.iter().any(has_e),
            Opt::Ordered(l) => {
                let at: Vec<usize> = p.iter().filter_map(|v| l.iter().position(|x| x == v)).collect();
                at.windows(2).all(|w| w[0] <= w[1])
            }
            Opt::Cycle => repeats,
            Opt::NoCycle => !repeats,
            Opt::MinLength(n) => p.len() >= *n,
            Opt::MaxLength(n) => p.len() <= *n,
            Opt::ExactLength(n) => p.len() == *n,
            Opt::MinScore(n) => score >= *n,
            Opt::MaxScore(n) => score <= *n,
            Opt::ExactScore(n) => score == *n,
        }
    }
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Built {
    opt: Opt,
    p: Vec<u64>,
    score: i64,
}
fn check_built(c: &Built, o: &mut Obs) -> CheckResult {
    let cs = sut(|| c.opt.built());
    let sp = ScoredPath { path: Path::from(&c.p.iter().map(|v| vid(*v)).collect()), score: c.score };
    let got = sut(|| cs.iter().all(|x| x.check_complete(&sp)));
    let want = c.opt.holds(&c.p, c.score);
    ensure_eq!(got, want, "{:?}, built as {:?}, on {:?} with score {}", c.opt, cs, c.p, c.score);
    if let Err(e) = sut(|| validate(&cs)) {
        return Err(format!("{:?}, built as {:?}, is called contradictory: {}", c.opt, cs, e));
    }
    o.label(if want { "holds" } else { "does not hold" });
    o.nontrivial_if(c.p.len() >= 2);
    Ok(())
}
fn built(_: Tier) -> BoxedStrategy<Built> {
    let id = prop_oneof![8 => 0u64..6, 1 => proptest::sample::select(BOUNDARY_IDS.to_vec())];
    let score = prop_oneof![6 => -3i64..9, 2 => (proptest::sample::select(LIMITS.to_vec()), any::<bool>()).prop_map(|(l, neg)| if neg { 1 - l as i64 } else { l as i64 - 1 })];
    (vec(id.clone(), 1..8), vec(id.clone(), 0..6), score, 0u8..13, any::<u64>(), any::<bool>())
        .prop_map(|(p, l, score, kind, r, near)| {
            let far = LIMITS[(r >> 20) as usize % LIMITS.len()];
            // lists taken from the path about half of the time
            let mut l = l;
            if near {
                for (k, v) in l.iter_mut().enumerate() {
                    if mix(r ^ k as u64) % 3 != 0 {
                        *v = p[mix(r.wrapping_add(k as u64)) as usize % p.len()];
                    }
                }
            }
            let mut es: Vec<E> = l.windows(2).map(|w| (w[0], w[1])).collect();
            if near && p.len() > 1 {
                for (k, e) in es.iter_mut().enumerate() {
                    let at = mix(r ^ (k as u64) << 9) as usize % (p.len() - 1);
                    *e = if r & (1 << (k % 60)) == 0 { (p[at], p[at + 1]) } else { (p[at + 1], p[at]) };
                }
            }
            let d = (r % 3) as i64 - 1;
            let n = if near { (p.len() as i64 + d).max(0) as usize } else if r % 4 == 0 { far as usize } else { (r % 12) as usize };
            let x = if near { score + d } else if r % 7 == 0 { r as i64 } else if r % 7 == 1 { far as i64 * if r & 1 << 40 == 0 { 1 } else { -1 } } else { (r % 23) as i64 - 11 };
            let opt = match kind {
                0 => Opt::Include(l),
                1 => Opt::Exclude(l),
                2 => Opt::IncludeEdges(es),
                3 => Opt::ExcludeEdges(es),
                4 => Opt::Ordered(ct::distinct(l)),
                5 => Opt::Cycle,
                6 => Opt::NoCycle,
                7 => Opt::MinLength(n),
                8 => Opt::MaxLength(n),
                9 => Opt::ExactLength(n),
                10 => Opt::MinScore(x),
                11 => Opt::MaxScore(x),
                _ => Opt::ExactScore(x),
            };
            Built { opt, p, score }
        })
        .boxed()
}
/// long lists of ids and edges
fn built_large(t: Tier) -> BoxedStrategy<Built> {
    built_of(10, t.pick(500, 1500))
}
fn built_huge(t: Tier) -> BoxedStrategy<Built> {
    built_of(2_200, t.pick(2_800, 5_000))
}
fn built_of(lo: usize, hi: usize) -> BoxedStrategy<Built> {
    (0u8..8, any::<u64>(), sizes(lo, hi), 0u8..5, 0u8..4, any::<u16>())
        .prop_map(|(mode, salt, n, kind, how, r)| {
            let ids = ids_for(mode, n + 1, salt);
            let (p, other) = (ids[..n].to_vec(), ids[n]);
            let at = spot(r as u64, n);
            let mut l: Vec<u64> = p.iter().copied().skip(if at % 3 == 0 { at / 2 } else { 0 }).collect();
            let mut es: Vec<E> = p.windows(2).map(|w| (w[0], w[1])).skip(if at % 3 == 0 { at / 2 } else { 0 }).collect();
            let k = at % l.len();
            match how {
                0 => {}
                1 => {
                    l[k] = other;
                    if !es.is_empty() {
                        let k = k % es.len();
                        es[k] = (es[k].1, es[k].0);
                    }
                }
                2 => l.rotate_left(k),
                _ => {
                    // none of the path, except maybe one
                    let on: std::collections::HashSet<u64> = p.iter().copied().collect();
                    let gone: Vec<u64> = l.iter().map(|v| v ^ mix(salt)).filter(|v| !on.contains(v)).collect();
                    es = es.iter().map(|e| (e.1, e.0)).collect();
                    if r % 2 == 0 && !es.is_empty() {
                        let k = k % es.len();
                        es[k] = (es[k].1, es[k].0);
                        l = gone;
                        l.push(p[at]);
                    } else {
                        l = gone;
                    }
                }
            }
            let opt = match kind {
                0 => Opt::Include(l),
                1 => Opt::Exclude(l),
                2 => Opt::IncludeEdges(es),
                3 => Opt::ExcludeEdges(es),
                _ => Opt::Ordered(ct::distinct(l)),
            };
            Built { opt, p, score: 0 }
        })
        .boxed()
}
fn main() {
    let mut s = Suite::new("C26");
    s.test("words", (200_000, 2_000_000), "two or more words", words, check_words);
    s.test("many-words", (3_000, 30_000), "10 to 1200 (5000) words", many_words, check_words);
    s.test("built", (200_000, 2_000_000), "path of two or more vertices", built, check_built);
    s.test("built-large", (4_000, 40_000), "10 to 500 (1500) vertices", built_large, check_built);
    s.test_shrink("built-huge", (2_000, 20_000), 20, "2200 to 2800 (5000) vertices", built_huge, check_built);
    s.main()
}
