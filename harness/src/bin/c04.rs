//! C04: TGF files round-trip and labels are ignored.
use gc_core::format::tgf;
use gcv::*;
use proptest::collection::vec;
use std::fs::File;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Rt {
    g: G,
    before: u16,
}
fn rt(t: Tier) -> BoxedStrategy<Rt> {
    (prop_oneof![6 => graph(0, 14, 50, 120), 1 => graph(30, t.pick(400, 1500), t.pick(1800, 6000), t.pick(1800, 6000))], prop_oneof![3 => Just(0u16), 1 => 1u16..2000])
        .prop_map(|(g, before)| Rt { g, before })
        .boxed()
}
fn check_rt(c: &Rt, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    let p = s.path("f");
    if c.before > 0 {
        s.write("f", "990 991\n".repeat(c.before as usize).as_bytes());
    }
    let m = c.g.model();
    let g = c.g.build();
    let save = |g: &_| tgf::save(g, p.to_str().unwrap().to_string()).map_err(|e| format!("save failed: {}", e));
    let read = || tgf::read(File::open(&p).expect("open")).map_err(|e| format!("reading a saved TGF failed: {}", e));
    save(&g)?;
    let back = read()?;
    same_sets(&back, &m).map_err(|e| format!("after save and read: {}", e))?;
    same_sets(&g, &m).map_err(|e| format!("saving changed the graph: {}", e))?;
    save(&back)?;
    same_sets(&read()?, &m).map_err(|e| format!("after a second save and read: {}", e))?;
    o.label_if(std::fs::metadata(&p).map(|x| x.len()).unwrap_or(0) > 8192, "file over 8 KiB");
    o.label_if(m.e.iter().any(|e| e.0 == e.1), "self-loop");
    let ends: std::collections::HashSet<u64> = m.e.iter().flat_map(|e| [e.0, e.1]).collect();
    o.label_if(m.v.iter().any(|v| !ends.contains(v)), "isolated vertex");
    o.nontrivial_if(m.e.len() >= 2);
    Ok(())
}
fn huge(t: Tier) -> BoxedStrategy<Rt> {
    (long_graph(1_000, t.pick(12_000, 24_000), (0..11).collect(), 40, false), any::<u16>()).prop_map(|(g, r)| Rt { g, before: if r % 3 == 0 { r } else { 0 } }).boxed()
}

/// A graph written out by hand with labels, comments, blanks and white space.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Dec {
    g: G,
    deco: Vec<(u8, String, String, u8)>,
}
fn label() -> BoxedStrategy<String> {
    prop_oneof![
        3 => Just("".to_string()),
        2 => proptest::sample::select(vec![" January", " a b c", " 'x'", " # not a comment", "\tlabel", " AddEdge 1 2", " -3", " .5", " é", " x 1 2"]).prop_map(|s| s.to_string()),
        1 => "[ \t][a-zA-Z#.,;:'\"(){}éß_-][ -~éß]{0,10}",
    ]
    .boxed()
}
/// text right after an edge's second id: may also hold numbers once separated
fn elabel() -> BoxedStrategy<String> {
    prop_oneof![
        2 => label(),
        1 => proptest::sample::select(vec![" 12", " 3 4 5", "x", "-7", "#5", ".25", " 0.5 km"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}
fn dec(_: Tier) -> BoxedStrategy<Dec> {
    (graph(1, 10, 20, 40), vec((0u8..14, label(), elabel(), 0u8..12), 1..8))
        .prop_map(|(g, deco)| Dec { g, deco })
        .boxed()
}
fn check_dec(c: &Dec, o: &mut Obs) -> CheckResult {
    let mut t = String::new();
    let mut labels = 0;
    let mut k = 0;
    let mut next = || {
        k += 1;
        &c.deco[k % c.deco.len()]
    };
    let noise = |t: &mut String, d: u8| match d {
        0 => t.push('\n'),
        1 => t.push_str("# 77 78\n"),
        2 => t.push_str("   # 79\n"),
        3 => t.push_str("\t#80 81\n"),
        4 => {
            let blank = ["\u{b}", "\u{c} ", "\u{a0}", " \u{2003}", "\u{85}", "\u{3000}\t"][t.len() % 6];
            t.push_str(&format!("{}# 82\n", blank))
        }
        5 => t.push_str("\n#\r\n\r\n"),
        _ => {}
    };
    let m = c.g.model();
    for v in &c.g.vs {
        let (d, l, _, _) = next();
        noise(&mut t, *d);
        labels += !l.is_empty() as u32;
        t.push_str(&format!("{}{}\n", v, l));
    }
    t.push_str("#\n");
    for (a, b) in &c.g.es {
        let (d, _, l, w) = next();
        noise(&mut t, *d);
        labels += !l.is_empty() as u32;
        let many = |c: &str| c.repeat(20 + (mix(a ^ b.rotate_left(9)) % 300) as usize);
        let ws = match w { 0 => "  ".into(), 1 => "\t".into(), 2 => " \t  ".into(), 3 => many(" "), 4 => many("\t "), 5 => "\u{b}".into(), 6 => " \u{c} ".into(), 7 => "\u{a0}".into(), 8 => "\t\u{2003}".into(), _ => " ".to_string() };
        t.push_str(&format!("{}{}{}{}\n", a, ws, b, l));
    }
    let s = cli::Scratch::new();
    s.write("f", t.as_bytes());
    let g = tgf::read(File::open(s.path("f")).expect("open")).map_err(|e| format!("rejected: {}\n{}", e, t))?;
    same_sets(&g, &m).map_err(|e| format!("{}\n{}", e, t))?;
    o.nontrivial_if(labels >= 2 && m.e.len() >= 2);
    o.label_if(labels > 0, "labels");
    Ok(())
}

// large graphs with long labels
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Big {
    g: G,
    deco: Vec<(u8, String, String, u8)>,
    /// repeats every label
    times: u16,
}
fn big(t: Tier) -> BoxedStrategy<Big> {
    (long_graph(10, t.pick(600, 2100), (0..11).collect(), 20, false), vec((0u8..14, label(), elabel(), 0u8..12), 1..8), prop_oneof![2 => 1u16..4, 1 => 4u16..300]).prop_map(|(g, deco, times)| Big { g, deco, times }).boxed()
}
fn check_big(c: &Big, o: &mut Obs) -> CheckResult {
    let times = if c.g.es.len() > 300 { c.times.min(40) } else { c.times } as usize;
    // the first copy keeps what follows the id, the others only make it longer
    let long = |l: &String| l.repeat(times);
    let d = Dec { g: c.g.clone(), deco: c.deco.iter().map(|(a, l, e, w)| (*a, long(l), long(e), *w)).collect() };
    check_dec(&d, o)?;
    check_rt(&Rt { g: c.g.clone(), before: 0 }, o)
}

fn main() {
    let mut s = Suite::new("C04");
    s.assume("labels do not contain line breaks; a vertex label does not start with a number after white space (that is an edge) nor directly with a digit");
    s.test("save-read", (4_000, 60_000), "the graph has at least 2 edges", rt, check_rt);
    s.test_shrink("huge-files", (120, 1_200), 30, "1000 to 12000 (24000) vertices", huge, check_rt);
    s.test("labels", (12_000, 200_000), "at least 2 labels and 2 edges", dec, check_dec);
    s.test_shrink("large-labelled", (600, 8_000), 400, "at least 2 labels and 2 edges, 10 to 600 (2100) vertices, labels of up to some thousand characters", big, check_big);
    s.main()
}
