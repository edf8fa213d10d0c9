//! C03: reading any bytes as a command file or as TGF.
use gc_core::format::{gcmd, tgf};
use gc_core::graph_command::GraphCommand;
use gcv::textio::*;
use gcv::*;
use proptest::collection::vec;
use std::fs::File;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    /// pieces concatenated: text, or raw bytes
    parts: Vec<Part>,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Part {
    T(String),
    B(Vec<u8>),
    /// text repeated: long files and lines
    R(String, u16),
}
fn bytes(c: &Case) -> Vec<u8> {
    let mut b = vec![];
    for p in &c.parts {
        match p {
            Part::T(s) => b.extend(s.as_bytes()),
            Part::B(v) => b.extend(v),
            Part::R(s, n) => b.extend(s.repeat(*n as usize).as_bytes()),
        }
    }
    b
}

fn number() -> BoxedStrategy<String> {
    prop_oneof![
        8 => (0u64..30).prop_map(|n| n.to_string()),
        3 => proptest::sample::select(BOUNDARY_IDS.to_vec()).prop_map(|n| n.to_string()),
        1 => any::<u64>().prop_map(|n| n.to_string()),
        1 => (0u64..30).prop_map(|n| format!("00{}", n)),
        1 => Just("18446744073709551616".to_string()),
        1 => Just("99999999999999999999999999".to_string()),
        1 => Just("00000000000000000000000018446744073709551615".to_string()),
        1 => proptest::sample::select(vec!["-1", "+3", "1.5", "1e3", "0x10", "", "abc", "1_000", "\u{663}", "1\u{663}", "\u{ff11}", "\u{b2}", "\u{1d7d9}"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}
fn gap() -> BoxedStrategy<String> {
    prop_oneof![
        12 => Just(" ".to_string()),
        1 => Just("  ".to_string()),
        1 => Just("\t".to_string()),
        1 => Just("".to_string()),
        1 => proptest::sample::select(vec!["\u{a0}", "\u{2003}", "\u{b}", "\u{c}", "\r", "\u{85}", "\u{2028}", ",", " \t ", "\u{200b}", "\0"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}
fn line() -> BoxedStrategy<String> {
    prop_oneof![
        10 => (prop_oneof![20 => proptest::sample::select(vec!["AddVertex", "RemoveVertex", "AddEdge", "RemoveEdge"]), 1 => proptest::sample::select(vec!["addVertex", "AddVertexx", "Add", "", "Removevertex", "AddEdges"])], gap(), number(), gap(), number(), gap(), 0u8..12)
            .prop_map(|(k, g1, a, g2, b, g3, odd)| {
                let two = k.contains("Edge") != (odd == 0);
                let mut s = if two { format!("{}{}{}{}{}", k, g1, a, g2, b) } else { format!("{}{}{}", k, g1, a) };
                if odd == 1 { s.push_str(&g3) }
                if odd == 2 { s = format!("{}{}", g3, s) }
                if odd == 3 { s.push_str(" tail") }
                s
            }),
        8 => (number(), gap(), number(), gap(), proptest::sample::select(vec!["", "label", "label 12", "12 label", "#x", "é", "3rd", " "]), 0u8..5)
            .prop_map(|(a, g1, b, g2, l, k)| match k {
                0 => a,
                1 => format!("{}{}{}", a, g1, l),
                2 => format!("{}{}{}", a, g1, b),
                3 => format!("{}{}{}{}{}", a, g1, b, g2, l),
                _ => format!("{}{}{}", g2, a, l),
            }),
        2 => Just("".to_string()),
        2 => proptest::sample::select(vec!["#", "# AddVertex 1", "  # x", "\t#", "##", "#\u{e9}", "\u{a0}#", "x # y"]).prop_map(|s| s.to_string()),
        1 => proptest::sample::select(vec![" ", "\t", "\u{a0}", "\u{feff}", "\r", "\0"]).prop_map(|s| s.to_string()),
        1 => "\\PC{0,12}",
    ]
    .boxed()
}
fn good_line() -> BoxedStrategy<String> {
    let n = || prop_oneof![4 => 0u64..12, 1 => proptest::sample::select(BOUNDARY_IDS.to_vec())];
    prop_oneof![
        3 => (n(), n(), 1usize..4).prop_map(|(a, b, w)| format!("AddEdge {}{}{}", a, " ".repeat(w), b)),
        1 => n().prop_map(|a| format!("AddVertex {}", a)),
        1 => n().prop_map(|a| format!("RemoveVertex {}", a)),
        1 => (n(), n()).prop_map(|(a, b)| format!("RemoveEdge {} {}", a, b)),
        1 => Just("".to_string()),
        1 => Just("  # comment".to_string()),
    ]
    .boxed()
}
fn good_tgf() -> BoxedStrategy<String> {
    let n = || prop_oneof![4 => 0u64..12, 1 => proptest::sample::select(BOUNDARY_IDS.to_vec())];
    prop_oneof![
        3 => (n(), n(), proptest::sample::select(vec!["", " x", "x", " 12", "\t-"])).prop_map(|(a, b, l)| format!("{} {}{}", a, b, l)),
        2 => (n(), proptest::sample::select(vec!["", " x", "x", " -12", " #1"])).prop_map(|(a, l)| format!("{}{}", a, l)),
        1 => Just("".to_string()),
        1 => Just("#".to_string()),
    ]
    .boxed()
}
fn eol() -> BoxedStrategy<String> {
    prop_oneof![12 => Just("\n".to_string()), 2 => Just("\r\n".to_string()), 1 => Just("\n\n".to_string()), 1 => Just("\r".to_string())].boxed()
}
/// mostly well-formed files with some odd line
fn strat(_: Tier) -> BoxedStrategy<Case> {
    let good = prop_oneof![good_line().boxed().prop_map(|s| (0u8, s)), good_tgf().prop_map(|s| (1u8, s))];
    let files = |g: BoxedStrategy<String>| {
        (vec((g, eol()), 0..12), vec((any::<u16>(), line(), eol()), 0..3), any::<bool>(), prop_oneof![20 => Just(None), 1 => vec(any::<u8>(), 1..6).prop_map(Some)])
            .prop_map(|(gl, odd, trim, raw)| {
                let mut parts: Vec<Part> = gl.into_iter().map(|(l, e)| Part::T(l + &e)).collect();
                for (at, l, e) in odd {
                    let i = at as usize % (parts.len() + 1);
                    parts.insert(i, Part::T(l + &e));
                }
                if let Some(b) = raw {
                    let i = b[0] as usize % (parts.len() + 1);
                    parts.insert(i, Part::B(b));
                }
                if trim {
                    if let Some(Part::T(s)) = parts.last_mut() {
                        *s = s.trim_end_matches('\n').to_string();
                    }
                }
                Case { parts }
            })
    };
    let _ = good;
    prop_oneof![
        4 => files(good_line()),
        4 => files(good_tgf()),
        2 => vec((line(), eol()), 1..6).prop_map(|v| Case { parts: v.into_iter().map(|(l, e)| Part::T(l + &e)).collect() }),
        1 => vec(any::<u8>(), 0..40).prop_map(|b| Case { parts: vec![Part::B(b)] }),
        1 => (vec(good_line(), 1..4), line(), 1u16..900).prop_map(|(g, l, n)| Case { parts: vec![Part::R(g.join("\n") + "\n", n), Part::T(l), Part::T("\nAddVertex 1\n".into())] }),
        1 => (vec(good_tgf(), 1..4), line(), 1u16..900).prop_map(|(g, l, n)| Case { parts: vec![Part::R(g.join("\n") + "\n", n), Part::T(l), Part::T("\n3 4\n".into())] }),
    ]
    .boxed()
}

fn of(c: &GraphCommand) -> Co {
    match *c {
        GraphCommand::AddVertex(a) => Co::AddV(a.0),
        GraphCommand::RemoveVertex(a) => Co::RmV(a.0),
        GraphCommand::AddEdge(a, b) => Co::AddE(a.0, b.0),
        GraphCommand::RemoveEdge(a, b) => Co::RmE(a.0, b.0),
    }
}

fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let b = bytes(c);
    let s = cli::Scratch::new();
    s.write("f", &b);
    check_bytes(&b, &s, o)
}
fn check_bytes(b: &[u8], s: &cli::Scratch, o: &mut Obs) -> CheckResult {
    let f = || File::open(s.path("f")).expect("open scratch file");
    for (fmt, class) in [("gcmd", gcmd_line as fn(&[u8]) -> Class), ("tgf", tgf_line)] {
        let cmds = guarded(|| if fmt == "gcmd" { gcmd::read_as_commands(f()) } else { tgf::read_as_commands(f()) })
            .map_err(|p| format!("{}: reading the commands panicked: {}", fmt, p))?;
        let graph = guarded(|| if fmt == "gcmd" { gcmd::read(f()) } else { tgf::read(f()) })
            .map_err(|p| format!("{}: reading the graph panicked: {}", fmt, p))?;
        ensure_eq!(graph.is_ok(), cmds.is_ok(), "{}: reading as a graph and as commands disagree on acceptance", fmt);
        match expect(b, class) {
            Expect::Commands(want) => {
                let got: Vec<Co> = cmds.map_err(|e| format!("{}: a well-formed file was rejected: {}", fmt, e))?.iter().map(of).collect();
                ensure_eq!(got, want, "{}: commands read", fmt);
                let mut m = M::new();
                for c in &want {
                    match *c {
                        Co::AddV(a) => { m.add_v(a); }
                        Co::RmV(a) => { m.rm_v(a); }
                        Co::AddE(a, b) => { m.add_e(a, b); }
                        Co::RmE(a, b) => { m.rm_e(a, b); }
                    }
                }
                same_sets(&graph.unwrap(), &m).map_err(|e| format!("{}: graph read: {}", fmt, e))?;
                o.label(if fmt == "gcmd" { "accepted gcmd" } else { "accepted tgf" });
                o.nontrivial_if(want.len() >= 3);
            }
            Expect::ErrorAt(n) => {
                for (what, r) in [("commands", cmds.as_ref().map(|_| ()).map_err(|e| e.clone())), ("graph", graph.as_ref().map(|_| ()).map_err(|e| e.clone()))] {
                    match r {
                        Ok(()) => return Err(format!("{}: a file with an ill-formed line {} was accepted (as {})", fmt, n, what)),
                        Err(e) => ensure_eq!(named_line(&e), Some(n), "{}: line named by the error {:?}", fmt, e),
                    }
                }
                o.label(if fmt == "gcmd" { "rejected gcmd" } else { "rejected tgf" });
                o.nontrivial_if(n >= 3);
            }
            Expect::Open { lines, accept } => {
                o.label("open case");
                match cmds {
                    Ok(_) => ensure!(accept, "{}: a file with an ill-formed line was accepted", fmt),
                    Err(e) => ensure!(named_line(&e).map(|l| lines.contains(&l)).unwrap_or(false), "{}: error {:?} names none of the lines {:?}", fmt, e, lines),
                }
            }
        }
    }
    Ok(())
}

// every single line over a small alphabet, alone and between good lines
const ALPHA: [&str; 9] = ["AddVertex", "RemoveEdge", " ", "7", "18446744073709551616", "#", "x", "\t", "\u{663}"];
fn ex_total(t: Tier) -> u64 {
    (0..=t.pick(4u32, 6)).map(|k| (ALPHA.len() as u64).pow(k)).sum::<u64>()
}
fn ex_nth(t: Tier, mut k: u64) -> Case {
    for len in 0..=t.pick(4u32, 6) {
        let c = (ALPHA.len() as u64).pow(len);
        if k < c {
            let mut s = String::new();
            for _ in 0..len {
                s.push_str(ALPHA[(k % 9) as usize]);
                k /= 9;
            }
            // a first line valid for the format the line looks like
            let head = if s.starts_with(|c: char| c.is_ascii_digit()) { "1 2\n3\n" } else { "AddEdge 1 2\nAddVertex 3\n" };
            return Case { parts: vec![Part::T(head.to_string()), Part::T(s), Part::T("\n".to_string())] };
        }
        k -= c;
    }
    unreachable!()
}

// long lines, long files, multi-byte text across buffer boundaries
fn long_files(t: Tier) -> BoxedStrategy<Case> {
    let pad = prop_oneof![
        2 => ("(a|é|€|😀| |7|#|AddVertex 1 ){1,4}", 1u16..6000).prop_map(|(s, n)| (s, n)),
        1 => ("[0 ]", 1u16..9000).prop_map(|(s, n)| (s, n)),
    ];
    let head = prop_oneof![
        3 => (good_line(), 0u16..1500).prop_map(|(l, n)| (l + "\n", n)),
        3 => (good_tgf(), 0u16..1500).prop_map(|(l, n)| (l + "\n", n)),
        1 => (prop_oneof![good_line(), good_tgf(), Just("".to_string())], t.pick(20_000u16, 60_000)..=u16::MAX).prop_map(|(l, n)| (l + "\n", n)),
    ];
    let lead = proptest::sample::select(vec!["", "#", "# ", " #", "1 ", "1 2 ", "1 2", "12", "AddVertex ", "AddEdge 1 ", "AddEdge 1", "x"]).prop_map(|x| x.to_string());
    (head, lead, pad, prop_oneof![Just("".to_string()), number()], eol(), vec((line(), eol()), 0..3))
        .prop_map(|((h, n), lead, (p, k), tail, e, rest)| {
            let mut parts = vec![Part::R(h, n), Part::T(lead), Part::R(p, k), Part::T(tail), Part::T(e)];
            parts.extend(rest.into_iter().map(|(l, e)| Part::T(l + &e)));
            Case { parts }
        })
        .boxed()
}

/// the line at fault, or a last good one, around line 65536
fn many_lines(_: Tier) -> BoxedStrategy<Case> {
    let piece = || (prop_oneof![good_line(), good_tgf(), Just("".to_string()), Just("# 1".to_string())], prop_oneof![32_700u16..32_800, 33_000u16..33_500]);
    (piece(), piece(), vec((line(), eol()), 0..4))
        .prop_map(|((a, n), (b, m), rest)| {
            let mut parts = vec![Part::R(a + "\n", n), Part::R(b + "\n", m)];
            parts.extend(rest.into_iter().map(|(l, e)| Part::T(l + &e)));
            Case { parts }
        })
        .boxed()
}
fn main() {
    let mut s = Suite::new("C03");
    s.assume("comment lines that are not UTF-8, and TGF lines whose ids touch non-ASCII digits, may be accepted or rejected");
    s.exhaustive("all-short-lines", "every line of up to 4 (6) tokens over a 9-token alphabet after two good lines; non-trivial when the line decides acceptance (3 commands read, or the error is at line 3)", ex_total, ex_nth, check);
    s.test("files", (20_000, 400_000), "3 or more commands read, or the first ill-formed line is at line 3 or later", strat, check);
    s.test_shrink("long-files", (1_200, 20_000), 600, "3 or more commands read, or the first ill-formed line is at line 3 or later", long_files, check);
    s.test_shrink("65536-lines", (60, 600), 60, "3 or more commands read, or the first ill-formed line is at line 3 or later", many_lines, check);
    s.main()
}
