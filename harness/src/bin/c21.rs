//! C21: gc-random against the description of what it makes.
use gcv::*;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: G,
    n: u32,
    /// None: not given
    m: Option<u64>,
    /// Some: what is answered on standard input; None: forced
    answer: Option<String>,
    long: bool,
    inside: bool,
    #[serde(default)]
    dir: u8,
}
fn yes(a: &str) -> bool {
    let line = a.split('\n').next().unwrap_or("");
    matches!(line.trim(), "yes" | "y")
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    let dir = cli::name(c.dir);
    s.put_graph(dir, &c.g.vs, &c.g.es);
    s.put_graph("other", &[1, 2], &[(1, 2)]);
    s.write(&format!("{}/keep", dir), b"kept");
    let before = s.snapshot();
    let mut cmd = if c.inside { cli::cmd("gc-random", &s.path(dir)) } else { cli::cmd("gc-random", &s.root).args(["-p", dir]) };
    cmd = cmd.arg(if c.long { "--vertex-count" } else { "-v" }).arg(c.n);
    if let Some(m) = c.m {
        cmd = cmd.arg(if c.long { "--edge-count" } else { "-e" }).arg(m);
    }
    let go = match &c.answer {
        None => {
            cmd = cmd.arg(if c.long { "--force" } else { "-f" });
            true
        }
        Some(a) => {
            cmd = cmd.stdin(a.as_bytes());
            yes(a)
        }
    };
    let out = cmd.run()?;
    let at = || format!("{} answered {:?} ({})", cmd.show(), c.answer, out.brief());
    if !go {
        let after = s.snapshot();
        ensure!(before == after, "{}: not confirmed, but the stored graph or its directory changed", at());
        o.label("not confirmed");
        return Ok(());
    }
    ensure!(out.ok(), "{}: failed", at());
    let got = cli::stored(&s.path(dir)).map_err(|e| format!("{}: {}", at(), e))?;
    let Some(got) = got else { return Err(format!("{}: there is no graph afterwards", at())) };
    let n = c.n as u64;
    let want: std::collections::BTreeSet<u64> = (1..=n).collect();
    ensure!(got.v == want, "{}: the vertices are {:?}, expected 1 to {}", at(), brief(&got.v), n);
    let edges = got.e.len() as u64;
    if let Some(m) = c.m {
        ensure!(edges <= m, "{}: {} edges, more than asked for", at(), edges);
        let plenty = (n * n.saturating_sub(1)) / 4;
        ensure!(m > plenty || edges == m, "{}: {} edges, exactly {} were asked for", at(), edges, m);
        o.label(if m <= plenty { "exact number of edges" } else { "more edges than sure to fit" });
    }
    ensure!(!got.has_cycle(), "{}: the graph has a cycle: {:?}", at(), got.e.iter().take(30).collect::<Vec<_>>());
    let mut after = s.snapshot();
    let mut b = before.clone();
    b.remove(&format!("{}/{}", dir, cli::STORE));
    after.remove(&format!("{}/{}", dir, cli::STORE));
    ensure!(b == after, "{}: something else than the stored graph changed: {:?} before, {:?} after", at(), b.keys(), after.keys());
    o.label_if(c.answer.is_some(), "confirmed");
    o.label_if(n >= 10, "several layers");
    o.nontrivial_if(n >= 3);
    Ok(())
}
fn brief(v: &std::collections::BTreeSet<u64>) -> Vec<u64> {
    v.iter().take(20).copied().collect()
}
fn answer() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        6 => Just(None),
        2 => proptest::sample::select(vec!["yes\n", "y\n", "yes", "y", "yes\nno\n"]).prop_map(|x| Some(x.to_string())),
        2 => proptest::sample::select(vec!["", "\n", "no\n", "n\n", "YES\n", "Y\n", "yess\n", "yy\n", "ye\n", "\nyes\n", "no yes\n", "yes no\n", "ok\n", "1\n", "true\n"]).prop_map(|x| Some(x.to_string())),
        1 => "[yesnoYN]{0,4}\n".prop_map(Some),
    ]
    .boxed()
}
fn size() -> BoxedStrategy<(u32, Option<u64>)> {
    prop_oneof![
        60 => small_size().prop_map(|(n, m)| (n, m.map(u64::from))),
        // as many edges as sure to fit, or nearly
        1 => (350u32..1_400, 0u64..3).prop_map(|(n, k)| (n, Some((n as u64 * (n as u64 - 1) / 4).saturating_sub(k * k * n as u64)))),
        // far more than can fit
        3 => (0u32..40, prop_oneof![1u64 << 31..1 << 34, (0u64..4).prop_map(|d| u64::MAX - d), (0u64..4).prop_map(|d| i64::MAX as u64 + 2 - d), (0u64..4).prop_map(|d| (1 << 32) + 1 - d)]).prop_map(|(n, m)| (n, Some(m))),
    ]
    .boxed()
}
fn small_size() -> BoxedStrategy<(u32, Option<u32>)> {
    prop_oneof![
        8 => (0u32..4, prop_oneof![Just(None), (0u32..6).prop_map(Some)]),
        16 => (4u32..40).prop_flat_map(|n| (Just(n), prop_oneof![
            1 => Just(None),
            5 => (0..=n * (n - 1) / 4).prop_map(Some),
            2 => (0..=n).prop_map(Some),
            1 => Just(Some(n * (n - 1) / 4)),
            2 => (0..=n * n).prop_map(Some),
        ])),
        1 => (sizes(200, 1100), 0u32..3).prop_flat_map(|(n, k)| { let n = n as u32; (Just(n), prop_oneof![1 => Just(Some(n)), 2 => (0..=(2 + k) * n).prop_map(Some)]) }),
        1 => (1_000u32..4_200, 0u32..4).prop_flat_map(|(n, k)| (Just(n), prop_oneof![1 => Just(None), 2 => (0..=k * n + 1).prop_map(Some)])),
        1 => (prop_oneof![32_000u32..34_000, 65_500u32..66_000], 0u32..4).prop_flat_map(|(n, k)| (Just(n), prop_oneof![1 => Just(None), 2 => (0..=k * n + 1).prop_map(Some)])),
        1 => (200u32..350).prop_flat_map(|n| (Just(n), prop_oneof![Just(Some(n * (n - 1) / 4)), (n * 20..n * 45).prop_map(Some)])),
        4 => (40u32..200).prop_flat_map(|n| (Just(n), prop_oneof![1 => Just(None), 3 => (0..=4 * n).prop_map(Some), 1 => (0..=n * (n - 1) / 4).prop_map(Some)])),
    ]
    .boxed()
}
fn strat(_: Tier) -> BoxedStrategy<Case> {
    (prop_oneof![8 => graph(0, 6, 10, 12), 1 => long_graph(100, 600, (0..11).collect(), 10, false)], size(), answer(), any::<bool>(), any::<bool>(), any::<u8>()).prop_map(|(g, (n, m), answer, long, inside, dir)| Case { g, n, m, answer, long, inside, dir }).boxed()
}

// counts that are not numbers
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Bad {
    g: G,
    v: Option<String>,
    e: Option<String>,
}
fn check_bad(c: &Bad, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    s.put_graph("d", &c.g.vs, &c.g.es);
    let before = s.snapshot();
    let mut cmd = cli::cmd("gc-random", &s.root).args(["-p", "d", "-f"]);
    for (f, x) in [("-v", &c.v), ("-e", &c.e)] {
        match x {
            Some(x) => cmd = cmd.arg(f).arg(x),
            None => cmd = cmd.arg(f).arg(5),
        }
    }
    let out = cmd.run()?;
    ensure!(!out.ok(), "{} ({}): reported success", cmd.show(), out.brief());
    ensure!(s.snapshot() == before, "{} ({}): changed the stored graph", cmd.show(), out.brief());
    o.label(if c.e.is_some() { "bad edge count" } else { "bad vertex count" });
    o.nontrivial_if(true);
    Ok(())
}
pub fn bad_word() -> BoxedStrategy<String> {
    prop_oneof![
        proptest::sample::select(vec!["x", "1x", "x1", "1.5", "1e3", "18446744073709551616", "0x10", "", " ", "1 ", "1,2", "ten", "1_0"]).prop_map(|x| x.to_string()),
        "[0-9]{1,3}[a-z,.;:/_]{1,2}[0-9]{0,2}".prop_map(|x| x),
    ]
    .boxed()
}
fn bad(_: Tier) -> BoxedStrategy<Bad> {
    (graph(0, 6, 10, 12), bad_word(), any::<bool>()).prop_map(|(g, w, e)| if e { Bad { g, v: None, e: Some(w) } } else { Bad { g, v: Some(w), e: None } }).boxed()
}

fn main() {
    let mut s = Suite::new("C21");
    s.assume("at most 66000 vertices; what --connected and --cycle mean is not judged (they have no effect)");
    s.test_shrink("random-graphs", (3_000, 40_000), 300, "3 or more vertices", strat, check);
    s.test_shrink("malformed-counts", (300, 3_000), 100, "a count is no number", bad, check_bad);
    s.main()
}
