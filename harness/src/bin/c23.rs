//! C23: gc-clean, with everything around the graph watched.
use gcv::*;
use proptest::collection::vec;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    /// None: there is no graph
    g: Option<G>,
    /// more files below .graph
    extra: Vec<u8>,
    /// what lies around it
    around: Vec<u8>,
    /// directory to clean, below the scratch directory
    dir: u8,
    /// how the directory is named: by -p, by running inside, with a trailing slash, by ./, by ..
    naming: u8,
    answer: Option<String>,
    silent: bool,
    long: bool,
    /// the .graph is a link to a directory elsewhere
    #[serde(default)]
    linked: bool,
}
fn dir_of(c: &Case) -> &'static str {
    match c.dir {
        0 => "d",
        1 => "d/sub",
        k => cli::name(k),
    }
}
fn yes(a: &str) -> bool {
    matches!(a.split('\n').next().unwrap_or(""), "yes" | "y")
}
fn plant(s: &cli::Scratch, dir: &str, c: &Case) {
    for x in &c.around {
        let link = |name: &str, to: &str| {
            let _ = std::os::unix::fs::symlink(to, s.path(name));
        };
        match x % 12 {
            0 => s.write(&format!("{}/file", dir), b"mine"),
            1 => {
                s.mkdir(&format!("{}/folder", dir));
                s.write(&format!("{}/folder/x", dir), b"mine too");
            }
            2 => s.put_graph(&format!("{}/inner", dir), &[1, 2], &[(1, 2)]),
            3 => s.put_graph("neighbour", &[3], &[(3, 3)]),
            4 => s.write(&format!("{}/.graph2", dir), b"no graph"),
            5 => {
                s.mkdir(&format!("{}/.graphs", dir));
                s.write(&format!("{}/.graphs/commands", dir), b"AddVertex 1\n");
            }
            6 => s.write(&format!("{}/commands", dir), b"AddVertex 1\n"),
            7 if dir != "lock" => s.write("lock", b"of someone else"),
            7 => {}
            8 => s.put_graph(".", &[9], &[]),
            9 => s.write(&format!("{}/lock.txt", dir), b""),
            10 => link(&format!("{}/link", dir), "neighbour"),
            _ => {
                s.mkdir(&format!("{}/graph", dir));
                s.write(&format!("{}/graph/commands", dir), b"AddVertex 1\n");
            }
        }
    }
    if let Some(g) = &c.g {
        s.put_graph(dir, &g.vs, &g.es);
        for x in &c.extra {
            match x % 4 {
                0 => s.write(&format!("{}/.graph/more", dir), b"more"),
                1 => {
                    s.mkdir(&format!("{}/.graph/deep/er", dir));
                    s.write(&format!("{}/.graph/deep/er/x", dir), b"x");
                }
                // a link out of the graph: what it leads to is not part of the graph
                2 => {
                    s.mkdir("outside");
                    s.write("outside/precious", b"precious");
                    let up = "../".repeat(dir.split('/').count() + 1);
                    let _ = std::os::unix::fs::symlink(format!("{}outside", up), s.path(dir).join(".graph/out"));
                }
                _ => s.write(&format!("{}/.graph/lock", dir), b""),
            }
        }
    }
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    let dir = dir_of(c);
    s.mkdir(dir);
    plant(&s, dir, c);
    let linked = c.linked && c.g.is_some();
    if linked {
        // what the link leads to lies outside the directory
        s.mkdir("elsewhere");
        std::fs::rename(s.path(dir).join(".graph"), s.path("elsewhere/store")).expect("rename");
        s.write("elsewhere/store/mine", b"mine");
        let up = "../".repeat(dir.split('/').count());
        std::os::unix::fs::symlink(format!("{}elsewhere/store", up), s.path(dir).join(".graph")).expect("link");
    }
    let by_link = c.naming % 8 == 5;
    if by_link {
        std::os::unix::fs::symlink(dir, s.path("by-link")).expect("link");
    }
    let before = s.snapshot();
    let mut cmd = match c.naming % 8 {
        5 => cli::cmd("gc-clean", &s.root).args(["-p", "by-link"]),
        6 => cli::cmd("gc-clean", &s.root).arg("-p").arg(s.path(dir).display()),
        7 => cli::cmd("gc-clean", &s.root).arg("-p").arg(format!("{}//.", dir)),
        0 => cli::cmd("gc-clean", &s.root).args(["-p", dir]),
        1 => cli::cmd("gc-clean", &s.path(dir)),
        2 => cli::cmd("gc-clean", &s.root).arg("--path").arg(format!("{}/", dir)),
        3 => cli::cmd("gc-clean", &s.root).arg("--path").arg(format!("./{}", dir)),
        _ => cli::cmd("gc-clean", &s.path(dir)).arg("-p").arg(format!("../{}", dir.rsplit('/').next().unwrap_or(dir))),
    };
    if c.silent {
        cmd = cmd.arg(if c.long { "--silent" } else { "-s" });
    }
    let go = match &c.answer {
        None => {
            cmd = cmd.arg(if c.long { "--force" } else { "-f" });
            true
        }
        Some(a) => {
            cmd = cmd.stdin(a.as_bytes());
            yes(a)
        }
    };
    let out = cmd.run()?;
    let at = || format!("{} answered {:?} in {} ({})", cmd.show(), c.answer, dir, out.brief());
    let after = s.snapshot();
    let inside = format!("{}/.graph", dir);
    let of_graph = |k: &String| k == &inside || k.starts_with(&format!("{}/", inside));
    let rest: BTreeMap<_, _> = before.iter().filter(|(k, _)| !of_graph(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
    if !go {
        ensure!(after == before, "{}: not confirmed, but {:?} changed", at(), diff(&before, &after));
        o.label("not confirmed");
    } else if c.g.is_none() {
        ensure!(!out.ok(), "{}: reported success although there is no graph", at());
        for (k, v) in &before {
            ensure!(after.get(k) == Some(v), "{}: there is no graph, but {} changed", at(), k);
        }
        o.label("no graph");
    } else {
        ensure!(out.ok() || linked, "{}: failed", at());
        if !linked {
            ensure!(!after.contains_key(&format!("{}/{}", dir, cli::STORE)), "{}: the graph is still there: {:?}", at(), after.keys());
        } else if out.ok() {
            ensure!(!after.contains_key(&inside), "{}: the link to the graph is still there: {:?}", at(), after.keys());
        }
        let left: BTreeMap<_, _> = after.iter().filter(|(k, _)| !of_graph(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
        ensure!(left == rest, "{}: more than the graph changed: {:?}", at(), diff(&rest, &left));
        if c.silent && c.answer.is_none() && out.ok() {
            ensure!(out.stdout.is_empty(), "{}: silent, but it printed something", at());
        }
        o.label(if linked { "cleaned, a link" } else { "cleaned" });
        if !out.ok() {
            return Ok(());
        }
        // a new graph in its place is empty
        let init = cli::cmd("gc-init", &s.path(dir)).run()?;
        ensure!(init.ok(), "{}: gc-init afterwards fails: {}", at(), init.brief());
        let got = cli::stored(&s.path(dir))?;
        ensure!(got == Some(M::new()), "{}: after gc-init the graph is {:?}", at(), got);
    }
    o.label_if(c.extra.iter().any(|x| x % 4 == 2) && c.g.is_some(), "link out of the graph");
    o.nontrivial_if(!c.around.is_empty());
    Ok(())
}
fn diff(a: &BTreeMap<String, Option<Vec<u8>>>, b: &BTreeMap<String, Option<Vec<u8>>>) -> Vec<String> {
    a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).cloned().collect()
}
fn strat(_: Tier) -> BoxedStrategy<Case> {
    let answer = prop_oneof![
        5 => Just(None),
        3 => proptest::sample::select(vec!["yes\n", "y\n", "yes", "y", "yes\nno\n", "y\nn\n"]).prop_map(|x| Some(x.to_string())),
        3 => proptest::sample::select(vec!["", "\n", "no\n", "n\n", "YES\n", "Y\n", "Yes\n", "yess\n", "yy\n", "ye\n", "\nyes\n", "no\nyes\n", "yes no\n", "yes.\n", "ok\n", "1\n", "true\n", "force\n", "nyes\n"]).prop_map(|x| Some(x.to_string())),
        1 => "[yesnoYN]{0,4}\n?".prop_map(Some),
    ];
    (
        (prop_oneof![1 => Just(None), 5 => graph(0, 6, 10, 12).prop_map(Some)], vec(any::<u8>(), 0..4), vec(any::<u8>(), 0..7)),
        (prop_oneof![1 => 0u8..2, 1 => 128u8..=255], 0u8..8, answer, any::<bool>(), any::<bool>(), proptest::bool::weighted(0.12)),
    )
        .prop_map(|((g, extra, around), (dir, naming, answer, silent, long, linked))| Case { g, extra, around, dir, naming, answer, silent, long, linked })
        .boxed()
}

fn main() {
    let mut s = Suite::new("C23");
    s.assume("answers with white space around yes are not judged, nor what becomes of other files inside the .graph directory");
    s.test_shrink("clean", (3_000, 40_000), 300, "there are other files in or around the directory", strat, check);
    s.main()
}
