//! C29: the same command in its plain and in another spelling, on copies of one directory.
use gcv::*;
use proptest::collection::vec;
use std::collections::BTreeSet;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: G,
    /// gc-init without and with a graph, gc-add, gc-delete, gc-build, gc-clean, gc-random,
    /// gc-desc, gc-topo-sort, gc-short-path, gc-csp, gc-cycle
    cmd: u8,
    /// which options, and their values
    with: u16,
    action: u8,
    ids: Vec<u16>,
    nums: [u8; 6],
    /// how the options are spelt and ordered, how the directory is named
    spell: Vec<u8>,
    order: u64,
    dir: u8,
    naming: u8,
    /// 0: neither; help or version in front of option number `spell[0]`
    ask: u8,
}
struct Opt {
    long: &'static str,
    short: Option<char>,
    vals: Vec<String>,
}
const NUM: [&str; 6] = ["min-length", "max-length", "exact-length", "min-score", "max-score", "exact-score"];
const BINS: [&str; 11] = ["gc-init", "gc-add", "gc-delete", "gc-build", "gc-clean", "gc-random", "gc-desc", "gc-topo-sort", "gc-short-path", "gc-csp", "gc-cycle"];

impl Case {
    fn bin(&self) -> &'static str {
        BINS[self.cmd as usize % BINS.len()]
    }
    fn opts(&self) -> Vec<Opt> {
        let m = self.g.model();
        let vs: Vec<u64> = m.v.iter().copied().collect();
        let id = |r: u16| if vs.is_empty() || r % 11 == 0 { (1_000 + r as u64 % 5).to_string() } else { pick(&vs, r).to_string() };
        let edge = |r: u16| {
            let es: Vec<E> = m.e.iter().copied().collect();
            if es.is_empty() || r % 4 == 0 { vec![id(r), id(r.rotate_left(7))] } else { let e = pick(&es, r); vec![e.0.to_string(), e.1.to_string()] }
        };
        let mut o: Vec<Opt> = vec![];
        let mut put = |long: &'static str, short: Option<char>, vals: Vec<String>| o.push(Opt { long, short, vals });
        // a part of the ids for each of the lists, at least n of them
        let part = |k: usize, n: usize| -> Vec<u16> { (0..n + self.ids[k % self.ids.len()] as usize % 3).map(|i| self.ids[(k * 3 + i) % self.ids.len()].wrapping_add((k * 4097 + i * 9973) as u16)).collect() };
        let list = |k: usize, n: usize| -> Vec<String> {
            let mut seen = BTreeSet::new();
            part(k, n).into_iter().map(id).filter(|x| seen.insert(x.clone())).collect()
        };
        let pairs = |k: usize| -> Vec<String> { part(k, 1).into_iter().flat_map(edge).collect() };
        let on = |k: u16| self.with >> k & 1 == 1;
        match self.bin() {
            "gc-add" => {
                for (k, (long, short)) in [("vertex", 'v'), ("chain", 'c'), ("cycle", 'O'), ("star", 'X'), ("clique", 'C')].into_iter().enumerate() {
                    let l = list(k, 2);
                    if on(k as u16) && l.len() >= 2 {
                        put(long, Some(short), l);
                    }
                }
                if on(5) {
                    put("edge", Some('e'), pairs(5));
                }
                if on(6) {
                    put("reverse", Some('r'), vec![]);
                }
            }
            "gc-delete" => {
                if on(0) || !on(1) {
                    put("vertex", Some('v'), list(0, 1));
                }
                if on(1) {
                    put("edge", Some('e'), pairs(1));
                }
            }
            "gc-build" => {
                if on(0) {
                    put("verbose", Some('v'), vec![]);
                }
            }
            "gc-clean" => {
                if on(0) {
                    put("force", Some('f'), vec![]);
                }
                if on(1) {
                    put("silent", Some('s'), vec![]);
                }
            }
            "gc-random" => {
                let n = if on(0) { 100 } else { 2 + self.nums[0] as u64 % 30 };
                put("vertex-count", Some('v'), vec![n.to_string()]);
                put("edge-count", Some('e'), vec![(self.nums[1] as u64 % (n * (n - 1) / 4 + 1)).to_string()]);
                if on(1) || on(2) {
                    put("force", Some('f'), vec![]);
                }
            }
            b @ ("gc-short-path" | "gc-csp") => {
                put("start", Some('s'), vec![pick(&vs, self.ids[0]).to_string()]);
                put("end", Some('e'), vec![pick(&vs, self.ids[1 % self.ids.len()]).to_string()]);
                if b == "gc-csp" {
                    for (k, long) in ["include", "exclude"].into_iter().enumerate() {
                        if on(k as u16) && on(k as u16 + 7) {
                            put(long, None, list(k, 1));
                        }
                    }
                    let l = list(2, 2);
                    if on(2) && l.len() >= 2 {
                        put("ordered", None, l);
                    }
                    if on(3) && on(4) {
                        put(if on(5) { "no-cycle" } else { "include-cycle" }, None, vec![]);
                    }
                    for (i, long) in NUM.into_iter().enumerate() {
                        if i == 1 || (on(6 + i as u16) && on(i as u16)) {
                            put(long, None, vec![(self.nums[i] % 7).to_string()]);
                        }
                    }
                }
            }
            "gc-cycle" => {
                match self.action % 8 {
                    0 => put("girth", None, vec![]),
                    1 => put("hamiltonian", None, vec![]),
                    2 => put("count", Some('c'), vec![]),
                    3 => put("head", Some('h'), vec![]),
                    4 => put("take-n", Some('n'), vec![(self.nums[0] % 6).to_string()]),
                    5 => put("all", Some('a'), vec![]),
                    6 => put("shortest", Some('s'), vec![]),
                    _ => put("longest", Some('L'), vec![]),
                }
                for (k, long) in ["include-all", "exclude-all"].into_iter().enumerate() {
                    if on(k as u16) && on(k as u16 + 7) {
                        put(long, None, list(k, 1));
                    }
                }
                for (k, long) in ["include-all-edges", "exclude-all-edges"].into_iter().enumerate() {
                    if on(k as u16 + 2) && on(k as u16 + 9) {
                        put(long, None, pairs(k));
                    }
                }
                for (i, long) in NUM.into_iter().enumerate() {
                    if on(10 + i as u16) && on(4 + i as u16) {
                        put(long, None, vec![(self.nums[i] % 7).to_string()]);
                    }
                }
            }
            _ => {}
        }
        o
    }
}
/// the words of an option in its k-th spelling
fn words(o: &Opt, k: u8) -> Vec<String> {
    let long = format!("--{}", o.long);
    let short = o.short.map(|c| format!("-{}", c));
    match (&o.vals[..], short) {
        ([], Some(s)) => vec![if k % 2 == 0 { s } else { long }],
        ([], None) => vec![long],
        ([v], s) => match (k % 5, s) {
            (0, Some(s)) => vec![s, v.clone()],
            (1, Some(s)) => vec![format!("{}{}", s, v)],
            (2, Some(s)) => vec![format!("{}={}", s, v)],
            (3, _) => vec![format!("{}={}", long, v)],
            _ => vec![long, v.clone()],
        },
        (vs, s) => {
            let name = match s {
                Some(s) if k % 3 > 0 => s,
                _ => long,
            };
            [name].into_iter().chain(vs.iter().cloned()).collect()
        }
    }
}
fn plain(c: &Case, s: &cli::Scratch) -> cli::Cmd {
    let cmd = cli::cmd(c.bin(), &s.root).args(["--path", "d"]);
    cmd.args(c.opts().iter().flat_map(|o| [format!("--{}", o.long)].into_iter().chain(o.vals.iter().cloned())))
}
fn other(c: &Case, s: &cli::Scratch, dir: &str) -> cli::Cmd {
    let mut opts = c.opts();
    let at = s.path(dir);
    let inside = c.naming % 8 < 3;
    let p = match c.naming % 8 {
        0 | 1 => None,
        2 => Some(".".to_string()),
        3 | 4 => Some(dir.to_string()),
        5 => Some(format!("./{}", dir)),
        6 => Some(format!("{}/", dir)),
        _ => Some(at.to_string_lossy().to_string()),
    };
    if let Some(p) = p {
        opts.push(Opt { long: "path", short: Some('p'), vals: vec![p] });
    }
    // the documented default
    if c.bin() == "gc-random" && c.with >> 3 & 1 == 1 {
        opts.retain(|o| o.long != "vertex-count" || o.vals[0] != "100");
    }
    let spell = |i: usize| c.spell[i % c.spell.len()];
    let mut all: Vec<Vec<String>> = perm(opts.len(), c.order).into_iter().map(|i| words(&opts[i], spell(i))).collect();
    // a short flag joined to what comes next
    let short = |w: &str| w.len() >= 2 && w.starts_with('-') && !w.starts_with("--");
    for i in (0..all.len().saturating_sub(1)).rev() {
        if spell(i + 3) % 4 < 3 && all[i].len() == 1 && all[i][0].len() == 2 && short(&all[i][0]) && short(&all[i + 1][0]) {
            let joined = format!("{}{}", all[i][0], &all[i + 1][0][1..]);
            all[i + 1][0] = joined;
            all.remove(i);
        }
    }
    if c.ask > 0 {
        let cycle = c.bin() == "gc-cycle";
        let w = match c.ask % 4 {
            0 => "--help",
            1 if !cycle => "-h",
            1 => "--help",
            2 => "--version",
            _ => "-V",
        };
        let i = spell(0) as usize % (all.len() + 1);
        all.insert(i, vec![w.to_string()]);
    }
    cli::cmd(c.bin(), if inside { &at } else { &s.root }).args(all.into_iter().flatten())
}
/// what an answer says, where several are right
fn gist(bin: &str, some: bool, out: &cli::Out) -> Vec<String> {
    let lines: Vec<&str> = out.stdout.lines().filter(|l| !l.trim().is_empty()).collect();
    let mut r: Vec<String> = vec![];
    match bin {
        // the directory's name apart
        "gc-desc" => r.extend(lines.iter().skip_while(|l| !l.starts_with("Vertices")).map(|l| l.to_string())),
        "gc-topo-sort" => {
            r.extend(out.stdout.split_whitespace().map(|x| x.to_string()));
            r.sort();
        }
        "gc-short-path" | "gc-csp" => {
            r.extend(lines.iter().filter(|l| l.trim().parse::<u64>().is_err()).map(|l| l.to_string()));
            r.push(format!("{} vertices", lines.iter().filter(|l| l.trim().parse::<u64>().is_ok()).count()));
        }
        "gc-cycle" => {
            for l in lines {
                // a cycle counts by its length
                let ids = l.split(|x: char| !x.is_ascii_digit()).filter(|x| !x.is_empty()).count();
                r.push(match l.split_once(':') {
                    Some(("count" | "girth", _)) => l.to_string(),
                    Some((name, _)) => format!("{}: {} ids", name, ids),
                    None if some => "a cycle".to_string(),
                    None => l.to_string(),
                });
            }
            r.sort();
        }
        _ => {}
    }
    r
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    if c.g.vs.is_empty() {
        o.excluded = true;
        return Ok(());
    }
    let bin = c.bin();
    // a graph in the directory above
    let above = c.naming >> 4 & 3 == 0;
    let dir = match cli::name(c.dir) {
        ".graph" | "lock" if above => "e",
        d => d,
    };
    let (a, b) = (cli::Scratch::new(), cli::Scratch::new());
    a.mkdir("d");
    b.mkdir(dir);
    if above {
        let es: Vec<E> = c.g.es.iter().take(2).map(|(x, y)| (*y, x.wrapping_add(7))).collect();
        a.put_graph(".", &[3, 4, 9], &es);
        b.put_graph(".", &[3, 4, 9], &es);
    }
    let none = if bin == "gc-init" { c.with & 1 == 1 } else { c.naming >> 6 == 0 };
    if !none {
        a.put_graph("d", &c.g.vs, &c.g.es);
        b.put_graph(dir, &c.g.vs, &c.g.es);
    }
    let before = b.snapshot();
    // without --force, some are confirmed
    let answer: &[u8] = if c.action % 2 == 0 { b"yes\n" } else { b"no\n" };
    let y = other(c, &b, dir).stdin(answer);
    let shown = format!("{} (in {})", y.show(), y.cwd.strip_prefix(&b.root).map(|p| p.display().to_string()).unwrap_or_default());
    if c.ask > 0 {
        let out = y.run()?;
        ensure!(out.ok(), "{} fails: {}", shown, out.brief());
        ensure!(!out.stdout.trim().is_empty(), "{} prints nothing", shown);
        ensure!(b.snapshot() == before, "{} changes the directory", shown);
        o.label("help or version");
        o.nontrivial_if(y.args.len() >= 2);
        return Ok(());
    }
    let x = plain(c, &a).stdin(answer);
    let (ra, rb) = (x.run()?, y.run()?);
    ensure!(ra.ok() == rb.ok(), "{} and {} end differently: {} and {}", x.show(), shown, ra.brief(), rb.brief());
    if !none && matches!(bin, "gc-init" | "gc-add" | "gc-delete" | "gc-build" | "gc-random" | "gc-desc" | "gc-short-path" | "gc-cycle") {
        ensure!(ra.ok(), "{} fails: {}", x.show(), ra.brief());
    }
    let (ga, gb) = (cli::stored(&a.path("d"))?, cli::stored(&b.path(dir))?);
    if bin == "gc-random" {
        // random, but of the same size
        let size = |m: &Option<M>| m.as_ref().map(|m| (m.v.clone(), m.e.len()));
        ensure!(size(&ga) == size(&gb), "{} and {} store graphs of different size: {:?} and {:?}", x.show(), shown, size(&ga), size(&gb));
    } else {
        ensure!(ga == gb, "{} and {} store {:?} and {:?}", x.show(), shown, ga, gb);
    }
    // nothing anywhere else
    if above {
        let (pa, pb) = (cli::stored(&a.root)?, cli::stored(&b.root)?);
        ensure!(pa == pb, "{} and {} leave different graphs above: {:?} and {:?}", x.show(), shown, pa, pb);
    }
    let strip = |s: &cli::Scratch, d: &str| -> BTreeSet<String> { s.snapshot().into_keys().filter_map(|k| k.strip_prefix(&format!("{}/", d)).map(|x| x.to_string()).or(if d.starts_with(&k) { None } else { Some(format!("outside: {}", k)) })).collect() };
    ensure!(strip(&a, "d") == strip(&b, dir), "{} and {} leave different files: {:?} and {:?}", x.show(), shown, strip(&a, "d"), strip(&b, dir));
    let some = matches!(c.action % 8, 3 | 4);
    let (na, nb) = (gist(bin, some, &ra), gist(bin, some, &rb));
    ensure!(na == nb, "{} and {} answer differently: {:?} and {:?}", x.show(), shown, ra.brief(), rb.brief());
    if bin == "gc-build" && rb.ok() {
        let m = c.g.model();
        let told = |name: &str, n: usize| rb.stdout.lines().any(|l| l.trim().strip_prefix(name).map(|r| r.trim().parse() == Ok(n)).unwrap_or(false));
        let (v, e) = (told("Vertices:", m.v.len()), told("Edges:", m.e.len()));
        let verbose = c.with & 1 == 1;
        ensure!(if verbose { v && e } else { !v && !e }, "{} tells {:?} of a graph of {} vertices and {} edges", shown, rb.stdout, m.v.len(), m.e.len());
    }
    o.label(bin);
    o.label_if(!ra.ok(), "fails");
    o.label_if(above, "a graph above");
    o.label_if(none, "no graph");
    o.label_if(y.args.iter().any(|a| { a.len() >= 3 && a.starts_with("-") && a.is_char_boundary(3) && a[1..3].chars().all(|x| x.is_ascii_alphabetic()) }), "joined flags");
    o.label_if(c.naming % 8 < 2, "current directory");
    o.nontrivial_if(x.args[2..] != y.args[..] && y.args.len() >= 2);
    Ok(())
}
fn strat(_: Tier) -> BoxedStrategy<Case> {
    let g = prop_oneof![3 => graph(2, 6, 10, 12), 1 => dag(2, 6, 8, 9), 1 => graph_shapes(3, 6, 8, 12, vec![2, 4, 8])];
    let cmd = prop_oneof![4 => Just(1u8), 1 => Just(2), 3 => Just(9), 6 => Just(10), 6 => 0u8..11];
    ((g, cmd, any::<u16>(), any::<u8>()), (vec(any::<u16>(), 2..9), any::<[u8; 6]>()), (vec(any::<u8>(), 1..8), any::<u64>()), (any::<u8>(), any::<u8>(), prop_oneof![7 => Just(0u8), 1 => 1u8..5]))
        .prop_map(|((mut g, cmd, with, action), (ids, nums), (spell, order), (dir, naming, ask))| {
            // connected: of other graphs, gc-cycle lists some cycles only
            let cs = g.model().weak_components();
            for w in cs.windows(2) {
                g.es.push((*w[0].iter().next().unwrap(), *w[1].iter().last().unwrap()));
            }
            Case { g, cmd, with, action, ids, nums, spell, order, dir, naming, ask }
        })
        .boxed()
}

fn main() {
    let mut s = Suite::new("C29");
    cli::warm(&BINS);
    s.assume("options are given at most once, lists of values as separate words; where several answers are right, their size is compared");
    s.test("spellings", (6_000, 60_000), "another spelling of at least one option", strat, check);
    s.main()
}
