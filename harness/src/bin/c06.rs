//! C06: edits under injected storage faults: a success has to be complete in the file.
use gc_core::format::{gcmd, tgf};
use gc_core::graph_command::GraphCommand;
use gcv::edits::*;
use gcv::*;
use proptest::collection::vec;
use std::os::unix::fs::PermissionsExt;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Edit(Edit),
    Build,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Fault {
    None,
    /// no file may grow beyond the size of the stored graph plus this
    Grow(i32),
    /// no file may grow beyond this share (in 1/16) of what the edit needs
    Share(u8),
    /// the stored graph is on a full device
    Full,
    /// the stored graph may not be written
    ReadOnly,
    /// no file may be created in the directory
    NoCreate,
    /// there is no graph, or no directory
    NoGraph,
    NoDir,
    /// .graph exists, but holds no graph
    Empty,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    g: G,
    op: Op,
    fault: Fault,
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    let mut m = c.g.model();
    let had = !matches!(c.fault, Fault::NoGraph | Fault::NoDir | Fault::Empty | Fault::Full);
    s.mkdir("x");
    if had {
        s.put_graph("d", &c.g.vs, &c.g.es);
    } else if matches!(c.fault, Fault::NoGraph) {
        s.mkdir("d");
    } else if matches!(c.fault, Fault::Empty | Fault::Full) {
        s.mkdir("d/.graph");
    }
    let store = s.path("d").join(cli::STORE);
    let size = std::fs::metadata(&store).map(|x| x.len() as i64).unwrap_or(0);
    let chmod = |p: &std::path::Path, mode: u32| {
        let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode));
    };
    let cmd = match &c.op {
        Op::Edit(e) => e.cmd(&s, "d"),
        Op::Build => cli::cmd("gc-build", &s.root).args(["-p", "d"]),
    };
    match &c.op {
        Op::Edit(e) => e.apply(&mut m),
        Op::Build => {}
    }
    // what the file may need in the end, at most
    let need = match &c.op {
        Op::Edit(e) => {
            let n: i64 = match e {
                Edit::Add(a) => [&a.v, &a.e, &a.chain, &a.cycle, &a.star].iter().map(|l| l.len() as i64).sum::<i64>() + (a.clique.len() * a.clique.len()) as i64,
                Edit::Del(d) => (d.v.len() + d.e.len()) as i64,
            };
            size + n * 60
        }
        Op::Build => (m.v.len() + m.e.len()) as i64 * 60,
    };
    let limit = match c.fault {
        Fault::Grow(k) => Some((size + k as i64).max(0) as u64),
        Fault::Share(k) => Some((need * k as i64 / 16).max(0) as u64),
        _ => None,
    };
    match c.fault {
        Fault::Full => {
            if matches!(c.op, Op::Build) || std::os::unix::fs::symlink("/dev/full", &store).is_err() {
                o.excluded = true;
                return Ok(());
            }
        }
        Fault::ReadOnly => chmod(&store, 0o444),
        Fault::NoCreate => chmod(&s.path("d"), 0o555),
        _ => {}
    }
    let out = cmd.clone().fsize(limit).run()?;
    chmod(&s.path("d"), 0o755);
    let at = || format!("{} with {:?} (limit {:?}, stored before: {} bytes; {})", cmd.show(), c.fault, limit, size, out.brief());
    let enough = had && limit.map(|l| l as i64 >= need.max(size)).unwrap_or(true) && !matches!(c.fault, Fault::ReadOnly | Fault::NoCreate);
    if out.ok() {
        if matches!(c.fault, Fault::Full) {
            // unless the link to the full device has been replaced by a complete file
            let link = std::fs::symlink_metadata(&store).map(|x| x.file_type().is_symlink()).unwrap_or(true);
            m = M::new();
            if let Op::Edit(e) = &c.op {
                e.apply(&mut m);
            }
            ensure!(!link && cli::stored(&s.path("d")) == Ok(Some(m)), "{}: reported success on a full device", at());
            return Ok(());
        }
        ensure!(had, "{}: reported success although there was no graph to edit", at());
        match cli::stored(&s.path("d")) {
            Err(e) => return Err(format!("{}: reported success, but {}", at(), e)),
            Ok(None) => return Err(format!("{}: reported success, but there is no graph", at())),
            Ok(Some(got)) => ensure!(got == m, "{}: reported success, but the stored graph is {:?}, expected {:?}", at(), got, m),
        }
        o.label("success");
    } else {
        ensure!(!enough, "{}: failed although nothing was in the way", at());
        o.label("failure reported");
    }
    o.label(match c.fault {
        Fault::None => "no fault",
        Fault::Grow(_) | Fault::Share(_) => "file may not grow",
        Fault::Full => "device full",
        Fault::ReadOnly | Fault::NoCreate => "no permission",
        _ => "no graph",
    });
    o.nontrivial_if(!matches!(c.fault, Fault::None));
    Ok(())
}
fn fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        2 => Just(Fault::None),
        6 => (-3i32..40).prop_map(Fault::Grow),
        5 => (0u8..18).prop_map(Fault::Share),
        2 => Just(Fault::Full),
        1 => Just(Fault::ReadOnly),
        1 => Just(Fault::NoCreate),
        1 => Just(Fault::NoGraph),
        1 => Just(Fault::NoDir),
        1 => Just(Fault::Empty),
    ]
    .boxed()
}
fn strat(_: Tier) -> BoxedStrategy<Case> {
    let op = prop_oneof![4 => edit(true).prop_map(Op::Edit), 1 => Just(Op::Build)];
    (graph(0, 8, 20, 24), op, fault()).prop_map(|(g, op, fault)| Case { g, op, fault }).boxed()
}
// graphs and edits of many kilobytes, so that several writes are needed
fn big(_: Tier) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        2 => Just(Op::Build),
        1 => (25u64..60).prop_map(|n| Op::Edit(Edit::Add(Add { clique: (0..n).map(|i| i * 977).collect(), ..Add::default() }))),
        1 => (400usize..1500).prop_map(|n| Op::Edit(Edit::Del(Del { e: (0..n as u64 * 2).map(|i| i * 7 % 500).collect(), v: vec![], long: false }))),
    ];
    (graph_shapes(100, 400, 900, 1500, vec![0, 2, 3, 6]), op, prop_oneof![3 => (0u8..18).prop_map(Fault::Share), 1 => (-9i32..9000).prop_map(Fault::Grow), 1 => Just(Fault::None)])
        .prop_map(|(g, op, fault)| Case { g, op, fault })
        .boxed()
}

// malformed arguments
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Bad {
    g: G,
    edit: Edit,
    how: u8,
    at: u16,
    word: String,
}
fn check_bad(c: &Bad, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    s.put_graph("d", &c.g.vs, &c.g.es);
    let mut args = c.edit.args();
    let ids: Vec<usize> = (0..args.len()).filter(|i| args[*i].parse::<u64>().is_ok()).collect();
    let what;
    match c.how {
        0 => {
            let i = pick(&ids, c.at);
            args[i] = c.word.clone();
            what = "malformed id";
        }
        1 => {
            // drop one end of the edges
            let flag = if args.contains(&"-e".to_string()) { "-e" } else { "--edge" };
            match args.iter().position(|a| a == flag) {
                Some(i) => {
                    args.insert(i + 1, "4".into());
                }
                None => {
                    args.extend(["-e".to_string(), "1".to_string(), "2".to_string(), "3".to_string()]);
                }
            }
            what = "odd number of ends";
        }
        _ => {
            // one vertex only, where two are needed
            let (flag, alt) = [("-c", "--chain"), ("-O", "--cycle"), ("-X", "--star"), ("-C", "--clique")][c.at as usize % 4];
            if c.edit.bin() != "gc-add" || args.iter().any(|a| a == flag || a == alt) {
                o.excluded = true;
                return Ok(());
            }
            args.extend([flag.to_string(), "1".to_string()]);
            what = "too few vertices";
        }
    }
    let before = s.snapshot();
    let cmd = cli::cmd(c.edit.bin(), &s.root).args(["-p", "d"]).args(args);
    let out = cmd.run()?;
    let at = || format!("{} ({}; {})", cmd.show(), what, out.brief());
    ensure!(!out.ok(), "{}: reported success", at());
    let got = cli::stored(&s.path("d")).map_err(|e| format!("{}: {}", at(), e))?;
    ensure!(got == Some(c.g.model()), "{}: changed the stored graph to {:?}, was {:?}", at(), got, c.g.model());
    let after = s.snapshot();
    ensure!(after.keys().eq(before.keys()), "{}: left the files {:?}, there were {:?}", at(), after.keys(), before.keys());
    o.label(what);
    o.label_if(c.edit.groups() > 1, "several groups of ids");
    o.nontrivial_if(c.edit.groups() > 1 || c.how > 0);
    Ok(())
}
fn bad(_: Tier) -> BoxedStrategy<Bad> {
    let word = prop_oneof![
        proptest::sample::select(vec!["x", "1x", "x1", "1.5", "1e3", "18446744073709551616", "99999999999999999999999", "0x10", "", " ", "1 ", "1,2", "one", "१"]).prop_map(|x| x.to_string()),
        "[0-9]{1,3}[a-z,.;:/_]{1,2}[0-9]{0,2}".prop_map(|x| x),
    ]
    .boxed();
    (graph(1, 6, 10, 12), edit(false), 0u8..3, any::<u16>(), word).prop_map(|(g, edit, how, at, word)| Bad { g, edit, how, at, word }).boxed()
}

// the library operations on a full device, in a missing directory and without any fault
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Lib {
    g: G,
    more: Vec<(u64, u64)>,
    op: u8,
    fault: u8,
}
fn check_lib(c: &Lib, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    let (name, content) = match c.fault {
        0 => (s.path("full").to_str().unwrap().to_string(), ""),
        1 => (s.path("none/file").to_str().unwrap().to_string(), ""),
        2 => (s.mkdir("dir").to_str().unwrap().to_string(), ""),
        _ => (s.path("file").to_str().unwrap().to_string(), "AddVertex 77\n"),
    };
    // a link inside the scratch directory: the device itself is never named to the code under test
    if c.fault == 0 && (!std::path::Path::new("/dev/full").exists() || std::os::unix::fs::symlink("/dev/full", &name).is_err()) {
        o.excluded = true;
        return Ok(());
    }
    if c.fault > 2 {
        s.write("file", content.as_bytes());
    }
    let real = c.g.build();
    let mut m = c.g.model();
    let cmds: Vec<GraphCommand> = c.more.iter().map(|(a, b)| GraphCommand::AddEdge(vid(*a), vid(*b))).collect();
    let some = match c.op {
        0 | 1 => !m.v.is_empty(),
        _ => !cmds.is_empty(),
    };
    let what = ["gcmd::save", "tgf::save", "gcmd::add_commands"][c.op as usize];
    let r = guarded(|| match c.op {
        0 => gcmd::save(&real, &name),
        1 => tgf::save(&real, name.clone()),
        _ => gcmd::add_commands(&name, cmds),
    })
    .map_err(|p| format!("{} panicked: {}", what, p))?;
    // nothing to write fits on a full device; tgf always writes something
    if c.fault == 0 && !some {
        o.excluded = true;
        return Ok(());
    }
    let is_link = || std::fs::symlink_metadata(&name).map(|x| x.file_type().is_symlink()).unwrap_or(false);
    if c.fault <= 2 && !(c.fault == 0 && r.is_ok() && !is_link()) {
        ensure!(r.is_err(), "{} of {:?} to {} reports success", what, c.g, ["a full device", "a missing directory", "a directory"][c.fault as usize]);
        o.label(["device full", "no directory", "is a directory"][c.fault as usize]);
    } else {
        ensure!(r.is_ok(), "{} to a writable file fails: {:?}", what, r);
        let f = std::fs::File::open(&name).map_err(|e| e.to_string())?;
        let got = match c.op {
            1 => tgf::read(f),
            _ => gcmd::read(f),
        }
        .map_err(|e| format!("after {}, the file cannot be read: {}", what, e))?;
        if c.op == 2 {
            m = M::new();
            if c.fault > 2 {
                m.add_v(77);
            }
            for (a, b) in &c.more {
                m.add_e(*a, *b);
            }
        }
        same_sets(&got, &m).map_err(|e| format!("after {}: {}", what, e))?;
        o.label("no fault");
    }
    o.nontrivial_if(some);
    Ok(())
}
fn lib(_: Tier) -> BoxedStrategy<Lib> {
    (
        prop_oneof![3 => graph(0, 8, 20, 24), 1 => graph_shapes(100, 300, 700, 1200, vec![0, 2, 3])],
        prop_oneof![3 => vec((0u64..20, 0u64..20), 0..8), 1 => vec((0u64..2000, any::<u64>()), 300..900)],
        0u8..3,
        0u8..4,
    )
        .prop_map(|(g, more, op, fault)| Lib { g, more, op, fault })
        .boxed()
}

// one file operation of the command fails, or writes are short
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Call {
    g: G,
    op: Op,
    /// which file operation fails (0: none)
    at: u8,
    errno: i32,
    /// all writes after it fail as well
    all: bool,
    /// at most this many bytes per write (0: no limit)
    short: u16,
}
fn check_call(c: &Call, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    let mut m = c.g.model();
    s.put_graph("d", &c.g.vs, &c.g.es);
    let cmd = match &c.op {
        Op::Edit(e) => {
            e.apply(&mut m);
            e.cmd(&s, "d")
        }
        Op::Build => cli::cmd("gc-build", &s.root).args(["-p", "d"]),
    };
    let mut cmd = cmd.shim("GCV_SHORT", c.short);
    if c.at > 0 {
        cmd = cmd.shim("GCV_FAIL_AT", c.at).shim("GCV_ERRNO", c.errno);
        // an interrupted call is tried again: it cannot be interrupted every time
        if c.all && c.errno != libc::EINTR {
            cmd = cmd.shim("GCV_FAIL_ALL", 1);
        }
    }
    let out = cmd.run()?;
    let at = || format!("{} ({})", cmd.show(), out.brief());
    if out.ok() {
        match cli::stored(&s.path("d")) {
            Err(e) => return Err(format!("{}: reported success, but {}", at(), e)),
            Ok(None) => return Err(format!("{}: reported success, but there is no graph", at())),
            Ok(Some(got)) => ensure!(got == m, "{}: reported success, but the stored graph is {:?}, expected {:?}", at(), got, m),
        }
        o.label("success");
    } else {
        ensure!(c.at > 0, "{}: failed because of short writes", at());
        o.label("failure reported");
    }
    o.label_if(c.short > 0, "short writes");
    o.nontrivial_if(c.at > 0 || c.short > 0);
    Ok(())
}
fn call(_: Tier) -> BoxedStrategy<Call> {
    let op = prop_oneof![3 => edit(true).prop_map(Op::Edit), 2 => Just(Op::Build)];
    let g = prop_oneof![3 => graph(0, 8, 20, 24), 1 => graph_shapes(100, 300, 700, 1200, vec![0, 2, 3])];
    let errno = proptest::sample::select(vec![libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EACCES, libc::EMFILE, libc::EINTR, libc::ENOENT]);
    (g, op, prop_oneof![1 => Just(0u8), 6 => 1u8..9, 2 => 9u8..16], errno, any::<bool>(), prop_oneof![4 => Just(0u16), 1 => 1u16..60, 1 => 1000u16..9000])
        .prop_map(|(g, op, at, errno, all, short)| Call { g, op, at, errno, all, short })
        .boxed()
}

fn large_call(_: Tier) -> BoxedStrategy<Call> {
    // several buffers of vertices, of edges, of commands
    let ids = |n: std::ops::Range<u64>| (n, any::<u32>()).prop_map(|(n, k)| (0..n).map(|i| k as u64 * 1000 + i).collect::<Vec<u64>>());
    let op = prop_oneof![
        4 => Just(Op::Build),
        1 => ids(500..1500).prop_map(|v| Op::Edit(Edit::Add(Add { v, ..Add::default() }))),
        1 => ids(300..900).prop_map(|chain| Op::Edit(Edit::Add(Add { chain, ..Add::default() }))),
        1 => ids(25..50).prop_map(|clique| Op::Edit(Edit::Add(Add { clique, ..Add::default() }))),
        1 => ids(500..1500).prop_map(|v| Op::Edit(Edit::Del(Del { v, e: vec![], long: false }))),
    ];
    let g = prop_oneof![2 => (700u64..2500, any::<u32>()).prop_map(|(n, k)| G { vs: (0..n).map(|i| k as u64 + i * 3).collect(), es: vec![] }), 1 => graph_shapes(700, 1500, 900, 1500, vec![0, 2, 3])];
    let errno = proptest::sample::select(vec![libc::EIO, libc::ENOSPC, libc::EDQUOT]);
    (g, op, 1u8..24, errno, proptest::bool::weighted(0.2), prop_oneof![4 => Just(0u16), 1 => 1000u16..9000])
        .prop_map(|(g, op, at, errno, all, short)| Call { g, op, at, errno, all, short })
        .boxed()
}

// the library operations in a process of their own, one file operation of which fails
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct LibCall {
    g: G,
    /// 0: gcmd::save, 1: tgf::save, 2: gcmd::add_commands
    op: u8,
    at: u8,
    errno: i32,
    all: bool,
    short: u16,
}
/// `self --library op`: the graph comes by stdin, one vertex or edge a line
fn library(op: &str) -> ! {
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).expect("stdin");
    let mut g = gc_core::directed_graph::DirectedGraph::new();
    let mut cmds = vec![];
    for l in text.lines() {
        let ids: Vec<u64> = l.split(' ').map(|x| x.parse().expect("id")).collect();
        if ids.len() == 1 {
            g.add_vertex(vid(ids[0]));
            cmds.push(GraphCommand::AddVertex(vid(ids[0])));
        } else {
            g.add_edge(edge((ids[0], ids[1])));
            cmds.push(GraphCommand::AddEdge(vid(ids[0]), vid(ids[1])));
        }
    }
    let r = match op {
        "0" => gcmd::save(&g, "f"),
        "1" => tgf::save(&g, "f".to_string()),
        _ => gcmd::add_commands("f", cmds),
    };
    std::process::exit(if r.is_ok() { 0 } else { 3 })
}
fn check_libcall(c: &LibCall, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    s.write("f", b"");
    let mut text = String::new();
    for v in &c.g.vs {
        text += &format!("{}\n", v);
    }
    for (a, b) in &c.g.es {
        text += &format!("{} {}\n", a, b);
    }
    let mut cmd = cli::cmd("self", &s.root).arg("--library").arg(c.op).stdin(text.as_bytes()).shim("GCV_SHORT", c.short);
    if c.at > 0 {
        cmd = cmd.shim("GCV_FAIL_AT", c.at).shim("GCV_ERRNO", c.errno);
        if c.all {
            cmd = cmd.shim("GCV_FAIL_ALL", 1);
        }
    }
    let out = cmd.run()?;
    let what = ["gcmd::save", "tgf::save", "gcmd::add_commands"][c.op as usize];
    let at = || format!("{} of {} vertices and {} edges, {} ({})", what, c.g.vs.len(), c.g.es.len(), cmd.show(), out.brief());
    if out.ok() {
        let got = std::fs::read_to_string(s.path("f")).unwrap_or_default();
        let mut m = M::new();
        for l in got.lines() {
            let ids: Vec<u64> = l.split(' ').filter_map(|x| x.parse().ok()).collect();
            match ids.len() {
                1 => {
                    m.add_v(ids[0]);
                }
                2 => {
                    m.add_e(ids[0], ids[1]);
                }
                _ => {}
            }
        }
        let want = c.g.model();
        ensure!(m == want, "{}: reported success, but the file holds {} vertices and {} edges", at(), m.v.len(), m.e.len());
        o.label("success");
    } else {
        ensure!(c.at > 0, "{}: failed because of short writes", at());
        o.label("failure reported");
    }
    o.label(what);
    o.nontrivial_if(c.at > 0 || c.short > 0);
    Ok(())
}
fn libcall(_: Tier) -> BoxedStrategy<LibCall> {
    let many = |n: std::ops::Range<u64>| (n, any::<u32>()).prop_map(|(n, k)| G { vs: (0..n).map(|i| k as u64 + i * 3).collect(), es: vec![] });
    let g = prop_oneof![1 => graph(1, 8, 20, 24), 2 => many(700..2500), 2 => graph_shapes(100, 1500, 900, 1500, vec![0, 2, 3])];
    let errno = proptest::sample::select(vec![libc::EIO, libc::ENOSPC, libc::EDQUOT]);
    (g, 0u8..3, 0u8..8, errno, proptest::bool::weighted(0.2), prop_oneof![4 => Just(0u16), 1 => 1u16..60, 1 => 1000u16..9000])
        .prop_map(|(g, op, at, errno, all, short)| LibCall { g, op, at, errno, all, short })
        .boxed()
}

// gc-build on a file that cannot be read
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Corrupt {
    g: G,
    junk: String,
    at: u16,
}
fn check_corrupt(c: &Corrupt, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    let mut lines: Vec<String> = cli::store_text(&c.g.vs, &c.g.es).lines().map(|x| x.to_string()).collect();
    let at = c.at as usize * (lines.len() + 1) / 65536;
    lines.insert(at, c.junk.clone());
    s.mkdir("d/.graph");
    s.write(&format!("d/{}", cli::STORE), (lines.join("\n") + "\n").as_bytes());
    let before = s.snapshot();
    let out = cli::cmd("gc-build", &s.root).args(["-p", "d"]).run()?;
    ensure!(!out.ok(), "gc-build reports success although line {} of the file is {:?} ({})", at + 1, c.junk, out.brief());
    ensure!(s.snapshot() == before, "gc-build failed to read the file, but changed it (line {}: {:?}; {})", at + 1, c.junk, out.brief());
    o.nontrivial_if(at > 0);
    Ok(())
}
fn corrupt(_: Tier) -> BoxedStrategy<Corrupt> {
    let junk = proptest::sample::select(vec!["junk", "AddVertex", "AddVertex x", "AddEdge 1", "AddEdge 1 x", "RemoveEdge", "AddVertex 99999999999999999999", "Remove 1"]).prop_map(|x| x.to_string());
    (graph(0, 8, 20, 24), junk, any::<u16>()).prop_map(|(g, junk, at)| Corrupt { g, junk, at }).boxed()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|x| x.as_str()) == Some("--library") {
        library(&args[2]);
    }
    let mut s = Suite::new("C06");
    s.assume("faults injected: file size limits, a full device (/dev/full), missing permission, missing graph or directory, one failing file operation (library call) of the command, short writes");
    s.assume("what a failed edit leaves behind on a failing device is not judged, only that it is reported");
    s.test_shrink("faults", (3_000, 40_000), 300, "a fault was injected", strat, check);
    s.test_shrink("failing-call", (3_000, 40_000), 300, "a file operation failed or writes were short", call, check_call);
    s.test_shrink("failing-call-large", (600, 8_000), 60, "a file operation failed or writes were short", large_call, check_call);
    s.test_shrink("library-failing-call", (1_500, 15_000), 100, "a file operation failed or writes were short", libcall, check_libcall);
    s.test_shrink("unreadable", (400, 4_000), 100, "the malformed line is not the first", corrupt, check_corrupt);
    s.test_shrink("large-writes", (400, 5_000), 60, "a fault was injected", big, check);
    s.test_shrink("malformed-arguments", (1_500, 15_000), 300, "several groups of ids, an odd number of ends or too few vertices", bad, check_bad);
    s.test("library", (2_000, 20_000), "there was something to write", lib, check_lib);
    s.main()
}
