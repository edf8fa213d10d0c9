//! C02: command files round-trip, append, replay and revert.
use gc_core::directed_graph::DirectedGraph;
use gc_core::format::gcmd;
use gc_core::graph_command::GraphCommand;
use gcv::*;
use proptest::collection::vec;
use std::fs::File;

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize, PartialEq, Eq)]
enum Co {
    AddV(u64),
    RmV(u64),
    AddE(u64, u64),
    RmE(u64, u64),
}
impl Co {
    fn real(&self) -> GraphCommand {
        match *self {
            Co::AddV(a) => GraphCommand::AddVertex(vid(a)),
            Co::RmV(a) => GraphCommand::RemoveVertex(vid(a)),
            Co::AddE(a, b) => GraphCommand::AddEdge(vid(a), vid(b)),
            Co::RmE(a, b) => GraphCommand::RemoveEdge(vid(a), vid(b)),
        }
    }
    fn of(c: &GraphCommand) -> Co {
        match *c {
            GraphCommand::AddVertex(a) => Co::AddV(a.0),
            GraphCommand::RemoveVertex(a) => Co::RmV(a.0),
            GraphCommand::AddEdge(a, b) => Co::AddE(a.0, b.0),
            GraphCommand::RemoveEdge(a, b) => Co::RmE(a.0, b.0),
        }
    }
    fn apply(&self, m: &mut M) {
        match *self {
            Co::AddV(a) => { m.add_v(a); }
            Co::RmV(a) => { m.rm_v(a); }
            Co::AddE(a, b) => { m.add_e(a, b); }
            Co::RmE(a, b) => { m.rm_e(a, b); }
        }
    }
    fn opposite(&self) -> Co {
        match *self {
            Co::AddV(a) => Co::RmV(a),
            Co::RmV(a) => Co::AddV(a),
            Co::AddE(a, b) => Co::RmE(a, b),
            Co::RmE(a, b) => Co::AddE(a, b),
        }
    }
    fn text(&self) -> String {
        match *self {
            Co::AddV(a) => format!("AddVertex {}", a),
            Co::RmV(a) => format!("RemoveVertex {}", a),
            Co::AddE(a, b) => format!("AddEdge {} {}", a, b),
            Co::RmE(a, b) => format!("RemoveEdge {} {}", a, b),
        }
    }
}
fn id() -> BoxedStrategy<u64> {
    prop_oneof![5 => 0u64..7, 2 => 0u64..40, 2 => proptest::sample::select(BOUNDARY_IDS.to_vec()), 1 => any::<u64>()].boxed()
}
fn co() -> BoxedStrategy<Co> {
    prop_oneof![
        2 => id().prop_map(Co::AddV),
        2 => id().prop_map(Co::RmV),
        6 => (id(), id()).prop_map(|(a, b)| Co::AddE(a, b)),
        3 => (id(), id()).prop_map(|(a, b)| Co::RmE(a, b)),
    ]
    .boxed()
}
fn reals(c: &[Co]) -> Vec<GraphCommand> {
    c.iter().map(|x| x.real()).collect()
}
fn scratch_file(s: &cli::Scratch) -> (String, impl Fn() -> File + '_) {
    let p = s.path("f");
    let ps = p.to_str().unwrap().to_string();
    (ps, move || File::open(&p).expect("open"))
}

// -- save / read round trip -----------------------------------------------------------
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Rt {
    g: G,
    /// what the file holds before the save
    before: u16,
}
fn rt(t: Tier) -> BoxedStrategy<Rt> {
    (prop_oneof![6 => graph(0, 14, 50, 120), 1 => graph(30, t.pick(260, 1200), t.pick(900, 4000), t.pick(900, 4000))], prop_oneof![3 => Just(0u16), 1 => 1u16..2000])
        .prop_map(|(g, before)| Rt { g, before })
        .boxed()
}
fn check_rt(c: &Rt, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    let (p, open) = scratch_file(&s);
    if c.before > 0 {
        s.write("f", "AddEdge 990 991\n".repeat(c.before as usize).as_bytes());
    }
    let g = c.g.build();
    let m = c.g.model();
    gcmd::save(&g, &p).map_err(|e| format!("save failed: {}", e))?;
    let back = gcmd::read(open()).map_err(|e| format!("reading a saved file failed: {}", e))?;
    same_sets(&back, &m).map_err(|e| format!("after save and read: {}", e))?;
    same_sets(&g, &m).map_err(|e| format!("saving changed the graph: {}", e))?;
    let cmds = gcmd::read_as_commands(open()).map_err(|e| format!("read_as_commands of a saved file failed: {}", e))?;
    let mut mm = M::new();
    cmds.iter().for_each(|x| Co::of(x).apply(&mut mm));
    ensure!(mm == m, "commands of a saved file give {:?}, expected {:?}", mm, m);
    // the derived command list, replayed on an empty graph
    let derived = GraphCommand::as_commands(&g);
    let mut h = DirectedGraph::new();
    GraphCommand::apply_commands(derived, &mut h);
    same_sets(&h, &m).map_err(|e| format!("after as_commands and apply_commands: {}", e))?;
    // and saving what was read gives the same again
    gcmd::save(&back, &p).map_err(|e| format!("second save failed: {}", e))?;
    let again = gcmd::read(open()).map_err(|e| format!("second read failed: {}", e))?;
    same_sets(&again, &m).map_err(|e| format!("after a second save and read: {}", e))?;
    let size = std::fs::metadata(&p).map(|x| x.len()).unwrap_or(0);
    o.label_if(size > 8192, "file over 8 KiB");
    o.label_if(m.v.iter().any(|v| *v > u32::MAX as u64), "ids over 32 bits");
    o.label_if(m.e.iter().any(|e| e.0 == e.1), "self-loop");
    o.label_if(c.before > 0, "overwrites a file");
    o.nontrivial_if(m.e.len() >= 2);
    Ok(())
}

// -- appending ------------------------------------------------------------------------
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct App {
    /// initial content: lines of the file (commands, comments, blanks)
    start: Vec<(u8, Co)>,
    batches: Vec<Vec<Co>>,
    /// repeat factor making long files
    repeat: u16,
    /// the last line of the initial content has no end of line
    #[serde(default)]
    open_end: bool,
}
fn app(t: Tier) -> BoxedStrategy<App> {
    (
        vec((0u8..6, co()), 0..12),
        vec(vec(co(), 0..12), 1..5),
        prop_oneof![12 => Just(1u16), 1 => 2u16..t.pick(200, 600)],
        proptest::bool::weighted(0.3),
    )
        .prop_map(|(start, batches, repeat, open_end)| App { start, batches, repeat, open_end })
        .boxed()
}
fn check_app(c: &App, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    let (p, open) = scratch_file(&s);
    let mut text = String::new();
    let mut all: Vec<Co> = vec![];
    for (kind, x) in &c.start {
        match kind {
            0 => text.push_str("# comment AddVertex 5\n"),
            1 => text.push_str("\n"),
            _ => {
                text.push_str(&x.text());
                text.push('\n');
                all.push(*x);
            }
        }
    }
    if c.open_end {
        text.pop();
    }
    s.write("f", text.as_bytes());
    for b in &c.batches {
        let before = std::fs::read(&p).unwrap();
        let list: Vec<Co> = b.iter().copied().cycle().take(b.len() * c.repeat as usize).collect();
        gcmd::add_commands(&p, reals(&list)).map_err(|e| format!("add_commands failed: {}", e))?;
        let after = std::fs::read(&p).unwrap();
        ensure!(after.starts_with(&before), "appending {:?} changed what the file already held", b);
        all.extend(&list);
        let got: Vec<Co> = gcmd::read_as_commands(open())
            .map_err(|e| format!("reading after an append failed: {}", e))?
            .iter()
            .map(Co::of)
            .collect();
        if got != all {
            let i = got.iter().zip(&all).position(|(a, b)| a != b).unwrap_or(got.len().min(all.len()));
            return Err(format!("after appending {:?} the file reads as {} commands, expected {}; first difference at {}: {:?} vs {:?}", b, got.len(), all.len(), i, got.get(i), all.get(i)));
        }
        let mut m = M::new();
        all.iter().for_each(|x| x.apply(&mut m));
        let g = gcmd::read(open()).map_err(|e| format!("reading after an append failed: {}", e))?;
        same_sets(&g, &m).map_err(|e| format!("loading the file: {}", e))?;
    }
    o.label_if(c.repeat > 1, "long");
    o.label_if(c.open_end && !text.is_empty() && !text.ends_with('\n'), "last line without end of line");
    o.label_if(all.iter().any(|x| matches!(x, Co::RmV(_) | Co::RmE(..))), "with removals");
    o.nontrivial_if(all.len() >= 4 && c.batches.len() >= 2);
    Ok(())
}

// -- reverting ------------------------------------------------------------------------
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Rev {
    g: G,
    history: Vec<Co>,
    x: Co,
}
fn rev(_: Tier) -> BoxedStrategy<Rev> {
    (graph(0, 7, 14, 20), vec(co(), 0..6), co(), any::<u16>(), any::<u16>(), 0u8..6)
        .prop_map(|(g, history, x, r1, r2, k)| {
            // aim commands at what the graph holds
            let m = g.model();
            let vs: Vec<u64> = m.v.iter().copied().collect();
            let es: Vec<E> = m.e.iter().copied().collect();
            let x = match k {
                0 if !es.is_empty() => { let e = pick(&es, r1); Co::RmE(e.0, e.1) }
                1 | 2 if !vs.is_empty() => Co::AddE(pick(&vs, r1), pick(&vs, r2)),
                3 if !vs.is_empty() => Co::RmV(pick(&vs, r1)),
                _ => x,
            };
            Rev { g, history, x }
        })
        .boxed()
}
fn check_rev(c: &Rev, o: &mut Obs) -> CheckResult {
    // revert
    let r = GraphCommand::revert(c.x.real());
    ensure_eq!(Co::of(&r), c.x.opposite(), "revert of {:?}", c.x);
    ensure_eq!(Co::of(&GraphCommand::revert(r)), c.x, "revert twice of {:?}", c.x);
    // replay in order, on top of an existing graph
    let mut g = c.g.build();
    let mut m = c.g.model();
    GraphCommand::apply_commands(reals(&c.history), &mut g);
    c.history.iter().for_each(|h| h.apply(&mut m));
    same_sets(&g, &m).map_err(|e| format!("apply_commands on a graph: {}", e))?;
    // one by one gives the same
    let mut g1 = c.g.build();
    c.history.iter().for_each(|h| h.real().apply_to(&mut g1));
    same_sets(&g1, &m).map_err(|e| format!("apply_to one by one: {}", e))?;
    // apply then revert
    let before = m.clone();
    let effective = match c.x {
        Co::AddV(a) => !m.v.contains(&a),
        Co::AddE(a, b) => !m.e.contains(&(a, b)) && m.v.contains(&a) && m.v.contains(&b),
        Co::RmE(a, b) => m.e.contains(&(a, b)),
        Co::RmV(_) => false,
    };
    c.x.real().apply_to(&mut g);
    c.x.apply(&mut m);
    same_sets(&g, &m).map_err(|e| format!("apply {:?}: {}", c.x, e))?;
    GraphCommand::revert(c.x.real()).apply_to(&mut g);
    c.x.opposite().apply(&mut m);
    same_sets(&g, &m).map_err(|e| format!("apply {:?} then its reverse: {}", c.x, e))?;
    if effective {
        same_sets(&g, &before).map_err(|e| format!("{:?} then its reverse did not restore the graph: {}", c.x, e))?;
    }
    o.label_if(effective, "effective edit");
    o.nontrivial_if(effective && !c.g.es.is_empty());
    Ok(())
}

// -- large and deep files ---------------------------------------------------------------
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Large {
    g: G,
    more: Vec<Co>,
    times: u32,
}
fn large(t: Tier) -> BoxedStrategy<Large> {
    (long_graph(100, t.pick(12_000, 24_000), (0..11).collect(), 40, false), vec(co(), 1..8), prop_oneof![3 => 1u32..50, 1 => 4000u32..t.pick(12_000, 40_000)])
        .prop_map(|(g, more, times)| Large { g, more, times })
        .boxed()
}
fn check_large(c: &Large, o: &mut Obs) -> CheckResult {
    check_rt(&Rt { g: c.g.clone(), before: 0 }, o)?;
    let s = cli::Scratch::new();
    let (p, open) = scratch_file(&s);
    gcmd::save(&c.g.build(), &p).map_err(|e| format!("save failed: {}", e))?;
    let before = std::fs::read(&p).unwrap();
    let list: Vec<Co> = c.more.iter().copied().cycle().take(c.more.len() * c.times as usize).collect();
    gcmd::add_commands(&p, reals(&list)).map_err(|e| format!("add_commands failed: {}", e))?;
    ensure!(std::fs::read(&p).unwrap().starts_with(&before), "appending {} commands changed what the file already held", list.len());
    let got: Vec<Co> = gcmd::read_as_commands(open()).map_err(|e| format!("reading after an append failed: {}", e))?.iter().map(Co::of).collect();
    let head = c.g.model();
    let k = got.len().saturating_sub(list.len());
    let mut m = M::new();
    got[..k].iter().for_each(|x| x.apply(&mut m));
    ensure!(m == head, "the first {} commands do not give the graph saved", k);
    ensure!(got[k..] == list[..], "the last {} commands are not those appended", list.len());
    list.iter().for_each(|x| x.apply(&mut m));
    let g = gcmd::read(open()).map_err(|e| format!("reading after an append failed: {}", e))?;
    same_sets(&g, &m).map_err(|e| format!("loading the file: {}", e))?;
    o.label_if(got.len() > 65_536, "more than 65536 commands");
    Ok(())
}

fn main() {
    let mut s = Suite::new("C02");
    s.test("save-read", (4_000, 60_000), "the graph has at least 2 edges", rt, check_rt);
    s.test("append", (4_000, 60_000), "at least 2 batches and 4 commands; order, content and the untouched prefix are compared after each append", app, check_app);
    s.test("revert-replay", (12_000, 200_000), "the reverted command had an effect on a graph with edges", rev, check_rev);
    s.test_shrink("large-files", (240, 3_000), 300, "a graph of 100 to 12000 (24000) vertices saved, then up to 90000 commands appended at once", large, check_large);
    s.main()
}
