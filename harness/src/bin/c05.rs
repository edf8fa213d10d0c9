//! C05: histories of commands in several directories, against the graph model.
use gcv::edits::*;
use gcv::*;
use proptest::collection::vec;

const DIRS: [&str; 3] = ["a", "a/b", "c"];
/// the directories of a case: one of them, or the one around it, can have another name
fn dirs(odd: u8) -> [String; 3] {
    match odd {
        0..=127 => DIRS.map(String::from),
        k if k % 2 == 0 => [cli::name(k).to_string(), format!("{}/b", cli::name(k)), "c".into()],
        // a name inside a that would be part of its graph, or its lock, means something else
        k if matches!(cli::name(k), ".graph" | "lock") => DIRS.map(String::from),
        k => ["a".into(), format!("a/{}", cli::name(k)), "c".into()],
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Init,
    Edit(Edit),
    Build,
    Clean,
    Desc,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Step {
    dir: u8,
    /// run inside the directory instead of naming it
    inside: bool,
    op: Op,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    steps: Vec<Step>,
    #[serde(default)]
    odd: u8,
    /// what the first directory holds at the start
    #[serde(default, skip_serializing_if = "Option::is_none")]
    start: Option<G>,
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let s = cli::Scratch::new();
    let dirs = dirs(c.odd);
    for d in &dirs {
        s.mkdir(d);
    }
    let mut model: Vec<Option<M>> = vec![None; DIRS.len()];
    if let Some(g) = &c.start {
        s.put_graph(&dirs[0], &g.vs, &g.es);
        model[0] = Some(g.model());
    }
    let (mut edits, mut desc, mut rebuilt, mut shrunk) = (0, 0, 0, false);
    for (i, st) in c.steps.iter().enumerate() {
        let k = st.dir as usize % DIRS.len();
        let dir = dirs[k].as_str();
        let (bin, args): (&'static str, Vec<String>) = match &st.op {
            Op::Init => ("gc-init", vec![]),
            Op::Edit(e) => (e.bin(), e.spelled()),
            Op::Build => ("gc-build", vec![]),
            Op::Clean => ("gc-clean", vec!["-f".into()]),
            Op::Desc => ("gc-desc", vec![]),
        };
        let cmd = if st.inside { cli::cmd(bin, &s.path(dir)).args(args) } else { cli::cmd(bin, &s.root).args(["-p", dir]).args(args) };
        let out = cmd.run()?;
        let at = || format!("step {}, {} in {}", i, cmd.show(), dir);
        // gc-init always works, everything else needs a graph
        let want_ok = matches!(st.op, Op::Init) || model[k].is_some();
        ensure!(out.ok() == want_ok, "{}: {} ({})", at(), if want_ok { "failed" } else { "succeeded without a graph" }, out.brief());
        if want_ok {
            match &st.op {
                Op::Init => {
                    model[k].get_or_insert_with(M::new);
                }
                Op::Edit(e) => {
                    let m = model[k].as_mut().unwrap();
                    let before = (m.v.len(), m.e.len());
                    e.apply(m);
                    shrunk |= m.v.len() < before.0 || m.e.len() < before.1;
                    edits += 1;
                }
                Op::Build => rebuilt += 1,
                Op::Clean => model[k] = None,
                Op::Desc => {
                    desc += 1;
                    let m = model[k].as_ref().unwrap();
                    let end = |x: Option<&u64>| x.map(|v| v.to_string()).unwrap_or("-".into());
                    let want = [
                        ("Vertices:", m.v.len().to_string()),
                        ("Edges:", m.e.len().to_string()),
                        ("Min vertex id:", end(m.v.iter().next())),
                        ("Max vertex id:", end(m.v.iter().next_back())),
                    ];
                    for (name, value) in want {
                        let got: Vec<&str> = out.stdout.lines().filter_map(|l| l.trim().strip_prefix(name)).map(|x| x.trim()).collect();
                        ensure!(got == [value.as_str()], "{}: reports {} {:?}, expected {}", at(), name, got, value);
                    }
                }
            }
        }
        // this directory and all others
        for (j, d) in dirs.iter().enumerate() {
            let got = cli::stored(&s.path(d)).map_err(|e| format!("{}: {}: {}", at(), d, e))?;
            match (&got, &model[j]) {
                (None, None) => {}
                (Some(g), Some(m)) if g == m => {}
                (Some(g), Some(m)) if m.v.len() > 9_999 => {
                    let v: Vec<_> = g.v.symmetric_difference(&m.v).take(9).collect();
                    let e: Vec<_> = g.e.symmetric_difference(&m.e).take(9).collect();
                    return Err(format!("{}: the graph of {} is not as expected at vertices {:?} and edges {:?}", at(), d, v, e));
                }
                (g, m) => return Err(format!("{}: the graph of {} is {:?}, expected {:?}", at(), d, g, m)),
            }
        }
    }
    o.label_if(desc > 0, "described");
    o.label_if(rebuilt > 0, "rebuilt");
    o.label_if(shrunk, "something was deleted");
    o.nontrivial_if(edits >= 3);
    Ok(())
}
fn step(focus: u8) -> BoxedStrategy<Step> {
    let op = prop_oneof![
        2 => Just(Op::Init),
        12 => edit(true).prop_map(Op::Edit),
        3 => Just(Op::Build),
        1 => Just(Op::Clean),
        2 => Just(Op::Desc),
    ];
    (prop_oneof![4 => Just(focus), 1 => 0u8..3], any::<bool>(), op).prop_map(|(dir, inside, op)| Step { dir, inside, op }).boxed()
}
fn strat(t: Tier) -> BoxedStrategy<Case> {
    (0u8..3, 0u8..8)
        .prop_flat_map(move |(f, cold)| (vec(step(f), 1..t.pick(12, 30)), Just(f), Just(cold), any::<u8>()))
        .prop_map(|(mut steps, f, cold, odd)| {
            if cold > 0 {
                steps.insert(0, Step { dir: f, inside: cold % 2 == 0, op: Op::Init });
            }
            steps.push(Step { dir: f, inside: false, op: Op::Desc });
            Case { steps, odd, start: None }
        })
        .boxed()
}

// long histories of one kind of edit with rebuilds in between, described at the end
fn long(t: Tier) -> BoxedStrategy<Case> {
    let op = prop_oneof![8 => edit(false).prop_map(Op::Edit), 1 => Just(Op::Build)];
    vec(op, 10..t.pick(25, 60))
        .prop_map(|ops| {
            let mut steps = vec![Step { dir: 0, inside: false, op: Op::Init }];
            steps.extend(ops.into_iter().map(|op| Step { dir: 0, inside: false, op }));
            steps.push(Step { dir: 0, inside: true, op: Op::Desc });
            Case { steps, odd: 0, start: None }
        })
        .boxed()
}

// few edits of many ids each
fn big_edit(t: Tier, salt: u64) -> BoxedStrategy<Edit> {
    let ids = (proptest::sample::select(vec![0u8, 0, 3, 5, 7]), prop_oneof![8 => sizes(30, t.pick(600, 1_500)), 1 => sizes(1_000, t.pick(4_200, 9_000))], any::<u16>()).prop_map(move |(mode, n, cut)| {
        let l = ids_for(mode, n, salt);
        // one in four leaves a part out
        if cut % 4 == 0 { l[cut as usize % n / 2..].to_vec() } else { l }
    });
    (ids, 0u8..9, proptest::bool::weighted(0.3), any::<bool>())
        .prop_map(move |(mut l, k, reverse, long)| {
            let a = Add { reverse, long, ..Add::default() };
            if l.len() % 2 == 1 && matches!(k, 1 | 7 | 8) {
                l.pop();
            }
            match k {
                0 => Edit::Add(Add { v: l, ..a }),
                1 => Edit::Add(Add { e: l, ..a }),
                2 => Edit::Add(Add { chain: l, ..a }),
                3 => Edit::Add(Add { cycle: l, ..a }),
                4 => Edit::Add(Add { star: l, ..a }),
                5 => Edit::Add(Add { clique: l.into_iter().take(if salt % 8 == 0 { 70 } else { 20 + (salt % 15) as usize }).collect(), ..a }),
                6 => Edit::Del(Del { v: l, e: vec![], long }),
                7 => Edit::Del(Del { v: vec![], e: l, long }),
                // all consecutive pairs, as a chain has
                _ => Edit::Del(Del { v: vec![], e: l.windows(2).flat_map(|w| [w[0], w[1]]).collect(), long }),
            }
        })
        .boxed()
}
fn large(t: Tier) -> BoxedStrategy<Case> {
    any::<u64>()
        .prop_flat_map(move |salt| (vec(big_edit(t, salt), 3..t.pick(6, 10)), vec(any::<bool>(), 10)))
        .prop_map(|(edits, build)| {
            let mut steps = vec![Step { dir: 0, inside: false, op: Op::Init }];
            for (e, b) in edits.into_iter().zip(build) {
                steps.push(Step { dir: 0, inside: false, op: Op::Edit(e) });
                if b {
                    steps.push(Step { dir: 0, inside: false, op: Op::Build });
                }
            }
            steps.push(Step { dir: 0, inside: true, op: Op::Desc });
            Case { steps, odd: 0, start: None }
        })
        .boxed()
}

fn vast(_: Tier) -> BoxedStrategy<Case> {
    let g = (65_000usize..66_500, 0u8..8, any::<u64>(), 0u8..3).prop_map(|(n, mode, salt, few)| {
        // many vertices, or many edges between fewer
        let k = if few == 0 { 300 } else { n };
        let ids = ids_for(mode, k, salt);
        let mut es: Vec<E> = (0..n).map(|i| if few == 0 { (ids[i % k], ids[i / k]) } else { (ids[i / 2], ids[i]) }).collect();
        if few == 2 {
            es.truncate(9);
        }
        G { vs: ids, es }
    });
    (g, vec(prop_oneof![5 => edit(false).prop_map(Op::Edit), 1 => Just(Op::Build), 1 => Just(Op::Desc)], 2..7))
        .prop_map(|(g, ops)| {
            let mut steps = vec![Step { dir: 0, inside: true, op: Op::Desc }];
            steps.extend(ops.into_iter().map(|op| Step { dir: 0, inside: false, op }));
            steps.push(Step { dir: 0, inside: true, op: Op::Desc });
            Case { steps, odd: 0, start: Some(g) }
        })
        .boxed()
}

fn main() {
    let mut s = Suite::new("C05");
    s.assume("the stored graph is read back with the repository's own loader, which C02, C03 and C04 judge");
    s.assume("cliques are given distinct vertices");
    s.test_shrink("histories", (1_200, 20_000), 400, "3 or more edits took effect", strat, check);
    s.test_shrink("long-histories", (150, 3_000), 400, "3 or more edits took effect", long, check);
    s.test_shrink("large-edits", (400, 5_000), 200, "3 or more edits, of 30 to 600 (1500) ids each, some of up to 4200 (9000)", large, check);
    s.test_shrink("65536-elements", (24, 200), 12, "3 or more edits of a graph of 65000 to 66500 vertices or edges", vast, check);
    s.main()
}
