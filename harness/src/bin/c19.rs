//! C19: attribute mappings, against a map driven by the same history.
use gc_core::attribute::attribute_command::AttributeCommand;
use gc_core::attribute::mapping::{no_edge_mapping, no_vertex_mapping, AttributeMapping};
use gc_core::graph::{Edge, VertexId};
use gcv::*;
use proptest::collection::vec;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum C {
    AddV(u8, i32),
    RmV(u8),
    AddE(u8, u8, i32),
    RmE(u8, u8),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    /// one command applied to the vertex mapping / to the edge mapping
    CmdV(C),
    CmdE(C),
    BatchV(Vec<C>),
    BatchE(Vec<C>),
    Add(u8, i32),
    Remove(u8),
    AddEdge(u8, u8, i32),
    RemoveEdge(u8, u8),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    mode: u8,
    salt: u64,
    named: bool,
    ops: Vec<Op>,
}
const N: usize = 5;
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let ids = ids_for(c.mode, N, c.salt);
    let id = |i: u8| ids[i as usize % N];
    let real = |x: &C| -> AttributeCommand<String> {
        let val = |k: &i32| format!("v{}", k);
        match x {
            C::AddV(a, k) => AttributeCommand::AddVertexAttr(vid(id(*a)), val(k)),
            C::RmV(a) => AttributeCommand::RemoveVertexAttr(vid(id(*a))),
            C::AddE(a, b, k) => AttributeCommand::AddEdgeAttr(vid(id(*a)), vid(id(*b)), val(k)),
            C::RmE(a, b) => AttributeCommand::RemoveEdgeAttr(vid(id(*a)), vid(id(*b))),
        }
    };
    let mut vm = if c.named { AttributeMapping::<VertexId, String>::new("colour") } else { no_vertex_mapping::<String>() };
    let mut em = if c.named { AttributeMapping::<Edge, String>::new("length") } else { no_edge_mapping::<String>() };
    let mut vr: BTreeMap<u64, String> = BTreeMap::new();
    let mut er: BTreeMap<E, String> = BTreeMap::new();
    let (mut overwritten, mut removed) = (false, false);
    for (i, op) in c.ops.iter().enumerate() {
        // the model of one command on one mapping; Some(result) for a removal
        let mut on_v = |x: &C, vr: &mut BTreeMap<u64, String>| -> Option<bool> {
            match x {
                C::AddV(a, k) => {
                    overwritten |= vr.insert(id(*a), format!("v{}", k)).is_some();
                    None
                }
                C::RmV(a) => Some(vr.remove(&id(*a)).is_some()),
                // not meant for this mapping
                _ => Some(false),
            }
        };
        let on_e = |x: &C, er: &mut BTreeMap<E, String>| -> Option<bool> {
            match x {
                C::AddE(a, b, k) => {
                    er.insert((id(*a), id(*b)), format!("v{}", k));
                    None
                }
                C::RmE(a, b) => Some(er.remove(&(id(*a), id(*b))).is_some()),
                // not meant for this mapping
                _ => Some(false),
            }
        };
        let mut told = |got: bool, want: Option<bool>| -> CheckResult {
            if let Some(w) = want {
                removed |= w;
                ensure_eq!(got, w, "operation {} ({:?}): removal result", i, op);
            }
            Ok(())
        };
        match op {
            Op::CmdV(x) => told(AttributeCommand::<String>::apply_vertex_command_to(real(x), &mut vm), on_v(x, &mut vr))?,
            Op::CmdE(x) => told(AttributeCommand::<String>::apply_edge_command_to(real(x), &mut em), on_e(x, &mut er))?,
            Op::BatchV(l) => {
                AttributeCommand::<String>::apply_vertex_commands_to(l.iter().map(real).collect(), &mut vm);
                l.iter().for_each(|x| {
                    on_v(x, &mut vr);
                });
            }
            Op::BatchE(l) => {
                AttributeCommand::<String>::apply_edge_commands_to(l.iter().map(real).collect(), &mut em);
                l.iter().for_each(|x| {
                    on_e(x, &mut er);
                });
            }
            Op::Add(a, k) => {
                vm.add(vid(id(*a)), format!("v{}", k));
                on_v(&C::AddV(*a, *k), &mut vr);
            }
            Op::Remove(a) => told(vm.remove(&vid(id(*a))), on_v(&C::RmV(*a), &mut vr))?,
            Op::AddEdge(a, b, k) => {
                em.add(edge((id(*a), id(*b))), format!("v{}", k));
                on_e(&C::AddE(*a, *b, *k), &mut er);
            }
            Op::RemoveEdge(a, b) => told(em.remove(&edge((id(*a), id(*b)))), on_e(&C::RmE(*a, *b), &mut er))?,
        }
        let d = "default".to_string();
        let (f, fd) = (vm.as_closure(), vm.as_closure_with_defaults(&d));
        let (h, hd) = (em.as_closure(), em.as_closure_with_defaults(&d));
        for a in &ids {
            let want = vr.get(a);
            ensure_eq!(f(&vid(*a)), want, "after operation {} ({:?}): value of vertex {}", i, op, a);
            ensure_eq!(fd(&vid(*a)), want.unwrap_or(&d), "after operation {} ({:?}): value or default of vertex {}", i, op, a);
            for b in &ids {
                let want = er.get(&(*a, *b));
                ensure_eq!(h(&edge((*a, *b))), want, "after operation {} ({:?}): value of edge {:?}", i, op, (a, b));
                ensure_eq!(hd(&edge((*a, *b))), want.unwrap_or(&d), "after operation {} ({:?}): value or default of edge {:?}", i, op, (a, b));
            }
        }
    }
    if c.named {
        ensure_eq!((vm.name(), em.name()), ("colour", "length"), "names of the mappings");
    }
    o.label_if(overwritten, "value replaced");
    o.label_if(removed, "value removed");
    o.label_if(er.keys().any(|e| e.0 != e.1 && er.contains_key(&(e.1, e.0))), "edge and its reverse");
    o.nontrivial_if(overwritten && removed);
    Ok(())
}
fn cmd() -> BoxedStrategy<C> {
    let v = || 0u8..N as u8;
    prop_oneof![
        3 => (v(), 0i32..50).prop_map(|(a, k)| C::AddV(a, k)),
        2 => v().prop_map(C::RmV),
        3 => (v(), v(), 0i32..50).prop_map(|(a, b, k)| C::AddE(a, b, k)),
        2 => (v(), v()).prop_map(|(a, b)| C::RmE(a, b)),
    ]
    .boxed()
}
fn strat(t: Tier) -> BoxedStrategy<Case> {
    let v = || 0u8..N as u8;
    let op = prop_oneof![
        3 => cmd().prop_map(Op::CmdV),
        3 => cmd().prop_map(Op::CmdE),
        1 => vec(cmd(), 0..6).prop_map(Op::BatchV),
        1 => vec(cmd(), 0..6).prop_map(Op::BatchE),
        2 => (v(), 0i32..50).prop_map(|(a, k)| Op::Add(a, k)),
        1 => v().prop_map(Op::Remove),
        2 => (v(), v(), 0i32..50).prop_map(|(a, b, k)| Op::AddEdge(a, b, k)),
        1 => (v(), v()).prop_map(|(a, b)| Op::RemoveEdge(a, b)),
    ];
    (0u8..8, any::<u64>(), any::<bool>(), vec(op, 0..t.pick(40, 120))).prop_map(|(mode, salt, named, ops)| Case { mode, salt, named, ops }).boxed()
}
/// many keys, long histories
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Large {
    mode: u8,
    salt: u64,
    n: usize,
    /// kind, first, second, value
    ops: Vec<(u8, u16, u16, i32)>,
    /// how often the first keys are set before
    fill: usize,
}
fn check_large(c: &Large, o: &mut Obs) -> CheckResult {
    let ids = ids_for(c.mode, c.n, c.salt);
    let mut vm = AttributeMapping::<VertexId, i32>::new("colour");
    let mut em = AttributeMapping::<Edge, i32>::new("length");
    let mut vr: BTreeMap<u64, i32> = BTreeMap::new();
    let mut er: BTreeMap<E, i32> = BTreeMap::new();
    for i in 0..c.fill {
        let (a, b) = (ids[i % c.n], ids[(i * 7 + i / c.n) % c.n]);
        vm.add(vid(a), i as i32);
        vr.insert(a, i as i32);
        em.add(edge((a, b)), -(i as i32));
        er.insert((a, b), -(i as i32));
    }
    let (mut removed, most) = (0, er.len());
    for (i, (k, a, b, x)) in c.ops.iter().enumerate() {
        let (a, b) = (pick(&ids, *a), pick(&ids, *b));
        // half of the edge operations meet an edge that has a value
        let e = if k & 8 == 0 || er.is_empty() { (a, b) } else { *er.keys().nth(b as usize % er.len()).unwrap() };
        let gone = match k % 8 {
            0 => { vm.add(vid(a), *x); vr.insert(a, *x); None }
            1 => { AttributeCommand::<i32>::apply_vertex_command_to(AttributeCommand::AddVertexAttr(vid(a), *x), &mut vm); vr.insert(a, *x); None }
            2 => Some((vm.remove(&vid(a)), vr.remove(&a).is_some())),
            3 => Some((AttributeCommand::<i32>::apply_vertex_command_to(AttributeCommand::RemoveVertexAttr(vid(a)), &mut vm), vr.remove(&a).is_some())),
            4 => { em.add(edge(e), *x); er.insert(e, *x); None }
            5 => { AttributeCommand::<i32>::apply_edge_command_to(AttributeCommand::AddEdgeAttr(vid(e.0), vid(e.1), *x), &mut em); er.insert(e, *x); None }
            6 => Some((em.remove(&edge(e)), er.remove(&e).is_some())),
            _ => Some((AttributeCommand::<i32>::apply_edge_command_to(AttributeCommand::RemoveEdgeAttr(vid(e.0), vid(e.1)), &mut em), er.remove(&e).is_some())),
        };
        if let Some((got, want)) = gone {
            removed += want as usize;
            ensure_eq!(got, want, "operation {} ({:?}): removal result", i, (k, a, e));
        }
    }
    let (f, h) = (vm.as_closure(), em.as_closure());
    let d = i32::MIN;
    let (fd, hd) = (vm.as_closure_with_defaults(&d), em.as_closure_with_defaults(&d));
    for a in &ids {
        ensure_eq!(f(&vid(*a)), vr.get(a), "value of vertex {}", a);
        ensure_eq!(fd(&vid(*a)), vr.get(a).unwrap_or(&d), "value or default of vertex {}", a);
    }
    for e in er.keys().copied().chain(er.keys().map(|e| (e.1, e.0))).chain(ids.iter().map(|a| (*a, ids[0]))).chain((0..c.fill).map(|i| (ids[i % c.n], ids[(i * 7 + i / c.n) % c.n]))) {
        ensure_eq!(h(&edge(e)), er.get(&e), "value of edge {:?}", e);
        ensure_eq!(hd(&edge(e)), er.get(&e).unwrap_or(&d), "value or default of edge {:?}", e);
    }
    o.label_if(most >= 256, "256 or more edges have values");
    o.nontrivial_if(removed > 0);
    Ok(())
}
fn large(t: Tier) -> BoxedStrategy<Large> {
    large_of(10, t.pick(600, 1_100), t.pick(1_100, 4_000))
}
fn huge(t: Tier) -> BoxedStrategy<Large> {
    large_of(1_000, t.pick(4_200, 9_000), t.pick(70_000, 140_000))
}
fn large_of(lo: usize, hi: usize, fill: usize) -> BoxedStrategy<Large> {
    (0u8..8, any::<u64>(), sizes(lo, hi), vec((any::<u8>(), any::<u16>(), any::<u16>(), any::<i32>()), 0..100), sizes(lo, fill))
        .prop_map(|(mode, salt, n, ops, fill)| Large { mode, salt, n, ops, fill })
        .boxed()
}

fn main() {
    let mut s = Suite::new("C19");
    s.assume("the result of adding a value is not judged, only that of removing one");
    s.test("histories", (60_000, 200_000), "a value was replaced and a value was removed", strat, check);
    s.test("many-keys", (4_000, 40_000), "a value was removed", large, check_large);
    s.test_shrink("tens-of-thousands", (80, 800), 60, "1000 to 4200 (9000) vertices, values for up to 70000 (140000) edges", huge, check_large);
    s.main()
}
