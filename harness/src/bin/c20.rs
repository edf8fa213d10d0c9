//! C20: search queues, against a plain list searched for the element due.
use gc_core::graph::VertexId;
use gc_core::iter::iter_datastructure::*;
use gc_core::path::{Path, ScoredPath};
use gcv::*;
use proptest::collection::vec;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    /// Some(x): push, None: pop
    ops: Vec<Option<u64>>,
    kind: u8,
}
fn drive<T: Clone + PartialEq + std::fmt::Debug>(name: &str, ops: &[Option<u64>], q: &mut dyn SearchQueue<T>, make: &dyn Fn(u64, usize) -> T, due: &dyn Fn(&[T], &T) -> bool, o: &mut Obs) -> CheckResult {
    let mut held: Vec<T> = vec![];
    let mut pop = |q: &mut dyn SearchQueue<T>, held: &mut Vec<T>, i: usize| -> CheckResult {
        let got = q.pop();
        match got {
            None => ensure!(held.is_empty(), "{}: operation {}: pop returns nothing, but {} elements are held", name, i, held.len()),
            Some(x) => {
                ensure!(held.contains(&x), "{}: operation {}: {:?} popped, but it is not held ({:?})", name, i, x, held);
                ensure!(due(held, &x), "{}: operation {}: {:?} popped out of order, held are {:?}", name, i, x, held);
                // equal elements cannot be told apart: take out the one due
                let at = if name == "queue" { held.iter().position(|y| *y == x) } else { held.iter().rposition(|y| *y == x) };
                held.remove(at.unwrap());
            }
        }
        Ok(())
    };
    let (mut pops, mut most) = (0, 0);
    for (i, op) in ops.iter().enumerate() {
        match op {
            Some(x) => {
                let e = make(*x, i);
                q.push(e.clone());
                held.push(e);
                most = most.max(held.len());
            }
            None => {
                pops += 1;
                pop(q, &mut held, i)?
            }
        }
    }
    let left = held.len();
    for k in 0..left + 2 {
        pop(q, &mut held, ops.len() + k)?;
    }
    o.nontrivial_if(pops >= 2 && most >= 4);
    o.label_if(left == 0, "emptied in between");
    Ok(())
}
fn check(c: &Case, o: &mut Obs) -> CheckResult {
    let n = |x: u64, _: usize| x;
    let p = |x: u64, i: usize| (x % 5, i as u64, x);
    let sp = |x: u64, i: usize| ScoredPath { path: Path { vertices: vec![VertexId(x), VertexId(i as u64)] }, score: if x < 1_000 { (x % 7) as i64 - 3 } else { x as i64 } };
    match c.kind {
        0 => {
            let mut q: Stack<u64> = Stack::<u64>::new();
            drive("stack", &c.ops, &mut q, &n, &|h, x| h.last() == Some(x), o)
        }
        1 => {
            let mut q: Queue<u64> = Queue::<u64>::new();
            drive("queue", &c.ops, &mut q, &n, &|h, x| h.first() == Some(x), o)
        }
        2 => {
            let mut q: MaxPriorityQueue<u64> = MaxPriorityQueue::<u64>::new();
            drive("max priority queue", &c.ops, &mut q, &n, &|h, x| h.iter().all(|y| y <= x), o)
        }
        3 => {
            let mut q: MinPriorityQueue<u64> = MinPriorityQueue::<u64>::new();
            drive("min priority queue", &c.ops, &mut q, &n, &|h, x| h.iter().all(|y| y >= x), o)
        }
        4 => {
            let mut q: MaxPriorityQueue<(u64, u64, u64)> = MaxPriorityQueue::<(u64, u64, u64)>::new();
            drive("max priority queue", &c.ops, &mut q, &p, &|h, x| h.iter().all(|y| y <= x), o)
        }
        5 => {
            let mut q: MinPriorityQueue<(u64, u64, u64)> = MinPriorityQueue::<(u64, u64, u64)>::new();
            drive("min priority queue", &c.ops, &mut q, &p, &|h, x| h.iter().all(|y| y >= x), o)
        }
        // scored paths, as the searches queue them: by score
        6 => {
            let mut q: MinPriorityQueue<ScoredPath> = MinPriorityQueue::<ScoredPath>::new();
            drive("min priority queue of scored paths", &c.ops, &mut q, &sp, &|h, x| h.iter().all(|y| y.score >= x.score), o)
        }
        _ => {
            let mut q: MaxPriorityQueue<ScoredPath> = MaxPriorityQueue::<ScoredPath>::new();
            drive("max priority queue of scored paths", &c.ops, &mut q, &sp, &|h, x| h.iter().all(|y| y.score <= x.score), o)
        }
    }
}
fn strat(t: Tier) -> BoxedStrategy<Case> {
    let x = prop_oneof![4 => 0u64..6, 2 => 0u64..1000, 1 => any::<u64>(), 1 => Just(u64::MAX), 1 => Just(0u64)];
    let op = |push: u32| prop_oneof![push => x.clone().prop_map(Some), 2 => Just(None)];
    (prop_oneof![vec(op(3), 0..t.pick(60, 300)), vec(op(2), 0..40), vec(op(6), 0..80)], 0u8..8).prop_map(|(ops, kind)| Case { ops, kind }).boxed()
}
/// hundreds to thousands of elements held at once
fn large(t: Tier) -> BoxedStrategy<Case> {
    (sizes(60, t.pick(1_500, 4_000)), any::<u64>(), 0u8..4, 0u8..8).prop_map(|(n, salt, profile, kind)| Case { ops: ops(n, salt, profile), kind }).boxed()
}
fn ops(n: usize, salt: u64, profile: u8) -> Vec<Option<u64>> {
    let x = |i: usize| {
        let r = mix(salt ^ i as u64);
        match salt % 4 {
            0 => i as u64,
            1 => u64::MAX - i as u64,
            2 => r % 50,
            _ => r,
        }
    };
    // fill, then: nothing; drain and fill again; waves; push and pop in turn
    let mut ops: Vec<Option<u64>> = (0..n).map(|i| Some(x(i))).collect();
    match profile {
        0 => {}
        1 => {
            ops.extend((0..n / 2 + 1).map(|_| None));
            ops.extend((0..n / 2).map(|i| Some(x(i + n))));
        }
        2 => {
            for w in 0..8 {
                ops.extend((0..n / 8).map(|i| if (i + w) % 3 == 0 { Some(x(i * 5 + w)) } else { None }));
            }
        }
        _ => ops.extend((0..n / 2).flat_map(|i| [None, Some(x(i ^ 0x55))])),
    }
    ops
}

/// tens of thousands of elements: the operations are a function of these four
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Huge {
    n: usize,
    salt: u64,
    profile: u8,
    kind: u8,
}
fn huge(t: Tier) -> BoxedStrategy<Huge> {
    let n = prop_oneof![3 => sizes(2_000, 9_000), 1 => sizes(9_000, t.pick(20_000, 140_000)), 1 => 65_500usize..66_500];
    (n, any::<u64>(), 0u8..4, 0u8..6).prop_map(|(n, salt, profile, kind)| Huge { n, salt, profile, kind }).boxed()
}
fn check_huge(c: &Huge, o: &mut Obs) -> CheckResult {
    use std::collections::{BTreeMap, VecDeque};
    let scored = |x: u64| ScoredPath { path: Path { vertices: vec![VertexId(x)] }, score: x as i64 };
    let (mut s, mut q, mut mx, mut mn): (Stack<u64>, Queue<u64>, MaxPriorityQueue<u64>, MinPriorityQueue<u64>) =
        (Stack::<u64>::new(), Queue::<u64>::new(), MaxPriorityQueue::<u64>::new(), MinPriorityQueue::<u64>::new());
    let (mut smx, mut smn): (MaxPriorityQueue<ScoredPath>, MinPriorityQueue<ScoredPath>) = (MaxPriorityQueue::<ScoredPath>::new(), MinPriorityQueue::<ScoredPath>::new());
    let mut list: VecDeque<u64> = VecDeque::new();
    let mut bag: BTreeMap<i128, usize> = BTreeMap::new();
    let key = |x: u64| if c.kind >= 4 { x as i64 as i128 } else { x as i128 };
    let sequential = c.kind < 2;
    let mut ops = ops(c.n, c.salt, c.profile);
    let held = ops.iter().filter(|x| x.is_some()).count();
    ops.extend((0..held + 1).map(|_| None));
    for (i, op) in ops.iter().enumerate() {
        if let Some(x) = op {
            match c.kind {
                0 => s.push(*x),
                1 => q.push(*x),
                2 => mx.push(*x),
                3 => mn.push(*x),
                4 => smx.push(scored(*x)),
                _ => smn.push(scored(*x)),
            }
            if sequential {
                list.push_back(*x)
            } else {
                *bag.entry(key(*x)).or_default() += 1
            }
            continue;
        }
        let got = match c.kind {
            0 => s.pop(),
            1 => q.pop(),
            2 => mx.pop(),
            3 => mn.pop(),
            4 => smx.pop().map(|p| p.path.vertices[0].0),
            _ => smn.pop().map(|p| p.path.vertices[0].0),
        }
        .map(key);
        let expected = match c.kind {
            0 => list.pop_back().map(key),
            1 => list.pop_front().map(key),
            2 | 4 => bag.keys().next_back().copied(),
            _ => bag.keys().next().copied(),
        };
        ensure!(got == expected, "{}: operation {} of n {} salt {} profile {}: popped {:?}, expected {:?}", ["stack", "queue", "max priority queue", "min priority queue", "max priority queue of scored paths", "min priority queue of scored paths"][c.kind as usize], i, c.n, c.salt, c.profile, got, expected);
        if let (false, Some(k)) = (sequential, expected) {
            let left = bag.get_mut(&k).unwrap();
            *left -= 1;
            if *left == 0 {
                bag.remove(&k);
            }
        }
    }
    o.nontrivial_if(held >= 2_000);
    o.label_if(c.n >= 65_536, "over 65536 elements");
    Ok(())
}

fn main() {
    let mut s = Suite::new("C20");
    s.test("histories", (150_000, 400_000), "2 or more pops within the history, 4 or more elements held at once", strat, check);
    s.test("large", (4_000, 40_000), "2 or more pops within the history, 4 or more elements held at once", large, check);
    s.test("tens-of-thousands", (300, 3_000), "2000 or more elements pushed", huge, check_huge);
    s.main()
}
