//! Constraints: generator, meaning, and reference search for constrained walks.
use crate::model::*;
use gc_core::constraint::constraint::Constraint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeSet, BinaryHeap, HashMap};

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ct {
    V(u64),
    E(u64, u64),
    Ord(Vec<u64>),
    Cyc,
    MinL(usize),
    MaxL(usize),
    MinS(i64),
    MaxS(i64),
    Or(Box<Ct>, Box<Ct>),
    Xor(Box<Ct>, Box<Ct>),
    And(Box<Ct>, Box<Ct>),
    Not(Box<Ct>),
}
impl Ct {
    pub fn real(&self) -> Constraint {
        match self {
            Ct::V(v) => Constraint::ContainsVertex(vid(*v)),
            Ct::E(a, b) => Constraint::ContainsEdge(edge((*a, *b))),
            Ct::Ord(l) => Constraint::OrderedVertices(l.iter().map(|v| vid(*v)).collect()),
            Ct::Cyc => Constraint::ContainsCycle,
            Ct::MinL(n) => Constraint::MinLength(*n),
            Ct::MaxL(n) => Constraint::MaxLength(*n),
            Ct::MinS(n) => Constraint::MinScore(*n),
            Ct::MaxS(n) => Constraint::MaxScore(*n),
            Ct::Or(a, b) => Constraint::Or(Box::new(a.real()), Box::new(b.real())),
            Ct::Xor(a, b) => Constraint::Xor(Box::new(a.real()), Box::new(b.real())),
            Ct::And(a, b) => Constraint::And(Box::new(a.real()), Box::new(b.real())),
            Ct::Not(a) => Constraint::Not(Box::new(a.real())),
        }
    }
    /// Does the complete path p of this score satisfy the constraint?
    pub fn holds(&self, p: &[u64], score: i64) -> bool {
        match self {
            Ct::V(v) => p.iter().any(|x| x == v),
            Ct::E(a, b) => (1..p.len()).any(|i| p[i - 1] == *a && p[i] == *b),
            // no listed vertex comes after one listed later
            Ct::Ord(l) => {
                let pos: HashMap<u64, usize> = l.iter().enumerate().map(|(i, v)| (*v, i)).collect();
                let at: Vec<usize> = p.iter().filter_map(|v| pos.get(v).copied()).collect();
                at.windows(2).all(|w| w[0] <= w[1])
            }
            Ct::Cyc => p.iter().collect::<BTreeSet<_>>().len() < p.len(),
            Ct::MinL(n) => p.len() >= *n,
            Ct::MaxL(n) => p.len() <= *n,
            Ct::MinS(n) => score >= *n,
            Ct::MaxS(n) => score <= *n,
            Ct::Or(a, b) => a.holds(p, score) | b.holds(p, score),
            Ct::Xor(a, b) => a.holds(p, score) != b.holds(p, score),
            Ct::And(a, b) => a.holds(p, score) & b.holds(p, score),
            Ct::Not(a) => !a.holds(p, score),
        }
    }
    /// once violated by a partial walk, violated by all its extensions (scores grow)
    fn monotone(&self) -> bool {
        match self {
            Ct::MaxL(_) | Ct::MaxS(_) | Ct::Ord(_) => true,
            Ct::Not(x) => matches!(**x, Ct::V(_) | Ct::E(..) | Ct::Cyc),
            _ => false,
        }
    }
}

/// a vertex list without repetition
pub fn distinct(mut l: Vec<u64>) -> Vec<u64> {
    let mut seen = BTreeSet::new();
    l.retain(|x| seen.insert(*x));
    l
}

pub fn atom(ids: u64, max_len: usize, max_score: i64) -> BoxedStrategy<Ct> {
    prop_oneof![
        4 => (0..ids).prop_map(Ct::V),
        3 => (0..ids, 0..ids).prop_map(|(a, b)| Ct::E(a, b)),
        2 => proptest::collection::vec(0..ids, 0..5).prop_map(|l| Ct::Ord(distinct(l))),
        2 => Just(Ct::Cyc),
        2 => (0..=max_len).prop_map(Ct::MinL),
        2 => (0..=max_len).prop_map(Ct::MaxL),
        2 => (-1..=max_score).prop_map(Ct::MinS),
        2 => (-1..=max_score).prop_map(Ct::MaxS),
    ]
    .boxed()
}
pub fn tree(ids: u64, max_len: usize, max_score: i64, depth: u32) -> BoxedStrategy<Ct> {
    atom(ids, max_len, max_score)
        .prop_recursive(depth, 12, 2, |inner| {
            prop_oneof![
                3 => inner.clone().prop_map(|a| Ct::Not(Box::new(a))),
                2 => (inner.clone(), inner.clone()).prop_map(|(a, b)| Ct::Or(Box::new(a), Box::new(b))),
                2 => (inner.clone(), inner.clone()).prop_map(|(a, b)| Ct::Xor(Box::new(a), Box::new(b))),
                2 => (inner.clone(), inner).prop_map(|(a, b)| Ct::And(Box::new(a), Box::new(b))),
            ]
        })
        .boxed()
}

/// Renames the vertex indices used by a constraint to the vertices of a graph.
pub fn rename(c: &Ct, f: &dyn Fn(u64) -> u64) -> Ct {
    let b = |x: &Ct| Box::new(rename(x, f));
    match c {
        Ct::V(v) => Ct::V(f(*v)),
        Ct::E(x, y) => Ct::E(f(*x), f(*y)),
        Ct::Ord(l) => Ct::Ord(distinct(l.iter().map(|v| f(*v)).collect())),
        Ct::Or(x, y) => Ct::Or(b(x), b(y)),
        Ct::Xor(x, y) => Ct::Xor(b(x), b(y)),
        Ct::And(x, y) => Ct::And(b(x), b(y)),
        Ct::Not(x) => Ct::Not(b(x)),
        o => o.clone(),
    }
}

pub enum Ref {
    /// minimum cost and number of partial walks cheaper than it (or as cheap)
    Found(i64, u64),
    /// no walk satisfies them; all candidates enumerated
    None(u64),
    /// too many candidates
    Unknown,
}
/// how many walks are looked at, and how long they may be
#[derive(Clone, Copy)]
pub struct Budget {
    pub walks: u64,
    pub len: usize,
}
/// Enumerates walks from s by increasing cost (costs positive), dropping those that a
/// monotone top-level constraint already rules out.
pub fn reference(m: &M, w: &HashMap<E, i64>, s: u64, t: u64, cs: &[Ct], budget: Budget) -> Ref {
    let adj = m.adj();
    let mut q = BinaryHeap::new();
    q.push(Reverse((0i64, vec![s])));
    let mut pops = 0u64;
    let mono: Vec<&Ct> = cs.iter().filter(|c| c.monotone()).collect();
    while let Some(Reverse((cost, p))) = q.pop() {
        pops += 1;
        if pops > budget.walks || p.len() > budget.len {
            return Ref::Unknown;
        }
        if !mono.iter().all(|c| c.holds(&p, cost)) {
            continue;
        }
        let last = *p.last().unwrap();
        if last == t && cs.iter().all(|c| c.holds(&p, cost)) {
            return Ref::Found(cost, pops);
        }
        for y in &adj[&last] {
            let mut n = p.clone();
            n.push(*y);
            let c = cost + w[&(last, *y)];
            q.push(Reverse((c, n)));
        }
    }
    Ref::None(pops)
}
/// The walks from s that satisfy the constraints, all of them or (Some(k)) those that cost at
/// most k, and how many walks were looked at.
pub fn satisfying(m: &M, w: &HashMap<E, i64>, s: u64, cs: &[Ct], budget: Budget) -> (Vec<Vec<u64>>, Option<i64>, u64) {
    let adj = m.adj();
    let mut q = BinaryHeap::new();
    q.push(Reverse((0i64, vec![s])));
    let mut looked = 0u64;
    let mono: Vec<&Ct> = cs.iter().filter(|c| c.monotone()).collect();
    let mut out: Vec<(i64, Vec<u64>)> = vec![];
    let mut upto = None;
    while let Some(Reverse((cost, p))) = q.pop() {
        looked += 1;
        if looked > budget.walks || p.len() > budget.len {
            // those as dear as this one may not all have been seen
            upto = Some(cost - 1);
            break;
        }
        if !mono.iter().all(|c| c.holds(&p, cost)) {
            continue;
        }
        let last = *p.last().unwrap();
        for y in &adj[&last] {
            let mut n = p.clone();
            n.push(*y);
            q.push(Reverse((cost + w[&(last, *y)], n)));
        }
        if cs.iter().all(|c| c.holds(&p, cost)) {
            out.push((cost, p));
        }
    }
    if let Some(k) = upto {
        out.retain(|x| x.0 <= k);
    }
    (out.into_iter().map(|x| x.1).collect(), upto, looked)
}
/// index -> vertex of the graph
pub fn vertex_of(vs: &[u64], i: u64) -> u64 {
    if vs.is_empty() {
        i
    } else {
        vs[(i as usize) % vs.len()]
    }
}
