//! Reference model: a directed graph is a set of vertices and a set of ordered pairs.
//! Everything here is written naively and independently of the code under test.
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::{Edge, VertexId};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub type V = u64;
pub type E = (u64, u64);

pub fn vid(x: u64) -> VertexId {
    VertexId(x)
}
pub fn edge(e: E) -> Edge {
    Edge(VertexId(e.0), VertexId(e.1))
}
pub fn un_edge(e: &Edge) -> E {
    ((e.0).0, (e.1).0)
}
pub fn un(v: &VertexId) -> u64 {
    v.0
}

/// A concrete graph as generated: insertion order of vertices and edges matters only
/// to the code under test. Edges are distinct; endpoints are listed in `vs`.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct G {
    pub vs: Vec<u64>,
    pub es: Vec<(u64, u64)>,
}

impl G {
    pub fn build(&self) -> DirectedGraph {
        // Mix both ways of creating vertices: implicitly by edges and explicitly.
        let mut g = DirectedGraph::new();
        for e in &self.es {
            g.add_edge(edge(*e));
        }
        for v in &self.vs {
            g.add_vertex(vid(*v));
        }
        g
    }
    pub fn model(&self) -> M {
        M {
            v: self
                .vs
                .iter()
                .copied()
                .chain(self.es.iter().flat_map(|e| [e.0, e.1]))
                .collect(),
            e: self.es.iter().copied().collect(),
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct M {
    pub v: BTreeSet<u64>,
    pub e: BTreeSet<(u64, u64)>,
}

impl M {
    pub fn new() -> M {
        M::default()
    }
    pub fn add_v(&mut self, v: u64) -> bool {
        self.v.insert(v)
    }
    pub fn add_e(&mut self, a: u64, b: u64) -> bool {
        self.v.insert(a);
        self.v.insert(b);
        self.e.insert((a, b))
    }
    pub fn rm_v(&mut self, v: u64) -> bool {
        self.e.retain(|e| e.0 != v && e.1 != v);
        self.v.remove(&v)
    }
    pub fn rm_e(&mut self, a: u64, b: u64) -> bool {
        self.e.remove(&(a, b))
    }
    pub fn succ(&self, v: u64) -> impl Iterator<Item = u64> + '_ {
        self.e.range((v, 0)..=(v, u64::MAX)).map(|e| e.1)
    }
    pub fn adj(&self) -> BTreeMap<u64, Vec<u64>> {
        let mut m: BTreeMap<u64, Vec<u64>> = self.v.iter().map(|v| (*v, vec![])).collect();
        for (a, b) in &self.e {
            m.get_mut(a).unwrap().push(*b);
        }
        m
    }
    pub fn of(g: &DirectedGraph) -> M {
        M {
            v: g.vertices().map(un).collect(),
            e: g.edges().map(un_edge).collect(),
        }
    }
    /// distance in edges from s, for all vertices reachable from s
    pub fn dist(&self, s: u64) -> BTreeMap<u64, usize> {
        let adj = self.adj();
        let mut d = BTreeMap::new();
        d.insert(s, 0);
        let mut q = VecDeque::from([s]);
        while let Some(x) = q.pop_front() {
            let dx = d[&x];
            for y in adj.get(&x).into_iter().flatten() {
                if !d.contains_key(y) {
                    d.insert(*y, dx + 1);
                    q.push_back(*y);
                }
            }
        }
        d
    }
    pub fn has_cycle(&self) -> bool {
        // repeatedly strip vertices without outgoing edges (worklist on reverse edges)
        let mut out: BTreeMap<u64, usize> = self.v.iter().map(|v| (*v, 0)).collect();
        let mut pred: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
        for (a, b) in &self.e {
            *out.get_mut(a).unwrap() += 1;
            pred.entry(*b).or_default().push(*a);
        }
        let mut work: Vec<u64> = out.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
        let mut gone = 0;
        while let Some(v) = work.pop() {
            gone += 1;
            for p in pred.get(&v).into_iter().flatten() {
                let o = out.get_mut(p).unwrap();
                *o -= 1;
                if *o == 0 {
                    work.push(*p);
                }
            }
        }
        gone < self.v.len()
    }
    pub fn weak_components(&self) -> Vec<BTreeSet<u64>> {
        let mut nb: BTreeMap<u64, Vec<u64>> = self.v.iter().map(|v| (*v, vec![])).collect();
        for (a, b) in &self.e {
            nb.get_mut(a).unwrap().push(*b);
            nb.get_mut(b).unwrap().push(*a);
        }
        let mut seen = BTreeSet::new();
        let mut out = vec![];
        for v in &self.v {
            if seen.contains(v) {
                continue;
            }
            let mut comp = BTreeSet::from([*v]);
            let mut st = vec![*v];
            while let Some(x) = st.pop() {
                for y in &nb[&x] {
                    if comp.insert(*y) {
                        st.push(*y);
                    }
                }
            }
            seen.extend(comp.iter().copied());
            out.push(comp);
        }
        out
    }
    pub fn restrict(&self, keep: &BTreeSet<u64>) -> M {
        M {
            v: self.v.intersection(keep).copied().collect(),
            e: self
                .e
                .iter()
                .copied()
                .filter(|e| keep.contains(&e.0) && keep.contains(&e.1))
                .collect(),
        }
    }
    /// All simple directed cycles, each as its vertices from the smallest one.
    /// None when there are more than `cap`, or the search needs more than `steps` steps.
    pub fn simple_cycles(&self, cap: usize, steps: usize) -> Option<BTreeSet<Vec<u64>>> {
        let adj = self.adj();
        let mut pred: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
        for (a, b) in &self.e {
            pred.entry(*b).or_default().push(*a);
        }
        let mut out = BTreeSet::new();
        let mut budget = steps;
        for s in &self.v {
            // only vertices > s besides s: every cycle is found from its smallest vertex
            let mut path = vec![*s];
            // only those that lead back to s
            let mut back = BTreeSet::from([*s]);
            let mut work = vec![*s];
            while let Some(x) = work.pop() {
                for p in pred.get(&x).into_iter().flatten() {
                    if p > s && back.insert(*p) {
                        work.push(*p);
                    }
                }
            }
            if !cyc_dfs(&adj, &back, *s, &mut path, &mut out, cap, &mut budget) {
                return None;
            }
        }
        Some(out)
    }
    /// All simple paths through all vertices, and the number of simple paths there are;
    /// None when that is above `cap`.
    pub fn hamiltonian_paths(&self, cap: usize) -> Option<(BTreeSet<Vec<u64>>, usize)> {
        let adj = self.adj();
        let mut out = BTreeSet::new();
        let mut total = 0;
        for s in &self.v {
            // path so far, and for each of its vertices how many successors were tried
            let mut path = vec![*s];
            let mut on = BTreeSet::from([*s]);
            let mut tried = vec![0usize];
            total += 1;
            if self.v.len() == 1 {
                out.insert(path.clone());
            }
            while let Some(k) = tried.last_mut() {
                let x = *path.last().unwrap();
                if let Some(y) = adj[&x].get(*k) {
                    *k += 1;
                    if on.insert(*y) {
                        path.push(*y);
                        tried.push(0);
                        total += 1;
                        if total > cap {
                            return None;
                        }
                        if path.len() == self.v.len() {
                            out.insert(path.clone());
                        }
                    }
                } else {
                    tried.pop();
                    on.remove(&path.pop().unwrap());
                }
            }
        }
        Some((out, total))
    }
    /// All simple paths (as vertex lists) starting at s, s alone included.
    pub fn simple_paths(&self, s: u64, cap: usize) -> Option<BTreeSet<Vec<u64>>> {
        let adj = self.adj();
        let mut out = BTreeSet::new();
        let mut work = vec![vec![s]];
        while let Some(p) = work.pop() {
            for y in adj.get(p.last().unwrap()).into_iter().flatten() {
                if !p.contains(y) {
                    let mut q = p.clone();
                    q.push(*y);
                    work.push(q);
                }
            }
            out.insert(p);
            if out.len() > cap {
                return None;
            }
        }
        Some(out)
    }
    pub fn is_walk(&self, p: &[u64]) -> bool {
        !p.is_empty()
            && p.iter().all(|v| self.v.contains(v))
            && p.windows(2).all(|w| self.e.contains(&(w[0], w[1])))
    }
}

fn cyc_dfs(
    adj: &BTreeMap<u64, Vec<u64>>,
    back: &BTreeSet<u64>,
    s: u64,
    path: &mut Vec<u64>,
    out: &mut BTreeSet<Vec<u64>>,
    cap: usize,
    budget: &mut usize,
) -> bool {
    if *budget == 0 {
        return false;
    }
    *budget -= 1;
    let last = *path.last().unwrap();
    for y in &adj[&last] {
        if *y == s {
            out.insert(path.clone());
            if out.len() > cap {
                return false;
            }
        } else if back.contains(y) && !path.contains(y) {
            path.push(*y);
            let ok = cyc_dfs(adj, back, s, path, out, cap, budget);
            path.pop();
            if !ok {
                return false;
            }
        }
    }
    true
}

/// Same vertex set and same edge set.
pub fn same_sets(g: &DirectedGraph, m: &M) -> Result<(), String> {
    use crate::ensure;
    let mut vs: Vec<u64> = g.vertices().map(un).collect();
    vs.sort();
    ensure!(vs.iter().eq(m.v.iter()), "vertices {:?}, expected {:?}", vs, m.v);
    let mut es: Vec<E> = g.edges().map(un_edge).collect();
    es.sort();
    ensure!(es.iter().eq(m.e.iter()), "edges {:?}, expected {:?}", es, m.e);
    Ok(())
}

/// Every query of the graph API agrees with the model.
pub fn same_graph(g: &DirectedGraph, m: &M, extra: &[u64]) -> Result<(), String> {
    use crate::{ensure, ensure_eq};
    ensure_eq!(g.is_empty(), m.v.is_empty(), "is_empty");
    ensure_eq!(g.vertex_count(), m.v.len(), "vertex_count");
    ensure_eq!(g.edge_count(), m.e.len(), "edge_count");
    let mut vs: Vec<u64> = g.vertices().map(un).collect();
    vs.sort();
    ensure!(
        vs.iter().eq(m.v.iter()),
        "vertices(): got {:?}, expected {:?}",
        vs,
        m.v
    );
    let mut es: Vec<E> = g.edges().map(un_edge).collect();
    es.sort();
    ensure!(
        es.iter().eq(m.e.iter()),
        "edges(): got {:?}, expected {:?}",
        es,
        m.e
    );
    match g.head_option() {
        None => ensure!(m.v.is_empty(), "head_option is None on a non-empty graph"),
        Some(h) => ensure!(m.v.contains(&h.0), "head_option {:?} is not a vertex", h),
    }
    let mut pred: BTreeMap<u64, Vec<E>> = BTreeMap::new();
    let mut succ: BTreeMap<u64, Vec<E>> = BTreeMap::new();
    for e in &m.e {
        succ.entry(e.0).or_default().push(*e);
        pred.entry(e.1).or_default().push(*e);
    }
    let none = vec![];
    for v in m.v.iter().chain(extra.iter()) {
        ensure_eq!(
            g.contains_vertex(vid(*v)),
            m.v.contains(v),
            "contains_vertex({})",
            v
        );
        let mut o: Vec<E> = g.outbound_edges(vid(*v)).map(un_edge).collect();
        o.sort();
        ensure_eq!(&o, succ.get(v).unwrap_or(&none), "outbound_edges({})", v);
        let mut i: Vec<E> = g.inbound_edges(vid(*v)).map(un_edge).collect();
        i.sort();
        ensure_eq!(&i, pred.get(v).unwrap_or(&none), "inbound_edges({})", v);
        ensure_eq!(g.degree_out(vid(*v)), o.len(), "degree_out({})", v);
        ensure_eq!(g.degree_in(vid(*v)), i.len(), "degree_in({})", v);
    }
    for e in &m.e {
        ensure!(g.contains_edge(edge(*e)), "contains_edge({:?}) is false", e);
        ensure_eq!(
            g.contains_edge(edge((e.1, e.0))),
            m.e.contains(&(e.1, e.0)),
            "contains_edge({:?})",
            (e.1, e.0)
        );
    }
    // membership of pairs that are not edges
    let probe: Vec<u64> = m.v.iter().copied().take(6).chain(extra.iter().copied().take(4)).collect();
    for a in &probe {
        for b in &probe {
            ensure_eq!(
                g.contains_edge(edge((*a, *b))),
                m.e.contains(&(*a, *b)),
                "contains_edge({:?})",
                (a, b)
            );
        }
    }
    Ok(())
}
