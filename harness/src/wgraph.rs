//! Graphs with edge weights, and reference distances.
use crate::gen::*;
use crate::model::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct WG {
    pub g: G,
    /// weight of g.es[i]
    pub w: Vec<i64>,
}
impl WG {
    pub fn map(&self) -> HashMap<E, i64> {
        self.g.es.iter().copied().zip(self.w.iter().copied()).collect()
    }
    pub fn cost(&self, m: &HashMap<E, i64>, p: &[u64]) -> i64 {
        p.windows(2).map(|w| m.get(&(w[0], w[1])).copied().unwrap_or(0)).sum()
    }
}

/// weights in lo..=hi, spread in different ways
pub fn weights(g: BoxedStrategy<G>, lo: i64, hi: i64) -> BoxedStrategy<WG> {
    (g, proptest::collection::vec(any::<u16>(), 1..40), 0u8..5)
        .prop_map(move |(g, raw, mode)| {
            let span = (hi - lo + 1) as u64;
            let w = (0..g.es.len())
                .map(|i| {
                    let r = raw[i % raw.len()] as u64 ^ if i >= raw.len() { mix(i as u64) & 0xffff } else { 0 };
                    let x = match mode {
                        0 => r % span.min(3),
                        1 => r % span.min(12),
                        2 => if span > 1 << 20 { mix(r) % span } else { r % span },
                        3 => (r * r) % span,
                        _ => {
                            if r % 4 == 0 {
                                span - 1 - (r / 4) % span.min(5)
                            } else {
                                r % span.min(4)
                            }
                        }
                    };
                    lo + x as i64
                })
                .collect();
            WG { g, w }
        })
        .boxed()
}

/// Minimum cost from s to every reachable vertex; None if a negative cycle is
/// reachable. Plain relaxation over vertex rounds on an edge list.
pub fn distances(m: &M, w: &HashMap<E, i64>, s: u64) -> Option<BTreeMap<u64, i64>> {
    let mut d: BTreeMap<u64, i64> = BTreeMap::from([(s, 0)]);
    for round in 0..=m.v.len() + 1 {
        let mut changed = false;
        for e in &m.e {
            if let Some(x) = d.get(&e.0).copied() {
                let y = x + w[e];
                if d.get(&e.1).map(|z| y < *z).unwrap_or(true) {
                    d.insert(e.1, y);
                    changed = true;
                }
            }
        }
        if !changed {
            return Some(d);
        }
        if round > m.v.len() {
            return None;
        }
    }
    None
}
/// Minimum cost from every vertex that reaches t.
pub fn distances_to(m: &M, w: &HashMap<E, i64>, t: u64) -> BTreeMap<u64, i64> {
    let r = M {
        v: m.v.clone(),
        e: m.e.iter().map(|e| (e.1, e.0)).collect(),
    };
    let rw: HashMap<E, i64> = w.iter().map(|(e, x)| ((e.1, e.0), *x)).collect();
    distances(&r, &rw, t).expect("non-negative weights")
}
