//! gc-add and gc-delete invocations and what they mean.
use crate::cli::{self, Cmd, Scratch};
use crate::gen::*;
use crate::model::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Default, Hash, Serialize, Deserialize)]
pub struct Add {
    pub v: Vec<u64>,
    pub e: Vec<u64>,
    pub chain: Vec<u64>,
    pub cycle: Vec<u64>,
    pub star: Vec<u64>,
    pub clique: Vec<u64>,
    pub reverse: bool,
    pub long: bool,
}
#[derive(Clone, Debug, Default, Hash, Serialize, Deserialize)]
pub struct Del {
    pub v: Vec<u64>,
    pub e: Vec<u64>,
    pub long: bool,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Edit {
    Add(Add),
    Del(Del),
}
impl Add {
    pub fn apply(&self, m: &mut M) {
        let mut edge = |a: u64, b: u64, m: &mut M| {
            if self.reverse {
                m.add_e(b, a);
            } else {
                m.add_e(a, b);
            }
        };
        for v in &self.v {
            m.add_v(*v);
        }
        for p in self.e.chunks(2) {
            edge(p[0], p[1], m);
        }
        for p in self.chain.windows(2) {
            edge(p[0], p[1], m);
        }
        for i in 0..self.cycle.len() {
            edge(self.cycle[i], self.cycle[(i + 1) % self.cycle.len()], m);
        }
        for x in self.star.iter().skip(1) {
            edge(self.star[0], *x, m);
        }
        for a in &self.clique {
            for b in &self.clique {
                if a != b {
                    m.add_e(*a, *b);
                }
            }
        }
    }
    pub fn groups(&self) -> usize {
        [&self.v, &self.e, &self.chain, &self.cycle, &self.star, &self.clique].iter().filter(|l| !l.is_empty()).count()
    }
    fn args(&self) -> Vec<String> {
        let mut out = vec![];
        let mut put = |short: &str, long: &str, l: &[u64]| {
            if !l.is_empty() {
                out.push(if self.long { long } else { short }.to_string());
                out.extend(l.iter().map(|x| x.to_string()));
            }
        };
        put("-v", "--vertex", &self.v);
        put("-e", "--edge", &self.e);
        put("-c", "--chain", &self.chain);
        put("-O", "--cycle", &self.cycle);
        put("-X", "--star", &self.star);
        put("-C", "--clique", &self.clique);
        if self.reverse {
            out.push(if self.long { "--reverse" } else { "-r" }.to_string());
        }
        out
    }
}
impl Edit {
    pub fn apply(&self, m: &mut M) {
        match self {
            Edit::Add(a) => a.apply(m),
            Edit::Del(d) => {
                for v in &d.v {
                    m.rm_v(*v);
                }
                for p in d.e.chunks(2) {
                    m.rm_e(p[0], p[1]);
                }
            }
        }
    }
    pub fn args(&self) -> Vec<String> {
        match self {
            Edit::Add(a) => a.args(),
            Edit::Del(d) => {
                let mut out = vec![];
                for (s, l, x) in [("-v", "--vertex", &d.v), ("-e", "--edge", &d.e)] {
                    if !x.is_empty() {
                        out.push(if d.long { l } else { s }.to_string());
                        out.extend(x.iter().map(|x| x.to_string()));
                    }
                }
                out
            }
        }
    }
    /// The same, in one of the ways a command line can be written: groups in another order,
    /// -v given several times or joined with its value.
    pub fn spelled(&self) -> Vec<String> {
        let plain = self.args();
        let r = plain.iter().flat_map(|a| a.bytes()).fold(7u64, |h, b| mix(h ^ b as u64));
        let mut groups: Vec<Vec<String>> = vec![];
        for a in plain {
            if a.starts_with('-') || groups.is_empty() {
                groups.push(vec![]);
            }
            groups.last_mut().unwrap().push(a);
        }
        for g in &mut groups {
            if g[0] != "-v" && g[0] != "--vertex" {
                continue;
            }
            let flag = g[0].clone();
            let ids = g.split_off(1);
            *g = match r % 6 {
                0 => ids.into_iter().flat_map(|x| [flag.clone(), x]).collect(),
                1 if flag == "-v" => ids.into_iter().map(|x| format!("-v{}", x)).collect(),
                1 | 2 => ids.into_iter().map(|x| format!("{}={}", flag, x)).collect(),
                3 if ids.len() > 1 => {
                    let (a, b) = ids.split_at(ids.len() / 2);
                    [&[flag.clone()], a, &[flag.clone()], b].concat()
                }
                _ => [vec![flag], ids].concat(),
            };
        }
        if !groups.is_empty() {
            let n = groups.len();
            groups.rotate_left((r >> 8) as usize % n);
        }
        groups.concat()
    }
    pub fn bin(&self) -> &'static str {
        match self {
            Edit::Add(_) => "gc-add",
            Edit::Del(_) => "gc-delete",
        }
    }
    pub fn groups(&self) -> usize {
        match self {
            Edit::Add(a) => a.groups(),
            Edit::Del(d) => !d.v.is_empty() as usize + !d.e.is_empty() as usize,
        }
    }
    pub fn cmd(&self, s: &Scratch, dir: &str) -> Cmd {
        cli::cmd(self.bin(), &s.root).args(["-p", dir]).args(self.spelled())
    }
}

/// ids drawn from a small pool, so that edits meet
pub fn pool_id() -> BoxedStrategy<u64> {
    prop_oneof![12 => 0u64..8, 2 => 8u64..30, 1 => proptest::sample::select(BOUNDARY_IDS.to_vec())].boxed()
}
fn distinct(l: Vec<u64>) -> Vec<u64> {
    let mut out = vec![];
    for x in l {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}
fn even(mut l: Vec<u64>) -> Vec<u64> {
    if l.len() % 2 == 1 {
        l.pop();
    }
    l
}
fn some(p: u32, s: BoxedStrategy<Vec<u64>>) -> BoxedStrategy<Vec<u64>> {
    prop_oneof![10 => Just(vec![]), p => s].boxed()
}
/// gc-add with one or several of its options. `big`: now and then more than fits a buffer.
pub fn add(big: bool) -> BoxedStrategy<Edit> {
    let l = |lo: usize, hi: usize| vec(pool_id(), lo..=hi).boxed();
    let clique = l(2, 5).prop_map(distinct).boxed();
    let clique = if big { prop_oneof![6 => clique, 1 => (20u64..34, any::<u32>()).prop_map(|(n, b)| (0..n).map(|i| i * 3 + b as u64 % 1000).collect())].boxed() } else { clique };
    let one = prop_oneof![
        3 => l(1, 5).prop_map(|v| Add { v, ..Add::default() }),
        4 => l(2, 8).prop_map(|e| Add { e: even(e), ..Add::default() }),
        2 => l(2, 6).prop_map(|chain| Add { chain, ..Add::default() }),
        2 => l(2, 6).prop_map(|cycle| Add { cycle, ..Add::default() }),
        2 => l(2, 6).prop_map(|star| Add { star, ..Add::default() }),
        2 => clique.clone().prop_map(|clique| Add { clique, ..Add::default() }),
    ];
    let many = (some(6, l(1, 4)), some(6, l(2, 6).prop_map(even).boxed()), some(5, l(2, 5)), some(5, l(2, 5)), some(5, l(2, 5)), some(4, clique))
        .prop_map(|(v, e, chain, cycle, star, clique)| Add { v, e, chain, cycle, star, clique, ..Add::default() });
    (prop_oneof![3 => one, 2 => many], proptest::bool::weighted(0.3), any::<bool>())
        .prop_map(|(mut a, r, l)| {
            // a clique needs two different vertices
            if a.clique.len() < 2 {
                a.clique = vec![];
            }
            if a.groups() == 0 {
                a.v = vec![3];
            }
            a.reverse = r;
            a.long = l;
            Edit::Add(a)
        })
        .boxed()
}
pub fn del() -> BoxedStrategy<Edit> {
    (some(12, vec(pool_id(), 1..=4).boxed()), some(14, vec(pool_id(), 2..=8).prop_map(even).boxed()), any::<bool>())
        .prop_map(|(v, e, long)| {
            let v = if v.is_empty() && e.is_empty() { vec![2] } else { v };
            Edit::Del(Del { v, e, long })
        })
        .boxed()
}
pub fn edit(big: bool) -> BoxedStrategy<Edit> {
    prop_oneof![3 => add(big), 2 => del()].boxed()
}
/// an edit with a single group of ids: one append to the stored graph
pub fn single() -> BoxedStrategy<Edit> {
    edit(false)
        .prop_map(|e| match e {
            Edit::Add(a) if a.groups() > 1 => Edit::Add(Add { v: a.v, e: vec![5, 6], reverse: a.reverse, long: a.long, ..Add::default() }),
            Edit::Del(d) if !d.v.is_empty() && !d.e.is_empty() => Edit::Del(Del { v: vec![], ..d }),
            e => e,
        })
        .prop_map(|e| match e {
            Edit::Add(a) if a.groups() > 1 => Edit::Add(Add { v: vec![], ..a }),
            e => e,
        })
        .boxed()
}
