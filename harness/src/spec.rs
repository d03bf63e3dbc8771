//! Sequential reference of the backend: deques and maps.
use crate::rng::Rng;
use aj_core::types::{Backend, QueueDirection as D};
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Push(String, String),
    Move(String, String, usize, bool, bool),
    Remove(String, String),
    Get(String, usize, bool),
    Count(String),
    Upsert(String, String, String),
    Read(String, String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Unit,
    Items(Vec<String>),
    N(usize),
    V(Option<String>),
    Err(String),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Spec {
    pub q: BTreeMap<String, VecDeque<String>>,
    pub h: BTreeMap<(String, String), String>,
}

impl Spec {
    pub fn apply(&mut self, op: &Op) -> Out {
        match op {
            Op::Push(q, i) => {
                self.q.entry(q.clone()).or_default().push_front(i.clone());
                Out::Unit
            }
            Op::Move(f, t, n, ff, tf) => {
                let mut out = vec![];
                for _ in 0..*n {
                    let x = self.q.get_mut(f).and_then(|q| if *ff { q.pop_front() } else { q.pop_back() });
                    let Some(x) = x else { break };
                    let q = self.q.entry(t.clone()).or_default();
                    if *tf {
                        q.push_front(x.clone())
                    } else {
                        q.push_back(x.clone())
                    }
                    out.push(x);
                }
                self.q.retain(|_, q| !q.is_empty());
                Out::Items(out)
            }
            Op::Remove(q, i) => {
                if let Some(q) = self.q.get_mut(q) {
                    q.retain(|x| x != i);
                }
                self.q.retain(|_, q| !q.is_empty());
                Out::Unit
            }
            Op::Get(q, n, front) => {
                let e = VecDeque::new();
                let q = self.q.get(q).unwrap_or(&e);
                Out::Items(if *front { q.iter().take(*n).cloned().collect() } else { q.iter().rev().take(*n).cloned().collect() })
            }
            Op::Count(q) => Out::N(self.q.get(q).map_or(0, |q| q.len())),
            Op::Upsert(h, k, v) => {
                self.h.insert((h.clone(), k.clone()), v.clone());
                Out::Unit
            }
            Op::Read(h, k) => Out::V(self.h.get(&(h.clone(), k.clone())).cloned()),
        }
    }
}

fn d(front: bool) -> D {
    if front {
        D::Front
    } else {
        D::Back
    }
}

pub fn call(b: &dyn Backend, op: &Op) -> Out {
    crate::util::touch();
    let e = |e: aj_core::Error| Out::Err(format!("{e:?}"));
    match op {
        Op::Push(q, i) => b.queue_push(q, i).map_or_else(e, |_| Out::Unit),
        Op::Move(f, t, n, ff, tf) => b.queue_move(f, t, *n, d(*ff), d(*tf)).map_or_else(e, Out::Items),
        Op::Remove(q, i) => b.queue_remove(q, i).map_or_else(e, |_| Out::Unit),
        Op::Get(q, n, f) => b.queue_get(q, *n, d(*f)).map_or_else(e, Out::Items),
        Op::Count(q) => b.queue_count(q).map_or_else(e, Out::N),
        Op::Upsert(h, k, v) => b.storage_upsert(h, k, v.clone()).map_or_else(e, |_| Out::Unit),
        Op::Read(h, k) => b.storage_get(h, k).map_or_else(e, Out::V),
    }
}

/// A random call.  A move within one queue is of one item (what n > 1 means
/// there is not specified).
pub fn random(r: &mut Rng, qs: &[String], items: &[String], hashes: &[String], w: &[u64; 7]) -> Op {
    let q = r.pick(qs).clone();
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 5, 19, 20, 21, 50]);
    match r.weighted(w) {
        0 => Op::Push(q, r.pick(items).clone()),
        1 => {
            let t = r.pick(qs).clone();
            let n = if q == t { n.min(1) } else { n };
            Op::Move(q, t, n, r.chance(50), r.chance(50))
        }
        2 => Op::Remove(q, r.pick(items).clone()),
        3 => {
            // a reader may ask for more than there is
            let n = if r.chance(12) { *r.pick(&[255usize, 256, 1000, 32_768, 65_536, 100_000, 1 << 31, 1 << 32, 1 << 40]) } else { n };
            Op::Get(q, n, r.chance(50))
        }
        4 => Op::Count(q),
        5 => Op::Upsert(r.pick(hashes).clone(), r.pick(items).clone(), if r.chance(12) { r.pick(&["", " ", "null", "\0", "é\r\n"]).to_string() } else { format!("v{}", r.below(1 << 30)) }),
        _ => Op::Read(r.pick(hashes).clone(), r.pick(items).clone()),
    }
}

/// Names and items that are easily taken for each other.
pub fn twins() -> (Vec<String>, Vec<String>) {
    let v = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    (v(&["q", "Q", "q ", "q:", "\u{e9}", "e\u{301}", "q1"]), v(&["job", "Job", "JOB", " job", "job\n", "jo", "job1", "1", "01", "\u{e9}", "e\u{301}"]))
}

/// Calls on two queues of up to thousands of items, the first of which holds `have`.
pub fn long_ops(r: &mut Rng, x: &str, y: &str, have: usize) -> Vec<Op> {
    let (x, y) = (x.to_string(), y.to_string());
    let mut ops = vec![];
    for _ in 0..8 {
        let (f, t) = if r.chance(70) { (&x, &y) } else { (&y, &x) };
        let n = if r.chance(60) { r.range(1, 600) } else { r.range(1, have as i64 + 10) } as usize;
        ops.push(match r.below(5) {
            0 => Op::Count(f.clone()),
            1 => Op::Get(f.clone(), n, r.chance(50)),
            2 => Op::Remove(f.clone(), format!("n{n}")),
            _ => Op::Move(f.clone(), t.clone(), n, r.chance(50), r.chance(50)),
        });
    }
    ops.push(Op::Get(x.clone(), have + 1, r.chance(50)));
    ops.push(Op::Get(y.clone(), have + 1, r.chance(50)));
    ops.push(Op::Move(x.clone(), y.clone(), have + 3, r.chance(50), r.chance(50)));
    ops.push(Op::Move(y.clone(), x, have + r.below(2) as usize, r.chance(50), r.chance(50)));
    ops.push(Op::Get(y, have, true));
    ops
}
