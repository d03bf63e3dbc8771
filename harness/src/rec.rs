//! Append-only event log: one total order per process (the lock is the order).
use serde::Serialize;
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Debug, Clone, Serialize, PartialEq)]
pub enum K {
    /// pre_execute entered (first job code of a run)
    Pre { ty: usize, id: String, uid: u64, run: usize },
    /// execute entered
    Start { ty: usize, id: String, uid: u64, val: i64, run: usize },
    /// execute left
    End { ty: usize, id: String, uid: u64, run: usize, ok: bool },
    /// execute unwound
    Abort { ty: usize, id: String, uid: u64, run: usize },
    /// post_execute left (last job code of a run)
    Post { ty: usize, id: String, uid: u64, run: usize, ok: bool },
    Plug { plugin: usize, what: &'static str, id: String, status: String },
    Call { c: usize, op: String },
    Ret { c: usize, op: String, res: String },
    Note(String),
}

#[derive(Debug, Clone, Serialize)]
pub struct Ev {
    pub seq: usize,
    pub t: i64,
    pub k: K,
}

static LOG: Mutex<Vec<Ev>> = Mutex::new(Vec::new());

#[derive(Default, Clone, Copy, Debug, PartialEq)]
pub struct Cnt {
    pub pre: usize,
    pub start: usize,
    pub post: usize,
    pub abort: usize,
}
impl Cnt {
    /// runs in progress
    pub fn open(&self) -> i64 {
        self.pre as i64 - self.post as i64 - self.abort as i64
    }
}
#[derive(Default)]
struct Tot {
    by_id: HashMap<(usize, String), Cnt>,
    by_ty: HashMap<usize, (i64, i64)>,
    moves: HashMap<usize, u64>,
    selfmax: HashMap<(usize, String), i64>,
}
static TOT: Mutex<Option<Tot>> = Mutex::new(None);

fn tally(k: &K) {
    let (ty, id, w) = match k {
        K::Pre { ty, id, .. } => (*ty, id, 0),
        K::Start { ty, id, .. } => (*ty, id, 1),
        K::Post { ty, id, .. } => (*ty, id, 2),
        K::Abort { ty, id, .. } => (*ty, id, 3),
        _ => return,
    };
    let mut g = TOT.lock().unwrap();
    let t = g.get_or_insert_with(Default::default);
    let c = t.by_id.entry((ty, id.clone())).or_default();
    match w {
        0 => c.pre += 1,
        1 => c.start += 1,
        2 => c.post += 1,
        _ => c.abort += 1,
    }
    let o = c.open();
    *t.moves.entry(ty).or_default() += 1;
    let e = t.by_ty.entry(ty).or_default();
    match w {
        0 => e.0 += 1,
        2 | 3 => e.0 -= 1,
        _ => {}
    }
    e.1 = e.1.max(e.0);
    if w == 0 {
        let m = t.selfmax.entry((ty, id.clone())).or_default();
        *m = (*m).max(o);
    }
}
/// Totals for one job.
pub fn cnt(ty: usize, id: &str) -> Cnt {
    let g = TOT.lock().unwrap();
    g.as_ref().and_then(|t| t.by_id.get(&(ty, id.to_string())).copied()).unwrap_or_default()
}
/// (runs of the type in progress now, most ever in progress together)
pub fn open_of(ty: usize) -> (i64, i64) {
    let g = TOT.lock().unwrap();
    g.as_ref().and_then(|t| t.by_ty.get(&ty).copied()).unwrap_or_default()
}
/// Events of job code of the type so far.
pub fn moves_of(ty: usize) -> u64 {
    let g = TOT.lock().unwrap();
    g.as_ref().and_then(|t| t.moves.get(&ty).copied()).unwrap_or_default()
}
pub fn reset_max(ty: usize) {
    let mut g = TOT.lock().unwrap();
    if let Some(e) = g.as_mut().and_then(|t| t.by_ty.get_mut(&ty)) {
        e.1 = e.0;
    }
}
/// Job ids that were ever in progress twice at the same time.
pub fn self_overlaps() -> Vec<(usize, String)> {
    let g = TOT.lock().unwrap();
    g.as_ref()
        .map(|t| t.selfmax.iter().filter(|(_, m)| **m > 1).map(|(k, _)| k.clone()).collect())
        .unwrap_or_default()
}

static ECHO: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Write every event out as it happens (for a process that will be killed).
pub fn echo() {
    ECHO.store(true, std::sync::atomic::Ordering::SeqCst);
}

pub fn push(k: K) -> usize {
    let mut l = LOG.lock().unwrap();
    let seq = l.len();
    let t = crate::clock::now_us();
    tally(&k);
    let e = Ev { seq, t, k };
    if ECHO.load(std::sync::atomic::Ordering::SeqCst) {
        use std::io::Write;
        let mut o = std::io::stdout().lock();
        let _ = writeln!(o, "EV {}", serde_json::to_string(&e).unwrap());
        let _ = o.flush();
    }
    l.push(e);
    seq
}

pub fn note(s: impl Into<String>) {
    push(K::Note(s.into()));
}

pub fn len() -> usize {
    LOG.lock().unwrap().len()
}

pub fn since(from: usize) -> Vec<Ev> {
    LOG.lock().unwrap()[from..].to_vec()
}

pub fn with<R>(f: impl FnOnce(&[Ev]) -> R) -> R {
    f(&LOG.lock().unwrap())
}

pub fn count(f: impl Fn(&K) -> bool) -> usize {
    LOG.lock().unwrap().iter().filter(|e| f(&e.k)).count()
}

pub fn starts_of(id: &str) -> Vec<(usize, i64, i64)> {
    LOG.lock()
        .unwrap()
        .iter()
        .filter_map(|e| match &e.k {
            K::Start { id: i, run, val, .. } if i == id => Some((*run, *val, e.t)),
            _ => None,
        })
        .collect()
}
