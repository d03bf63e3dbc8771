//! The instrumented job types the workloads submit.  Everything the oracles
//! judge is recorded here, in user job code, i.e. at the library's boundary.
use crate::rec::{self, K as Ev};
use aj_core::{BackgroundJob, Executable, Job, JobContext};
use async_trait::async_trait;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use tokio::sync::Semaphore;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Mode {
    Quick,
    /// give the executor n chances to run something else
    Yield(u32),
    /// really sleep (async) n microseconds
    Sleep(u64),
    /// wait for `release(uid, ..)`
    Gate,
    /// block the whole thread until `release_block(uid)`
    Block,
    /// panic on these run numbers (1-based)
    Panic(Vec<usize>),
    /// panic in pre_execute on these run numbers
    PanicPre(Vec<usize>),
    /// gate first, then panic
    GatePanic,
    /// panic in post_execute on these run numbers
    PanicPost(Vec<usize>),
    /// panic in is_failed_output of these runs
    PanicJudge(Vec<usize>),
    /// calls into the engine made by the job itself
    Nest(Vec<crate::nest::Act>),
    /// the same, made in pre_execute
    NestPre(Vec<crate::nest::Act>),
    /// the same, made in post_execute
    NestPost(Vec<crate::nest::Act>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct P<const N: usize> {
    pub uid: u64,
    pub val: i64,
    pub mode: Mode,
    /// fail[i]: outcome of run i+1 is a failure; the last entry repeats
    pub fail: Vec<bool>,
    /// run numbers seen so far: state mutated by execute()
    pub acc: Vec<i64>,
    /// post_execute inverts the outcome
    pub flip: bool,
}

impl<const N: usize> P<N> {
    pub fn new(uid: u64, val: i64) -> Self {
        P { uid, val, mode: Mode::Quick, fail: vec![], acc: vec![], flip: false }
    }
    pub fn mode(mut self, m: Mode) -> Self {
        self.mode = m;
        self
    }
    pub fn fails(mut self, f: Vec<bool>) -> Self {
        self.fail = f;
        self
    }
    pub fn planned_fail(&self, run: usize) -> bool {
        let f = if self.fail.is_empty() {
            false
        } else {
            self.fail[(run.max(1) - 1).min(self.fail.len() - 1)]
        };
        f ^ self.flip
    }
}

pub const NAMES: [&str; 16] = [
    "p00", "p01", "p02", "p03", "p04", "p05", "p06", "p07", "p08", "p09", "p10", "p11", "p12",
    "p13", "p14", "p15",
];

impl<const N: usize> BackgroundJob for P<N> {
    fn queue_name() -> &'static str {
        NAMES[N]
    }
    fn job(self) -> Job<Self> {
        Job::new(self)
    }
}

#[derive(Debug)]
pub struct Out {
    pub ok: bool,
    pub id: String,
}

struct Gate {
    sem: Arc<Semaphore>,
    outcome: Option<bool>,
}

static GATES: Mutex<Option<HashMap<u64, Gate>>> = Mutex::new(None);
static BLOCK: Mutex<Option<std::collections::HashSet<u64>>> = Mutex::new(None);

fn gate(uid: u64) -> Arc<Semaphore> {
    let mut g = GATES.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    m.entry(uid)
        .or_insert_with(|| Gate { sem: Arc::new(Semaphore::new(0)), outcome: None })
        .sem
        .clone()
}

/// Let one gated run of `uid` go; `ok` overrides the planned outcome.
pub fn release(uid: u64, ok: Option<bool>) {
    let s = gate(uid);
    GATES.lock().unwrap().as_mut().unwrap().get_mut(&uid).unwrap().outcome = ok;
    s.add_permits(1);
}

/// Open the gate of `uid` for good.
pub fn open_gate(uid: u64) {
    gate(uid).add_permits(100_000);
}

pub fn release_block(uid: u64) {
    BLOCK.lock().unwrap().get_or_insert_with(Default::default).insert(uid);
}

struct RunGuard {
    ty: usize,
    id: String,
    uid: u64,
    run: usize,
    done: bool,
}
impl Drop for RunGuard {
    fn drop(&mut self) {
        if !self.done {
            rec::push(Ev::Abort { ty: self.ty, id: self.id.clone(), uid: self.uid, run: self.run });
        }
    }
}

#[async_trait]
impl<const N: usize> Executable for P<N> {
    type Output = Out;

    async fn pre_execute(&mut self, c: &'_ JobContext) {
        rec::push(Ev::Pre { ty: N, id: c.job_id.clone(), uid: self.uid, run: c.run_count });
        if let Mode::PanicPre(runs) = &self.mode {
            if runs.contains(&c.run_count) {
                rec::push(Ev::Abort { ty: N, id: c.job_id.clone(), uid: self.uid, run: c.run_count });
                panic!("{}", crate::INJECTED);
            }
        }
        if let Mode::NestPre(acts) = &self.mode {
            crate::nest::perform(N, &c.job_id, acts.clone()).await;
        }
    }

    async fn execute(&mut self, c: &'_ JobContext) -> Out {
        let run = c.run_count;
        rec::push(Ev::Start { ty: N, id: c.job_id.clone(), uid: self.uid, val: self.val, run });
        let mut g = RunGuard { ty: N, id: c.job_id.clone(), uid: self.uid, run, done: false };
        let mut ok = !(if self.fail.is_empty() {
            false
        } else {
            self.fail[(run.max(1) - 1).min(self.fail.len() - 1)]
        });
        match &self.mode {
            Mode::Quick | Mode::PanicPre(_) | Mode::PanicPost(_) | Mode::PanicJudge(_) | Mode::NestPre(_) | Mode::NestPost(_) => {}
            Mode::Nest(acts) => crate::nest::perform(N, &c.job_id, acts.clone()).await,
            Mode::Yield(n) => {
                for _ in 0..*n {
                    tokio::task::yield_now().await;
                }
            }
            Mode::Sleep(us) => tokio::time::sleep(std::time::Duration::from_micros(*us)).await,
            Mode::Gate | Mode::GatePanic => {
                let s = gate(self.uid);
                s.acquire().await.unwrap().forget();
                if let Some(o) = GATES
                    .lock()
                    .unwrap()
                    .as_mut()
                    .and_then(|m| m.get_mut(&self.uid))
                    .and_then(|g| g.outcome.take())
                {
                    ok = o;
                }
                if self.mode == Mode::GatePanic {
                    panic!("{}", crate::INJECTED);
                }
            }
            Mode::Block => loop {
                if BLOCK.lock().unwrap().as_ref().map_or(false, |s| s.contains(&self.uid)) {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(1));
            },
            Mode::Panic(runs) => {
                if runs.contains(&run) {
                    panic!("{}", crate::INJECTED);
                }
            }
        }
        self.acc.push(run as i64);
        g.done = true;
        rec::push(Ev::End { ty: N, id: c.job_id.clone(), uid: self.uid, run, ok });
        Out { ok, id: c.job_id.clone() }
    }

    async fn post_execute(&mut self, out: Out, c: &'_ JobContext) -> Out {
        if let Mode::PanicPost(runs) = &self.mode {
            if runs.contains(&c.run_count) {
                rec::push(Ev::Abort { ty: N, id: c.job_id.clone(), uid: self.uid, run: c.run_count });
                panic!("{}", crate::INJECTED);
            }
        }
        if let Mode::NestPost(acts) = &self.mode {
            crate::nest::perform(N, &c.job_id, acts.clone()).await;
        }
        let ok = out.ok ^ self.flip;
        rec::push(Ev::Post { ty: N, id: c.job_id.clone(), uid: self.uid, run: c.run_count, ok });
        Out { ok, id: c.job_id.clone() }
    }

    async fn is_failed_output(&self, o: &Out) -> bool {
        if let (Mode::PanicJudge(runs), Some(run)) = (&self.mode, self.acc.last()) {
            if runs.contains(&(*run as usize)) {
                rec::push(Ev::Abort { ty: N, id: o.id.clone(), uid: self.uid, run: *run as usize });
                panic!("{}", crate::INJECTED);
            }
        }
        !o.ok
    }
}

#[macro_export]
macro_rules! with_k {
    ($k:expr, $K:ident => $body:expr) => {
        match $k {
            0 => { const $K: usize = 0; $body }
            1 => { const $K: usize = 1; $body }
            2 => { const $K: usize = 2; $body }
            3 => { const $K: usize = 3; $body }
            4 => { const $K: usize = 4; $body }
            5 => { const $K: usize = 5; $body }
            6 => { const $K: usize = 6; $body }
            _ => { const $K: usize = 7; $body }
        }
    };
}
