use crate::probe::*;
use crate::rec::{self, K};
use crate::rng::Rng;
use crate::with_k;
use aj_core::{BackgroundJob, Job, JobStatus, WorkQueueConfig, AJ};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Debug)]
pub enum Fail {
    /// the property is refuted by what was observed
    Violation(String),
    /// the observation does not decide (watchdog, harness trouble)
    Inconclusive(String),
}
pub type Res<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::util::Fail::Violation(format!($($a)*))) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::util::Fail::Violation(format!($($a)*))) } };
}

pub struct Args {
    pub scen: String,
    pub seed: u64,
    pub scale: u64,
    pub opt: BTreeMap<String, String>,
}
impl Args {
    pub fn s(&self, k: &str, d: &str) -> String {
        self.opt.get(k).cloned().unwrap_or(d.into())
    }
    pub fn n(&self, k: &str, d: u64) -> u64 {
        self.opt.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

/// What one worker observed.
#[derive(Default)]
pub struct Stats {
    pub c: BTreeMap<String, u64>,
    pub distinct: std::collections::HashSet<u64>,
    pub samples: Vec<Value>,
    pub evaluations: u64,
    pub known: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.c.entry(k.into()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.c.entry(k.into()).or_default();
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 3 {
            self.samples.push(v);
        }
    }
    pub fn seen(&mut self, v: &impl std::hash::Hash) {
        self.distinct.insert(hash(v));
    }
}

pub fn hash(v: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

static BEATS: AtomicU64 = AtomicU64::new(0);
static TOUCH: AtomicU64 = AtomicU64::new(0);
pub static REPORTED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Progress of a workload that records no events.
pub fn touch() {
    TOUCH.fetch_add(1, Ordering::SeqCst);
}
/// Heartbeat, and the last resort against calls that never return: nothing at
/// all has happened for 75 s during which this process was being scheduled.
pub fn start_heartbeat() {
    std::thread::spawn(|| {
        let (mut last, mut since, mut at) = (0, Instant::now(), 0);
        loop {
            std::thread::sleep(Duration::from_millis(10));
            let b = BEATS.fetch_add(1, Ordering::SeqCst);
            let p = TOUCH.load(Ordering::SeqCst) + rec::len() as u64;
            if p != last {
                (last, since, at) = (p, Instant::now(), b);
            } else if since.elapsed() > Duration::from_secs(75) && b - at > 5000 && !REPORTED.swap(true, Ordering::SeqCst) {
                let out = json!({"verdict": "violated", "msg": format!("client calls have not returned and no job code has run for 75 s; panics {:?}", crate::panics()),
                    "panics": crate::panics(), "log_tail": log_json(200)});
                println!("RESULT {out}");
                std::process::exit(0);
            }
        }
    });
}
pub fn beats() -> u64 {
    BEATS.load(Ordering::SeqCst)
}

#[derive(PartialEq, Debug, Clone)]
pub enum Alive {
    Yes,
    Dead(String),
    NoQueue,
}

/// One message round trip through the queue of type `k`.
pub async fn ping(k: usize) -> Alive {
    let r = with_k!(k, KK => AJ::retry_job::<P<KK>>("__no_such_job__").await);
    match r {
        Ok(_) => Alive::Yes,
        Err(aj_core::Error::NoQueueRegister) => Alive::NoQueue,
        // a storage error is still an answer from a living queue
        Err(aj_core::Error::MailboxError(e)) => Alive::Dead(format!("{e:?}")),
        Err(_) => Alive::Yes,
    }
}

pub fn stall_ms() -> u64 {
    std::env::var("AJMON_STALL_MS").ok().and_then(|v| v.parse().ok()).unwrap_or(8000)
}

/// Bounded progress, decided on logical steps.  Returns Ok once `cond` holds.
/// A violation needs: real time enough for thousands of engine ticks, proof
/// that this process was being scheduled (heartbeats), and proof that the
/// queue's own thread was running (hundreds of message round trips handled by
/// it) - or that the queue's mailbox is closed, or that its thread is stuck
/// while the rest of the process runs.  Otherwise the watchdog ends the wait
/// as inconclusive.
pub async fn wait_for(what: &str, k: usize, mut cond: impl FnMut() -> bool) -> Res {
    let begin = Instant::now();
    let begin_beats = beats();
    // the stall clock starts again whenever jobs of the type make progress
    let mut t0 = Instant::now();
    let mut b0 = beats();
    let mut moves = rec::moves_of(k);
    let stall = Duration::from_millis(stall_ms());
    let need_beats = stall_ms() / 10 * 6 / 10;
    let mut trips = 0u64;
    let mut dead = 0u64;
    let mut noq = 0u64;
    let mut spins = 0u64;
    loop {
        if cond() {
            return Ok(());
        }
        let m = rec::moves_of(k);
        if m != moves {
            moves = m;
            t0 = Instant::now();
            b0 = beats();
            trips = 0;
            noq = 0;
        }
        if begin.elapsed() > Duration::from_secs(90) && beats() - begin_beats > 5400 {
            viol!("{what}: not observed within 90 s while jobs of the type kept running; panics: {:?}", crate::panics());
        }
        spins += 1;
        if spins < 60 {
            tokio::time::sleep(Duration::from_micros(500)).await;
            continue;
        }
        let p0 = Instant::now();
        let pb0 = beats();
        let mut fut = Box::pin(ping(k));
        let r = loop {
            match tokio::time::timeout(Duration::from_millis(200), &mut fut).await {
                Ok(r) => break r,
                Err(_) => {
                    if cond() {
                        return Ok(());
                    }
                    if p0.elapsed() > Duration::from_secs(30) && beats() - pb0 > 1800 {
                        viol!("{what}: the queue thread has not answered a message for 30 s");
                    }
                    if t0.elapsed() > Duration::from_secs(180) {
                        return Err(Fail::Inconclusive(format!("{what}: watchdog")));
                    }
                }
            }
        };
        match r {
            Alive::Yes => {
                trips += 1;
                noq = 0;
            }
            Alive::Dead(e) => {
                dead += 1;
                if dead > 50 && t0.elapsed() > Duration::from_secs(2) {
                    if cond() {
                        return Ok(());
                    }
                    viol!("{what}: the queue has died ({e}); panics: {:?}", crate::panics());
                }
            }
            Alive::NoQueue => noq += 1,
        }
        if t0.elapsed() > stall && beats() - b0 > need_beats && (trips > 300 || noq > 300) {
            if cond() {
                return Ok(());
            }
            viol!(
                "{what}: not observed after {} ms, {} queue round trips{}; panics: {:?}",
                t0.elapsed().as_millis(),
                trips,
                if noq > 0 { " (no queue registered)" } else { "" },
                crate::panics()
            );
        }
        if t0.elapsed() > Duration::from_secs(180) {
            return Err(Fail::Inconclusive(format!("{what}: watchdog")));
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
}

static UID: AtomicU64 = AtomicU64::new(1);
pub fn next_uid() -> u64 {
    UID.fetch_add(1, Ordering::SeqCst)
}

pub fn started(id: &str) -> usize {
    rec::count(|k| matches!(k, K::Start{id: i, ..} if i == id))
}
pub fn ended(id: &str) -> usize {
    rec::count(|k| matches!(k, K::Post{id: i, ..} if i == id))
}

/// Canary job: submitted now, and executed only by a scan of the whole queue
/// that begins after the submission.
pub static CANARIES: std::sync::Mutex<Vec<(usize, String)>> = std::sync::Mutex::new(Vec::new());
/// Wait until the engine has recorded the completion of every canary so far.
pub async fn settle() -> Res {
    let l = std::mem::take(&mut *CANARIES.lock().unwrap());
    for (k, id) in l {
        with_k!(k, KK => wait_status::<KK>(&id, &[JobStatus::Finished]).await?);
    }
    Ok(())
}
pub async fn canary<const N: usize>() -> Res {
    let uid = next_uid();
    let id = format!("canary-{uid}");
    CANARIES.lock().unwrap().push((N, id.clone()));
    let from = rec::len();
    let r = Job::new(P::<N>::new(uid, 0)).set_id(id.clone()).run().await;
    if let Err(e) = r {
        viol!("submission of canary refused: {e:?}; panics: {:?}", crate::panics());
    }
    wait_for("canary job runs", N, || {
        rec::with(|l| l[from..].iter().any(|e| matches!(&e.k, K::Post{uid: u, ..} if *u == uid)))
    })
    .await
}

/// Two sequential canaries: at least one complete scan of the queue started
/// and finished after everything done before this call.
pub async fn flush<const N: usize>() -> Res {
    canary::<N>().await?;
    canary::<N>().await
}

pub async fn set_cfg<const N: usize>(max: usize, tick: Duration) -> Res {
    let r = AJ::update_work_queue::<P<N>>(WorkQueueConfig {
        process_tick_duration: tick,
        max_processing_jobs: max,
    })
    .await;
    check!(r.is_ok(), "update_work_queue refused: {r:?}; panics {:?}", crate::panics());
    Ok(())
}

/// Register the queue of type N and put it on a fast tick.
pub async fn warm<const N: usize>(max: usize) -> Res {
    canary::<N>().await?;
    set_cfg::<N>(max, Duration::from_millis(1)).await?;
    flush::<N>().await
}

pub async fn status<const N: usize>(id: &str) -> Option<JobStatus> {
    AJ::get_job::<P<N>>(id).await.map(|j| j.context.job_status)
}

/// Wait until get_job reports one of `want`.
pub async fn wait_status<const N: usize>(id: &str, want: &[JobStatus]) -> Res<JobStatus> {
    let t0 = Instant::now();
    let b0 = beats();
    let mut trips = 0u64;
    let mut last = None;
    loop {
        let r = tokio::time::timeout(Duration::from_secs(60), status::<N>(id)).await;
        match r {
            Ok(s) => {
                trips += 1;
                last = s;
                if let Some(s) = s {
                    if want.contains(&s) {
                        return Ok(s);
                    }
                }
            }
            Err(_) => return Err(Fail::Inconclusive(format!("get_job({id}) no answer"))),
        }
        if t0.elapsed() > Duration::from_millis(stall_ms())
            && trips > 500
            && beats() - b0 > stall_ms() / 10 * 6 / 10
        {
            viol!(
                "job {id} stays {last:?}, expected one of {want:?} ({trips} polls); panics {:?}",
                crate::panics()
            );
        }
        if t0.elapsed() > Duration::from_secs(180) {
            return Err(Fail::Inconclusive(format!("wait_status {id}")));
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
}

pub fn job<const N: usize>(id: &str, p: P<N>) -> Job<P<N>> {
    p.job().set_id(id.to_string())
}

pub fn base_time(rng: &mut Rng) -> i64 {
    // 2027..2035, whole microseconds with a non-zero sub-second part
    (1_800_000_000 + rng.range(0, 250_000_000)) * 1_000_000 + rng.range(1, 999_998)
}

/// Runs whose [Pre, Post/Abort] intervals overlap, per key.
pub fn max_overlap(evs: &[rec::Ev], key: impl Fn(&K) -> Option<String>) -> BTreeMap<String, i64> {
    let mut cur: BTreeMap<String, i64> = BTreeMap::new();
    let mut max: BTreeMap<String, i64> = BTreeMap::new();
    for e in evs {
        let d = match &e.k {
            K::Pre { .. } => 1,
            K::Post { .. } | K::Abort { .. } => -1,
            _ => 0,
        };
        if d != 0 {
            if let Some(k) = key(&e.k) {
                let c = cur.entry(k.clone()).or_default();
                *c += d;
                let m = max.entry(k).or_default();
                *m = (*m).max(*c);
            }
        }
    }
    max
}

pub fn ev_id(k: &K) -> Option<(usize, String)> {
    match k {
        K::Pre { ty, id, .. }
        | K::Start { ty, id, .. }
        | K::End { ty, id, .. }
        | K::Abort { ty, id, .. }
        | K::Post { ty, id, .. } => Some((*ty, id.clone())),
        _ => None,
    }
}

pub fn log_json(max: usize) -> Value {
    rec::with(|l| {
        let from = l.len().saturating_sub(max);
        json!(l[from..].iter().map(|e| serde_json::to_value(e).unwrap()).collect::<Vec<_>>())
    })
}

/// Deterministic record of the order in which runs started and ended
/// (interleaving fingerprint).
pub fn interleaving_hash(from: usize) -> u64 {
    rec::with(|l| {
        let v: Vec<String> = l[from..]
            .iter()
            .filter_map(|e| match &e.k {
                K::Start { uid, run, .. } => Some(format!("s{uid}.{run}")),
                K::Post { uid, run, .. } => Some(format!("e{uid}.{run}")),
                _ => None,
            })
            .collect();
        hash(&v)
    })
}

/// `n` client threads, each with its own Tokio runtime, released together.
pub fn clients<F, Fut>(n: usize, f: F) -> Vec<Res>
where
    F: Fn(usize) -> Fut + Send + Sync + Clone + 'static,
    Fut: std::future::Future<Output = Res>,
{
    let bar = std::sync::Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let (f, bar) = (f.clone(), bar.clone());
            std::thread::Builder::new()
                .name(format!("client{i}"))
                .spawn(move || {
                    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                    bar.wait();
                    rt.block_on(f(i))
                })
                .unwrap()
        })
        .collect();
    hs.into_iter()
        .map(|h| match h.join() {
            Ok(r) => r,
            Err(_) => {
                let p = crate::panics();
                let last = p.last().cloned().unwrap_or_default();
                if crate::is_harness_panic(&last) {
                    Err(Fail::Inconclusive(format!("harness panic {last}")))
                } else {
                    Err(Fail::Violation(format!("a client call panicked: {last}")))
                }
            }
        })
        .collect()
}

pub fn all_ok(v: Vec<Res>) -> Res {
    let mut inc = None;
    for r in v {
        match r {
            Err(Fail::Violation(m)) => return Err(Fail::Violation(m)),
            Err(e) => inc = Some(e),
            Ok(()) => {}
        }
    }
    inc.map_or(Ok(()), Err)
}

/// Block on a future from a plain thread.
pub fn block<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}

/// Drive `k` until `cond`; the stall oracle of `wait_for`, from a plain thread.
pub async fn wait_runs(k: usize, what: &str, ids: &[String], posts: usize) -> Res {
    let mut left: Vec<&String> = ids.iter().collect();
    let mut miss = String::new();
    let r = wait_for(what, k, || {
        left.retain(|id| rec::cnt(k, id).post < posts);
        if let Some(m) = left.first() {
            miss = format!("{} of {} jobs, e.g. {m} {:?}", left.len(), ids.len(), rec::cnt(k, m));
        }
        left.is_empty()
    })
    .await;
    match r {
        Err(Fail::Violation(v)) => Err(Fail::Violation(format!("not completed: {miss}; {v}"))),
        r => r,
    }
}

/// Logical time in queue ticks: count jobs served one after the other by an
/// idle control queue (type `ctl`) with the same tick, until `cond` holds.
/// More than `max` of them while `cond` stays false refutes promptness.
pub async fn within_ticks<const CTL: usize>(what: &str, max: usize, mut cond: impl FnMut() -> bool) -> Res<usize> {
    for n in 0..=max {
        if cond() {
            return Ok(n);
        }
        canary::<CTL>().await?;
    }
    // grace: two more, in case the condition and the control job race
    canary::<CTL>().await?;
    canary::<CTL>().await?;
    if cond() {
        return Ok(max + 2);
    }
    viol!("{what}: not observed while an idle queue with the same tick served {} jobs one after the other", max + 3)
}
