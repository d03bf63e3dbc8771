//! C18: job types whose queue names are close to each other, and many types.
use crate::rng::Rng;
use crate::util::*;
use crate::{check, viol};
use aj_core::{BackgroundJob, Executable, Job, JobContext, JobStatus, WorkQueueConfig, AJ};
use async_trait::async_trait;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// One payload for all types: what a type picks up by mistake it can read.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Nm<const K: usize> {
    k: usize,
    hold: bool,
    note: String,
}
pub const N: usize = 18;
const LONG: [&str; 2] = [
    "a_very_long_queue_name_shared_by_two_types_up_to_its_very_last_character_and_then_some_more_of_it_A",
    "a_very_long_queue_name_shared_by_two_types_up_to_its_very_last_character_and_then_some_more_of_it_B",
];
const NAMES: [&str; N] = [
    "iso-twin", "Iso-Twin", "ISO-TWIN", "iso-twin ", " iso-twin", "iso-twins", "iso-twi", "iso-twin:queue", "iso-twin:queue:Queued",
    "iso_twin", "a::b::IsoTwin", "a::c::IsoTwin", "IsoTwin", LONG[0], LONG[1], "iso-twin:Running", "iso twin", "İso-twin",
];

/// (type that ran it, type it was submitted to, id, note)
static LOG: Mutex<Vec<(usize, usize, String, String)>> = Mutex::new(Vec::new());
static ENDED: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
static OPEN: AtomicBool = AtomicBool::new(false);
static BLOCK: AtomicBool = AtomicBool::new(false);

#[async_trait]
impl<const K: usize> Executable for Nm<K> {
    type Output = ();
    async fn execute(&mut self, c: &JobContext) {
        LOG.lock().unwrap().push((K, self.k, c.job_id.clone(), self.note.clone()));
        crate::rec::push(crate::rec::K::Note(format!("type {K} runs {}", c.job_id)));
        while self.note == "block" && BLOCK.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_millis(1));
        }
        while self.hold && !OPEN.load(Ordering::SeqCst) {
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        ENDED.lock().unwrap().push((K, c.job_id.clone()));
    }
}
impl<const K: usize> BackgroundJob for Nm<K> {
    fn queue_name() -> &'static str {
        NAMES[K]
    }
    fn job(self) -> Job<Self> {
        Job::new(self)
    }
}

/// A type that claims the queue name of another one (index CLASH).
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Clash {
    n: u32,
}
static CLASH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static CLASHED: Mutex<Vec<u32>> = Mutex::new(Vec::new());
#[async_trait]
impl Executable for Clash {
    type Output = ();
    async fn execute(&mut self, _: &JobContext) {
        CLASHED.lock().unwrap().push(self.n);
    }
}
impl BackgroundJob for Clash {
    fn queue_name() -> &'static str {
        NAMES[CLASH.load(Ordering::SeqCst)]
    }
    fn job(self) -> Job<Self> {
        Job::new(self)
    }
}

macro_rules! each {
    ($k:expr, $K:ident => $b:expr) => {
        each!(@ $k, $K => $b; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17)
    };
    (@ $k:expr, $K:ident => $b:expr; $($n:literal)*) => {
        match $k { $($n => { const $K: usize = $n; $b })* _ => unreachable!() }
    };
}

async fn until(what: &str, mut f: impl FnMut() -> bool) -> Res {
    let (t, b) = (Instant::now(), beats());
    while !f() {
        if t.elapsed().as_millis() as u64 > stall_ms() && beats() - b > stall_ms() / 16 {
            viol!("{what}: not observed; panics {:?}", crate::panics());
        }
        if t.elapsed() > Duration::from_secs(120) {
            return Err(Fail::Inconclusive(format!("{what}: watchdog")));
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    Ok(())
}

fn running(k: usize) -> usize {
    let ended = ENDED.lock().unwrap().iter().filter(|l| l.0 == k).count();
    LOG.lock().unwrap().iter().filter(|l| l.0 == k).count() - ended
}

fn own() -> Res {
    for (ran, sub, id, _) in LOG.lock().unwrap().iter() {
        check!(ran == sub && id.starts_with(&format!("{sub}/")), "a job submitted to the type with queue {:?} was run by the type with queue {:?} (id {id})", NAMES[*sub], NAMES[*ran]);
    }
    Ok(())
}

pub async fn run(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    let mut types: Vec<usize> = (0..N).collect();
    for i in (1..N).rev() {
        types.swap(i, rng.below(i as u64 + 1) as usize);
    }
    types.truncate(rng.range(6, N as i64) as usize);
    let mut limit: BTreeMap<usize, usize> = BTreeMap::new();
    let clash_after = rng.below(types.len() as u64) as usize;
    let mut taken = vec![];
    for (i, &k) in types.iter().enumerate() {
        if i == clash_after + 1 {
            // refused, or a queue of its own: in either case nobody else notices
            CLASH.store(types[rng.below(i as u64) as usize], Ordering::SeqCst);
            for n in 0..3 {
                if n == 1 {
                    Clash { n }.job().just_run();
                } else if (Clash { n }).job().run().await.is_ok() {
                    taken.push(n);
                }
            }
            stats.add("name_clashes", 1);
        }
        let r = each!(k, K => Nm::<K> { k, hold: false, note: "w".into() }.job().set_id(format!("{k}/first")).run().await);
        check!(r.is_ok(), "the first submission to the type with queue {:?} -> {r:?}; panics {:?}", NAMES[k], crate::panics());
        // the last one keeps the defaults, whatever the others were given
        if Some(&k) == types.last() {
            limit.insert(k, WorkQueueConfig::default().max_processing_jobs);
            continue;
        }
        let l = rng.range(1, 4) as usize;
        limit.insert(k, l);
        let cfg = WorkQueueConfig { process_tick_duration: Duration::from_millis(2), max_processing_jobs: l };
        let r = each!(k, K => AJ::update_work_queue::<Nm<K>>(cfg).await);
        check!(r.is_ok(), "update_work_queue -> {r:?}");
    }
    until("the first job of every type runs", || types.iter().all(|k| ENDED.lock().unwrap().contains(&(*k, format!("{k}/first"))))).await?;
    // a type whose job holds its thread holds no other type's
    for round in 0..2 {
        let b = types[rng.below(types.len() as u64) as usize];
        BLOCK.store(true, Ordering::SeqCst);
        let r = each!(b, K => Nm::<K> { k: b, hold: false, note: "block".into() }.job().set_id(format!("{b}/block{round}")).run().await);
        check!(r.is_ok(), "run -> {r:?}");
        let started = until("a job starts", || LOG.lock().unwrap().iter().any(|l| l.2 == format!("{b}/block{round}"))).await;
        let ids: Vec<_> = types.iter().filter(|k| **k != b).map(|k| (*k, format!("{k}/beside{round}"))).collect();
        if started.is_ok() {
            for (k, id) in &ids {
                // not awaited: a queue on the blocked thread would not answer
                each!(*k, K => Nm::<K> { k: *k, hold: false, note: "b".into() }.job().set_id(id.clone()).just_run());
            }
        }
        let done = || ids.iter().filter(|e| !ENDED.lock().unwrap().contains(e)).map(|e| NAMES[e.0]).collect::<Vec<_>>();
        let r = match started {
            Ok(()) => until("jobs of the other types run", || done().is_empty()).await,
            e => e,
        };
        let late = done();
        BLOCK.store(false, Ordering::SeqCst);
        if let Err(Fail::Violation(v)) = r {
            viol!("a job of the type with queue {:?} blocks its thread; {v}; not run: queues {late:?}", NAMES[b]);
        }
        r?;
        until("the blocking job ends", || ENDED.lock().unwrap().contains(&(b, format!("{b}/block{round}")))).await?;
        stats.add("blocked_threads", 1);
    }
    let seen: BTreeMap<usize, usize> = types.iter().map(|k| (*k, ENDED.lock().unwrap().iter().filter(|e| e.0 == *k).count())).collect();
    let far = chrono::Utc::now() + chrono::Duration::days(2);
    for &k in &types {
        for i in 0..limit[&k] + 2 {
            let r = each!(k, K => Nm::<K> { k, hold: true, note: "r".into() }.job().set_id(format!("{k}/{i}")).run().await);
            check!(r.is_ok(), "run -> {r:?}");
        }
        each!(k, K => Nm::<K> { k, hold: false, note: "j".into() }.job().set_id(format!("{k}/j")).just_run());
        for w in ["x", "y"] {
            let r = each!(k, K => Nm::<K> { k, hold: false, note: w.into() }.job().set_id(format!("{k}/{w}")).schedule_at(far).run().await);
            check!(r.is_ok(), "run -> {r:?}");
        }
    }
    let full = || types.iter().all(|k| running(*k) >= limit[k]);
    let u = until("every type uses its own limit", full).await;
    own()?;
    if let Err(Fail::Violation(v)) = u {
        let short: Vec<_> = types.iter().filter(|k| running(**k) < limit[k]).map(|k| (NAMES[*k], running(*k), limit[k])).collect();
        viol!("{v}; (queue, running, limit): {short:?}");
    }
    u?;
    tokio::time::sleep(Duration::from_millis(250)).await;
    for k in &types {
        check!(running(*k) == limit[k], "{} runs of the type with queue {:?} in progress, its limit is {}", running(*k), NAMES[*k], limit[k]);
    }
    // calls for one type leave the jobs of the others alone
    for &k in &types {
        let r = each!(k, K => AJ::cancel_job::<Nm<K>>(format!("{k}/x")).await);
        check!(r.is_ok(), "cancel -> {r:?}");
        for &o in &types {
            let st = each!(o, K => AJ::get_job::<Nm<K>>(&format!("{o}/y")).await.map(|j| j.context.job_status));
            check!(st == Some(JobStatus::Queued), "job {o}/y is {st:?} after a cancel in the type with queue {:?}", NAMES[k]);
        }
    }
    OPEN.store(true, Ordering::SeqCst);
    for &k in &types {
        let r = each!(k, K => AJ::update_job::<Nm<K>>(&format!("{k}/y"), Nm { k, hold: false, note: "updated".into() }, Some(JobContext::new(format!("{k}/y")))).await);
        check!(r.is_ok(), "update -> {r:?}");
    }
    let u = until("every job runs", || types.iter().all(|k| ENDED.lock().unwrap().iter().filter(|e| e.0 == *k).count() >= limit[k] + 4 + seen[k])).await;
    own()?;
    u?;
    tokio::time::sleep(Duration::from_millis(30)).await;
    own()?;
    for &k in &types {
        let l = LOG.lock().unwrap();
        for i in (0..limit[&k] + 2).map(|i| i.to_string()).chain(["first".into(), "y".into(), "j".into()]) {
            let n: Vec<_> = l.iter().filter(|x| x.2 == format!("{k}/{i}")).collect();
            check!(n.len() == 1, "job {k}/{i} of the type with queue {:?} ran {} times", NAMES[k], n.len());
            check!(i != "y" || n[0].3 == "updated", "job {k}/y ran with {:?}", n[0].3);
        }
        check!(!l.iter().any(|x| x.2 == format!("{k}/x")), "the cancelled job {k}/x ran");
    }
    let c = CLASHED.lock().unwrap().clone();
    for n in [0, 2] {
        let runs = c.iter().filter(|x| **x == n).count();
        check!(runs == taken.contains(&n) as usize, "a type that claims the queue name {:?} of another: submissions {taken:?} accepted, jobs {c:?} run", NAMES[CLASH.load(Ordering::SeqCst)]);
    }
    stats.evaluations += types.len() as u64;
    stats.max("max_types", types.len() as u64);
    stats.seen(&types);
    stats.sample(json!({"seed": a.seed, "queues": types.iter().map(|k| NAMES[*k]).collect::<Vec<_>>()}));
    Ok(())
}
