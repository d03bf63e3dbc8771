//! C19: backend calls that fail without effect, for a while.
//! Jobs are gated while faults are on, so that no run's completion is recorded
//! by a failing backend (that part is not claimed).
use crate::probe::*;
use crate::rec::{self, K};
use crate::rng::Rng;
use crate::util::*;
use crate::{check, clock, viol};
use aj_core::mem::InMemory;
use aj_core::types::{Backend, QueueDirection};
use aj_core::{BackgroundJob, EnqueueConfig, Error, JobStatus, AJ};
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Default)]
struct Plan {
    /// per cent of calls failing, per operation
    pct: BTreeMap<&'static str, u64>,
    /// fail exactly the calls with these numbers
    nth: Vec<u64>,
    calls: u64,
    failed: BTreeMap<&'static str, u64>,
    trace: Vec<&'static str>,
}

#[derive(Clone)]
struct Faulty {
    inner: Arc<InMemory>,
    plan: Arc<Mutex<(Option<Plan>, Rng)>>,
}

impl Faulty {
    fn gate(&self, op: &'static str) -> Result<(), Error> {
        let mut g = self.plan.lock().unwrap();
        let (p, r) = &mut *g;
        if let Some(p) = p {
            p.calls += 1;
            let roll = r.below(100);
            let hit = p.pct.get(op).map_or(false, |x| roll < *x) || p.nth.contains(&p.calls);
            if hit {
                *p.failed.entry(op).or_default() += 1;
                if p.trace.len() < 400 {
                    p.trace.push(op);
                }
                return Err(Error::Redis(redis::RedisError::from(std::io::Error::new(std::io::ErrorKind::Other, "injected"))));
            }
        }
        Ok(())
    }
}

impl Backend for Faulty {
    fn queue_push(&self, q: &str, i: &str) -> Result<(), Error> {
        self.gate("push")?;
        self.inner.queue_push(q, i)
    }
    fn queue_move(&self, f: &str, t: &str, n: usize, a: QueueDirection, b: QueueDirection) -> Result<Vec<String>, Error> {
        self.gate("move")?;
        self.inner.queue_move(f, t, n, a, b)
    }
    fn queue_remove(&self, q: &str, i: &str) -> Result<(), Error> {
        self.gate("remove")?;
        self.inner.queue_remove(q, i)
    }
    fn queue_get(&self, q: &str, n: usize, d: QueueDirection) -> Result<Vec<String>, Error> {
        self.gate("get")?;
        self.inner.queue_get(q, n, d)
    }
    fn queue_count(&self, q: &str) -> Result<usize, Error> {
        self.gate("count")?;
        self.inner.queue_count(q)
    }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> {
        self.gate("upsert")?;
        self.inner.storage_upsert(h, k, v)
    }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> {
        self.gate("read")?;
        self.inner.storage_get(h, k)
    }
}

const OPS: [&str; 7] = ["push", "move", "remove", "get", "count", "upsert", "read"];

fn plan(r: &mut Rng) -> Plan {
    let mut p = Plan::default();
    match r.below(5) {
        0 => {
            // everything fails now and then
            let x = *r.pick(&[5u64, 15, 35, 60]);
            for o in OPS {
                p.pct.insert(o, x);
            }
        }
        1 => {
            // one operation fails
            p.pct.insert(*r.pick(&OPS), *r.pick(&[20u64, 50, 80]));
        }
        2 => {
            // two cooperating failures
            for _ in 0..2 {
                p.pct.insert(*r.pick(&OPS), *r.pick(&[30u64, 60]));
            }
        }
        3 => {
            // a few single calls
            for _ in 0..r.range(1, 12) {
                p.nth.push(r.range(1, 150) as u64);
            }
        }
        _ => {
            // outage of writes or of reads
            for o in if r.chance(50) { ["push", "move", "remove", "upsert"] } else { ["get", "count", "read", "read"] } {
                p.pct.insert(o, 85);
            }
        }
    }
    p
}

#[derive(Debug, Clone, Default)]
struct Exp {
    uid: u64,
    /// values a run may have
    vals: Vec<i64>,
    min: usize,
    max: usize,
    cancelled: bool,
    /// a cancel met an error and was given up
    maybe_cancelled: bool,
    base: usize,
    later: bool,
    hist: Vec<String>,
}

async fn timed<T>(what: &str, f: impl std::future::Future<Output = T>) -> Res<T> {
    match tokio::time::timeout(std::time::Duration::from_secs(60), f).await {
        Ok(t) => Ok(t),
        Err(_) => viol!("{what} under backend errors has not returned for 60 s; panics {:?}", crate::panics()),
    }
}

async fn round<const N: usize>(r: &mut Rng, b: &Faulty, rd: u64, stats: &mut Stats, warmed: bool) -> Res {
    let cap = if warmed { r.range(1, 5) as usize } else { 20 };
    let mut exp: BTreeMap<String, Exp> = BTreeMap::new();
    let mut seq = vec![];
    // done jobs to retry by hand
    if warmed {
        set_cfg::<N>(cap, std::time::Duration::from_millis(1)).await?;
        for i in 0..r.range(0, 3) {
            let (id, uid) = (format!("f{rd}-{N}-d{i}"), next_uid());
            release(uid, None);
            let x = job::<N>(&id, P::new(uid, i).mode(Mode::Gate)).run().await;
            check!(x.is_ok(), "submission without fault refused: {x:?}");
            wait_status::<N>(&id, &[JobStatus::Finished]).await?;
            exp.insert(id, Exp { uid, vals: vec![i], base: 1, ..Default::default() });
        }
        flush::<N>().await?;
    }
    settle().await?;
    rec::reset_max(N);
    let mut p = plan(r);
    if !warmed {
        p.pct.remove("count");
    }
    let pd = format!("{:?} {:?}", p.pct, p.nth);
    b.plan.lock().unwrap().0 = Some(p);
    let n_ops = r.range(4, 22);
    for i in 0..n_ops {
        let keys: Vec<String> = exp.keys().cloned().collect();
        let what = r.below(100);
        if what < 50 || keys.is_empty() {
            // a new job: at once, or when the clock is moved
            let (id, uid) = (format!("f{rd}-{N}-{i}"), next_uid());
            let later = r.chance(55);
            let tries = *r.pick(&[1usize, 1, 3, 200]);
            let mut e = Exp { uid, max: 1, later, ..Default::default() };
            for t in 0..tries {
                let v = i * 1000 + t as i64;
                let mut j = job::<N>(&id, P::new(uid, v).mode(Mode::Gate));
                if later {
                    j = j.schedule_at(clock::dt(clock::now_us() + 5_000_000));
                }
                let x = match r.below(3) {
                    0 => timed("run", j.run()).await?.map(|_| ()),
                    1 => timed("add_job", AJ::add_job(j, P::<N>::queue_name())).await?.map(|_| ()),
                    _ => timed("enqueue_job", AJ::enqueue_job(j, EnqueueConfig::new_skip_if_finished(), P::<N>::queue_name())).await?.map(|_| ()),
                };
                e.hist.push(format!("submit {v} {}", if x.is_ok() { "Ok" } else { "Err" }));
                seq.push(("submit", x.is_ok()));
                match x {
                    Ok(()) => {
                        e.min = 1;
                        // an earlier attempt may have been stored and started already
                        if later {
                            e.vals = vec![v];
                        } else {
                            e.vals.push(v);
                        }
                        break;
                    }
                    Err(_) => e.vals.push(v),
                }
            }
            exp.insert(id, e);
        } else {
            let id = r.pick(&keys).clone();
            let e = exp.get_mut(&id).unwrap();
            if e.base == 1 {
                // manual retry of a done job
                for _ in 0..*r.pick(&[1usize, 2, 100]) {
                    let x = timed("retry_job", AJ::retry_job::<P<N>>(&id)).await?;
                    e.hist.push(format!("retry {x:?}"));
                    seq.push(("retry", x.is_ok()));
                    match x {
                        Ok(true) => {
                            e.min = 1;
                            e.max = 1;
                            break;
                        }
                        Ok(false) => break,
                        Err(_) => e.max = 1,
                    }
                }
            } else if e.later && e.min == 1 && !e.cancelled && !e.maybe_cancelled {
                if what < 78 {
                    let v = 900_000 + i;
                    for _ in 0..*r.pick(&[1usize, 3, 200]) {
                        let p = P::<N>::new(e.uid, v).mode(Mode::Gate);
                        let x = if r.chance(60) {
                            timed("update_job", AJ::update_job(&id, p, None)).await?
                        } else {
                            let j = job::<N>(&id, p).schedule_at(clock::dt(clock::now_us() + 5_000_000));
                            timed("run", j.run()).await?.map(|_| ())
                        };
                        e.hist.push(format!("update {v} {}", if x.is_ok() { "Ok" } else { "Err" }));
                        seq.push(("update", x.is_ok()));
                        if x.is_ok() {
                            e.vals = vec![v];
                            break;
                        }
                        e.vals.push(v);
                    }
                } else {
                    for _ in 0..*r.pick(&[1usize, 3, 200]) {
                        let x = timed("cancel_job", AJ::cancel_job::<P<N>>(id.clone())).await?;
                        e.hist.push(format!("cancel {}", if x.is_ok() { "Ok" } else { "Err" }));
                        seq.push(("cancel", x.is_ok()));
                        if x.is_ok() {
                            e.cancelled = true;
                            e.maybe_cancelled = false;
                            e.min = 0;
                            e.max = 0;
                            break;
                        }
                        e.maybe_cancelled = true;
                        e.min = 0;
                    }
                }
            }
        }
        if r.chance(40) {
            tokio::time::sleep(std::time::Duration::from_micros(r.range(100, 3000) as u64)).await;
        }
    }
    // let the engine pick under faults
    tokio::time::sleep(std::time::Duration::from_millis(r.range(2, 25) as u64)).await;
    let (_, most) = rec::open_of(N);
    check!(most <= cap as i64, "{most} jobs of a queue with limit {cap} were running together under backend errors ({pd})");
    let done = b.plan.lock().unwrap().0.take().unwrap();
    // the backend has recovered
    clock::advance_us(6_000_000);
    for e in exp.values() {
        open_gate(e.uid);
    }
    let runs = |id: &str| rec::cnt(N, id).start;
    for (id, e) in &exp {
        if e.min == 1 {
            let what = format!("accepted job {id} runs after the backend recovered (history {:?}, faults {pd}, failed {:?})", e.hist, done.failed);
            wait_for(&what, N, || rec::cnt(N, id).post >= e.base + 1).await?;
        }
    }
    flush::<N>().await?;
    flush::<N>().await?;
    let (_, most) = rec::open_of(N);
    check!(most <= cap as i64, "{most} jobs of a queue with limit {cap} were running together after backend errors ({pd})");
    for (id, e) in &exp {
        let n = runs(id) - e.base;
        let ctx = format!("history {:?}, faults {pd}, failed calls {:?}", e.hist, done.failed);
        check!(n >= e.min && n <= e.max, "job {id} was executed {n} times (without {} earlier), expected {}..={} ({ctx})", e.base, e.min, e.max);
        if n > 0 && e.base == 0 {
            let v = rec::with(|l| l.iter().rev().find_map(|x| match &x.k {
                K::Start { ty, id: i, val, .. } if *ty == N && i == id => Some(*val),
                _ => None,
            }));
            check!(v.map_or(false, |v| e.vals.contains(&v)), "job {id} ran with data {v:?}, expected one of {:?} ({ctx})", e.vals);
        }
        let st = status::<N>(id).await;
        if e.cancelled {
            check!(st == Some(JobStatus::Canceled), "job {id} whose cancel succeeded is {st:?} ({ctx})");
        } else if n > 0 {
            wait_status::<N>(id, &[JobStatus::Finished]).await?;
        }
        stats.evaluations += 1;
    }
    for (k, n) in &done.failed {
        stats.add(&format!("failed_{k}"), *n);
    }
    stats.add("backend_calls_under_fault", done.calls);
    stats.add("jobs", exp.len() as u64);
    stats.seen(&(seq.clone(), done.trace.clone()));
    stats.sample(json!({"round": rd, "faults": pd, "failed": done.failed, "calls": seq.iter().map(|(a, b)| format!("{a}:{}", if *b { "ok" } else { "err" })).collect::<Vec<_>>(), "limit": cap}));
    Ok(())
}

pub async fn run(a: &Args, stats: &mut Stats) -> Res {
    let mut r = Rng::new(a.seed);
    clock::set_us(base_time(&mut r));
    let b = Faulty { inner: Arc::new(InMemory::default()), plan: Arc::new(Mutex::new((None, Rng::new(a.seed ^ 0x55)))) };
    AJ::start(b.clone());
    // the very first submission of a type meets the faults
    round::<3>(&mut r, &b, 0, stats, false).await?;
    warm::<3>(20).await?;
    warm::<1>(20).await?;
    for rd in 0..6 * a.scale.max(1) {
        let x = if rd % 2 == 0 {
            round::<1>(&mut r, &b, rd + 1, stats, true).await
        } else {
            round::<3>(&mut r, &b, rd + 1, stats, true).await
        };
        if let Err(Fail::Violation(m)) = x {
            let mut lists = vec![];
            for q in [NAMES[1], NAMES[3]] {
                for st in ["Queued", "Running"] {
                    let l = b.inner.queue_get(&format!("{q}:queue:{st}"), 30, QueueDirection::Front);
                    lists.push(format!("{q} {st}: {l:?}"));
                }
            }
            viol!("{m}; lists {lists:?}");
        }
        x?;
    }
    Ok(())
}
