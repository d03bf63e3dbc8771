//! C09, C10, C12, C13: client calls racing the engine and each other.
use crate::probe::*;
use crate::rec::{self, K};
use crate::rng::Rng;
use crate::util::*;
use crate::{check, viol};
use aj_core::job::JobType;
use aj_core::{JobContext, JobStatus, AJ};
use serde_json::json;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn mode(r: &mut Rng) -> Mode {
    match r.below(4) {
        0 | 1 => Mode::Quick,
        2 => Mode::Yield(r.range(1, 6) as u32),
        _ => Mode::Sleep(r.range(1, 1500) as u64),
    }
}

fn jitter(r: &mut Rng) -> Duration {
    Duration::from_micros(*r.pick(&[0u64, 0, 0, 50, 200, 500, 900, 1100, 2000]))
}

/// C09: cancels racing the pick.
pub fn cancel(a: &Args, stats: &mut Stats) -> Res {
    let seed = a.seed;
    let mut rng = Rng::new(seed);
    block(warm::<0>(*rng.pick(&[1usize, 3, 20, 100])))?;
    for round in 0..a.scale.max(1) {
        let n = 40usize;
        let threads = rng.range(1, 4) as usize;
        let from = rec::len();
        // (id, cancelled and confirmed while nothing had started)
        let info: Arc<Mutex<HashMap<String, bool>>> = Default::default();
        let i2 = info.clone();
        let s = rng.next();
        all_ok(clients(threads, move |t| {
            let info = i2.clone();
            async move {
                let mut r = Rng::new(s ^ (t as u64 * 977));
                for i in 0..n {
                    let id = format!("c{round}-{t}-{i}");
                    let mut j = job::<0>(&id, P::<0>::new(next_uid(), 0).mode(mode(&mut r)));
                    let delayed = r.chance(40);
                    if delayed {
                        j = j.schedule_at(chrono::Utc::now() + chrono::Duration::microseconds(r.range(0, 3000)));
                    }
                    let res = j.run().await;
                    check!(res.is_ok(), "run -> {res:?}");
                    let d = jitter(&mut r);
                    if !d.is_zero() {
                        tokio::time::sleep(d).await;
                    }
                    let mut canceled_seen = false;
                    for _ in 0..r.range(1, 2) {
                        let c = AJ::cancel_job::<P<0>>(id.clone()).await;
                        check!(c.is_ok(), "cancel -> {c:?}");
                        // after a cancel that returned Ok, the job is not waiting any more
                        let st = status::<0>(&id).await;
                        match st {
                            None | Some(JobStatus::Queued) => viol!("job {id} is {st:?} after cancel_job returned Ok"),
                            Some(JobStatus::Canceled) => canceled_seen = true,
                            Some(s) => check!(!canceled_seen, "job {id} went from Canceled to {s:?} without a request"),
                        }
                    }
                    info.lock().unwrap().insert(id, canceled_seen);
                }
                Ok(())
            }
        }))?;
        block(async {
            tokio::time::sleep(Duration::from_millis(5)).await;
            flush::<0>().await?;
            let info = info.lock().unwrap().clone();
            let (mut c, mut r) = (0, 0);
            for (id, canceled) in &info {
                if *canceled {
                    let n = rec::cnt(0, id);
                    check!(n.pre == 0, "job {id} is Canceled but ran {} times", n.pre);
                    let st = status::<0>(id).await;
                    check!(st == Some(JobStatus::Canceled), "cancelled job {id} is {st:?}");
                    c += 1;
                } else {
                    wait_runs(0, "a job that was not cancelled runs", &[id.clone()], 1).await?;
                    wait_status::<0>(id, &[JobStatus::Finished]).await?;
                    let n = rec::cnt(0, id);
                    check!(n.pre == 1, "job {id} ran {} times", n.pre);
                    r += 1;
                }
            }
            stats.add("cancel_won", c);
            stats.add("run_won", r);
            stats.evaluations += c + r;
            Ok::<(), Fail>(())
        })?;
        stats.distinct.insert(interleaving_hash(from));
    }
    stats.sample(json!({"seed": seed, "cancel_won": stats.c.get("cancel_won"), "run_won": stats.c.get("run_won")}));
    Ok(())
}

fn ctx_of(id: &str, at: i64) -> JobContext {
    let mut c = JobContext::new(id.to_string());
    c.job_type = JobType::ScheduledAt(crate::clock::dt(at));
    c
}

/// C10: updates racing each other, cancels, and the engine.
pub fn update(a: &Args, stats: &mut Stats) -> Res {
    let seed = a.seed;
    let mut rng = Rng::new(seed);
    block(warm::<0>(*rng.pick(&[2usize, 20, 100])))?;
    let far = 4_000_000_000_000_000i64;
    for round in 0..a.scale.max(1) {
        // 1. a waiting job, concurrent updates with and without a context:
        // data updates must not take the new context away again
        for i in 0..6 {
            let id = format!("u{round}-{i}");
            let uid = next_uid();
            let res = block(job::<0>(&id, P::<0>::new(uid, 0)).schedule_at(crate::clock::dt(far)).run());
            check!(res.is_ok(), "run -> {res:?}");
            let threads = rng.range(2, 5) as usize;
            let with_cancel = rng.chance(40);
            let s = rng.next();
            let id2 = id.clone();
            let last: Arc<Mutex<Vec<i64>>> = Default::default();
            let last2 = last.clone();
            let reps = 6;
            let ctx_thread = threads; // one more
            all_ok(clients(threads + 1 + with_cancel as usize, move |t| {
                let (id, last) = (id2.clone(), last2.clone());
                async move {
                    let mut r = Rng::new(s ^ (t as u64 * 31337));
                    if t == ctx_thread {
                        let d = jitter(&mut r);
                        tokio::time::sleep(d).await;
                        let v = -(1 + t as i64);
                        let mut c = ctx_of(&id, far + 77);
                        if r.chance(30) {
                            c.job_id = format!("{id}-elsewhere");
                        }
                        let res = AJ::update_job::<P<0>>(&id, P::new(uid, v), Some(c)).await;
                        check!(res.is_ok(), "update -> {res:?}");
                    } else if t > ctx_thread {
                        tokio::time::sleep(jitter(&mut r)).await;
                        let c = AJ::cancel_job::<P<0>>(id.clone()).await;
                        check!(c.is_ok(), "cancel -> {c:?}");
                    } else {
                        let mut v = 0;
                        for k in 0..reps {
                            v = (t as i64 + 1) * 1000 + k;
                            let res = AJ::update_job::<P<0>>(&id, P::new(uid, v), None).await;
                            check!(res.is_ok(), "update -> {res:?}");
                            if r.chance(30) {
                                tokio::task::yield_now().await;
                            }
                        }
                        last.lock().unwrap().push(v);
                    }
                    Ok(())
                }
            }))?;
            let last = last.lock().unwrap().clone();
            block(async {
                let Some(j) = AJ::get_job::<P<0>>(&id).await else { viol!("job {id} vanished") };
                let ok = last.contains(&j.data.val) || j.data.val == -(1 + ctx_thread as i64);
                check!(ok, "after concurrent updates job {id} has data {}, the last one of nobody ({last:?})", j.data.val);
                check!(
                    j.context.job_type == JobType::ScheduledAt(crate::clock::dt(far + 77)),
                    "the schedule set by an update is lost: {:?}",
                    j.context.job_type
                );
                // an update after the cancel makes the job run again (it was done),
                // so both ends are legal here, but nothing in between
                let st = j.context.job_status;
                check!(st == JobStatus::Queued || (with_cancel && st == JobStatus::Canceled), "job {id} is {st:?}");
                // let it run now: once, with what was reported
                let c = ctx_of(&id, 1_000_000);
                let want = j.data.val;
                let res = AJ::update_job::<P<0>>(&id, P::new(uid, want), Some(c)).await;
                check!(res.is_ok(), "update -> {res:?}");
                wait_runs(0, "updated job runs", &[id.clone()], 1).await?;
                flush::<0>().await?;
                let s = rec::starts_of(&id);
                check!(s.len() == 1 && s[0].1 == want, "job {id} ran {s:?}, expected once with {want}");
                stats.evaluations += 1;
                stats.seen(&(threads, with_cancel, st as u8, want));
                Ok::<(), Fail>(())
            })?;
        }
        // 2. updates racing runs: every update of a waiting or done job is
        // followed by a run that sees it or a later one; run numbers never repeat
        let ids: Vec<String> = (0..8).map(|i| format!("ur{round}-{i}")).collect();
        let uids: Vec<u64> = ids.iter().map(|_| next_uid()).collect();
        let from = rec::len();
        let (ids2, uids2) = (ids.clone(), uids.clone());
        let s = rng.next();
        all_ok(clients(ids.len(), move |t| {
            let (id, uid) = (ids2[t].clone(), uids2[t]);
            async move {
                let mut r = Rng::new(s ^ (t as u64 * 7));
                let mut v = 0;
                let res = job::<0>(&id, P::<0>::new(uid, v).mode(mode(&mut r))).run().await;
                check!(res.is_ok(), "run -> {res:?}");
                for _ in 0..8 {
                    tokio::time::sleep(jitter(&mut r)).await;
                    v += 1;
                    let before = rec::len();
                    let st0 = status::<0>(&id).await;
                    let open0 = rec::cnt(0, &id);
                    let res = AJ::update_job::<P<0>>(&id, P::new(uid, v).mode(mode(&mut r)), None).await;
                    check!(res.is_ok(), "update -> {res:?}");
                    // reached a done job for certain: it was done before, and nobody else acts on it
                    if st0.map_or(false, |s| s == JobStatus::Finished) && open0.open() == 0 {
                        let vv = v;
                        let idc = id.clone();
                        wait_for(&format!("a completed job that was updated runs again with the new data ({id}, {vv})"), 0, || {
                            rec::with(|l| l[before..].iter().any(|e| matches!(&e.k, K::Start{id: i, val, ..} if *i == idc && *val == vv)))
                        })
                        .await?;
                    }
                }
                Ok(())
            }
        }))?;
        block(async {
            flush::<0>().await?;
            for id in &ids {
                wait_status::<0>(id, &[JobStatus::Finished]).await?;
            }
            flush::<0>().await?;
            for id in &ids {
                let s = rec::starts_of(id);
                for w in s.windows(2) {
                    check!(w[1].0 == w[0].0 + 1, "runs of {id} are numbered {:?}", s.iter().map(|x| x.0).collect::<Vec<_>>());
                    check!(w[1].1 > w[0].1, "job {id} ran twice with the data of one request: {s:?}");
                }
                let j = AJ::get_job::<P<0>>(id).await;
                let Some(j) = j else { viol!("job {id} vanished") };
                check!(j.context.job_status == JobStatus::Finished, "job {id} is {:?} at rest", j.context.job_status);
                check!(Some(&j.data.val) == s.last().map(|x| &x.1), "completed job {id} reports data {} but last ran with {:?}", j.data.val, s.last());
                stats.evaluations += 1;
            }
            let o = rec::self_overlaps();
            check!(o.is_empty(), "in progress twice: {o:?}");
            Ok::<(), Fail>(())
        })?;
        stats.distinct.insert(interleaving_hash(from));
    }
    stats.sample(json!({"seed": seed}));
    Ok(())
}

/// C12: concurrent manual retries.
pub fn retry(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    block(warm::<0>(*rng.pick(&[1usize, 3, 50])))?;
    for round in 0..a.scale.max(1) {
        let id = format!("mr{round}");
        let uid = next_uid();
        let how = rng.below(3); // Finished, Failed, Canceled
        block(async {
            let mut p = P::<0>::new(uid, 5).mode(Mode::Gate);
            p.fail = vec![how == 1];
            let mut j = job::<0>(&id, p);
            if how == 2 {
                j = j.schedule_at(chrono::Utc::now() + chrono::Duration::days(1));
            } else {
                release(uid, None);
            }
            let r = j.run().await;
            check!(r.is_ok(), "run -> {r:?}");
            match how {
                0 => drop(wait_status::<0>(&id, &[JobStatus::Finished]).await?),
                1 => drop(wait_status::<0>(&id, &[JobStatus::Failed]).await?),
                _ => {
                    let c = AJ::cancel_job::<P<0>>(id.clone()).await;
                    check!(c.is_ok(), "cancel -> {c:?}");
                }
            }
            Ok::<(), Fail>(())
        })?;
        let mut runs = rec::cnt(0, &id).start;
        for wave in 0..3 {
            let threads = rng.range(2, 8) as usize;
            let per = rng.range(1, 4) as usize;
            let yes = Arc::new(Mutex::new(0usize));
            let (y2, id2) = (yes.clone(), id.clone());
            all_ok(clients(threads, move |_| {
                let (y, id) = (y2.clone(), id2.clone());
                async move {
                    for _ in 0..per {
                        match AJ::retry_job::<P<0>>(&id).await {
                            Ok(true) => *y.lock().unwrap() += 1,
                            Ok(false) => {}
                            Err(e) => viol!("retry_job -> {e:?}"),
                        }
                    }
                    Ok(())
                }
            }))?;
            let yes = *yes.lock().unwrap();
            check!(yes == 1, "{} concurrent manual retries of a {} job: {yes} returned true", threads * per, ["finished", "failed", "cancelled"][how as usize]);
            block(async {
                if how == 2 && wave == 0 {
                    // its schedule still holds
                    flush::<0>().await?;
                    check!(rec::cnt(0, &id).start == 0, "a retried job ran before its time");
                    let mut c = ctx_of(&id, 1_000_000);
                    c.run_count = 0;
                    let u = AJ::update_job::<P<0>>(&id, P::new(uid, 5).mode(Mode::Gate), Some(c)).await;
                    check!(u.is_ok(), "update -> {u:?}");
                }
                runs += 1;
                wait_for("the retried job runs again", 0, || rec::cnt(0, &id).start >= runs).await?;
                // while it runs: nothing to retry
                let r = AJ::retry_job::<P<0>>(&id).await;
                check!(matches!(r, Ok(false)), "retry_job of a running job -> {r:?}");
                release(uid, None);
                wait_status::<0>(&id, &[JobStatus::Finished, JobStatus::Failed]).await?;
                flush::<0>().await?;
                let c = rec::cnt(0, &id);
                check!(c.start == runs, "{yes} granted retry added {} runs", c.start + 1 - runs);
                let s = rec::starts_of(&id);
                check!(s.iter().all(|x| x.1 == 5), "data changed over retries: {s:?}");
                check!(s.iter().enumerate().all(|(i, x)| x.0 == i + 1), "run count over retries: {s:?}");
                stats.evaluations += 1;
                stats.seen(&(threads, per, how, wave));
                Ok::<(), Fail>(())
            })?;
        }
        block(async {
            let r = AJ::retry_job::<P<0>>("never-submitted").await;
            check!(matches!(r, Ok(false)), "retry_job of an unknown id -> {r:?}");
            Ok::<(), Fail>(())
        })?;
    }
    stats.sample(json!({"seed": a.seed}));
    Ok(())
}

/// C13: what pollers see while the engine works.
pub fn truth(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    block(warm::<0>(*rng.pick(&[2usize, 5, 50])))?;
    let stop = Arc::new(AtomicBool::new(false));
    let n = 30usize;
    let ids: Arc<Vec<String>> = Arc::new((0..n).map(|i| format!("t{i}")).collect());
    let subm: Arc<Mutex<HashMap<String, i64>>> = Default::default();
    let polls = Arc::new(Mutex::new((0u64, 0u64, 0u64)));
    let s = rng.next();
    let (i2, st2, su2, p2) = (ids.clone(), stop.clone(), subm.clone(), polls.clone());
    let scale = a.scale.max(1);
    let pollers = 3usize;
    all_ok(clients(pollers + 1, move |t| {
        let (ids, stop, subm, polls) = (i2.clone(), st2.clone(), su2.clone(), p2.clone());
        async move {
            let mut r = Rng::new(s ^ (t as u64 * 65537));
            if t == pollers {
                struct Stop(Arc<AtomicBool>);
                impl Drop for Stop {
                    fn drop(&mut self) {
                        self.0.store(true, Ordering::SeqCst);
                    }
                }
                let _g = Stop(stop);
                for _ in 0..scale {
                    let mut base: HashMap<String, usize> = HashMap::new();
                    for id in ids.iter() {
                        base.insert(id.clone(), rec::cnt(0, id).pre);
                        let mut p = P::<0>::new(next_uid(), 0).mode(match r.below(7) {
                            0..=1 => Mode::Quick,
                            2..=3 => Mode::Yield(4),
                            4 => Mode::Panic(vec![r.range(1, 2) as usize]),
                            _ => Mode::Sleep(r.range(200, 6000) as u64),
                        });
                        p.fail = vec![r.chance(50), r.chance(50), r.chance(20)];
                        let mut j = job::<0>(id, p);
                        if r.chance(60) {
                            j = j.retry(aj_core::Retry::new_interval_retry(Some(r.range(1, 3) as i32), chrono::Duration::microseconds(r.range(1, 3000))));
                        }
                        subm.lock().unwrap().entry(id.clone()).or_insert(crate::clock::now_us() / 1000);
                        let res = j.run().await;
                        check!(res.is_ok(), "run -> {res:?}");
                        if r.chance(20) {
                            tokio::time::sleep(Duration::from_millis(2)).await;
                        }
                    }
                    for id in ids.iter() {
                        wait_status::<0>(id, &[JobStatus::Finished, JobStatus::Failed]).await?;
                    }
                    flush::<0>().await?;
                    // at rest: nothing changes what is reported
                    for id in ids.iter() {
                        let c = rec::cnt(0, id);
                        check!(c.open() == 0, "job {id} reported done while a run is in progress");
                        let n = c.pre - base[id];
                        let j = AJ::get_job::<P<0>>(id).await;
                        check!(j.as_ref().map(|j| j.context.run_count) == Some(n), "job {id} at rest made {n} runs, reported {:?}", j.map(|j| j.context));
                    }
                }
                return Ok(());
            }
            while !stop.load(Ordering::SeqCst) {
                let id = &ids[r.below(ids.len() as u64) as usize];
                let c0 = rec::cnt(0, id);
                let t0 = crate::clock::now_us();
                let j = AJ::get_job::<P<0>>(id).await;
                let t1 = crate::clock::now_us();
                let c1 = rec::cnt(0, id);
                let mut g = polls.lock().unwrap();
                g.0 += 1;
                let Some(j) = j else {
                    check!(c0.pre == 0, "job {id} has run but get_job finds nothing");
                    continue;
                };
                let x = &j.context;
                check!(x.job_id == *id, "get_job({id}) returned {}", x.job_id);
                // one run in progress through the whole poll
                if c0.open() == 1 && c1 == c0 {
                    g.1 += 1;
                    check!(x.job_status == JobStatus::Running, "job {id} is reported {:?} while a run is in progress", x.job_status);
                    check!(x.run_at.is_some(), "a running job has no run time");
                }
                // never started: not done
                if c1.pre == 0 {
                    check!(matches!(x.job_status, JobStatus::Queued | JobStatus::Running), "job {id} is {:?} before it ever ran", x.job_status);
                }
                let ms = |v: Option<i64>| v.unwrap_or(0);
                check!(ms(x.enqueue_at) <= t1 / 1000 && ms(x.run_at) <= t1 / 1000 && ms(x.complete_at) <= t1 / 1000, "a time in the future: {x:?} at {t0}..{t1}");
                check!(x.enqueue_at.is_some(), "no enqueue time: {x:?}");
                if matches!(x.job_status, JobStatus::Finished | JobStatus::Failed) {
                    g.2 += 1;
                    check!(x.complete_at.is_some() && x.run_at.is_some(), "a completed job without its times: {x:?}");
                    check!(ms(x.enqueue_at) <= ms(x.run_at) && ms(x.run_at) <= ms(x.complete_at), "times out of order: {x:?}");
                    check!(x.run_count >= 1 && x.run_count <= c1.pre, "run count {} with {} runs made", x.run_count, c1.pre);
                }
                check!(x.run_count <= c1.pre, "run count {} but only {} runs were started", x.run_count, c1.pre);
                drop(g);
                // a client, not a flood: the queue's thread also has jobs to run
                std::thread::sleep(Duration::from_micros(r.range(20, 400) as u64));
            }
            Ok(())
        }
    }))?;
    let g = polls.lock().unwrap();
    stats.add("polls", g.0);
    stats.add("polls_during_a_run", g.1);
    stats.add("polls_of_completed", g.2);
    stats.evaluations += g.0;
    stats.distinct.insert(interleaving_hash(0));
    Ok(())
}
