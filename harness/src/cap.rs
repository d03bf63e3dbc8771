//! C03: the limit of a queue, and C04: order and starvation.
use crate::probe::*;
use crate::rec::{self, K};
use crate::rng::Rng;
use crate::util::*;
use crate::{check, clock};
use aj_core::job::{CronContext, JobType};
use aj_core::{BackgroundJob, Job, JobContext, Retry, WorkQueueConfig, AJ};
use serde_json::json;
use std::collections::{BTreeMap, VecDeque};
use std::time::Duration;

async fn settle(k: usize) -> Res {
    // real ticks pass on the queue's own thread
    for _ in 0..4 {
        tokio::time::sleep(Duration::from_millis(2)).await;
        if let Alive::Dead(e) = ping(k).await {
            return Err(Fail::Violation(format!("the queue has died ({e}); panics {:?}", crate::panics())));
        }
    }
    Ok(())
}

fn running_uids(ty: usize, from: usize) -> Vec<u64> {
    rec::with(|l| {
        let mut v: Vec<u64> = vec![];
        for e in &l[from..] {
            match &e.k {
                K::Start { ty: t, uid, .. } if *t == ty => v.push(*uid),
                K::End { ty: t, uid, .. } | K::Abort { ty: t, uid, .. } if *t == ty => v.retain(|u| u != uid),
                _ => {}
            }
        }
        v
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Ok,
    Fail,
    Retry,
    Panic,
    Cron,
}

/// Random walk: submissions, ends of runs of every kind, limit changes; at
/// every quiescent point the number of runs in progress is exactly
/// max(running, min(limit, running + ready)).
pub async fn walk(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    clock::set_us(base_time(&mut rng));
    warm::<0>(3).await?;
    let mut limit = 3usize;
    let mut seg = rec::len();
    let mut kinds: BTreeMap<u64, End> = BTreeMap::new();
    let mut waiting = 0usize;
    let mut running: Vec<u64> = vec![];
    let mut trace = vec![];
    let steps = a.n("steps", 60);
    let mut hist = vec![];
    let start = seg;
    let mut gone: std::collections::HashSet<u64> = Default::default();
    let big_at = rng.range(5, steps.max(6) as i64 - 1) as u64;
    for step in 0..steps {
        let op = if step == big_at { 3 } else { rng.weighted(&[30, 45, 12]) };
        match op {
            0 => {
                let n = rng.range(1, 6);
                for _ in 0..n {
                    let uid = next_uid();
                    let e = *rng.pick(&[End::Ok, End::Ok, End::Fail, End::Retry, End::Panic, End::Cron]);
                    let mut p = P::<0>::new(uid, 0).mode(if e == End::Panic { Mode::GatePanic } else { Mode::Gate });
                    if matches!(e, End::Fail | End::Retry) {
                        p.fail = vec![true];
                    }
                    let mut j = Job::new(p);
                    if e == End::Retry {
                        // waits for a retry time that does not come in this run
                        j = j.retry(Retry::new_interval_retry(Some(1), chrono::Duration::days(400)));
                    }
                    if e == End::Cron {
                        let ctx = CronContext { tick_number: 0, max_repeat: None, end_at: None, ..Default::default() };
                        let t = JobType::Cron("0 0 0 1 1 * *".into(), clock::dt(clock::now_us() - 1), 1, ctx);
                        j = j.job_type(t);
                    }
                    kinds.insert(uid, e);
                    let r = j.run().await;
                    check!(r.is_ok(), "submission refused: {r:?}");
                    waiting += 1;
                }
                trace.push(format!("submit{n}"));
            }
            1 if !running.is_empty() => {
                let n = rng.range(1, running.len().min(4) as i64) as usize;
                for _ in 0..n {
                    let i = rng.below(running.len() as u64) as usize;
                    let uid = running.swap_remove(i);
                    release(uid, None);
                    gone.insert(uid);
                    trace.push(format!("end{:?}", kinds[&uid]));
                }
                // slots come back, however the run ended
            }
            2 => {
                limit = *rng.pick(&[0usize, 1, 1, 2, 3, 4, 5, 8, 12, 20, 40]);
                let tick = Duration::from_micros(*rng.pick(&[500u64, 1000, 2000]));
                let r = AJ::update_work_queue::<P<0>>(WorkQueueConfig { process_tick_duration: tick, max_processing_jobs: limit }).await;
                check!(r.is_ok(), "update_work_queue -> {r:?}");
                seg = rec::len();
                trace.push(format!("limit{limit}"));
            }
            3 => {
                // far beyond the default limit
                limit = if a.seed % 6 == 2 { rng.range(520, 1040) as usize } else { *rng.pick(&[33usize, 65, 101, 130, 257]) };
                let cfg = WorkQueueConfig { process_tick_duration: Duration::from_millis(1), max_processing_jobs: limit };
                let r = AJ::update_work_queue::<P<0>>(cfg).await;
                check!(r.is_ok(), "update_work_queue -> {r:?}");
                seg = rec::len();
                let n = limit + 10 - running.len().min(limit);
                for _ in 0..n {
                    let uid = next_uid();
                    kinds.insert(uid, End::Ok);
                    let r = Job::new(P::<0>::new(uid, 0).mode(Mode::Gate)).run().await;
                    check!(r.is_ok(), "submission refused: {r:?}");
                    waiting += 1;
                }
                trace.push(format!("submit{n}limit{limit}"));
            }
            _ => continue,
        }
        let base = running.len();
        let want = base.max(limit.min(base + waiting));
        let fresh = want - base;
        let r = wait_for(&format!("step {step}: {want} runs in progress (limit {limit}, {base} running, {waiting} ready)"), 0, || {
            // a run that was let go counts no more
            running_uids(0, start).iter().filter(|u| !gone.contains(u)).count() >= want
        })
        .await;
        if let Err(Fail::Violation(v)) = r {
            return Err(Fail::Violation(format!("{v}; {} in progress; steps {trace:?}", running_uids(0, start).len())));
        }
        r?;
        settle(0).await?;
        running = running_uids(0, start);
        check!(running.len() == want, "step {step}: {} runs in progress, limit {limit}, {base} were running, {waiting} ready; steps {trace:?}", running.len());
        waiting -= fresh;
        // no start of this segment may have seen more than `limit` in progress
        let worst = rec::with(|l| {
            let mut open = 0i64;
            let mut worst = 0i64;
            for e in &l[start..] {
                match &e.k {
                    K::Pre { ty: 0, .. } => {
                        open += 1;
                        if e.seq >= seg {
                            worst = worst.max(open);
                        }
                    }
                    K::Post { ty: 0, .. } | K::Abort { ty: 0, .. } => open -= 1,
                    _ => {}
                }
            }
            worst
        });
        check!(worst <= limit as i64, "a run started as number {worst} while the limit was {limit}; steps {trace:?}");
        hist.push((limit, want));
        stats.evaluations += 1;
        stats.seen(&(limit, base, waiting, want, op));
    }
    stats.add("steps", steps);
    stats.max("max_runs_in_progress", rec::open_of(0).1 as u64);
    stats.sample(json!({"seed": a.seed, "first_steps": trace.iter().take(20).collect::<Vec<_>>(), "limit_and_in_progress": hist.iter().take(20).collect::<Vec<_>>()}));
    Ok(())
}

/// Many short jobs and retries under a limit, real concurrency of submitters.
pub fn storm(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    let limit = rng.range(1, 12) as usize;
    let default = rng.chance(25);
    let limit = if default { 20 } else { limit };
    block(async {
        canary::<0>().await?;
        if !default {
            set_cfg::<0>(limit, Duration::from_millis(1)).await?;
        }
        Ok(())
    })?;
    rec::reset_max(0);
    let seed = a.seed;
    let per = if default { 25 } else { a.n("jobs", 80) as usize };
    all_ok(clients(4, move |t| async move {
        let mut r = Rng::new(seed ^ ((t as u64) << 33));
        for i in 0..per {
            let mut p = P::<0>::new(next_uid(), 0);
            p.mode = match r.below(6) {
                0 => Mode::Quick,
                1 => Mode::Yield(5),
                2 => Mode::Panic(vec![2]),
                _ => Mode::Sleep(r.range(100, 6000) as u64),
            };
            p.fail = vec![r.chance(40), r.chance(30), false];
            let mut j = job::<0>(&format!("s{t}-{i}"), p);
            if r.chance(60) {
                j = j.retry(Retry::new_interval_retry(Some(3), chrono::Duration::microseconds(r.range(0, 3000))));
            }
            let res = j.run().await;
            check!(res.is_ok(), "run -> {res:?}");
        }
        Ok(())
    }))?;
    let ids: Vec<String> = (0..4).flat_map(|t| (0..per).map(move |i| format!("s{t}-{i}"))).collect();
    block(async {
        let mut left: Vec<&String> = ids.iter().collect();
        wait_for("all jobs run", 0, || {
            left.retain(|i| rec::cnt(0, i).pre == 0);
            left.is_empty()
        })
        .await?;
        settle(0).await
    })?;
    let max = rec::open_of(0).1;
    check!(max <= limit as i64, "{max} runs in progress together, the limit is {limit}");
    stats.evaluations += 1;
    stats.max("max_runs_in_progress", max as u64);
    stats.add("storm_jobs", ids.len() as u64);
    stats.distinct.insert(interleaving_hash(0));
    Ok(())
}

/// C04: order of starts.
pub async fn fifo(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    clock::set_us(base_time(&mut rng));
    warm::<0>(3).await?;
    warm::<1>(20).await?;
    for round in 0..a.scale.max(1) {
        let cap = *rng.pick(&[1usize, 1, 1, 2, 3, 5, 20]);
        set_cfg::<0>(0, Duration::from_millis(1)).await?;
        let n = rng.range(5, 120) as usize;
        let futures_ = if rng.chance(60) { rng.range(1, 70) as usize } else { 0 };
        let mut order: VecDeque<u64> = VecDeque::new();
        let mut later: Vec<u64> = vec![];
        let from = rec::len();
        let live = rng.chance(50);
        if live {
            set_cfg::<0>(cap, Duration::from_millis(1)).await?;
        }
        let pf = futures_ * 100 / (n + futures_);
        let mut all: Vec<u64> = vec![];
        let mut ids: Vec<String> = vec![];
        let mut touched = 0u64;
        let mut left = n;
        let mut fl = futures_;
        while left > 0 {
            let uid = next_uid();
            if fl > 0 && rng.chance(pf as u64) {
                fl -= 1;
                let r = Job::new(P::<0>::new(uid, 0)).schedule_at(clock::dt(clock::now_us()) + chrono::Duration::days(30)).run().await;
                check!(r.is_ok(), "submission refused: {r:?}");
                later.push(uid);
                continue;
            }
            left -= 1;
            let mut j = Job::new(P::<0>::new(uid, 0).mode(Mode::Gate));
            match rng.below(4) {
                0 => j = j.schedule_at(clock::dt(clock::now_us() - 1)),
                1 => j = j.schedule_at(clock::dt(clock::now_us()) - chrono::Duration::days(10)),
                _ => {}
            }
            let r = j.run().await;
            check!(r.is_ok(), "submission refused: {r:?}");
            order.push_back(uid);
            all.push(uid);
            ids.push(r.unwrap_or_default());
        }
        if !live && rng.chance(60) {
            // changing what waits moves nothing
            for _ in 0..rng.range(1, 8) {
                let i = rng.below(all.len() as u64) as usize;
                let p = P::<0>::new(all[i], 1).mode(Mode::Gate);
                match rng.below(4) {
                    0 => {
                        let r = AJ::update_job::<P<0>>(&ids[i], p, None).await;
                        check!(r.is_ok(), "update -> {r:?}");
                    }
                    1 => {
                        let r = AJ::update_job::<P<0>>(&ids[i], p, Some(JobContext::new(ids[i].clone()))).await;
                        check!(r.is_ok(), "update -> {r:?}");
                    }
                    2 => {
                        let r = job::<0>(&ids[i], p).run().await;
                        check!(r.is_ok(), "run -> {r:?}");
                    }
                    _ if all.len() > 3 => {
                        let r = AJ::cancel_job::<P<0>>(ids.remove(i)).await;
                        check!(r.is_ok(), "cancel -> {r:?}");
                        all.remove(i);
                        order.remove(i);
                    }
                    _ => {}
                }
                touched += 1;
            }
        }
        let n = all.len();
        if !live {
            set_cfg::<0>(cap, Duration::from_millis(1)).await?;
        }
        let mut done = 0usize;
        let mut held: Vec<u64> = vec![];
        let mut nstart = 0usize;
        while done < n {
            let want = (held.len() + (cap - held.len()).min(n - nstart)).max(held.len());
            let target = nstart + want - held.len();
            wait_for(&format!("{target} jobs started in order"), 0, || starts(from).len() >= target).await?;
            let s = starts(from);
            // with a limit of one the order is exact; with n, a job is passed by fewer than n later ones
            for (i, u) in s.iter().enumerate() {
                let pos = all.iter().position(|x| x == u);
                let Some(pos) = pos else {
                    return Err(Fail::Violation(format!("a job that is not due started (limit {cap})")));
                };
                check!(
                    if cap == 1 { pos == i } else { pos.abs_diff(i) < cap },
                    "round {round}: start number {i} is the job submitted as number {pos} of {n} (limit {cap}, {} not-yet-due jobs in the queue)",
                    later.len()
                );
            }
            for u in &s[nstart..] {
                held.push(*u);
            }
            // at a quiescent point the started set is the set of the first submitted
            let mut got: Vec<usize> = s.iter().map(|u| all.iter().position(|x| x == u).unwrap()).collect();
            got.sort();
            check!(got.iter().enumerate().all(|(i, p)| i == *p), "round {round}: {} started, but they are not the first submitted: {got:?} (limit {cap})", s.len());
            nstart = s.len();
            let k = rng.range(1, held.len() as i64) as usize;
            for _ in 0..k {
                let u = held.swap_remove(rng.below(held.len() as u64) as usize);
                release(u, None);
                done += 1;
            }
        }
        stats.evaluations += 1;
        stats.seen(&(cap, n, later.len(), live));
        stats.add("ordered_starts", n as u64);
        stats.add("changes_while_waiting", touched);
        stats.max("max_backlog", n as u64);
        stats.max("max_not_due_in_queue", later.len() as u64);
        // the not-yet-due jobs come in submission order too once they are due together
        set_cfg::<0>(30, Duration::from_millis(1)).await?;
        if !later.is_empty() {
            clock::advance_us(31 * 86_400_000_000);
            let from2 = rec::len();
            wait_for("jobs run once they are due", 0, || starts(from2).len() >= later.len()).await?;
        }
        stats.sample(json!({"seed": a.seed, "round": round, "limit": cap, "jobs": n, "not_due": later.len(), "submitted_while_running": live}));
    }
    Ok(())
}

/// C05: the tick set with update_work_queue is the one the queue works with.
/// How long a ready job waits in a queue that has been idle for many ticks, and
/// what a timer of one tick takes meanwhile.
async fn after_idle<const N: usize>(tick: Duration, rounds: usize) -> Res<Vec<(Duration, Duration)>> {
    canary::<N>().await?;
    set_cfg::<N>(5, tick).await?;
    flush::<N>().await?;
    let mut v = vec![];
    for i in 0..rounds {
        tokio::time::sleep(tick * (250 - 60 * i as u32) + Duration::from_micros(3_100 * i as u64)).await;
        let (uid, from, t) = (next_uid(), rec::len(), std::time::Instant::now());
        let began = || rec::with(|l| l[from..].iter().any(|e| matches!(&e.k, K::Start { uid: u, .. } if *u == uid)));
        let r = P::<N>::new(uid, 0).job().run().await;
        check!(r.is_ok(), "run -> {r:?}");
        while !began() {
            if t.elapsed() > Duration::from_secs(3) {
                wait_for("a ready job runs in a queue that was idle", N, began).await?;
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        let lat = t.elapsed();
        let t = std::time::Instant::now();
        tokio::time::sleep(tick).await;
        v.push((lat, t.elapsed()));
    }
    Ok(v)
}

async fn idle(stats: &mut Stats) -> Res {
    let tick = Duration::from_millis(10);
    let mut slow = vec![];
    for _ in 0..3 {
        let (a, b, c, d) = tokio::join!(after_idle::<0>(tick, 3), after_idle::<1>(tick, 3), after_idle::<2>(tick, 3), after_idle::<3>(tick, 3));
        let all: Vec<_> = [a?, b?, c?, d?].concat();
        let (mut lat, mut ctl): (Vec<_>, Vec<_>) = all.into_iter().unzip();
        lat.sort();
        ctl.sort();
        stats.evaluations += 12;
        stats.max("median_latency_after_idling_us", lat[5].as_micros() as u64);
        if lat[5] <= 5 * ctl[9] + Duration::from_millis(10) {
            return Ok(());
        }
        slow.push(format!("after some two hundred idle ticks of 10 ms half of the ready jobs waited at least {:?}, a timer of 10 ms takes {:?}", lat[5], ctl[9]));
    }
    Err(Fail::Violation(slow.remove(0)))
}

pub async fn tick(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    canary::<0>().await?;
    let mut slow = vec![];
    for round in 0..3 {
        let ms = *rng.pick(&[2u64, 3, 5]);
        let tick = Duration::from_millis(ms);
        set_cfg::<0>(*rng.pick(&[1usize, 4, 20]), tick).await?;
        flush::<0>().await?;
        let (mut lat, mut ctl) = (vec![], vec![]);
        for _ in 0..25 {
            let t = std::time::Instant::now();
            tokio::time::sleep(tick).await;
            ctl.push(t.elapsed());
            let uid = next_uid();
            let from = rec::len();
            let t = std::time::Instant::now();
            let mut j = P::<0>::new(uid, 0).job();
            if rng.chance(50) {
                j = j.schedule_at(chrono::Utc::now());
            }
            let r = j.run().await;
            check!(r.is_ok(), "run -> {r:?}");
            while !starts(from).contains(&uid) {
                if t.elapsed() > Duration::from_millis(1500) {
                    wait_for("a ready job runs", 0, || starts(from).contains(&uid)).await?;
                }
                tokio::time::sleep(Duration::from_micros(300)).await;
            }
            lat.push(t.elapsed());
        }
        lat.sort();
        ctl.sort();
        stats.evaluations += 25;
        stats.max("quartile_latency_us", lat[6].as_micros() as u64);
        stats.seen(&(round, a.seed));
        // the faster quarter of the waits: a loaded machine slows all of the controls too
        if lat[6] > 8 * ctl[12] + Duration::from_millis(10) {
            slow.push(format!("with a tick of {ms} ms a quarter of the ready jobs waited at least {:?}, most of them {:?} (a timer of {ms} ms in this process takes {:?})", lat[6], lat[12], ctl[12]));
        }
    }
    // once can be the machine; every time is the code
    if slow.len() == 3 {
        return Err(Fail::Violation(slow.remove(0)));
    }
    // extreme settings
    for (limit, tick) in [(usize::MAX, Duration::ZERO), (1, Duration::from_nanos(1)), (usize::MAX - 1, Duration::from_micros(200))] {
        set_cfg::<0>(limit, tick).await?;
        let from = rec::len();
        let n = rng.range(1, 60) as usize;
        for _ in 0..n {
            let r = P::<0>::new(next_uid(), 0).job().run().await;
            check!(r.is_ok(), "run -> {r:?}");
        }
        wait_for(&format!("jobs run with a limit of {limit} and a tick of {tick:?}"), 0, || starts(from).len() >= n).await?;
        flush::<0>().await?;
        check!(starts(from).len() == n + 2, "{} jobs, {} runs", n + 2, starts(from).len());
        stats.evaluations += 1;
    }
    // settings renewed more often than the queue ticks put nothing off
    for ms in [120u64, 400] {
        let tick = Duration::from_millis(ms);
        set_cfg::<0>(4, tick).await?;
        let from = rec::len();
        let uid = next_uid();
        let r = P::<0>::new(uid, 0).job().delay(chrono::Duration::milliseconds(rng.range(1, 60))).run().await;
        check!(r.is_ok(), "run -> {r:?}");
        let (t, b) = (std::time::Instant::now(), beats());
        let mut renewed = 0;
        while !starts(from).contains(&uid) {
            let r = AJ::update_work_queue::<P<0>>(WorkQueueConfig { process_tick_duration: tick, max_processing_jobs: rng.range(1, 9) as usize }).await;
            check!(r.is_ok(), "update_work_queue -> {r:?}");
            renewed += 1;
            tokio::time::sleep(Duration::from_millis(rng.range(5, ms as i64 / 4) as u64)).await;
            if t.elapsed().as_millis() as u64 > stall_ms() && beats() - b > stall_ms() / 16 {
                return Err(Fail::Violation(format!("with a tick of {tick:?} a job that is due has not started after {:?}, while update_work_queue was called {renewed} times", t.elapsed())));
            }
        }
        stats.evaluations += 1;
    }
    // a shorter tick does not wait for the end of the long one it replaces
    for secs in [20u64, 3600] {
        set_cfg::<0>(4, Duration::from_secs(secs)).await?;
        for _ in 0..rng.below(4) {
            tokio::time::sleep(Duration::from_millis(rng.below(120))).await;
        }
        let from = rec::len();
        let uid = next_uid();
        let before = rng.chance(50);
        let mut j = P::<0>::new(uid, 0).job();
        if rng.chance(50) {
            j = j.delay(chrono::Duration::milliseconds(30));
        }
        if !before {
            set_cfg::<0>(4, Duration::from_millis(3)).await?;
        }
        let r = j.run().await;
        check!(r.is_ok(), "run -> {r:?}");
        if before {
            set_cfg::<0>(4, Duration::from_millis(3)).await?;
        }
        wait_for(&format!("a ready job runs after the tick was changed from {secs} s to 3 ms"), 0, || starts(from).contains(&uid)).await?;
        stats.evaluations += 1;
    }
    stats.sample(json!({"seed": a.seed, "slow_rounds": slow}));
    idle(stats).await
}

/// Tens of thousands of jobs that are not due, and a ready one.
pub async fn bulk(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    clock::set_us(base_time(&mut rng));
    warm::<0>(3).await?;
    let n: usize = a.s("jobs", "34000").parse().expect("jobs");
    // no scans meanwhile
    set_cfg::<0>(0, Duration::from_millis(100)).await?;
    let at = clock::dt(clock::now_us()) + chrono::Duration::days(60);
    let begin = std::time::Instant::now();
    for i in 0..n {
        let r = job::<0>(&format!("b{i}"), P::<0>::new(1, 0)).schedule_at(at).run().await;
        check!(r.is_ok(), "submission refused: {r:?}");
        touch();
    }
    stats.add("seconds_to_submit", begin.elapsed().as_secs());
    set_cfg::<0>(3, Duration::from_millis(100)).await?;
    for _ in 0..3 {
        let (from, uid) = (rec::len(), next_uid());
        let r = P::<0>::new(uid, 0).job().run().await;
        check!(r.is_ok(), "submission refused: {r:?}");
        // time is counted in scans of the queue: what a call waits at most
        let (mut scan, t, b) = (Duration::from_millis(200), std::time::Instant::now(), beats());
        while !starts(from).contains(&uid) {
            let c = std::time::Instant::now();
            if let Alive::Dead(e) = ping(0).await {
                return Err(Fail::Violation(format!("the queue has died ({e}); panics {:?}", crate::panics())));
            }
            scan = scan.max(c.elapsed());
            check!(
                t.elapsed() < 12 * scan || beats() - b < 600,
                "a ready job among {n} that are not due has not started after {:?}, a scan of the queue takes at most {scan:?} with its tick",
                t.elapsed()
            );
            tokio::time::sleep(Duration::from_millis(10)).await;
        }
        stats.max("start_ms", t.elapsed().as_millis() as u64);
        stats.max("scan_ms", scan.as_millis() as u64);
        stats.evaluations += 1;
    }
    stats.seen(&n);
    stats.sample(json!({"seed": a.seed, "not_due": n}));
    Ok(())
}

fn starts(from: usize) -> Vec<u64> {
    rec::with(|l| {
        l[from..]
            .iter()
            .filter_map(|e| match &e.k {
                K::Start { ty: 0, uid, .. } => Some(*uid),
                _ => None,
            })
            .collect()
    })
}

/// C04: starvation.
pub async fn starve(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    clock::set_us(base_time(&mut rng));
    warm::<0>(3).await?;
    warm::<1>(20).await?;
    for round in 0..a.scale.max(1) {
        // 1. a job that becomes due among a steady stream of ready ones
        let cap = *rng.pick(&[1usize, 1, 2, 4]);
        set_cfg::<0>(cap, Duration::from_millis(1)).await?;
        let from = rec::len();
        let backlog = rng.range(3, 45) as usize;
        let before = rng.range(0, 30) as usize;
        let due_uid = next_uid();
        let mut queue: VecDeque<u64> = VecDeque::new();
        for i in 0..backlog + before {
            if i == before.min(backlog) {
                let j = if rng.chance(50) {
                    Job::new(P::<0>::new(due_uid, 1)).schedule_at(clock::dt(clock::now_us()) + chrono::Duration::seconds(50))
                } else {
                    let t = JobType::Cron("0 0 0 1 1 * *".into(), clock::dt(clock::now_us() + 50_000_000), 1, CronContext::default());
                    Job::new(P::<0>::new(due_uid, 1)).job_type(t)
                };
                let r = j.run().await;
                check!(r.is_ok(), "submission refused: {r:?}");
            }
            let uid = next_uid();
            let r = Job::new(P::<0>::new(uid, 0).mode(Mode::Gate)).run().await;
            check!(r.is_ok(), "submission refused: {r:?}");
            queue.push_back(uid);
        }
        let ahead = queue.len();
        let mut released = 0usize;
        let mut overtaken = 0usize;
        let mut later: Vec<u64> = vec![];
        clock::advance_us(60_000_000);
        let bound = ahead + 40 + 3 * cap;
        loop {
            let want = cap;
            wait_for("slots are used", 0, || {
                let s = starts(from);
                s.contains(&due_uid) || s.len() - released >= want
            })
            .await?;
            let s = starts(from);
            if s.contains(&due_uid) {
                break;
            }
            overtaken = s.iter().filter(|u| later.contains(u)).count();
            check!(
                overtaken <= bound,
                "round {round}: a due job is overtaken by {overtaken} jobs submitted after it was due ({ahead} jobs were waiting before, limit {cap})"
            );
            // one ends, one more is submitted: the backlog never shrinks
            let u = s[released];
            released += 1;
            let uid = next_uid();
            let r = Job::new(P::<0>::new(uid, 0).mode(Mode::Gate)).run().await;
            check!(r.is_ok(), "submission refused: {r:?}");
            queue.push_back(uid);
            later.push(uid);
            release(u, None);
        }
        stats.max("max_overtaken", overtaken as u64);
        for u in &queue {
            open_gate(*u);
        }
        set_cfg::<0>(50, Duration::from_millis(1)).await?;
        let total = queue.len() + 1;
        wait_for("the backlog is worked off", 0, || starts(from).len() >= total).await?;
        stats.evaluations += 1;
        stats.seen(&(cap, backlog, before));

        // 2. many jobs that are not due do not delay a ready one
        let far = *rng.pick(&[1usize, 19, 20, 21, 39, 40, 41, 100, 400]);
        for _ in 0..far {
            let t = clock::dt(clock::now_us()) + chrono::Duration::days(60);
            let r = Job::new(P::<0>::new(next_uid(), 0)).schedule_at(t).run().await;
            check!(r.is_ok(), "submission refused: {r:?}");
        }
        // both queues on the same tick, long enough to hide the cost of a scan
        let tick = Duration::from_millis(20);
        set_cfg::<0>(*rng.pick(&[1usize, 2, 5]), tick).await?;
        set_cfg::<1>(20, tick).await?;
        let mut late = vec![];
        for _ in 0..3 {
            let uid = next_uid();
            let r = P::<0>::new(uid, 0).job().run().await;
            check!(r.is_ok(), "submission refused: {r:?}");
            let r = within_ticks::<1>(&format!("a ready job behind {far} jobs that are not due"), 10, || starts(from).contains(&uid)).await;
            match r {
                Ok(n) => stats.max("max_ticks_behind_not_due", n as u64),
                Err(Fail::Violation(m)) => late.push(m),
                Err(e) => return Err(e),
            }
            wait_for("a ready job runs", 0, || starts(from).contains(&uid)).await?;
            stats.evaluations += 1;
        }
        // once can be the machine; every time is the code
        if late.len() == 3 {
            return Err(Fail::Violation(late.remove(0)));
        }
        set_cfg::<1>(20, Duration::from_millis(1)).await?;
        stats.max("max_not_due_in_queue", far as u64);
        set_cfg::<0>(400, Duration::from_millis(1)).await?;
        clock::advance_us(61 * 86_400_000_000);
        wait_for("all jobs run once due", 0, || starts(from).len() >= total + far + 3).await?;
        // 3. jobs that come back again and again do not keep waiting ones out
        let cap = *rng.pick(&[1usize, 1, 2, 3]);
        let cron = rng.chance(50);
        let plain = rng.range(3, 12) as usize;
        set_cfg::<0>(0, Duration::from_millis(1)).await?;
        let from = rec::len();
        let (mut hogs, mut waiting) = (vec![], vec![]);
        for i in 0..cap + plain {
            let uid = next_uid();
            let j = if i >= cap {
                waiting.push(uid);
                Job::new(P::<0>::new(uid, 0))
            } else {
                hogs.push(uid);
                let j = Job::new(P::<0>::new(uid, 0).fails(vec![true])).set_id(format!("hog{round}-{i}"));
                if cron {
                    j.cron("* * * * * *")
                } else {
                    j.retry(Retry::new_interval_retry(None, chrono::Duration::microseconds(1)))
                }
            };
            let r = j.run().await;
            check!(r.is_ok(), "submission refused: {r:?}");
        }
        clock::advance_us(2_000_000);
        set_cfg::<0>(cap, Duration::from_millis(10)).await?;
        let bound = 2 * cap * (plain + 20);
        let mut back = 0;
        let mut over = false;
        wait_for("jobs wait among others that repeat", 0, || {
            clock::advance_us(if cron { 1_100_000 } else { 5 });
            let s = starts(from);
            back = s.iter().filter(|u| hogs.contains(u)).count();
            over = back > bound;
            over || waiting.iter().all(|u| s.contains(u))
        })
        .await?;
        check!(!over, "round {round}: {plain} ready jobs wait while {cap} jobs that {} ran {back} times (limit {cap})", if cron { "repeat by cron" } else { "are retried" });
        stats.max("max_runs_of_repeating_jobs_meanwhile", back as u64);
        stats.evaluations += 1;
        for i in 0..cap {
            let id = format!("hog{round}-{i}");
            // a cancel is without effect while a run is in progress
            for _ in 0..2000 {
                let r = AJ::cancel_job::<P<0>>(id.clone()).await;
                check!(r.is_ok(), "cancel_job -> {r:?}");
                if AJ::get_job::<P<0>>(&id).await.map(|j| j.context.job_status) == Some(aj_core::JobStatus::Canceled) {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
        stats.sample(json!({"seed": a.seed, "round": round, "limit": cap, "backlog": ahead, "overtaken_by": overtaken, "not_due": far, "repeating": back}));
    }
    Ok(())
}
