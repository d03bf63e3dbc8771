//! C01 / C02: many clients, first-use races, bursts, duplicates.
use crate::probe::*;
use crate::rec;
use crate::rng::Rng;
use crate::util::*;
use crate::{check, viol, with_k};
use aj_core::{EnqueueConfig, Job, JobStatus, WorkQueueConfig, AJ};
use serde_json::json;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
struct Sub {
    k: usize,
    id: String,
    fail: bool,
    how: usize,
}

fn rnd_mode(r: &mut Rng) -> Mode {
    match r.below(10) {
        0..=4 => Mode::Quick,
        5..=6 => Mode::Yield(r.range(1, 8) as u32),
        7..=8 => Mode::Sleep(r.range(1, 3000) as u64),
        _ => Mode::Sleep(r.range(3000, 12000) as u64),
    }
}

async fn submit<const N: usize>(s: &Sub, p: P<N>) -> Res {
    let j = job::<N>(&s.id, p);
    match s.how {
        0 => j.just_run(),
        1 => {
            let r = AJ::add_job(j, NAMES[N]).await;
            check!(matches!(&r, Ok(i) if *i == s.id), "add_job of {} -> {r:?}; panics {:?}", s.id, crate::panics());
        }
        2 => {
            let r = AJ::enqueue_job(j, EnqueueConfig::new_skip_if_finished(), NAMES[N]).await;
            check!(r.is_ok(), "enqueue_job of {} -> {r:?}; panics {:?}", s.id, crate::panics());
        }
        _ => {
            let r = j.run().await;
            check!(matches!(&r, Ok(i) if *i == s.id), "run of {} -> {r:?}; panics {:?}", s.id, crate::panics());
        }
    }
    Ok(())
}

/// First-use race and burst: every job submitted is executed and completes.
pub fn burst(a: &Args, stats: &mut Stats, judge_once: bool) -> Res {
    let mut rng = Rng::new(a.seed);
    let threads = rng.range(2, 8) as usize;
    let types = *rng.pick(&[1usize, 2, 4, 8, 8]);
    let per = a.n("jobs", 60) as usize / if types == 1 { 1 } else { 2 } + rng.below(20) as usize;
    let only_just = rng.chance(25);
    let subs: Arc<Mutex<Vec<Sub>>> = Default::default();
    let seed = a.seed;
    let (s2, types2) = (subs.clone(), types);
    let out = clients(threads, move |t| {
        let subs = s2.clone();
        async move {
            let mut r = Rng::new(seed.wrapping_mul(31).wrapping_add(t as u64));
            for i in 0..per {
                let k = if i < types2 && r.chance(70) { (i + t * (r.below(2) as usize)) % types2 } else { r.below(types2 as u64) as usize };
                let fail = r.chance(15);
                let s = Sub {
                    k,
                    id: format!("b{t}-{i}"),
                    fail,
                    how: if only_just { 0 } else { *r.pick(&[0usize, 1, 2, 3, 3, 3]) },
                };
                subs.lock().unwrap().push(s.clone());
                let uid = next_uid();
                let mode = rnd_mode(&mut r);
                let delay = r.chance(8);
                with_k!(k, N => {
                    let p = P::<N>::new(uid, i as i64).mode(mode).fails(if fail { vec![true] } else { vec![] });
                    let _ = delay;
                    submit::<N>(&s, p).await?
                });
                if r.chance(6) {
                    let c = WorkQueueConfig { process_tick_duration: Duration::from_millis(r.range(1, 5) as u64), max_processing_jobs: r.range(1, 30) as usize };
                    let res = with_k!(k, N => AJ::update_work_queue::<P<N>>(c).await);
                    if s.how != 0 {
                        check!(res.is_ok(), "update_work_queue after an accepted submission -> {res:?}; panics {:?}", crate::panics());
                    }
                }
                if r.chance(5) {
                    tokio::time::sleep(Duration::from_millis(r.range(1, 20) as u64)).await;
                }
            }
            Ok(())
        }
    });
    all_ok(out)?;
    let subs = subs.lock().unwrap().clone();
    let total = subs.len();
    block(async {
        for k in 0..types {
            let ids: Vec<String> = subs.iter().filter(|s| s.k == k).map(|s| s.id.clone()).collect();
            if ids.is_empty() {
                continue;
            }
            // the queue of a fire-and-forget type comes up by itself
            wait_runs(k, "accepted jobs run", &ids[..1], 1).await?;
            with_k!(k, N => set_cfg::<N>(50, Duration::from_millis(1)).await?);
            wait_runs(k, "accepted jobs run", &ids, 1).await?;
            for s in subs.iter().filter(|s| s.k == k) {
                let want = if s.fail { JobStatus::Failed } else { JobStatus::Finished };
                with_k!(k, N => { wait_status::<N>(&s.id, &[want]).await?; });
            }
            with_k!(k, N => { flush::<N>().await?; });
        }
        Ok(())
    })?;
    if judge_once {
        for s in &subs {
            let c = rec::cnt(s.k, &s.id);
            check!(c.start == 1 && c.pre == 1 && c.post == 1, "one-off job {} ran {} times ({c:?})", s.id, c.start);
        }
        let o = rec::self_overlaps();
        check!(o.is_empty(), "jobs in progress twice at the same time: {o:?}");
    }
    stats.evaluations += 1;
    stats.distinct.insert(interleaving_hash(0));
    stats.add("jobs", total as u64);
    stats.add("client_threads", threads as u64);
    stats.add("first_use_types", types as u64);
    stats.add(if only_just { "all_fire_and_forget" } else { "mixed_apis" }, 1);
    for k in 0..types {
        stats.max("max_runs_in_progress", rec::open_of(k).1 as u64);
    }
    stats.sample(json!({"seed": a.seed, "threads": threads, "types": types, "jobs": total, "first": subs.iter().take(5).map(|s| format!("{s:?}")).collect::<Vec<_>>()}));
    Ok(())
}

/// A large backlog on one type.
pub fn backlog(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    let threads = 4usize;
    let per = a.n("jobs", 500) as usize;
    let cap = rng.range(1, 25) as usize;
    block(async {
        canary::<0>().await?;
        set_cfg::<0>(cap, Duration::from_millis(1)).await
    })?;
    let seed = a.seed;
    all_ok(clients(threads, move |t| async move {
        let mut r = Rng::new(seed ^ (t as u64) << 40);
        for i in 0..per {
            let id = format!("l{t}-{i}");
            let mut j = job::<0>(&id, P::<0>::new(next_uid(), i as i64).mode(if r.chance(80) { Mode::Quick } else { Mode::Yield(3) }));
            if r.chance(20) {
                j = j.schedule_at(chrono::Utc::now() + chrono::Duration::milliseconds(r.range(-50, 400)));
            }
            let res = j.run().await;
            check!(matches!(&res, Ok(x) if *x == id), "run of {id} -> {res:?}");
        }
        Ok(())
    }))?;
    let ids: Vec<String> = (0..threads).flat_map(|t| (0..per).map(move |i| format!("l{t}-{i}"))).collect();
    block(async {
        wait_runs(0, "backlog is worked off", &ids, 1).await?;
        for id in ids.iter().step_by(17) {
            wait_status::<0>(id, &[JobStatus::Finished]).await?;
        }
        flush::<0>().await
    })?;
    for id in &ids {
        let c = rec::cnt(0, id);
        check!(c.start == 1, "one-off job {id} ran {} times", c.start);
    }
    stats.evaluations += 1;
    stats.distinct.insert(interleaving_hash(0));
    stats.add("jobs", ids.len() as u64);
    Ok(())
}

/// Floods: nothing between the calls, so that every mailbox fills up.
pub fn flood(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    for round in 0..a.scale.max(1) {
        let threads = *rng.pick(&[1usize, 2, 4]);
        let per = a.n("jobs", 800) as usize / threads;
        let types = rng.range(1, 4) as usize;
        // the first round finds no queue yet
        let fire = rng.chance(70);
        // under ids of their own or those the engine gives
        let given = rng.chance(40);
        let all: Arc<Mutex<Vec<(usize, String)>>> = Default::default();
        let sink = all.clone();
        all_ok(clients(threads, move |t| { let sink = sink.clone(); async move {
            let ids: Vec<(usize, String)> = (0..per)
                .map(|i| (i % types, if given { aj_core::Job::new(P::<0>::new(0, 0)).id().to_string() } else { format!("o{round}-{t}-{i}") }))
                .collect();
            sink.lock().unwrap().extend(ids.iter().cloned());
            if fire {
                for (k, id) in &ids {
                    with_k!(*k, N => job::<N>(id, P::<N>::new(next_uid(), 0)).just_run());
                }
                return Ok(());
            }
            // all of them under way at the same time, from one task
            let mut w: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = Result<String, aj_core::Error>>>>> = vec![];
            for (k, id) in &ids {
                with_k!(*k, N => w.push(Box::pin(job::<N>(id, P::<N>::new(next_uid(), 0)).run())));
            }
            let mut left = ids.len();
            let mut done = vec![false; ids.len()];
            std::future::poll_fn(|cx| {
                for (i, f) in w.iter_mut().enumerate() {
                    if done[i] {
                        continue;
                    }
                    if let std::task::Poll::Ready(r) = f.as_mut().poll(cx) {
                        done[i] = true;
                        left -= 1;
                        if !matches!(&r, Ok(x) if *x == ids[i].1) {
                            return std::task::Poll::Ready(Err(Fail::Violation(format!("run of {} among {} calls under way -> {r:?}; panics {:?}", ids[i].1, ids.len(), crate::panics()))));
                        }
                    }
                }
                if left == 0 { std::task::Poll::Ready(Ok(())) } else { std::task::Poll::Pending }
            })
            .await
        }}))?;
        let all = std::mem::take(&mut *all.lock().unwrap());
        let distinct: std::collections::HashSet<&String> = all.iter().map(|x| &x.1).collect();
        check!(distinct.len() == all.len(), "{} jobs made without an id of their own got {} different ids, so some of them do not run", all.len(), distinct.len());
        if given {
            stats.add("generated_ids", all.len() as u64);
        }
        block(async {
            // the queue of a type comes into being with its first job
            for k in 0..types {
                for _ in 0..3000 {
                    let c = WorkQueueConfig { process_tick_duration: Duration::from_millis(1), max_processing_jobs: 500 };
                    if with_k!(k, N => AJ::update_work_queue::<P<N>>(c).await.is_ok()) {
                        break;
                    }
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            }
            for k in 0..types {
                let ids: Vec<String> = all.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect();
                wait_runs(k, if fire { "jobs of a flood of just_run() complete" } else { "jobs of a flood of run() complete" }, &ids, 1).await?;
                for id in ids.iter().step_by(29) {
                    with_k!(k, N => wait_status::<N>(id, &[JobStatus::Finished]).await?);
                }
                for id in &ids {
                    let c = rec::cnt(k, id);
                    check!(c.start == 1, "one-off job {id} ran {} times", c.start);
                }
            }
            Ok(())
        })?;
        stats.evaluations += 1;
        stats.add("jobs", (threads * per) as u64);
        stats.add(if fire { "just_run_floods" } else { "run_floods" }, 1);
        stats.seen(&(threads, types, fire, round > 0));
    }
    stats.distinct.insert(interleaving_hash(0));
    Ok(())
}

/// The same ids submitted by many threads at once.
pub fn dups(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    let threads = rng.range(2, 8) as usize;
    block(async {
        if rng.chance(70) {
            warm::<0>(100_000).await?;
        }
        Ok(())
    })?;
    for round in 0..a.scale {
        let n = rng.range(1, 30) as usize;
        let gated = rng.chance(60);
        let quick_retry = !gated && rng.chance(50);
        // A just_run() can arrive after its job completed, and then means another
        // run: with those around only overlaps are counted, not runs.
        let fire = !gated || rng.chance(35);
        let ids: Vec<String> = (0..n).map(|i| format!("d{}-{round}-{i}", a.seed)).collect();
        let uids: Vec<u64> = (0..n).map(|_| next_uid()).collect();
        let from = rec::len();
        let (ids2, uids2) = (ids.clone(), uids.clone());
        let seed = rng.next();
        let times = if gated { 3 } else { 6 };
        let subm = move |phase: u64, ids: Vec<String>, uids: Vec<u64>| {
            clients(threads, move |t| {
                let (ids, uids) = (ids.clone(), uids.clone());
                async move {
                    let mut r = Rng::new(seed ^ (t as u64 * 7919) ^ (phase << 50));
                    for _ in 0..times {
                        for _ in 0..ids.len() {
                            let i = r.below(ids.len() as u64) as usize;
                            let mut p = P::<0>::new(uids[i], i as i64);
                            if gated {
                                p.mode = Mode::Gate;
                            } else {
                                p.mode = if r.chance(50) { Mode::Quick } else { Mode::Yield(r.range(1, 6) as u32) };
                                if quick_retry {
                                    p.fail = vec![true, false];
                                }
                            }
                            let mut j = job::<0>(&ids[i], p);
                            if quick_retry {
                                j = j.retry(aj_core::Retry::new_interval_retry(Some(2), chrono::Duration::microseconds(1)));
                            }
                            let how = r.below(3);
                            if how == 0 && fire {
                                j.just_run();
                            } else if how == 1 {
                                let res = AJ::enqueue_job(j, EnqueueConfig::new(true, r.chance(50)), NAMES[0]).await;
                                check!(res.is_ok(), "enqueue of {} -> {res:?}; panics {:?}", ids[i], crate::panics());
                            } else {
                                let res = j.run().await;
                                check!(matches!(&res, Ok(x) if *x == ids[i]), "run of {} -> {res:?}; panics {:?}", ids[i], crate::panics());
                            }
                        }
                    }
                    Ok(())
                }
            })
        };
        all_ok(subm(0, ids2.clone(), uids2.clone()))?;
        block(async {
            // make sure every id was submitted at least once, and the queue is up
            for i in 0..n {
                let mut p = P::<0>::new(uids[i], i as i64);
                if gated {
                    p.mode = Mode::Gate;
                }
                let r = job::<0>(&ids[i], p).run().await;
                check!(r.is_ok(), "run of {} -> {r:?}", ids[i]);
            }
            set_cfg::<0>(100_000, Duration::from_millis(1)).await?;
            Ok(())
        })?;
        if gated {
            block(async {
                let mut miss = 0;
                wait_for("submitted jobs start", 0, || {
                    miss = ids.iter().filter(|i| rec::cnt(0, i).start < 1).count();
                    miss == 0
                })
                .await?;
                flush::<0>().await
            })?;
            // again while they run
            all_ok(subm(1, ids2.clone(), uids2.clone()))?;
            block(async {
                flush::<0>().await?;
                for id in &ids {
                    let c = rec::cnt(0, id);
                    check!(c.start == 1, "job {id}, submitted many times while queued or running, was started {} times", c.start);
                }
                for u in &uids {
                    if fire {
                        open_gate(*u);
                    } else {
                        release(*u, None);
                    }
                }
                for id in &ids {
                    wait_status::<0>(id, &[JobStatus::Finished]).await?;
                }
                flush::<0>().await
            })?;
            for id in ids.iter().filter(|_| !fire) {
                let c = rec::cnt(0, id);
                check!(c.start == 1 && c.post == 1, "job {id} ran {} times", c.start);
            }
            if fire {
                let o = rec::self_overlaps();
                check!(o.is_empty(), "jobs in progress twice at the same time: {o:?}");
                stats.evaluations += 1;
                stats.distinct.insert(interleaving_hash(from));
                stats.add("fire_and_forget_rounds", 1);
                continue;
            }
            // a completed job resubmitted by all threads at once: one more run
            let (i3, u3) = (ids.clone(), uids.clone());
            all_ok(clients(threads, move |_t| {
                let (ids, uids) = (i3.clone(), u3.clone());
                async move {
                    for i in 0..ids.len() {
                        let r = job::<0>(&ids[i], P::<0>::new(uids[i], 7).mode(Mode::Gate)).run().await;
                        check!(r.is_ok(), "run of {} -> {r:?}", ids[i]);
                    }
                    Ok(())
                }
            }))?;
            block(async {
                wait_for("resubmitted jobs start", 0, || ids.iter().all(|i| rec::cnt(0, i).start >= 2)).await?;
                flush::<0>().await?;
                for u in &uids {
                    open_gate(*u);
                }
                for id in &ids {
                    wait_status::<0>(id, &[JobStatus::Finished]).await?;
                }
                flush::<0>().await
            })?;
            for id in &ids {
                let c = rec::cnt(0, id);
                check!(c.start == 2, "completed job {id} resubmitted concurrently ran {} more times", c.start as i64 - 1);
            }
            stats.add("gated_rounds", 1);
        } else {
            block(async {
                wait_for("submitted jobs complete", 0, || ids.iter().all(|i| rec::cnt(0, i).post >= 1)).await?;
                for id in &ids {
                    wait_status::<0>(id, &[JobStatus::Finished, JobStatus::Failed]).await?;
                }
                flush::<0>().await
            })?;
            stats.add("quick_rounds", 1);
        }
        let o = rec::self_overlaps();
        check!(o.is_empty(), "jobs in progress twice at the same time: {o:?}");
        stats.evaluations += 1;
        stats.distinct.insert(interleaving_hash(from));
        stats.add("duplicate_ids", n as u64);
        stats.add("duplicate_submissions", (threads * n * times) as u64);
    }
    let _ = || -> Res { viol!("unreachable") };
    stats.sample(json!({"seed": a.seed, "threads": threads, "rounds": a.scale}));
    let _: Option<Job<P<0>>> = None;
    Ok(())
}

fn given_id() -> String {
    Job::new(P::<0>::new(0, 0)).id().to_string()
}

/// Child of `ids`: the ids that jobs made by several threads get.
pub fn genids(a: &Args) -> Res {
    let n = a.n("jobs", 400) as usize;
    let hs: Vec<_> = (0..3).map(|_| std::thread::spawn(move || (0..n).map(|_| given_id()).collect::<Vec<_>>())).collect();
    for h in hs {
        for id in h.join().unwrap() {
            println!("ID {id}");
        }
    }
    Ok(())
}

/// Jobs made without an id of their own, in this process, in others at the same
/// time and in others before: no two get the same.
pub fn ids(a: &Args, stats: &mut Stats) -> Res {
    let mut seen: std::collections::HashMap<String, String> = Default::default();
    for round in 0..2 {
        let procs: Vec<_> = (0..4)
            .map(|_| {
                std::process::Command::new(std::env::current_exe().unwrap())
                    .args(["genids", "--seed", &a.seed.to_string()])
                    .stdin(std::process::Stdio::null())
                    .stdout(std::process::Stdio::piped())
                    .stderr(std::process::Stdio::null())
                    .spawn()
            })
            .collect();
        let mut outs = vec![];
        for (i, p) in procs.into_iter().enumerate() {
            let o = p.and_then(|p| p.wait_with_output()).map_err(|e| Fail::Inconclusive(format!("genids: {e}")))?;
            outs.push((format!("process {round}.{i}"), String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| l.strip_prefix("ID ").map(String::from)).collect::<Vec<_>>()));
        }
        outs.push((format!("this process ({round})"), (0..500).map(|_| given_id()).collect()));
        for (who, ids) in outs {
            if ids.len() < 500 {
                return Err(Fail::Inconclusive(format!("{who} made {} ids", ids.len())));
            }
            for id in ids {
                stats.evaluations += 1;
                if let Some(other) = seen.insert(id.clone(), who.clone()) {
                    viol!("jobs made in {other} and in {who} got the same id {id}: on a shared or persistent backend they are one job");
                }
            }
        }
    }
    // enough of them to tell ids of 32 random bits from those that cannot collide
    let hs: Vec<_> = (0..4).map(|_| std::thread::spawn(|| (0..75_000).map(|_| given_id()).collect::<Vec<_>>())).collect();
    for h in hs {
        for id in h.join().unwrap() {
            stats.evaluations += 1;
            if let Some(other) = seen.insert(id.clone(), "this process".into()) {
                viol!("a job made in {other} and one made in this process got the same id {id}, among {} ids", seen.len());
            }
        }
    }
    stats.add("generated_ids", seen.len() as u64);
    stats.seen(&"ids");
    Ok(())
}
