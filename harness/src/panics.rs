//! C22: panicking jobs among others.
use crate::probe::*;
use crate::rec;
use crate::rng::Rng;
use crate::util::*;
use crate::{check, viol};
use aj_core::{JobStatus, Retry, AJ};
use serde_json::json;

pub async fn run(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    warm::<0>(3).await?;
    warm::<1>(3).await?;
    for round in 0..a.scale.max(1) {
        let cap = *rng.pick(&[1usize, 1, 2, 3, 8]);
        set_cfg::<0>(cap, std::time::Duration::from_millis(1)).await?;
        let mut bad: Vec<(String, usize, u64, &str)> = vec![]; // id, panicking run, uid, where
        let mut good: Vec<String> = vec![];
        let mut other: Vec<String> = vec![];
        let n = rng.range(8, 40);
        for i in 0..n {
            let id = format!("x{round}-{i}");
            let uid = next_uid();
            if rng.chance(45) {
                // a panicking job
                let later = rng.chance(30);
                let run = if later { 2 } else { 1 };
                let (m, wh) = match rng.below(6) {
                    0 => (Mode::PanicPre(vec![run]), "pre_execute"),
                    1 | 2 => (Mode::Panic(vec![run]), "execute"),
                    3 => (Mode::PanicPost(vec![run]), "post_execute"),
                    4 => (Mode::PanicJudge(vec![run]), "is_failed_output"),
                    _ if !later => (Mode::GatePanic, "execute after waiting"),
                    _ => (Mode::Panic(vec![run]), "execute"),
                };
                let mut p = P::<0>::new(uid, 0).mode(m.clone());
                if later {
                    p.fail = vec![true, false];
                }
                let mut j = job::<0>(&id, p);
                if later || rng.chance(30) {
                    j = j.retry(Retry::new_interval_retry(Some(5), chrono::Duration::microseconds(1)));
                }
                if m == Mode::GatePanic {
                    // let it go a little later
                    release(uid, None);
                }
                let r = j.run().await;
                check!(r.is_ok(), "submission refused: {r:?}; panics {:?}", crate::panics());
                bad.push((id, run, uid, wh));
            } else if rng.chance(25) {
                let r = job::<1>(&id, P::<1>::new(uid, 0)).run().await;
                check!(r.is_ok(), "submission refused: {r:?}");
                other.push(id);
            } else {
                let mut j = job::<0>(&id, P::<0>::new(uid, 0).mode(if rng.chance(50) { Mode::Quick } else { Mode::Sleep(rng.range(1, 3000) as u64) }));
                if rng.chance(30) {
                    j = j.schedule_at(chrono::Utc::now() + chrono::Duration::microseconds(rng.range(1, 20_000)));
                }
                let r = j.run().await;
                check!(r.is_ok(), "submission refused: {r:?}; panics {:?}", crate::panics());
                good.push(id);
            }
            if rng.chance(10) {
                tokio::time::sleep(std::time::Duration::from_millis(3)).await;
            }
        }
        wait_runs(0, "jobs among panicking ones run", &good, 1).await?;
        wait_runs(1, "jobs of another type run", &other, 1).await?;
        for (id, run, _, wh) in &bad {
            wait_for(&format!("job {id} panics in {wh} of run {run}"), 0, || rec::cnt(0, id).abort >= 1).await?;
            let st = wait_status::<0>(id, &[JobStatus::Failed]).await;
            if let Err(Fail::Violation(m)) = st {
                viol!("after a panic in {wh} of run {run}: {m}");
            }
            st?;
        }
        // all slots are free again: cap gated jobs run together
        let mut gated = vec![];
        for _ in 0..cap {
            let uid = next_uid();
            gated.push((format!("g{uid}"), uid));
            let r = job::<0>(&gated.last().unwrap().0, P::<0>::new(uid, 0).mode(Mode::Gate)).run().await;
            check!(r.is_ok(), "submission refused: {r:?}");
        }
        let g2 = gated.clone();
        let r = wait_for(&format!("all {cap} slots are usable after {} panics", bad.len()), 0, || g2.iter().all(|(id, _)| rec::cnt(0, id).start == 1)).await;
        for (_, u) in &gated {
            release(*u, None);
        }
        r?;
        for (id, _) in &gated {
            wait_status::<0>(id, &[JobStatus::Finished]).await?;
        }
        flush::<0>().await?;
        for id in good.iter().chain(&other) {
            let k = if other.contains(id) { 1 } else { 0 };
            let c = rec::cnt(k, id);
            check!(c.pre == 1, "job {id} ran {} times", c.pre);
        }
        // retry by hand
        for (id, run, uid, wh) in bad.iter().take(6) {
            let c0 = rec::cnt(0, id);
            check!(c0.pre == *run, "job {id} (panic in {wh} of run {run}) made {} runs", c0.pre);
            let Some(j) = AJ::get_job::<P<0>>(id).await else { viol!("job {id} vanished after its panic") };
            check!(j.context.job_status == JobStatus::Failed, "job {id} is {:?}", j.context.job_status);
            check!(j.context.run_count == *run, "job {id} (panic in {wh}) reports {} runs, it made {run}", j.context.run_count);
            let r = AJ::retry_job::<P<0>>(id).await;
            check!(matches!(r, Ok(true)), "retry_job of a job that panicked -> {r:?}");
            if *wh == "execute after waiting" {
                release(*uid, None);
                wait_for("a retried job runs again", 0, || rec::cnt(0, id).abort >= 2).await?;
                wait_status::<0>(id, &[JobStatus::Failed]).await?;
            } else {
                wait_for("a retried job runs again", 0, || rec::cnt(0, id).post >= c0.post + 1).await?;
                wait_status::<0>(id, &[JobStatus::Finished]).await?;
            }
        }
        stats.evaluations += 1;
        stats.add("panicking_jobs", bad.len() as u64);
        stats.add("jobs_beside", (good.len() + other.len()) as u64);
        for (_, run, _, wh) in &bad {
            stats.seen(&(cap, *run, *wh));
        }
        stats.distinct.insert(interleaving_hash(0));
        stats.sample(json!({"seed": a.seed, "round": round, "limit": cap, "panics": bad.iter().map(|b| (b.1, b.3)).collect::<Vec<_>>()}));
    }
    Ok(())
}
