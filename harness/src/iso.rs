//! C18: job types beside each other.
use crate::probe::*;
use crate::rec;
use crate::rng::Rng;
use crate::util::*;
use crate::{check, viol};
use aj_core::{BackgroundJob, Executable, Job, JobContext, JobStatus, AJ};
use async_trait::async_trait;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

/// A type whose payload has nothing in common with P's.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Other {
    pub text: String,
}
static OTHER_RUNS: AtomicU64 = AtomicU64::new(0);
#[async_trait]
impl Executable for Other {
    type Output = ();
    async fn execute(&mut self, _: &JobContext) {
        if self.text != "first" {
            OTHER_RUNS.fetch_add(1, Ordering::SeqCst);
        }
    }
}
impl BackgroundJob for Other {
    fn queue_name() -> &'static str {
        "other"
    }
    fn job(self) -> Job<Self> {
        Job::new(self)
    }
}

pub async fn run(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    warm::<0>(3).await?;
    warm::<1>(2).await?;
    warm::<2>(2).await?;
    warm::<3>(5).await?;
    warm::<4>(4).await?;
    let r = Other { text: "first".into() }.job().run().await;
    check!(r.is_ok(), "run -> {r:?}");
    for round in 0..a.scale.max(1) {
        let from = rec::len();
        // disturbances on 0..2
        let mut gates = vec![];
        let mut blocks = vec![];
        for _ in 0..rng.range(3, 9) {
            let uid = next_uid();
            let r = Job::new(P::<1>::new(uid, 0).mode(Mode::Gate)).run().await; // saturates its limit
            check!(r.is_ok(), "run -> {r:?}");
            gates.push(uid);
        }
        for i in 0..20 {
            let m = if i % 2 == 0 { Mode::Panic(vec![1]) } else { Mode::Quick };
            let r = Job::new(P::<2>::new(next_uid(), 0).mode(m).fails(vec![true])).run().await;
            check!(r.is_ok(), "run -> {r:?}");
        }
        for _ in 0..100 {
            let r = Job::new(P::<2>::new(next_uid(), 0)).schedule_at(chrono::Utc::now() + chrono::Duration::days(1)).run().await;
            check!(r.is_ok(), "run -> {r:?}");
        }
        // waiting jobs of the victims, addressed wrongly by others below
        let mine: Vec<String> = (0..6).map(|i| format!("v{round}-{i}")).collect();
        let uids: Vec<u64> = mine.iter().map(|_| next_uid()).collect();
        for (id, uid) in mine.iter().zip(&uids) {
            let r = job::<3>(id, P::<3>::new(*uid, 3)).schedule_at(chrono::Utc::now() + chrono::Duration::days(1)).run().await;
            check!(r.is_ok(), "run -> {r:?}");
        }
        if rng.chance(60) {
            let uid = next_uid();
            let id = format!("blk{round}");
            let r = job::<0>(&id, P::<0>::new(uid, 0).mode(Mode::Block)).run().await; // blocks its thread
            check!(r.is_ok(), "run -> {r:?}");
            blocks.push(uid);
            let t = std::time::Instant::now();
            while rec::cnt(0, &id).start == 0 {
                if t.elapsed() > Duration::from_secs(60) {
                    return Err(Fail::Inconclusive("blocking job never started".into()));
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        }
        struct Free(Vec<u64>, Vec<u64>);
        impl Drop for Free {
            fn drop(&mut self) {
                self.0.iter().for_each(|u| open_gate(*u));
                self.1.iter().for_each(|u| release_block(*u));
            }
        }
        let free = Free(gates, blocks.clone());
        // wait for the disturbances to be in place
        wait_for("a saturated type is saturated", 1, || rec::open_of(1).0 >= 2).await?;
        // operations of an unrelated type on these ids
        for id in &mine {
            let g = AJ::get_job::<Other>(id).await;
            check!(g.is_none(), "get_job of another type returned {g:?}");
            let c = AJ::cancel_job::<Other>(id.clone()).await;
            check!(c.is_ok(), "cancel -> {c:?}");
            let u = AJ::update_job::<Other>(id, Other { text: "hijack".into() }, None).await;
            check!(u.is_ok(), "update -> {u:?}");
            let t = AJ::retry_job::<Other>(id).await;
            check!(matches!(t, Ok(false)), "retry_job -> {t:?}");
        }
        for id in &mine {
            let j = AJ::get_job::<P<3>>(id).await;
            let Some(j) = j else { viol!("job {id} vanished after calls addressed to another type") };
            check!(j.context.job_status == JobStatus::Queued && j.data.val == 3, "job {id} changed by calls addressed to another type: {:?} {:?}", j.context.job_status, j.data);
        }
        // victims work: submissions, runs, retries, cancels, limits of their own
        let ids: Vec<String> = (0..20).map(|i| format!("w{round}-{i}")).collect();
        for id in &ids {
            let r = job::<3>(id, P::<3>::new(next_uid(), 0)).run().await;
            check!(r.is_ok(), "run -> {r:?}");
        }
        wait_runs(3, "jobs of a type run while other types are blocked, saturated, panicking or piled up", &ids, 1).await?;
        // promptness, against nothing but its own tick: 4 is as idle as 3
        let mut g4 = vec![];
        for _ in 0..4 {
            let uid = next_uid();
            let r = Job::new(P::<4>::new(uid, 0).mode(Mode::Gate)).run().await;
            check!(r.is_ok(), "run -> {r:?}");
            g4.push(uid);
        }
        let w4 = wait_for("a type uses its own limit while others are saturated", 4, || rec::open_of(4).0 >= 4).await;
        g4.iter().for_each(|u| open_gate(*u));
        w4?;
        // scheduled jobs of the victim still there: run them now
        for (id, uid) in mine.iter().zip(&uids) {
            let mut c = JobContext::new(id.clone());
            c.run_count = 0;
            let r = AJ::update_job::<P<3>>(id, P::new(*uid, 4), Some(c)).await;
            check!(r.is_ok(), "update -> {r:?}");
        }
        wait_runs(3, "jobs of a type run", &mine, 1).await?;
        if !blocks.is_empty() {
            check!(rec::cnt(0, &format!("blk{round}")).post == 0, "the blocking job ended early");
        }
        check!(rec::open_of(1).0 <= 2, "limit of a type exceeded: {}", rec::open_of(1).0);
        drop(free);
        flush::<0>().await?;
        set_cfg::<1>(20, Duration::from_millis(1)).await?;
        flush::<1>().await?;
        set_cfg::<1>(2, Duration::from_millis(1)).await?;
        flush::<2>().await?;
        flush::<3>().await?;
        flush::<4>().await?;
        check!(OTHER_RUNS.load(Ordering::SeqCst) == 0, "calls for jobs of another type made runs");
        for id in ids.iter().chain(&mine) {
            let n = rec::cnt(3, id).pre;
            check!(n == 1, "job {id} ran {n} times");
        }
        stats.evaluations += 1;
        stats.add("cross_type_calls", 4 * mine.len() as u64);
        stats.seen(&(round, a.seed));
        stats.distinct.insert(interleaving_hash(from));
        stats.sample(json!({"seed": a.seed, "round": round, "thread_blocked": !blocks.is_empty()}));
    }
    if a.s("known", "0") == "1" {
        known(stats).await?;
    }
    Ok(())
}

/// The recorded finding: records are kept by id alone, so the same id in two
/// types, or a call addressed to a type with a compatible payload, collides.
async fn known(stats: &mut Stats) -> Res {
    warm::<5>(3).await?;
    warm::<6>(3).await?;
    let far = chrono::Utc::now() + chrono::Duration::days(1);
    let r = job::<5>("shared-a", P::<5>::new(next_uid(), 5)).schedule_at(far).run().await;
    check!(r.is_ok(), "run -> {r:?}");
    let c = AJ::cancel_job::<P<6>>("shared-a".into()).await;
    check!(c.is_ok(), "cancel -> {c:?}");
    match status::<5>("shared-a").await {
        Some(JobStatus::Queued) => {}
        Some(JobStatus::Canceled) => stats.known.push("xtype-compatible-call".into()),
        s => viol!("cancel addressed to another type left the job {s:?}"),
    }
    let r = job::<5>("shared-b", P::<5>::new(next_uid(), 5)).run().await;
    check!(r.is_ok(), "run -> {r:?}");
    wait_runs(5, "first of two jobs with one id", &["shared-b".to_string()], 1).await?;
    wait_status::<5>("shared-b", &[JobStatus::Finished]).await?;
    let r = AJ::enqueue_job(job::<6>("shared-b", P::<6>::new(next_uid(), 6)), aj_core::EnqueueConfig::new_skip_if_finished(), NAMES[6]).await;
    check!(r.is_ok(), "enqueue -> {r:?}");
    flush::<6>().await?;
    match rec::cnt(6, "shared-b").start {
        1 => {}
        0 => stats.known.push("xtype-same-id".into()),
        n => viol!("job ran {n} times"),
    }
    stats.evaluations += 2;
    Ok(())
}
