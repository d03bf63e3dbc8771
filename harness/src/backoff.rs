//! C08: retry delays for every retry number, up to saturation.
use crate::probe::*;
use crate::rec::{self, K};
use crate::rng::Rng;
use crate::util::*;
use crate::{check, clock, viol};
use aj_core::job::{CronContext, JobType, Retry, RetryStrategy};
use aj_core::{JobStatus, AJ};
use chrono::{DateTime, Duration, Utc};
use serde_json::json;

fn us(t: DateTime<Utc>) -> i128 {
    t.timestamp() as i128 * 1_000_000 + t.timestamp_subsec_micros() as i128
}
fn dus(d: Duration) -> i128 {
    d.num_milliseconds() as i128 * 1000 + (d.subsec_nanos() as i128 % 1_000_000) / 1000
}

/// The policy itself: retry numbers and bases far beyond what can be waited for.
fn direct(rng: &mut Rng, stats: &mut Stats) -> Res {
    let bases = [
        Duration::microseconds(1), Duration::milliseconds(1), Duration::milliseconds(100), Duration::seconds(1), Duration::seconds(5),
        Duration::minutes(7), Duration::hours(13), Duration::days(1), Duration::days(365), Duration::days(36500),
        Duration::microseconds(i64::MAX), Duration::microseconds(i64::MAX / 3), Duration::microseconds(i64::MAX / 2 + 1),
    ];
    for _ in 0..40 {
        let base = if rng.chance(70) { *rng.pick(&bases) } else { Duration::microseconds(rng.range(1, 1 << 50)) };
        let exp = rng.chance(70);
        let from = *rng.pick(&[0i32, 0, 1, 5, 20, 28, 29, 30, 31, 32, 61, 62, 63, 64, 100, 1000, i32::MAX - 6, i32::MAX - 1]);
        let strat = if exp { RetryStrategy::ExponentialBackoff(base) } else { RetryStrategy::Interval(base) };
        let now = clock::dt(base_time(rng));
        let mut r = Retry::new(from, None, strat);
        let mut prev = i128::MIN;
        let max = us(DateTime::<Utc>::MAX_UTC);
        for i in 0..4 {
            check!(r.should_retry(), "an unlimited policy stops retrying at number {from}+{i}");
            let k = from as i64 + i + 1;
            let rr = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.retry_at(Some(now))));
            let Ok(t) = rr else {
                return Err(Fail::Violation(format!("retry_at panics: base {base:?}, retry number {k}, exponential {exp}: {:?}", crate::panics().last())));
            };
            let factor: i128 = if exp { 1i128 << k.min(30) } else { 1 };
            let want = (us(now) + dus(base) * factor).min(max);
            let got = us(t);
            let exact = !exp || k <= 30;
            check!(got >= want && (!exact || got == want), "retry number {k} of base {base:?} (exponential {exp}) is {} us after the failure, expected {}{}", got - us(now), if exact { "" } else { "at least " }, want - us(now));
            check!(got >= prev, "the delay shrinks at retry number {k} of base {base:?}");
            prev = got;
            stats.evaluations += 1;
            stats.seen(&(k, base.num_microseconds(), exp));
        }
    }
    Ok(())
}

pub async fn run(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    direct(&mut rng, stats)?;
    clock::set_us(base_time(&mut rng));
    warm::<0>(20).await?;
    // the engine, retry by retry
    for n in 0..a.scale.max(1) {
        let exp = n % 3 != 2;
        let base = *rng.pick(&[1i64, 3, 999, 1000, 1001, 250_000, 1_000_000]) + rng.range(0, 5);
        let kmax = if !exp { rng.range(3, 12) } else { rng.range(6, 36) };
        let uid = next_uid();
        let id = format!("bo{n}");
        let r = if exp { Retry::new_exponential_backoff(None, Duration::microseconds(base)) } else { Retry::new_interval_retry(None, Duration::microseconds(base)) };
        let p = P::<0>::new(uid, 0).fails(vec![true]);
        let t = clock::now_us();
        let res = job::<0>(&id, p).retry(r).run().await;
        check!(res.is_ok(), "submission refused: {res:?}");
        wait_runs(0, "first run", &[id.clone()], 1).await?;
        wait_status::<0>(&id, &[JobStatus::Queued]).await?;
        let mut ended = t;
        let mut prev = 0i64;
        for k in 1..=kmax {
            let delay = if exp { base << k.min(30) } else { base };
            let due = ended + delay;
            if k > 30 {
                // saturation: never shorter than before
                let j = AJ::get_job::<P<0>>(&id).await;
                let Some(JobType::ScheduledAt(at)) = j.as_ref().map(|j| j.context.job_type.clone()) else {
                    return Err(Fail::Violation(format!("job waiting for retry {k} reads back as {j:?}")));
                };
                let d = at.timestamp_micros() - ended;
                check!(d >= prev && d >= delay, "retry {k}: delay {d} us after {prev} us (base {base} us)");
                prev = d;
                if at > clock::dt(7_000_000_000_000_000) {
                    break; // beyond what the clock can be moved to
                }
                clock::set_us(due - 1);
                flush::<0>().await?;
                check!(rec::cnt(0, &id).start == k as usize, "retry {k} started less than {delay} us after the failed run (base {base} us)");
                clock::set_us(at.timestamp_micros() + 1);
            } else {
                prev = delay;
                if due - 1 > clock::now_us() {
                    // also a point in the middle: an earlier, wrong due time
                    if delay > 4 {
                        clock::set_us(ended + delay / 2);
                        flush::<0>().await?;
                        check!(rec::cnt(0, &id).start == k as usize, "retry {k} started within half of {delay} us (base {base} us, exponential {exp})");
                    }
                    clock::set_us(due - 1);
                    flush::<0>().await?;
                    check!(rec::cnt(0, &id).start == k as usize, "retry {k} started {} us early (base {base} us, exponential {exp})", 1);
                }
                clock::set_us(due + 1);
            }
            ended = clock::now_us();
            wait_runs(0, &format!("retry {k} (base {base} us, exponential {exp}) starts once due"), &[id.clone()], k as usize + 1).await?;
            wait_status::<0>(&id, &[JobStatus::Queued]).await?;
            stats.evaluations += 1;
            stats.max("max_retry_number", k as u64);
        }
        AJ::cancel_job::<P<0>>(id.clone()).await.map_err(|e| Fail::Violation(format!("cancel -> {e:?}")))?;
        stats.seen(&(base, exp, kmax));
    }
    // policies whose time cannot come: the queue lives on and the job stays readable
    for (i, r) in [
        Retry::new_exponential_backoff(None, Duration::days(100_000_000)),
        Retry::new_exponential_backoff(Some(3), Duration::microseconds(i64::MAX)),
        Retry::new_interval_retry(None, Duration::microseconds(i64::MAX)),
        Retry::new(i32::MAX - 1, None, RetryStrategy::ExponentialBackoff(Duration::seconds(1))),
        Retry::new(i32::MAX, None, RetryStrategy::Interval(Duration::seconds(1))),
        Retry::new(70, None, RetryStrategy::ExponentialBackoff(Duration::milliseconds(1))),
    ]
    .into_iter()
    .enumerate()
    {
        let id = format!("sat{i}");
        let res = job::<0>(&id, P::<0>::new(next_uid(), 0).fails(vec![true])).retry(r.clone()).run().await;
        check!(res.is_ok(), "job with policy {r:?} refused: {res:?}");
        wait_runs(0, "job with an extreme retry policy runs", &[id.clone()], 1).await?;
        let s = wait_status::<0>(&id, &[JobStatus::Queued]).await?;
        flush::<0>().await?;
        let c = rec::cnt(0, &id);
        check!(c.start == 1 && s == JobStatus::Queued, "policy {r:?}: {} runs, retry expected later", c.start);
        stats.evaluations += 1;
        stats.add("saturated_policies", 1);
    }
    stats.sample(json!({"seed": a.seed, "max_retry_number": stats.c.get("max_retry_number")}));
    Ok(())
}

/// A type that decides itself when to run again.
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
struct Own {
    /// microseconds from the end of run k to the next one; none left = no further run
    plan: Vec<i64>,
    done: usize,
    bad: bool,
}
static OWN: std::sync::Mutex<Vec<(String, usize, i64)>> = std::sync::Mutex::new(Vec::new());
#[async_trait::async_trait]
impl aj_core::Executable for Own {
    type Output = bool;
    async fn execute(&mut self, c: &aj_core::JobContext) -> bool {
        OWN.lock().unwrap().push((c.job_id.clone(), c.run_count, Utc::now().timestamp_micros()));
        touch();
        self.done += 1;
        !self.bad
    }
    async fn is_failed_output(&self, ok: &bool) -> bool {
        !*ok
    }
    async fn retry_at(&self, _: &mut Retry, _: bool) -> Option<DateTime<Utc>> {
        self.plan.get(self.done - 1).map(|d| Utc::now() + Duration::microseconds(*d))
    }
}
impl aj_core::BackgroundJob for Own {
    fn queue_name() -> &'static str {
        "own-retry"
    }
    fn job(self) -> aj_core::Job<Self> {
        aj_core::Job::new(self)
    }
}

/// C07: how often, with many retries.
pub async fn counts(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    warm::<0>(*rng.pick(&[1usize, 3, 20, 60])).await?;
    for round in 0..a.scale.max(1) {
        let n = rng.range(2, 8);
        let mut want: Vec<(String, usize, JobStatus)> = vec![];
        for i in 0..n {
            let id = format!("rc{round}-{i}");
            let big = i == 0;
            let fails = if big && round == 0 && rng.chance(25) { rng.range(1_005, 1_300) } else if big { if rng.chance(50) { rng.range(105, 300) } else { rng.range(258, 300) } } else { rng.range(0, 12) } as usize;
            let max = match rng.below(4) {
                0 => None,
                1 if big => None,
                1 => Some(rng.range(0, 3) as i32),
                2 => Some(fails as i32 + rng.range(-1, 1) as i32),
                _ => Some(*rng.pick(&[i32::MAX, 99, 100, 101, 127, 128, 255, 256, 1_000, 1_024])),
            }
            .map(|m| m.max(0));
            let flip = rng.chance(30);
            let mut f = vec![!flip; fails];
            f.push(flip);
            let mut p = P::<0>::new(next_uid(), 0).fails(f);
            p.flip = flip;
            let d = Duration::microseconds(rng.range(0, 300));
            // exponential delays grow: only where few retries are made
            let few = max.map_or(fails, |m| fails.min(m as usize)) <= 4;
            let r = if few && rng.chance(50) { Retry::new_exponential_backoff(max, d) } else { Retry::new_interval_retry(max, d) };
            let tries = max.map_or(fails, |m| fails.min(m as usize));
            let ok = max.map_or(true, |m| fails <= m as usize);
            let policy = fails > 0 || rng.chance(50);
            let j = job::<0>(&id, p);
            let res = if policy { j.retry(r).run().await } else { j.run().await };
            check!(res.is_ok(), "run -> {res:?}");
            want.push((id, tries + 1, if ok { JobStatus::Finished } else { JobStatus::Failed }));
        }
        for (id, runs, st) in &want {
            wait_runs(0, &format!("job {id} makes {runs} runs"), &[id.clone()], *runs).await?;
            wait_status::<0>(id, &[*st]).await?;
        }
        flush::<0>().await?;
        for (id, runs, st) in &want {
            let c = rec::cnt(0, id);
            check!(c.start == *runs, "job {id} ran {} times, expected {runs}, then {st:?}", c.start);
            let s = status::<0>(id).await;
            check!(s == Some(*st), "job {id} is {s:?}, expected {st:?}");
            let n = AJ::get_job::<P<0>>(id).await.map(|j| j.context.run_count);
            check!(n == Some(*runs), "get_job shows {n:?} runs of job {id}, it made {runs}");
            let seen: Vec<usize> = rec::with(|l| l.iter().filter_map(|e| match &e.k { K::Start { id: i, run, .. } if i == id => Some(*run), _ => None }).collect());
            check!(seen == (1..=*runs).collect::<Vec<_>>(), "the runs of job {id} were numbered {seen:?}");
            stats.evaluations += 1;
            stats.max("max_runs_of_one_job", *runs as u64);
            stats.seen(&(*runs, *st as u8));
        }
        // a type with a rule of its own, which may also repeat successful runs
        let mut own = vec![];
        for i in 0..rng.range(1, 4) {
            let id = format!("own{round}-{i}");
            let plan: Vec<i64> = (0..rng.below(5)).map(|_| *rng.pick(&[0, 1, 500, 20_000, 60_000])).collect();
            let bad = rng.chance(50);
            let o = Own { plan: plan.clone(), done: 0, bad };
            let res = aj_core::BackgroundJob::job(o).set_id(id.clone()).retry(Retry::new_interval_retry(Some(0), Duration::days(9))).run().await;
            check!(res.is_ok(), "run -> {res:?}");
            own.push((id, plan, bad));
        }
        for (id, plan, bad) in &own {
            let (t, b) = (std::time::Instant::now(), beats());
            loop {
                let s = AJ::get_job::<Own>(id).await.map(|j| j.context.job_status);
                if matches!(s, Some(JobStatus::Finished | JobStatus::Failed)) {
                    let want = if *bad { JobStatus::Failed } else { JobStatus::Finished };
                    check!(s == Some(want), "job {id} is {s:?}, expected {want:?}");
                    break;
                }
                if t.elapsed().as_millis() as u64 > stall_ms() && beats() - b > stall_ms() / 16 {
                    return Err(Fail::Violation(format!("job {id} with its own retry_at is {s:?} after runs {:?}", OWN.lock().unwrap().iter().filter(|x| x.0 == *id).collect::<Vec<_>>())));
                }
                tokio::time::sleep(std::time::Duration::from_millis(1)).await;
            }
            let got: Vec<(usize, i64)> = OWN.lock().unwrap().iter().filter(|x| x.0 == *id).map(|x| (x.1, x.2)).collect();
            check!(got.len() == plan.len() + 1, "job {id} with its own retry_at ran {} times, asked for {}", got.len(), plan.len() + 1);
            for (k, w) in got.windows(2).enumerate() {
                check!(w[1].1 - w[0].1 >= plan[k], "job {id}: run {} came {} us after run {}, retry_at said {} us", k + 2, w[1].1 - w[0].1, k + 1, plan[k]);
            }
            stats.evaluations += 1;
            stats.seen(&(plan.clone(), *bad));
        }
    }
    stats.sample(json!({"seed": a.seed, "max_runs_of_one_job": stats.c.get("max_runs_of_one_job")}));
    Ok(())
}

/// C06: cron jobs with many repeats, second by second.
pub async fn longcron(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    warm::<0>(20).await?;
    for round in 0..a.scale.max(1) {
        clock::set_us(clock::now_us() / 1_000_000 * 1_000_000 + 500_000);
        let mut jobs: Vec<(String, usize, bool)> = vec![];
        for i in 0..rng.range(2, 6) {
            let max = if i == 0 { rng.range(257, 340) } else { rng.range(1, 300) } as usize;
            let id = format!("lc{round}-{i}");
            let bad = rng.chance(30);
            // limited by a count, by an instant, or by both
            let by = rng.below(3);
            let end = clock::dt(clock::now_us() + max as i64 * 1_000_000 + rng.range(0, 400_000));
            let ctx = CronContext {
                tick_number: 0,
                max_repeat: if by == 1 { None } else { Some(max as i32) },
                end_at: match by {
                    0 => None,
                    1 => Some(end),
                    _ => Some(end + Duration::days(2)),
                },
            };
            let t = JobType::new_cron("* * * * * * *", ctx);
            let Ok(t) = t else { viol!("new_cron -> {t:?}") };
            let p = P::<0>::new(next_uid(), 0).fails(vec![bad; max + 9]);
            let r = job::<0>(&id, p).job_type(t).run().await;
            check!(r.is_ok(), "run -> {r:?}");
            jobs.push((id, max, bad));
        }
        let last = jobs.iter().map(|j| j.1).max().unwrap();
        for s in 1..=last + 3 {
            clock::advance_us(1_000_000);
            let due: Vec<String> = jobs.iter().filter(|j| j.1 >= s).map(|j| j.0.clone()).collect();
            wait_runs(0, &format!("occurrence {s} of the cron jobs {jobs:?}"), &due, s).await?;
            // recorded: else a further step would be a missed occurrence
            for (id, max, bad) in &jobs {
                let st = if s < *max { JobStatus::Queued } else if *bad { JobStatus::Failed } else { JobStatus::Finished };
                if s <= *max + 1 {
                    wait_status::<0>(id, &[st]).await?;
                }
            }
        }
        flush::<0>().await?;
        for (id, max, bad) in &jobs {
            let c = rec::cnt(0, id);
            check!(c.start == *max, "cron job {id} ran {} times, expected {max}", c.start);
            let want = if *bad { JobStatus::Failed } else { JobStatus::Finished };
            let j = AJ::get_job::<P<0>>(id).await;
            let got = j.as_ref().map(|j| (j.context.job_status, j.context.run_count));
            check!(got == Some((want, *max)), "cron job {id} is {got:?} after {max} occurrences, expected {want:?}");
            stats.evaluations += *max as u64;
            stats.max("max_occurrences_of_one_job", *max as u64);
            stats.seen(&(*max, *bad));
        }
    }
    stats.sample(json!({"seed": a.seed, "max_occurrences_of_one_job": stats.c.get("max_occurrences_of_one_job")}));
    Ok(())
}
