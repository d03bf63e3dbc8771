//! Reference-model monitor: a random client history over a handful of job ids
//! runs against the real engine under a frozen, stepped clock; after every
//! step the engine is brought to quiescence and everything it let the outside
//! see (runs of job code with their data, results of calls, get_job) is
//! compared with a small sequential model.
use crate::cron_oracle::CronE;
use crate::probe::*;
use crate::rec::{self, K};
use crate::rng::Rng;
use crate::util::*;
use crate::{check, clock, viol};
use aj_core::{
    CronContext, EnqueueConfig, Job, JobContext, JobStatus, JobType, Retry, RetryStrategy, AJ,
};
use serde_json::json;
use std::collections::BTreeMap;

type T = P<0>;

#[derive(Clone, Debug)]
pub enum MTy {
    Normal,
    At(i64),
    Cron { e: CronE, next: i64, total: i32, max: Option<i32>, end: Option<i64> },
}

#[derive(Clone, Debug)]
pub struct MRetry {
    tried: i32,
    max: Option<i32>,
    exp: bool,
    base: i64,
}

#[derive(Clone, Debug)]
struct MJob {
    id: String,
    status: JobStatus,
    ty: MTy,
    retry: Option<MRetry>,
    data: T,
    run_count: usize,
    created_at: i64,
    // None = not predicted
    enqueue_at: Option<i64>,
    run_at: Option<i64>,
    complete_at: Option<i64>,
    cancel_at: Option<i64>,
    expected: Vec<(usize, i64, i64)>,
    posts: usize,
}

#[derive(Default)]
struct Idx {
    upto: usize,
    starts: BTreeMap<String, Vec<(usize, i64, i64)>>,
    pres: BTreeMap<String, Vec<usize>>,
    posts: BTreeMap<String, usize>,
}
impl Idx {
    fn update(&mut self) {
        rec::with(|l| {
            for e in &l[self.upto..] {
                match &e.k {
                    K::Start { id, run, val, .. } => {
                        self.starts.entry(id.clone()).or_default().push((*run, *val, e.t))
                    }
                    K::Pre { id, run, .. } => self.pres.entry(id.clone()).or_default().push(*run),
                    K::Post { id, .. } => *self.posts.entry(id.clone()).or_default() += 1,
                    _ => {}
                }
            }
            self.upto = l.len();
        })
    }
}

pub struct Weights {
    pub name: &'static str,
    /// new, resubmit, enqueue-config, cancel, update, manual retry, release, advance, get-unknown
    pub w: [u64; 9],
    /// job kinds: normal, at, cron
    pub kinds: [u64; 3],
    pub retry_pct: u64,
    pub gate_pct: u64,
    pub fail_pct: u64,
}

pub fn profile(name: &str) -> Weights {
    let p = |name, w, kinds, retry_pct, gate_pct, fail_pct| Weights {
        name, w, kinds, retry_pct, gate_pct, fail_pct,
    };
    match name {
        "sched" => p("sched", [30, 3, 0, 3, 3, 2, 4, 60, 1], [2, 10, 0], 5, 5, 5),
        "retry" => p("retry", [25, 2, 0, 3, 2, 8, 8, 60, 1], [10, 3, 2], 90, 15, 70),
        "cancel" => p("cancel", [25, 8, 2, 40, 3, 8, 8, 25, 2], [5, 6, 4], 40, 25, 40),
        "update" => p("update", [25, 3, 0, 6, 45, 5, 8, 25, 2], [5, 6, 3], 30, 25, 30),
        "resubmit" => p("resubmit", [20, 40, 25, 6, 3, 3, 10, 20, 2], [6, 5, 2], 20, 25, 30),
        "manual" => p("manual", [25, 4, 2, 12, 3, 40, 10, 22, 2], [6, 5, 2], 30, 25, 40),
        "cron" => p("cron", [14, 2, 0, 4, 3, 3, 6, 70, 1], [1, 1, 14], 12, 12, 15),
        _ => p("life", [24, 10, 6, 14, 12, 12, 12, 36, 2], [6, 6, 4], 40, 25, 40),
    }
}

struct M {
    jobs: BTreeMap<String, MJob>,
    now: i64,
    rng: Rng,
    pr: Weights,
    idx: Idx,
    next_id: u64,
    trace: Vec<String>,
    unlimited_retry_cap: bool,
}

fn st(j: &MJob) -> String {
    format!("{:?}", j.status)
}

impl M {
    fn ms(&self) -> i64 {
        self.now.div_euclid(1000)
    }
    fn due(&self, j: &MJob) -> bool {
        match &j.ty {
            MTy::Normal => true,
            MTy::At(t) => self.now > *t,
            MTy::Cron { next, total, max, end, .. } => {
                self.now >= *next
                    && max.map_or(true, |m| *total <= m)
                    && end.map_or(true, |e| self.now <= e)
            }
        }
    }
    fn complete(&mut self, id: &str, ok: bool) {
        let (now, ms) = (self.now, self.ms());
        let j = self.jobs.get_mut(id).unwrap();
        j.posts += 1;
        let run = j.run_count;
        j.data.acc.push(run as i64);
        if !ok {
            if let Some(r) = j.retry.as_mut() {
                if r.max.map_or(true, |m| r.tried < m) {
                    r.tried += 1;
                    let d = if r.exp { r.base * (1i64 << r.tried) } else { r.base };
                    j.ty = match std::mem::replace(&mut j.ty, MTy::Normal) {
                        MTy::Cron { e, total, max, end, .. } => {
                            MTy::Cron { e, next: now + d, total, max, end }
                        }
                        _ => MTy::At(now + d),
                    };
                    j.status = JobStatus::Queued;
                    j.enqueue_at = Some(ms);
                    return;
                }
            }
        }
        if let MTy::Cron { e, next, total, max, end } = &mut j.ty {
            let nxt = e.next_after(now);
            let more = nxt.is_some()
                && max.map_or(true, |m| *total < m)
                && end.map_or(true, |en| nxt.unwrap() <= en);
            if more {
                *next = nxt.unwrap();
                *total += 1;
                j.status = JobStatus::Queued;
                j.enqueue_at = Some(ms);
                return;
            }
        }
        j.status = if ok { JobStatus::Finished } else { JobStatus::Failed };
        j.complete_at = Some(ms);
    }
    fn settle_model(&mut self) {
        loop {
            let ids: Vec<String> = self
                .jobs
                .values()
                .filter(|j| j.status == JobStatus::Queued && self.due(j))
                .map(|j| j.id.clone())
                .collect();
            if ids.is_empty() {
                return;
            }
            let (now, ms) = (self.now, self.ms());
            for id in ids {
                let j = self.jobs.get_mut(&id).unwrap();
                j.run_count += 1;
                j.status = JobStatus::Running;
                j.run_at = Some(ms);
                j.expected.push((j.run_count, j.data.val, now));
                if j.data.mode == Mode::Quick {
                    let ok = !j.data.planned_fail(j.run_count);
                    self.complete(&id, ok);
                }
            }
        }
    }
    fn avoid_equality(&mut self) {
        loop {
            let now = self.now;
            // whether "at t" includes t itself is left open; a cron occurrence
            // starts at its instant, also when that is where the job ends
            let hit = self.jobs.values().any(|j| match &j.ty {
                MTy::At(t) => *t == now,
                MTy::Cron { next, end, .. } => *end == Some(now) && *next != now,
                _ => false,
            });
            if !hit {
                return;
            }
            self.now += 1;
        }
    }
    fn tr(&mut self, s: String) {
        rec::note(format!("op: {s}"));
        self.trace.push(s);
    }

    async fn compare(&mut self, id: &str) -> Res {
        let j = self.jobs[id].clone();
        let ctx = || format!("{} after {:?}", id, self.trace.iter().rev().take(6).collect::<Vec<_>>());
        let Some(real) = AJ::get_job::<T>(id).await else {
            viol!("get_job({id}) lost the job; {}", ctx())
        };
        check!(
            real.context.job_status == j.status,
            "status of {id} is {:?}, expected {:?}; {}",
            real.context.job_status, j.status, ctx()
        );
        check!(real.context.job_id == id, "get_job({id}) returned job {}", real.context.job_id);
        check!(
            // the count of a run in progress is not yet (necessarily) recorded
            j.status == JobStatus::Running || real.context.run_count == j.run_count,
            "run_count of {id} is {}, expected {}; {}",
            real.context.run_count, j.run_count, ctx()
        );
        if j.status != JobStatus::Running {
            check!(
                real.data == j.data,
                "data of {id} is {:?}, expected {:?}; {}",
                real.data, j.data, ctx()
            );
        }
        let same = match (&real.context.job_type, &j.ty) {
            (JobType::Normal, MTy::Normal) => true,
            (JobType::ScheduledAt(t), MTy::At(u)) => t.timestamp_micros() == *u,
            (JobType::Cron(e, t, _, c), MTy::Cron { e: me, next, max, end, .. }) => {
                // after the last run the remembered slot carries no meaning
                *e == me.text
                    && c.max_repeat == *max
                    && c.end_at.map(|t| t.timestamp_micros()) == *end
                    && (matches!(j.status, JobStatus::Finished | JobStatus::Failed)
                        || t.timestamp_micros() == *next)
            }
            _ => false,
        };
        check!(
            same,
            "schedule of {id} is {:?}, expected {}; {}",
            real.context.job_type, ty_s(&j.ty), ctx()
        );
        let policy = |r: &Option<Retry>| {
            let mut v = json!(r);
            if let Some(o) = v.as_object_mut() {
                // how often it has been used shows in when it ends
                o.remove("retried_times");
            }
            v
        };
        let (got, want) = (policy(&real.context.retry), policy(&j.retry.as_ref().map(real_retry)));
        check!(got == want, "the retry policy of {id} is {got}, expected {want}; {}", ctx());
        for (n, got, want) in [
            ("created_at", Some(real.context.created_at), Some(j.created_at)),
            ("enqueue_at", real.context.enqueue_at, j.enqueue_at),
            ("run_at", real.context.run_at, j.run_at),
            ("complete_at", real.context.complete_at, j.complete_at),
            ("cancel_at", real.context.cancel_at, j.cancel_at),
        ] {
            if let Some(w) = want {
                check!(got == Some(w), "{n} of {id} is {got:?}, expected {w}; {}", ctx());
            }
        }
        Ok(())
    }

    /// Bring the engine to quiescence at the current virtual time and compare.
    async fn settle(&mut self, touched: &[String], stats: &mut Stats) -> Res {
        self.settle_model();
        let want: Vec<(String, usize, usize)> =
            self.jobs.values().map(|j| (j.id.clone(), j.expected.len(), j.posts)).collect();
        {
            let idx = &mut self.idx;
            let mut missing = String::new();
            let tr: Vec<String> = self.trace.iter().rev().take(5).cloned().collect();
            let r = wait_for("", 0, || {
                idx.update();
                missing.clear();
                for (id, s, p) in &want {
                    let hs = idx.starts.get(id).map_or(0, |v| v.len());
                    let hp = idx.posts.get(id).copied().unwrap_or(0);
                    if hs < *s || hp < *p {
                        missing = format!("{id}: {hs}/{s} runs started, {hp}/{p} completed");
                        return false;
                    }
                }
                true
            })
            .await;
            match r {
                Err(Fail::Violation(v)) => viol!("expected run did not happen: {missing} {v} after {tr:?}"),
                r => r?,
            }
        }
        for id in touched.iter().chain(self.jobs.keys()) {
            // cheap for jobs already in the expected status
            let want = self.jobs.get(id).map(|j| j.status);
            if let Some(w) = want {
                match wait_status::<0>(id, &[w]).await {
                    Err(Fail::Violation(v)) => {
                        viol!("{v} after {:?}", self.trace.iter().rev().take(5).collect::<Vec<_>>())
                    }
                    r => r?,
                };
            }
        }
        flush::<0>().await?;
        self.idx.update();
        for j in self.jobs.values() {
            let got = self.idx.starts.get(&j.id).cloned().unwrap_or_default();
            check!(
                got.len() <= j.expected.len() || j.retry.is_some() || matches!(j.ty, MTy::Cron { .. }) || j.status == JobStatus::Canceled,
                "extra run of {}: (run, data, time) observed {:?}, expected {:?} after {:?}",
                j.id, got, j.expected, self.trace.iter().rev().take(6).collect::<Vec<_>>()
            );
            check!(
                got == j.expected,
                "runs of {} (run, data, time): observed {:?}, expected {:?} after {:?}",
                j.id, got, j.expected, self.trace.iter().rev().take(6).collect::<Vec<_>>()
            );
            let pre = self.idx.pres.get(&j.id).cloned().unwrap_or_default();
            check!(
                pre.len() == got.len() && pre.iter().zip(&got).all(|(p, g)| *p == g.0),
                "run numbers seen by pre_execute of {}: {pre:?}, by execute: {got:?}", j.id
            );
            let hp = self.idx.posts.get(&j.id).copied().unwrap_or(0);
            check!(hp == j.posts, "completions of {}: {hp}, expected {}", j.id, j.posts);
        }
        let ids: Vec<String> = self.jobs.keys().cloned().collect();
        for id in ids {
            self.compare(&id).await?;
            stats.add("state_comparisons", 1);
        }
        Ok(())
    }

    fn gen_retry(&mut self) -> Option<MRetry> {
        if !self.rng.chance(self.pr.retry_pct) {
            return None;
        }
        let exp = self.rng.chance(40);
        Some(MRetry {
            tried: 0,
            max: if self.unlimited_retry_cap && self.rng.chance(12) {
                None
            } else {
                Some(self.rng.range(0, 4) as i32)
            },
            exp,
            base: *self.rng.pick(&[1_000, 50_000, 1_000_000, 30_000_000, 3_600_000_000])
                + self.rng.range(0, 999),
        })
    }
    fn gen_ty(&mut self) -> MTy {
        match self.rng.weighted(&self.pr.kinds) {
            0 => MTy::Normal,
            1 => {
                let far = self.pr.kinds[2] == 0 && self.rng.chance(15);
                let d = match self.rng.below(6) {
                    // centuries
                    _ if far => self.rng.range(1_000_000_000_000_000, 12_000_000_000_000_000),
                    // also before 1970
                    0 if self.pr.kinds[2] == 0 && self.rng.chance(25) => -self.now - self.rng.range(0, 2_000_000_000_000_000),
                    0 => -self.rng.range(1, 1_000_000_000),
                    1 => self.rng.range(2, 3_000),
                    2 => self.rng.range(1_000, 2_000_000),
                    3 => self.rng.range(1_000_000, 100_000_000),
                    4 => self.rng.range(1_000_000_000, 100_000_000_000),
                    _ => self.rng.range(86_400_000_000, 40_000_000_000_000),
                };
                MTy::At(self.now + d)
            }
            _ => {
                let e = if self.rng.chance(20) {
                    CronE::finite(self.now, &mut self.rng)
                } else {
                    CronE::recurring(&mut self.rng)
                };
                let next = e.next_after(self.now).expect("occurrence");
                let max = if self.rng.chance(35) { Some(self.rng.range(0, 4) as i32) } else { None };
                let end = if self.rng.chance(35) {
                    // between now and a few occurrences away
                    let mut t = next;
                    for _ in 0..self.rng.below(4) {
                        if let Some(n) = e.next_after(t + 1) {
                            t = n;
                        }
                    }
                    Some(if self.rng.chance(30) { t } else { t + self.rng.range(1, 900_000) })
                } else {
                    None
                };
                MTy::Cron { e, next, total: 1, max, end }
            }
        }
    }
    fn gen_job(&mut self, id: &str) -> MJob {
        let uid = next_uid();
        let mut data = T::new(uid, self.rng.range(-1_000_000, 1_000_000));
        if self.rng.chance(self.pr.gate_pct) {
            data.mode = Mode::Gate;
        }
        let n = self.rng.range(1, 5);
        data.fail = (0..n).map(|_| self.rng.chance(self.pr.fail_pct)).collect();
        data.flip = self.rng.chance(10);
        let retry = self.gen_retry();
        if retry.as_ref().map_or(false, |r| r.max.is_none()) {
            // unlimited retries: let it succeed in the end so that exponents stay small
            data.fail.push(data.flip);
        }
        MJob {
            id: id.into(),
            status: JobStatus::Queued,
            ty: self.gen_ty(),
            retry,
            data,
            run_count: 0,
            created_at: self.ms(),
            enqueue_at: None,
            run_at: None,
            complete_at: None,
            cancel_at: None,
            expected: vec![],
            posts: 0,
        }
    }
}

fn real_ty(t: &MTy, rng: &mut Rng, now: i64) -> JobType {
    match t {
        MTy::Normal => JobType::Normal,
        MTy::At(u) => {
            let _ = (rng, now);
            JobType::new_schedule(clock::dt(*u))
        }
        MTy::Cron { e, max, end, .. } => JobType::new_cron(
            &e.text,
            CronContext { tick_number: 0, max_repeat: *max, end_at: end.map(clock::dt) },
        )
        .expect("valid expression"),
    }
}
fn real_retry(r: &MRetry) -> Retry {
    let d = chrono::Duration::microseconds(r.base);
    Retry::new(
        r.tried,
        r.max,
        if r.exp { RetryStrategy::ExponentialBackoff(d) } else { RetryStrategy::Interval(d) },
    )
}
fn real_job(j: &MJob, rng: &mut Rng, now: i64) -> Job<T> {
    let mut b = job::<0>(&j.id, j.data.clone());
    b = match &j.ty {
        // the builder shortcuts, too
        MTy::At(u) if rng.chance(40) => b.delay(chrono::Duration::microseconds(u - now)),
        MTy::At(u) if rng.chance(50) => b.schedule_at(clock::dt(*u)),
        MTy::Cron { e, max: None, end: None, .. } if rng.chance(60) => b.cron(&e.text),
        t => b.set_job_type(real_ty(t, rng, now)),
    };
    if let Some(r) = &j.retry {
        b = match (r.tried, r.exp) {
            (0, false) if rng.chance(60) => b.retry(Retry::new_interval_retry(
                r.max,
                chrono::Duration::microseconds(r.base),
            )),
            (0, true) if rng.chance(60) => b.retry(Retry::new_exponential_backoff(
                r.max,
                chrono::Duration::microseconds(r.base),
            )),
            _ => b.set_retry(real_retry(r)),
        };
    }
    stale(&mut b.context, rng);
    b
}
/// A context may come from a job that was read: what the engine keeps in it
/// about that job is no part of the request.
fn stale(c: &mut JobContext, rng: &mut Rng) {
    if rng.chance(15) {
        c.job_status = *rng.pick(&[JobStatus::Running, JobStatus::Finished, JobStatus::Failed, JobStatus::Canceled]);
        c.run_at = Some(1);
        c.complete_at = Some(2);
    }
}
fn real_ctx(j: &MJob, rng: &mut Rng, now: i64) -> JobContext {
    let mut c = JobContext::new(j.id.clone());
    c.job_type = real_ty(&j.ty, rng, now);
    c.retry = j.retry.as_ref().map(real_retry);
    stale(&mut c, rng);
    c
}

/// What is no cron expression is refused, not scheduled somehow.
fn refused(stats: &mut Stats) -> Res {
    for e in ["", " ", "*", "* * *", "a b c d e f g", "60 * * * * * *", "* 60 * * * * *", "* * 24 * * * *", "* * * 32 * * *", "* * * 0 * * *", "* * * * 13 * *",
              "* * * * Foo * *", "* * * * * Xyz *", "-1 * * * * * *", "1- * * * * * *", "*/0 * * * * * *", "1,,2 * * * * * *", "* * * * * * * * *", "0 0 0 1 1 * 1", "@sometimes"] {
        let r = aj_core::JobType::new_cron(e, Default::default());
        check!(r.is_err(), "new_cron({e:?}) -> {r:?}");
        stats.add("refused_expressions", 1);
    }
    Ok(())
}

/// With `--only` the histories are the workload and only what belongs to one
/// property is reported: `ran` runs that never come, `once` runs too many or
/// overlapping. Any other difference ends the process without a verdict on it.
pub async fn run(a: &Args, stats: &mut Stats) -> Res {
    let only = a.s("only", "");
    let r = all(a, stats).await;
    if only == "once" {
        let o = rec::self_overlaps();
        check!(o.is_empty(), "runs of the same job in progress together: {o:?}");
    }
    match r {
        Err(Fail::Violation(v)) if only == "ran" && !v.starts_with("expected run") || only == "once" && !v.starts_with("extra run") => {
            stats.add("ended_by_other_differences", 1);
            rec::note(format!("other difference: {v}"));
            Ok(())
        }
        r => r,
    }
}

async fn all(a: &Args, stats: &mut Stats) -> Res {
    let pr = profile(&a.s("profile", "life"));
    let ops = a.n("ops", 60);
    let histories = a.scale;
    let mut rng = Rng::new(a.seed);
    clock::set_us(base_time(&mut rng));
    warm::<0>(100_000).await?;
    if pr.name == "cron" {
        refused(stats)?;
    }
    for h in 0..histories {
        let mut m = M {
            jobs: BTreeMap::new(),
            now: clock::now_us(),
            rng: Rng::new(a.seed.wrapping_mul(1_000_003).wrapping_add(h)),
            pr: profile(pr.name),
            idx: Idx::default(),
            next_id: 0,
            trace: vec![],
            unlimited_retry_cap: true,
        };
        m.idx.upto = rec::len();
        m.now = base_time(&mut m.rng);
        clock::set_us(m.now);
        let prefix = format!("h{h}");
        history(&mut m, ops, &prefix, stats).await?;
        // retire everything: open gates, cancel what is pending
        let ids: Vec<String> = m.jobs.keys().cloned().collect();
        for id in &ids {
            let j = m.jobs[id].clone();
            if j.status == JobStatus::Running {
                release(j.data.uid, Some(true ^ j.data.flip));
                m.complete(id, true);
            }
        }
        m.tr("retire: released all gates".into());
        m.settle(&[], stats).await?;
        for id in &ids {
            let r = AJ::cancel_job::<T>(id.clone()).await;
            check!(r.is_ok(), "cancel_job({id}) -> {r:?}");
        }
        stats.evaluations += 1;
        let shape: Vec<String> =
            m.trace.iter().map(|s| s.split(' ').take(3).collect::<Vec<_>>().join(" ")).collect();
        stats.seen(&shape);
        let runs: usize = m.jobs.values().map(|j| j.expected.len()).sum();
        stats.add("runs_observed", runs as u64);
        stats.max("max_runs_of_one_job", m.jobs.values().map(|j| j.expected.len()).max().unwrap_or(0) as u64);
        stats.add("jobs", m.jobs.len() as u64);
        if h == 0 {
            stats.sample(json!({"seed": a.seed, "history": h, "ops": m.trace.iter().take(14).collect::<Vec<_>>()}));
        }
    }
    Ok(())
}

/// One submission, by any of the three ways that mean "run it".
async fn submit(j: Job<T>, id: &str, how: u64, uid: u64) -> Res {
    match how {
        0 | 1 => {
            j.just_run();
            let (t, b) = (std::time::Instant::now(), beats());
            loop {
                if matches!(AJ::get_job::<T>(id).await, Some(g) if g.data.uid == uid) {
                    return Ok(());
                }
                if t.elapsed().as_millis() as u64 > stall_ms() && beats() - b > stall_ms() / 16 {
                    viol!("just_run() of {id} has no effect; panics {:?}", crate::panics());
                }
                tokio::time::sleep(std::time::Duration::from_micros(200)).await;
            }
        }
        2 => {
            let r = AJ::add_job(j, NAMES[0]).await;
            check!(matches!(&r, Ok(i) if i == id), "add_job of {id} -> {r:?}");
        }
        _ => {
            let r = j.run().await;
            check!(matches!(&r, Ok(i) if i == id), "run() of {id} -> {r:?}");
        }
    }
    Ok(())
}

async fn history(m: &mut M, ops: u64, prefix: &str, stats: &mut Stats) -> Res {
    for _ in 0..ops {
        let w = m.pr.w;
        let mut op = m.rng.weighted(&w);
        let ids: Vec<String> = m.jobs.keys().cloned().collect();
        if ids.is_empty() && !(op == 7 || op == 8) {
            op = 0;
        }
        if op == 0 && ids.len() >= 14 {
            op = 7;
        }
        let mut touched = vec![];
        match op {
            0 => {
                let id = format!("{prefix}-{}", m.next_id);
                m.next_id += 1;
                let mut j = m.gen_job(&id);
                j.enqueue_at = Some(m.ms());
                let now = m.now;
                let rj = real_job(&j, &mut m.rng, now);
                m.tr(format!("submit {id} {} gate={} retry={:?} fail={:?}", ty_s(&j.ty), j.data.mode == Mode::Gate, j.retry, j.data.fail));
                let (how, uid) = (m.rng.below(10), j.data.uid);
                submit(rj, &id, how, uid).await?;
                m.jobs.insert(id.clone(), j);
                touched.push(id);
                stats.add("op_submit", 1);
            }
            1 | 2 => {
                // resubmit an id (1: run() = re-run + override; 2: explicit config)
                let id = m.rng.pick(&ids).clone();
                let (re_run, over) = if op == 1 {
                    (true, true)
                } else {
                    *m.rng.pick(&[(false, true), (false, false), (true, true)])
                };
                let new = m.gen_job(&id);
                let now = m.now;
                let rj = real_job(&new, &mut m.rng, now);
                let old = m.jobs[&id].clone();
                m.tr(format!("resubmit {id} {} re_run={re_run} override={over} gate={} new={} val={}", st(&old), new.data.mode == Mode::Gate, ty_s(&new.ty), new.data.val));
                if op == 1 {
                    // just_run tells nothing: use it where its effect can be waited for
                    let how = if old.status == JobStatus::Running { 5 } else { m.rng.below(10) };
                    submit(rj, &id, how, new.data.uid).await?;
                } else {
                    let cfg = if (re_run, over) == (true, true) {
                        EnqueueConfig::new_re_run()
                    } else if over {
                        EnqueueConfig::new_skip_if_finished()
                    } else {
                        EnqueueConfig::new(re_run, over)
                    };
                    let r = AJ::enqueue_job(rj, cfg, NAMES[0]).await;
                    check!(r.is_ok(), "enqueue_job({id}) -> {r:?}");
                }
                m.apply_submit(&id, new, re_run, over);
                touched.push(id);
                stats.add(&format!("op_resubmit_{}", st(&old)), 1);
            }
            3 => {
                let id = m.rng.pick(&ids).clone();
                let old = m.jobs[&id].clone();
                m.tr(format!("cancel {id} {}", st(&old)));
                let r = AJ::cancel_job::<T>(id.clone()).await;
                check!(r.is_ok(), "cancel_job({id}) -> {r:?}");
                if old.status == JobStatus::Queued {
                    let ms = m.ms();
                    let j = m.jobs.get_mut(&id).unwrap();
                    j.status = JobStatus::Canceled;
                    j.cancel_at = Some(ms);
                }
                touched.push(id);
                stats.add(&format!("op_cancel_{}", st(&old)), 1);
            }
            4 => {
                let id = m.rng.pick(&ids).clone();
                let old = m.jobs[&id].clone();
                let mut new = m.gen_job(&id);
                let with_ctx = m.rng.chance(40);
                let now = m.now;
                let mut c = if with_ctx { Some(real_ctx(&new, &mut m.rng, now)) } else { None };
                // a context that was not made for this job
                let other = format!("{prefix}-elsewhere{}", m.rng.below(1000));
                if let Some(c) = c.as_mut().filter(|_| m.rng.chance(30)) {
                    c.job_id = other.clone();
                }
                m.tr(format!("update {id} {} ctx={with_ctx} gate={} val={} ty={}", st(&old), new.data.mode == Mode::Gate, new.data.val, ty_s(&new.ty)));
                let r = AJ::update_job::<T>(&id, new.data.clone(), c).await;
                check!(r.is_ok(), "update_job({id}) -> {r:?}");
                check!(AJ::get_job::<T>(&other).await.is_none(), "update_job({id}) with a context made for another id created that id");
                if !with_ctx {
                    // keeps the stored context, replaces the data
                    let d = new.data.clone();
                    new = old.clone();
                    new.data = d;
                }
                m.apply_submit(&id, new, true, true);
                touched.push(id);
                stats.add(&format!("op_update_{}", st(&old)), 1);
            }
            5 => {
                let id = m.rng.pick(&ids).clone();
                let old = m.jobs[&id].clone();
                m.tr(format!("retry {id} {}", st(&old)));
                let r = AJ::retry_job::<T>(&id).await;
                let done = matches!(
                    old.status,
                    JobStatus::Finished | JobStatus::Failed | JobStatus::Canceled
                );
                check!(matches!(r, Ok(b) if b == done), "retry_job({id}) in {:?} -> {r:?}", old.status);
                if done {
                    let ms = m.ms();
                    let j = m.jobs.get_mut(&id).unwrap();
                    j.status = JobStatus::Queued;
                    j.enqueue_at = Some(ms);
                }
                touched.push(id);
                stats.add(&format!("op_retry_{}", st(&old)), 1);
            }
            6 => {
                let run: Vec<String> = m
                    .jobs
                    .values()
                    .filter(|j| j.status == JobStatus::Running)
                    .map(|j| j.id.clone())
                    .collect();
                if run.is_empty() {
                    continue;
                }
                let id = m.rng.pick(&run).clone();
                let j = m.jobs[&id].clone();
                let planned_ok = !j.data.planned_fail(j.run_count);
                let force = if m.rng.chance(50) { Some(m.rng.chance(50)) } else { None };
                m.tr(format!("release {id} force={force:?}"));
                // `force` is the raw outcome before post_execute
                release(j.data.uid, force.map(|ok| ok ^ j.data.flip));
                m.complete(&id, force.unwrap_or(planned_ok));
                touched.push(id);
                stats.add("op_release", 1);
            }
            7 => {
                let dues: Vec<i64> = m
                    .jobs
                    .values()
                    .filter(|j| j.status == JobStatus::Queued)
                    .flat_map(|j| match &j.ty {
                        MTy::At(t) => vec![*t],
                        MTy::Cron { next, end, .. } => {
                            let mut v = vec![*next];
                            v.extend(end.iter());
                            v
                        }
                        _ => vec![],
                    })
                    .filter(|t| *t > m.now)
                    .collect();
                let nearest = dues.iter().min().copied();
                let target = match m.rng.below(8) {
                    0 | 1 if nearest.is_some() => nearest.unwrap() - 1,
                    2 if nearest.is_some() => nearest.unwrap(),
                    3 | 4 if nearest.is_some() => nearest.unwrap() + 1,
                    5 if nearest.is_some() => nearest.unwrap() + m.rng.range(1, 3_000_000),
                    6 if !dues.is_empty() => *m.rng.pick(&dues) + 1,
                    _ => m.now + m.rng.range(1, 5_000_000),
                };
                if target <= m.now {
                    continue;
                }
                m.now = target;
                m.avoid_equality();
                m.tr(format!("advance to {}", m.now));
                clock::set_us(m.now);
                stats.add("op_advance", 1);
                if nearest == Some(m.now + 1) {
                    stats.add("clock_stops_1us_before_due", 1);
                }
                if nearest == Some(m.now - 1) {
                    stats.add("clock_stops_1us_after_due", 1);
                }
            }
            _ => {
                let ghost = format!("{prefix}-ghost{}", m.rng.below(1000));
                m.tr(format!("ghost ops {ghost}"));
                check!(AJ::get_job::<T>(&ghost).await.is_none(), "get_job of unknown id is not None");
                let r = AJ::retry_job::<T>(&ghost).await;
                check!(matches!(r, Ok(false)), "retry_job of unknown id -> {r:?}");
                let r = AJ::cancel_job::<T>(ghost.clone()).await;
                check!(r.is_ok(), "cancel_job of unknown id -> {r:?}");
                let r = AJ::update_job::<T>(&ghost, T::new(next_uid(), 1), None).await;
                check!(r.is_ok(), "update_job of unknown id -> {r:?}");
                check!(AJ::get_job::<T>(&ghost).await.is_none(), "an unknown id came into being");
                stats.add("op_ghost", 1);
            }
        }
        m.settle(&touched, stats).await?;
    }
    Ok(())
}

fn ty_s(t: &MTy) -> String {
    match t {
        MTy::Normal => "normal".into(),
        MTy::At(u) => format!("at({u})"),
        MTy::Cron { e, next, max, end, .. } => format!("cron('{}' next={next} max={max:?} end={end:?})", e.text),
    }
}

impl M {
    /// Submission of an id that may exist, as the documentation of the enqueue
    /// options has it.
    fn apply_submit(&mut self, id: &str, mut new: MJob, re_run: bool, over: bool) {
        let ms = self.ms();
        let old = self.jobs[id].clone();
        let done =
            matches!(old.status, JobStatus::Finished | JobStatus::Failed | JobStatus::Canceled);
        new.expected = old.expected.clone();
        new.posts = old.posts;
        if old.status == JobStatus::Running {
            return;
        }
        if done && re_run {
            new.status = JobStatus::Queued;
            new.enqueue_at = Some(ms);
            self.jobs.insert(id.into(), new);
        } else if over {
            new.status = old.status;
            // bookkeeping times of a replaced record are not predicted
            new.enqueue_at = None;
            new.run_at = None;
            new.complete_at = None;
            new.cancel_at = None;
            self.jobs.insert(id.into(), new);
        }
    }
}
