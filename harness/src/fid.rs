//! C15: payloads, ids and contexts.
use crate::rng::Rng;
use crate::util::*;
use crate::{check, clock, viol};
use aj_core::job::{CronContext, JobType, Retry, RetryStrategy};
use aj_core::{BackgroundJob, Executable, Job, JobContext, JobStatus, AJ};
use async_trait::async_trait;
use chrono::{DateTime, Duration, Utc};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Shape {
    Unit,
    New(i64),
    Tuple(u8, String),
    Struct { a: Option<bool>, b: Vec<Shape> },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Data {
    s: String,
    c: char,
    i: i64,
    u: u64,
    small: (i8, u8, i16, u16, i32, u32),
    big: i128,
    o: Option<String>,
    v: Vec<String>,
    bytes: Vec<u8>,
    m: BTreeMap<String, Vec<i32>>,
    ints: HashMap<u32, bool>,
    sh: Shape,
    unit: (),
    fails: u32,
    log: Vec<String>,
}

static GOT: Mutex<Vec<(String, usize, Data)>> = Mutex::new(Vec::new());

#[async_trait]
impl Executable for Data {
    type Output = bool;
    async fn pre_execute(&mut self, c: &JobContext) {
        self.log.push(format!("pre {}", c.run_count));
        crate::rec::push(crate::rec::K::Pre { ty: 9, id: c.job_id.clone(), uid: 0, run: c.run_count });
    }
    async fn execute(&mut self, c: &JobContext) -> bool {
        GOT.lock().unwrap().push((c.job_id.clone(), c.run_count, self.clone()));
        self.log.push(format!("run {} of {}", c.run_count, c.job_id));
        self.i = self.i.wrapping_add(1);
        self.s.push('\u{1F980}');
        (c.run_count as u32) > self.fails
    }
    async fn post_execute(&mut self, out: bool, c: &JobContext) -> bool {
        // written after execute: part of the state the next run sees
        self.log.push(format!("post {}", c.run_count));
        crate::rec::push(crate::rec::K::Post { ty: 9, id: c.job_id.clone(), uid: 0, run: c.run_count, ok: out });
        out
    }
    async fn is_failed_output(&self, ok: &bool) -> bool {
        !*ok
    }
}
impl BackgroundJob for Data {
    fn queue_name() -> &'static str {
        "fidelity"
    }
    fn job(self) -> Job<Self> {
        Job::new(self)
    }
}

fn step(mut d: Data, id: &str, run: usize) -> Data {
    d.log.push(format!("pre {run}"));
    d.log.push(format!("run {run} of {id}"));
    d.log.push(format!("post {run}"));
    d.i = d.i.wrapping_add(1);
    d.s.push('\u{1F980}');
    d
}

fn rstr(r: &mut Rng, max: usize) -> String {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => max,
        _ => r.below(24) as usize,
    };
    let pool: Vec<char> = "aZ09 \t\n\r\0\"'\\/{}[]:,\u{7f}\u{80}\u{a0}é漢\u{d7ff}\u{e000}\u{fffd}\u{ffff}\u{10000}🦀\u{10ffff}\u{2028}\u{202e}\u{feff}%$#*?".chars().collect();
    (0..n).map(|_| *r.pick(&pool)).collect()
}
fn rshape(r: &mut Rng, d: usize) -> Shape {
    match r.below(if d > 4 { 3 } else { 5 }) {
        0 => Shape::Unit,
        1 => Shape::New(*r.pick(&[0, -1, i64::MIN, i64::MAX, 1 << 53, (1 << 53) + 1])),
        2 => Shape::Tuple(255, rstr(r, 30)),
        _ => Shape::Struct { a: *r.pick(&[None, Some(true), Some(false)]), b: (0..r.below(4)).map(|_| rshape(r, d + 1)).collect() },
    }
}
fn deep(n: usize) -> Shape {
    (0..n).fold(Shape::New(n as i64), |s, _| Shape::Struct { a: Some(true), b: vec![s] })
}
fn rdata(r: &mut Rng, huge: bool) -> Data {
    Data {
        s: rstr(r, if huge { 60_000 } else { 2_000 }),
        c: *r.pick(&['a', '\0', '\u{10ffff}', '"', '\\', '\u{2028}']),
        i: *r.pick(&[0, 1, -1, i64::MIN, i64::MAX - 9, (1 << 53) + 1, 1_234_567_890_123_456_789]),
        u: *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, (1 << 53) + 1]),
        small: (i8::MIN, u8::MAX, i16::MIN, u16::MAX, i32::MIN, u32::MAX),
        big: *r.pick(&[0, -1, i64::MIN as i128, u64::MAX as i128, u64::MAX as i128 + 1, i64::MIN as i128 - 1, i128::MAX, i128::MIN]),
        o: if r.chance(50) { None } else { Some(rstr(r, 100)) },
        v: (0..r.below(if huge { 2_000 } else { 12 })).map(|_| rstr(r, 40)).collect(),
        bytes: (0..r.below(600)).map(|x| x as u8).collect(),
        m: (0..r.below(6)).map(|i| (format!("{}{i}", rstr(r, 20)), vec![i as i32, i32::MIN])).collect(),
        ints: (0..r.below(5)).map(|i| (i as u32 * 1_000_000_007 % u32::MAX, i % 2 == 0)).collect(),
        sh: if r.chance(12) { deep(r.range(10, 36) as usize) } else { rshape(r, 0) },
        unit: (),
        fails: r.below(4) as u32,
        log: vec![],
    }
}

fn rid(r: &mut Rng, n: usize) -> String {
    match r.below(9) {
        0 => format!("{n}"),
        1 => format!("fidelity:queue:Queued{n}"),
        2 => format!("{n} {}", rstr(r, 200)),
        3 => format!("{}{n}", "x".repeat(10_000)),
        4 => format!("{n}\n\r\0\u{feff}"),
        5 => format!("*{n}\r\n$3\r\nfoo"),
        6 => format!("aj_storage{n}"),
        _ => format!("{}{n}", rstr(r, 30)),
    }
}

/// A value that serde_json cannot write (a map whose keys are no strings).
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Unstorable {
    m: BTreeMap<(u8, u8), u8>,
}
static UNSTORABLE_RUNS: Mutex<u32> = Mutex::new(0);
#[async_trait]
impl Executable for Unstorable {
    type Output = ();
    async fn execute(&mut self, _: &JobContext) {
        *UNSTORABLE_RUNS.lock().unwrap() += 1;
    }
}
impl BackgroundJob for Unstorable {
    fn queue_name() -> &'static str {
        "unstorable"
    }
    fn job(self) -> Job<Self> {
        Job::new(self)
    }
}

/// JSON has no NaN: serde_json writes null, which does not read back.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Float {
    x: f64,
}
static FLOAT_RUNS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static FLOAT_BITS: Mutex<Vec<(String, u64)>> = Mutex::new(Vec::new());
#[async_trait]
impl Executable for Float {
    type Output = ();
    async fn execute(&mut self, c: &JobContext) {
        FLOAT_BITS.lock().unwrap().push((c.job_id.clone(), self.x.to_bits()));
        FLOAT_RUNS.lock().unwrap().push(c.job_id.clone());
        crate::rec::push(crate::rec::K::Note(format!("float {} {}", c.job_id, self.x)));
    }
}
impl BackgroundJob for Float {
    fn queue_name() -> &'static str {
        "float"
    }
    fn job(self) -> Job<Self> {
        Job::new(self)
    }
}

async fn until(what: &str, mut f: impl FnMut() -> bool) -> Res {
    let (t, b) = (std::time::Instant::now(), beats());
    while !f() {
        if t.elapsed().as_millis() as u64 > stall_ms() && beats() - b > stall_ms() / 16 {
            viol!("{what}: not observed; panics {:?}", crate::panics());
        }
        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
    }
    Ok(())
}

fn got(id: &str) -> Vec<(usize, Data)> {
    GOT.lock().unwrap().iter().filter(|g| g.0 == id).map(|g| (g.1, g.2.clone())).collect()
}

async fn wait_done(id: &str) -> Res<Job<Data>> {
    let (t, b) = (std::time::Instant::now(), beats());
    loop {
        let j = AJ::get_job::<Data>(id).await;
        if let Some(j) = &j {
            if matches!(j.context.job_status, JobStatus::Finished | JobStatus::Failed) {
                return Ok(j.clone());
            }
        }
        if t.elapsed().as_millis() as u64 > stall_ms() && beats() - b > stall_ms() / 16 {
            viol!("job {id:.80?} is {:?}, not completed; panics {:?}", j.map(|j| j.context.job_status), crate::panics());
        }
        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
    }
}

/// Ids that differ in little: each is a job of its own.
async fn twins(rng: &mut Rng, groups: u64, stats: &mut Stats) -> Res {
    for g in 0..groups {
        let base = match rng.below(4) {
            0 => format!("Twin{g}"),
            1 => format!("{g}{}", "k".repeat(*rng.pick(&[30usize, 62, 126, 250, 1000, 5000]))),
            2 => format!("{g}:\u{e9}t\u{e9}"),
            _ => format!("{g}/a.b-c_d"),
        };
        let mut ids: Vec<String> = vec![base.clone(), base.to_uppercase(), base.to_lowercase(), format!(" {base}"), format!("{base} "), format!("{base}\0"), format!("{base}\n")];
        ids.extend([format!("{base}1"), format!("{base}2"), format!("0{base}"), format!("{base}{base}"), base.replace('\u{e9}', "e\u{301}"), format!("{base}*"), format!("{base}?"), format!("\"{base}\"")]);
        ids.extend([base.chars().skip(1).collect::<String>(), base.chars().take(base.chars().count() - 1).collect(), base.replace([':', '/', '.', '-', '_'], "")].into_iter().filter(|i| !i.is_empty() && i.len() > 2));
        if g == 0 {
            ids.push(String::new());
        }
        ids.sort();
        ids.dedup();
        let tag = |i: usize| format!("twin {g} {i}");
        let mut d0 = rdata(&mut Rng::new(5), false);
        d0.fails = 0;
        let data = |s: String| Data { s, ..d0.clone() };
        let far = clock::dt(4_600_000_000_000_000);
        for (i, id) in ids.iter().enumerate() {
            let r = data(tag(i)).job().set_id(id.clone()).schedule_at(far).run().await;
            check!(matches!(&r, Ok(x) if x == id), "submission -> {r:.300?}, id {id:.80?}");
        }
        let gone = rng.below(ids.len() as u64) as usize;
        let r = AJ::cancel_job::<Data>(ids[gone].clone()).await;
        check!(r.is_ok(), "cancel -> {r:?}");
        for (i, id) in ids.iter().enumerate() {
            let Some(j) = AJ::get_job::<Data>(id).await else { viol!("job {id:.120?} cannot be read back") };
            check!(j.context.job_id == *id && j.data == data(tag(i)), "get_job({id:.120?}) shows the job {:.120?} with {:.60?}, submitted with {:?}", j.context.job_id, j.data.s, tag(i));
            check!(j.is_cancelled() == (i == gone), "job {id:.120?} is {:?} after the cancel of {:.120?}", j.context.job_status, ids[gone]);
        }
        for (i, id) in ids.iter().enumerate().filter(|(i, _)| *i != gone) {
            let r = AJ::update_job::<Data>(id, data(format!("{}!", tag(i))), Some(JobContext::new(id.clone()))).await;
            check!(r.is_ok(), "update -> {r:?}");
        }
        let n = ids.len() - 1;
        let mine = |i: usize| GOT.lock().unwrap().iter().filter(|x| x.0 == ids[i] && x.2.s.starts_with(&format!("twin {g} "))).map(|x| x.2.s.clone()).collect::<Vec<_>>();
        until("jobs with similar ids run", || (0..ids.len()).map(|i| mine(i).len()).sum::<usize>() >= n).await?;
        for (i, id) in ids.iter().enumerate() {
            if i != gone {
                wait_done(id).await?;
            }
            let m = mine(i);
            check!(m == if i == gone { vec![] } else { vec![format!("{}!", tag(i))] }, "job {id:.120?} ran with {m:.200?}, expected {:?}!", tag(i));
        }
        stats.evaluations += ids.len() as u64;
        stats.add("similar_ids", ids.len() as u64);
        stats.seen(&ids);
    }
    Ok(())
}

/// State that runs leave behind, over cron occurrences, retries in between, and manual retries.
async fn lives(rng: &mut Rng, groups: u64, stats: &mut Stats) -> Res {
    for g in 0..groups {
        let mut d = rdata(rng, false);
        d.fails = rng.below(3) as u32;
        let id = format!("life{g}");
        let (max, manual) = (rng.range(1, 4), rng.below(3) as usize);
        // stopped clock, stepped by a second whenever nothing is left to run
        clock::set_us(clock::now_us());
        let cron = JobType::new_cron("* * * * * * *", CronContext { tick_number: 0, max_repeat: Some(max as i32), end_at: None });
        let Ok(cron) = cron else { viol!("new_cron -> {cron:?}") };
        let r = d.clone().job().set_id(id.clone()).job_type(cron).retry(Retry::new_interval_retry(Some(5), Duration::microseconds(1))).run().await;
        check!(r.is_ok(), "run -> {r:?}");
        let cron_runs = d.fails as usize + max as usize;
        let (mut cur, mut k) = (d.clone(), 0);
        while k < cron_runs + manual {
            if k >= cron_runs {
                let r = AJ::retry_job::<Data>(&id).await;
                check!(matches!(r, Ok(true)), "retry_job of a completed job -> {r:?}");
            }
            clock::advance_us(1_000_001);
            until(&format!("job {id} makes run {}", k + 1), || got(&id).len() > k).await?;
            k += 1;
            // its end recorded: waiting again, or done
            let (t, b) = (std::time::Instant::now(), beats());
            cur = step(cur, &id, k);
            loop {
                let Some(j) = AJ::get_job::<Data>(&id).await else { viol!("job {id} is gone") };
                if !j.is_running() && j.context.run_count == k {
                    check!(j.data == cur, "after {k} runs get_job shows {:.600?}, expected {cur:.600?}", j.data);
                    break;
                }
                if t.elapsed().as_millis() as u64 > stall_ms() && beats() - b > stall_ms() / 16 {
                    viol!("job {id} is {:?} with {} runs after run {k}", j.context.job_status, j.context.run_count);
                }
                tokio::time::sleep(std::time::Duration::from_millis(1)).await;
            }
        }
        let mut cur = d;
        let g = got(&id);
        check!(g.len() == cron_runs + manual, "job {id} made {} runs, expected {cron_runs} and {manual} manual ones", g.len());
        for (i, (rc, data)) in g.iter().enumerate() {
            check!(*rc == i + 1, "run {} is numbered {rc}", i + 1);
            let mut at = cur.clone();
            at.log.push(format!("pre {}", i + 1));
            check!(*data == at, "run {} of {cron_runs} and {manual} received {data:.600?}, expected {at:.600?}", i + 1);
            cur = step(cur, &id, i + 1);
        }
        stats.evaluations += g.len() as u64;
        stats.add("runs_of_repeating_jobs", g.len() as u64);
    }
    Ok(())
}

pub async fn run(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    let r = rdata(&mut Rng::new(7), false).job().set_id("first".into()).run().await;
    check!(r.is_ok(), "run -> {r:?}");
    let r = AJ::update_work_queue::<Data>(aj_core::WorkQueueConfig { process_tick_duration: std::time::Duration::from_millis(1), max_processing_jobs: 30 }).await;
    check!(r.is_ok(), "update_work_queue -> {r:?}");
    let n = 12 * a.scale.max(1) as usize;
    for i in 0..n {
        let mut d = rdata(&mut rng, i % 12 == 11);
        if i == 7 {
            // sizes around and beyond what a limit could be set to
            d.s = "é漢 x".repeat(*rng.pick(&[8_192usize, 40_000, 150_000, 300_000]));
        }
        let id = rid(&mut rng, i);
        // 1. context: stored and read back as given
        let jt = match rng.below(5) {
            0 => JobType::ScheduledAt(DateTime::<Utc>::from_timestamp(4_102_444_800 + rng.range(0, 1 << 33), 0).unwrap() + Duration::microseconds(rng.range(0, 999_999))),
            1 => JobType::ScheduledAt(clock::dt(7_000_000_000_000_000 + rng.range(0, 999_999))),
            2 => JobType::Cron(
                (*rng.pick(&["0 0 0 1 1 * *", "*/5 * * * * * *", "0 30 9,12,15 1,15 May-Aug Mon,Wed,Fri 2090/2"])).into(),
                clock::dt(5_000_000_000_000_000 + rng.range(0, 999_999)),
                rng.range(1, i32::MAX as i64) as i32,
                CronContext { tick_number: rng.range(i32::MIN as i64, i32::MAX as i64) as i32, max_repeat: *rng.pick(&[None, Some(0), Some(1), Some(i32::MAX), Some(-3)]), end_at: *rng.pick(&[None, Some(clock::dt(6_000_000_000_000_001)), Some(clock::dt(1))]) },
            ),
            _ => JobType::ScheduledAt(clock::dt(4_600_000_000_000_000)),
        };
        let retry = match rng.below(4) {
            0 => None,
            1 => Some(Retry::new(rng.range(0, i32::MAX as i64) as i32, *rng.pick(&[None, Some(0), Some(i32::MAX), Some(7)]), RetryStrategy::Interval(Duration::microseconds(rng.range(0, i64::MAX - 1))))),
            2 => Some(Retry::new(3, Some(2), RetryStrategy::ExponentialBackoff(Duration::microseconds(*rng.pick(&[0, 1, 999, 1_000_001, i64::MAX]))))),
            _ => Some(Retry::default()),
        };
        let mut ctx = JobContext::new(id.clone());
        ctx.job_type = jt;
        ctx.retry = retry;
        ctx.created_at = rng.range(0, i64::MAX - 1);
        ctx.run_count = rng.below(1 << 40) as usize;
        ctx.complete_at = *rng.pick(&[None, Some(5), Some(i64::MAX)]);
        // Debug, not the engine's own serialisation: what that one drops would be missing on both sides
        let want = ctx.clone();
        let j = d.clone().job().set_context(ctx);
        let r = j.run().await;
        check!(matches!(&r, Ok(x) if *x == id), "submission -> {r:.300?}, id {id:.80?}");
        let Some(j) = AJ::get_job::<Data>(&id).await else { viol!("a job that waits cannot be read back (id {id:.80?})") };
        let mut have = j.context.clone();
        check!(have.enqueue_at.is_some(), "no enqueue time");
        have.enqueue_at = want.enqueue_at;
        let (want, have) = (format!("{want:?}"), format!("{have:?}"));
        check!(have == want, "context changed in storage: submitted {want:.900}, read back {have:.900}");
        check!(j.data == d, "data changed in storage (id {id:.80?}): submitted {d:.400?}, read back {:.400?}", j.data);
        stats.evaluations += 2;
        // 2. let it run: value received, state handed from run to run
        let mut c = JobContext::new(id.clone());
        let fails = d.fails as usize;
        let max = rng.below(4) as i32;
        c.retry = Some(Retry::new_interval_retry(Some(max), Duration::microseconds(1)));
        let r = AJ::update_job::<Data>(&id, d.clone(), Some(c)).await;
        check!(r.is_ok(), "update -> {r:?}");
        let runs = fails.min(max as usize) + 1;
        until(&format!("job {id:.80?} makes {runs} runs"), || got(&id).len() >= runs).await?;
        let j = wait_done(&id).await?;
        let g = got(&id);
        check!(g.len() == runs, "{} runs, expected {runs}", g.len());
        let mut cur = d.clone();
        for (k, (rc, data)) in g.iter().enumerate() {
            check!(*rc == k + 1, "run count {rc} in run {}", k + 1);
            // execute sees what pre_execute wrote
            let mut at = cur.clone();
            at.log.push(format!("pre {}", k + 1));
            check!(*data == at, "run {} of {id:.80?} received {data:.600?}, expected {at:.600?}", k + 1);
            cur = step(cur, &id, k + 1);
        }
        check!(j.data == cur, "after {runs} runs get_job shows {:.600?}, expected {cur:.600?}", j.data);
        check!((j.context.job_status == JobStatus::Failed) == (fails > max as usize), "status {:?} after {fails} failing runs with {max} retries", j.context.job_status);
        check!(j.context.job_id == id && j.context.run_count == runs, "get_job({id:.60?}): id {:.60?}, {} runs of {runs}", j.context.job_id, j.context.run_count);
        stats.evaluations += runs as u64 + 1;
        stats.max("max_payload_bytes", serde_json::to_string(&d).unwrap().len() as u64);
        stats.seen(&(id.clone(), format!("{:?}", d)));
        if i < 2 {
            stats.sample(json!({"id": id.chars().take(60).collect::<String>(), "string_bytes": d.s.len(), "runs": runs, "context": want.chars().take(200).collect::<String>()}));
        }
    }
    twins(&mut rng, a.scale.max(1), stats).await?;
    // 3. what cannot be stored is refused and leaves nothing behind
    let ok = Unstorable { m: BTreeMap::new() };
    let r = ok.clone().job().set_id("storable".into()).run().await;
    check!(r.is_ok(), "run -> {r:?}");
    until("a storable value runs", || *UNSTORABLE_RUNS.lock().unwrap() == 1).await?;
    let bad = Unstorable { m: [((1, 2), 3)].into() };
    for i in 0..3 {
        let id = format!("bad{i}");
        let r = bad.clone().job().set_id(id.clone()).run().await;
        check!(r.is_err(), "a job that cannot be stored is accepted: {r:?}");
        let g = AJ::get_job::<Unstorable>(&id).await;
        check!(g.is_none(), "a refused job is found: {g:?}");
        // an existing waiting job is not damaged by a refused replacement
        let id = format!("good{i}");
        let n0 = *UNSTORABLE_RUNS.lock().unwrap();
        let r = ok.clone().job().set_id(id.clone()).schedule_at(Utc::now() + Duration::days(3)).run().await;
        check!(r.is_ok(), "run -> {r:?}");
        let u = AJ::update_job::<Unstorable>(&id, bad.clone(), None).await;
        check!(u.is_err(), "an update that cannot be stored returned {u:?}");
        let g = AJ::get_job::<Unstorable>(&id).await;
        check!(matches!(&g, Some(j) if j.is_queued() && j.data == ok), "a refused update changed the job: {g:?}");
        let u = AJ::update_job::<Unstorable>(&id, ok.clone(), Some(JobContext::new(id.clone()))).await;
        check!(u.is_ok(), "update -> {u:?}");
        until("a job with a refused update runs", || *UNSTORABLE_RUNS.lock().unwrap() == n0 + 1).await?;
        stats.evaluations += 3;
        stats.add("refused", 2);
    }
    // Values that serde writes but cannot read back: refused, or run, never silently dropped.
    let r = Float { x: 1.5 }.job().set_id("f0".into()).run().await;
    check!(r.is_ok(), "run -> {r:?}");
    until("a float job runs", || FLOAT_RUNS.lock().unwrap().contains(&"f0".to_string())).await?;
    // Finite floats arrive bit for bit.  Listed finding: where serde_json itself, as the crate
    // configures it, does not read back the number it wrote, the job gets what serde_json read.
    let json = |x: f64| serde_json::from_str::<f64>(&serde_json::to_string(&x).unwrap()).unwrap();
    for n in 0..16 * a.scale.max(1) {
        let x = match n % 8 {
            0 => 0.9073038322028689,
            1 => *rng.pick(&[0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 1e308, 0.1, 1.0 / 3.0, 9007199254740993.0]),
            2 => rng.next() as f64 / (1u64 << 53) as f64,
            3 => rng.range(-1_000_000, 1_000_000) as f64 / 100.0,
            4 => (rng.next() as f64).sqrt(),
            _ => f64::from_bits(rng.next()),
        };
        let x = if x.is_finite() { x } else { 0.25 };
        let id = format!("bits{n}");
        let r = Float { x }.job().set_id(id.clone()).run().await;
        check!(r.is_ok(), "a job with the float {x:e} -> {r:?}");
        until("a float job runs", || FLOAT_RUNS.lock().unwrap().contains(&id)).await?;
        let b = FLOAT_BITS.lock().unwrap().iter().find(|f| f.0 == id).unwrap().1;
        let mut drift = vec![x];
        (0..8).for_each(|k| drift.push(json(drift[k])));
        if b != x.to_bits() {
            check!(drift.iter().any(|y| y.to_bits() == b), "a job submitted with the float {x:e} received {:e}", f64::from_bits(b));
            if !stats.known.iter().any(|k| k == "float-last-digit") {
                stats.known.push("float-last-digit".into());
            }
            stats.add("floats_changed_by_serde_json", 1);
        }
        stats.evaluations += 1;
        stats.add("floats", 1);
    }
    for (n, x) in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY].into_iter().enumerate() {
        let id = format!("nan{n}");
        let r = Float { x }.job().set_id(id.clone()).run().await;
        let f = Float { x: 2.5 }.job().set_id(format!("f1{n}")).run().await;
        check!(f.is_ok(), "run -> {f:?}");
        until("a float job behind an unreadable one runs", || FLOAT_RUNS.lock().unwrap().contains(&format!("f1{n}"))).await?;
        let ran = FLOAT_RUNS.lock().unwrap().contains(&id);
        check!(r.is_ok() == ran, "a job with the float {x} was {} and {}", if r.is_ok() { "accepted" } else { "refused" }, if ran { "ran" } else { "did not run" });
        check!(r.is_ok() || AJ::get_job::<Float>(&id).await.is_none(), "a refused job exists");
        // as an update
        let f = Float { x: 3.5 }.job().set_id(format!("f2{n}")).delay(Duration::days(900)).run().await;
        check!(f.is_ok(), "run -> {f:?}");
        let r = AJ::update_job::<Float>(&format!("f2{n}"), Float { x }, None).await;
        if r.is_err() {
            match AJ::get_job::<Float>(&format!("f2{n}")).await {
                Some(j) if j.data.x == 3.5 => {}
                j => viol!("a refused update left {j:?}"),
            }
        }
        let r = AJ::update_job::<Float>(&format!("f2{n}"), Float { x: 4.5 }, Some(JobContext::new(format!("f2{n}")))).await;
        check!(r.is_ok(), "update -> {r:?}");
        until("a job with a refused update runs", || FLOAT_RUNS.lock().unwrap().contains(&format!("f2{n}"))).await?;
    }
    for n in [45usize, 60, 200] {
        let mut d = rdata(&mut Rng::new(3), false);
        d.sh = deep(n);
        let id = format!("abyss{n}");
        let r = d.clone().job().set_id(id.clone()).run().await;
        let f = rdata(&mut Rng::new(3), false).job().set_id(format!("after-{id}")).run().await;
        check!(f.is_ok(), "run -> {f:?}");
        until("a job behind an unreadable one runs", || !got(&format!("after-{id}")).is_empty()).await?;
        let ran = got(&id);
        check!(r.is_ok() != ran.is_empty(), "a job nested {n} levels deep was {} and {}", if r.is_ok() { "accepted" } else { "refused" }, if ran.is_empty() { "did not run" } else { "ran" });
        if let Some((_, g)) = ran.first() {
            check!(g.sh == d.sh, "a job nested {n} levels deep ran with other data");
        } else {
            check!(AJ::get_job::<Data>(&id).await.is_none(), "a refused job exists");
        }
        stats.evaluations += 1;
    }
    stats.add("unreadable_values", 9);
    lives(&mut rng, a.scale.max(1), stats).await
}
