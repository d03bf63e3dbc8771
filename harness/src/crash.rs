//! C20: the process is killed at every write command it sends to the backend,
//! then restarted on what the backend holds.
use crate::probe::*;
use crate::rec;
use crate::redis_srv::Server;
use crate::rng::Rng;
use crate::util::*;
use crate::{check, clock, viol};
use aj_core::redis::Redis;
use aj_core::{CronContext, EnqueueConfig, JobStatus, JobType, Retry, AJ};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const N: usize = 2;
const SEC: i64 = 1_000_000;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize, Hash, Eq)]
enum Kind {
    Now,
    Fail,
    Gate,
    Later,
    Retry,
    Cron,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Hash)]
enum Step {
    Submit(usize, Kind, i64),
    Burst(Vec<usize>),
    Cancel(usize),
    Update(usize, i64),
    /// resubmission of a waiting or done job
    Again(usize, i64),
    ByHand(usize),
    Clock,
}

fn jid(i: usize) -> String {
    format!("c{i}")
}
fn uid(i: usize) -> u64 {
    700_000 + i as u64
}

/// Four families of scripts, so that any four consecutive seeds have every kind
/// of job and call between them.
fn script(seed: u64) -> (Vec<Step>, i64) {
    for k in 0.. {
        let (s, t) = draft(seed.wrapping_add(k * 7_777_777));
        let has = |f: &dyn Fn(&Step) -> bool| s.iter().any(|x| f(x));
        let sub = |k: Kind| s.iter().any(|x| matches!(x, Step::Submit(_, j, _) if *j == k));
        let again = |k: &dyn Fn(Kind) -> bool| s.iter().any(|x| matches!(x, Step::Again(i, _) if k(kind_of(&s, *i))));
        let ok = match seed % 4 {
            0 => has(&|x| matches!(x, Step::Cancel(_))) && has(&|x| matches!(x, Step::Update(_, _))),
            1 => sub(Kind::Retry) && has(&|x| *x == Step::Clock) && again(&|k| k != Kind::Later),
            2 => sub(Kind::Cron) && has(&|x| *x == Step::Clock) && has(&|x| matches!(x, Step::ByHand(_))),
            _ => sub(Kind::Gate) && has(&|x| matches!(x, Step::Burst(_))) && again(&|k| k == Kind::Later),
        };
        if ok {
            return (s, t);
        }
    }
    unreachable!()
}

fn draft(seed: u64) -> (Vec<Step>, i64) {
    let mut r = Rng::new(seed);
    let t0 = base_time(&mut r);
    let mut s = vec![];
    let mut kinds: Vec<Kind> = vec![];
    let mut later: Vec<usize> = vec![];
    let mut done: Vec<usize> = vec![];
    let mut gates = 0;
    let add = |k: Kind, v: i64, s: &mut Vec<Step>, kinds: &mut Vec<Kind>| {
        s.push(Step::Submit(kinds.len(), k, v));
        kinds.push(k);
        kinds.len() - 1
    };
    let len = r.range(7, 12) as usize;
    while s.len() < len {
        let v = r.range(1, 1000);
        match r.below(14) {
            0..=1 => {
                let i = add(Kind::Now, v, &mut s, &mut kinds);
                done.push(i);
            }
            2 => {
                let i = add(Kind::Fail, v, &mut s, &mut kinds);
                done.push(i);
            }
            3..=4 => {
                let i = add(Kind::Later, v, &mut s, &mut kinds);
                later.push(i);
            }
            5 if gates < 2 => {
                gates += 1;
                add(Kind::Gate, v, &mut s, &mut kinds);
            }
            6 if !kinds.contains(&Kind::Retry) => {
                add(Kind::Retry, v, &mut s, &mut kinds);
            }
            7 if !kinds.contains(&Kind::Cron) => {
                add(Kind::Cron, v, &mut s, &mut kinds);
            }
            8 if !later.is_empty() => {
                let p = r.below(later.len() as u64) as usize;
                let i = later.swap_remove(p);
                s.push(Step::Cancel(i));
            }
            9 if !later.is_empty() => s.push(Step::Update(*r.pick(&later), 2000 + v)),
            10 if !later.is_empty() => s.push(Step::Again(*r.pick(&later), 3000 + v)),
            11 if !done.is_empty() => {
                let i = *r.pick(&done);
                if r.chance(50) {
                    s.push(Step::Again(i, 4000 + v))
                } else {
                    s.push(Step::ByHand(i))
                }
            }
            12 => {
                let b: Vec<usize> = (0..r.range(2, 4))
                    .map(|_| {
                        kinds.push(Kind::Now);
                        kinds.len() - 1
                    })
                    .collect();
                s.push(Step::Burst(b));
            }
            13 if kinds.iter().any(|k| matches!(k, Kind::Retry | Kind::Cron)) => s.push(Step::Clock),
            _ => {}
        }
    }
    (s, t0)
}

fn kind_of(s: &[Step], i: usize) -> Kind {
    for x in s {
        match x {
            Step::Submit(j, k, _) if *j == i => return *k,
            Step::Burst(v) if v.contains(&i) => return Kind::Now,
            _ => {}
        }
    }
    Kind::Now
}

fn ids(s: &[Step]) -> Vec<usize> {
    let mut v = vec![];
    for x in s {
        match x {
            Step::Submit(i, _, _) => v.push(*i),
            Step::Burst(b) => v.extend(b),
            _ => {}
        }
    }
    v
}

fn make(i: usize, k: Kind, v: i64, t0: i64) -> aj_core::Job<P<N>> {
    let p = P::<N>::new(uid(i), v);
    let p = match k {
        Kind::Gate => p.mode(Mode::Gate),
        Kind::Fail | Kind::Retry => p.fails(vec![true]),
        _ => p,
    };
    let j = job::<N>(&jid(i), p);
    match k {
        Kind::Later => j.schedule_at(clock::dt(t0 + 100 * SEC)),
        Kind::Retry => j.retry(Retry::new_interval_retry(Some(2), chrono::TimeDelta::seconds(10))),
        Kind::Cron => {
            let mut c = CronContext::default();
            c.max_repeat = Some(3);
            j.job_type(JobType::new_cron("* * * * * * *", c).unwrap())
        }
        _ => j,
    }
}

fn say(s: &str, v: Value) {
    use std::io::Write;
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "{s} {v}");
    let _ = o.flush();
}

/// The process that is going to be killed.
pub async fn phase1(a: &Args) -> Res {
    rec::echo();
    let (s, t0) = script(a.seed);
    clock::set_us(t0);
    AJ::start(Redis::new(format!("redis+unix://{}", a.s("sock", ""))));
    // registers the queue
    let r = job::<N>("warm", P::new(1, 0)).run().await;
    check!(r.is_ok(), "first submission refused {r:?}");
    wait_status::<N>("warm", &[JobStatus::Finished]).await?;
    set_cfg::<N>(4, Duration::from_millis(1)).await?;
    // slots freed, gates must not fill them
    for (n, st) in s.iter().enumerate() {
        let before: BTreeMap<usize, usize> = ids(&s).iter().map(|i| (*i, rec::cnt(N, &jid(*i)).post)).collect();
        say("BEGIN", json!(n));
        let ok = match st {
            Step::Submit(i, k, v) => make(*i, *k, *v, t0).run().await.is_ok(),
            Step::Burst(b) => {
                let mut ok = true;
                for i in b {
                    ok &= make(*i, Kind::Now, *i as i64, t0).run().await.is_ok();
                    say("ONE", json!(i));
                }
                ok
            }
            Step::Cancel(i) => AJ::cancel_job::<P<N>>(jid(*i)).await.is_ok(),
            Step::Update(i, v) => AJ::update_job(&jid(*i), P::<N>::new(uid(*i), *v), None).await.is_ok(),
            Step::Again(i, v) => {
                let k = kind_of(&s, *i);
                AJ::enqueue_job(make(*i, k, *v, t0), EnqueueConfig::new_re_run(), NAMES[N]).await.is_ok()
            }
            Step::ByHand(i) => matches!(AJ::retry_job::<P<N>>(&jid(*i)).await, Ok(true)),
            Step::Clock => {
                clock::advance_us(11 * SEC);
                true
            }
        };
        say("ACK", json!([n, ok]));
        // let it settle
        match st {
            Step::Submit(i, Kind::Now, _) | Step::Submit(i, Kind::Fail, _) | Step::ByHand(i) => settled(*i, kind_of(&s, *i)).await?,
            Step::Again(i, _) if kind_of(&s, *i) != Kind::Later => settled(*i, kind_of(&s, *i)).await?,
            Step::Burst(b) => {
                for i in b {
                    settled(*i, Kind::Now).await?;
                }
            }
            Step::Submit(i, Kind::Gate, _) => wait_for("gated job starts", N, || rec::cnt(N, &jid(*i)).start == 1).await?,
            Step::Submit(i, Kind::Retry, _) => between(*i, 1, 3).await?,
            Step::Clock => {
                for j in ids(&s[..=n]) {
                    let k = kind_of(&s, j);
                    if matches!(k, Kind::Retry | Kind::Cron) {
                        let c = before[&j];
                        if c < 3 {
                            between(j, c + 1, 3).await?;
                        }
                    }
                }
            }
            _ => {}
        }
    }
    say("END1", json!(0));
    loop {
        tokio::time::sleep(Duration::from_secs(1)).await;
    }
}

async fn settled(i: usize, k: Kind) -> Res {
    let w = if k == Kind::Fail { JobStatus::Failed } else { JobStatus::Finished };
    // a rerun: not the status of the run before
    wait_status::<N>(&jid(i), &[w]).await?;
    say("DONE", json!(i));
    Ok(())
}

/// Run `k` of a retried or cron job is over and recorded.
async fn between(i: usize, k: usize, last: usize) -> Res {
    wait_for("next run of a recurring job", N, || rec::cnt(N, &jid(i)).post >= k).await?;
    let w = if k >= last { [JobStatus::Failed, JobStatus::Finished] } else { [JobStatus::Queued, JobStatus::Queued] };
    wait_status::<N>(&jid(i), &w).await?;
    if k >= last {
        say("DONE", json!(i));
    } else {
        say("BETWEEN", json!([i, k]));
    }
    Ok(())
}

#[derive(Serialize, Deserialize, Default, Debug)]
struct Plan2 {
    now: i64,
    repeat: Option<usize>,
    /// the job of a burst to submit again
    member: usize,
    /// job, completed runs it must have had in this process
    must: Vec<(usize, usize)>,
    cap: usize,
}

/// The process after the restart.
pub async fn phase2(a: &Args, stats: &mut Stats) -> Res {
    rec::echo();
    let (s, t0) = script(a.seed);
    let p: Plan2 = serde_json::from_str(&a.s("plan", "")).unwrap();
    clock::set_us(p.now);
    for i in ids(&s) {
        open_gate(uid(i));
    }
    AJ::start(Redis::new(format!("redis+unix://{}", a.s("sock", ""))));
    let again = |n: usize| match &s[n] {
        Step::Submit(i, k, v) => Some(make(*i, *k, *v, t0)),
        Step::Again(i, v) => Some(make(*i, kind_of(&s, *i), *v, t0)),
        Step::Burst(_) => Some(make(p.member, Kind::Now, p.member as i64, t0)),
        _ => None,
    };
    let first = a.n("first", 0) == 1;
    if let (true, Some(n)) = (first, p.repeat) {
        if let Some(j) = again(n) {
            let r = j.run().await;
            check!(r.is_ok(), "repeated submission refused {r:?}");
        }
    }
    canary::<N>().await?;
    set_cfg::<N>(p.cap, Duration::from_millis(1)).await?;
    if let (false, Some(n)) = (first, p.repeat) {
        if let Some(j) = again(n) {
            let r = j.run().await;
            check!(r.is_ok(), "repeated submission refused {r:?}");
        }
    }
    flush::<N>().await?;
    for _ in 0..4 {
        clock::advance_us(11 * SEC);
        flush::<N>().await?;
    }
    clock::advance_us(200 * SEC);
    flush::<N>().await?;
    for (i, n) in &p.must {
        let c = rec::cnt(N, &jid(*i)).post;
        wait_for(&format!("job {} ({:?}) runs {n} time(s) after the restart (did {c})", jid(*i), kind_of(&s, *i)), N, || rec::cnt(N, &jid(*i)).post >= *n).await?;
    }
    flush::<N>().await?;
    for i in ids(&s) {
        // everything is due by now: what is in the queue gets done
        let (t, b) = (std::time::Instant::now(), beats());
        while matches!(status::<N>(&jid(i)).await, Some(JobStatus::Queued | JobStatus::Running)) {
            if t.elapsed().as_millis() as u64 > stall_ms() && beats() - b > stall_ms() / 16 {
                break;
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        let st = status::<N>(&jid(i)).await;
        say("FINAL", json!([i, format!("{st:?}")]));
    }
    stats.evaluations += 1;
    Ok(())
}

struct Proc {
    child: Child,
    lines: Arc<Mutex<Vec<String>>>,
    th: Option<std::thread::JoinHandle<()>>,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn spawn(args: &[String]) -> Result<Proc, Fail> {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| Fail::Inconclusive(format!("spawn: {e}")))?;
    let lines: Arc<Mutex<Vec<String>>> = Default::default();
    let l2 = lines.clone();
    let out = child.stdout.take().unwrap();
    let th = std::thread::spawn(move || {
        for l in BufReader::new(out).lines().map_while(Result::ok) {
            touch();
            l2.lock().unwrap().push(l);
        }
    });
    Ok(Proc { child, lines, th: Some(th) })
}

/// What one process (killed or not) is known to have done.
#[derive(Default, Clone)]
struct Log {
    begun: Option<usize>,
    acked: BTreeMap<usize, bool>,
    ones: Vec<usize>,
    /// (job, line number)
    done: Vec<(usize, usize)>,
    between: BTreeMap<usize, (usize, usize)>,
    starts: Vec<(String, i64, i64, usize)>,
    posts: Vec<(String, usize)>,
    begin_at: BTreeMap<usize, usize>,
    fin: BTreeMap<usize, String>,
    clock: i64,
    result: Option<Value>,
    end1: bool,
}

fn parse(lines: &[String], t0: i64) -> Log {
    let mut l = Log { clock: t0, ..Default::default() };
    for (n, x) in lines.iter().enumerate() {
        let Some((w, rest)) = x.split_once(' ') else { continue };
        let Ok(v) = serde_json::from_str::<Value>(rest) else { continue };
        let u = |v: &Value| v.as_u64().unwrap_or(0) as usize;
        match w {
            "BEGIN" => {
                l.begun = Some(u(&v));
                l.begin_at.insert(u(&v), n);
            }
            "ACK" => {
                l.acked.insert(u(&v[0]), v[1] == json!(true));
            }
            "ONE" => l.ones.push(u(&v)),
            "DONE" => l.done.push((u(&v), n)),
            "BETWEEN" => {
                l.between.insert(u(&v[0]), (u(&v[1]), n));
            }
            "FINAL" => {
                l.fin.insert(u(&v[0]), v[1].as_str().unwrap_or("").to_string());
            }
            "END1" => l.end1 = true,
            "RESULT" => l.result = Some(v),
            "EV" => {
                let id = |k: &str| v["k"][k]["id"].as_str().map(|s| s.to_string());
                if let Some(i) = id("Start") {
                    l.starts.push((i, v["k"]["Start"]["val"].as_i64().unwrap_or(0), v["t"].as_i64().unwrap_or(0), n));
                }
                if let Some(i) = id("Post") {
                    l.posts.push((i, n));
                }
                if let Some(s) = v["k"]["Note"].as_str() {
                    if let Some(c) = s.strip_prefix("clock=") {
                        l.clock = c.parse().unwrap_or(l.clock);
                    }
                }
            }
            _ => {}
        }
    }
    l
}

pub fn run(a: &Args, stats: &mut Stats) -> Res {
    let of = a.n("of", 1).max(1);
    let slice = a.n("slice", 0);
    let twice = a.n("twice", 0) == 1;
    // the slices of one script are separate processes with separate seeds
    let sseed = a.n("script", a.seed);
    let (s, t0) = script(sseed);
    let mut n = slice;
    let mut rng = Rng::new(a.seed ^ slice.wrapping_mul(0x9191));
    loop {
        touch();
        let path = format!("{}/k{}-{n}.sock", crate::tmp_dir(), std::process::id());
        let srv = Server::start(&path);
        srv.arm_writes(n as i64);
        let argv = |ph: &str| vec![ph.to_string(), "--seed".into(), sseed.to_string(), "--sock".into(), path.clone()];
        let mut p = spawn(&argv("crash1"))?;
        let begin = Instant::now();
        let mut over = false;
        let mut dead = false;
        loop {
            if srv.blown.load(Ordering::SeqCst) {
                // what was answered before the kill reaches its caller
                std::thread::sleep(Duration::from_millis(8));
                break;
            }
            let (end1, res) = {
                let l = p.lines.lock().unwrap();
                let tail = &l[l.len().saturating_sub(4)..];
                (tail.iter().any(|x| x.starts_with("END1")), tail.iter().any(|x| x.starts_with("RESULT")))
            };
            if end1 {
                over = true;
                break;
            }
            if res || p.child.try_wait().ok().flatten().is_some() {
                dead = true;
                std::thread::sleep(Duration::from_millis(100));
                break;
            }
            if begin.elapsed() > Duration::from_secs(100) {
                return Err(Fail::Inconclusive("phase 1 hangs".into()));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        let _ = p.child.kill();
        let _ = p.child.wait();
        let _ = p.th.take().unwrap().join();
        let l1 = parse(&p.lines.lock().unwrap(), t0);
        if dead && !srv.blown.load(Ordering::SeqCst) {
            match &l1.result {
                Some(v) if v["verdict"] == "violated" => viol!("before any crash: {}", v["msg"]),
                v => return Err(Fail::Inconclusive(format!("phase 1 ended: {v:?}"))),
            }
        }
        // a second crash while the engine recovers
        let mut killed = vec![l1.clone()];
        let mut seen_store = srv.store.lock().unwrap().lists.keys().cloned().collect::<Vec<_>>();
        seen_store.sort();
        let interrupted = l1.begun.filter(|b| !l1.acked.contains_key(b));
        let repeat = interrupted.filter(|_| rng.chance(60));
        let member = match interrupted.map(|i| &s[i]) {
            Some(Step::Burst(b)) => b.iter().copied().find(|i| !l1.ones.contains(i)).unwrap_or(usize::MAX),
            _ => usize::MAX,
        };
        // a burst of which every call had returned
        let repeat = repeat.filter(|n| !matches!(s[*n], Step::Burst(_)) || member != usize::MAX);
        let first = rng.chance(50);
        let mut plan = Plan2 { now: l1.clock, repeat, member, must: vec![], cap: *rng.pick(&[1usize, 2, 4]) };
        let mut second = None;
        if twice {
            let m = rng.range(0, 40);
            second = Some(m);
            srv.disarm();
            srv.arm_writes(m);
            let mut v = argv("crash2");
            v.extend(["--plan".into(), serde_json::to_string(&Plan2 { now: l1.clock, repeat: None, member: 0, must: vec![], cap: plan.cap }).unwrap()]);
            let mut p = spawn(&v)?;
            let b = Instant::now();
            loop {
                if srv.blown.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(5));
                    break;
                }
                if p.lines.lock().unwrap().iter().any(|x| x.starts_with("RESULT")) {
                    break;
                }
                if b.elapsed() > Duration::from_secs(100) {
                    return Err(Fail::Inconclusive("phase 2 hangs".into()));
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            let _ = p.child.kill();
            let _ = p.child.wait();
            let _ = p.th.take().unwrap().join();
            let l = parse(&p.lines.lock().unwrap(), l1.clock);
            plan.now = l.clock;
            killed.push(l);
        }
        srv.disarm();
        // obligations
        let mut obl: BTreeMap<usize, Obl> = BTreeMap::new();
        for i in ids(&s) {
            if let Some(o) = obligation(&s, i, &killed, repeat, member) {
                if o.must > 0 {
                    plan.must.push((i, o.must));
                }
                obl.insert(i, o);
            }
        }
        let mut v = argv("crash2");
        v.extend(["--plan".into(), serde_json::to_string(&plan).unwrap(), "--first".into(), (first as u8).to_string()]);
        let mut p = spawn(&v)?;
        let b = Instant::now();
        while p.child.try_wait().ok().flatten().is_none() {
            if b.elapsed() > Duration::from_secs(150) {
                return Err(Fail::Inconclusive("restart hangs".into()));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        let _ = p.th.take().unwrap().join();
        let l2 = parse(&p.lines.lock().unwrap(), plan.now);
        let at = format!(
            "killed after {n} writes{} in step {:?} of {s:?} (acknowledged {:?}, repeated {repeat:?})",
            second.map_or(String::new(), |m| format!(", and again after {m}")),
            l1.begun.map(|b| &s[b]),
            l1.acked.keys().last()
        );
        match &l2.result {
            Some(v) if v["verdict"] == "held" => {}
            Some(v) if v["verdict"] == "violated" => viol!("after the restart: {}; {at}", v["msg"]),
            v => return Err(Fail::Inconclusive(format!("after the restart: {:?}; {at}", v.as_ref().map(|v| v["msg"].clone())))),
        }
        for (i, o) in &obl {
            judge(&s, t0, *i, o, &killed, &l2, &at)?;
            stats.evaluations += 1;
        }
        stats.add(if over { "clean_ends" } else { "crash_points" }, 1);
        if second.is_some() {
            stats.add("second_crashes", 1);
        }
        stats.add("job_obligations", obl.len() as u64);
        stats.seen(&(&s, n, second));
        stats.sample(json!({"script": format!("{s:?}"), "killed_after_writes": n, "in_step": format!("{:?}", l1.begun.map(|b| &s[b])), "lists_then": seen_store,
            "runs_after_restart": l2.starts.iter().map(|x| x.0.clone()).filter(|x| !x.starts_with("canary")).collect::<Vec<_>>(), "final": format!("{:?}", l2.fin)}));
        if over {
            return Ok(());
        }
        n += of;
        if n > 400 {
            return Ok(());
        }
    }
}

#[derive(Debug)]
struct Obl {
    /// completed runs owed after the restart
    must: usize,
    /// most starts allowed after the last kill
    may: usize,
    vals: Vec<i64>,
    status: Option<&'static str>,
}

fn obligation(s: &[Step], i: usize, killed: &[Log], repeat: Option<usize>, member: usize) -> Option<Obl> {
    let l1 = &killed[0];
    let id = jid(i);
    let kind = kind_of(s, i);
    let concerns = |st: &Step| match st {
        Step::Submit(j, _, _) | Step::Cancel(j) | Step::Update(j, _) | Step::Again(j, _) | Step::ByHand(j) => *j == i,
        Step::Burst(b) => b.contains(&i),
        Step::Clock => false,
    };
    let steps: Vec<usize> = (0..s.len()).filter(|n| concerns(&s[*n]) && l1.begun.map_or(false, |b| *n <= b)).collect();
    if steps.is_empty() {
        return None;
    }
    // the last step that makes it run (again)
    let act = *steps.iter().rev().find(|n| !matches!(s[**n], Step::Cancel(_) | Step::Update(_, _))).unwrap();
    let from = l1.begin_at[&act];
    let acked = |n: usize| match &s[n] {
        Step::Burst(_) => l1.ones.contains(&i),
        _ => l1.acked.get(&n) == Some(&true),
    };
    if l1.acked.get(&act) == Some(&false) {
        return None;
    }
    let per = if matches!(kind, Kind::Retry | Kind::Cron) { 3 } else { 1 };
    let mut vals = vec![];
    for n in &steps {
        match &s[*n] {
            Step::Submit(_, _, v) | Step::Again(_, v) | Step::Update(_, v) => {
                if acked(*n) {
                    vals.clear();
                }
                vals.push(*v);
            }
            Step::Burst(_) => vals.push(i as i64),
            _ => {}
        }
    }
    // a run that was under way at a kill may be made again
    let unconfirmed = |l: &Log, first: bool| {
        let lo = if first {
            let d = l.done.iter().filter(|d| d.0 == i).map(|d| d.1).max().unwrap_or(0);
            let b = l.between.get(&i).map_or(0, |b| b.1);
            from.max(d).max(b)
        } else {
            0
        };
        l.starts.iter().filter(|x| x.0 == id && x.3 > lo).count()
    };
    let posts_before: usize = killed.iter().enumerate().map(|(k, l)| l.posts.iter().filter(|x| x.0 == id && (k > 0 || x.1 > from)).count()).sum();
    let starts_before: usize = killed.iter().enumerate().map(|(k, l)| l.starts.iter().filter(|x| x.0 == id && (k > 0 || x.3 > from)).count()).sum();
    let confirmed = starts_before - killed.iter().enumerate().map(|(k, l)| unconfirmed(l, k == 0)).sum::<usize>();
    let is_done = l1.done.iter().any(|d| d.0 == i && d.1 > from);
    let cancel = steps.iter().find(|n| matches!(s[**n], Step::Cancel(_))).copied();
    let fin = match kind {
        Kind::Fail | Kind::Retry => "Some(Failed)",
        _ => "Some(Finished)",
    };
    if is_done {
        return Some(Obl { must: 0, may: 0, vals, status: Some(fin) });
    }
    if let Some(c) = cancel {
        if acked(c) {
            return Some(Obl { must: 0, may: 0, vals, status: Some("Some(Canceled)") });
        }
        return Some(Obl { must: 0, may: 1, vals, status: None });
    }
    let repeated = repeat == Some(act) && match &s[act] {
        Step::Burst(_) => member == i,
        Step::ByHand(_) => false,
        _ => true,
    };
    if !acked(act) && !repeated {
        // may or may not have happened
        return Some(Obl { must: 0, may: per - confirmed.min(per), vals, status: None });
    }
    let may = per - confirmed.min(per) + if repeated && kind != Kind::Later { per } else { 0 };
    let must = if repeated { if kind == Kind::Later || per == 1 { 1 } else { 0 } } else { per.saturating_sub(posts_before) };
    Some(Obl { must, may, vals, status: if repeated && per > 1 { None } else { Some(fin) } })
}

fn judge(s: &[Step], t0: i64, i: usize, o: &Obl, _killed: &[Log], l2: &Log, at: &str) -> Res {
    let id = jid(i);
    let st: Vec<_> = l2.starts.iter().filter(|x| x.0 == id).collect();
    let k = kind_of(s, i);
    check!(st.len() <= o.may, "job {id} ({k:?}) was executed {} times after the restart, at most {} allowed; {at}", st.len(), o.may);
    let posts = l2.posts.iter().filter(|x| x.0 == id).count();
    check!(posts >= o.must, "job {id} ({k:?}) was executed {posts} times after the restart, expected {}; {at}", o.must);
    for x in &st {
        check!(o.vals.contains(&x.1), "job {id} ({k:?}) ran with data {} after the restart, expected one of {:?}; {at}", x.1, o.vals);
        if k == Kind::Later {
            check!(x.2 > t0 + 100 * SEC, "job {id} ran at {} after the restart, {} us before its time; {at}", x.2, t0 + 100 * SEC - x.2);
        }
    }
    let g = l2.fin.get(&i).map(|s| s.as_str());
    // also where the cut off call may or may not have happened
    check!(
        !matches!(g, Some("Some(Queued)" | "Some(Running)")),
        "job {id} ({k:?}) is {g:?} long after the restart: it is lost, neither run ({posts} times) nor cancelled; {at}"
    );
    if let Some(w) = o.status {
        check!(g == Some(w), "job {id} ({k:?}) is {g:?} after the restart, expected {w}; {at}");
    }
    Ok(())
}

// ---- many jobs at once ------------------------------------------------------

/// What the mass workload has: jobs done before, running, waiting, far in the
/// future and cancelled, drawn from the seed.
struct Mass {
    limit: usize,
    done: usize,
    gated: usize,
    later: usize,
    cancelled: usize,
}
fn mass_of(seed: u64) -> (Mass, i64) {
    let mut r = Rng::new(seed);
    let t0 = base_time(&mut r);
    let limit = *r.pick(&[21usize, 30, 45, 70]);
    let m = Mass {
        limit,
        done: r.range(0, 30) as usize,
        gated: limit + *r.pick(&[0i64, 5, 25, 60]) as usize,
        later: *r.pick(&[0i64, 3, 25]) as usize,
        cancelled: r.range(0, 10) as usize,
    };
    (m, t0)
}
fn mid(kind: &str, i: usize) -> String {
    format!("m{kind}{i}")
}
fn muid(kind: &str, i: usize) -> u64 {
    800_000 + 1000 * (kind.as_bytes()[0] as u64) + i as u64
}

pub async fn mass1(a: &Args) -> Res {
    rec::echo();
    let (m, t0) = mass_of(a.seed);
    clock::set_us(t0);
    AJ::start(Redis::new(format!("redis+unix://{}", a.s("sock", ""))));
    canary::<N>().await?;
    set_cfg::<N>(m.limit, Duration::from_millis(1)).await?;
    for i in 0..m.done {
        let r = job::<N>(&mid("d", i), P::new(muid("d", i), i as i64).fails(vec![i % 3 == 0])).run().await;
        check!(r.is_ok(), "submission refused {r:?}");
    }
    for i in 0..m.done {
        wait_status::<N>(&mid("d", i), &[JobStatus::Finished, JobStatus::Failed]).await?;
    }
    for i in 0..m.later + m.cancelled {
        let k = if i < m.later { "l" } else { "x" };
        let j = job::<N>(&mid(k, i), P::new(muid(k, i), i as i64)).schedule_at(clock::dt(t0 + 1000 * SEC));
        check!(j.run().await.is_ok(), "submission refused");
        if k == "x" {
            check!(AJ::cancel_job::<P<N>>(mid(k, i)).await.is_ok(), "cancel refused");
        }
    }
    for i in 0..m.gated {
        let r = job::<N>(&mid("g", i), P::new(muid("g", i), i as i64).mode(Mode::Gate)).run().await;
        check!(r.is_ok(), "submission refused {r:?}");
    }
    let want = m.limit.min(m.gated);
    wait_for("the limit is reached", N, || (0..m.gated).filter(|i| rec::cnt(N, &mid("g", *i)).start > 0).count() >= want).await?;
    // more ticks at the limit
    tokio::time::sleep(Duration::from_millis(30)).await;
    say("END1", json!(0));
    loop {
        tokio::time::sleep(Duration::from_secs(1)).await;
    }
}

pub async fn mass2(a: &Args, stats: &mut Stats) -> Res {
    rec::echo();
    let (m, t0) = mass_of(a.seed);
    clock::set_us(t0);
    let all = |k: &'static str, lo: usize, hi: usize| (lo..hi).map(move |i| (k, i));
    let owed: Vec<(&str, usize)> = all("g", 0, m.gated).collect();
    for (k, i) in &owed {
        open_gate(muid(k, *i));
    }
    AJ::start(Redis::new(format!("redis+unix://{}", a.s("sock", ""))));
    if a.n("err", 0) > 0 {
        // the backend fails while the queue comes up; a refused submission is repeated
        let t = Instant::now();
        while let Err(e) = job::<N>("first", P::new(muid("first", 0), 0)).run().await {
            check!(t.elapsed() < Duration::from_secs(20), "submissions are still refused: {e:?}");
            tokio::time::sleep(Duration::from_millis(3)).await;
        }
        say("UP", json!(0));
    }
    canary::<N>().await?;
    set_cfg::<N>(a.n("cap", 5) as usize, Duration::from_millis(1)).await?;
    // jobs an earlier restart has already brought to their end
    let mut left = vec![];
    let mut over = 0;
    for (k, i) in &owed {
        match status::<N>(&mid(k, *i)).await {
            Some(JobStatus::Finished) if rec::cnt(N, &mid(k, *i)).start == 0 => over += 1,
            _ => left.push(mid(k, *i)),
        }
    }
    wait_for(&format!("the {} jobs of the backlog that are not done run after the restart", left.len()), N, || {
        left.retain(|i| rec::cnt(N, i).post == 0);
        left.is_empty()
    })
    .await?;
    for (k, i) in &owed {
        wait_status::<N>(&mid(k, *i), &[JobStatus::Finished]).await?;
        let c = rec::cnt(N, &mid(k, *i));
        check!(c.start <= 1, "job {} ran {} times after the restart", mid(k, *i), c.start);
        stats.evaluations += 1;
    }
    for (k, i) in all("d", 0, m.done).chain(all("l", 0, m.later)).chain(all("x", m.later, m.later + m.cancelled)) {
        let c = rec::cnt(N, &mid(k, i));
        check!(c.start == 0, "job {} ran after the restart: it was {}", mid(k, i), match k { "d" => "done", "l" => "not due", _ => "cancelled" });
        stats.evaluations += 1;
    }
    clock::advance_us(2000 * SEC);
    for (k, i) in all("l", 0, m.later) {
        wait_for("a scheduled job runs after the restart", N, || rec::cnt(N, &mid(k, i)).post == 1).await?;
    }
    flush::<N>().await?;
    for (k, i) in all("x", m.later, m.later + m.cancelled) {
        check!(rec::cnt(N, &mid(k, i)).start == 0, "a cancelled job ran after the restart");
        check!(status::<N>(&mid(k, i)).await == Some(JobStatus::Canceled), "a cancelled job is {:?} after the restart", status::<N>(&mid(k, i)).await);
    }
    stats.add("running_at_kill", m.limit.min(m.gated) as u64);
    stats.add("waiting_at_kill", (m.gated - m.limit.min(m.gated) + m.later) as u64);
    stats.add("ended_by_an_earlier_restart", over);
    Ok(())
}

/// Kill with many jobs running and waiting; possibly kill the restart as well.
pub fn mass(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed ^ 0x3a55);
    let (m, t0) = mass_of(a.seed);
    let path = format!("{}/m{}.sock", crate::tmp_dir(), std::process::id());
    let srv = Server::start(&path);
    let argv = |ph: &str| vec![ph.to_string(), "--seed".into(), a.seed.to_string(), "--sock".into(), path.clone()];
    let wait = |p: &mut Proc, until: &dyn Fn(&[String]) -> bool| -> Res {
        let b = Instant::now();
        loop {
            touch();
            if until(&p.lines.lock().unwrap()) {
                break Ok(());
            }
            if p.child.try_wait().ok().flatten().is_some() {
                break Ok(());
            }
            if b.elapsed() > Duration::from_secs(100) {
                break Err(Fail::Inconclusive("a process hangs".into()));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    };
    let end = |p: &mut Proc| {
        let _ = p.child.kill();
        let _ = p.child.wait();
        let _ = p.th.take().unwrap().join();
        parse(&p.lines.lock().unwrap(), 0)
    };
    let mut p = spawn(&argv("mass1"))?;
    wait(&mut p, &|l| l.last().map_or(false, |x| x.starts_with("END1") || x.starts_with("RESULT")))?;
    let l1 = end(&mut p);
    if !l1.end1 {
        match &l1.result {
            Some(v) if v["verdict"] == "violated" => viol!("before any crash: {}", v["msg"]),
            v => return Err(Fail::Inconclusive(format!("the first process ended: {v:?}"))),
        }
    }
    let cap = *rng.pick(&[1usize, 5, 20, 50]);
    let mut kills = vec![];
    // (an error must not meet the recording of a completion: no work done before it)
    let again = if a.n("err", 0) > 0 { 0 } else { rng.range(0, 2) };
    for _ in 0..again {
        let n = rng.range(0, 4 * m.gated as i64);
        srv.arm_writes(n);
        let mut v = argv("mass2");
        v.extend(["--cap".into(), cap.to_string()]);
        let mut p = spawn(&v)?;
        let blown = srv.blown.clone();
        wait(&mut p, &move |l| blown.load(Ordering::SeqCst) || l.iter().any(|x| x.starts_with("RESULT")))?;
        std::thread::sleep(Duration::from_millis(5));
        let l = end(&mut p);
        srv.disarm();
        // not every job's time is still to come then
        if l.clock > t0 {
            return Ok(());
        }
        kills.push(n);
    }
    let mut v = argv("mass2");
    v.extend(["--cap".into(), cap.to_string()]);
    let mut faults = String::new();
    if a.n("err", 0) > 0 {
        v.extend(["--err".into(), "1".into()]);
        let running = m.limit.min(m.gated) as i64;
        if rng.chance(60) {
            let f = (*rng.pick(&[1u8, 2]), rng.range(1, 2 * running + 2));
            faults = format!(", fault {f:?} at the restart");
            *srv.fault.lock().unwrap() = f;
        } else {
            faults = ", backend down at the restart".into();
            srv.fail.store(true, Ordering::SeqCst);
        }
    }
    let mut p = spawn(&v)?;
    if srv.fail.load(Ordering::SeqCst) {
        let c0 = srv.cmds.load(Ordering::SeqCst);
        let (n, cmds) = (rng.range(1, 12) as u64, srv.cmds.clone());
        wait(&mut p, &move |l| cmds.load(Ordering::SeqCst) >= c0 + n || l.iter().any(|x| x.starts_with("RESULT")))?;
        srv.fail.store(false, Ordering::SeqCst);
    }
    wait(&mut p, &|l| l.iter().any(|x| x.starts_with("RESULT")))?;
    let l2 = end(&mut p);
    if !faults.is_empty() {
        stats.add("restarts_with_backend_errors", 1);
        stats.seen(&faults);
    }
    let at = format!("{} running and {} waiting at the kill, killed again after writes {kills:?}{faults}", m.limit.min(m.gated), m.gated - m.limit.min(m.gated));
    match &l2.result {
        Some(v) if v["verdict"] == "held" => {}
        Some(v) if v["verdict"] == "violated" => viol!("{}; {at}", v["msg"]),
        v => return Err(Fail::Inconclusive(format!("the restart ended: {v:?}; {at}"))),
    }
    stats.evaluations += m.gated as u64;
    stats.add("mass_kills", 1 + kills.len() as u64);
    stats.max("max_running_at_kill", m.limit.min(m.gated) as u64);
    stats.max("max_waiting_at_kill", (m.gated - m.limit.min(m.gated) + m.later) as u64);
    stats.seen(&(m.limit, m.gated, m.later, cap, kills.clone()));
    stats.sample(json!({"seed": a.seed, "running": m.limit.min(m.gated), "jobs": m.gated, "later": m.later, "done": m.done, "cancelled": m.cancelled, "limit_after": cap, "killed_again_after_writes": kills}));
    Ok(())
}
