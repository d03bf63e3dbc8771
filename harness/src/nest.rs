//! C24: job code that uses the engine it runs in.
use crate::probe::*;
use crate::rec::{self, K};
use crate::rng::Rng;
use crate::util::*;
use crate::{check, viol, with_k};
use aj_core::{JobPlugin, JobStatus, WorkQueueConfig, AJ};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::sync::Mutex;
use std::time::Duration;

/// One call made by job code.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Act {
    Submit { k: usize, id: String, uid: u64, delay: bool },
    Fire { k: usize, id: String, uid: u64 },
    Get { k: usize, id: String },
    Cancel { k: usize, id: String },
    Update { k: usize, id: String, uid: u64, val: i64 },
    Retry { k: usize, id: String },
    Config { k: usize, max: usize },
    Start,
    /// wait until the job (of another type) has completed
    Await { k: usize, id: String },
}

/// (job, call, result) in the order of return
pub static RETS: Mutex<Vec<(String, Act, String)>> = Mutex::new(Vec::new());

pub async fn perform(_n: usize, me: &str, acts: Vec<Act>) {
    for a in acts {
        let res = match &a {
            Act::Submit { k, id, uid, delay } => with_k!(*k, N => {
                let mut j = job::<N>(id, P::<N>::new(*uid, 0));
                if *delay {
                    j = j.schedule_at(chrono::Utc::now() + chrono::Duration::days(1));
                }
                // boxed: the future of a job type may contain itself
                let f: std::pin::Pin<Box<dyn std::future::Future<Output = Result<String, aj_core::Error>> + Send>> = Box::pin(j.run());
                format!("{:?}", f.await)
            }),
            Act::Fire { k, id, uid } => {
                with_k!(*k, N => job::<N>(id, P::<N>::new(*uid, 0)).just_run());
                "()".into()
            }
            Act::Get { k, id } => with_k!(*k, N => {
                let f: std::pin::Pin<Box<dyn std::future::Future<Output = Option<aj_core::Job<P<N>>>> + Send>> = Box::pin(async move { AJ::get_job::<P<N>>(id).await });
                format!("{:?}", f.await.map(|j| j.context.job_status))
            }),
            Act::Cancel { k, id } => with_k!(*k, N => format!("{:?}", AJ::cancel_job::<P<N>>(id.clone()).await)),
            Act::Update { k, id, uid, val } => with_k!(*k, N => {
                let f: std::pin::Pin<Box<dyn std::future::Future<Output = Result<(), aj_core::Error>> + Send>> = {
                    let (id, uid, val) = (id.clone(), *uid, *val);
                    Box::pin(async move { AJ::update_job::<P<N>>(&id, P::new(uid, val), None).await })
                };
                format!("{:?}", f.await)
            }),
            Act::Retry { k, id } => with_k!(*k, N => format!("{:?}", AJ::retry_job::<P<N>>(id).await)),
            Act::Config { k, max } => {
                let c = WorkQueueConfig { process_tick_duration: Duration::from_millis(1), max_processing_jobs: *max };
                with_k!(*k, N => format!("{:?}", AJ::update_work_queue::<P<N>>(c).await))
            }
            Act::Start => {
                let x = aj_core::get_aj_address();
                format!("{:?}", Some(AJ::quick_start()) == x)
            }
            Act::Await { k, id } => {
                while rec::cnt(*k, id).post == 0 {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                "()".into()
            }
        };
        RETS.lock().unwrap().push((me.to_string(), a.clone(), res.clone()));
        rec::push(K::Ret { c: 0, op: format!("{me}: {a:?}"), res });
    }
}

/// Calls that plugin hooks make, by (hook, job).
static HOOKS: Mutex<Vec<(&'static str, String, Vec<Act>)>> = Mutex::new(Vec::new());

struct Caller;
impl Caller {
    async fn at(&self, what: &'static str, id: &str) {
        let acts = {
            let mut h = HOOKS.lock().unwrap();
            h.iter().position(|x| x.0 == what && x.1 == id).map(|i| h.remove(i).2)
        };
        if let Some(acts) = acts {
            perform(0, &format!("{id}@{what}"), acts).await;
        }
    }
}
#[async_trait::async_trait]
impl JobPlugin for Caller {
    async fn change_status(&self, id: &str, s: JobStatus) {
        match s {
            JobStatus::Running => self.at("running", id).await,
            JobStatus::Finished => self.at("finished", id).await,
            _ => {}
        }
    }
    async fn before_run(&self, id: &str) {
        self.at("before", id).await
    }
    async fn after_run(&self, id: &str) {
        self.at("after", id).await
    }
}

fn who(place: &str, id: &str) -> String {
    match place {
        "execute" | "pre" | "post" => id.to_string(),
        hook => format!("{id}@{hook}"),
    }
}

fn results(me: &str) -> Vec<(Act, String)> {
    RETS.lock().unwrap().iter().filter(|r| r.0 == me).map(|r| (r.1.clone(), r.2.clone())).collect()
}

pub async fn run(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    warm::<0>(3).await?;
    warm::<1>(5).await?;
    let hooks = a.seed % 3 != 0;
    if hooks {
        let r = AJ::register_plugin(Caller).await;
        check!(r.is_ok(), "register_plugin -> {r:?}");
    }
    for round in 0..a.scale.max(1) {
        let cap = *rng.pick(&[1usize, 1, 2, 4]);
        set_cfg::<0>(cap, Duration::from_millis(1)).await?;
        set_cfg::<1>(5, Duration::from_millis(1)).await?;
        // a finished job to retry
        let done = format!("n{round}-done");
        let r = job::<0>(&done, P::<0>::new(next_uid(), 0)).run().await;
        check!(r.is_ok(), "run -> {r:?}");
        wait_status::<0>(&done, &[JobStatus::Finished]).await?;
        // more parents than slots
        let parents = cap + rng.range(1, 5) as usize;
        struct Pa {
            id: String,
            /// where the calls are made: the job's own callbacks, or a plugin's
            place: &'static str,
            acts: Vec<Act>,
            want: Vec<Option<String>>,
            run_once: Vec<(usize, String)>,
            never: Vec<(usize, String)>,
        }
        let mut all: Vec<Pa> = vec![];
        let retrier = rng.below(parents as u64) as usize;
        for p in 0..parents {
            let me = format!("n{round}-p{p}");
            let place = *rng.pick(if hooks {
                &["execute", "pre", "post", "before", "after", "running", "finished"][..]
            } else {
                &["execute", "execute", "pre", "post"][..]
            });
            // the job is in progress while the calls are made
            let inside = !matches!(place, "running" | "finished");
            let mut pa = Pa { id: me.clone(), place, acts: vec![], want: vec![], run_once: vec![], never: vec![] };
            let push = |pa: &mut Pa, act: Act, want: Option<&str>| {
                pa.acts.push(act);
                pa.want.push(want.map(|s| s.to_string()));
            };
            for i in 0..rng.range(3, 8) {
                let own = rng.chance(60);
                let k = if own { 0 } else if rng.chance(30) { 2 + (round % 6) as usize } else { 1 };
                let id = format!("{me}-{i}");
                match rng.below(10) {
                    0 | 1 => {
                        push(&mut pa, Act::Submit { k, id: id.clone(), uid: next_uid(), delay: false }, Some(&format!("Ok({id:?})")));
                        pa.run_once.push((k, id.clone()));
                        if k == 1 && rng.chance(60) {
                            push(&mut pa, Act::Await { k, id }, Some("()"));
                        } else if k == 0 && cap == 1 && inside {
                            // the only slot is this job's
                            push(&mut pa, Act::Get { k, id }, Some("Some(Queued)"));
                        }
                    }
                    2 => {
                        push(&mut pa, Act::Fire { k, id: id.clone(), uid: next_uid() }, None);
                        pa.run_once.push((k, id));
                    }
                    3 | 4 => {
                        push(&mut pa, Act::Submit { k, id: id.clone(), uid: next_uid(), delay: true }, Some(&format!("Ok({id:?})")));
                        push(&mut pa, Act::Get { k, id: id.clone() }, Some("Some(Queued)"));
                        if rng.chance(50) {
                            push(&mut pa, Act::Update { k, id: id.clone(), uid: next_uid(), val: 7 }, Some("Ok(())"));
                        }
                        push(&mut pa, Act::Cancel { k, id: id.clone() }, Some("Ok(())"));
                        push(&mut pa, Act::Get { k, id: id.clone() }, Some("Some(Canceled)"));
                        pa.never.push((k, id));
                    }
                    5 if inside => {
                        // itself: it is running
                        push(&mut pa, Act::Get { k: 0, id: me.clone() }, Some("Some(Running)"));
                        push(&mut pa, Act::Cancel { k: 0, id: me.clone() }, Some("Ok(())"));
                        push(&mut pa, Act::Retry { k: 0, id: me.clone() }, Some("Ok(false)"));
                        push(&mut pa, Act::Update { k: 0, id: me.clone(), uid: next_uid(), val: 9 }, Some("Ok(())"));
                        push(&mut pa, Act::Get { k: 0, id: me.clone() }, Some("Some(Running)"));
                    }
                    6 => {
                        push(&mut pa, Act::Get { k, id: "no-such".into() }, Some("None"));
                        push(&mut pa, Act::Start, Some("true"));
                    }
                    7 => push(&mut pa, Act::Config { k: 0, max: cap }, Some("Ok(())")),
                    _ => {
                        push(&mut pa, Act::Submit { k, id: id.clone(), uid: next_uid(), delay: false }, Some(&format!("Ok({id:?})")));
                        pa.run_once.push((k, id));
                    }
                }
            }
            if p == retrier {
                push(&mut pa, Act::Retry { k: 0, id: done.clone() }, Some("Ok(true)"));
            }
            all.push(pa);
        }
        for pa in &all {
            let acts = pa.acts.clone();
            let mode = match pa.place {
                "execute" => Mode::Nest(acts),
                "pre" => Mode::NestPre(acts),
                "post" => Mode::NestPost(acts),
                hook => {
                    HOOKS.lock().unwrap().push((hook, pa.id.clone(), acts));
                    Mode::Quick
                }
            };
            let r = job::<0>(&pa.id, P::<0>::new(next_uid(), 0).mode(mode)).run().await;
            check!(r.is_ok(), "run -> {r:?}");
        }
        let ids: Vec<String> = all.iter().map(|p| p.id.clone()).collect();
        let w = wait_runs(0, "jobs that use the engine complete", &ids, 1).await;
        if let Err(Fail::Violation(v)) = w {
            let stuck: Vec<String> = all
                .iter()
                .filter(|p| rec::cnt(0, &p.id).post == 0 && (rec::cnt(0, &p.id).pre > 0 || !results(&who(p.place, &p.id)).is_empty()))
                .map(|p| format!("{} ({}) in {:?}", p.id, p.place, p.acts.get(results(&who(p.place, &p.id)).len())))
                .collect();
            viol!("{v}; jobs that do not come back from a call: {stuck:?} (limit {cap})");
        }
        w?;
        for pa in &all {
            let me = who(pa.place, &pa.id);
            wait_for(&format!("the calls made for job {} (in {}) return", pa.id, pa.place), 0, || results(&me).len() >= pa.acts.len()).await?;
            let got = results(&me);
            check!(got.len() == pa.acts.len(), "job {} made {} of {} calls", pa.id, got.len(), pa.acts.len());
            for ((act, res), want) in got.iter().zip(&pa.want) {
                if let Some(w) = want {
                    check!(w == res, "job {} called {act:?} (in {}) and got {res}, expected {w} (limit {cap})", pa.id, pa.place);
                }
                stats.evaluations += 1;
                stats.seen(&(cap, pa.place, format!("{act:?}").split(' ').next().unwrap_or("").to_string(), res.clone()));
            }
            wait_status::<0>(&pa.id, &[JobStatus::Finished]).await?;
        }
        for pa in &all {
            for (k, id) in &pa.run_once {
                wait_runs(*k, "a job submitted by a job runs", &[id.clone()], 1).await?;
            }
        }
        wait_runs(0, "a job retried by a job runs", &[done.clone()], 2).await?;
        flush::<0>().await?;
        flush::<1>().await?;
        for pa in &all {
            check!(rec::cnt(0, &pa.id).pre == 1, "job {} ran {} times", pa.id, rec::cnt(0, &pa.id).pre);
            for (k, id) in &pa.run_once {
                check!(rec::cnt(*k, id).pre == 1, "job {id} submitted by a job ran {} times", rec::cnt(*k, id).pre);
            }
            for (k, id) in &pa.never {
                check!(rec::cnt(*k, id).pre == 0, "job {id} cancelled by a job ran");
            }
        }
        stats.add("parents", parents as u64);
        stats.add("calls_from_jobs", all.iter().map(|p| p.acts.len() as u64).sum());
        stats.sample(json!({"seed": a.seed, "round": round, "limit": cap, "acts_of_first": format!("{:?}", all[0].acts.iter().take(6).collect::<Vec<_>>())}));
    }
    Ok(())
}
