//! C14: what plugins and job callbacks see.
use crate::probe::*;
use crate::rec::{self, K};
use crate::rng::Rng;
use crate::util::*;
use crate::{check, viol, with_k};
use aj_core::{JobPlugin, JobStatus, Retry, AJ};
use async_trait::async_trait;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Plain,
    /// suspends in the hooks
    Slow,
    /// yields to the executor in the hooks
    Yielding,
    /// holds up the thread it is called on, so that messages to plugins pile up
    Blocking,
    /// panics in the hooks now and then
    Panics,
}

struct Rec {
    n: usize,
    kind: Kind,
    calls: Arc<AtomicUsize>,
}

impl Rec {
    async fn at(&self, what: &'static str, id: &str, status: String) {
        let c = self.calls.fetch_add(1, Ordering::SeqCst);
        match self.kind {
            Kind::Plain => {}
            Kind::Slow => tokio::time::sleep(Duration::from_micros(300 + (c as u64 * 37) % 1500)).await,
            Kind::Blocking => std::thread::sleep(Duration::from_micros(if c % 50 == 3 { 12_000 } else { 150 })),
            Kind::Yielding => tokio::task::yield_now().await,
            Kind::Panics if c % 4 == 1 => tokio::task::yield_now().await,
            Kind::Panics => {}
        }
        rec::push(K::Plug { plugin: self.n, what, id: id.to_string(), status });
        // the call has arrived; that it panics is nobody else's business
        if self.kind == Kind::Panics && c % 4 < 2 {
            panic!("{}", crate::INJECTED);
        }
    }
}

#[async_trait]
impl JobPlugin for Rec {
    async fn change_status(&self, id: &str, s: JobStatus) {
        self.at("status", id, format!("{s:?}")).await
    }
    async fn before_run(&self, id: &str) {
        self.at("before", id, String::new()).await
    }
    async fn after_run(&self, id: &str) {
        self.at("after", id, String::new()).await
    }
}

/// Parse one job's events: for each run every plugin's `before`, then Pre,
/// Start, End, Post, then every plugin's `after`.
fn judge_runs(id: &str, evs: &[K], plugins: &[usize]) -> Result<usize, String> {
    #[derive(PartialEq, Debug, Clone, Copy)]
    enum S {
        Before,
        Pre,
        Start,
        End,
        Post,
        After,
    }
    let mut st = S::Before;
    let mut seen: Vec<usize> = vec![];
    let mut runs = 0;
    for k in evs {
        let bad = || format!("job {id}, run {}: {k:?} while expecting {st:?} (plugins done: {seen:?})", runs + 1);
        match k {
            K::Plug { what: "before", plugin, .. } => {
                if st != S::Before || seen.contains(plugin) {
                    return Err(bad());
                }
                seen.push(*plugin);
                if seen.len() == plugins.len() {
                    st = S::Pre;
                    seen.clear();
                }
            }
            K::Pre { .. } => {
                if st != S::Pre {
                    return Err(bad());
                }
                st = S::Start;
            }
            K::Start { .. } => {
                if st != S::Start {
                    return Err(bad());
                }
                st = S::End;
            }
            K::End { .. } => {
                if st != S::End {
                    return Err(bad());
                }
                st = S::Post;
            }
            K::Post { .. } => {
                if st != S::Post {
                    return Err(bad());
                }
                st = S::After;
            }
            K::Abort { .. } => {
                // a panicked run: what follows is another run
                st = S::Before;
                seen.clear();
                runs += 1;
            }
            K::Plug { what: "after", plugin, .. } => {
                if st != S::After || seen.contains(plugin) {
                    return Err(bad());
                }
                seen.push(*plugin);
                if seen.len() == plugins.len() {
                    st = S::Before;
                    seen.clear();
                    runs += 1;
                }
            }
            _ => {}
        }
    }
    if st != S::Before || !seen.is_empty() {
        return Err(format!("job {id}: after {runs} runs, still waiting for {st:?} (done {seen:?})"));
    }
    Ok(runs)
}

struct Want {
    k: usize,
    statuses: Vec<&'static str>,
    runs: usize,
}

pub fn run(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    let many = rng.chance(8);
    let np = if many { rng.range(13, 40) } else if rng.chance(15) { rng.range(5, 12) } else { rng.range(1, 4) } as usize;
    let types = rng.range(1, 4) as usize;
    let with_panics = rng.chance(20);
    let mut kinds: Vec<Kind> = (0..np).map(|_| *rng.pick(&[Kind::Plain, Kind::Plain, Kind::Slow, Kind::Yielding, Kind::Blocking])).collect();
    if many {
        kinds.iter_mut().for_each(|x| *x = Kind::Plain);
    } else if rng.chance(40) {
        let k = *rng.pick(&[Kind::Plain, Kind::Blocking]);
        kinds.iter_mut().for_each(|x| *x = k);
    }
    if with_panics {
        let at = rng.below(kinds.len() as u64 + 1) as usize;
        kinds.insert(at, Kind::Panics);
    }
    let ordered = kinds.iter().all(|k| matches!(k, Kind::Plain | Kind::Blocking));
    let from_runtime = rng.below(2);
    for (n, k) in kinds.iter().enumerate() {
        let p = Rec { n, kind: *k, calls: Default::default() };
        let r = if from_runtime == 0 {
            block(AJ::register_plugin(p))
        } else {
            // from another thread with an Actix system of its own
            std::thread::spawn(move || actix_rt::System::new().block_on(AJ::register_plugin(p)))
                .join()
                .map_err(|_| Fail::Violation(format!("register_plugin panicked: {:?}", crate::panics())))?
        };
        check!(r.is_ok(), "register_plugin -> {r:?}");
    }
    let plugins: Vec<usize> = (0..kinds.len()).collect();
    let from = rec::len();
    let seed = rng.next();
    let per = 25usize;
    let wants: Arc<std::sync::Mutex<HashMap<String, Want>>> = Default::default();
    let w2 = wants.clone();
    all_ok(clients(3, move |t| {
        let wants = w2.clone();
        async move {
            let mut r = Rng::new(seed ^ (t as u64 * 31));
            for i in 0..per {
                let id = format!("pl{t}-{i}");
                let k = r.below(types as u64) as usize;
                let mut statuses = vec!["Queued"];
                let mut runs = 1;
                let how = r.below(14);
                with_k!(k, N => {
                    let mut p = P::<N>::new(next_uid(), 0);
                    p.mode = if r.chance(50) { Mode::Quick } else { Mode::Sleep(r.range(1, 2000) as u64) };
                    match how {
                        0 | 1 => {
                            // cancelled before its time
                            let j = job::<N>(&id, p).schedule_at(chrono::Utc::now() + chrono::Duration::days(2));
                            let x = j.run().await;
                            check!(x.is_ok(), "run -> {x:?}");
                            let c = AJ::cancel_job::<P<N>>(id.clone()).await;
                            check!(c.is_ok(), "cancel -> {c:?}");
                            statuses.push("Canceled");
                            runs = 0;
                        }
                        2 | 3 | 4 => {
                            let f = r.range(1, 3) as usize;
                            p.fail = (0..f).map(|_| true).chain([false]).collect();
                            let max = r.range(0, 3);
                            let j = job::<N>(&id, p).retry(Retry::new_interval_retry(Some(max as i32), chrono::Duration::microseconds(r.range(1, 2000))));
                            let x = j.run().await;
                            check!(x.is_ok(), "run -> {x:?}");
                            let tries = f.min(max as usize);
                            for _ in 0..tries {
                                statuses.extend(["Running", "Queued"]);
                            }
                            statuses.extend(["Running", if f > max as usize { "Failed" } else { "Finished" }]);
                            runs = tries + 1;
                        }
                        10 => {
                            // cancelled while it waits for a retry
                            p.fail = vec![true];
                            let x = job::<N>(&id, p).retry(Retry::new_interval_retry(None, chrono::Duration::days(1))).run().await;
                            check!(x.is_ok(), "run -> {x:?}");
                            wait_for("a run fails", k, || rec::cnt(k, &id).post >= 1).await?;
                            wait_status::<N>(&id, &[JobStatus::Queued]).await?;
                            let c = AJ::cancel_job::<P<N>>(id.clone()).await;
                            check!(c.is_ok(), "cancel -> {c:?}");
                            statuses.extend(["Running", "Queued", "Canceled"]);
                            if r.chance(50) {
                                // and brought back: data and context replaced
                                let y = AJ::update_job::<P<N>>(&id, P::<N>::new(next_uid(), 1), Some(aj_core::JobContext::new(id.clone()))).await;
                                check!(y.is_ok(), "update -> {y:?}");
                                statuses.extend(["Queued", "Running", "Finished"]);
                                runs = 2;
                            }
                        }
                        11 => {
                            // waits, is replaced (no change of status), is cancelled, is submitted again
                            let far = chrono::Utc::now() + chrono::Duration::days(2);
                            let x = job::<N>(&id, p.clone()).schedule_at(far).run().await;
                            check!(x.is_ok(), "run -> {x:?}");
                            let x = job::<N>(&id, p.clone()).schedule_at(far).run().await;
                            check!(x.is_ok(), "run -> {x:?}");
                            let c = AJ::cancel_job::<P<N>>(id.clone()).await;
                            check!(c.is_ok(), "cancel -> {c:?}");
                            let c = AJ::cancel_job::<P<N>>(id.clone()).await;
                            check!(c.is_ok(), "cancel -> {c:?}");
                            let x = job::<N>(&id, p).run().await;
                            check!(x.is_ok(), "run -> {x:?}");
                            statuses.extend(["Canceled", "Queued", "Running", "Finished"]);
                        }
                        12 if i % 4 == 0 => {
                            // a cron job with two occurrences
                            let ty = aj_core::job::JobType::new_cron("* * * * * * *", aj_core::job::CronContext { tick_number: 0, max_repeat: Some(2), end_at: None }).unwrap();
                            let x = job::<N>(&id, p).job_type(ty).run().await;
                            check!(x.is_ok(), "run -> {x:?}");
                            statuses.extend(["Running", "Queued", "Running", "Finished"]);
                            runs = 2;
                        }
                        5 => {
                            p.mode = Mode::Panic(vec![1]);
                            let x = job::<N>(&id, p).run().await;
                            check!(x.is_ok(), "run -> {x:?}");
                            statuses.extend(["Running", "Failed"]);
                        }
                        _ => {
                            p.fail = vec![how == 6];
                            let again = how == 7;
                            let x = job::<N>(&id, p).run().await;
                            check!(x.is_ok(), "run -> {x:?}");
                            statuses.extend(["Running", if how == 6 { "Failed" } else { "Finished" }]);
                            if again {
                                wait_status::<N>(&id, &[JobStatus::Finished]).await?;
                                let y = AJ::retry_job::<P<N>>(&id).await;
                                check!(matches!(y, Ok(true)), "retry_job -> {y:?}");
                                statuses.extend(["Queued", "Running", "Finished"]);
                                runs = 2;
                            }
                        }
                    }
                    wants.lock().unwrap().insert(id, Want { k, statuses, runs });
                });
            }
            Ok(())
        }
    }))?;
    let wants = std::mem::take(&mut *wants.lock().unwrap());
    block(async {
        for (id, w) in &wants {
            let want = w.runs;
            let last = *w.statuses.last().unwrap();
            if want > 0 {
                wait_for(&format!("job {id} makes {want} runs"), w.k, || {
                    let c = rec::cnt(w.k, id);
                    c.post + c.abort >= want
                })
                .await?;
            }
            let st = match last {
                "Failed" => JobStatus::Failed,
                "Canceled" => JobStatus::Canceled,
                _ => JobStatus::Finished,
            };
            with_k!(w.k, N => { wait_status::<N>(id, &[st]).await?; });
        }
        Ok::<(), Fail>(())
    })?;
    if with_panics {
        stats.add("with_panicking_plugin", 1);
    }
    // status notifications are messages: wait for their number, then judge
    let total: usize = wants.values().map(|w| w.statuses.len()).sum();
    let n_of = |p: usize| {
        rec::with(|l| l[from..].iter().filter(|e| matches!(&e.k, K::Plug{plugin, what: "status", id, ..} if *plugin == p && id.starts_with("pl"))).count())
    };
    let n_after = |p: usize| {
        rec::with(|l| l[from..].iter().filter(|e| matches!(&e.k, K::Plug{plugin, what: "after", id, ..} if *plugin == p && id.starts_with("pl"))).count())
    };
    let posts: usize = wants.values().filter(|w| w.statuses.last() != Some(&"x")).map(|w| w.runs).sum();
    let aborted = rec::with(|l| l[from..].iter().filter(|e| matches!(&e.k, K::Abort{id, ..} if id.starts_with("pl"))).count());
    block(async {
        let k = wants.values().next().map(|w| w.k).unwrap_or(0);
        for p in &plugins {
            let r = wait_for(&format!("plugin {p} is told of {total} status changes and {} completed runs", posts - aborted), k, || n_of(*p) >= total && n_after(*p) >= posts - aborted).await;
            if let Err(Fail::Violation(v)) = r {
                viol!("{v}; it saw {} and {}", n_of(*p), n_after(*p));
            }
            r?;
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
        Ok::<(), Fail>(())
    })?;
    let mut per_job: BTreeMap<String, Vec<K>> = BTreeMap::new();
    for e in rec::since(from) {
        let id = match &e.k {
            K::Plug { id, .. } => Some(id.clone()),
            k => ev_id(k).map(|x| x.1),
        };
        if let Some(id) = id {
            if id.starts_with("pl") {
                per_job.entry(id).or_default().push(e.k.clone());
            } else {
                check!(matches!(&e.k, K::Plug { .. }) == false || id.starts_with("canary"), "a plugin was called for the unknown job {id:?}");
            }
        }
    }
    for (id, w) in &wants {
        let evs = per_job.remove(id).unwrap_or_default();
        match judge_runs(id, &evs, &plugins) {
            Ok(n) => check!(n == w.runs, "job {id}: {n} runs seen by plugins, {} made", w.runs),
            Err(m) => viol!("{m}; events {evs:?}"),
        }
        for p in &plugins {
            let mut got: Vec<String> = evs
                .iter()
                .filter_map(|k| match k {
                    K::Plug { plugin, what: "status", status, .. } if plugin == p => Some(status.clone()),
                    _ => None,
                })
                .collect();
            let mut want: Vec<String> = w.statuses.iter().map(|s| s.to_string()).collect();
            if !ordered {
                got.sort();
                want.sort();
            }
            check!(got == want, "plugin {p} of {kinds:?} was told {got:?} about job {id}, its status went through {want:?}");
        }
        stats.evaluations += 1;
        stats.seen(&(kinds.len(), ordered, w.statuses.clone()));
    }
    // a plugin registered later sees what happens from then on
    let n = plugins.len();
    let r = block(AJ::register_plugin(Rec { n, kind: Kind::Plain, calls: Default::default() }));
    check!(r.is_ok(), "register_plugin -> {r:?}");
    block(async {
        let from = rec::len();
        let x = job::<0>("late", P::<0>::new(next_uid(), 0)).run().await;
        check!(x.is_ok(), "run -> {x:?}");
        let mine = || {
            rec::with(|l| {
                l[from..]
                    .iter()
                    .filter_map(|e| match &e.k {
                        K::Plug { plugin, what, status, id } if *plugin == n && id == "late" => Some(format!("{what}{status}")),
                        _ => None,
                    })
                    .collect::<Vec<_>>()
            })
        };
        let r = wait_for("a plugin registered later is called", 0, || mine().len() >= 5).await;
        let mut got = mine();
        if let Err(Fail::Violation(v)) = r {
            viol!("{v}; it saw {got:?}");
        }
        r?;
        got.sort();
        check!(got == ["after", "before", "statusFinished", "statusQueued", "statusRunning"], "a plugin registered later saw {got:?} of one run");
        Ok::<(), Fail>(())
    })?;
    stats.add("status_notifications", (total * plugins.len()) as u64);
    stats.add("jobs", wants.len() as u64);
    stats.add(if ordered { "plain_plugins" } else { "suspending_plugins" }, 1);
    stats.distinct.insert(interleaving_hash(from));
    stats.sample(json!({"seed": a.seed, "plugins": format!("{kinds:?}"), "types": types, "jobs": wants.len()}));
    Ok(())
}

/// Plugins registered in an Actix system before the engine is started in it.
pub async fn pre(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    let np = rng.range(1, 3) as usize;
    let kind = |r: &mut Rng| *r.pick(&[Kind::Plain, Kind::Slow, Kind::Yielding]);
    for n in 0..np {
        let r = AJ::register_plugin(Rec { n, kind: kind(&mut rng), calls: Default::default() }).await;
        check!(r.is_ok(), "register_plugin before the start -> {r:?}");
    }
    let _srv = crate::start_engine(a);
    // and some more afterwards
    let all = np + rng.below(2) as usize;
    for n in np..all {
        let r = AJ::register_plugin(Rec { n, kind: kind(&mut rng), calls: Default::default() }).await;
        check!(r.is_ok(), "register_plugin after the start -> {r:?}");
    }
    let plugins: Vec<usize> = (0..all).collect();
    let ids: Vec<String> = (0..rng.range(1, 8)).map(|i| format!("pp{i}")).collect();
    for (i, id) in ids.iter().enumerate() {
        let x = if i % 2 == 0 {
            job::<0>(id, P::<0>::new(next_uid(), 0)).run().await
        } else {
            job::<1>(id, P::<1>::new(next_uid(), 0)).run().await
        };
        check!(x.is_ok(), "run -> {x:?}");
    }
    let of = |id: &str| {
        rec::with(|l| {
            l.iter()
                .filter(|e| match &e.k {
                    K::Plug { id: i, .. } => i == id,
                    k => ev_id(k).map_or(false, |x| x.1 == id),
                })
                .map(|e| e.k.clone())
                .collect::<Vec<_>>()
        })
    };
    let seen = |id: &str, p: usize| {
        let mut v: Vec<String> = of(id)
            .iter()
            .filter_map(|k| match k {
                K::Plug { plugin, what, status, .. } if *plugin == p => Some(format!("{what}{status}")),
                _ => None,
            })
            .collect();
        v.sort();
        v
    };
    for id in &ids {
        for p in &plugins {
            let r = wait_for("a plugin registered before the start is called", 0, || seen(id, *p).len() >= 5).await;
            let got = seen(id, *p);
            if let Err(Fail::Violation(v)) = r {
                viol!("{v}; plugin {p} ({np} of {all} registered before the start) saw {got:?} of {id}");
            }
            r?;
            check!(got == ["after", "before", "statusFinished", "statusQueued", "statusRunning"], "plugin {p} ({np} of {all} registered before the start) saw {got:?} of {id}");
        }
        match judge_runs(id, &of(id), &plugins) {
            Ok(n) => check!(n == 1, "job {id}: {n} runs seen by plugins"),
            Err(m) => viol!("{m}"),
        }
        stats.evaluations += 1;
    }
    stats.seen(&("pre", np, all, ids.len()));
    stats.add("plugins_before_start", np as u64);
    Ok(())
}
