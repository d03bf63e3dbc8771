//! ajmon: workloads and monitors for cptrodgers/aj.
//! usage: ajmon <scenario> --seed N --scale N [--key value ...]
//! Prints one line `RESULT {json}`; verdict held / violated / inconclusive.
mod backoff;
mod cap;
mod clock;
mod crash;
mod cron_oracle;
mod fault;
mod fid;
mod iso;
mod lin;
mod model;
mod names;
mod nest;
mod panics;
mod plug;
mod probe;
mod race;
mod rec;
mod rdiff;
mod redis_srv;
mod rng;
mod spec;
mod startup;
mod stress;
mod util;

use serde_json::json;
use std::sync::Mutex;
use util::*;

pub const INJECTED: &str = "ajmon: injected job panic";

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// Panics seen in this process that the workload did not inject.
pub fn panics() -> Vec<String> {
    PANICS.lock().unwrap().clone()
}

pub fn is_harness_panic(p: &str) -> bool {
    p.starts_with("src/") || p.contains("/verif/harness/")
}

pub fn tmp_dir() -> String {
    std::env::var("AJMON_TMP").unwrap_or("/tmp".into())
}

/// Start the engine on the requested backend; returns the server if there is one.
pub fn start_engine(a: &Args) -> Option<redis_srv::Server> {
    match a.s("backend", "mem").as_str() {
        "redis" => {
            let p = format!("{}/r{}.sock", tmp_dir(), std::process::id());
            let s = redis_srv::Server::start(&p);
            aj_core::AJ::start(aj_core::redis::Redis::new(s.url()));
            Some(s)
        }
        _ => {
            aj_core::AJ::quick_start();
            None
        }
    }
}

fn main() {
    let mut it = std::env::args().skip(1);
    let mut a = Args { scen: it.next().expect("scenario"), seed: 1, scale: 1, opt: Default::default() };
    while let Some(k) = it.next() {
        let v = it.next().expect("value");
        match k.as_str() {
            "--seed" => a.seed = v.parse().expect("seed"),
            "--scale" => a.scale = v.parse().expect("scale"),
            k => {
                a.opt.insert(k.trim_start_matches("--").into(), v);
            }
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if msg.contains(INJECTED) {
            return;
        }
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        eprintln!("panic at {loc}: {msg}");
        PANICS.lock().unwrap().push(format!("{loc}: {msg}"));
    }));
    start_heartbeat();
    let mut stats = Stats::default();
    let res = if !clock::self_check() {
        Err(Fail::Inconclusive("clock interposition is not in effect".into()))
    } else {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(&a, &mut stats)));
        match r {
            Ok(r) => r,
            Err(_) => {
                let p = panics();
                let last = p.last().cloned().unwrap_or_default();
                if is_harness_panic(&last) {
                    Err(Fail::Inconclusive(format!("harness panic {last}")))
                } else {
                    // a library call unwound into the client
                    Err(Fail::Violation(format!("a client call panicked: {last}")))
                }
            }
        }
    };
    let (verdict, msg) = match &res {
        Ok(()) => ("held", String::new()),
        Err(Fail::Violation(m)) => ("violated", m.clone()),
        Err(Fail::Inconclusive(m)) => ("inconclusive", m.clone()),
    };
    stats.add("events_recorded", rec::len() as u64);
    let mut out = json!({
        "verdict": verdict, "msg": msg, "stats": stats.c,
        "distinct": stats.distinct.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>(),
        "samples": stats.samples, "evaluations": stats.evaluations, "known": stats.known,
        "panics": panics(),
    });
    if verdict != "held" {
        out["log_tail"] = log_json(400);
    }
    if REPORTED.swap(true, std::sync::atomic::Ordering::SeqCst) {
        std::thread::sleep(std::time::Duration::from_secs(10));
    }
    println!("RESULT {out}");
    std::process::exit(0);
}

/// Client code on an Actix system (like #[aj::main]).
fn on_actix<F>(f: F) -> Res
where
    F: std::future::Future<Output = Res>,
{
    actix_rt::System::new().block_on(f)
}

/// Start the engine as `--start` says (actix system on its own thread, inside a
/// Tokio runtime, or from a plain thread), then run the clients on this thread.
fn with_engine(a: &Args, f: impl FnOnce(&Args) -> Res) -> Res {
    let mode = match a.s("start", "").as_str() {
        "" => ["actix", "tokio", "none"][(a.seed % 3) as usize].to_string(),
        s => s.to_string(),
    };
    let f = |a: &Args| {
        // an engine that has been up for a while
        std::thread::sleep(std::time::Duration::from_secs(a.s("age", "0").parse().expect("age")));
        f(a)
    };
    match mode.as_str() {
        "actix" => {
            let (tx, rx) = std::sync::mpsc::channel();
            let a2 = Args { scen: a.scen.clone(), seed: a.seed, scale: a.scale, opt: a.opt.clone() };
            std::thread::spawn(move || {
                let sys = actix_rt::System::new();
                let srv = sys.block_on(async { start_engine(&a2) });
                tx.send(srv).unwrap();
                let _ = sys.run();
            });
            let _srv = rx.recv().map_err(|_| Fail::Violation(format!("starting the engine panicked: {:?}", panics())))?;
            f(a)
        }
        "tokio" => {
            let _srv = block(async { start_engine(a) });
            f(a)
        }
        _ => {
            let _srv = start_engine(a);
            f(a)
        }
    }
}

fn dispatch(a: &Args, stats: &mut Stats) -> Res {
    match a.scen.as_str() {
        "model" => on_actix(async {
            let _s = start_engine(a);
            model::run(a, stats).await
        }),
        "burst" => with_engine(a, |a| stress::burst(a, stats, false)),
        "once" => with_engine(a, |a| stress::burst(a, stats, true)),
        "flood" => with_engine(a, |a| stress::flood(a, stats)),
        "backlog" => with_engine(a, |a| stress::backlog(a, stats)),
        "dups" => with_engine(a, |a| stress::dups(a, stats)),
        "cap" => on_actix(async {
            let _s = start_engine(a);
            cap::walk(a, stats).await
        }),
        "fifo" => on_actix(async {
            let _s = start_engine(a);
            cap::fifo(a, stats).await
        }),
        "tick" => on_actix(async {
            let _s = start_engine(a);
            cap::tick(a, stats).await
        }),
        "ids" => stress::ids(a, stats),
        "genids" => stress::genids(a),
        "bulk" => on_actix(async {
            let _s = start_engine(a);
            cap::bulk(a, stats).await
        }),
        "starve" => on_actix(async {
            let _s = start_engine(a);
            cap::starve(a, stats).await
        }),
        "storm" => with_engine(a, |a| cap::storm(a, stats)),
        "backoff" => on_actix(async {
            let _s = start_engine(a);
            backoff::run(a, stats).await
        }),
        "longcron" => on_actix(async {
            let _s = start_engine(a);
            backoff::longcron(a, stats).await
        }),
        "counts" => on_actix(async {
            let _s = start_engine(a);
            backoff::counts(a, stats).await
        }),
        "rcancel" => with_engine(a, |a| race::cancel(a, stats)),
        "rupdate" => with_engine(a, |a| race::update(a, stats)),
        "rretry" => with_engine(a, |a| race::retry(a, stats)),
        "truth" => with_engine(a, |a| race::truth(a, stats)),
        "plug" => with_engine(a, |a| plug::run(a, stats)),
        "plugpre" => on_actix(async { plug::pre(a, stats).await }),
        "panics" => with_engine(a, |a| block(panics::run(a, stats))),
        "nest" => with_engine(a, |a| block(nest::run(a, stats))),
        "iso" => with_engine(a, |a| block(iso::run(a, stats))),
        "names" => with_engine(a, |a| block(names::run(a, stats))),
        "startup" => startup::run(a, stats),
        "fid" => on_actix(async {
            let _s = start_engine(a);
            fid::run(a, stats).await
        }),
        "fault" => on_actix(async { fault::run(a, stats).await }),
        "crash" => crash::run(a, stats),
        "crash1" => on_actix(async { crash::phase1(a).await }),
        "crash2" => on_actix(async { crash::phase2(a, stats).await }),
        "mass" => crash::mass(a, stats),
        "mass1" => on_actix(async { crash::mass1(a).await }),
        "mass2" => on_actix(async { crash::mass2(a, stats).await }),
        "lin" => lin::run(a, stats),
        "rdiff" => rdiff::run(a, stats),
        s => Err(Fail::Inconclusive(format!("unknown scenario {s}"))),
    }
}
