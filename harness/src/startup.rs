//! C21: starting the engine.
use crate::probe::*;
use crate::rec;
use crate::rng::Rng;
use crate::util::*;
use crate::{check, viol};
use aj_core::types::{Backend, QueueDirection};
use aj_core::{get_aj_address, mem::InMemory, Error, AJ};
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use std::time::Duration;

/// Which backend is used is observable: each one counts.
struct Counting {
    inner: InMemory,
    ops: Arc<AtomicU64>,
}
impl Counting {
    fn hit(&self) {
        self.ops.fetch_add(1, Ordering::SeqCst);
    }
}
impl Backend for Counting {
    fn queue_push(&self, q: &str, i: &str) -> Result<(), Error> {
        self.hit();
        self.inner.queue_push(q, i)
    }
    fn queue_move(&self, f: &str, t: &str, n: usize, fd: QueueDirection, td: QueueDirection) -> Result<Vec<String>, Error> {
        self.hit();
        self.inner.queue_move(f, t, n, fd, td)
    }
    fn queue_remove(&self, q: &str, i: &str) -> Result<(), Error> {
        self.hit();
        self.inner.queue_remove(q, i)
    }
    fn queue_get(&self, q: &str, n: usize, d: QueueDirection) -> Result<Vec<String>, Error> {
        self.hit();
        self.inner.queue_get(q, n, d)
    }
    fn queue_count(&self, q: &str) -> Result<usize, Error> {
        self.hit();
        self.inner.queue_count(q)
    }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> {
        self.hit();
        self.inner.storage_upsert(h, k, v)
    }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> {
        self.hit();
        self.inner.storage_get(h, k)
    }
}

/// One process, one start: this scenario is run in many processes.
pub fn run(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    let n = *rng.pick(&[1usize, 2, 4, 8, 16]);
    let lookers = rng.below(4) as usize;
    let ops: Vec<Arc<AtomicU64>> = (0..n).map(|_| Arc::new(AtomicU64::new(0))).collect();
    let bar = Arc::new(Barrier::new(n + lookers));
    let stop = Arc::new(AtomicBool::new(false));
    let misses = Arc::new(AtomicU64::new(0));
    let looks = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    let mut modes = vec![];
    for i in 0..n {
        let (bar, ops) = (bar.clone(), ops[i].clone());
        let mode = rng.below(4);
        modes.push(mode);
        let jit = rng.below(3) * 200;
        let submit = rng.chance(80);
        let blocking = rng.chance(60);
        hs.push(std::thread::spawn(move || {
            let b = Counting { inner: InMemory::default(), ops };
            let go = move || {
                bar.wait();
                if jit > 0 {
                    std::thread::sleep(Duration::from_micros(jit));
                }
                let addr = AJ::start(b);
                let found = get_aj_address();
                // fire and forget at once: the engine must be found
                if submit {
                    job::<0>(&format!("st{i}"), P::<0>::new(next_uid(), 0)).just_run();
                }
                // and submissions are served while the starting thread is busy waiting for them
                let mut served = true;
                if blocking {
                    let (tx, rx) = std::sync::mpsc::channel();
                    std::thread::spawn(move || {
                        let id = format!("wait{i}");
                        let r = block(job::<0>(&id, P::<0>::new(next_uid(), 0)).run());
                        let _ = tx.send(matches!(&r, Ok(x) if *x == id));
                    });
                    served = rx.recv_timeout(Duration::from_secs(20)).unwrap_or(false);
                }
                (addr, found, submit, blocking, served)
            };
            match mode {
                0 => go(),
                1 => tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async { go() }),
                2 => tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap().block_on(async { go() }),
                _ => {
                    // an Actix system that stays
                    let (tx, rx) = std::sync::mpsc::channel();
                    std::thread::spawn(move || {
                        let sys = actix_rt::System::new();
                        let r = sys.block_on(async { go() });
                        let _ = tx.send(r);
                        let _ = sys.run();
                    });
                    rx.recv().unwrap()
                }
            }
        }));
    }
    let mut ls = vec![];
    for _ in 0..lookers {
        let (bar, stop, misses, looks) = (bar.clone(), stop.clone(), misses.clone(), looks.clone());
        ls.push(std::thread::spawn(move || {
            bar.wait();
            let mut seen = None;
            while !stop.load(Ordering::SeqCst) {
                let a = get_aj_address();
                looks.fetch_add(1, Ordering::Relaxed);
                match (&seen, a) {
                    (None, Some(a)) => seen = Some(a),
                    (Some(_), None) => {
                        misses.fetch_add(1, Ordering::SeqCst);
                    }
                    (Some(s), Some(a)) if *s != a => {
                        misses.fetch_add(1_000_000, Ordering::SeqCst);
                    }
                    _ => {}
                }
            }
        }));
    }
    let mut addrs = vec![];
    let mut want = vec![];
    for (i, h) in hs.into_iter().enumerate() {
        let Ok((addr, found, submit, blocking, served)) = h.join() else { viol!("AJ::start panicked (runtime {}): {:?}", modes[i], crate::panics()) };
        match found {
            None => viol!("the engine is not found right after AJ::start returned (starter {i} of {n}, runtime {})", modes[i]),
            Some(f) => check!(f == addr, "AJ::start returned another engine than the one registered"),
        }
        addrs.push(addr);
        if submit {
            want.push(format!("st{i}"));
        }
        check!(served, "a submission is not served while the thread that called AJ::start waits for it (starter {i} of {n}, runtime {})", modes[i]);
        if blocking {
            stats.add("submissions_awaited_by_a_starter", 1);
            want.push(format!("wait{i}"));
        }
    }
    for x in &addrs {
        check!(*x == addrs[0], "{n} concurrent starts returned different engines");
    }
    std::thread::sleep(Duration::from_secs(a.s("age", "0").parse().expect("age")));
    // the starting threads are gone (Actix ones stay); submissions from new threads and runtimes
    let k = rng.range(1, 4) as usize;
    all_ok(clients(k, move |t| async move {
        for i in 0..10 {
            let id = format!("late{t}-{i}");
            let r = job::<0>(&id, P::<0>::new(next_uid(), 0)).run().await;
            check!(matches!(&r, Ok(x) if *x == id), "submission after start -> {r:?}");
            // while others look it up and start again
            if i % 3 == 0 {
                let a = get_aj_address();
                check!(a == Some(AJ::quick_start()), "a further start gave another engine");
            }
        }
        Ok(())
    }))?;
    for t in 0..k {
        want.extend((0..10).map(|i| format!("late{t}-{i}")));
    }
    // wait without relying on how the engine is reached
    block(async {
        set_cfg::<0>(20, Duration::from_millis(1)).await?;
        wait_runs(0, &format!("jobs submitted around {n} concurrent starts run"), &want, 1).await?;
        flush::<0>().await
    })?;
    stop.store(true, Ordering::SeqCst);
    for l in ls {
        let _ = l.join();
    }
    let m = misses.load(Ordering::SeqCst);
    check!(m == 0, "the engine was not found (or was another) {m} times after it had been found once");
    let used: Vec<usize> = ops.iter().enumerate().filter(|(_, o)| o.load(Ordering::SeqCst) > 0).map(|(i, _)| i).collect();
    check!(used.len() == 1, "backends used: {used:?} of {n} started ones");
    for id in &want {
        check!(rec::cnt(0, id).pre == 1, "job {id} ran {} times", rec::cnt(0, id).pre);
    }
    stats.evaluations += 1;
    stats.add("concurrent_starts", n as u64);
    stats.add("lookups", looks.load(Ordering::Relaxed));
    modes.sort();
    stats.seen(&(n, lookers, modes.clone(), used[0]));
    stats.sample(json!({"seed": a.seed, "starters": n, "runtimes": modes, "winner": used[0]}));
    Ok(())
}
