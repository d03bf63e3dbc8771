//! C16: the in-memory backend under concurrency.
use crate::rng::Rng;
use crate::spec::{random as any, *};
use crate::util::*;
use crate::{check, viol};
use aj_core::mem::InMemory;
use aj_core::types::{Backend, QueueDirection as D};
use serde_json::json;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
struct Ent {
    call: u64,
    ret: u64,
    op: Op,
    out: Out,
    th: usize,
}

/// Wing & Gong with memoisation: is there an order of the calls, compatible
/// with real time, in which the reference gives the observed results?
fn linearizable(h: &[Ent]) -> Option<bool> {
    let n = h.len();
    assert!(n <= 64);
    let mut seen: HashSet<(u64, u64)> = HashSet::new();
    let mut steps = 0u64;
    fn go(h: &[Ent], mask: u64, st: &Spec, seen: &mut HashSet<(u64, u64)>, steps: &mut u64) -> Option<bool> {
        *steps += 1;
        if *steps > 2_000_000 {
            return None;
        }
        if mask == (if h.len() == 64 { u64::MAX } else { (1u64 << h.len()) - 1 }) {
            return Some(true);
        }
        if !seen.insert((mask, hash(st))) {
            return Some(false);
        }
        // the earliest return among those not yet ordered bounds who may come next
        let lim = h.iter().enumerate().filter(|(i, _)| mask & (1 << i) == 0).map(|(_, e)| e.ret).min().unwrap();
        for (i, e) in h.iter().enumerate() {
            if mask & (1 << i) != 0 || e.call > lim {
                continue;
            }
            let mut s2 = st.clone();
            if s2.apply(&e.op) == e.out {
                match go(h, mask | (1 << i), &s2, seen, steps) {
                    Some(false) => {}
                    r => return r,
                }
            }
        }
        Some(false)
    }
    go(h, 0, &Spec::default(), &mut seen, &mut steps)
}

/// Threads that must all come back.
fn join_all(hs: Vec<std::thread::JoinHandle<()>>, what: &str) -> Res {
    let (t, b) = (Instant::now(), beats());
    for h in hs {
        while !h.is_finished() {
            if t.elapsed() > Duration::from_secs(60) && beats() - b > 3000 {
                viol!("{what}: calls have not returned for 60 s (deadlock)");
            }
            std::thread::sleep(Duration::from_micros(100));
        }
        if h.join().is_err() {
            viol!("{what}: a call panicked: {:?}", crate::panics());
        }
    }
    Ok(())
}

/// The in-memory queue looks at as many places as are asked for.
fn random(r: &mut Rng, qs: &[String], items: &[String], hashes: &[String], w: &[u64; 7]) -> Op {
    match any(r, qs, items, hashes, w) {
        Op::Get(q, n, f) => Op::Get(q, n.min(70_000), f),
        op => op,
    }
}

static CLK: AtomicU64 = AtomicU64::new(0);

pub fn run(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    // 1. one thread against the reference, with odd names, items and counts
    let names: Vec<String> = ["a", "b", "c:queue:Queued", "", "ü\n", "a b"].iter().map(|s| s.to_string()).collect();
    let items: Vec<String> = ["1", "2", "3", "", "ñ\0", "1 "].iter().map(|s| s.to_string()).collect();
    // or names and items that differ in little
    let (tn, ti) = crate::spec::twins();
    for round in 0..2 * a.scale.max(1) {
        let (names, items) = if round % 2 == 0 { (&names, &items) } else { (&tn, &ti) };
        let b = InMemory::default();
        let mut s = Spec::default();
        let mut tr = vec![];
        for _ in 0..150 {
            let op = random(&mut rng, names, items, names, &[30, 25, 10, 20, 8, 5, 5]);
            let want = s.apply(&op);
            let got = call(&b, &op);
            tr.push(op.clone());
            check!(want == got, "{op:?} returned {got:?}, expected {want:?}, after {:?}", tr.iter().rev().take(12).collect::<Vec<_>>());
            stats.evaluations += 1;
        }
        for q in names {
            let op = Op::Get(q.clone(), 1000, true);
            let (w, g) = (s.apply(&op), call(&b, &op));
            check!(w == g, "queue {q:?} holds {g:?}, expected {w:?}");
        }
        if round % 4 == 0 {
            let have = *rng.pick(&[300usize, 1_030, 2_100, 5_000]);
            let pushes = (0..have).map(|i| Op::Push("long1".into(), format!("n{}", i % 4_900)));
            let ops: Vec<Op> = pushes.chain(long_ops(&mut rng, "long1", "long2", have)).collect();
            for op in ops {
                let (want, got) = (s.apply(&op), call(&b, &op));
                check!(want == got, "{op:.300?} on queues of {have} items returned {got:.300?}, expected {want:.300?}");
            }
            stats.add("calls_on_long_queues", have as u64 + 13);
            // and large maps, each key of which stays what it was set to
            let n = rng.range(9_000, 30_000);
            for i in 0..n {
                let r = b.storage_upsert("big", &format!("k{i}"), format!("v{}", i * 7));
                check!(r.is_ok(), "upsert -> {r:?}");
            }
            for i in 0..n {
                let r = b.storage_get("big", &format!("k{i}"));
                check!(matches!(&r, Ok(Some(v)) if *v == format!("v{}", i * 7)), "key k{i} of a map of {n} keys is {r:?}");
            }
            stats.add("calls_on_large_maps", 2 * n as u64);
        }
        stats.add("sequential_calls", 150);
    }
    // 2. short concurrent histories, decided exactly
    let qs: Vec<String> = vec!["x".into(), "y".into()];
    let mut inconclusive = 0u64;
    let hn = 120 * a.scale.max(1);
    for hi in 0..hn {
        let threads = rng.range(2, 4) as usize;
        let per = rng.range(3, 6) as usize;
        let b = Arc::new(InMemory::default());
        let log: Arc<Mutex<Vec<Ent>>> = Default::default();
        let bar = Arc::new(Barrier::new(threads));
        let seed = rng.next();
        let flavour = rng.below(3);
        let same = rng.chance(30);
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (b, log, bar, qs) = (b.clone(), log.clone(), bar.clone(), qs.clone());
                std::thread::spawn(move || {
                    let mut r = Rng::new(seed ^ (t as u64 * 7919));
                    let w = match flavour {
                        0 => [30, 30, 8, 15, 10, 4, 4],
                        1 => [25, 55, 5, 10, 5, 0, 0],
                        _ => [0, 0, 0, 0, 0, 50, 50],
                    };
                    let mut mine = vec![];
                    let mut ops = vec![];
                    for i in 0..per {
                        // unique items, so that a result names the push it saw
                        let items: Vec<String> = if flavour == 2 || same { vec!["k".into(), "l".into()] } else { vec![format!("{t}.{i}")] };
                        let all: Vec<String> = if r.chance(70) { items } else { (0..4).map(|x| format!("{}.{}", x % 4, r.below(4))).collect() };
                        let mut op = random(&mut r, &qs, &all, &qs[..1], &w);
                        if let Op::Push(_, i2) = &mut op {
                            if !same {
                                *i2 = format!("{t}.{i}");
                            }
                        }
                        ops.push(op);
                    }
                    bar.wait();
                    for op in ops {
                        if r.chance(20) {
                            std::thread::yield_now();
                        }
                        let call_ = CLK.fetch_add(1, Ordering::SeqCst);
                        let out = call(&*b, &op);
                        let ret = CLK.fetch_add(1, Ordering::SeqCst);
                        mine.push(Ent { call: call_, ret, op, out, th: t });
                    }
                    log.lock().unwrap().extend(mine);
                })
            })
            .collect();
        join_all(hs, "concurrent backend calls")?;
        let mut h = log.lock().unwrap().clone();
        h.sort_by_key(|e| e.call);
        // pairs that really overlapped
        let over = h.iter().enumerate().map(|(i, e)| h[i + 1..].iter().filter(|f| f.th != e.th && f.call < e.ret).count() as u64).sum::<u64>();
        stats.add("overlapping_call_pairs", over);
        // final state is part of the history
        let end = CLK.fetch_add(2, Ordering::SeqCst);
        for (k, q) in qs.iter().enumerate() {
            let op = Op::Get(q.clone(), 1000, true);
            let out = call(&*b, &op);
            h.push(Ent { call: end + k as u64 * 2, ret: end + k as u64 * 2 + 1, op, out, th: 99 });
            CLK.fetch_add(4, Ordering::SeqCst);
        }
        match linearizable(&h) {
            Some(true) => {}
            Some(false) => viol!("history {hi} is not linearizable: {}", h.iter().map(|e| format!("T{} [{},{}] {:?} -> {:?}", e.th, e.call, e.ret, e.op, e.out)).collect::<Vec<_>>().join("; ")),
            None => inconclusive += 1,
        }
        stats.evaluations += 1;
        if over > 0 {
            let base = h[0].call;
            stats.seen(&h.iter().map(|e| (e.call - base, e.ret - base, e.th, e.op.clone())).collect::<Vec<_>>());
        }
        if hi == 0 {
            stats.sample(json!({"history": h.iter().map(|e| format!("T{} [{},{}] {:?} -> {:?}", e.th, e.call, e.ret, e.op, e.out)).collect::<Vec<_>>()}));
        }
    }
    stats.add("histories", hn);
    stats.add("histories_undecided", inconclusive);
    if inconclusive * 10 > hn {
        return Err(Fail::Inconclusive("too many histories undecided".into()));
    }
    // 3. moves in one direction with observers: nothing is ever in no queue
    for round in 0..a.scale.max(1) {
        let b = Arc::new(InMemory::default());
        let stop = Arc::new(AtomicBool::new(false));
        let bad: Arc<Mutex<Option<String>>> = Default::default();
        let looks = Arc::new(AtomicU64::new(0));
        let n = 600usize;
        for i in 0..n {
            b.queue_push("src", &format!("i{i}")).unwrap();
        }
        let moved: Arc<Mutex<Vec<String>>> = Default::default();
        let mut hs = vec![];
        let seed = rng.next();
        for t in 0..3 {
            let (b, moved) = (b.clone(), moved.clone());
            hs.push(std::thread::spawn(move || {
                let mut r = Rng::new(seed ^ t);
                let mut mine = vec![];
                loop {
                    let k = *r.pick(&[1usize, 1, 2, 7]);
                    let d = |f: bool| if f { D::Front } else { D::Back };
                    let m = b.queue_move("src", "dst", k, d(r.chance(50)), d(r.chance(50))).unwrap();
                    if m.is_empty() {
                        break;
                    }
                    mine.extend(m);
                    std::thread::yield_now();
                }
                moved.lock().unwrap().extend(mine);
            }));
        }
        let obs: Vec<_> = (0..2)
            .map(|_| {
                let (b, stop, bad, looks) = (b.clone(), stop.clone(), bad.clone(), looks.clone());
                std::thread::spawn(move || {
                    while !stop.load(Ordering::SeqCst) {
                        // source first: an item absent there has already left it
                        let x = b.queue_get("src", 10_000, D::Front).unwrap();
                        let y = b.queue_get("dst", 10_000, D::Back).unwrap();
                        let u: HashSet<&String> = x.iter().chain(&y).collect();
                        let c = HashSet::<&String>::from_iter(x.iter()).len() == x.len() && HashSet::<&String>::from_iter(y.iter()).len() == y.len();
                        if u.len() != n || !c {
                            *bad.lock().unwrap() = Some(format!("{} of {n} items visible ({} in the source, {} in the destination)", u.len(), x.len(), y.len()));
                        }
                        looks.fetch_add(1, Ordering::SeqCst);
                    }
                })
            })
            .collect();
        let r = join_all(hs, "concurrent moves");
        stop.store(true, Ordering::SeqCst);
        r?;
        join_all(obs, "observers")?;
        if let Some(m) = bad.lock().unwrap().take() {
            viol!("round {round}: during moves {m}");
        }
        let mut m = moved.lock().unwrap().clone();
        m.sort();
        m.dedup();
        check!(m.len() == n && moved.lock().unwrap().len() == n, "{} moves returned {} distinct of {n} items", moved.lock().unwrap().len(), m.len());
        check!(b.queue_count("src").unwrap() == 0 && b.queue_count("dst").unwrap() == n, "after the moves {} + {} items of {n}", b.queue_count("src").unwrap(), b.queue_count("dst").unwrap());
        stats.add("observations_during_moves", looks.load(Ordering::SeqCst));
        stats.evaluations += 1;
    }
    // 4. everything at once on few queues: conservation (no removes)
    for _ in 0..a.scale.max(1) {
        let b = Arc::new(InMemory::default());
        let seed = rng.next();
        let hs: Vec<_> = (0..6u64)
            .map(|t| {
                let b = b.clone();
                std::thread::spawn(move || {
                    let mut r = Rng::new(seed ^ (t * 101));
                    for i in 0..150 {
                        let q = format!("q{}", r.below(3));
                        if i % 2 == 0 {
                            b.queue_push(&q, &format!("{t}.{i}")).unwrap();
                        } else {
                            let to = format!("q{}", r.below(3));
                            let n = if q == to { 1 } else { r.below(4) as usize };
                            let m = b.queue_move(&q, &to, n, D::Back, D::Front).unwrap();
                            assert!(m.len() <= n);
                        }
                        b.storage_upsert("h", &format!("{t}"), format!("{i}")).unwrap();
                        let v = b.storage_get("h", &format!("{t}")).unwrap();
                        assert_eq!(v, Some(format!("{i}")), "own write not read back");
                    }
                })
            })
            .collect();
        join_all(hs, "mixed calls")?;
        let mut all: Vec<String> = (0..3).flat_map(|q| b.queue_get(&format!("q{q}"), 100_000, D::Front).unwrap()).collect();
        let cnt: usize = (0..3).map(|q| b.queue_count(&format!("q{q}")).unwrap()).sum();
        all.sort();
        let len = all.len();
        all.dedup();
        check!(len == 6 * 75 && all.len() == len && cnt == len, "450 items pushed, {len} present, {} distinct, counted {cnt}", all.len());
        stats.evaluations += 1;
    }
    Ok(())
}
