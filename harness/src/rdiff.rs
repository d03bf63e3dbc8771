//! C17: the Redis backend against the reference, with the server's contents
//! compared after every call, and with faults.
use crate::redis_srv::Server;
use crate::rng::Rng;
use crate::spec::*;
use crate::util::*;
use crate::{check, viol};
use aj_core::redis::Redis;
use aj_core::types::Backend;
use serde_json::json;
use std::collections::{BTreeMap, VecDeque};
use std::sync::Arc;

fn contents(s: &Server) -> Spec {
    let st = s.store.lock().unwrap();
    Spec {
        q: st.lists.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<BTreeMap<String, VecDeque<String>>>(),
        h: st.hashes.iter().flat_map(|(h, m)| m.iter().map(move |(k, v)| ((h.clone(), k.clone()), v.clone()))).collect(),
    }
}

/// Every state a move of up to n items passes through.
fn prefixes(s: &Spec, op: &Op) -> Vec<Spec> {
    let mut v = vec![s.clone()];
    match op {
        Op::Move(f, t, n, ff, tf) => {
            for k in 1..=*n {
                let mut x = s.clone();
                x.apply(&Op::Move(f.clone(), t.clone(), k, *ff, *tf));
                v.push(x);
            }
        }
        _ => {
            let mut x = s.clone();
            x.apply(op);
            v.push(x);
        }
    }
    v
}

pub fn run(a: &Args, stats: &mut Stats) -> Res {
    let mut rng = Rng::new(a.seed);
    let path = format!("{}/d{}.sock", crate::tmp_dir(), std::process::id());
    let srv = Server::start(&path);
    let b = Redis::new(srv.url());
    let qs: Vec<String> = ["a", "b", "c:queue:Queued", "ü\n", "a b", "*?[x]"].iter().map(|s| s.to_string()).collect();
    let hs: Vec<String> = ["aj_storage", "h:é", "h 2"].iter().map(|s| s.to_string()).collect();
    let items: Vec<String> = ["1", "2", "3", "", "ñ\0", "-1", "LEFT", "\r\n$3\r\n", &"y".repeat(5000)].iter().map(|s| s.to_string()).collect();
    let (tn, ti) = crate::spec::twins();
    let th: Vec<String> = tn.iter().map(|n| format!("h{n}")).collect();
    let mut spec = Spec::default();
    let mut tr: Vec<Op> = vec![];
    // 1. no faults
    for _ in 0..300 * a.scale.max(1) {
        let op = if rng.chance(60) {
            random(&mut rng, &qs, &items, &hs, &[28, 25, 10, 22, 8, 7, 7])
        } else {
            random(&mut rng, &tn, &ti, &th, &[28, 25, 10, 22, 8, 7, 7])
        };
        let want = spec.apply(&op);
        let got = call(&b, &op);
        tr.push(op.clone());
        let last: Vec<&Op> = tr.iter().rev().take(6).collect();
        check!(want == got, "{op:.300?} returned {got:.300?}, expected {want:.300?} (last calls {last:.600?})");
        check!(contents(&srv) == spec, "after {op:.300?} the server holds {:.600?}, expected {:.600?}", contents(&srv).q, spec.q);
        stats.evaluations += 1;
        stats.seen(&(op, want));
    }
    stats.add("calls_without_fault", 300 * a.scale.max(1));
    // long queues
    for _ in 0..(a.scale / 2).max(1) {
        let (x, y) = ("long1".to_string(), "long2".to_string());
        let mut ops: Vec<Op> = (0..rng.range(10, 300)).map(|i| Op::Push(x.clone(), format!("n{}", i % 600))).collect();
        let have = *rng.pick(&[500usize, 1_030, 2_100, 5_000]);
        let items: VecDeque<String> = (0..have).map(|i| format!("n{}", i % 4_900)).collect();
        spec.q.insert(x.clone(), items.clone());
        srv.store.lock().unwrap().lists.insert(x.clone(), items);
        ops.extend(long_ops(&mut rng, &x, &y, have + 300));
        for op in ops {
            let want = spec.apply(&op);
            let got = call(&b, &op);
            check!(want == got, "{op:.300?} on long queues returned {got:.300?}, expected {want:.300?}");
            stats.add("calls_on_long_queues", 1);
        }
        check!(contents(&srv) == spec, "the server holds {:.600?}, expected {:.600?}", contents(&srv).q, spec.q);
        // leave the faults small queues
        for k in [&x, &y] {
            spec.q.remove(k);
            srv.store.lock().unwrap().lists.remove(k);
        }
    }
    // 2. a fault at each command of each call
    let mut kinds = BTreeMap::<String, u64>::new();
    for _ in 0..60 * a.scale.max(1) {
        let mut op = random(&mut rng, &qs, &items, &hs, &[20, 30, 12, 22, 8, 10, 10]);
        if let Op::Move(_, _, n, _, _) = &mut op {
            *n = (*n).min(5);
        }
        let kind = rng.range(1, 5) as u8;
        let at = if let Op::Move(_, _, n, _, _) = &op { rng.range(1, (*n).max(1) as i64) } else { 1 };
        let mut probe = spec.clone();
        let right = probe.apply(&op);
        *srv.fault.lock().unwrap() = (kind, at);
        let got = call(&b, &op);
        let hit = {
            let mut f = srv.fault.lock().unwrap();
            let h = f.0 == 0;
            *f = (0, 0);
            h
        };
        if hit {
            // reading or moving no items needs no command
            let nothing = matches!(&op, Op::Move(_, _, 0, _, _) | Op::Get(_, 0, _)) && got == right;
            // an implementation may connect again: then the call must have worked
            let worked = kind >= 2 && got == right && contents(&srv) == probe;
            let e = nothing || worked || matches!(got, Out::Err(_));
            check!(e, "{op:.300?} met fault {kind} at command {at} and returned {got:.300?} instead of an error");
            *kinds.entry(format!("fault{kind}")).or_default() += 1;
            let now = contents(&srv);
            check!(prefixes(&spec, &op).contains(&now), "{op:.300?} with fault {kind}: the server holds {:.500?}, before {:.500?}", now.q, spec.q);
            spec = now;
        } else {
            // the call needed fewer commands
            check!(got == right, "{op:.300?} returned {got:.300?}, expected {right:.300?}");
            spec = probe;
        }
        // and works again afterwards
        let op = random(&mut rng, &qs, &items, &hs, &[20, 20, 10, 20, 10, 10, 10]);
        let want = spec.apply(&op);
        let got = call(&b, &op);
        check!(want == got, "after a fault {op:.300?} returned {got:.300?}, expected {want:.300?}");
        stats.evaluations += 2;
    }
    for (k, n) in &kinds {
        stats.add(k, *n);
    }
    // 3. server errors for good, wrong types, then no server at all
    srv.fail.store(true, std::sync::atomic::Ordering::SeqCst);
    for op in all_ops() {
        let got = call(&b, &op);
        check!(matches!(got, Out::Err(_)), "{op:?} on a failing server returned {got:?}");
        stats.evaluations += 1;
    }
    srv.fail.store(false, std::sync::atomic::Ordering::SeqCst);
    {
        let mut st = srv.store.lock().unwrap();
        st.lists.clear();
        st.hashes.clear();
        for k in ["q", "r", "h"] {
            st.strings.insert(k.into(), "text".into());
        }
    }
    for op in all_ops() {
        let got = call(&b, &op);
        check!(matches!(got, Out::Err(_)), "{op:?} on a key of another type returned {got:?}");
        stats.evaluations += 1;
    }
    srv.store.lock().unwrap().strings.clear();
    // 4. concurrent clients: moves neither lose nor duplicate
    let b = Arc::new(b);
    let n = 120usize;
    for i in 0..n {
        check!(b.queue_push("src", &format!("i{i}")).is_ok(), "push failed");
    }
    let hs: Vec<_> = (0..4)
        .map(|_| {
            let b = b.clone();
            std::thread::spawn(move || {
                let mut v = vec![];
                loop {
                    match call(&*b, &Op::Move("src".into(), "dst".into(), 3, false, true)) {
                        Out::Items(x) if x.is_empty() => return Ok(v),
                        Out::Items(x) => v.extend(x),
                        o => return Err(format!("{o:?}")),
                    }
                }
            })
        })
        .collect();
    let mut all = vec![];
    for h in hs {
        match h.join() {
            Ok(Ok(v)) => all.extend(v),
            o => viol!("concurrent moves: {o:?}"),
        }
    }
    let len = all.len();
    all.sort();
    all.dedup();
    check!(len == n && all.len() == n, "concurrent moves returned {len} items, {} distinct, of {n}", all.len());
    stats.evaluations += 1;
    let gone = Redis::new(format!("redis+unix://{}/none.sock", crate::tmp_dir()));
    for op in all_ops() {
        let got = call(&gone, &op);
        check!(matches!(got, Out::Err(_)), "{op:?} without a server returned {got:?}");
        stats.evaluations += 1;
    }
    stats.sample(json!({"seed": a.seed, "last_calls": tr.iter().rev().take(5).map(|o| format!("{o:.120?}")).collect::<Vec<_>>(), "faults": kinds}));
    Ok(())
}

fn all_ops() -> Vec<Op> {
    let s = |x: &str| x.to_string();
    vec![
        Op::Push(s("q"), s("i")),
        Op::Move(s("q"), s("r"), 1, true, false),
        Op::Move(s("q"), s("r"), 3, false, true),
        Op::Remove(s("q"), s("i")),
        Op::Get(s("q"), 5, true),
        Op::Get(s("q"), 5, false),
        Op::Count(s("q")),
        Op::Upsert(s("h"), s("k"), s("v")),
        Op::Read(s("h"), s("k")),
    ]
}
