//! A small in-process RESP server with Redis' documented semantics for the
//! list and hash commands (enough for aj's Redis backend and for reasonable
//! rewrites of it).  Used as the environment of the code under test: the data
//! survives the client process, and the server can cut clients off after the
//! n-th command (crash points).
use std::collections::{HashMap, VecDeque};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Default, Clone)]
pub struct Store {
    pub lists: HashMap<String, VecDeque<String>>,
    pub hashes: HashMap<String, HashMap<String, String>>,
    pub strings: HashMap<String, String>,
}

pub struct Server {
    pub path: String,
    pub store: Arc<Mutex<Store>>,
    pub cmds: Arc<AtomicU64>,
    /// >=0: after that many more data commands the server goes silent
    pub fuse: Arc<AtomicI64>,
    pub blown: Arc<AtomicBool>,
    /// the fuse counts commands that change data only
    pub writes_only: Arc<AtomicBool>,
    /// reply -ERR to every data command
    pub fail: Arc<AtomicBool>,
    /// (kind, n): the n-th data command from now meets a fault.  Kinds: 1 -ERR,
    /// 2 connection closed before the command, 3 after it, 4 half a reply,
    /// 5 closed on connect
    pub fault: Arc<Mutex<(u8, i64)>>,
}

#[derive(Debug)]
enum R {
    S(String),
    E(String),
    I(i64),
    B(Option<String>),
    A(Vec<R>),
}

fn enc(r: &R, o: &mut Vec<u8>) {
    match r {
        R::S(s) => o.extend(format!("+{s}\r\n").as_bytes()),
        R::E(s) => o.extend(format!("-{s}\r\n").as_bytes()),
        R::I(i) => o.extend(format!(":{i}\r\n").as_bytes()),
        R::B(None) => o.extend(b"$-1\r\n"),
        R::B(Some(s)) => {
            o.extend(format!("${}\r\n", s.len()).as_bytes());
            o.extend(s.as_bytes());
            o.extend(b"\r\n");
        }
        R::A(v) => {
            o.extend(format!("*{}\r\n", v.len()).as_bytes());
            for x in v {
                enc(x, o);
            }
        }
    }
}

const WRONG: &str = "WRONGTYPE Operation against a key holding the wrong kind of value";

impl Store {
    fn is_list_ok(&self, k: &str) -> bool {
        !self.hashes.contains_key(k) && !self.strings.contains_key(k)
    }
    fn is_hash_ok(&self, k: &str) -> bool {
        !self.lists.contains_key(k) && !self.strings.contains_key(k)
    }
    fn gc(&mut self, k: &str) {
        if self.lists.get(k).map_or(false, |l| l.is_empty()) {
            self.lists.remove(k);
        }
        if self.hashes.get(k).map_or(false, |l| l.is_empty()) {
            self.hashes.remove(k);
        }
    }
    fn exec(&mut self, a: &[String]) -> R {
        let c = a[0].to_ascii_uppercase();
        let argc = |n: usize| a.len() == n;
        match c.as_str() {
            "PING" => R::S("PONG".into()),
            "CLIENT" | "SELECT" | "AUTH" => R::S("OK".into()),
            "LPUSH" | "RPUSH" if a.len() >= 3 => {
                if !self.is_list_ok(&a[1]) {
                    return R::E(WRONG.into());
                }
                let l = self.lists.entry(a[1].clone()).or_default();
                for x in &a[2..] {
                    if c == "LPUSH" {
                        l.push_front(x.clone())
                    } else {
                        l.push_back(x.clone())
                    }
                }
                R::I(l.len() as i64)
            }
            "LPOP" | "RPOP" if argc(2) => {
                if !self.is_list_ok(&a[1]) {
                    return R::E(WRONG.into());
                }
                let r = self.lists.get_mut(&a[1]).and_then(|l| {
                    if c == "LPOP" {
                        l.pop_front()
                    } else {
                        l.pop_back()
                    }
                });
                self.gc(&a[1]);
                R::B(r)
            }
            "LMOVE" | "RPOPLPUSH" if argc(5) || (c == "RPOPLPUSH" && argc(3)) => {
                let (f, t) = if c == "LMOVE" {
                    (a[3].to_ascii_uppercase(), a[4].to_ascii_uppercase())
                } else {
                    ("RIGHT".to_string(), "LEFT".to_string())
                };
                if !matches!(f.as_str(), "LEFT" | "RIGHT") || !matches!(t.as_str(), "LEFT" | "RIGHT") {
                    return R::E("ERR syntax error".into());
                }
                if !self.is_list_ok(&a[1]) || !self.is_list_ok(&a[2]) {
                    return R::E(WRONG.into());
                }
                let item = self.lists.get_mut(&a[1]).and_then(|l| {
                    if f == "LEFT" {
                        l.pop_front()
                    } else {
                        l.pop_back()
                    }
                });
                if let Some(x) = &item {
                    let l = self.lists.entry(a[2].clone()).or_default();
                    if t == "LEFT" {
                        l.push_front(x.clone())
                    } else {
                        l.push_back(x.clone())
                    }
                }
                self.gc(&a[1]);
                R::B(item)
            }
            "LRANGE" if argc(4) => {
                if !self.is_list_ok(&a[1]) {
                    return R::E(WRONG.into());
                }
                let (Ok(mut s), Ok(mut e)) = (a[2].parse::<i64>(), a[3].parse::<i64>()) else {
                    return R::E("ERR value is not an integer or out of range".into());
                };
                let n = self.lists.get(&a[1]).map_or(0, |l| l.len()) as i64;
                if s < 0 {
                    s = (n + s).max(0);
                }
                if e < 0 {
                    e += n;
                }
                if e >= n {
                    e = n - 1;
                }
                if s > e || s >= n {
                    return R::A(vec![]);
                }
                let l = &self.lists[&a[1]];
                R::A((s..=e).map(|i| R::B(Some(l[i as usize].clone()))).collect())
            }
            "LINDEX" if argc(3) => {
                let Ok(mut i) = a[2].parse::<i64>() else {
                    return R::E("ERR value is not an integer or out of range".into());
                };
                let l = self.lists.get(&a[1]);
                let n = l.map_or(0, |l| l.len()) as i64;
                if i < 0 {
                    i += n;
                }
                R::B(if i < 0 || i >= n { None } else { l.map(|l| l[i as usize].clone()) })
            }
            "LLEN" if argc(2) => {
                if !self.is_list_ok(&a[1]) {
                    return R::E(WRONG.into());
                }
                R::I(self.lists.get(&a[1]).map_or(0, |l| l.len()) as i64)
            }
            "LREM" if argc(4) => {
                if !self.is_list_ok(&a[1]) {
                    return R::E(WRONG.into());
                }
                let Ok(n) = a[2].parse::<i64>() else {
                    return R::E("ERR value is not an integer or out of range".into());
                };
                let mut removed = 0i64;
                if let Some(l) = self.lists.get_mut(&a[1]) {
                    let lim = if n == 0 { i64::MAX } else { n.abs() };
                    let mut out = VecDeque::new();
                    if n >= 0 {
                        for x in l.drain(..) {
                            if x == a[3] && removed < lim {
                                removed += 1
                            } else {
                                out.push_back(x)
                            }
                        }
                    } else {
                        while let Some(x) = l.pop_back() {
                            if x == a[3] && removed < lim {
                                removed += 1
                            } else {
                                out.push_front(x)
                            }
                        }
                    }
                    *l = out;
                }
                self.gc(&a[1]);
                R::I(removed)
            }
            "HSET" | "HMSET" if a.len() >= 4 && a.len() % 2 == 0 => {
                if !self.is_hash_ok(&a[1]) {
                    return R::E(WRONG.into());
                }
                let h = self.hashes.entry(a[1].clone()).or_default();
                let mut n = 0;
                for p in a[2..].chunks(2) {
                    if h.insert(p[0].clone(), p[1].clone()).is_none() {
                        n += 1
                    }
                }
                if c == "HSET" {
                    R::I(n)
                } else {
                    R::S("OK".into())
                }
            }
            "HSETNX" if argc(4) => {
                let h = self.hashes.entry(a[1].clone()).or_default();
                if h.contains_key(&a[2]) {
                    R::I(0)
                } else {
                    h.insert(a[2].clone(), a[3].clone());
                    R::I(1)
                }
            }
            "HGET" if argc(3) => {
                if !self.is_hash_ok(&a[1]) {
                    return R::E(WRONG.into());
                }
                R::B(self.hashes.get(&a[1]).and_then(|h| h.get(&a[2]).cloned()))
            }
            "HEXISTS" if argc(3) => R::I(
                self.hashes.get(&a[1]).map_or(false, |h| h.contains_key(&a[2])) as i64,
            ),
            "HMGET" if a.len() >= 3 => R::A(
                a[2..]
                    .iter()
                    .map(|k| R::B(self.hashes.get(&a[1]).and_then(|h| h.get(k).cloned())))
                    .collect(),
            ),
            "HDEL" if a.len() >= 3 => {
                let mut n = 0;
                if let Some(h) = self.hashes.get_mut(&a[1]) {
                    for k in &a[2..] {
                        n += h.remove(k).is_some() as i64;
                    }
                }
                self.gc(&a[1]);
                R::I(n)
            }
            "HLEN" if argc(2) => R::I(self.hashes.get(&a[1]).map_or(0, |h| h.len()) as i64),
            "DEL" => {
                let mut n = 0;
                for k in &a[1..] {
                    n += (self.lists.remove(k).is_some()
                        | self.hashes.remove(k).is_some()
                        | self.strings.remove(k).is_some()) as i64;
                }
                R::I(n)
            }
            "EXISTS" => R::I(
                a[1..]
                    .iter()
                    .filter(|k| {
                        self.lists.contains_key(*k)
                            || self.hashes.contains_key(*k)
                            || self.strings.contains_key(*k)
                    })
                    .count() as i64,
            ),
            "SET" if a.len() >= 3 => {
                self.lists.remove(&a[1]);
                self.hashes.remove(&a[1]);
                self.strings.insert(a[1].clone(), a[2].clone());
                R::S("OK".into())
            }
            "GET" if argc(2) => R::B(self.strings.get(&a[1]).cloned()),
            _ => R::E(format!("ERR unknown command or wrong number of arguments for '{}'", a[0])),
        }
    }
}

fn read_cmd(r: &mut BufReader<UnixStream>) -> std::io::Result<Option<Vec<String>>> {
    let mut line = String::new();
    if r.read_line(&mut line)? == 0 {
        return Ok(None);
    }
    let bad = || std::io::Error::new(std::io::ErrorKind::InvalidData, "bad RESP");
    let line = line.trim_end();
    if !line.starts_with('*') {
        return Ok(Some(line.split_whitespace().map(|s| s.to_string()).collect()));
    }
    let n: usize = line[1..].parse().map_err(|_| bad())?;
    let mut v = vec![];
    for _ in 0..n {
        let mut l = String::new();
        r.read_line(&mut l)?;
        let len: usize = l.trim_end().get(1..).ok_or_else(bad)?.parse().map_err(|_| bad())?;
        let mut b = vec![0u8; len + 2];
        r.read_exact(&mut b)?;
        b.truncate(len);
        v.push(String::from_utf8(b).map_err(|_| bad())?);
    }
    Ok(Some(v))
}

impl Server {
    pub fn start(path: &str) -> Server {
        let _ = std::fs::remove_file(path);
        let l = UnixListener::bind(path).expect("bind");
        let s = Server {
            path: path.to_string(),
            store: Default::default(),
            cmds: Default::default(),
            fuse: Arc::new(AtomicI64::new(-1)),
            blown: Default::default(),
            writes_only: Default::default(),
            fail: Default::default(),
            fault: Default::default(),
        };
        let (store, cmds, fuse, blown, fail, fault, wo) =
            (s.store.clone(), s.cmds.clone(), s.fuse.clone(), s.blown.clone(), s.fail.clone(), s.fault.clone(), s.writes_only.clone());
        std::thread::spawn(move || {
            for c in l.incoming() {
                let Ok(c) = c else { continue };
                {
                    let mut f = fault.lock().unwrap();
                    if f.0 == 5 {
                        f.0 = 0;
                        continue;
                    }
                }
                let (store, cmds, fuse, blown, fail, fault, wo) =
                    (store.clone(), cmds.clone(), fuse.clone(), blown.clone(), fail.clone(), fault.clone(), wo.clone());
                std::thread::Builder::new()
                    .stack_size(256 * 1024)
                    .spawn(move || serve(c, store, cmds, fuse, blown, fail, fault, wo))
                    .ok();
            }
        });
        s
    }
    pub fn url(&self) -> String {
        format!("redis+unix://{}", self.path)
    }
    /// arm: the next `n` data commands are executed and answered, the rest hang
    pub fn arm(&self, n: i64) {
        self.blown.store(false, Ordering::SeqCst);
        self.fuse.store(n, Ordering::SeqCst);
    }
    pub fn arm_writes(&self, n: i64) {
        self.writes_only.store(true, Ordering::SeqCst);
        self.arm(n);
    }
    pub fn disarm(&self) {
        self.writes_only.store(false, Ordering::SeqCst);
        self.fuse.store(-1, Ordering::SeqCst);
        self.blown.store(false, Ordering::SeqCst);
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.path);
    }
}

fn serve(
    c: UnixStream,
    store: Arc<Mutex<Store>>,
    cmds: Arc<AtomicU64>,
    fuse: Arc<AtomicI64>,
    blown: Arc<AtomicBool>,
    fail: Arc<AtomicBool>,
    fault: Arc<Mutex<(u8, i64)>>,
    wo: Arc<AtomicBool>,
) {
    let Ok(mut w) = c.try_clone() else { return };
    let mut r = BufReader::new(c);
    let mut multi: Option<Vec<Vec<String>>> = None;
    while let Ok(Some(a)) = read_cmd(&mut r) {
        if a.is_empty() {
            continue;
        }
        let up = a[0].to_ascii_uppercase();
        let data = !matches!(up.as_str(), "CLIENT" | "PING" | "SELECT" | "AUTH" | "HELLO");
        let mut kind = 0;
        let rep = if up == "MULTI" {
            multi = Some(vec![]);
            R::S("OK".into())
        } else if multi.is_some() && up != "EXEC" {
            multi.as_mut().unwrap().push(a.clone());
            R::S("QUEUED".into())
        } else {
            let mut st = store.lock().unwrap();
            if data {
                // the fuse is consumed under the store lock: no command after
                // the crash point takes effect
                let f = fuse.load(Ordering::SeqCst);
                let write = match up.as_str() {
                    // turning a queue round is not progress
                    "LMOVE" | "RPOPLPUSH" => a.get(1) != a.get(2),
                    "LRANGE" | "LINDEX" | "LLEN" | "HGET" | "HEXISTS" | "HMGET" | "HLEN" | "EXISTS" | "GET" => false,
                    _ => true,
                };
                let counts = write || !wo.load(Ordering::SeqCst);
                if f == 0 && (counts || blown.load(Ordering::SeqCst)) {
                    blown.store(true, Ordering::SeqCst);
                    drop(st);
                    // never answer: the client is about to be killed
                    let mut sink = [0u8; 256];
                    while matches!(r.read(&mut sink), Ok(n) if n > 0) {}
                    return;
                }
                if f > 0 && counts {
                    fuse.store(f - 1, Ordering::SeqCst);
                }
                cmds.fetch_add(1, Ordering::SeqCst);
                let mut g = fault.lock().unwrap();
                if g.0 > 0 && g.0 < 5 {
                    g.1 -= 1;
                    if g.1 <= 0 {
                        kind = g.0;
                        g.0 = 0;
                    }
                }
            }
            if kind == 2 {
                return;
            }
            if kind == 1 || (data && fail.load(Ordering::SeqCst)) {
                multi = None;
                R::E("ERR injected failure".into())
            } else if up == "EXEC" {
                let q = multi.take().unwrap_or_default();
                R::A(q.iter().map(|c| st.exec(c)).collect())
            } else {
                st.exec(&a)
            }
        };
        if kind == 3 {
            return;
        }
        let mut o = vec![];
        enc(&rep, &mut o);
        if kind == 4 {
            o.truncate(o.len() / 2);
            let _ = w.write_all(&o);
            return;
        }
        if w.write_all(&o).is_err() {
            return;
        }
    }
}
