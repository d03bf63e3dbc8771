//! C23: programs written with #[job] and derive(BackgroundJob), each function
//! recording the arguments it was called with.
use aj::export::core::chrono::Duration as CDur;
use aj::export::core::get_now;
use aj::export::core::job::{CronContext, JobType, Retry};
use aj::{async_trait, job, BackgroundJob, Executable, JobContext, AJ};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::sync::Mutex;
use std::time::{Duration, Instant};

static LOG: Mutex<Vec<(&'static str, String)>> = Mutex::new(Vec::new());

fn seen(f: &'static str, args: impl Debug) {
    LOG.lock().unwrap().push((f, format!("{args:?}")));
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Point {
    pub x: i64,
    pub y: Option<String>,
    pub z: Vec<(u8, char)>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Shape {
    Unit,
    Tuple(i32, String),
    Named { a: u64, b: Box<Shape> },
}

#[job]
fn plain(name: String) {
    seen("plain", name);
}
#[job]
async fn plain_async(name: String) {
    aj::export::core::actix_rt::time::sleep(Duration::from_micros(50)).await;
    seen("plain_async", name);
}
#[job]
fn none() {
    seen("none", ());
}
#[job]
async fn none_async() {
    seen("none_async", ());
}
#[job]
fn same_types(a: i32, b: i32, c: i32) -> i32 {
    seen("same_types", (a, b, c));
    a.wrapping_sub(b).wrapping_mul(c)
}
#[job]
async fn same_strings(first: String, second: String, third: String, fourth: String) -> Result<String, String> {
    seen("same_strings", (&first, &second, &third, &fourth));
    if first.is_empty() {
        Err(second)
    } else {
        Ok(first)
    }
}
#[job]
fn eight(a: u8, b: i8, c: u16, d: i16, e: u32, f: i32, g: u64, h: i64) {
    seen("eight", (a, b, c, d, e, f, g, h));
}
#[job]
async fn mixed(p: Point, s: Shape, flag: bool, ch: char, o: Option<Vec<i64>>, m: BTreeMap<String, Vec<u8>>, unit: ()) -> Point {
    seen("mixed", (&p, &s, flag, ch, &o, &m, unit));
    p
}
#[job]
fn trailing(a: u32, b: String,) {
    seen("trailing", (a, b));
}
#[job]
fn mutable(mut a: Vec<i32>, b: i32) {
    seen("mutable", (&a, b));
    a.push(b);
    a.clear();
}
#[job]
async fn snake_case_name_2(value_one: i64, r#type: i64) {
    seen("snake_case_name_2", (value_one, r#type));
}
#[job]
fn tuples(t: (i32, String, (bool, u8)), arr: [i16; 4]) {
    seen("tuples", (t, arr));
}
#[job]
pub async fn public_fn(self_name: String, msg: String, job: i32, data: u8) {
    seen("public_fn", (self_name, msg, job, data));
}
mod inner {
    use super::*;
    #[job]
    pub fn in_module(v: Vec<Option<String>>) -> usize {
        seen("in_module", &v);
        v.len()
    }
    #[job]
    pub(crate) async fn in_module_async(a: u64, b: f32) -> bool {
        seen("in_module_async", (a, b));
        a % 2 == 0
    }
}

// names that have most of their letters in common, with the same payload
#[job]
fn notify_every_customer_of_the_shop_by_email(v: u64) {
    seen("by_email", v);
}
#[job]
async fn notify_every_customer_of_the_shop_by_letter(v: u64) {
    seen("by_letter", v);
}
#[job]
fn notify_every_customer_of_the_shop(v: u64) {
    seen("notify", v);
}
#[job]
fn notifyeverycustomer(v: u64) {
    seen("notifyevery", v);
}
#[job]
fn the_notify_every_customer_of_the_shop(v: u64) {
    seen("the_notify", v);
}

mod twin_a {
    use super::*;
    #[job]
    pub fn twin(v: u32) {
        seen("twin_a", v);
    }
}
mod twin_b {
    use super::*;
    #[job]
    pub fn twin(v: u32) {
        seen("twin_b", v);
    }
}

#[job]
fn step1(v: u32) {
    seen("step1", v);
}
#[job]
fn step_1(v: u32) {
    seen("step_1", v);
}
#[job]
fn after_twins(v: u32) {
    seen("after_twins", v);
}

/// The recorded findings: functions of one name in two modules, or whose names
/// differ by an underscore before a digit only, share a queue name, and the
/// second one is refused. Others work.
async fn twins() -> Result<Vec<&'static str>, String> {
    twin_a::twin::run(1).await.map_err(|e| format!("twin_a::twin::run refused {e:?}"))?;
    let b = twin_b::twin::run(2).await;
    for _ in 0..400 {
        actix_rt::time::sleep(Duration::from_millis(5)).await;
        let l = LOG.lock().unwrap();
        if l.contains(&("twin_a", "1".into())) && (b.is_err() || l.contains(&("twin_b", "2".into()))) {
            break;
        }
    }
    let l = LOG.lock().unwrap().clone();
    if !l.contains(&("twin_a", "1".into())) || l.iter().filter(|x| x.0 == "twin_a").count() != 1 {
        return Err(format!("twin_a::twin(1) was submitted, bodies run: {l:?}"));
    }
    let mut known = match (b.is_ok(), l.iter().filter(|x| x.0 == "twin_b").count()) {
        (true, 1) => vec![],
        (false, 0) => vec!["same-name-functions"],
        (ok, n) => return Err(format!("twin_b::twin(2): accepted {ok}, {n} runs")),
    };
    step1::run(3).await.map_err(|e| format!("step1::run refused {e:?}"))?;
    let b = step_1::run(4).await;
    after_twins::run(5).await.map_err(|e| format!("after_twins::run refused {e:?}"))?;
    plain::just_run("6".into());
    for _ in 0..400 {
        actix_rt::time::sleep(Duration::from_millis(5)).await;
        let l = LOG.lock().unwrap();
        if [("step1", "3"), ("after_twins", "5"), ("plain", "\"6\"")].iter().all(|(f, v)| l.contains(&(*f, v.to_string()))) && (b.is_err() || l.contains(&("step_1", "4".into()))) {
            break;
        }
    }
    let l = LOG.lock().unwrap().clone();
    for f in ["step1", "after_twins", "plain"] {
        let n = l.iter().filter(|x| x.0 == f).count();
        if n != 1 {
            return Err(format!("{f} was submitted once, after functions sharing a queue name, and ran {n} times: {l:?}"));
        }
    }
    match (b.is_ok(), l.iter().filter(|x| x.0 == "step_1").count()) {
        (true, 1) => {}
        (false, 0) => known.push("digit-names"),
        (ok, n) => return Err(format!("step_1(4): accepted {ok}, {n} runs")),
    }
    Ok(known)
}

#[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
pub struct Derived {
    pub n: i64,
    pub p: Point,
}
#[async_trait]
impl Executable for Derived {
    type Output = ();
    async fn execute(&mut self, _c: &JobContext) -> Self::Output {
        seen("Derived", (self.n, &self.p));
    }
}
#[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
pub enum DerivedEnum {
    A,
    B(i32),
}
#[async_trait]
impl Executable for DerivedEnum {
    type Output = ();
    async fn execute(&mut self, _c: &JobContext) -> Self::Output {
        seen("DerivedEnum", &self);
    }
}

struct Rng(u64);
impl Rng {
    fn n(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn i(&mut self) -> i64 {
        match self.n() % 6 {
            0 => i64::MIN,
            1 => i64::MAX,
            2 => 0,
            _ => self.n() as i64,
        }
    }
    fn s(&mut self) -> String {
        let t = ["", "Rodgers", "ünï\u{1F600}", "\"quote\\\n\0", "a b", "null", "1"];
        let k = self.n() % 10;
        if k < 7 {
            t[k as usize].into()
        } else {
            format!("s{}", self.n())
        }
    }
    fn point(&mut self) -> Point {
        Point { x: self.i(), y: if self.n() % 2 == 0 { None } else { Some(self.s()) }, z: (0..self.n() % 4).map(|i| (i as u8, ['x', 'é', '\u{10FFFF}'][i as usize % 3])).collect() }
    }
    fn shape(&mut self) -> Shape {
        match self.n() % 3 {
            0 => Shape::Unit,
            1 => Shape::Tuple(self.n() as i32, self.s()),
            _ => Shape::Named { a: self.n(), b: Box::new(Shape::Tuple(-1, self.s())) },
        }
    }
}

fn wait(want: &BTreeMap<(&'static str, String), usize>) -> Result<(), String> {
    let total: usize = want.values().sum();
    let t = Instant::now();
    let mut quiet = Instant::now();
    let mut last = 0;
    loop {
        let n = LOG.lock().unwrap().len();
        if n != last {
            last = n;
            quiet = Instant::now();
        }
        if n >= total && quiet.elapsed() > Duration::from_millis(350) {
            break;
        }
        if quiet.elapsed() > Duration::from_secs(12) || t.elapsed() > Duration::from_secs(120) {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut got: BTreeMap<(&'static str, String), usize> = BTreeMap::new();
    for (f, a) in LOG.lock().unwrap().iter() {
        *got.entry((f, a.clone())).or_default() += 1;
    }
    for (k, n) in want {
        let g = got.get(k).copied().unwrap_or(0);
        if g != *n {
            return Err(format!("{}{:.300} was submitted {n} times and its body ran {g} times", k.0, k.1));
        }
    }
    for k in got.keys() {
        if !want.contains_key(k) {
            return Err(format!("the body of {} ran with {:.300}, which was never submitted", k.0, k.1));
        }
    }
    Ok(())
}

macro_rules! sub {
    ($want:ident, $r:ident, $ids:ident, $label:literal, $m:path, $S:path, ($($a:expr),*), $key:expr) => {{
        use $m as f;
        let key = format!("{:?}", $key);
        *$want.entry(($label, key)).or_insert(0usize) += 1;
        match $r.n() % 4 {
            0 => f::just_run($($a.clone()),*),
            1 => {
                let id = format!("ctx-{}", $r.n());
                let c = JobContext { job_id: id.clone(), ..JobContext::new(id.clone()) };
                let x = f::run_with_context($($a.clone(),)* c).await;
                if x.as_ref().ok() != Some(&id) { return Err(format!("{}::run_with_context with id {id} returned {x:?}", $label)); }
                if !$ids.insert(id) { return Err("id used twice".into()); }
            }
            2 => {
                let id = format!("jctx-{}", $r.n());
                f::just_run_with_context($($a.clone(),)* JobContext::new(id));
            }
            _ => {
                let x = f::run($($a.clone()),*).await;
                match x {
                    Ok(id) => if !$ids.insert(id.clone()) { return Err(format!("{}::run returned the id {id} twice", $label)); },
                    Err(e) => return Err(format!("{}::run was refused: {e:?}", $label)),
                }
            }
        }
    }};
}

async fn go(seed: u64, scale: u64) -> Result<(usize, usize), String> {
    let mut r = Rng(seed);
    let mut want: BTreeMap<(&'static str, String), usize> = BTreeMap::new();
    let mut ids: HashSet<String> = HashSet::new();
    let names = [
        <plain::JobPlain as BackgroundJob>::queue_name(),
        <plain_async::JobPlainAsync as BackgroundJob>::queue_name(),
        <none::JobNone as BackgroundJob>::queue_name(),
        <none_async::JobNoneAsync as BackgroundJob>::queue_name(),
        <same_types::JobSameTypes as BackgroundJob>::queue_name(),
        <eight::JobEight as BackgroundJob>::queue_name(),
        <mixed::JobMixed as BackgroundJob>::queue_name(),
        <Derived as BackgroundJob>::queue_name(),
        <DerivedEnum as BackgroundJob>::queue_name(),
        <inner::in_module::JobInModule as BackgroundJob>::queue_name(),
        <inner::in_module_async::JobInModuleAsync as BackgroundJob>::queue_name(),
        <notify_every_customer_of_the_shop_by_email::JobNotifyEveryCustomerOfTheShopByEmail as BackgroundJob>::queue_name(),
        <notify_every_customer_of_the_shop_by_letter::JobNotifyEveryCustomerOfTheShopByLetter as BackgroundJob>::queue_name(),
        <notify_every_customer_of_the_shop::JobNotifyEveryCustomerOfTheShop as BackgroundJob>::queue_name(),
        <the_notify_every_customer_of_the_shop::JobTheNotifyEveryCustomerOfTheShop as BackgroundJob>::queue_name(),
        <notifyeverycustomer::JobNotifyeverycustomer as BackgroundJob>::queue_name(),
    ];
    let set: HashSet<_> = names.iter().collect();
    if set.len() != names.len() {
        return Err(format!("different jobs share a queue name: {names:?}"));
    }
    let mut n = 0;
    for _ in 0..25 * scale {
        n += 1;
        match r.n() % 20 {
            0 => { let a = r.s(); sub!(want, r, ids, "plain", crate::plain, X, (a), &a) }
            1 => { let a = r.s(); sub!(want, r, ids, "plain_async", crate::plain_async, X, (a), &a) }
            2 => sub!(want, r, ids, "none", crate::none, X, (), ()),
            3 => sub!(want, r, ids, "none_async", crate::none_async, X, (), ()),
            4 => { let (a, b, c) = (r.i() as i32, r.n() as i32, r.i() as i32); sub!(want, r, ids, "same_types", crate::same_types, X, (a, b, c), (a, b, c)) }
            5 => { let (a, b, c, d) = (r.s(), r.s(), r.s(), r.s()); sub!(want, r, ids, "same_strings", crate::same_strings, X, (a, b, c, d), (&a, &b, &c, &d)) }
            6 => {
                let (a, b, c, d, e, f, g, h) = (r.n() as u8, r.i() as i8, r.i() as u16, r.n() as i16, r.i() as u32, r.n() as i32, r.i() as u64, r.i());
                *want.entry(("eight", format!("{:?}", (a, b, c, d, e, f, g, h)))).or_default() += 1;
                let x = eight::run(a, b, c, d, e, f, g, h).await;
                if x.is_err() { return Err(format!("eight::run refused {x:?}")); }
            }
            7 => {
                let (p, s, fl, ch) = (r.point(), r.shape(), r.n() % 2 == 0, ['a', 'ß', '\0', '\u{10FFFF}'][(r.n() % 4) as usize]);
                let o = if r.n() % 3 == 0 { None } else { Some((0..r.n() % 5).map(|_| r.i()).collect::<Vec<i64>>()) };
                let m: BTreeMap<String, Vec<u8>> = (0..r.n() % 3).map(|i| (format!("{i}{}", r.s()), vec![i as u8; i as usize])).collect();
                let u = ();
                sub!(want, r, ids, "mixed", crate::mixed, X, (p, s, fl, ch, o, m, u), (&p, &s, fl, ch, &o, &m, u))
            }
            8 => { let (a, b) = (r.n() as u32, r.s()); sub!(want, r, ids, "trailing", crate::trailing, X, (a, b), (a, &b)) }
            9 => { let (a, b) = ((0..r.n() % 4).map(|_| r.i() as i32).collect::<Vec<i32>>(), r.i() as i32); sub!(want, r, ids, "mutable", crate::mutable, X, (a, b), (&a, b)) }
            10 => { let (a, b) = (r.i(), r.i()); sub!(want, r, ids, "snake_case_name_2", crate::snake_case_name_2, X, (a, b), (a, b)) }
            11 => { let (t, a) = ((r.i() as i32, r.s(), (r.n() % 2 == 0, r.n() as u8)), [r.n() as i16, 0, -1, i16::MIN]); sub!(want, r, ids, "tuples", crate::tuples, X, (t, a), (&t, a)) }
            12 => { let (a, b, c, d) = (r.s(), r.s(), r.i() as i32, r.n() as u8); sub!(want, r, ids, "public_fn", crate::public_fn, X, (a, b, c, d), (&a, &b, c, d)) }
            13 => { let v: Vec<Option<String>> = (0..r.n() % 4).map(|i| if i % 2 == 0 { None } else { Some(r.s()) }).collect(); sub!(want, r, ids, "in_module", crate::inner::in_module, X, (v), &v) }
            14 => { let (a, b) = (r.n(), (r.n() % 1000) as f32 / 8.0); sub!(want, r, ids, "in_module_async", crate::inner::in_module_async, X, (a, b), (a, b)) }
            15 => {
                let d = Derived { n: r.i(), p: r.point() };
                *want.entry(("Derived", format!("{:?}", (d.n, &d.p)))).or_default() += 1;
                match r.n() % 3 {
                    0 => d.job().just_run(),
                    1 => { let x = d.job().delay(CDur::milliseconds(20)).run().await; if x.is_err() { return Err(format!("derived job refused {x:?}")); } }
                    _ => { let x = d.job().schedule_at(get_now() + CDur::milliseconds(5)).run().await; if x.is_err() { return Err(format!("derived job refused {x:?}")); } }
                }
            }
            16 | 17 => {
                let v = r.n();
                match v % 5 {
                    0 => sub!(want, r, ids, "by_email", crate::notify_every_customer_of_the_shop_by_email, X, (v), v),
                    1 => sub!(want, r, ids, "by_letter", crate::notify_every_customer_of_the_shop_by_letter, X, (v), v),
                    2 => sub!(want, r, ids, "notify", crate::notify_every_customer_of_the_shop, X, (v), v),
                    3 => sub!(want, r, ids, "notifyevery", crate::notifyeverycustomer, X, (v), v),
                    _ => sub!(want, r, ids, "the_notify", crate::the_notify_every_customer_of_the_shop, X, (v), v),
                }
            }
            _ => {
                let d = if r.n() % 2 == 0 { DerivedEnum::A } else { DerivedEnum::B(r.n() as i32) };
                *want.entry(("DerivedEnum", format!("{:?}", &&d))).or_default() += 1;
                let x = d.job().run().await;
                if x.is_err() { return Err(format!("derived job refused {x:?}")); }
            }
        }
    }
    // the generated type as a job: scheduled, then cancelled before it is due
    let j = plain::JobPlain { name: "to be cancelled".into() }.job().delay(CDur::hours(1));
    let id = j.run().await.map_err(|e| format!("scheduled macro job refused {e:?}"))?;
    AJ::cancel_job::<plain::JobPlain>(id.clone()).await.map_err(|e| format!("cancel refused {e:?}"))?;
    let k = AJ::get_job::<plain::JobPlain>(&id).await;
    if k.as_ref().map(|k| (k.is_cancelled(), k.data.name.as_str())) != Some((true, "to be cancelled")) {
        return Err(format!("cancelled macro job reads {k:?}"));
    }
    // a context given with the arguments: id, schedule, retry policy and the rest
    macro_rules! with_ctx {
        ($m:path, $S:path, ($($a:expr),*)) => {{
            use $m as f;
            for just in [false, true] {
                let id = format!("given-{}-{}", stringify!($S), r.n());
                let mut c = JobContext::new(id.clone());
                c.job_type = match r.n() % 3 {
                    0 => JobType::ScheduledAt(get_now() + CDur::hours(1 + (r.n() % 100_000) as i64)),
                    1 => JobType::ScheduledAt(aj::export::core::chrono::DateTime::from_timestamp_micros(4_000_000_000_000_000 + (r.n() % 1_000_000_000) as i64).unwrap()),
                    _ => JobType::new_cron("0 0 0 1 1 * 2090/3", CronContext { tick_number: 3, max_repeat: Some((r.n() % 9) as i32), end_at: None }).unwrap(),
                };
                if let JobType::ScheduledAt(t) = &mut c.job_type {
                    // the engine keeps microseconds
                    *t = aj::export::core::chrono::DateTime::from_timestamp_micros(t.timestamp_micros()).unwrap();
                }
                c.retry = match r.n() % 3 {
                    0 => None,
                    1 => Some(Retry::new_interval_retry(Some((r.n() % 50) as i32), CDur::milliseconds((r.n() % 1_000_000) as i64))),
                    _ => Some(Retry::new_exponential_backoff(None, CDur::seconds((r.n() % 1_000) as i64))),
                };
                c.created_at = (r.n() >> 2) as i64;
                c.run_count = (r.n() % 1_000) as usize;
                let given = format!("{:?} {:?} {:?} {:?} {:?}", c.job_id, c.job_type, c.retry, c.created_at, c.run_count);
                if just {
                    f::just_run_with_context($($a.clone(),)* c);
                } else {
                    let x = f::run_with_context($($a.clone(),)* c).await;
                    if x.as_ref().ok() != Some(&id) { return Err(format!("run_with_context with id {id} returned {x:?}")); }
                }
                let t = Instant::now();
                let j = loop {
                    if let Some(j) = AJ::get_job::<$S>(&id).await { break j; }
                    if !just || t.elapsed() > Duration::from_secs(15) { return Err(format!("job {id} submitted with a context is not found (just_run {just})")); }
                    actix_rt::time::sleep(Duration::from_millis(2)).await;
                };
                let c = &j.context;
                let have = format!("{:?} {:?} {:?} {:?} {:?}", c.job_id, c.job_type, c.retry, c.created_at, c.run_count);
                if have != given { return Err(format!("submitted with the context {given}, the job has {have} (just_run {just})")); }
                AJ::cancel_job::<$S>(id.clone()).await.map_err(|e| format!("cancel refused {e:?}"))?;
                n += 1;
            }
        }};
    }
    for _ in 0..scale {
        with_ctx!(crate::plain, plain::JobPlain, ("never run".to_string()));
        with_ctx!(crate::none_async, none_async::JobNoneAsync, ());
        with_ctx!(crate::same_types, same_types::JobSameTypes, (1, 2, 3));
        with_ctx!(crate::inner::in_module_async, inner::in_module_async::JobInModuleAsync, (1u64, 0.5f32));
    }
    actix_rt::task::spawn_blocking(move || wait(&want).map(|_| want.len())).await.unwrap().map(|d| (n, d))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).and_then(|v| v.parse().ok()).unwrap_or(d);
    let (seed, scale) = (get("--seed", 1), get("--scale", 1));
    let r = actix_rt::System::new().block_on(async {
        AJ::quick_start();
        if get("--twins", 0) == 1 {
            let r = tokio::time::timeout(Duration::from_secs(170), twins()).await;
            return r.map(|r| r.map(|k| (2, k)));
        }
        let r = tokio::time::timeout(Duration::from_secs(170), go(seed, scale)).await;
        r.map(|r| r.map(|(n, _)| (n, vec![])))
    });
    let l = LOG.lock().unwrap();
    let samples: Vec<_> = l.iter().take(6).map(|(f, x)| format!("{f}({x:.80})")).collect();
    let distinct: HashSet<String> = l.iter().map(|(f, x)| format!("{f}{x}")).collect();
    let hash = |s: &String| {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        format!("{:x}", h.finish())
    };
    let (v, m, ev, known) = match r {
        Ok(Ok((n, k))) => ("held", String::new(), n, k),
        Ok(Err(m)) => ("violated", m, 0, vec![]),
        Err(_) => ("violated", "calls of generated functions have not returned for 170 s".into(), 0, vec![]),
    };
    println!("RESULT {}", json!({"verdict": v, "msg": m, "stats": {"bodies_run": l.len(), "submissions": ev}, "distinct": distinct.iter().map(hash).collect::<Vec<_>>(),
        "samples": [json!({"runs": samples})], "evaluations": ev, "known": known, "panics": []}));
    std::process::exit(0);
}
