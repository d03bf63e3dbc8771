//! Independent cron oracle: generates expressions and computes occurrences by
//! its own field matching, without the cron crate.
use crate::rng::Rng;
use chrono::{Datelike, Days, TimeZone, Timelike, Utc};

#[derive(Clone, Debug)]
pub struct CronE {
    pub text: String,
    sec: Vec<u32>,
    min: Vec<u32>,
    hour: Vec<u32>,
    dom: Vec<u32>,
    mon: Vec<u32>,
    year: Option<Vec<i32>>,
}

fn field(r: &mut Rng, lo: u32, hi: u32, dense: u64, steps: bool) -> (String, Vec<u32>) {
    let all: Vec<u32> = (lo..=hi).collect();
    if r.chance(dense) {
        return ("*".into(), all);
    }
    match r.below(if steps { 4 } else { 3 }) {
        0 => {
            let v = r.range(lo as i64, hi as i64) as u32;
            (v.to_string(), vec![v])
        }
        1 => {
            let mut v: Vec<u32> =
                (0..r.range(2, 4)).map(|_| r.range(lo as i64, hi as i64) as u32).collect();
            v.sort();
            v.dedup();
            (v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), v)
        }
        2 => {
            let a = r.range(lo as i64, hi as i64) as u32;
            let b = r.range(a as i64, hi as i64) as u32;
            (format!("{a}-{b}"), (a..=b).collect())
        }
        _ => {
            let n = r.range(2, 30) as u32;
            (format!("*/{n}"), (lo..=hi).filter(|x| (x - lo) % n == 0).collect())
        }
    }
}

impl CronE {
    /// A recurring expression (always has a next occurrence).
    pub fn recurring(r: &mut Rng) -> CronE {
        let kind = r.below(4);
        let (s, sec) = field(r, 0, 59, if kind == 0 { 60 } else { 20 }, true);
        let (m, min) = field(r, 0, 59, if kind == 0 { 100 } else { 50 }, true);
        let (h, hour) = field(r, 0, 23, if kind <= 1 { 100 } else { 40 }, true);
        let (d, dom) = field(r, 1, 28, if kind <= 2 { 100 } else { 60 }, false);
        let (mo, mon) = field(r, 1, 12, if kind <= 2 { 100 } else { 70 }, false);
        // the full dom range is 1..=31 when it is a star
        let dom = if d == "*" { (1..=31).collect() } else { dom };
        let text = if r.chance(50) {
            format!("{s} {m} {h} {d} {mo} *")
        } else {
            format!("{s} {m} {h} {d} {mo} * *")
        };
        CronE { text, sec, min, hour, dom, mon, year: None }
    }
    /// Occurs exactly at the given instants' seconds within one minute, in one year only.
    pub fn finite(us: i64, r: &mut Rng) -> CronE {
        let t = Utc.timestamp_micros(us).unwrap();
        let lo = t.second() + 1;
        let mut sec: Vec<u32> = if lo <= 59 {
            (0..r.range(1, 3)).map(|_| r.range(lo as i64, 59) as u32).collect()
        } else {
            vec![]
        };
        let mut tt = t;
        if sec.is_empty() {
            tt = t + chrono::Duration::seconds(60);
            sec.push(r.range(0, 59) as u32);
        }
        sec.sort();
        sec.dedup();
        let text = format!(
            "{} {} {} {} {} * {}",
            sec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            tt.minute(),
            tt.hour(),
            tt.day(),
            tt.month(),
            tt.year()
        );
        CronE {
            text,
            sec,
            min: vec![tt.minute()],
            hour: vec![tt.hour()],
            dom: vec![tt.day()],
            mon: vec![tt.month()],
            year: Some(vec![tt.year()]),
        }
    }
    /// First occurrence strictly after `us` (us is never a whole second here).
    pub fn next_after(&self, us: i64) -> Option<i64> {
        let t = Utc.timestamp_micros(us).unwrap();
        let mut day = t.date_naive();
        let first = day;
        for _ in 0..(366 * 9) {
            let dok = self.mon.contains(&day.month())
                && self.dom.contains(&day.day())
                && self.year.as_ref().map_or(true, |y| y.contains(&day.year()));
            if dok {
                for &h in &self.hour {
                    for &m in &self.min {
                        for &s in &self.sec {
                            let c = day.and_hms_opt(h, m, s).unwrap().and_utc();
                            if day > first || c.timestamp_micros() > us {
                                return Some(c.timestamp_micros());
                            }
                        }
                    }
                }
            }
            day = day.checked_add_days(Days::new(1))?;
        }
        None
    }
}
