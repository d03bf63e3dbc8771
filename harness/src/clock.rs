//! Virtual wall clock.  The executable defines `clock_gettime`, so every read
//! of CLOCK_REALTIME in this process (chrono's `Utc::now()` included) can be
//! frozen and moved by the harness, while CLOCK_MONOTONIC (tokio timers, hence
//! the engine's polling tick) stays real.  /repo needs no hook for this.
use std::sync::atomic::{AtomicI64, Ordering};

static FROZEN_US: AtomicI64 = AtomicI64::new(0);

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(
    clk: libc::clockid_t,
    ts: *mut libc::timespec,
) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME {
        let f = FROZEN_US.load(Ordering::SeqCst);
        if f != 0 {
            (*ts).tv_sec = f.div_euclid(1_000_000);
            (*ts).tv_nsec = f.rem_euclid(1_000_000) * 1000;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// Freeze the wall clock at `us` microseconds since the epoch.
pub fn set_us(us: i64) {
    FROZEN_US.store(us, Ordering::SeqCst);
    crate::rec::note(format!("clock={us}"));
}

pub fn is_frozen() -> bool {
    FROZEN_US.load(Ordering::SeqCst) != 0
}

pub fn now_us() -> i64 {
    chrono::Utc::now().timestamp_micros()
}

pub fn advance_us(d: i64) {
    set_us(now_us() + d);
}

pub fn dt(us: i64) -> chrono::DateTime<chrono::Utc> {
    chrono::DateTime::from_timestamp_micros(us).unwrap()
}

/// The interposition must really be in effect, or no timing oracle means anything.
pub fn self_check() -> bool {
    let before = FROZEN_US.load(Ordering::SeqCst);
    FROZEN_US.store(1_893_456_000_000_001, Ordering::SeqCst);
    let ok = aj_core::get_now().timestamp_micros() == 1_893_456_000_000_001;
    FROZEN_US.store(before, Ordering::SeqCst);
    ok
}
