//! The clock the library sees: a virtual time per thread.
use std::cell::Cell;

pub const DEFAULT: u64 = 1_700_000_000;

thread_local! {
    static NOW: Cell<Option<u64>> = const { Cell::new(None) };
    static NANOS: Cell<u32> = const { Cell::new(0) };
    static READS: Cell<u64> = const { Cell::new(0) };
}

pub fn set(now: u64) {
    set_within(now, 0);
}

/// Somewhere within a second
pub fn set_within(now: u64, nanos: u32) {
    NOW.with(|n| n.set(Some(now)));
    NANOS.with(|n| n.set(nanos));
}

pub const WITHIN: [u32; 5] = [0, 499_999_999, 500_000_000, 999_500_000, 999_999_999];

/// Real time again
#[allow(dead_code)]
pub fn unset() {
    NOW.with(|n| n.set(None));
}

pub fn reads() -> u64 {
    READS.with(|n| n.get())
}

fn virtual_now() -> Option<u64> {
    NOW.try_with(|n| n.get()).ok().flatten().inspect(|_| {
        let _ = READS.try_with(|r| r.set(r.get() + 1));
    })
}

/// # Safety
/// As the libc function
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if clock == libc::CLOCK_REALTIME || clock == libc::CLOCK_REALTIME_COARSE {
        if let Some(now) = virtual_now() {
            (*ts).tv_sec = now as libc::time_t;
            (*ts).tv_nsec = NANOS.try_with(|n| n.get()).unwrap_or(0) as _;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clock, ts) as i32
}

/// # Safety
/// As the libc function
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> i32 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !tv.is_null() {
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
    }
    0
}

pub fn self_test() -> Result<(), String> {
    for t in [0u64, 5, DEFAULT, u32::MAX as u64 + 7] {
        set(t);
        let std_now = std::time::SystemTime::now()
            .duration_since(std::time::UNIX_EPOCH)
            .map(|d| d.as_secs())
            .unwrap_or(u64::MAX);
        if std_now != t {
            return Err(format!("virtual clock says {t}, std reads {std_now}"));
        }
    }
    set(DEFAULT);
    Ok(())
}
