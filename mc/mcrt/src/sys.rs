//! libc interposition: clock and randomness.
use libc::{c_int, c_long, c_uint, c_void, clockid_t, size_t, ssize_t, timespec, timeval};
use std::cell::Cell;

pub const REAL_BASE_S: u64 = 1_800_000_000;
pub const MONO_BASE_S: u64 = 100_000;

thread_local! {
    static CLOCK: Cell<u64> = const { Cell::new(u64::MAX) };
    static RNG: Cell<u64> = const { Cell::new(0) };
    static DET_RNG: Cell<bool> = const { Cell::new(false) };
}

pub fn set_clock(v: Option<u64>) {
    CLOCK.with(|c| c.set(v.unwrap_or(u64::MAX)));
}
pub fn clock() -> Option<u64> {
    let v = CLOCK.with(|c| c.get());
    if v == u64::MAX { None } else { Some(v) }
}
/// Make every random byte drawn by this thread reproducible.
pub fn seed_thread(seed: u64) {
    RNG.with(|r| r.set(seed));
    DET_RNG.with(|d| d.set(true));
}
pub fn next_rand() -> u64 {
    RNG.with(|r| {
        let mut z = r.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        r.set(z);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    })
}
/// Real wall clock regardless of simulation (ns).
pub fn real_now_ns() -> u64 {
    unsafe {
        let mut ts: timespec = std::mem::zeroed();
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as c_long, &mut ts);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    let v = CLOCK.with(|c| c.get());
    if v == u64::MAX {
        return libc::syscall(libc::SYS_clock_gettime, clk as c_long, ts) as c_int;
    }
    let base = match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => REAL_BASE_S,
        _ => MONO_BASE_S,
    };
    (*ts).tv_sec = (base + v / 1_000_000_000) as _;
    (*ts).tv_nsec = (v % 1_000_000_000) as _;
    0
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, tz: *mut c_void) -> c_int {
    let v = CLOCK.with(|c| c.get());
    if v == u64::MAX {
        return libc::syscall(libc::SYS_gettimeofday, tv, tz) as c_int;
    }
    if !tv.is_null() {
        (*tv).tv_sec = (REAL_BASE_S + v / 1_000_000_000) as _;
        (*tv).tv_usec = ((v % 1_000_000_000) / 1000) as _;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if !DET_RNG.with(|d| d.get()) {
        return libc::syscall(libc::SYS_getrandom, buf, len, flags) as ssize_t;
    }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for ch in b.chunks_mut(8) {
        let r = next_rand().to_be_bytes();
        let n = ch.len();
        ch.copy_from_slice(&r[..n]);
    }
    len as ssize_t
}

// nobody in the code under test may really sleep
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> c_int {
    if CLOCK.with(|c| c.get()) != u64::MAX {
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    if CLOCK.with(|c| c.get()) != u64::MAX {
        return 0;
    }
    let ts = timespec { tv_sec: (us / 1_000_000) as _, tv_nsec: ((us % 1_000_000) * 1000) as _ };
    libc::syscall(libc::SYS_nanosleep, &ts, std::ptr::null_mut::<timespec>()) as c_int
}
