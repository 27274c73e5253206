//! The process's clocks and entropy, owned by the simulator.  Everything in this
//! process that asks libc for the time or for random bytes is answered here.
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};

/// Start of simulated time, Unix seconds.
pub const BASE_UNIX: u64 = 1_790_000_000;

static ON: AtomicBool = AtomicBool::new(false);
static ELAPSED_NS: AtomicU64 = AtomicU64::new(0);
static SKEW_MS: AtomicI64 = AtomicI64::new(0);
static BASE_MS: AtomicI64 = AtomicI64::new((BASE_UNIX * 1000) as i64);
static ENTROPY: AtomicU64 = AtomicU64::new(0x9E37_79B9_7F4A_7C15);
static DRAWS: AtomicU64 = AtomicU64::new(0);

pub fn start(seed: u64) {
    ENTROPY.store(seed ^ 0x5EED_5EED_1234_5678, SeqCst);
    ELAPSED_NS.store(0, SeqCst);
    SKEW_MS.store(0, SeqCst);
    BASE_MS.store((BASE_UNIX * 1000) as i64, SeqCst);
    ON.store(true, SeqCst);
}
pub fn set_base_unix_ms(ms: i64) {
    BASE_MS.store(ms, SeqCst);
}
pub fn set_elapsed_ms(ms: u64) {
    ELAPSED_NS.store(ms * 1_000_000, SeqCst);
}
pub fn elapsed_ms() -> u64 {
    ELAPSED_NS.load(SeqCst) / 1_000_000
}
/// The wall-clock error of whoever runs next.
pub fn set_skew_ms(ms: i64) {
    SKEW_MS.store(ms, SeqCst);
}
pub fn unix_ms() -> i64 {
    BASE_MS.load(SeqCst) + elapsed_ms() as i64 + SKEW_MS.load(SeqCst)
}
/// True time: no node's error.
pub fn true_unix_ms() -> i64 {
    BASE_MS.load(SeqCst) + elapsed_ms() as i64
}
pub fn draws() -> u64 {
    DRAWS.load(SeqCst)
}

fn splitmix() -> u64 {
    let mut z = ENTROPY.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst).wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
fn fill(buf: *mut u8, n: usize) {
    DRAWS.fetch_add(1, SeqCst);
    let mut i = 0;
    while i < n {
        let w = splitmix().to_le_bytes();
        let k = (n - i).min(8);
        unsafe { std::ptr::copy_nonoverlapping(w.as_ptr(), buf.add(i), k) };
        i += k;
    }
}

#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    fill(buf, n);
    n as isize
}
#[no_mangle]
pub extern "C" fn getentropy(buf: *mut u8, n: usize) -> i32 {
    fill(buf, n);
    0
}

/// The real monotonic clock, for watchdogs only.
pub fn real_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if !ON.load(SeqCst) {
        return libc::syscall(libc::SYS_clock_gettime, id, ts) as i32;
    }
    match id {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
            let ms = unix_ms();
            (*ts).tv_sec = ms.div_euclid(1000);
            (*ts).tv_nsec = ms.rem_euclid(1000) * 1_000_000;
            0
        }
        libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_BOOTTIME => {
            let ns = 1_000_000_000_000u64 + ELAPSED_NS.load(SeqCst);
            (*ts).tv_sec = (ns / 1_000_000_000) as i64;
            (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
            0
        }
        _ => libc::syscall(libc::SYS_clock_gettime, id, ts) as i32,
    }
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> i32 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
