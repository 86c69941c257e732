//! libc symbols taken over in the harness binary: std's Instant/SystemTime and
//! the hash seeds of HashMap read the simulated clock / the simulated entropy on
//! simulated worker threads. Outside a simulation the real clock is read, and
//! entropy is a process constant, so nothing depends on real randomness.
use std::cell::Cell;

thread_local! {
    /// (monotonic ns, realtime ns) source: set on simulated worker threads
    static VCLOCK: Cell<Option<*const crate::world::World>> = const { Cell::new(None) };
    static ENTROPY: Cell<u64> = const { Cell::new(0x5eed) };
}

pub(crate) fn enter(w: *const crate::world::World, entropy: u64) {
    VCLOCK.with(|c| c.set(Some(w)));
    ENTROPY.with(|c| c.set(entropy));
}
pub(crate) fn leave() {
    VCLOCK.with(|c| c.set(None));
}

/// simulated epoch of CLOCK_REALTIME
pub const EPOCH_S: i64 = 1_700_000_000;
/// simulated CLOCK_MONOTONIC starts here
pub const MONO_S: i64 = 1_000_000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if let Ok(Some(w)) = VCLOCK.try_with(|c| c.get()) {
        let w = &*w;
        let now = w.now_ns();
        let (base, ns) = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => (EPOCH_S, now as i64 + w.wall_skew_ns()),
            _ => (MONO_S, now as i64),
        };
        (*ts).tv_sec = base + ns.div_euclid(1_000_000_000);
        (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
        return 0;
    }
    raw_syscall(libc::SYS_clock_gettime, clk as i64, ts as i64, 0) as libc::c_int
}

unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        lateout("rcx") _, lateout("r11") _);
    r
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, _flags: libc::c_uint) -> isize {
    let mut s = ENTROPY.try_with(|c| c.get()).unwrap_or(7);
    for i in 0..len {
        s = crate::rng::mix(s);
        *(buf as *mut u8).add(i) = s as u8;
    }
    let _ = ENTROPY.try_with(|c| c.set(s));
    len as isize
}

/// real monotonic time, for wall-clock budgets of the driver only
pub fn real_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw_syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}
