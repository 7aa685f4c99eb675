//! A virtual clock: threads that switch it on see only the time the explorer lets pass.
use std::cell::Cell;

thread_local! {
    static NOW: Cell<i64> = const { Cell::new(-1) };
}

/// Switch this thread to virtual time, starting at one million seconds.
pub fn on() {
    NOW.with(|n| n.set(1_000_000_000_000_000));
}
pub fn off() {
    NOW.with(|n| n.set(-1));
}
pub fn advance_ms(ms: i64) {
    NOW.with(|n| {
        if n.get() >= 0 {
            n.set(n.get() + ms * 1_000_000)
        }
    });
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let v = NOW.try_with(|n| n.get()).unwrap_or(-1);
    if v >= 0 {
        unsafe {
            (*ts).tv_sec = v / 1_000_000_000;
            (*ts).tv_nsec = v % 1_000_000_000;
        }
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int }
}
