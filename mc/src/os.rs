//! Interposed libc entry points: futex, time, randomness.
use crate::rt::*;

const FUTEX_CMD: i64 = 127;

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

unsafe fn ts_ns(p: *const libc::timespec) -> u64 {
    ((*p).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*p).tv_nsec as u64)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && controlled() {
        let _g = Guard::new();
        let op = b & FUTEX_CMD;
        match op {
            0 | 9 => {
                point(K_FUTEX, false);
                let addr = a as *const std::sync::atomic::AtomicU32;
                if (*addr).load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                    set_errno(libc::EAGAIN);
                    return -1;
                }
                let dl = if d == 0 {
                    None
                } else {
                    let ns = ts_ns(d as *const libc::timespec);
                    // FUTEX_WAIT: relative; FUTEX_WAIT_BITSET: absolute (monotonic == realtime here)
                    Some(if op == 0 { rt().now.saturating_add(ns) } else { ns })
                };
                if block(a as usize, dl, "futex") {
                    0
                } else {
                    set_errno(libc::ETIMEDOUT);
                    -1
                }
            }
            1 | 10 => {
                point(K_FUTEX, true);
                wake(a as usize, c as usize) as i64
            }
            _ => ret(raw6(n, a, b, c, d, e, f)),
        }
    } else if n == libc::SYS_getrandom {
        getrandom(a as *mut u8, b as usize, 0) as i64
    } else {
        ret(raw6(n, a, b, c, d, e, f))
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (rand64() >> 33) as u8;
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if controlled() {
        let _g = Guard::new();
        let mut ns = clock_read();
        if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
            ns = (ns as i64 + rt().skew) as u64;
        }
        (*ts).tv_sec = (ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if controlled() {
        let _g = Guard::new();
        sleep_ns(ts_ns(req));
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if controlled() {
        let _g = Guard::new();
        let ns = ts_ns(req);
        let d = if flags & 1 != 0 { ns.saturating_sub(rt().now) } else { ns };
        sleep_ns(d);
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> libc::c_int {
    if controlled() {
        let _g = Guard::new();
        yield_now(false);
        return 0;
    }
    raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    0
}
