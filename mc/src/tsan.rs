//! Runtime for `-C passes=tsan`: every atomic operation of the instrumented crates is a scheduling
//! point and is executed sequentially consistently. Nothing else is instrumented.
use crate::rt::*;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

const MO_RELAXED: i32 = 0;
const MO_RELEASE: i32 = 3;

#[inline]
fn hook(kind: u32) {
    if controlled() {
        let _g = Guard::new();
        point(kind, false);
    }
}
#[inline]
fn changed(b: bool) {
    if b && controlled() {
        effect();
    }
}

macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, mo: i32) -> $t {
            if mo != MO_RELAXED {
                hook(K_LOAD);
            }
            (*(p as *const $a)).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _mo: i32) {
            hook(K_STORE);
            let o = (*(p as *const $a)).swap(v, SeqCst);
            changed(o != v);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _mo: i32) -> $t {
            hook(K_RMW);
            let o = (*(p as *const $a)).swap(v, SeqCst);
            changed((*(p as *const $a)).load(SeqCst) != o);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, mo: i32) -> $t {
            if mo != MO_RELAXED {
                hook(K_RMW);
            }
            let o = (*(p as *const $a)).fetch_add(v, SeqCst);
            changed((*(p as *const $a)).load(SeqCst) != o);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, mo: i32) -> $t {
            // release-only decrements are reference counts (Arc::drop)
            if mo != MO_RELAXED && mo != MO_RELEASE {
                hook(K_RMW);
            }
            let o = (*(p as *const $a)).fetch_sub(v, SeqCst);
            changed((*(p as *const $a)).load(SeqCst) != o);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _mo: i32) -> $t {
            hook(K_RMW);
            let o = (*(p as *const $a)).fetch_and(v, SeqCst);
            changed((*(p as *const $a)).load(SeqCst) != o);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _mo: i32) -> $t {
            hook(K_RMW);
            let o = (*(p as *const $a)).fetch_or(v, SeqCst);
            changed((*(p as *const $a)).load(SeqCst) != o);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _mo: i32) -> $t {
            hook(K_RMW);
            let o = (*(p as *const $a)).fetch_xor(v, SeqCst);
            changed((*(p as *const $a)).load(SeqCst) != o);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _mo: i32) -> $t {
            hook(K_RMW);
            let o = (*(p as *const $a)).fetch_nand(v, SeqCst);
            changed((*(p as *const $a)).load(SeqCst) != o);
            o
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _mo: i32, _fmo: i32) -> $t {
            hook(K_CAS);
            match (*(p as *const $a)).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(x) => {
                    changed(x != v);
                    x
                }
                Err(x) => x,
            }
        }
    };
}
atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_mo: i32) {
    std::sync::atomic::fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_p: *const u8) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    libc::memcpy(d as _, s as _, n) as _
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    libc::memmove(d as _, s as _, n) as _
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    libc::memset(d as _, c, n) as _
}
macro_rules! plain { ($($n:ident)*) => { $( #[no_mangle] pub extern "C" fn $n(_p: *const u8) {} )* } }
plain!(__tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16 __tsan_write1 __tsan_write2 __tsan_write4 __tsan_write8 __tsan_write16
 __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16 __tsan_unaligned_write2 __tsan_unaligned_write4
 __tsan_unaligned_write8 __tsan_unaligned_write16 __tsan_read_write1 __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16);
