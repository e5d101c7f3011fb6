//! Interposition of the operating system's random source.
//!
//! The library seeds its generator from the OS, and `HashMap`s draw their keys from it. Both go
//! through `getrandom(2)`: `std` calls the `getrandom` symbol, the `getrandom` crate calls
//! `syscall(SYS_getrandom, ..)`. Defining both symbols in this binary makes every run a pure
//! function of its seed. Threads without a seed (the supervisor) get real randomness.

use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};

use crate::rng::Rng;

thread_local! {
    static SOURCE: RefCell<Option<Rng>> = const { RefCell::new(None) };
}

/// Number of times seeded randomness was served (shows that the seam is in place).
pub static SERVED: AtomicU64 = AtomicU64::new(0);

/// Seeds the random source of the current thread.
pub fn seed_thread(seed: u64) {
    SOURCE.with(|s| *s.borrow_mut() = Some(Rng::new(seed)));
}

fn fill_seeded(buf: *mut u8, len: usize) -> bool {
    SOURCE
        .try_with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                if let Some(rng) = s.as_mut() {
                    let slice = unsafe { std::slice::from_raw_parts_mut(buf, len) };
                    rng.fill(slice);
                    SERVED.fetch_add(1, Ordering::Relaxed);
                    return true;
                }
            }
            false
        })
        .unwrap_or(false)
}

#[cfg(target_arch = "x86_64")]
unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

const SYS_GETRANDOM: i64 = 318;

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// # Safety
/// C ABI of `getrandom(2)`.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if fill_seeded(buf, len) {
        return len as isize;
    }
    let r = raw_syscall(SYS_GETRANDOM, buf as i64, len as i64, i64::from(flags), 0, 0, 0);
    ret(r) as isize
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

/// # Safety
/// C ABI of `syscall(2)`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_GETRANDOM && fill_seeded(a as *mut u8, b as usize) {
        return b;
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}
