//! Runs code with a chosen operating-system entropy: `syscall` of the C library, through which the
//! `getrandom` crate asks the kernel, is replaced for the whole program. Threads that chose nothing
//! get the kernel's bytes.

use rand::{rngs::StdRng, RngCore, SeedableRng};
use std::cell::RefCell;

struct Source {
    rng: StdRng,
    /// the bit that is flipped
    flip: Option<usize>,
    used: usize,
}

thread_local! {
    static SOURCE: RefCell<Option<Source>> = const { RefCell::new(None) };
}

#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
mod hook {
    use super::*;

    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    const GETRANDOM: i64 = 318;

    /// # Safety
    /// That of the system call.
    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        if n == GETRANDOM {
            let served = SOURCE.try_with(|s| {
                let Ok(mut s) = s.try_borrow_mut() else { return false };
                let Some(s) = s.as_mut() else { return false };
                let buf = std::slice::from_raw_parts_mut(a as *mut u8, b as usize);
                for x in buf {
                    let mut y = [0];
                    s.rng.fill_bytes(&mut y);
                    *x = y[0];
                    if let Some(bit) = s.flip {
                        if bit / 8 == s.used {
                            *x ^= 1 << (bit % 8);
                        }
                    }
                    s.used += 1;
                }
                true
            });
            if served == Ok(true) {
                return b;
            }
        }
        let r: i64;
        std::arch::asm!(
            "syscall",
            inlateout("rax") n => r,
            in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _,
            options(nostack)
        );
        if (-4095..0).contains(&r) {
            *__errno_location() = -r as i32;
            return -1;
        }
        r
    }
}

/// The result of `f` in a new thread whose entropy is a function of `seed`, with one bit flipped
/// if asked, and the number of bytes of entropy it took. The result is None when `f` panics.
pub fn with<T: Send + 'static>(seed: u64, flip: Option<usize>, f: impl FnOnce() -> T + Send + 'static) -> (Option<T>, usize) {
    std::thread::spawn(move || {
        SOURCE.with(|s| *s.borrow_mut() = Some(Source { rng: StdRng::seed_from_u64(seed), flip, used: 0 }));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
        let used = SOURCE.with(|s| s.borrow_mut().take()).map_or(0, |s| s.used);
        (r, used)
    })
    .join()
    .unwrap()
}
