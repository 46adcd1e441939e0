//! Stand-ins for the C library's getenv and clock_gettime. While a thread is
//! in a foreign world, every environment variable has a value there, and it is
//! another time; nothing the code under test reports may depend on either.

use std::cell::Cell;

thread_local! {
    static WORLD: Cell<u8> = const { Cell::new(0) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
}

pub const WORLDS: u8 = 5;

/// runs f in a foreign world (0: the real one); also gives how often it asked
pub fn within<T>(world: u8, f: impl FnOnce() -> T) -> (T, u64) {
    let old = WORLD.with(|w| w.replace(world));
    let a = ASKED.with(|a| a.get());
    let r = f();
    WORLD.with(|w| w.set(old));
    (r, ASKED.with(|x| x.get()) - a)
}

#[cfg(not(miri))]
mod stand_in {
    use super::*;
    use std::ffi::{c_char, c_int, c_long, CStr};

    extern "C" {
        static environ: *const *mut c_char;
        fn syscall(n: c_long, ...) -> c_long;
    }

    #[no_mangle]
    unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
        let n = CStr::from_ptr(name).to_bytes();
        let w = WORLD.try_with(|w| w.get()).unwrap_or(0);
        // what panics look at is no result
        if w != 0 && !n.starts_with(b"RUST_") {
            let _ = ASKED.try_with(|a| a.set(a.get() + 1));
            return match w {
                1 => c"from-env".as_ptr(),
                2 => c"1".as_ptr(),
                3 => c"".as_ptr(),
                4 => c"$a".as_ptr(),
                _ => std::ptr::null(),
            } as *mut c_char;
        }
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            let e = CStr::from_ptr(*p).to_bytes();
            if e.len() > n.len() && e.starts_with(n) && e[n.len()] == b'=' {
                return (*p).add(n.len() + 1);
            }
            p = p.add(1);
        }
        std::ptr::null_mut()
    }

    #[cfg(target_arch = "x86_64")]
    #[no_mangle]
    unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut [i64; 2]) -> c_int {
        let r = syscall(228, clock as c_long, ts) as c_int;
        let w = WORLD.try_with(|w| w.get()).unwrap_or(0);
        if w != 0 && r == 0 {
            let _ = ASKED.try_with(|a| a.set(a.get() + 1));
            (*ts)[0] += w as i64 * 100_000_000 + 12_345;
            (*ts)[1] = ((*ts)[1] + w as i64 * 123_456_789) % 1_000_000_000;
        }
        r
    }
}
