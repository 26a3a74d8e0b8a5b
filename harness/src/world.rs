//! The surroundings of a call: the clock and the environment variables as code called inside `within` sees them.
//!
//! The functions below take the place of libc's in this program. Outside `within` they behave like them.

use std::cell::Cell;

thread_local! {
    static WORLD: Cell<u64> = const { Cell::new(0) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
}

/// Runs f in a world of its own (w = 0: the real one); also returns how often it asked about it.
pub fn within<T>(w: u64, f: impl FnOnce() -> T) -> (T, u64) {
    ASKED.with(|a| a.set(0));
    WORLD.with(|x| x.set(w));
    let r = f();
    WORLD.with(|x| x.set(0));
    (r, ASKED.with(|a| a.get()))
}

#[cfg(all(target_arch = "x86_64", not(any(miri, mqttmon_san))))]
mod libc {
    use super::*;
    use std::ffi::CStr;
    use std::os::raw::{c_char, c_int, c_long};

    extern "C" {
        fn syscall(n: c_long, ...) -> c_long;
        static environ: *const *const c_char;
    }

    fn world() -> u64 {
        let w = WORLD.try_with(|w| w.get()).unwrap_or(0);
        if w != 0 {
            let _ = ASKED.try_with(|a| a.set(a.get() + 1));
        }
        w
    }

    /// # Safety
    /// as libc's
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: c_int, tp: *mut [i64; 2]) -> c_int {
        let r = syscall(228, id as c_long, tp);
        let w = world();
        if w != 0 && r == 0 {
            let t = &mut *tp;
            t[0] += (w >> 8 & 0x3FF_FFFF) as i64;
            t[1] = ((t[1] as u64 + (w >> 34)) % 1_000_000_000) as i64;
        }
        r as c_int
    }

    /// # Safety
    /// as libc's
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
        let w = world();
        if w != 0 {
            let values: [&CStr; 7] = [c"1", c"0", c"true", c"", c"debug", c"a/b", c"4096"];
            return match w % 9 {
                n if n < 7 => values[n as usize].as_ptr(),
                _ => std::ptr::null(),
            };
        }
        let name = CStr::from_ptr(name).to_bytes();
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let v = CStr::from_ptr(*e).to_bytes();
            if v.starts_with(name) && v.get(name.len()) == Some(&b'=') {
                return (*e).add(name.len() + 1);
            }
            e = e.add(1);
        }
        std::ptr::null()
    }
}
