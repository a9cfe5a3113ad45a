//! A virtual clock per thread.
//!
//! The executable defines `clock_gettime`, so every clock reading made through libc by code linked into it (the Rust
//! standard library, and with it the library under test) comes here. A thread that has set a virtual time sees that
//! time; every other thread sees the kernel's.
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

#[derive(Clone, Copy)]
struct V {
    on: bool,
    real: i128, // ns since the Unix epoch
    mono: i128, // ns
}
thread_local! {
    static VT: Cell<V> = const { Cell::new(V { on: false, real: 0, mono: 0 }) };
    static SHARED: Cell<*const Shared> = const { Cell::new(std::ptr::null()) };
}
/// A virtual time that several threads live in (ns since the Unix epoch, and ns).
pub struct Shared(AtomicI64, AtomicI64);
impl Shared {
    pub fn new() -> Shared {
        Shared(AtomicI64::new(START_NS as i64), AtomicI64::new(1_000_000_000_000))
    }
    /// Runs `f` in this time.
    pub fn with<T>(&self, f: impl FnOnce() -> T) -> T {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                SHARED.with(|s| s.set(std::ptr::null()));
            }
        }
        let _off = Off;
        SHARED.with(|s| s.set(self));
        f()
    }
}
/// Lets the shared time that the calling thread lives in pass.
pub fn pass(ns: u64) {
    let s = SHARED.with(|s| s.get());
    if !s.is_null() {
        let s = unsafe { &*s };
        s.0.fetch_add(ns as i64, SeqCst);
        s.1.fetch_add(ns as i64, SeqCst);
    }
}
/// The shared monotonic time that the calling thread lives in.
pub fn shared_now() -> i64 {
    let s = SHARED.with(|s| s.get());
    unsafe { (*s).1.load(SeqCst) }
}

fn ns(clock: libc::clockid_t) -> Option<i128> {
    let s = SHARED.try_with(|s| s.get()).unwrap_or(std::ptr::null());
    if !s.is_null() {
        let s = unsafe { &*s };
        return match clock {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => Some(s.0.load(SeqCst) as i128),
            libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_BOOTTIME => Some(s.1.load(SeqCst) as i128),
            _ => None,
        };
    }
    let v = VT.try_with(|v| v.get()).ok()?;
    if !v.on {
        return None;
    }
    match clock {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => Some(v.real),
        libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_BOOTTIME => Some(v.mono),
        _ => None,
    }
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, out: *mut libc::timespec) -> libc::c_int {
    if let Some(n) = ns(clock) {
        (*out).tv_sec = n.div_euclid(1_000_000_000) as _;
        (*out).tv_nsec = n.rem_euclid(1_000_000_000) as _;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clock, out) as libc::c_int
}
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(out: *mut libc::timeval, _tz: *mut libc::c_void) -> libc::c_int {
    let mut t: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut t);
    (*out).tv_sec = t.tv_sec;
    (*out).tv_usec = t.tv_nsec / 1000;
    0
}

/// While alive, the current thread lives in virtual time.
pub struct Virtual(());
pub const START_NS: i128 = 1_600_000_000_000_000_000;
impl Virtual {
    pub fn new() -> Virtual {
        Virtual::at(START_NS)
    }
    pub fn at(real: i128) -> Virtual {
        VT.with(|v| v.set(V { on: true, real, mono: 1_000_000_000_000 }));
        // The machinery rests on this: make sure the library's clock is really ours.
        let now = SystemTime::now();
        let n = match now.duration_since(UNIX_EPOCH) {
            Ok(d) => d.as_nanos() as i128,
            Err(e) => -(e.duration().as_nanos() as i128),
        };
        assert_eq!(n, real, "virtual clock is not in effect");
        let t = std::time::Instant::now();
        advance(Duration::from_nanos(12_345));
        assert_eq!(t.elapsed(), Duration::from_nanos(12_345), "virtual monotonic clock is not in effect");
        VT.with(|v| v.set(V { on: true, real, mono: 1_000_000_000_000 }));
        Virtual(())
    }
    /// Time passes on both clocks.
    pub fn advance(&self, d: Duration) {
        advance(d)
    }
    /// Monotonic time in nanoseconds.
    pub fn now_ns() -> i128 {
        VT.with(|v| v.get().mono)
    }
    pub fn real_ns(&self) -> i128 {
        VT.with(|v| v.get().real)
    }
}
impl Drop for Virtual {
    fn drop(&mut self) {
        VT.with(|v| v.set(V { on: false, real: 0, mono: 0 }));
    }
}
pub fn advance(d: Duration) {
    VT.with(|v| {
        let mut x = v.get();
        x.real += d.as_nanos() as i128;
        x.mono += d.as_nanos() as i128;
        v.set(x);
    });
}
/// The wall clock is adjusted; no time passes.
pub fn step_wall(ns: i128) {
    VT.with(|v| {
        let mut x = v.get();
        x.real += ns;
        v.set(x);
    });
}
/// Runs `f` in another thread, in the calling thread's virtual time.
pub fn elsewhere<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    let (v, map) = (VT.with(|v| v.get()), cov::Map::current() as usize);
    let (r, v) = std::thread::scope(|s| {
        s.spawn(move || {
            VT.with(|x| x.set(v));
            unsafe { cov::Map::join(map as *mut _) };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            unsafe { cov::Map::join(std::ptr::null_mut()) };
            (r, VT.with(|v| v.get()))
        })
        .join()
        .expect("caught")
    });
    VT.with(|x| x.set(v));
    r.unwrap_or_else(|e| std::panic::resume_unwind(e))
}
