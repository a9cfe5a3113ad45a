//! Coverage of the crate under test, per thread.
//!
//! `rustc-wrap.sh` compiles the crate (and nothing else) with LLVM's sanitizer-coverage callbacks, which are defined here.
//! They count, for the thread that switched counting on, how often each edge of the control flow was taken, and how close
//! the two sides of each integer comparison were. The engine uses this as feedback: a case that shows something new is
//! kept, and later cases are built from it. Without the instrumentation nothing is ever new and the search is random.
pub mod sched;

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

const CMPS: usize = 1 << 14;
pub struct Map {
    edges: Vec<u32>,
    touched: Vec<u32>,
    cmps: Vec<bool>,
    cmp_list: Vec<u32>,
    last: u32,
    /// What all earlier cases have shown: for each edge the magnitudes of its counts, and the comparisons' distances.
    seen: Vec<u32>,
    seen_cmps: Vec<bool>,
    pub edges_seen: u32,
    pub features: u32,
    /// Edges taken by the present case.
    pub work: u64,
}
thread_local! { static MAP: Cell<*mut Map> = const { Cell::new(std::ptr::null_mut()) }; }
static NEXT: AtomicU32 = AtomicU32::new(0);

/// Number of instrumented edges in the crate.
pub fn edges() -> usize {
    NEXT.load(Ordering::Relaxed) as usize
}
impl Map {
    pub fn taken(&self) -> std::collections::BTreeSet<u32> {
        (0..).zip(&self.seen).filter(|(_, s)| **s != 0).map(|(e, _)| e).collect()
    }
    /// The map that the calling thread counts in, and making the calling thread count in it: threads that take turns can share one.
    pub fn current() -> *mut Map {
        MAP.with(|m| m.get())
    }
    /// # Safety
    /// The map must outlive the counting, and only one thread at a time may count.
    pub unsafe fn join(map: *mut Map) {
        MAP.with(|m| m.set(map))
    }
    pub fn new() -> Box<Map> {
        Box::new(Map {
            edges: vec![0; edges()],
            touched: Vec::with_capacity(edges()),
            cmps: vec![false; CMPS],
            cmp_list: Vec::with_capacity(CMPS),
            last: 0,
            seen: vec![0; edges()],
            seen_cmps: vec![false; CMPS],
            edges_seen: 0,
            features: 0,
            work: 0,
        })
    }
    /// Runs `f` with counting switched on; the number of things not seen before.
    pub fn observe<T>(&mut self, f: impl FnOnce() -> T) -> (T, u32) {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                MAP.with(|m| m.set(std::ptr::null_mut()));
            }
        }
        self.last = 0;
        self.work = 0;
        let r = {
            let off = Off;
            MAP.with(|m| m.set(self));
            let r = f();
            drop(off);
            r
        };
        let mut new = 0;
        for e in self.touched.drain(..) {
            let n = std::mem::take(&mut self.edges[e as usize]);
            self.work += u64::from(n);
            // 1, 2, 3, 4.., 8.., 16.., and so on
            let bit = if n <= 3 { 1 << (n - 1) } else { 1u32 << (32 - n.leading_zeros()).min(31) };
            let s = &mut self.seen[e as usize];
            if *s == 0 {
                self.edges_seen += 1;
            }
            if *s & bit == 0 {
                *s |= bit;
                new += 1;
            }
        }
        for c in self.cmp_list.drain(..) {
            self.cmps[c as usize] = false;
            if !std::mem::replace(&mut self.seen_cmps[c as usize], true) {
                new += 1;
            }
        }
        self.features += new;
        (r, new)
    }
}

/// # Safety
/// Called by the instrumented code's constructors with the bounds of its guards.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        *p = NEXT.fetch_add(1, Ordering::Relaxed) + 1;
        p = p.add(1);
    }
}
/// # Safety
/// Called by the instrumented code with one of its guards.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    sched::point();
    let Ok(m) = MAP.try_with(|m| m.get()) else { return };
    if m.is_null() {
        return;
    }
    let (m, g) = (&mut *m, *guard - 1);
    m.last = g;
    if let Some(n) = m.edges.get_mut(g as usize) {
        if *n == 0 {
            m.touched.push(g);
        }
        *n = n.saturating_add(1);
    }
}
fn cmp(kind: u32, a: u64, b: u64) {
    let Ok(m) = MAP.try_with(|m| m.get()) else { return };
    if m.is_null() {
        return;
    }
    let m = unsafe { &mut *m };
    let distance = 64 - a.abs_diff(b).leading_zeros();
    let h = (m.last.wrapping_mul(4).wrapping_add(kind)).wrapping_mul(0x9E37_79B1) >> 8;
    let i = h.wrapping_add(distance.wrapping_mul(2)).wrapping_add(u32::from(a < b)) as usize % CMPS;
    if !m.cmps[i] {
        m.cmps[i] = true;
        m.cmp_list.push(i as u32);
    }
}
macro_rules! callbacks { ($($name:ident $t:ty, $k:expr;)*) => { $(
    #[no_mangle]
    pub extern "C" fn $name(a: $t, b: $t) {
        cmp($k, a as u64, b as u64)
    }
)* } }
callbacks! {
    __sanitizer_cov_trace_cmp1 u8, 0;
    __sanitizer_cov_trace_cmp2 u16, 1;
    __sanitizer_cov_trace_cmp4 u32, 2;
    __sanitizer_cov_trace_cmp8 u64, 3;
    __sanitizer_cov_trace_const_cmp1 u8, 0;
    __sanitizer_cov_trace_const_cmp2 u16, 1;
    __sanitizer_cov_trace_const_cmp4 u32, 2;
    __sanitizer_cov_trace_const_cmp8 u64, 3;
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(_value: u64, _cases: *const u64) {}
macro_rules! points { ($($name:ident)*) => { $(
    #[no_mangle]
    pub extern "C" fn $name(_address: *const u8) {
        sched::point()
    }
)* } }
points! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
