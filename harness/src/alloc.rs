//! An allocator that can keep the blocks a thread frees in quarantine, so that "does this reference point into freed
//! memory" becomes a question with a definite answer.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Tracking;

const MAX: usize = 16384;
struct Q {
    n: Cell<usize>,
    blocks: UnsafeCell<[(usize, usize, usize); MAX]>, // address, size, align
}
thread_local! {
    static IN_USE: Cell<i64> = const { Cell::new(0) };
    static GROUP: Cell<*const Group> = const { Cell::new(std::ptr::null()) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static Q: Q = const { Q { n: Cell::new(0), blocks: UnsafeCell::new([(0, 0, 0); MAX]) } };
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = IN_USE.try_with(|n| n.set(n.get() + l.size() as i64));
        group(|g| g.in_use.set(g.in_use.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = IN_USE.try_with(|n| n.set(n.get() - l.size() as i64));
        let mut kept = false;
        group(|g| {
            g.in_use.set(g.in_use.get() - l.size() as i64);
            kept = g.bury(p, l);
        });
        if kept {
            return;
        }
        if ON.try_with(|o| o.get()).unwrap_or(false) {
            let kept = Q.with(|q| {
                let n = q.n.get();
                if n < MAX {
                    (*q.blocks.get())[n] = (p as usize, l.size(), l.align());
                    q.n.set(n + 1);
                    true
                } else {
                    false
                }
            });
            if kept {
                return;
            }
        }
        System.dealloc(p, l)
    }
}

/// How many bytes the current thread has allocated and not freed (negative if it freed what others allocated).
pub fn in_use() -> i64 {
    IN_USE.with(|n| n.get())
}

fn group(f: impl FnOnce(&Group)) {
    if let Ok(g) = GROUP.try_with(|g| g.get()) {
        if !g.is_null() {
            f(unsafe { &*g })
        }
    }
}
/// Counts what several threads allocate and free, which must take turns. It can keep what they free, contents intact.
pub struct Group {
    in_use: Cell<i64>,
    n: Cell<usize>,
    graves: UnsafeCell<Box<[(usize, usize, usize)]>>,
}
unsafe impl Send for Group {}
unsafe impl Sync for Group {}
impl Group {
    pub fn new(graves: usize) -> Group {
        Group { in_use: Cell::new(0), n: Cell::new(0), graves: UnsafeCell::new(vec![(0, 0, 0); graves].into()) }
    }
    unsafe fn bury(&self, p: *mut u8, l: Layout) -> bool {
        let graves = &mut *self.graves.get();
        let n = self.n.get();
        if n < graves.len() {
            graves[n] = (p as usize, l.size(), l.align());
            self.n.set(n + 1);
            return true;
        }
        false
    }
    pub fn freed(&self, addr: usize) -> bool {
        let graves = unsafe { &*self.graves.get() };
        graves[..self.n.get()].iter().any(|&(p, s, _)| addr >= p && addr < p + s)
    }
    pub fn full(&self) -> bool {
        self.n.get() >= unsafe { &*self.graves.get() }.len()
    }
    pub fn in_use(&self) -> i64 {
        self.in_use.get()
    }
    /// What the calling thread does in `f` counts.
    pub fn with<T>(&self, f: impl FnOnce() -> T) -> T {
        let _back = Back(GROUP.with(|g| g.replace(self)));
        f()
    }
    /// What the calling thread does in `f` does not count for any group.
    pub fn without<T>(f: impl FnOnce() -> T) -> T {
        let _back = Back(GROUP.with(|g| g.replace(std::ptr::null())));
        f()
    }
    pub fn current() -> *const Group {
        GROUP.with(|g| g.get())
    }
}
struct Back(*const Group);
impl Drop for Back {
    fn drop(&mut self) {
        GROUP.with(|g| g.set(self.0));
    }
}
impl Drop for Group {
    fn drop(&mut self) {
        let graves = self.graves.get_mut();
        for &(p, s, a) in &graves[..self.n.get()] {
            unsafe { System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(s, a)) }
        }
    }
}

/// While alive, blocks freed by the current thread are quarantined (contents intact) instead of released.
pub struct Quarantine(());
impl Quarantine {
    pub fn new() -> Self {
        ON.with(|o| o.set(true));
        Quarantine(())
    }
    /// Is the address inside a block freed since the quarantine began?
    pub fn freed(&self, addr: usize) -> bool {
        Q.with(|q| {
            let b = unsafe { &*q.blocks.get() };
            b[..q.n.get()].iter().any(|&(p, s, _)| addr >= p && addr < p + s)
        })
    }
    pub fn full(&self) -> bool {
        Q.with(|q| q.n.get() >= MAX)
    }
}
impl Drop for Quarantine {
    fn drop(&mut self) {
        ON.with(|o| o.set(false));
        Q.with(|q| {
            let b = unsafe { &*q.blocks.get() };
            for &(p, s, a) in &b[..q.n.get()] {
                unsafe { System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(s, a)) }
            }
            q.n.set(0);
        });
    }
}
