//! Threads that take turns by a given plan.
//!
//! The crate under test is compiled with a callback at every edge of its control flow and before every load and store.
//! While a game is on, each callback made by one of its threads is a point at which the plan can hand the turn to another
//! thread; only the thread whose turn it is runs. A thread that would block in the kernel (a lock someone holds) hands the
//! turn on instead and looks again when it gets it back. So an execution is determined by the threads' code and the plan.
use std::arch::asm;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;

/// Let the present thread go on for `after` points, then wait `pause` nanoseconds and let another one (the `to`-th of the
/// others, cyclically) take the turn.
#[derive(Clone, Copy, Debug)]
pub struct Switch {
    pub after: u32,
    pub to: u8,
    pub pause: u64,
}
/// What a thread may do at a stretch when the plan is used up: enough for nearly all that happens, but no spinning for ever.
const STRETCH: u32 = 20_000;
const MAX_POINTS: u64 = 2_000_000_000;
const MAX_BLOCKED: u32 = 4_000;

struct State {
    plan: Vec<Switch>,
    at: usize,
    alive: Vec<bool>,
    turn: usize,
    /// How long the thread whose turn it is may go on.
    slice: u32,
    points: u64,
    blocked: u32,
    stuck: Option<&'static str>,
    stats: Stats,
    pass: fn(u64),
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    /// How often a thread was interrupted in the middle of the crate's code by the plan.
    pub switches: u32,
    pub blocked: u32,
    pub points: u64,
}
pub struct Game {
    words: Vec<AtomicU32>,
    state: UnsafeCell<State>,
}
// Only the thread whose turn it is touches the state.
unsafe impl Sync for Game {}
unsafe impl Send for Game {}

thread_local! {
    static LEFT: Cell<u32> = const { Cell::new(0) };
    static ME: Cell<(*const Game, usize)> = const { Cell::new((std::ptr::null(), 0)) };
}

#[inline(always)]
pub fn point() {
    let _ = LEFT.try_with(|l| {
        let n = l.get();
        if n != 0 {
            l.set(n - 1);
            if n == 1 {
                used_up();
            }
        }
    });
}
#[cold]
#[inline(never)]
fn used_up() {
    let (g, me) = ME.with(|m| m.get());
    if !g.is_null() {
        unsafe { (*g).used_up(me) }
    }
}
/// Whether the calling thread takes turns.
pub fn playing() -> bool {
    ME.try_with(|m| !m.get().0.is_null()).unwrap_or(false)
}
/// Hands the turn on; the caller has to wait for something. Not counted when `busy` (it is spinning politely).
fn wait(busy: bool) {
    let (g, me) = ME.with(|m| m.get());
    unsafe { (*g).wait(me, busy) }
}
unsafe fn futex(word: &AtomicU32, op: i32, val: u32) {
    kernel(202, [word as *const _ as isize, op as isize, val as isize, 0, 0, 0]);
}
fn sleep_until_set(word: &AtomicU32) {
    while word.swap(0, SeqCst) == 0 {
        unsafe { futex(word, 128, 0) }
    }
}
fn set(word: &AtomicU32) {
    word.store(1, SeqCst);
    unsafe { futex(word, 129, 1) }
}

impl Game {
    /// `pass` lets time pass for the players.
    pub fn new(threads: usize, plan: Vec<Switch>, pass: fn(u64)) -> Arc<Game> {
        let state = State { plan, at: 0, alive: vec![true; threads], turn: 0, slice: 0, points: 0, blocked: 0, stuck: None, stats: Stats::default(), pass };
        Arc::new(Game { words: (0..=threads).map(|_| AtomicU32::new(0)).collect(), state: UnsafeCell::new(state) })
    }
    /// Gives the first turn and returns when all players have ended, or none ever will.
    pub fn run(&self) -> Result<Stats, &'static str> {
        let s = unsafe { &mut *self.state.get() };
        s.slice = s.next_slice();
        set(&self.words[0]);
        sleep_until_set(&self.words[self.words.len() - 1]);
        let s = unsafe { &*self.state.get() };
        s.stuck.map_or(Ok(s.stats), Err)
    }
    /// To be called by player `me` before anything else.
    pub fn enter(&self, me: usize) {
        sleep_until_set(&self.words[me]);
        ME.with(|m| m.set((self, me)));
        let s = unsafe { &*self.state.get() };
        LEFT.with(|l| l.set(s.slice));
    }
    /// To be called by player `me` at its end.
    pub fn leave(&self, me: usize) {
        let s = unsafe { &mut *self.state.get() };
        s.points += u64::from(s.slice - LEFT.with(|l| l.replace(0)));
        s.stats.points = s.points;
        ME.with(|m| m.set((std::ptr::null(), 0)));
        s.alive[me] = false;
        s.blocked = 0;
        if s.alive.contains(&true) {
            let next = s.other(me, s.plan.get(s.at).map_or(0, |p| p.to as usize));
            // The rest of the slice goes to the next thread.
            s.slice = s.next_slice();
            s.turn = next;
            set(&self.words[next]);
        } else {
            set(&self.words[self.words.len() - 1]);
        }
    }
    unsafe fn used_up(&self, me: usize) {
        let s = &mut *self.state.get();
        s.points += u64::from(s.slice);
        s.blocked = 0;
        if s.points > MAX_POINTS {
            self.give_up("the threads go on and on without ever ending, whoever runs");
        }
        let to = match s.plan.get(s.at) {
            Some(p) => {
                s.at += 1;
                s.stats.switches += 1;
                if p.pause > 0 {
                    (s.pass)(p.pause);
                }
                p.to as usize
            }
            None => 0,
        };
        s.slice = s.next_slice();
        self.hand_on(me, s.other(me, to));
    }
    unsafe fn wait(&self, me: usize, busy: bool) {
        let s = &mut *self.state.get();
        let used = s.slice - LEFT.with(|l| l.get());
        if used > 0 {
            s.points += u64::from(used);
            s.blocked = 0;
        }
        s.stats.blocked += 1;
        s.blocked += 1;
        if s.blocked > MAX_BLOCKED * if busy { 50 } else { 1 } {
            self.give_up("all threads wait for one another");
        }
        // What remains of the slice goes to the next thread.
        s.slice = (s.slice - used).max(1);
        self.hand_on(me, s.other(me, 0));
    }
    unsafe fn hand_on(&self, me: usize, next: usize) {
        let s = &mut *self.state.get();
        if next != me {
            s.turn = next;
            LEFT.with(|l| l.set(0));
            set(&self.words[next]);
            sleep_until_set(&self.words[me]);
        }
        let s = &*self.state.get();
        LEFT.with(|l| l.set(s.slice));
    }
    /// Ends the game, and with it everything that its threads do.
    unsafe fn give_up(&self, why: &'static str) -> ! {
        LEFT.with(|l| l.set(0));
        (*self.state.get()).stuck = Some(why);
        set(&self.words[self.words.len() - 1]);
        let never = AtomicU32::new(0);
        loop {
            futex(&never, 128, 0);
        }
    }
}
impl State {
    fn next_slice(&self) -> u32 {
        self.plan.get(self.at).map_or(STRETCH, |p| p.after.max(1))
    }
    /// The `n`-th (cyclically) thread besides `me` that is still there, or `me` if there is none.
    fn other(&self, me: usize, n: usize) -> usize {
        let k = self.alive.len();
        let others = || (1..k).map(|d| (me + d) % k).filter(|i| self.alive[*i]);
        match others().count() {
            0 => me,
            c => others().nth(n % c).unwrap(),
        }
    }
}

unsafe fn kernel(n: i64, a: [isize; 6]) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
/// What the standard library blocks with. A player does not block, but hands its turn on and is told that it woke up
/// for no reason (which the kernel may do at any time).
///
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: isize, b: isize, c: isize, d: isize, e: isize, f: isize) -> isize {
    if n == 202 && playing() && matches!(b & 127, 0 | 9) && *(a as *const u32) == c as u32 {
        if d != 0 {
            // A wait with a time limit: it is over.
            let (g, _) = ME.with(|m| m.get());
            ((*(*g).state.get()).pass)(1_000_000);
            wait(true);
            *__errno_location() = 110;
            return -1;
        }
        wait(false);
        return 0;
    }
    let r = kernel(n, [a, b, c, d, e, f]);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    if playing() {
        wait(true);
    } else {
        unsafe { kernel(24, [0; 6]) };
    }
    0
}
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, t: *const [i64; 2], rest: *mut [i64; 2]) -> i32 {
    if playing() {
        let (g, _) = ME.with(|m| m.get());
        let t = *t;
        ((*(*g).state.get()).pass)((t[0].max(0) as u64).saturating_mul(1_000_000_000).saturating_add(t[1].max(0) as u64));
        wait(true);
        return 0;
    }
    -kernel(230, [clock as isize, flags as isize, t as isize, rest as isize, 0, 0]) as i32
}
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const [i64; 2], rest: *mut [i64; 2]) -> i32 {
    let e = clock_nanosleep(1, 0, t, rest);
    if e != 0 {
        *__errno_location() = e;
        return -1;
    }
    0
}
