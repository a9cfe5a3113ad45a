//! Watches the cases in flight: a case that burns CPU without end, eats all memory or is stuck in a deadlock is a
//! violation too ("the library hangs"), but one that can be seen only from outside the thread that runs it.
//!
//! A case in which the process is ended by a signal (stack overflow, abort, bad memory access) is a violation as well.
//!
//! The verdicts do not depend on wall-clock time: an endless loop is recognised by the CPU time its thread has used in
//! one case (cases normally use milliseconds), a deadlock by the whole process not using any CPU for a minute.
use crate::engine::{write_replay, Tier};
use serde_json::{json, Value};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Duration;

const CPU_LIMIT_NS: i128 = 90_000_000_000;
const PROCESS_CPU_LIMIT_NS: i128 = 200_000_000_000;
const IDLE_TICKS: u32 = 60;
const RSS_LIMIT: u64 = 14 << 30;

struct Entry {
    seq: u64,
    sub: &'static str,
    case: String,
    clock: libc::clockid_t,
    cpu0: i128,
    /// For cases that run alone: the CPU time of the whole process at their start.
    alone: bool,
    total0: i128,
}
static INFLIGHT: Mutex<(u64, Vec<Entry>)> = Mutex::new((0, Vec::new()));

fn cpu(clock: libc::clockid_t) -> Option<i128> {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    if unsafe { libc::syscall(libc::SYS_clock_gettime, clock, &mut t) } != 0 {
        return None;
    }
    Some(t.tv_sec as i128 * 1_000_000_000 + t.tv_nsec as i128)
}

const SLOTS: usize = 32;
/// The case texts of `INFLIGHT` again, for the signal handler (which must not lock or allocate).
static TEXT: [AtomicPtr<u8>; SLOTS] = [const { AtomicPtr::new(std::ptr::null_mut()) }; SLOTS];
static LEN: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
static SUB: [AtomicPtr<u8>; SLOTS] = [const { AtomicPtr::new(std::ptr::null_mut()) }; SLOTS];
static SUB_LEN: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
thread_local! { static SLOT: Cell<usize> = const { Cell::new(SLOTS) }; }
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static ID: AtomicPtr<&'static str> = AtomicPtr::new(std::ptr::null_mut());

pub struct Guard(u64);
pub fn begin(sub: &'static str, alone: bool, case: impl FnOnce() -> String) -> Guard {
    let mut clock = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
    let cpu0 = cpu(clock).unwrap_or(0);
    let total0 = cpu(libc::CLOCK_PROCESS_CPUTIME_ID).unwrap_or(0);
    let case = case();
    let mut g = INFLIGHT.lock().unwrap();
    if SLOT.get() == SLOTS {
        SLOT.set(NEXT_SLOT.fetch_add(1, Relaxed) % SLOTS);
    }
    let i = SLOT.get();
    LEN[i].store(0, SeqCst);
    TEXT[i].store(case.as_ptr() as *mut u8, SeqCst);
    SUB[i].store(sub.as_ptr() as *mut u8, SeqCst);
    SUB_LEN[i].store(sub.len(), SeqCst);
    LEN[i].store(case.len(), SeqCst);
    g.0 += 1;
    let seq = g.0;
    g.1.push(Entry { seq, sub, case, clock, cpu0, alone, total0 });
    Guard(seq)
}
impl Drop for Guard {
    fn drop(&mut self) {
        let mut g = INFLIGHT.lock().unwrap();
        LEN[SLOT.get()].store(0, SeqCst);
        let seq = self.0;
        g.1.retain(|e| e.seq != seq);
    }
}

extern "C" fn on_signal(sig: libc::c_int) {
    // Only async-signal-safe calls from here on.
    fn put(fd: i32, mut b: &[u8]) {
        while !b.is_empty() {
            let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
            if n <= 0 {
                return;
            }
            b = &b[n as usize..];
        }
    }
    unsafe {
        static ONCE: AtomicUsize = AtomicUsize::new(0);
        if ONCE.fetch_add(1, SeqCst) > 0 {
            loop {
                libc::pause();
            }
        }
        let mine = SLOT.try_with(|s| s.get()).unwrap_or(SLOTS);
        let slot = if mine < SLOTS && LEN[mine].load(SeqCst) > 0 { Some(mine) } else { (0..SLOTS).find(|i| LEN[*i].load(SeqCst) > 0) };
        let (id, Some(i)) = (ID.load(SeqCst), slot) else {
            libc::signal(sig, libc::SIG_DFL);
            libc::raise(sig);
            libc::_exit(4);
        };
        let id = *id;
        let sub = std::str::from_utf8_unchecked(std::slice::from_raw_parts(SUB[i].load(SeqCst), SUB_LEN[i].load(SeqCst)));
        let case = std::slice::from_raw_parts(TEXT[i].load(SeqCst), LEN[i].load(SeqCst));
        let num = [b'0' + (sig / 10) as u8, b'0' + (sig % 10) as u8];
        let mut path = [0u8; 128];
        let mut n = 0;
        for part in ["replays/", id, "-", sub, "-signal.json"] {
            path[n..n + part.len()].copy_from_slice(part.as_bytes());
            n += part.len();
        }
        let fd = libc::open(path.as_ptr() as *const _, libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY, 0o644);
        for part in [&b"{\"property\": \""[..], id.as_bytes(), b"\", \"sub\": \"", sub.as_bytes(), b"\", \"message\": \"the process was ended by signal ", &num, b"\", \"case\": ", case, b"}\n"] {
            put(fd, part);
        }
        for part in [&b"  "[..], sub.as_bytes(), b": the process was ended by signal ", &num, b"\nVIOLATION property=", id.as_bytes(), b" replay=", &path[..n], b"\n"] {
            put(1, part);
        }
        libc::_exit(1);
    }
}

fn rss() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}

pub fn start(id: &'static str, level: &'static str, tier: Tier, seed: u64, limit: u64) {
    ID.store(Box::leak(Box::new(id)), SeqCst);
    std::fs::create_dir_all("replays").unwrap();
    for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP] {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(sig, &a, std::ptr::null_mut());
        }
    }
    std::thread::spawn(move || {
        let violation = |e: &Entry, why: &str| -> ! {
            let case: Value = serde_json::from_str(&e.case).unwrap();
            let path = write_replay(id, e.sub, why, &case, None);
            let ev = json!({
                "property": id, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": seed,
                "level": level, "wall_s": 0.0, "violations": 1,
                "coverage": {"evaluations": e.seq, "distinct_nontrivial": 0, "samples": [case],
                             "rule": "run cut short: a case never ended"},
            });
            let _ = std::fs::create_dir_all("evidence");
            let _ = std::fs::write(format!("evidence/{}.json", id), ev.to_string());
            println!("  {}: {}", e.sub, why);
            println!("VIOLATION property={} replay={}", id, path);
            std::process::exit(1);
        };
        let (mut ticks, mut idle, mut idle_seq, mut last) = (0u64, 0, 0, 0);
        loop {
            std::thread::sleep(Duration::from_millis(100));
            ticks += 1;
            if rss() > RSS_LIMIT {
                let g = INFLIGHT.lock().unwrap();
                if let Some(e) = g.1.first() {
                    violation(e, "memory use grows without bound");
                }
            }
            if ticks % 10 != 0 {
                continue;
            }
            let total = cpu(libc::CLOCK_PROCESS_CPUTIME_ID).unwrap_or(0);
            let g = INFLIGHT.lock().unwrap();
            for e in &g.1 {
                if let Some(now) = cpu(e.clock) {
                    if now - e.cpu0 > CPU_LIMIT_NS {
                        violation(e, "the case uses CPU without ever ending");
                    }
                }
                if e.alone && total - e.total0 > PROCESS_CPU_LIMIT_NS {
                    violation(e, "the case's threads use CPU without ever ending");
                }
            }
            let oldest = g.1.first().map_or(0, |e| e.seq);
            if oldest != 0 && oldest == idle_seq && total - last < 20_000_000 {
                idle += 1;
                if idle >= IDLE_TICKS {
                    violation(&g.1[0], "the case is stuck: no thread makes progress");
                }
            } else {
                idle = 0;
            }
            idle_seq = oldest;
            last = total;
            drop(g);
            if ticks / 10 > limit {
                eprintln!("error: time limit of {} s reached: inconclusive", limit);
                std::process::exit(3);
            }
        }
    });
}
