//! Cases in which threads take turns by a generated plan (`cov::sched`): interleavings as inputs.
use crate::alloc::Group;
use crate::clock;
use crate::engine::guarded;
use cov::sched::{Game, Stats};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};

/// Run on for so many points, let so many ns pass, and switch to another thread.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Switch(u16, u8, u32);

/// Plans of few or many, far or close switches. `pauses`: time may pass while a thread is interrupted.
pub fn plan(pauses: bool) -> BoxedStrategy<Vec<Switch>> {
    let after = prop_oneof![
        3 => (0u32..12).prop_flat_map(|e| (1u16 << e)..=((2u32 << e) - 1) as u16),
        1 => 1u16..8,
    ];
    let pause = if pauses { prop_oneof![6 => Just(0u32), 1 => 1u32..1000, 1 => 1_000_000u32..2_000_000_000].boxed() } else { Just(0u32).boxed() };
    let one = (after, any::<u8>(), pause).prop_map(|(a, t, p)| Switch(a, t, p)).boxed();
    let scaled = |one: BoxedStrategy<Switch>, max: u16, len: std::ops::Range<usize>| {
        prop::collection::vec((one, 1..=max), len).prop_map(|v| v.into_iter().map(|(s, a)| Switch(a, s.1, s.2)).collect::<Vec<_>>()).boxed()
    };
    prop_oneof![
        4 => prop::collection::vec(one.clone(), 1..12),
        2 => prop::collection::vec(one.clone(), 8..60),
        2 => scaled(one.clone(), 6, 10..200),
        2 => scaled(one.clone(), 40, 4..100),
        2 => scaled(one, 300, 2..30),
    ]
    .boxed()
}

/// A plan of many switches, made from a seed: after 1..=max points each.
fn dense(seed: u64, max: u16, len: u16) -> Vec<Switch> {
    let mut x = seed;
    let mut next = |n: u64| {
        x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let z = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        let z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        (z ^ (z >> 31)) % n
    };
    (0..len).map(|_| Switch(1 + next(max.max(1).into()) as u16, next(256) as u8, 0)).collect()
}

/// Many threads, and a plan of many switches.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many(pub u16, u64, u16, u16);
impl Many {
    /// The programs of the threads: the given ones in turn.
    pub fn threads<T: Clone>(&self, programs: Vec<T>) -> Vec<T> {
        let n = if programs.is_empty() { 0 } else { self.0.min(300) as usize };
        programs.iter().cycle().take(n).cloned().collect()
    }
    pub fn plan(&self) -> Vec<Switch> {
        dense(self.1, self.2, self.3)
    }
}
pub fn many() -> BoxedStrategy<Many> {
    let threads = prop_oneof![2 => 4u16..20, 2 => 20u16..80, 1 => 80u16..260, 1 => prop::sample::select(crate::dict::sizes(256)).prop_map(|n| n as u16 + 2)];
    (threads, any::<u64>(), prop_oneof![2 => 1u16..8, 2 => 1u16..30, 1 => 1u16..200], 20u16..2000).prop_map(|(n, s, m, l)| Many(n, s, m, l)).boxed()
}

type Job = Box<dyn FnOnce() + Send>;
thread_local! { static POOL: RefCell<Vec<mpsc::Sender<Job>>> = const { RefCell::new(vec![]) }; }
fn worker() -> mpsc::Sender<Job> {
    let (tx, rx) = mpsc::channel::<Job>();
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || rx.into_iter().for_each(|j| j())).expect("thread");
    tx
}

/// Orders what the threads do: a number that grows with every look at it.
#[derive(Clone)]
pub struct Order(Arc<AtomicU64>);
impl Order {
    pub fn new() -> Order {
        Order(Arc::new(AtomicU64::new(1)))
    }
    pub fn tick(&self) -> u64 {
        self.0.fetch_add(1, SeqCst)
    }
}
/// Another thread may take its turn here (between two of the crate's operations).
pub fn point() {
    cov::sched::point()
}

pub struct Played<T> {
    pub results: Vec<T>,
    pub stats: Stats,
}
pub type Body<T> = Box<dyn FnOnce() -> Result<T, String> + Send>;
struct Ptr<T>(T);
unsafe impl<T> Send for Ptr<T> {}
/// Runs the bodies as threads that take turns by the plan, in a shared virtual time.
/// They own what they use, as a body that is stuck is abandoned. What they allocate counts for the caller's group, if any,
/// and what they do in the caller's coverage map.
pub fn play<T: Send + 'static>(clock: &Arc<clock::Shared>, plan: &[Switch], mut bodies: Vec<Body<T>>) -> Result<Played<T>, String> {
    let group = Group::current();
    let played = Group::without(|| {
        let n = bodies.len();
        let plan = plan.iter().map(|s| cov::sched::Switch { after: s.0.into(), to: s.1, pause: s.2.into() }).collect();
        let game = Game::new(n, plan, clock::pass);
        type Out<T> = Arc<Mutex<Vec<Option<Result<T, String>>>>>;
        let out: Out<T> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
        let mut workers: Vec<mpsc::Sender<Job>> = POOL.with(|p| {
            let mut p = p.borrow_mut();
            (0..n).map(|_| p.pop().unwrap_or_else(worker)).collect()
        });
        for (me, body) in bodies.drain(..).enumerate() {
            let (game, out, clock) = (game.clone(), out.clone(), clock.clone());
            let ptr = Ptr((cov::Map::current(), group));
            let job: Job = Box::new(move || {
                let Ptr((map, group)) = { ptr };
                let r = clock.with(|| {
                    game.enter(me);
                    unsafe { cov::Map::join(map) };
                    let run = || guarded(body);
                    let r = if group.is_null() { run() } else { unsafe { (*group).with(run) } };
                    unsafe { cov::Map::join(std::ptr::null_mut()) };
                    r
                });
                // Nothing of the caller's is held beyond this thread's turn.
                drop(clock);
                out.lock().unwrap()[me] = Some(r);
                game.leave(me);
            });
            workers[me].send(job).map_err(|_| "harness: a worker is gone")?;
        }
        // If it fails, the workers are stuck for good.
        let stats = game.run().map_err(|why| why.to_string())?;
        POOL.with(|p| p.borrow_mut().append(&mut workers));
        let results = std::mem::take(&mut *out.lock().unwrap());
        Ok::<_, String>((results, stats))
    });
    drop(bodies);
    let (out, stats) = played?;
    let mut results = Vec::with_capacity(out.len());
    Group::without(|| {
        for r in out {
            results.push(r.ok_or("harness: no result")??);
        }
        Ok::<_, String>(())
    })?;
    Ok(Played { results, stats })
}

/// An operation with the moments between which it happened.
#[derive(Clone, Debug)]
pub struct Done<O> {
    pub begin: u64,
    pub end: u64,
    pub op: O,
}
/// Is there an order of the operations, in which none comes before one that had ended when it began, and in which each
/// gives what it gave? `step` applies an operation to the state, if it gives what it gave.
pub fn linearizable<S: Clone + Ord, O>(ops: &[Done<O>], init: S, last: impl Fn(&S) -> bool, step: impl Fn(&S, &O) -> Option<S>) -> bool {
    assert!(ops.len() < 64);
    let all = (1u64 << ops.len()) - 1;
    let mut seen = std::collections::BTreeSet::new();
    let mut todo = vec![(0u64, init)];
    while let Some((done, s)) = todo.pop() {
        if done == all {
            if last(&s) {
                return true;
            }
            continue;
        }
        // An operation may come next if none of the others left had ended before it began.
        let first_end = (0..ops.len()).filter(|i| done & (1 << i) == 0).map(|i| ops[i].end).min().unwrap();
        for (i, o) in ops.iter().enumerate() {
            if done & (1 << i) == 0 && o.begin < first_end {
                if let Some(t) = step(&s, &o.op) {
                    let next = (done | 1 << i, t);
                    if seen.insert(next.clone()) {
                        todo.push(next);
                    }
                }
            }
        }
    }
    false
}
