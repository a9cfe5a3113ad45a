//! Gathering survives and stays complete under concurrent changes.
use crate::engine::*;
use crate::promtext as pt;
use crate::world::*;
use prometrics::metric::Metric;
use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, Collect, Gatherer, Registry};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Op {
    /// A metric of this kind in one of a few shared families.
    Create(Kind, u8),
    /// Another metric with exactly the identity of one made before.
    Twin(u8),
    Update(u8),
    /// Gives and takes away labels besides the identifying one.
    Relabel(u8, u8),
    Drop(u8),
    /// A custom collector that ends after so many gathers.
    Collector(u8),
    Yield,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    workers: Vec<Vec<Op>>,
    gatherers: u8,
    /// How often each worker goes through its operations.
    rounds: u8,
    /// Make metrics through a registry clone per worker, or through one that all share.
    shared: bool,
    /// How often the gatherers gather at least.
    gathers: u8,
    /// The last gatherer is the default one.
    #[serde(default)]
    default: bool,
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        4 => (kind(), 0u8..3).prop_map(|(k, f)| Op::Create(k, f)),
        1 => any::<u8>().prop_map(Op::Twin),
        4 => any::<u8>().prop_map(Op::Update),
        5 => (any::<u8>(), any::<u8>()).prop_map(|(i, l)| Op::Relabel(i, l)),
        2 => any::<u8>().prop_map(Op::Drop),
        1 => (0u8..4).prop_map(Op::Collector),
        1 => Just(Op::Yield),
    ]
    .boxed()
}
fn strategy(default: bool) -> BoxedStrategy<Case> {
    (prop::collection::vec(prop::collection::vec(op(), 3..40), 1..6), 1u8..3, 3u8..30, any::<bool>(), 5u8..40)
        .prop_map(move |(workers, gatherers, rounds, shared, gathers)| Case { workers, gatherers, rounds, shared, gathers, default })
        .boxed()
}
/// What everyone can know about one identity: a kind, a family, and an identifying label.
struct Ident {
    kind: Kind,
    name: String,
    id: String,
    /// Set once a metric of this identity has been built.
    registered: AtomicBool,
    /// Set before any metric of this identity is dropped.
    dropping: AtomicBool,
    /// Another metric is about to be given this identity, so its value may jump (only up).
    lo: AtomicU64,
    hi: AtomicU64,
}
struct Custom {
    registered: AtomicBool,
    /// Calls, by gatherer.
    calls: Vec<AtomicUsize>,
    ended: Vec<AtomicBool>,
}
#[derive(Default)]
struct World {
    idents: Mutex<Vec<Arc<Ident>>>,
    customs: Mutex<Vec<Arc<Custom>>>,
}
struct Counted {
    gatherer: usize,
    left: u8,
    custom: Arc<Custom>,
}
impl Collect for Counted {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.custom.calls[self.gatherer].fetch_add(1, Ordering::SeqCst);
        if self.left == 0 {
            self.custom.ended[self.gatherer].store(true, Ordering::SeqCst);
            return None;
        }
        self.left -= 1;
        Some(vec![].into_iter())
    }
}
enum Handle {
    C(Counter),
    G(Gauge),
    H(Histogram),
    S(Summary),
}
/// None: the default registry.
type Reg = Option<Registry>;
fn make(id: &Ident, regs: &[Reg], how: usize) -> Handle {
    macro_rules! go {
        ($b:expr, $v:path) => {{
            let mut b = $b;
            b.label("m", &id.id);
            for r in regs {
                match r {
                    Some(r) => b.registry(r.clone()),
                    None if how % 3 == 0 => b.registry(default_registry()),
                    None => b.default_registry(),
                };
            }
            $v(b.finish().expect("valid"))
        }};
    }
    if let ([None], 1) = (regs, how % 3) {
        // Through a common builder, which begins with the default registry.
        macro_rules! go {
            ($b:expr, $v:path) => {{
                let mut b = $b;
                b.label("m", &id.id);
                $v(b.finish().expect("valid"))
            }};
        }
        let b = MetricBuilder::new();
        return match id.kind {
            Kind::Counter => go!(b.counter(&id.name), Handle::C),
            Kind::Gauge => go!(b.gauge(&id.name), Handle::G),
            Kind::Hist => go!(b.histogram(&id.name), Handle::H),
            Kind::Summary => go!(b.summary(&id.name, HOUR), Handle::S),
        };
    }
    match id.kind {
        Kind::Counter => go!(CounterBuilder::new(&id.name), Handle::C),
        Kind::Gauge => go!(GaugeBuilder::new(&id.name), Handle::G),
        Kind::Hist => go!(HistogramBuilder::new(&id.name), Handle::H),
        Kind::Summary => go!(SummaryBuilder::new(&id.name, HOUR), Handle::S),
    }
}
fn bump(h: &Handle) {
    match h {
        Handle::C(m) => m.increment(),
        Handle::G(m) => m.increment(),
        Handle::H(m) => m.observe(1.0),
        Handle::S(m) => m.observe(1.0),
    }
}
fn relabel(h: &mut Handle, how: u8) {
    let f = |l: &mut prometrics::label::LabelsMut| {
        // Names on both sides of "m", so that the metric's place in the order changes.
        let name = ["a", "b", "x", "z"][how as usize % 4];
        if how & 16 == 0 {
            l.insert(name, &(how >> 5).to_string()).expect("valid");
        } else {
            l.remove(name);
        }
    };
    match h {
        Handle::C(m) => f(&mut m.labels_mut()),
        Handle::G(m) => f(&mut m.labels_mut()),
        Handle::H(m) => f(&mut m.labels_mut()),
        Handle::S(m) => f(&mut m.labels_mut()),
    }
}
fn worker(w: usize, ops: &[Op], rounds: u8, world: &World, regs: &[Reg]) {
    // A handle, its identity, and whether it may be relabelled (twins may not: they are to stay of one identity).
    let mut own: Vec<(Handle, Arc<Ident>, bool)> = vec![];
    let mut made = 0;
    for round in 0..rounds {
        for op in ops {
            let pick = |i: u8, n: usize| (i as usize + round as usize) % n;
            match *op {
                Op::Create(kind, f) if own.len() < 60 => {
                    made += 1;
                    let ident = Arc::new(Ident {
                        kind,
                        name: format!("f{}", f),
                        id: format!("{}_{}", w, made),
                        registered: AtomicBool::new(false),
                        dropping: AtomicBool::new(false),
                        lo: AtomicU64::new(0),
                        hi: AtomicU64::new(0),
                    });
                    world.idents.lock().unwrap().push(ident.clone());
                    let h = make(&ident, regs, made + round as usize);
                    ident.registered.store(true, Ordering::SeqCst);
                    own.push((h, ident, made % 2 == 0));
                }
                Op::Twin(i) if !own.is_empty() && own.len() < 60 => {
                    let i = pick(i, own.len());
                    if !own[i].2 && !own[i].1.dropping.load(Ordering::SeqCst) {
                        let ident = own[i].1.clone();
                        let h = make(&ident, regs, made + round as usize);
                        own.push((h, ident, false));
                    }
                }
                Op::Update(i) if !own.is_empty() => {
                    let (h, ident, _) = &own[pick(i, own.len())];
                    ident.hi.fetch_add(1, Ordering::SeqCst);
                    bump(h);
                    ident.lo.fetch_add(1, Ordering::SeqCst);
                }
                Op::Relabel(i, l) if !own.is_empty() => {
                    let i = pick(i, own.len());
                    if own[i].2 {
                        relabel(&mut own[i].0, l.wrapping_add(round.wrapping_mul(37)));
                    }
                }
                Op::Drop(i) if !own.is_empty() => {
                    let i = pick(i, own.len());
                    own[i].1.dropping.store(true, Ordering::SeqCst);
                    own.swap_remove(i);
                }
                Op::Collector(left) => {
                    let mut customs = world.customs.lock().unwrap();
                    if customs.len() < 400 {
                        let custom = Arc::new(Custom {
                            registered: AtomicBool::new(false),
                            calls: regs.iter().map(|_| AtomicUsize::new(0)).collect(),
                            ended: regs.iter().map(|_| AtomicBool::new(false)).collect(),
                        });
                        customs.push(custom.clone());
                        drop(customs);
                        for (gatherer, r) in regs.iter().enumerate() {
                            r.clone().unwrap_or_else(default_registry).register(Counted { gatherer, left, custom: custom.clone() });
                        }
                        custom.registered.store(true, Ordering::SeqCst);
                    }
                }
                Op::Yield => std::thread::yield_now(),
                _ => {}
            }
        }
    }
    // Everything else goes away at the end of the worker.
    for o in &own {
        o.1.dropping.store(true, Ordering::SeqCst);
    }
}
struct Before {
    ident: Arc<Ident>,
    lo: u64,
}
/// One gather with its checks; returns how many identities were there throughout.
fn one(g: &mut Gatherer, me: usize, world: &World) -> Result<(usize, bool), String> {
    let snapshot: Vec<Before> = world
        .idents
        .lock()
        .unwrap()
        .iter()
        .filter(|i| i.registered.load(Ordering::SeqCst) && !i.dropping.load(Ordering::SeqCst))
        .map(|i| Before { ident: i.clone(), lo: i.lo.load(Ordering::SeqCst) })
        .collect();
    let customs: Vec<(Arc<Custom>, usize, bool)> = world
        .customs
        .lock()
        .unwrap()
        .iter()
        .filter(|c| c.registered.load(Ordering::SeqCst))
        .map(|c| (c.clone(), c.calls[me].load(Ordering::SeqCst), c.ended[me].load(Ordering::SeqCst)))
        .collect();
    let got = g.gather();
    let text = got.to_text();
    for (c, calls, ended) in &customs {
        let now = c.calls[me].load(Ordering::SeqCst);
        let want = calls + usize::from(!ended);
        ensure!(now == want, "a registered collector was asked {} times in one gather (ended before: {})", now - calls, ended);
    }
    let alive: Vec<(Before, u64)> = snapshot.into_iter().filter(|b| !b.ident.dropping.load(Ordering::SeqCst)).map(|b| { let hi = b.ident.hi.load(Ordering::SeqCst); (b, hi) }).collect();
    // By kind, family and identifying label: the values found through the API and in the text.
    let mut api: BTreeMap<(Kind, String, String), Vec<pt::Val>> = BTreeMap::new();
    for f in got.as_ref() {
        for s in api_series(f) {
            let id = s.labels.get("m").cloned().unwrap_or_default();
            api.entry((Kind::of(f.kind()), f.name().to_string(), id)).or_default().push(s.val);
        }
    }
    let mut txt: BTreeMap<(Kind, String, String), Vec<pt::Val>> = BTreeMap::new();
    // A histogram or summary that is relabelled while its lines are being written cannot be read back as one series.
    let families = pt::parse(&text);
    let mut text_ok = false;
    if let Ok(fs) = &families {
        text_ok = true;
        for f in fs {
            match pt::series(f) {
                Ok(series) => {
                    for s in series {
                        let id = s.labels.get("m").cloned().unwrap_or_default();
                        let kind = *KINDS.iter().find(|k| k.word() == f.kind).unwrap();
                        txt.entry((kind, f.name.clone(), id)).or_default().push(s.val);
                    }
                }
                Err(_) => text_ok = false,
            }
        }
    }
    for (b, hi) in &alive {
        let i = &b.ident;
        let key = (i.kind, i.name.clone(), i.id.clone());
        for (what, found) in [("gathered", api.get(&key)), ("rendered", txt.get(&key))] {
            if what == "rendered" && !text_ok {
                continue;
            }
            let n = found.map_or(0, |f| f.len());
            ensure!(n == 1, "{:?} was registered before the gather and alive throughout, but is {} {} times", key, what, n);
            let v = match &found.unwrap()[0] {
                pt::Val::Scalar(v) => *v,
                pt::Val::Hist(_, _, c) => *c,
                pt::Val::Summary(_, _, c) => *c,
            };
            // The API numbers were read after the gather and before `hi`; the counters' and gauges' during it.
            ensure!(v >= b.lo as f64 && v <= i.hi.load(Ordering::SeqCst).max(*hi) as f64, "{:?} is {} as {:?}, which is not between {} and {}", key, what, v, b.lo, hi);
        }
    }
    Ok((alive.len(), text_ok))
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut gatherers: Vec<Mutex<Gatherer>> = (0..c.gatherers).map(|_| Mutex::new(Gatherer::new())).collect();
    if c.default {
        gatherers.pop();
        // What a failing case may have left.
        default_gatherer().clear_poison();
        default_gatherer().lock().map_err(|_| "poisoned")?.gather();
        let before = default_gatherer().lock().map_err(|_| "the default gatherer is poisoned")?.gather();
        ensure!(before.as_ref().is_empty(), "the default gatherer is not empty at the start of a case:\n{}", before.to_text());
    }
    let clones = || -> Vec<Reg> {
        let mut regs: Vec<Reg> = gatherers.iter().map(|g| Some(g.lock().unwrap().registry())).collect();
        if c.default {
            regs.push(None);
        }
        regs
    };
    let regs = clones();
    let all: Vec<&Mutex<Gatherer>> = gatherers.iter().chain(c.default.then(default_gatherer)).collect();
    let world = World::default();
    let running = AtomicUsize::new(c.workers.len());
    let barrier = Barrier::new(c.workers.len() + all.len());
    let failed = AtomicBool::new(false);
    let results: Vec<Result<(usize, usize, bool), String>> = std::thread::scope(|s| {
        for (w, ops) in c.workers.iter().enumerate() {
            // Sharing one set of registries would need them to be Sync; the alternatives are clones made here or there.
            let regs = if c.shared { regs.clone() } else { clones() };
            let (world, running, barrier, failed) = (&world, &running, &barrier, &failed);
            s.spawn(move || {
                barrier.wait();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(w, ops, c.rounds, world, &regs)));
                running.fetch_sub(1, Ordering::SeqCst);
                if r.is_err() {
                    failed.store(true, Ordering::SeqCst);
                }
            });
        }
        let hs: Vec<_> = all
            .iter()
            .enumerate()
            .map(|(me, g)| {
                let (world, running, barrier) = (&world, &running, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    let (mut racing, mut most, mut all_read, mut n) = (0, 0, true, 0);
                    loop {
                        let busy = running.load(Ordering::SeqCst) > 0;
                        let (alive, read) = guarded(|| {
                            let mut g = g.lock().map_err(|_| "poisoned")?;
                            one(&mut g, me, world)
                        })?;
                        // Lets others have the default gatherer's lock, too.
                        std::thread::yield_now();
                        most = most.max(alive);
                        all_read &= read;
                        n += 1;
                        if busy {
                            racing += 1;
                        }
                        if !busy && n >= c.gathers as usize || n > 400 {
                            return Ok((racing, most, all_read));
                        }
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    let mut nontrivial = false;
    for r in results {
        let (racing, most, all_read) = r?;
        nontrivial |= racing >= 2 && most >= 2;
        cx.class_if(c.default, "the default gatherer");
        cx.class_if(racing >= 5, "5 or more gathers while workers run");
        cx.class_if(most >= 20, "20 or more metrics alive throughout a gather");
        cx.class_if(!all_read, "a text with a series relabelled while being rendered");
    }
    ensure!(!failed.load(Ordering::SeqCst), "an operation on a metric panicked beside the gathers");
    // Everything is gone now (nothing a gather returned is held any more).
    for g in &all {
        let left = guarded(|| Ok(g.lock().map_err(|_| "poisoned")?.gather()))?;
        ensure!(left.as_ref().is_empty(), "after all handles are dropped there remains:\n{}", left.to_text());
    }
    cx.nontrivial(nontrivial);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C18",
        level: "exploration",
        assumptions: &["interleavings of 'threads' and 'default' are those the kernel happens to produce on this machine; those of the 'schedules' are generated, and sequentially consistent", "metrics being relabelled keep identities disjoint from all others"],
        subs: vec![
            sub("schedules", crate::regs::RULE, 72000, 1_000_000, || crate::regs::strategy(crate::regs::About::All, false), crate::regs::oracle).guide(crate::regs::LISTS),
            sub("many", crate::regs::RULE, 1_200, 60_000, crate::regs::many, crate::regs::oracle),
            sub_one("schedules-default", crate::regs::RULE, 9000, 100_000, || crate::regs::strategy(crate::regs::About::All, true), crate::regs::oracle),
            sub_threads("threads", "two or more gathers run beside the workers and see two or more metrics alive throughout", 600, 15_000, || strategy(false), oracle),
            sub_threads("default", "the same, where the last gatherer is the default one and metrics get there by all the ways there are", 300, 8_000, || strategy(true), oracle),
            sub_fresh("first", crate::regs::RULE, 6_000, 80_000, crate::regs::first, crate::regs::oracle),
            sub_fresh("fresh-schedules", crate::regs::RULE, 800, 12_000, || crate::regs::strategy(crate::regs::About::All, true), crate::regs::oracle),
        ],
    }
}
