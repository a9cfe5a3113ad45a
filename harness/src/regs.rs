//! Small concurrent programs over whole gatherers: threads make, use, relabel and drop metrics, register collectors and
//! gather, taking turns by a plan. What was there throughout a gather must be in it, once and with a possible value; what
//! was gone before it began must not; all of it as it was built; each collector is asked exactly once.
use crate::clock;
use crate::engine::*;
use crate::promtext as pt;
use crate::turns::{self, *};
use crate::world::*;
use prometrics::metric::Metric;
use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, Collect, Gatherer, Registry};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Op {
    /// A metric: of which kind and family, and in which of two gatherers.
    Make(u8, u8),
    /// Another one with the identity of one of this thread's own.
    Twin(u8),
    Update(u8),
    Relabel(u8, u8),
    /// Drops one of this thread's handles.
    Drop(u8),
    /// A collector that answers so many times, in one gatherer.
    Collector(u8, u8),
    Gather(u8),
    /// Gathers and renders.
    Text(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// The first gatherer is the default one.
    default: bool,
    /// Metrics made before, with a handle for each thread.
    start: Vec<(u8, u8)>,
    /// Whether the program as a whole keeps handles of them.
    keep: bool,
    a: Vec<Op>,
    b: Vec<Op>,
    c: Vec<Op>,
    plan: Vec<Switch>,
    /// So many threads that do what is above in turn, by a plan made from this.
    #[serde(default)]
    many: Option<turns::Many>,
}
pub const LISTS: &[&str] = &["/plan", "/start", "/a", "/b", "/c"];
pub const RULE: &str = "threads take turns by a generated plan so that a gather overlaps with something being made, dropped, registered, updated or relabelled, or with another gather";
#[derive(Clone, Copy, PartialEq)]
pub enum About {
    Lives,
    Collectors,
    All,
}
pub fn strategy(about: About, default: bool) -> BoxedStrategy<Case> {
    let (make, twin, update, relabel, collector) = match about {
        About::Lives => (4, 1, 1, 0, 1),
        About::Collectors => (1, 0, 1, 0, 5),
        About::All => (3, 1, 3, 2, 1),
    };
    let op = move |gathers: u32| {
        let i = || any::<u8>();
        prop_oneof![
            make => (i(), i()).prop_map(|(k, g)| Op::Make(k, g)),
            twin => i().prop_map(Op::Twin),
            update => i().prop_map(Op::Update),
            relabel => (i(), i()).prop_map(|(x, l)| Op::Relabel(x, l)),
            3 => i().prop_map(Op::Drop),
            collector => (0u8..4, i()).prop_map(|(n, g)| Op::Collector(n, g)),
            gathers => (0u8..2).prop_map(Op::Gather),
            gathers => (0u8..2).prop_map(Op::Text),
        ]
        .boxed()
    };
    let l = move |g| prop::collection::vec(op(g), 1..6).boxed();
    let lists = (1u32..5, 1u32..5).prop_flat_map(move |(x, y)| (l(x), l(y), prop_oneof![2 => Just(vec![]).boxed(), 1 => l(2)]));
    (prop::collection::vec(any::<(u8, u8)>(), 0..5), any::<bool>(), lists, turns::plan(false))
        .prop_map(move |(start, keep, (a, b, c), plan)| Case { default, start, keep, a, b, c, plan, many: None })
        .boxed()
}

/// Up to hundreds of threads that do a little each.
pub fn many() -> BoxedStrategy<Case> {
    (strategy(About::All, false), turns::many())
        .prop_map(|(mut c, m)| {
            c.many = Some(m);
            c.plan.clear();
            c.start.truncate(2);
            [&mut c.a, &mut c.b, &mut c.c].into_iter().for_each(|l| l.truncate(3));
            c
        })
        .boxed()
}
/// Several threads are the first to use the default registry, by all ways there are (in processes of their own).
pub fn first() -> BoxedStrategy<Case> {
    let op = || {
        prop_oneof![
            5 => (any::<u8>(), any::<u8>()).prop_map(|(k, g)| Op::Make(k, 2 * (g & 1))),
            1 => any::<u8>().prop_map(|n| Op::Collector(n % 4, 0)),
            1 => Just(Op::Gather(0)),
            1 => Just(Op::Text(0)),
        ]
        .boxed()
    };
    let l = move || prop::collection::vec(op(), 1..3).boxed();
    (l(), l(), l(), any::<bool>(), 2u16..9, turns::many())
        .prop_map(|(a, b, c, keep, n, mut m)| {
            m.0 = n;
            Case { default: true, start: vec![], keep, a, b, c, plan: vec![], many: Some(m) }
        })
        .boxed()
}
/// An identity and the gatherers of one metric of it.
#[derive(Clone, Debug)]
struct About1 {
    serial: usize,
    kind: Kind,
    name: String,
    id: String,
    /// Gatherers, as bits.
    mask: u8,
    twins: bool,
}
#[derive(Clone, Debug)]
enum Rec {
    Made(About1),
    Dropped(usize),
    Updated(usize),
    Relabelled,
    Registered(usize, u8),
    Gathered(Box<Gather>),
}
#[derive(Clone, Debug)]
struct Gather {
    g: u8,
    /// When the gather itself was over (its result lives on until the end).
    mid: u64,
    /// By kind, family and identifying label.
    api: BTreeMap<(Kind, String, String), Vec<f64>>,
    text: Option<BTreeMap<(Kind, String, String), Vec<f64>>>,
    /// The collectors asked, and whether they ended.
    asked: Vec<(usize, bool)>,
}
struct World {
    own: Vec<Mutex<Gatherer>>,
    default: bool,
    order: Order,
    serials: AtomicUsize,
    collectors: AtomicUsize,
    /// What collectors were asked, by gatherer.
    asked: [Mutex<Vec<(usize, bool)>>; 2],
}
impl World {
    fn gatherer(&self, g: u8) -> MutexGuard<'_, Gatherer> {
        if self.default && g == 0 { default_gatherer() } else { &self.own[g as usize] }.lock().unwrap_or_else(|e| e.into_inner())
    }
}
struct Answers {
    k: usize,
    g: u8,
    left: u8,
    world: Arc<World>,
}
impl Collect for Answers {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        let ended = self.left == 0;
        self.world.asked[self.g as usize].lock().unwrap().push((self.k, ended));
        if ended {
            return None;
        }
        self.left -= 1;
        Some(vec![GaugeBuilder::new("custom").label("m", &self.k.to_string()).finish().unwrap().into()].into_iter())
    }
}
fn make(a: &About1, regs: &[Option<Registry>; 2]) -> Metric {
    macro_rules! go {
        ($b:expr) => {{
            let mut b = $b;
            b.label("m", &a.id).label("l", "1").label("n", "2").help("made");
            for g in 0..2 {
                if a.mask & 1 << g != 0 {
                    match &regs[g] {
                        Some(r) => b.registry(r.clone()),
                        None if a.serial % 2 == 0 => b.registry(default_registry()),
                        None => b.default_registry(),
                    };
                }
            }
            Metric::from(b.finish().expect("valid"))
        }};
    }
    match a.kind {
        Kind::Counter => go!(CounterBuilder::new(&a.name)),
        Kind::Gauge => go!(GaugeBuilder::new(&a.name)),
        Kind::Hist => go!({
            let mut b = HistogramBuilder::new(&a.name);
            b.bucket(1.0).bucket(2.0);
            b
        }),
        Kind::Summary => go!({
            let mut b = SummaryBuilder::new(&a.name, HOUR);
            b.quantile(0.5).quantile(1.0);
            b
        }),
    }
}
/// A metric is never seen half made: what it was built with is there from the first gather on.
fn whole(labels: &BTreeMap<String, String>, relabels: bool) -> bool {
    labels.get("l").map_or(false, |v| v == "1") && labels.get("n").map_or(false, |v| v == "2") && (relabels || labels.len() == 3)
}
fn value(v: &pt::Val) -> f64 {
    match v {
        pt::Val::Scalar(v) => *v,
        pt::Val::Hist(_, _, c) | pt::Val::Summary(_, _, c) => *c,
    }
}
struct Player {
    world: Arc<World>,
    regs: [Option<Registry>; 2],
    own: Vec<(About1, Metric)>,
    log: Vec<Done<Rec>>,
    relabels: bool,
}
impl Player {
    fn did(&mut self, begin: u64, op: Rec) {
        let end = self.world.order.tick();
        turns::point();
        self.log.push(Done { begin, end, op });
    }
    fn begin(&self) -> u64 {
        turns::point();
        self.world.order.tick()
    }
    fn made(&mut self, a: About1) {
        let b = self.begin();
        let m = make(&a, &self.regs);
        self.did(b, Rec::Made(a.clone()));
        self.own.push((a, m));
    }
    fn gather(&mut self, g: u8, text: bool) -> R {
        let world = self.world.clone();
        let mut gatherer = world.gatherer(g);
        world.asked[g as usize].lock().unwrap().clear();
        let begin = self.begin();
        let got = gatherer.gather();
        let mid = self.world.order.tick();
        turns::point();
        let asked = std::mem::take(&mut *world.asked[g as usize].lock().unwrap());
        let mut api: BTreeMap<_, Vec<f64>> = BTreeMap::new();
        let mut families = BTreeSet::new();
        for f in got.as_ref() {
            let (kind, name) = (Kind::of(f.kind()), f.name().to_string());
            ensure!(families.insert((kind, name.clone())), "the family {:?} is there twice", (kind, name));
            ensure!(name == "custom" || f.help() == Some("made"), "{:?} is gathered with the help {:?}", (kind, &name), f.help());
            for s in api_series(f) {
                ensure!(name == "custom" || whole(&s.labels, self.relabels), "{:?} is gathered with the labels {:?} only", (kind, &name), s.labels);
                let parts = match &s.val {
                    pt::Val::Hist(b, _, _) => b.len() == 3,
                    pt::Val::Summary(q, _, _) => q.is_empty() || q.len() == 2,
                    pt::Val::Scalar(_) => true,
                };
                ensure!(parts, "{:?} is gathered with part of its buckets or quantiles only: {:?}", (kind, &name), s.val);
                api.entry((kind, name.clone(), s.labels.get("m").cloned().unwrap_or_default())).or_default().push(value(&s.val));
            }
        }
        let text = if text {
            let t = got.to_text();
            let mut all: BTreeMap<_, Vec<f64>> = BTreeMap::new();
            let mut read = || -> R {
                for f in pt::parse(&t)? {
                    let kind = *KINDS.iter().find(|k| k.word() == f.kind).ok_or("unknown kind")?;
                    for s in pt::series(&f)? {
                        ensure!(f.name == "custom" || whole(&s.labels, self.relabels), "{:?} is rendered with the labels {:?} only", (kind, &f.name), s.labels);
                        all.entry((kind, f.name.clone(), s.labels.get("m").cloned().unwrap_or_default())).or_default().push(value(&s.val));
                    }
                }
                Ok(())
            };
            match read() {
                // A histogram that is relabelled while it is rendered cannot be read back.
                Err(_) if self.relabels => None,
                r => {
                    r.map_err(|e| format!("{}\nin:\n{}", e, t))?;
                    Some(all)
                }
            }
        } else {
            None
        };
        drop(got);
        self.did(begin, Rec::Gathered(Box::new(Gather { g, mid, api, text, asked })));
        drop(gatherer);
        turns::point();
        Ok(())
    }
    fn play(mut self, ops: &[Op]) -> Result<Vec<Done<Rec>>, String> {
        for o in ops {
            let n = self.own.len();
            match *o {
                Op::Make(k, g) => {
                    let serial = self.world.serials.fetch_add(1, SeqCst);
                    let name = format!("f{}", k / 4 % 2);
                    self.made(About1 { serial, kind: KINDS[k as usize % 4], name, id: serial.to_string(), mask: 1 + g % 3, twins: g & 128 != 0 });
                }
                Op::Twin(i) if n > 0 => {
                    let mut a = self.own[i as usize % n].0.clone();
                    if a.twins {
                        a.serial = self.world.serials.fetch_add(1, SeqCst);
                        self.made(a);
                    }
                }
                Op::Update(i) if n > 0 => {
                    let b = self.begin();
                    let (a, m) = &self.own[i as usize % n];
                    match m {
                        Metric::Counter(m) => m.increment(),
                        Metric::Gauge(m) => m.increment(),
                        Metric::Histogram(m) => m.observe(1.0),
                        Metric::Summary(m) => m.observe(1.0),
                    }
                    let s = a.serial;
                    self.did(b, Rec::Updated(s));
                }
                Op::Relabel(i, l) if n > 0 => {
                    let i = i as usize % n;
                    if !self.own[i].0.twins {
                        let b = self.begin();
                        labels_mut(&mut self.own[i].1, |x| {
                            // Names on both sides of "m", so that the place in the order changes.
                            let name = ["a", "b", "x", "z"][l as usize % 4];
                            if l & 16 == 0 {
                                x.insert(name, &(l >> 5).to_string()).expect("valid");
                            } else {
                                x.remove(name);
                            }
                        });
                        self.did(b, Rec::Relabelled);
                    }
                }
                Op::Drop(i) if n > 0 => self.drop(i as usize % n),
                Op::Collector(left, g) => {
                    let (k, g) = (self.world.collectors.fetch_add(1, SeqCst), g % 2);
                    let c = Answers { k, g, left, world: self.world.clone() };
                    let b = self.begin();
                    self.regs[g as usize].clone().unwrap_or_else(default_registry).register(c);
                    self.did(b, Rec::Registered(k, g));
                }
                Op::Gather(g) => self.gather(g % 2, false)?,
                Op::Text(g) => self.gather(g % 2, true)?,
                _ => {}
            }
        }
        while !self.own.is_empty() {
            self.drop(0);
        }
        Ok(self.log)
    }
    fn drop(&mut self, i: usize) {
        let (a, m) = self.own.swap_remove(i);
        let b = self.begin();
        drop(m);
        self.did(b, Rec::Dropped(a.serial));
    }
}
fn judge(log: &[Done<Rec>], handles: &BTreeMap<usize, usize>) -> Result<bool, String> {
    struct Life {
        made: (u64, u64),
        about: About1,
        /// When the last handle began to be dropped, and when it was.
        last: Option<(u64, u64)>,
        updates: Vec<(u64, u64)>,
    }
    let mut lives: BTreeMap<usize, Life> = BTreeMap::new();
    for d in log {
        if let Rec::Made(a) = &d.op {
            lives.insert(a.serial, Life { made: (d.begin, d.end), about: a.clone(), last: None, updates: vec![] });
        }
    }
    let mut dropped: BTreeMap<usize, Vec<(u64, u64)>> = BTreeMap::new();
    let mut registered: BTreeMap<usize, (u64, u64, u8)> = BTreeMap::new();
    let mut gathers: Vec<(&Done<Rec>, &Gather)> = vec![];
    for d in log {
        match &d.op {
            Rec::Dropped(s) => dropped.entry(*s).or_default().push((d.begin, d.end)),
            Rec::Updated(s) => lives.get_mut(s).unwrap().updates.push((d.begin, d.end)),
            Rec::Registered(k, g) => drop(registered.insert(*k, (d.begin, d.end, *g))),
            Rec::Gathered(g) => gathers.push((d, g)),
            _ => {}
        }
    }
    for (s, v) in dropped {
        if v.len() == handles.get(&s).copied().unwrap_or(1) {
            lives.get_mut(&s).unwrap().last = Some((v.iter().map(|x| x.0).max().unwrap(), v.iter().map(|x| x.1).max().unwrap()));
        }
    }
    gathers.sort_by_key(|g| g.0.begin);
    let mut ended: BTreeSet<usize> = BTreeSet::new();
    let mut overlapping = false;
    for (d, g) in &gathers {
        overlapping |= log.iter().any(|o| o.begin < d.end && o.end > d.begin && !std::ptr::eq(o, *d));
        // What must, may, and must not be there: by identity, how many at least and at most, and the values.
        struct Want {
            must: bool,
            may: bool,
            lo: f64,
            hi: f64,
        }
        let mut want: BTreeMap<(Kind, String, String), Want> = BTreeMap::new();
        for l in lives.values().filter(|l| l.about.mask & 1 << g.g != 0) {
            let throughout = l.made.1 < d.begin && l.last.map_or(true, |x| x.0 > g.mid);
            // Other gathers may hold it a while longer.
            let gone = l.last.map(|x| {
                let mut dead = x.1;
                while let Some(o) = gathers.iter().find(|o| o.0.begin < dead && o.0.end > dead) {
                    dead = o.0.end;
                }
                dead
            });
            let may = l.made.0 < g.mid && gone.map_or(true, |t| t >= d.begin);
            let w = want.entry((l.about.kind, l.about.name.clone(), l.about.id.clone())).or_insert(Want { must: false, may: false, lo: 0.0, hi: 0.0 });
            w.must |= throughout;
            w.may |= may;
            if throughout {
                w.lo += l.updates.iter().filter(|u| u.1 < d.begin).count() as f64;
            }
            if may {
                w.hi += l.updates.iter().filter(|u| u.0 < d.end).count() as f64;
            }
        }
        // Collectors, and what they give.
        for (k, (b, e, _)) in registered.iter().filter(|r| r.1 .2 == g.g) {
            let n = g.asked.iter().filter(|a| a.0 == *k).count();
            let (lo, hi) = if ended.contains(k) || *b > g.mid { (0, 0) } else { (usize::from(*e < d.begin), 1) };
            ensure!(n >= lo && n <= hi, "collector {} (registered at {:?}, ended: {}) was asked {} times by the gather at {:?}", k, (b, e), ended.contains(k), n, (d.begin, g.mid));
            let there = g.asked.contains(&(*k, false));
            want.insert((Kind::Gauge, "custom".into(), k.to_string()), Want { must: there, may: there, lo: 0.0, hi: 0.0 });
        }
        for (k, end) in &g.asked {
            ensure!(registered.get(k).map_or(false, |r| r.2 == g.g), "collector {} is asked by a gatherer it is not registered with", k);
            if *end {
                ended.insert(*k);
            }
        }
        for (how, seen) in [Some(("gathered", &g.api)), g.text.as_ref().map(|t| ("rendered", t))].into_iter().flatten() {
            for (key, w) in &want {
                let n = seen.get(key).map_or(0, |v| v.len());
                let ctx = || format!("{:?} in gatherer {} at {:?}; history:\n{:?}", key, g.g, (d.begin, g.mid, d.end), log);
                ensure!(n > 0 || !w.must, "there throughout but not {}: {}", how, ctx());
                ensure!(n == 0 || w.may, "gone before, or not yet made, but {}: {}", how, ctx());
                ensure!(n <= 1, "{} {} times: {}", how, n, ctx());
                for v in seen.get(key).into_iter().flatten() {
                    ensure!(*v >= w.lo && *v <= w.hi, "{} as {}, which is not between {} and {}: {}", how, v, w.lo, w.hi, ctx());
                }
            }
            for key in seen.keys() {
                ensure!(want.contains_key(key), "{:?} is {} by gatherer {}, which it does not belong to", key, how, g.g);
            }
        }
    }
    Ok(overlapping)
}
pub fn oracle(c: &Case, cx: &mut Cx) -> R {
    // (The search may make long programs of short ones.)
    let mut threads: Vec<&[Op]> = [&c.a, &c.b, &c.c].into_iter().filter(|t| !t.is_empty()).map(|t| &t[..t.len().min(60)]).collect();
    let mut plan = c.plan.clone();
    if let Some(m) = &c.many {
        threads = m.threads(threads);
        plan = m.plan();
        cx.class_if(threads.len() > 64, "more than 64 threads");
    }
    if threads.is_empty() {
        return Ok(());
    }
    let relabels = threads.iter().any(|t| t.iter().any(|o| matches!(o, Op::Relabel(..))));
    let world = Arc::new(World {
        own: (0..2).map(|_| Mutex::new(Gatherer::new())).collect(),
        default: c.default,
        order: Order::new(),
        serials: AtomicUsize::new(0),
        collectors: AtomicUsize::new(0),
        asked: Default::default(),
    });
    if c.default && !FRESH.load(SeqCst) {
        // What a failing case may have left.
        for _ in 0..6 {
            drop(world.gatherer(0).gather());
        }
    }
    let regs = || [if c.default { None } else { Some(world.own[0].lock().unwrap().registry()) }, Some(world.own[1].lock().unwrap().registry())];
    let player = || Player { world: world.clone(), regs: regs(), own: vec![], log: vec![], relabels };
    let mut main = player();
    let mut handles = BTreeMap::new();
    for &(k, g) in &c.start {
        let serial = world.serials.fetch_add(1, SeqCst);
        main.made(About1 { serial, kind: KINDS[k as usize % 4], name: format!("f{}", k / 4 % 2), id: serial.to_string(), mask: 1 + g % 3, twins: g & 128 != 0 });
        handles.insert(serial, threads.len() + usize::from(c.keep));
    }
    let bodies: Vec<Body<_>> = threads
        .iter()
        .map(|ops| {
            let ops = ops.to_vec();
            let mut p = player();
            p.own = main.own.clone();
            Box::new(move || p.play(&ops)) as Body<_>
        })
        .collect();
    if !c.keep {
        main.own.clear();
    }
    let time = Arc::new(clock::Shared::new());
    let played = turns::play(&time, &plan, bodies)?;
    let last = if c.keep { &[Op::Text(0), Op::Text(1)][..] } else { &[] };
    let kept = std::mem::take(&mut main.own);
    let keepers: Vec<_> = kept.iter().map(|k| k.0.serial).collect();
    for o in last {
        let Op::Text(g) = o else { unreachable!() };
        main.gather(*g, true)?;
    }
    drop(kept);
    for s in keepers {
        let t = main.begin();
        main.did(t, Rec::Dropped(s));
    }
    // All is gone; collectors end one after the other.
    for _ in 0..6 {
        main.gather(0, true)?;
        main.gather(1, true)?;
    }
    let mut log = main.log;
    for l in played.results {
        log.extend(l);
    }
    log.sort_by_key(|d| d.begin);
    let overlapping = judge(&log, &handles)?;
    let gathers = log.iter().filter(|d| matches!(d.op, Rec::Gathered(_))).count();
    cx.class_if(relabels && overlapping, "with relabelling");
    cx.class_if(played.stats.blocked > 0, "a thread waits for a lock");
    cx.nontrivial(overlapping && gathers > 12 && log.iter().any(|d| matches!(d.op, Rec::Made(_) | Rec::Registered(..))));
    Ok(())
}
