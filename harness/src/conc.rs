//! Small concurrent programs over one or two metrics of one identity, their execution by a plan, and what must hold of
//! what they read: every read lies between what had certainly happened and what could have happened, successive reads do
//! not go back, a gauge's history is explained by some order of its operations, and in the end everything is accounted for.
use crate::alloc::Group;
use crate::clock;
use crate::engine::*;
use crate::gen::{raw, F};
use crate::promtext as pt;
use crate::turns::{self, *};
use crate::world::*;
use prometrics::metrics::*;
use prometrics::{Gatherer, Registry};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Changes a metric: how, which one, by what.
    Change(u8, u8, F),
    /// Reads it: how, which one.
    Read(u8, u8),
    /// Lets so many ns pass.
    Pass(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    /// Two metrics instead of one.
    twin: bool,
    bounds: Vec<F>,
    quantiles: Vec<F>,
    /// A summary's window, in ns.
    window: u64,
    /// A counter's value at the beginning.
    base: u64,
    a: Vec<Op>,
    b: Vec<Op>,
    c: Vec<Op>,
    plan: Vec<Switch>,
    /// So many threads that do what is above in turn, by a plan made from this.
    #[serde(default)]
    many: Option<turns::Many>,
}
/// How a change is made, by kind; `n` changes of each kind of metric.
const INC: u8 = 0;
fn op(kind: Kind, reads: u32, time: bool) -> BoxedStrategy<Op> {
    // Sums stay exact in every order.
    let v = prop_oneof![2 => (0u32..5).prop_map(|i| F(i as f64)), 1 => (0u32..4096).prop_map(|i| F(i as f64 / 16.0)), 1 => Just(F(0.5))];
    let how = match kind {
        Kind::Counter => 0u8..3,
        Kind::Gauge => 0u8..6,
        _ => 0u8..1,
    };
    let pass = prop_oneof![1 => Just(1u64), 2 => 1u64..2_000_000_000, 1 => Just(1_000_000_000u64)];
    prop_oneof![
        4 => (how, 0u8..2, v).prop_map(|(h, m, v)| Op::Change(h, m, v)),
        reads => (0u8..5, 0u8..2).prop_map(|(h, m)| Op::Read(h, m)),
        u32::from(time) => pass.prop_map(Op::Pass),
    ]
    .boxed()
}
pub fn strategy(kinds: &'static [Kind], time: bool) -> BoxedStrategy<Case> {
    let base = prop_oneof![8 => Just(0u64), 1 => 0u64..1000, 1 => Just(u64::MAX), 1 => (0u64..40).prop_map(|d| u64::MAX - d)];
    let lists = (prop::sample::select(kinds), 1u32..6).prop_flat_map(move |(kind, reads)| {
        let l = || prop::collection::vec(op(kind, reads, time), 1..6);
        (Just(kind), l(), l(), prop_oneof![2 => Just(vec![]).boxed(), 1 => l().boxed()])
    });
    let window = if time { prop_oneof![1 => Just(1_000_000_000u64), 1 => 1u64..3_000_000_000].boxed() } else { Just(3_600_000_000_000u64).boxed() };
    let bounds = prop::collection::vec((0i32..16).prop_map(|i| F(i as f64 / 2.0)), 0..5);
    let quantiles = prop::collection::vec((0u32..=8).prop_map(|i| F(i as f64 / 8.0)), 1..5);
    (lists, prop::bool::weighted(0.3), bounds, quantiles, window, base, turns::plan(time))
        .prop_map(|((kind, a, b, c), twin, bounds, quantiles, window, base, plan)| Case { kind, twin, bounds, quantiles, window, base, a, b, c, plan, many: None })
        .boxed()
}
/// Two metrics of one identity, gathered.
pub fn twins(kinds: &'static [Kind], time: bool) -> BoxedStrategy<Case> {
    let gather = |o: &mut Op| {
        if let Op::Read(how, _) = o {
            if *how < 3 {
                *how = 4
            }
        }
    };
    strategy(kinds, time)
        .prop_map(move |mut c| {
            c.twin = true;
            [&mut c.a, &mut c.b, &mut c.c].into_iter().flatten().for_each(gather);
            c
        })
        .boxed()
}
/// Up to hundreds of threads that do a little each.
pub fn many() -> BoxedStrategy<Case> {
    (strategy(&KINDS, false), turns::many())
        .prop_map(|(mut c, m)| {
            c.many = Some(m);
            c.plan.clear();
            [&mut c.a, &mut c.b, &mut c.c].into_iter().for_each(|l| l.truncate(2));
            c
        })
        .boxed()
}
/// Histograms that are rendered.
pub fn renders() -> BoxedStrategy<Case> {
    strategy(&[Kind::Hist], false)
        .prop_map(|mut c| {
            for o in [&mut c.a, &mut c.b, &mut c.c].into_iter().flatten() {
                if let Op::Read(how, _) = o {
                    *how = 3 + *how % 2;
                }
            }
            c
        })
        .boxed()
}
pub const LISTS: &[&str] = &["/plan", "/a", "/b", "/c"];

#[derive(Clone)]
enum H {
    C(Counter),
    G(Gauge),
    H(Histogram),
    S(Summary),
}
impl H {
    fn make(c: &Case, i: usize, regs: &[Registry]) -> Result<H, String> {
        let err = |e| format!("{:?}", e);
        macro_rules! go {
            ($b:expr, $v:path) => {{
                let mut b = $b;
                regs.iter().for_each(|r| {
                    b.registry(r.clone());
                });
                $v(b.finish().map_err(err)?)
            }};
        }
        Ok(match c.kind {
            Kind::Counter => go!(CounterBuilder::new("m"), H::C),
            Kind::Gauge => go!(GaugeBuilder::new("m"), H::G),
            Kind::Hist => {
                let mut b = HistogramBuilder::new("m");
                b.buckets(bounds(c, i));
                go!(b, H::H)
            }
            Kind::Summary => {
                let mut b = SummaryBuilder::new("m", Duration::from_nanos(c.window));
                c.quantiles.iter().for_each(|q| {
                    b.quantile(q.0);
                });
                go!(b, H::S)
            }
        })
    }
}
/// The second of two histograms has a bound of its own.
fn bounds(c: &Case, i: usize) -> Vec<f64> {
    raw(&c.bounds).into_iter().chain((i == 1).then_some(2.25)).collect()
}

/// What an operation was about: a metric (or all), and the change it made or what it read.
#[derive(Clone, Debug)]
struct Rec {
    on: Option<usize>,
    what: What,
    /// The time before and after.
    t: (i64, i64),
}
#[derive(Clone, Debug)]
enum What {
    Add(f64),
    Set(f64),
    Saw(Saw),
}
#[derive(Clone, Debug, Default)]
struct Saw {
    scalar: Option<f64>,
    count: Option<f64>,
    sum: Option<f64>,
    buckets: Option<Vec<(f64, f64)>>,
    quantiles: Option<Vec<(f64, f64)>>,
    /// All of it is from one rendering or gather.
    rendered: bool,
}
impl Saw {
    fn of(v: pt::Val) -> Saw {
        let rendered = true;
        match v {
            pt::Val::Scalar(v) => Saw { scalar: Some(v), rendered, ..Saw::default() },
            pt::Val::Hist(b, s, c) => Saw { buckets: Some(b), sum: Some(s), count: Some(c), rendered, ..Saw::default() },
            pt::Val::Summary(q, s, c) => Saw { quantiles: Some(q), sum: Some(s), count: Some(c), rendered, ..Saw::default() },
        }
    }
}
struct Player {
    hs: Vec<H>,
    gatherer: Gatherer,
    order: Order,
    log: Vec<Done<Rec>>,
}
impl Player {
    fn record<T>(&mut self, on: Option<usize>, f: impl FnOnce(&mut Player) -> Result<T, String>, what: impl FnOnce(T) -> What) -> R {
        turns::point();
        let (begin, t0) = (self.order.tick(), clock::shared_now());
        let r = f(self)?;
        let (end, t1) = (self.order.tick(), clock::shared_now());
        turns::point();
        self.log.push(Done { begin, end, op: Rec { on, what: what(r), t: (t0, t1) } });
        Ok(())
    }
    fn change(&mut self, how: u8, i: usize, v: f64) -> R {
        let h = self.hs[i].clone();
        let on = Some(i);
        let add = |d: f64| move |()| What::Add(d);
        match h {
            H::C(m) => match how {
                INC => self.record(on, |_| Ok(m.increment()), add(1.0)),
                1 => self.record(on, |_| m.add(v).map_err(|e| e.to_string()), add(v)),
                _ => self.record(on, |_| Ok(m.add_u64(v as u64)), add((v as u64) as f64)),
            },
            H::G(m) => match how {
                INC => self.record(on, |_| Ok(m.increment()), add(1.0)),
                1 => self.record(on, |_| Ok(m.decrement()), add(-1.0)),
                2 => self.record(on, |_| Ok(m.add(v)), add(v)),
                3 => self.record(on, |_| Ok(m.subtract(v)), add(-v)),
                4 => self.record(on, |_| Ok(m.set(v)), |()| What::Set(v)),
                _ => {
                    // Three operations: one up, something inside, one down.
                    let begin = (self.order.tick(), clock::shared_now());
                    let order = self.order.clone();
                    let (up, down) = m.track_inprogress(|| {
                        let up = (order.tick(), clock::shared_now());
                        self.record(on, |_| Ok(m.add(v)), add(v))?;
                        Ok::<_, String>((up, (order.tick(), clock::shared_now())))
                    })?;
                    let end = (self.order.tick(), clock::shared_now());
                    for (b, e, d) in [(begin, up, 1.0), (down, end, -1.0)] {
                        self.log.push(Done { begin: b.0, end: e.0, op: Rec { on, what: What::Add(d), t: (b.1, e.1) } });
                    }
                    Ok(())
                }
            },
            H::H(m) => self.record(on, |_| Ok(m.observe(v)), add(v)),
            H::S(m) => self.record(on, |_| Ok(m.observe(v)), add(v)),
        }
    }
    fn read(&mut self, how: u8, i: usize) -> R {
        let h = self.hs[i].clone();
        if how == 4 {
            return self.record(
                None,
                |me| {
                    let f = pt::parse(&me.gatherer.gather().to_text())?;
                    ensure!(f.len() == 1, "{} families gathered", f.len());
                    let mut s = pt::series(&f[0])?;
                    ensure!(s.len() == 1, "{} series gathered", s.len());
                    Ok(s.remove(0).val)
                },
                |v| What::Saw(Saw::of(v)),
            );
        }
        self.record(
            Some(i),
            |_| {
                let shown = |k, text: String| Ok(Saw::of(parse_display("m", k, &text)?.val));
                let none = Saw::default();
                match (&h, how) {
                    (H::C(m), 3) => shown(Kind::Counter, m.to_string()),
                    (H::G(m), 3) => shown(Kind::Gauge, m.to_string()),
                    (H::H(m), 3) => shown(Kind::Hist, m.to_string()),
                    (H::S(m), 3) => shown(Kind::Summary, m.to_string()),
                    (H::C(m), _) => Ok(Saw { scalar: Some(m.value()), ..none }),
                    (H::G(m), _) => Ok(Saw { scalar: Some(m.value()), ..none }),
                    (H::H(m), 0) => Ok(Saw { count: Some(m.count() as f64), ..none }),
                    (H::H(m), 1) => Ok(Saw { sum: Some(m.sum()), ..none }),
                    (H::H(m), _) => Ok(Saw { buckets: Some(m.cumulative_buckets().map(|b| (b.upper_bound(), b.cumulative_count() as f64)).collect()), ..none }),
                    (H::S(m), 0) => Ok(Saw { count: Some(m.count() as f64), ..none }),
                    (H::S(m), 1) => Ok(Saw { sum: Some(m.sum()), ..none }),
                    (H::S(m), _) => Ok(Saw { quantiles: Some(m.quantiles().iter().map(|q| (q.0.as_f64(), q.1)).collect()), ..none }),
                }
            },
            What::Saw,
        )
    }
    fn play(mut self, ops: &[Op]) -> Result<(Vec<Done<Rec>>, Gatherer), String> {
        let n = self.hs.len();
        for o in ops {
            match *o {
                Op::Change(how, m, v) => self.change(how, m as usize % n, v.0)?,
                Op::Read(how, m) => self.read(how, m as usize % n)?,
                Op::Pass(ns) => {
                    clock::pass(ns);
                    turns::point();
                }
            }
        }
        Ok((self.log, self.gatherer))
    }
}
/// The program's history, judged.
fn judge(c: &Case, log: &[Done<Rec>]) -> R {
    let n = if c.twin { 2 } else { 1 };
    // (began before `e`) and (ended before `b`) changes of these metrics.
    struct Change {
        v: f64,
        home: f64,
        sure: bool,
        sample_sure: bool,
        sample_may: bool,
    }
    let all: Vec<f64> = distinct_bounds((0..n).flat_map(|i| bounds(c, i)));
    let own: Vec<Vec<f64>> = (0..n).map(|i| distinct_bounds(bounds(c, i))).collect();
    let exact = c.base < 1 << 40;
    let tol = if exact { 0.0 } else { 8192.0 };
    let between = |what: &str, r: &Done<Rec>, v: f64, lo: f64, hi: f64| -> R {
        ensure!(v >= lo && v <= hi, "{} is {:?}, which is not between {:?} (done before) and {:?} (begun by the end), in {:?}", what, v, lo, hi, r);
        Ok(())
    };
    let members = |r: &Done<Rec>| if r.op.on.is_some() || !c.twin { 1.0 } else { 2.0 };
    for r in log {
        let What::Saw(saw) = &r.op.what else { continue };
        let of = |o: &Rec| r.op.on.is_none() || r.op.on == o.on;
        let mut set = false;
        let mut changes: Vec<Change> = vec![];
        for d in log.iter().filter(|d| of(&d.op) && d.begin < r.end) {
            match d.op.what {
                What::Add(v) => {
                    let sure = d.end < r.begin;
                    changes.push(Change {
                        v,
                        home: home(&own[d.op.on.unwrap()], v),
                        sure,
                        sample_sure: sure && r.op.t.1 - d.op.t.0 <= c.window as i64,
                        sample_may: r.op.t.0 - d.op.t.1 <= c.window as i64,
                    })
                }
                What::Set(_) => set = true,
                What::Saw(_) => {}
            }
        }
        let base = if c.kind == Kind::Counter { c.base as f64 * members(r) } else { 0.0 };
        let low: f64 = changes.iter().filter(|x| x.sure || x.v < 0.0).map(|x| x.v).sum();
        let high: f64 = changes.iter().filter(|x| x.sure || x.v > 0.0).map(|x| x.v).sum();
        if let Some(v) = saw.scalar {
            if !set {
                between("the value", r, v, base + low - tol, base + high + tol)?;
            }
        }
        if let Some(v) = saw.sum {
            between("the sum", r, v, low, high)?;
        }
        let sure = changes.iter().filter(|x| x.sure).count() as f64;
        if let Some(v) = saw.count {
            between("the count", r, v, sure, changes.len() as f64)?;
        }
        if let Some(b) = &saw.buckets {
            let want = if r.op.on.is_some() { &own[r.op.on.unwrap()] } else { &all };
            let got: Vec<f64> = b.iter().map(|b| b.0).collect();
            ensure!(got == *want, "the bounds are {:?}, not {:?}", got, want);
            for (bound, n) in b {
                let lo = changes.iter().filter(|x| x.sure && x.home <= *bound).count() as f64;
                let hi = changes.iter().filter(|x| x.home <= *bound).count() as f64;
                between(&format!("the bucket {:?}", bound), r, *n, lo, hi)?;
            }
            ensure!(b.windows(2).all(|w| w[0].1 <= w[1].1), "bucket counts decrease in {:?}", r);
            if saw.rendered {
                ensure!(b.last().map(|b| b.1) == saw.count, "the +Inf bucket and the count differ in {:?}", r);
            }
        }
        if let Some(got) = &saw.quantiles {
            let must: Vec<f64> = changes.iter().filter(|x| x.sample_sure).map(|x| x.v).collect();
            let may: Vec<f64> = changes.iter().filter(|x| x.sample_may).map(|x| x.v).collect();
            let qs = distinct_quantiles(raw(&c.quantiles));
            if got.is_empty() {
                ensure!(must.is_empty(), "no quantiles although {:?} were observed before, in {:?}", must, r);
            } else {
                let names: Vec<f64> = got.iter().map(|g| g.0).collect();
                ensure!(names == qs, "quantiles {:?} instead of {:?}", names, qs);
                for (q, v) in got {
                    ensure!(may.contains(v), "quantile {:?} is {:?}, which is none of the observations {:?} that can be in the window, in {:?}", q, v, may, r);
                    let below = must.iter().filter(|x| *x < v).count() as f64;
                    let upto = may.iter().filter(|x| *x <= v).count() as f64;
                    ensure!(below <= q * may.len() as f64 + 1e-9 && upto >= q * must.len() as f64 - 1e-9, "quantile {:?} is {:?}, but sure are {:?} and possible {:?}, in {:?}", q, v, must, may, r);
                }
            }
        }
    }
    // What only grows is never seen to go back.
    let reads: Vec<(&Done<Rec>, &Saw)> = log.iter().filter_map(|d| if let What::Saw(s) = &d.op.what { Some((d, s)) } else { None }).collect();
    for (x, a) in &reads {
        for (y, b) in reads.iter().filter(|(y, _)| x.end < y.begin && x.op.on == y.op.on) {
            let mut pairs = vec![(a.count, b.count), (a.sum, b.sum)];
            if c.kind == Kind::Counter {
                pairs.push((a.scalar, b.scalar));
            }
            if let (Some(p), Some(q)) = (&a.buckets, &b.buckets) {
                pairs.extend(p.iter().zip(q).map(|(p, q)| (Some(p.1), Some(q.1))));
            }
            for p in pairs {
                if let (Some(p), Some(q)) = p {
                    ensure!(p <= q, "something goes down from {:?} to {:?}, from {:?} to {:?}", p, q, x, y);
                }
            }
        }
    }
    Ok(())
}
/// A gauge's operations happen in some order.
fn gauge_ok(log: &[Done<Rec>], i: usize, last: f64) -> R {
    let ops: Vec<Done<What>> = log.iter().filter(|d| d.op.on == Some(i)).map(|d| Done { begin: d.begin, end: d.end, op: d.op.what.clone() }).collect();
    if ops.len() >= 40 {
        return Ok(());
    }
    let at = |v: f64| (v * 16.0) as i64;
    let ok = linearizable(&ops, 0i64, |s| *s == at(last), |s, o| match o {
        What::Add(d) => Some(s + at(*d)),
        What::Set(v) => Some(at(*v)),
        What::Saw(v) => (v.scalar == Some(*s as f64 / 16.0)).then_some(*s),
    });
    ensure!(ok, "no order of the gauge's operations gives what was read, and {:?} in the end: {:?}", last, ops);
    Ok(())
}
pub fn oracle(c: &Case, cx: &mut Cx) -> R {
    let time = Arc::new(clock::Shared::new());
    // (The search may make long programs of short ones.)
    let mut threads: Vec<&[Op]> = [&c.a, &c.b, &c.c].into_iter().filter(|t| !t.is_empty()).map(|t| &t[..t.len().min(40)]).collect();
    let mut plan = c.plan.clone();
    if let Some(m) = &c.many {
        threads = m.threads(threads);
        plan = m.plan();
        cx.class_if(threads.len() > 64, "more than 64 threads");
    }
    if threads.is_empty() {
        return Ok(());
    }
    let gatherers: Vec<Gatherer> = threads.iter().map(|_| Gatherer::new()).collect();
    let regs: Vec<Registry> = gatherers.iter().map(|g| g.registry()).collect();
    let hs: Vec<H> = (0..1 + usize::from(c.twin)).map(|i| H::make(c, i, &regs)).collect::<Result<_, _>>()?;
    if let H::C(_) = hs[0] {
        hs.iter().for_each(|h| {
            if let H::C(m) = h {
                m.add_u64(c.base)
            }
        });
    }
    let order = Order::new();
    let bodies: Vec<Body<_>> = threads
        .iter()
        .zip(gatherers)
        .map(|(ops, gatherer)| {
            let p = Player { hs: hs.clone(), gatherer, order: order.clone(), log: vec![] };
            let ops = ops.to_vec();
            Box::new(move || p.play(&ops)) as Body<_>
        })
        .collect();
    let played = turns::play(&time, &plan, bodies)?;
    let mut log: Vec<Done<Rec>> = vec![];
    let mut gatherer = None;
    for (l, g) in played.results {
        log.extend(l);
        gatherer = Some(g);
    }
    log.sort_by_key(|d| d.begin);
    let changes = log.iter().filter(|d| !matches!(d.op.what, What::Saw(_))).count();
    let overlapping = log.iter().zip(log.iter().skip(1)).any(|(x, y)| y.begin < x.end);
    let shown = |e: String| format!("{}\nhistory: {:?}", e, log.iter().take(12).collect::<Vec<_>>());
    judge(c, &log).map_err(shown)?;
    // The end, read by one who is alone.
    let mut last = Player { hs: hs.clone(), gatherer: gatherer.unwrap(), order, log: vec![] };
    time.with(|| -> R {
        for i in 0..hs.len() {
            for how in 0..5 {
                last.read(how, i)?;
            }
        }
        Ok(())
    })?;
    let mut whole = log.clone();
    whole.append(&mut last.log);
    judge(c, &whole).map_err(|e| shown(format!("at the end: {}", e)))?;
    for (i, h) in hs.iter().enumerate() {
        if let H::G(m) = h {
            gauge_ok(&log, i, m.value()).map_err(shown)?;
        }
    }
    cx.class(c.kind.word());
    cx.class_if(overlapping, "overlapping operations");
    cx.class_if(played.stats.blocked > 0, "a thread waits for a lock");
    cx.class_if(log.iter().any(|d| matches!(&d.op.what, What::Saw(s) if s.rendered)), "renderings or gathers");
    cx.class_if(c.twin, "two metrics of one identity");
    cx.class_if(c.base > 1 << 60, "counter near the end of the 64-bit range");
    cx.class_if(log.iter().any(|d| d.op.t.0 != d.op.t.1), "time passes during an operation");
    cx.nontrivial(overlapping && changes > 1);
    Ok(())
}
pub const RULE: &str = "threads take turns by a generated plan so that two operations, at least one of several changes among them, overlap";
/// When everything is dropped, no memory is left allocated.
pub fn leak_oracle(c: &Case, cx: &mut Cx) -> R {
    let mut kept = 0;
    // Threads allocate some things once.
    for _ in 0..4 {
        let group = Group::new(0);
        group.with(|| {
            let mut x = Cx::default();
            oracle(c, &mut x)?;
            Group::without(|| *cx = x.clone());
            Ok::<_, String>(())
        })?;
        kept = group.in_use();
        if kept == 0 {
            return Ok(());
        }
    }
    Err(format!("{} bytes remain allocated after everything has been dropped", kept))
}
