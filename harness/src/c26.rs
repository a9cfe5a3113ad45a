//! Code that the crate runs for the user may call back into the crate.
use crate::clock::{advance, Virtual};
use crate::engine::*;
use crate::promtext::Val;
use crate::world::*;
use prometrics::metric::Metric;
use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, Collect, Gatherer, Registry};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::{self, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::Duration;

/// Something done with the crate; bodies are run from within.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    /// Update metric .0 (modulo the metrics there are) with .1.
    Use(u8, u8),
    Relabel(u8, u8),
    Timestamp(u8, i64),
    /// Read everything of it.
    Look(u8),
    Drop(u8),
    /// A new metric, in the gatherer or another one; the body runs in the iterator of its bounds.
    Make(u8, bool, Vec<Act>),
    GatherOther,
    /// Quarters of a second.
    Wait(u8),
    /// Time the body with the metric; .2: it panics at its end.
    Time(u8, Vec<Act>, bool),
    Track(u8, Vec<Act>, bool),
    /// The body runs in the sink's call number .1.
    Render(u8, u8, Vec<Act>),
    /// Iterate over the metric's labels with the body run for each.
    Iterate(u8, Vec<Act>),
    Register(Script),
    /// The body runs in another thread, which is waited for.
    Elsewhere(Vec<Act>),
    /// The body runs in a destructor while the thread unwinds.
    Unwinding(Vec<Act>),
}
/// A collector: what it does in its calls, in the iterators it returns, and when it is dropped after its last call.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Script {
    calls: Vec<(Vec<Act>, Vec<Act>)>,
    ends: bool,
    drop: Vec<Act>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Do(Act),
    Gather,
    /// Render a result, with the body run in the sink.
    RenderAll(u8, Vec<Act>),
    /// A panic while the gatherer is locked (if it is the default one).
    Poison,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
    /// With the default gatherer.
    #[serde(default)]
    default: bool,
}
fn body(act: impl Strategy<Value = Act> + Clone + 'static) -> BoxedStrategy<Vec<Act>> {
    prop_oneof![1 => Just(vec![]), 3 => prop::collection::vec(act, 1..4)].boxed()
}
fn act() -> BoxedStrategy<Act> {
    let leaf = prop_oneof![
        4 => any::<[u8; 2]>().prop_map(|x| Act::Use(x[0], x[1])),
        1 => (any::<u8>(), 0u8..4).prop_map(|(i, v)| Act::Relabel(i, v)),
        1 => (any::<u8>(), -3i64..1000).prop_map(|(i, t)| Act::Timestamp(i, t)),
        2 => any::<u8>().prop_map(Act::Look),
        1 => any::<u8>().prop_map(Act::Drop),
        1 => (any::<u8>(), any::<bool>()).prop_map(|(k, o)| Act::Make(k, o, vec![])),
        1 => Just(Act::GatherOther),
        2 => (0u8..20).prop_map(Act::Wait),
    ];
    leaf.prop_recursive(3, 16, 4, |a| {
        let b = || body(a.clone());
        let script = (prop::collection::vec((body(a.clone()), body(a.clone())), 0..3), any::<bool>(), body(a.clone())).prop_map(|(calls, ends, drop)| Script { calls, ends, drop });
        prop_oneof![
            1 => (any::<u8>(), any::<bool>(), b()).prop_map(|(k, o, b)| Act::Make(k, o, b)),
            4 => (any::<u8>(), b(), prop::bool::weighted(0.2)).prop_map(|(i, b, p)| Act::Time(i, b, p)),
            2 => (any::<u8>(), b(), prop::bool::weighted(0.2)).prop_map(|(i, b, p)| Act::Track(i, b, p)),
            3 => (any::<u8>(), 0u8..20, b()).prop_map(|(i, n, b)| Act::Render(i, n, b)),
            1 => (any::<u8>(), b()).prop_map(|(i, b)| Act::Iterate(i, b)),
            2 => script.prop_map(Act::Register),
            2 => b().prop_map(Act::Elsewhere),
            1 => b().prop_map(Act::Unwinding),
        ]
    })
    .boxed()
}
fn strategy(default: bool) -> BoxedStrategy<Case> {
    let op = prop_oneof![6 => act().prop_map(Op::Do), 2 => Just(Op::Gather), 1 => (0u8..60, body(act())).prop_map(|(n, b)| Op::RenderAll(n, b)), u32::from(default) => Just(Op::Poison)];
    (prop::collection::vec((any::<u8>(), any::<bool>()).prop_map(|(k, o)| Op::Do(Act::Make(k, o, vec![]))), 1..5), prop::collection::vec(op, 1..14))
        .prop_map(move |(mut first, ops)| {
            first.extend(ops);
            Case { ops: first, default }
        })
        .boxed()
}

#[derive(Clone, Debug)]
enum Model {
    Counter(f64),
    Gauge(f64),
    Hist(Vec<f64>),
    Summary(Vec<f64>),
}
struct Item {
    metric: Metric,
    model: Model,
    label: Option<String>,
    ts: Option<i64>,
    other: bool,
    /// Counts changes, so that one made meanwhile is noticed.
    version: u32,
}
struct Scripted {
    script: Script,
    asked: u32,
    ended: bool,
    /// In which gather it was registered.
    born: u32,
}
struct State {
    items: BTreeMap<usize, Item>,
    next: usize,
    /// Dropped from within user code: an outer call may still hold them.
    going: Vec<usize>,
    collectors: Vec<Scripted>,
    /// None: the default one.
    registry: Option<Registry>,
    other_registry: Registry,
    other: Arc<Mutex<Gatherer>>,
    gathers: u32,
    /// Collectors do nothing but answer.
    quiet: bool,
    /// Collectors end.
    over: bool,
    depth: u32,
    inside: u32,
    budget: u32,
    panicked: u32,
    error: Option<String>,
}
type W = Arc<Mutex<State>>;
struct Planned;
const BOUNDS: [f64; 3] = [1.0, 2.0, 4.0];

fn pick(w: &W, i: u8) -> Option<(usize, Metric)> {
    let s = w.lock().unwrap();
    let n = s.items.len();
    s.items.iter().nth(i as usize % n.max(1)).map(|(id, x)| (*id, x.metric.clone()))
}
fn with<T>(w: &W, id: usize, f: impl FnOnce(&mut Item) -> T) -> Option<T> {
    w.lock().unwrap().items.get_mut(&id).map(|x| {
        x.version += 1;
        f(x)
    })
}
/// Runs a body from within user code; what goes wrong in it is kept for later, as it cannot be returned.
fn nested(w: &W, body: &[Act]) {
    {
        let mut s = w.lock().unwrap();
        s.depth += 1;
        s.inside += body.len() as u32;
    }
    for a in body {
        if let Err(e) = run(w, a) {
            w.lock().unwrap().error.get_or_insert(e);
        }
    }
    w.lock().unwrap().depth -= 1;
}
fn labels(m: &Metric) -> BTreeMap<String, String> {
    label_vec(m.labels()).into_iter().collect()
}
fn value_ok(model: &Model, got: &Val) -> R {
    match (model, got) {
        (Model::Counter(v) | Model::Gauge(v), Val::Scalar(x)) => ensure!(v == x, "the value is {:?}, not {:?}", x, v),
        (Model::Hist(o), Val::Hist(b, sum, count)) => {
            let want: Vec<(f64, f64)> = BOUNDS.iter().cloned().chain([f64::INFINITY]).map(|u| (u, o.iter().filter(|v| **v <= u).count() as f64)).collect();
            ensure!(*b == want && *count == o.len() as f64 && *sum == o.iter().sum::<f64>(), "buckets {:?}, sum {}, count {} after the observations {:?}", b, sum, count, o);
        }
        (Model::Summary(o), Val::Summary(q, sum, count)) => {
            ensure!(*count == o.len() as f64 && *sum == o.iter().sum::<f64>(), "sum {}, count {} after the observations {:?}", sum, count, o);
            quantiles_ok(&[0.0, 0.5, 1.0], o, q)?;
        }
        _ => return Err(format!("{:?} is shown as {:?}", model, got)),
    }
    Ok(())
}
fn kind_of(m: &Model) -> Kind {
    match m {
        Model::Counter(_) => Kind::Counter,
        Model::Gauge(_) => Kind::Gauge,
        Model::Hist(_) => Kind::Hist,
        Model::Summary(_) => Kind::Summary,
    }
}
/// Everything a handle says is what the model says.
fn look(w: &W, id: usize) -> R {
    let Some((m, model, label, ts)) = w.lock().unwrap().items.get(&id).map(|x| (x.metric.clone(), x.model.clone(), x.label.clone(), x.ts)) else { return Ok(()) };
    let text = display(&m);
    let s = parse_display("m", kind_of(&model), &text).map_err(|e| format!("{}: {}", text, e))?;
    value_ok(&model, &s.val).map_err(|e| format!("metric {}: {}\n{}", id, e, text))?;
    let mut want = BTreeMap::from([("id".to_string(), id.to_string())]);
    want.extend(label.map(|l| ("x".to_string(), l)));
    ensure!(labels(&m) == want && s.labels == want, "metric {} has the labels {:?}, rendered as {:?}, not {:?}", id, labels(&m), s.labels, want);
    ensure!(get_ts(&m) == ts && s.ts == ts, "metric {} has the timestamp {:?}, rendered as {:?}, not {:?}", id, get_ts(&m), s.ts, ts);
    Ok(())
}
struct Sink<F> {
    at: u8,
    calls: u32,
    body: F,
}
impl<F: FnMut()> Write for Sink<F> {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        if self.calls == self.at as u32 {
            (self.body)();
        }
        self.calls += 1;
        Ok(())
    }
}
fn now_ns() -> i128 {
    Virtual::now_ns()
}
/// Runs timed or tracked code: returns how long it took, and whether it panicked.
fn timed(w: &W, body: &[Act], panics: bool, call: impl FnOnce(&mut dyn FnMut() -> u32) -> u32) -> Result<(f64, bool), String> {
    let mut ns = 0;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut runs = 0;
        let out = call(&mut || {
            runs += 1;
            let t = now_ns();
            nested(w, body);
            ns = now_ns() - t;
            if panics {
                resume_unwind(Box::new(Planned));
            }
            4711
        });
        (out, runs)
    }));
    match r {
        Ok((out, runs)) => {
            ensure!(!panics, "the panic of the code was swallowed");
            ensure!(out == 4711 && runs == 1, "the code ran {} times, its result is given as {}", runs, out);
            Ok((ns as f64 / 1e9, false))
        }
        Err(e) if e.is::<Planned>() && panics => {
            w.lock().unwrap().panicked += 1;
            Ok((ns as f64 / 1e9, true))
        }
        Err(e) => resume_unwind(e),
    }
}
fn run(w: &W, a: &Act) -> R {
    {
        let mut s = w.lock().unwrap();
        if s.budget == 0 {
            return Ok(());
        }
        s.budget -= 1;
    }
    match a {
        Act::Use(i, v) => {
            let Some((id, m)) = pick(w, *i) else { return Ok(()) };
            let v = (*v % 24) as f64 / 4.0;
            match &m {
                Metric::Counter(m) => m.add(v).map_err(|e| format!("{:?}", e))?,
                Metric::Gauge(m) => m.add(v),
                Metric::Histogram(m) => m.observe(v),
                Metric::Summary(m) => m.observe(v),
            }
            with(w, id, |x| match &mut x.model {
                Model::Counter(x) | Model::Gauge(x) => *x += v,
                Model::Hist(o) | Model::Summary(o) => o.push(v),
            });
            drop(m);
            look(w, id)?;
        }
        Act::Relabel(i, v) => {
            let Some((id, mut m)) = pick(w, *i) else { return Ok(()) };
            let label = if *v == 0 { None } else { Some(v.to_string()) };
            labels_mut(&mut m, |l| match &label {
                None => l.remove("x"),
                Some(s) => l.insert("x", s).unwrap(),
            });
            with(w, id, |x| x.label = label);
            drop(m);
            look(w, id)?;
        }
        Act::Timestamp(i, t) => {
            let Some((id, m)) = pick(w, *i) else { return Ok(()) };
            let t = if *t < 0 { None } else { Some(*t) };
            set_ts(&m, t);
            with(w, id, |x| x.ts = t);
        }
        Act::Look(i) => {
            let Some((id, m)) = pick(w, *i) else { return Ok(()) };
            drop(m);
            look(w, id)?;
        }
        Act::Drop(i) => {
            let Some((id, m)) = pick(w, *i) else { return Ok(()) };
            drop(m);
            let x = {
                let mut s = w.lock().unwrap();
                if s.depth > 0 {
                    s.going.push(id);
                }
                s.items.remove(&id)
            };
            drop(x);
        }
        Act::Make(k, other, body) => {
            let (id, r) = {
                let mut s = w.lock().unwrap();
                s.next += 1;
                (s.next, if *other { Some(s.other_registry.clone()) } else { s.registry.clone() })
            };
            let err = |e| format!("{:?}", e);
            let l = id.to_string();
            let r = if r.is_none() && id % 3 == 0 { Some(default_registry()) } else { r };
            let common = r.is_none() && id % 3 == 1;
            macro_rules! go {
                ($b:expr) => {{
                    let mut b = $b;
                    b.label("id", &l);
                    match r {
                        Some(r) => b.registry(r),
                        None if common => &mut b,
                        None => b.default_registry(),
                    };
                    b
                }};
            }
            // (A common builder has the default registry from the beginning.)
            let (metric, model): (Metric, Model) = match k % 4 {
                0 => (go!(if common { MetricBuilder::new().counter("m") } else { CounterBuilder::new("m") }).finish().map_err(err)?.into(), Model::Counter(0.0)),
                1 => (go!(if common { MetricBuilder::new().gauge("m") } else { GaugeBuilder::new("m") }).finish().map_err(err)?.into(), Model::Gauge(0.0)),
                2 => {
                    let bounds = BOUNDS.iter().enumerate().map(|(i, b)| {
                        if i == 1 {
                            nested(w, body);
                        }
                        *b
                    });
                    (go!(if common { MetricBuilder::new().histogram("m") } else { HistogramBuilder::new("m") }).buckets(bounds).finish().map_err(err)?.into(), Model::Hist(vec![]))
                }
                _ => {
                    let window = Duration::from_secs(1_000_000);
                    let mut b = go!(if common { MetricBuilder::new().summary("m", window) } else { SummaryBuilder::new("m", window) });
                    (b.quantile(0.0).quantile(0.5).quantile(1.0).finish().map_err(err)?.into(), Model::Summary(vec![]))
                }
            };
            w.lock().unwrap().items.insert(id, Item { metric, model, label: None, ts: None, other: *other, version: 0 });
            look(w, id)?;
        }
        Act::GatherOther => {
            let other = w.lock().unwrap().other.clone();
            let other = other.try_lock();
            if let Ok(mut g) = other {
                let got = g.gather();
                drop(g);
                shown(w, &got, true).map_err(|e| format!("the other gatherer: {}", e))?;
            }
        }
        Act::Wait(q) => advance(Duration::from_millis(250 * *q as u64)),
        Act::Time(i, body, panics) => {
            let Some((id, m)) = pick(w, *i) else { return Ok(()) };
            let (t, panicked) = match &m {
                Metric::Counter(m) => timed(w, body, *panics, |f| m.time(f))?,
                Metric::Gauge(m) => timed(w, body, *panics, |f| m.time(f))?,
                Metric::Histogram(m) => timed(w, body, *panics, |f| m.time(f))?,
                Metric::Summary(m) => timed(w, body, *panics, |f| m.time(f))?,
            };
            // Code that panics may be recorded or not.
            let recorded = !panicked || {
                let read = |m: &Metric| match m {
                    Metric::Counter(m) => m.value(),
                    Metric::Gauge(m) => m.value(),
                    Metric::Histogram(m) => m.count() as f64,
                    Metric::Summary(m) => m.count() as f64,
                };
                let now = read(&m);
                w.lock().unwrap().items.get(&id).map_or(false, |x| match &x.model {
                    Model::Counter(v) => now != *v,
                    Model::Gauge(v) => now != *v,
                    Model::Hist(o) | Model::Summary(o) => now != o.len() as f64,
                })
            };
            if recorded {
                with(w, id, |x| match &mut x.model {
                    Model::Counter(x) => *x += t,
                    Model::Gauge(x) => *x = t,
                    Model::Hist(o) | Model::Summary(o) => o.push(t),
                });
            }
            drop(m);
            look(w, id).map_err(|e| format!("after timing: {}", e))?;
        }
        Act::Track(i, body, panics) => {
            let Some((id, m)) = pick(w, *i) else { return Ok(()) };
            let Metric::Gauge(g) = &m else { return Ok(()) };
            let id2 = id;
            timed(w, body, *panics, |f| {
                g.track_inprogress(|| {
                    with(w, id2, |x| {
                        if let Model::Gauge(v) = &mut x.model {
                            *v += 1.0;
                        }
                    });
                    if let Err(e) = look(w, id2) {
                        w.lock().unwrap().error.get_or_insert(format!("in tracked code: {}", e));
                    }
                    f()
                })
            })?;
            with(w, id, |x| {
                if let Model::Gauge(v) = &mut x.model {
                    *v -= 1.0;
                }
            });
            drop(m);
            look(w, id).map_err(|e| format!("after tracking: {}", e))?;
        }
        Act::Render(i, at, body) => {
            let Some((id, m)) = pick(w, *i) else { return Ok(()) };
            let mut sink = Sink { at: *at, calls: 0, body: || nested(w, body) };
            let r = match &m {
                Metric::Counter(m) => write!(sink, "{}", m),
                Metric::Gauge(m) => write!(sink, "{}", m),
                Metric::Histogram(m) => write!(sink, "{}", m),
                Metric::Summary(m) => write!(sink, "{}", m),
            };
            ensure!(r.is_ok(), "rendering metric {} fails", id);
            drop(m);
            look(w, id)?;
        }
        Act::Iterate(i, body) => {
            let Some((id, m)) = pick(w, *i) else { return Ok(()) };
            let before = labels(&m);
            let mut seen = BTreeMap::new();
            for (k, l) in m.labels().iter().enumerate() {
                if k == 0 {
                    nested(w, body);
                }
                seen.insert(l.name().to_string(), l.value().to_string());
            }
            ensure!(seen == before, "metric {}: the iteration begun with the labels {:?} yielded {:?}", id, before, seen);
        }
        Act::Elsewhere(body) => crate::clock::elsewhere(|| nested(w, body)),
        Act::Unwinding(body) => {
            struct OnDrop<F: FnMut()>(F);
            impl<F: FnMut()> Drop for OnDrop<F> {
                fn drop(&mut self) {
                    (self.0)()
                }
            }
            let mut inner = Ok(());
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let _d = OnDrop(|| inner = catch_unwind(AssertUnwindSafe(|| nested(w, body))));
                std::panic::resume_unwind(Box::new(()));
            }));
            if let Err(e) = inner {
                std::panic::resume_unwind(e);
            }
        }
        Act::Register(script) => {
            let mut s = w.lock().unwrap();
            let k = s.collectors.len();
            let born = s.gathers;
            s.collectors.push(Scripted { script: script.clone(), asked: 0, ended: false, born });
            let r = s.registry.clone();
            drop(s);
            r.unwrap_or_else(default_registry).register(Mine { k, w: w.clone(), done: false });
        }
    }
    Ok(())
}
struct Mine {
    k: usize,
    w: W,
    done: bool,
}
struct Returned {
    k: usize,
    w: W,
    body: Vec<Act>,
    left: u32,
}
impl Iterator for Returned {
    type Item = Metric;
    fn next(&mut self) -> Option<Metric> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let body = std::mem::take(&mut self.body);
        nested(&self.w, &body);
        Some(GaugeBuilder::new("m").label("c", &self.k.to_string()).label("n", &self.left.to_string()).finish().unwrap().into())
    }
}
impl Collect for Mine {
    type Metrics = Returned;
    fn collect(&mut self) -> Option<Returned> {
        let (first, second) = {
            let mut s = self.w.lock().unwrap();
            if s.over {
                self.done = true;
                return None;
            }
            let c = &mut s.collectors[self.k];
            c.asked += 1;
            let n = c.script.calls.len() as u32;
            let b = c.script.calls.get(c.asked as usize - 1).cloned().unwrap_or_default();
            if c.script.ends && c.asked > n {
                c.ended = true;
            }
            self.done = c.ended;
            if s.quiet { (vec![], vec![]) } else { b }
        };
        nested(&self.w, &first);
        if self.done {
            return None;
        }
        Some(Returned { k: self.k, w: self.w.clone(), body: second, left: 2 })
    }
}
impl Drop for Mine {
    fn drop(&mut self) {
        if !self.done {
            return;
        }
        let body = {
            let s = self.w.lock().unwrap();
            if s.quiet {
                return;
            }
            s.collectors[self.k].script.drop.clone()
        };
        nested(&self.w, &body);
    }
}
/// All that the gatherer must show, given that nothing happens meanwhile.
fn shown(w: &W, got: &prometrics::metric::MetricFamilies, other: bool) -> R {
    let mut seen: BTreeMap<String, (Kind, Val, Option<i64>, BTreeMap<String, String>)> = BTreeMap::new();
    let mut returned: BTreeMap<(String, String), u32> = BTreeMap::new();
    for f in got.as_ref() {
        for s in api_series(f) {
            if let Some(c) = s.labels.get("c") {
                *returned.entry((c.clone(), s.labels.get("n").cloned().unwrap_or_default())).or_default() += 1;
                continue;
            }
            let id = s.labels.get("id").cloned().unwrap_or_default();
            if seen.insert(id.clone(), (Kind::of(f.kind()), s.val, s.ts, s.labels)).is_some() {
                return Err(format!("metric {} is there twice", id));
            }
        }
    }
    let s = w.lock().unwrap();
    for (id, x) in s.items.iter().filter(|x| x.1.other == other) {
        let Some((kind, val, ts, labels)) = seen.remove(&id.to_string()) else { return Err(format!("metric {} is missing", id)) };
        ensure!(kind == kind_of(&x.model), "metric {} is a {:?}", id, kind);
        value_ok(&x.model, &val).map_err(|e| format!("metric {}: {}", id, e))?;
        ensure!(ts == x.ts && labels.get("x") == x.label.as_ref(), "metric {} has the timestamp {:?} and labels {:?}, not {:?} and {:?}", id, ts, labels, x.ts, x.label);
    }
    seen.retain(|id, _| !s.going.iter().any(|g| g.to_string() == *id));
    ensure!(seen.is_empty(), "dropped or foreign metrics are there: {:?}", seen.keys());
    let mut want = BTreeMap::new();
    if !other {
        for (k, _) in s.collectors.iter().enumerate().filter(|c| !c.1.ended) {
            want.insert((k.to_string(), "0".to_string()), 1);
            want.insert((k.to_string(), "1".to_string()), 1);
        }
    }
    ensure!(returned == want, "collectors returned {:?}, not {:?}", returned, want);
    Ok(())
}
fn gather(w: &W, g: &mut Gatherer, scripted: bool) -> R {
    let before: Vec<(usize, u32)> = {
        let mut s = w.lock().unwrap();
        s.quiet = !scripted;
        s.gathers += 1;
        s.items.iter().filter(|x| !x.1.other).map(|x| (*x.0, x.1.version)).collect()
    };
    let asked = |w: &W| w.lock().unwrap().collectors.iter().map(|c| (c.asked, c.ended, c.born)).collect::<Vec<_>>();
    let a0 = asked(w);
    let got = g.gather();
    let a1 = asked(w);
    for (k, (x, y)) in a0.iter().zip(&a1).enumerate() {
        let want = u32::from(!x.1);
        ensure!(y.0 - x.0 == want, "collector {} was asked {} times in one gather, not {}", k, y.0 - x.0, want);
    }
    if scripted {
        let mut n: BTreeMap<String, u32> = BTreeMap::new();
        for f in got.as_ref() {
            for s in api_series(f) {
                *n.entry(s.labels.get("id").cloned().unwrap_or_default()).or_default() += 1;
            }
        }
        let s = w.lock().unwrap();
        for (id, _) in before.iter().filter(|x| s.items.contains_key(&x.0)) {
            ensure!(n.get(&id.to_string()) == Some(&1), "metric {} was there all the time, but is {:?} times in the result", id, n.get(&id.to_string()));
        }
        return Ok(());
    }
    shown(w, &got, false)
}
fn failed(w: &W) -> R {
    let mut s = w.lock().unwrap();
    s.going.clear();
    s.quiet = false;
    match s.error.take() {
        Some(e) => Err(format!("in a nested call: {}", e)),
        None => Ok(()),
    }
}
/// The default gatherer, which may be poisoned.
fn the_default() -> MutexGuard<'static, Gatherer> {
    default_gatherer().lock().unwrap_or_else(|e| e.into_inner())
}
/// Breaks the cycle between the state and the collectors, and leaves nothing in the default gatherer.
struct End(W, bool);
impl Drop for End {
    fn drop(&mut self) {
        let items = {
            let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
            s.over = true;
            std::mem::take(&mut s.items)
        };
        self.0.clear_poison();
        drop(items);
        if self.1 {
            default_gatherer().clear_poison();
            drop(the_default().gather());
        }
    }
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let _clock = Virtual::new();
    let own = Mutex::new(Gatherer::new());
    if c.default {
        let left = the_default().gather();
        ensure!(left.as_ref().is_empty(), "the default gatherer still shows {:?} of an earlier case", left.as_ref().iter().map(|f| f.name().to_string()).collect::<Vec<_>>());
    }
    let other = Gatherer::new();
    let w: W = Arc::new(Mutex::new(State {
        items: BTreeMap::new(),
        next: 0,
        going: vec![],
        collectors: vec![],
        registry: if c.default { None } else { Some(own.lock().unwrap().registry()) },
        other_registry: other.registry(),
        other: Arc::new(Mutex::new(other)),
        gathers: 0,
        quiet: false,
        over: false,
        depth: 0,
        inside: 0,
        budget: 400,
        panicked: 0,
        error: None,
    }));
    let it = || if c.default { the_default() } else { own.lock().unwrap() };
    let end = End(w.clone(), c.default);
    let mut during = false;
    for op in &c.ops {
        match op {
            Op::Do(a) => run(&w, a)?,
            Op::Gather => {
                let before = w.lock().unwrap().inside;
                gather(&w, &mut it(), true)?;
                during |= w.lock().unwrap().inside > before;
                failed(&w)?;
                gather(&w, &mut it(), false).map_err(|e| format!("in a gather without callbacks: {}", e))?;
            }
            Op::Poison if c.default => {
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    let _guard = it();
                    resume_unwind(Box::new(Planned))
                }));
            }
            Op::Poison => {}
            Op::RenderAll(at, body) => {
                w.lock().unwrap().quiet = true;
                let got = it().gather();
                w.lock().unwrap().quiet = false;
                for f in got.as_ref() {
                    let mut sink = Sink { at: *at, calls: 0, body: || nested(&w, body) };
                    ensure!(write!(sink, "{}", f).is_ok(), "rendering a family fails");
                }
            }
        }
        failed(&w)?;
    }
    gather(&w, &mut it(), false).map_err(|e| format!("at the end: {}", e))?;
    let o = w.lock().unwrap().other.clone();
    let got = o.lock().unwrap().gather();
    shown(&w, &got, true).map_err(|e| format!("the other gatherer at the end: {}", e))?;
    let s = w.lock().unwrap();
    cx.class_if(during, "calls from within a gather");
    cx.class_if(s.panicked > 0, "timed or tracked code panicked");
    cx.nontrivial(s.inside > 0);
    drop(s);
    drop(own);
    drop(end);
    if c.default {
        let left = the_default().gather();
        ensure!(left.as_ref().is_empty(), "when all is dropped, the default gatherer shows {:?}", left.as_ref().iter().map(|f| f.to_string()).collect::<Vec<_>>());
    }
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C26",
        level: "exploration",
        assumptions: &["collectors and metrics registered or dropped during a gather may or may not be part of it", "timed code that panics may or may not be recorded"],
        subs: vec![sub("callbacks", "at least one operation is made from within user code", 70_000, 600_000, || strategy(false), oracle).guide(&["/ops"]),
            sub_one("default", "the same with the default gatherer and the default registry", 4_000, 60_000, || strategy(true), oracle),
            sub_fresh("fresh", "at least one operation is made from within user code", 800, 12_000, || strategy(false), oracle),
            sub_fresh("fresh-default", "the same with the default gatherer and the default registry", 800, 12_000, || strategy(true), oracle),
        ],
    }
}
