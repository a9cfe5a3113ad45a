//! Memory stays bounded by what is alive.
use crate::alloc;
use crate::clock::Virtual;
use crate::engine::*;
use crate::gen::{self, F};
use crate::world::*;
use prometrics::label::Label;
use prometrics::metric::{Metric, MetricFamilies};
use prometrics::metrics::*;
use prometrics::{Collect, Gatherer, Registry};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::fmt::Write;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// A metric that is dropped at the end of the cycle at the latest; the bits say with which gatherers.
    Create(Spec, u8),
    /// The same by a common builder.
    Common(Spec, u8),
    /// A metric with the registry of a gatherer that is gone.
    Orphan(Spec),
    /// A metric that cannot be built.
    Reject(Spec, u8),
    /// Something else that is rejected, or fails; its text is another one each time.
    Refuse(u8, u8),
    Clone(u8),
    Drop(u8),
    /// So many updates.
    Use(u8, F, u16),
    Track(u8, bool),
    Time(u8),
    Label(u8, u8, Option<String>),
    Clear(u8),
    Ts(u8, Option<i64>),
    Look(u8),
    /// Gathers; the result is kept until the next gather that is to be kept begins.
    Gather(u8, bool),
    /// A collector that returns so many metrics in each of so many gathers.
    Collector(u8, u8, u8),
    /// Milliseconds.
    Advance(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    gatherers: u8,
    /// Metrics that live throughout: with which gatherers, and a summary's window in milliseconds.
    base: Vec<(Spec, u8, u16)>,
    cycle: Vec<Op>,
}
const WARM: u32 = 24;
const HALF: u32 = 64;
fn strategy() -> BoxedStrategy<Case> {
    let i = any::<u8>;
    let times = prop_oneof![6 => 1u16..8, 1 => 8u16..60];
    let op = prop_oneof![
        4 => (spec(true), i()).prop_map(|(s, r)| Op::Create(s, r)),
        1 => (spec(true), i()).prop_map(|(s, r)| Op::Common(s, r)),
        1 => spec(true).prop_map(Op::Orphan),
        1 => (spec(true), i()).prop_map(|(s, r)| Op::Reject(s, r)),
        2 => (i(), 0u8..9).prop_map(|(i, k)| Op::Refuse(i, k)),
        1 => i().prop_map(Op::Clone),
        2 => i().prop_map(Op::Drop),
        6 => (i(), gen::dyadic(), times).prop_map(|(i, f, n)| Op::Use(i, f, n)),
        1 => (i(), any::<bool>()).prop_map(|(i, p)| Op::Track(i, p)),
        1 => i().prop_map(Op::Time),
        4 => (i(), 0u8..5, proptest::option::weighted(0.7, gen::text())).prop_map(|(i, n, v)| Op::Label(i, n, v)),
        1 => i().prop_map(Op::Clear),
        1 => (i(), gen::opt_millis()).prop_map(|(i, t)| Op::Ts(i, t)),
        2 => i().prop_map(Op::Look),
        2 => (i(), any::<bool>()).prop_map(|(g, k)| Op::Gather(g, k)),
        1 => (i(), 0u8..4, 0u8..4).prop_map(|(g, l, n)| Op::Collector(g, l, n)),
        2 => (0u16..1500).prop_map(Op::Advance),
    ];
    (1u8..4, prop::collection::vec((spec(true), i(), 1u16..5000), 0..5), prop::collection::vec(op, 1..10)).prop_map(|(gatherers, base, cycle)| Case { gatherers, base, cycle }).boxed()
}
/// Takes so many bytes.
struct Short(usize);
impl std::fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
        Ok(())
    }
}
struct Mortal {
    lives: u8,
    metrics: u8,
}
impl Collect for Mortal {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.lives = self.lives.checked_sub(1)?;
        let v: Vec<Metric> = (0..self.metrics).map(|k| GaugeBuilder::new("collected").label("k", &k.to_string()).finish().unwrap().into()).collect();
        Some(v.into_iter())
    }
}
/// What varies from one cycle to the next has one size.
fn vary(s: &str, cycle: u32) -> String {
    format!("{}{:06}", s, cycle)
}
fn renamed(s: &Spec, cycle: u32) -> Spec {
    let mut s = s.clone();
    s.name = vary(&s.name, cycle);
    s.labels.push(("cycle".into(), vary("", cycle)));
    s
}
fn use_metric(m: &Metric, v: f64) {
    match m {
        Metric::Counter(m) => m.add(v.abs()).expect("non-negative"),
        Metric::Gauge(m) => m.add(v),
        Metric::Histogram(m) => m.observe(v),
        Metric::Summary(m) => m.observe(v),
    }
}
#[derive(Default)]
struct Seen {
    temporary: bool,
    labels: bool,
    samples: bool,
}
/// One life of the whole system. `sizes` gets the memory in use at the end of each cycle.
fn run(c: &Case, clock: &Virtual, sizes: &mut Vec<i64>, seen: &mut Seen) -> R {
    let err = |e| format!("{:?}", e);
    let mut gs: Vec<Gatherer> = (0..c.gatherers).map(|_| Gatherer::new()).collect();
    let rs: Vec<Registry> = gs.iter().map(|g| g.registry()).collect();
    let gone: Registry = Gatherer::new().registry();
    let pick = |bits: &u8| -> Vec<Registry> { rs.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|r| r.1.clone()).collect() };
    let mut base: Vec<Metric> = vec![];
    for (s, r, w) in &c.base {
        let m = create_window(s, &pick(r), Duration::from_millis(*w as u64)).map_err(err)?;
        base.push(m);
    }
    // (Results hold on to the metrics in them. One that were replaced by a later one before it is dropped would pass them on.)
    let mut kept: Option<MetricFamilies> = None;
    for cycle in 0..WARM + 2 * HALF {
        let mut temp: Vec<Metric> = vec![];
        for op in &c.cycle {
            macro_rules! all {
                ($i:expr) => {{
                    let n = base.len() + temp.len();
                    if n == 0 {
                        continue;
                    }
                    let i = *$i as usize % n;
                    if i < base.len() { &mut base[i] } else { &mut temp[i - base.len()] }
                }};
            }
            match op {
                Op::Create(s, r) => temp.push(build(&renamed(s, cycle), &pick(r)).map_err(err)?),
                Op::Common(s, r) => {
                    let s = renamed(s, cycle);
                    let mut b = MetricBuilder::without_registry();
                    b.namespace(s.ns.as_deref().unwrap_or("n")).subsystem("s");
                    s.labels.iter().for_each(|(n, v)| {
                        b.label(n, v);
                    });
                    pick(r).into_iter().for_each(|r| {
                        b.registry(r);
                    });
                    temp.push(match s.data {
                        Data::Counter { .. } => b.counter(&s.name).finish().map_err(err)?.into(),
                        Data::Gauge { .. } => b.gauge(&s.name).finish().map_err(err)?.into(),
                        Data::Hist { .. } => b.histogram(&s.name).finish().map_err(err)?.into(),
                        Data::Summary { .. } => b.summary(&s.name, HOUR).quantile(0.5).finish().map_err(err)?.into(),
                    });
                }
                Op::Orphan(s) => temp.push(build(&renamed(s, cycle), &[gone.clone()]).map_err(err)?),
                Op::Reject(s, r) => {
                    let mut s = renamed(s, cycle);
                    s.labels.push(("__x".into(), "y".into()));
                    ensure!(create(&s, &pick(r)).is_err(), "the label __x is accepted");
                }
                Op::Refuse(i, k) => {
                    let m = all!(i);
                    let text = vary("not-", cycle);
                    let x = cycle as f64 + 1.5;
                    ensure!(
                        match k {
                            0 => labels_mut(m, |l| l.insert(&text, "x")).is_err(),
                            1 => Label::new(&text, &text).is_err(),
                            2 => CounterBuilder::new(&text).finish().is_err(),
                            3 => GaugeBuilder::new("a").namespace(&text).finish().is_err(),
                            4 => HistogramBuilder::new("a").help(&text).bucket(f64::NAN).bucket(x).finish().is_err(),
                            5 => SummaryBuilder::new("a", HOUR).help(&text).quantile(x).finish().is_err(),
                            6 => SummaryBuilder::new("a", HOUR).label("quantile", &text).finish().is_err(),
                            7 => match m {
                                Metric::Counter(m) => m.add(-x).is_err(),
                                _ => GaugeBuilder::new(&text).finish().is_err(),
                            },
                            _ => write!(Short(cycle as usize % 40), "{}{:40}", m.labels(), "").is_err(),
                        },
                        "an invalid operation ({}) is accepted",
                        k
                    );
                }
                Op::Clone(i) => {
                    let m = all!(i).clone();
                    temp.push(m);
                }
                Op::Drop(i) => {
                    if !temp.is_empty() {
                        let i = *i as usize % temp.len();
                        temp.remove(i);
                    }
                }
                Op::Use(i, v, n) => {
                    let m = all!(i);
                    for k in 0..*n {
                        use_metric(m, v.0 + k as f64 + cycle as f64);
                    }
                    seen.samples |= matches!(m, Metric::Summary(_));
                }
                Op::Track(i, panics) => {
                    if let Metric::Gauge(g) = all!(i) {
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            g.track_inprogress(|| {
                                if *panics {
                                    std::panic::resume_unwind(Box::new(7u8));
                                }
                            })
                        }));
                    }
                }
                Op::Time(i) => match all!(i) {
                    Metric::Counter(m) => m.time(|| ()),
                    Metric::Gauge(m) => m.time(|| m.set_to_current_time()),
                    Metric::Histogram(m) => m.time(|| ()),
                    Metric::Summary(m) => m.time(|| ()),
                },
                Op::Label(i, n, v) => {
                    let m = all!(i);
                    let n = ["a", "b", "c", "d", "__bad"][*n as usize % 5];
                    labels_mut(m, |l| match v {
                        Some(v) => drop(l.insert(n, &vary(v, cycle))),
                        None => drop(l.remove(n)),
                    });
                    seen.labels = true;
                }
                Op::Clear(i) => labels_mut(all!(i), |l| l.clear()),
                Op::Ts(i, t) => set_ts(all!(i), *t),
                Op::Look(i) => {
                    let m = all!(i);
                    let mut n = display(m).len() + label_vec(m.labels()).len() + usize::from(m.labels().get("a").is_some());
                    n += match m {
                        Metric::Counter(_) | Metric::Gauge(_) => 0,
                        Metric::Histogram(m) => m.buckets().len() + m.cumulative_buckets().count(),
                        Metric::Summary(m) => m.quantiles().len(),
                    };
                    std::hint::black_box(n);
                }
                Op::Gather(g, keep) => {
                    let g = *g as usize % gs.len();
                    if *keep {
                        drop(kept.take());
                    }
                    let f = gs[g].gather();
                    std::hint::black_box(f.to_text().len());
                    if *keep {
                        kept = Some(f);
                    }
                }
                Op::Collector(g, lives, metrics) => rs[*g as usize % rs.len()].register(Mortal { lives: *lives, metrics: *metrics }),
                Op::Advance(ms) => clock.advance(Duration::from_millis(*ms as u64)),
            }
        }
        seen.temporary |= !temp.is_empty();
        drop(temp);
        for g in &mut gs {
            drop(g.gather());
        }
        clock.advance(Duration::from_millis(1000));
        sizes.push(alloc::in_use());
    }
    drop(kept);
    Ok(())
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut seen = Seen::default();
    let mut ends = vec![];
    // The first time, what is made once and for all is made.
    for _ in 0..2 {
        let clock = Virtual::new();
        let mut sizes = Vec::with_capacity((WARM + 2 * HALF) as usize);
        let before = alloc::in_use();
        run(c, &clock, &mut sizes, &mut seen)?;
        ends.push(alloc::in_use() - before);
        let most = |from: u32| *sizes[from as usize..][..HALF as usize].iter().max().unwrap() - before;
        let (a, b) = (most(WARM), most(WARM + HALF));
        ensure!(b <= a, "the same cycle of operations, over and over, takes more and more memory: up to {} bytes in cycles {}..{}, up to {} in cycles {}..{}", a, WARM, WARM + HALF, b, WARM + HALF, WARM + 2 * HALF);
    }
    ensure!(ends[1] == 0, "after everything was dropped, {} bytes are still in use", ends[1]);
    cx.class_if(seen.temporary, "metrics that come and go");
    cx.class_if(seen.labels, "labels that change");
    cx.class_if(seen.samples, "summaries in use");
    cx.class_if(c.cycle.iter().any(|o| matches!(o, Op::Gather(_, true))), "kept results");
    cx.class_if(c.cycle.iter().any(|o| matches!(o, Op::Collector(..))), "custom collectors");
    cx.class_if(c.cycle.iter().any(|o| matches!(o, Op::Reject(..) | Op::Refuse(..))), "rejected operations");
    cx.nontrivial(seen.temporary as u8 + seen.labels as u8 + seen.samples as u8 >= 2);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C24",
        level: "exploration",
        assumptions: &["memory is what the testing thread has allocated and not freed, through the global allocator", "every gatherer gathers at the end of each cycle", "schedules: interleavings are those of single steps between loads, stores and branches of the crate; reorderings by the memory model are not explored"],
        subs: vec![
            sub("cycles", "two or more of: metrics that come and go, labels that change, summaries in use", 4_000, 150_000, strategy, oracle).guide(&["/base", "/cycle"]),
            sub("schedules", crate::conc::RULE, 36000, 300000, || crate::conc::strategy(&KINDS, true), crate::conc::leak_oracle).guide(crate::conc::LISTS),
            sub_fresh("fresh", "two or more of: metrics that come and go, labels that change, summaries in use", 800, 12_000, strategy, oracle),
            sub_fresh("fresh-schedules", crate::conc::RULE, 800, 12_000, || crate::conc::strategy(&KINDS, true), crate::conc::leak_oracle),
        ],
    }
}
