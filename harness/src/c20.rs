//! The common builder equals configuring each metric by hand.
use crate::clock::Virtual;
use crate::engine::*;
use crate::gen;
use crate::world::*;
use prometrics::metric::{Metric, MetricFamilies};
use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, ErrorKind, Gatherer, Registry};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::time::Duration;

const GATHERERS: usize = 3;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Start {
    With(usize),
    Without,
    New,
    Default,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Set {
    Namespace(String),
    Subsystem(String),
    Label(String, String),
    Registry(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    New(Start),
    Configure(usize, Set),
    SetRegistry(usize, usize),
    CloneBuilder(usize),
    Make(usize, Make),
    /// Compares what the gatherers gather.
    Gather,
    /// Drops one of the metrics made.
    Drop(usize),
    /// Time passes (units of 10 ns).
    Advance(u64),
    /// So much time passes as the window of the last metric made has, and a little more or less.
    AdvanceWindow(i8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Make {
    name: String,
    help: Option<String>,
    /// The metric's own settings, before it is finished.
    own: Vec<Set>,
    /// One entry per time the builder is finished: what that metric is used for.
    data: Vec<(Data, Option<i64>)>,
    /// Own settings made after the first time it is finished.
    later: Vec<Set>,
    /// A summary's window (units of 10 ns, plus 5 ns).
    #[serde(default)]
    window: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}
fn mostly_valid(valid: BoxedStrategy<String>) -> BoxedStrategy<String> {
    prop_oneof![24 => valid, 1 => prop::sample::select(&["", "0", "a-b", "é", "__a", "le", "quantile", "a b", "a:b"][..]).prop_map(|s| s.to_string())].boxed()
}
fn set() -> BoxedStrategy<Set> {
    let label = prop_oneof![3 => prop::sample::select(&["a", "b", "c"][..]).prop_map(|s| s.to_string()), 1 => gen::label_name()].boxed();
    prop_oneof![
        2 => mostly_valid(gen::name_part()).prop_map(Set::Namespace),
        2 => mostly_valid(gen::name_part()).prop_map(Set::Subsystem),
        6 => (mostly_valid(label), prop_oneof![3 => prop::sample::select(&["", "x", "y"][..]).prop_map(|s| s.to_string()), 1 => gen::text()]).prop_map(|(n, v)| Set::Label(n, v)),
        2 => (0usize..GATHERERS).prop_map(Set::Registry),
    ]
    .boxed()
}
fn make() -> BoxedStrategy<Make> {
    let name = prop_oneof![2 => prop::sample::select(&["a", "b"][..]).prop_map(|s| s.to_string()), 1 => gen::name_part()].boxed();
    let data = kind().prop_flat_map(|k| prop::collection::vec((data(k, true), gen::opt_millis()), 1..4)).prop_map(|mut v| {
        // One builder: one set of bounds or quantiles.
        let first = v[0].0.clone();
        for (d, _) in &mut v {
            match (d, &first) {
                (Data::Hist { bounds, .. }, Data::Hist { bounds: b, .. }) => *bounds = b.clone(),
                (Data::Summary { quantiles, .. }, Data::Summary { quantiles: q, .. }) => *quantiles = q.clone(),
                _ => {}
            }
        }
        v
    });
    let own = || prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(set(), 0..4)];
    let data = prop_oneof![40 => data.clone(), 1 => (data, prop_oneof![9 => 4usize..80, 1 => prop::sample::select(crate::dict::sizes(120)).prop_map(|n| (n as usize).max(1))]).prop_map(|(d, n)| (0..n).map(|i| d[i % d.len()].clone()).collect::<Vec<_>>())];
    let window = proptest::option::of(crate::c05::span());
    (mostly_valid(name), gen::help(), own(), data, own(), window).prop_map(|(name, help, own, data, later, window)| Make { name, help, own, data, later, window }).boxed()
}
fn strategy(global: bool, len: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    let start = if global {
        prop_oneof![2 => Just(Start::New), 1 => Just(Start::Default), 1 => (0usize..GATHERERS).prop_map(Start::With)].boxed()
    } else {
        prop_oneof![2 => (0usize..GATHERERS).prop_map(Start::With), 1 => Just(Start::Without)].boxed()
    };
    let i = any::<usize>;
    let op = prop_oneof![
        1 => start.clone().prop_map(Op::New),
        8 => (i(), set()).prop_map(|(b, s)| Op::Configure(b, s)),
        1 => (i(), 0usize..GATHERERS).prop_map(|(b, r)| Op::SetRegistry(b, r)),
        1 => i().prop_map(Op::CloneBuilder),
        6 => (i(), make()).prop_map(|(b, m)| Op::Make(b, m)),
        2 => Just(Op::Gather),
        1 => i().prop_map(Op::Drop),
        1 => crate::c05::span().prop_map(Op::Advance),
        1 => (-3i8..3).prop_map(Op::AdvanceWindow),
    ];
    (start, prop::collection::vec(op, len)).prop_map(|(s, mut ops)| {
        ops.insert(0, Op::New(s));
        Case { ops }
    })
    .boxed()
}
#[derive(Clone, Default)]
struct Model {
    ns: Option<String>,
    sub: Option<String>,
    labels: Vec<(String, String)>,
    /// The default gatherer has the number GATHERERS.
    regs: Vec<usize>,
}
macro_rules! apply_sets {
    ($b:expr, $sets:expr, $regs:expr) => {
        for s in $sets {
            match s {
                Set::Namespace(x) => $b.namespace(x),
                Set::Subsystem(x) => $b.subsystem(x),
                Set::Label(n, v) => $b.label(n, v),
                Set::Registry(i) => $b.registry($regs[*i].clone()),
            };
        }
    };
}
macro_rules! own_opts {
    (Hist, $b:expr, $d:expr) => {
        if let Data::Hist { bounds, .. } = $d {
            $b.buckets(gen::raw(bounds));
        }
    };
    (Summary, $b:expr, $d:expr) => {
        if let Data::Summary { quantiles, .. } = $d {
            for q in quantiles {
                $b.quantile(q.0);
            }
        }
    };
    ($k:ident, $b:expr, $d:expr) => {};
}
/// What a metric's own builder must produce, `configured` and finished from scratch each time.
macro_rules! by_hand {
    ($k:ident, $new:expr, $m:expr, $model:expr, $regs:expr, $k_th:expr) => {{
        let mut b = $new;
        if let Some(x) = &$model.ns {
            b.namespace(x);
        }
        if let Some(x) = &$model.sub {
            b.subsystem(x);
        }
        for (n, v) in &$model.labels {
            b.label(n, v);
        }
        for r in &$model.regs {
            b.registry($regs[*r].clone());
        }
        if let Some(h) = &$m.help {
            b.help(h);
        }
        own_opts!($k, b, &$m.data[0].0);
        apply_sets!(b, &$m.own, $regs);
        if $k_th > 0 {
            apply_sets!(b, &$m.later, $regs);
        }
        b.finish().map(Metric::from)
    }};
}
macro_rules! common {
    ($k:ident, $b:expr, $m:expr, $regs:expr) => {{
        let mut b = $b;
        if let Some(h) = &$m.help {
            b.help(h);
        }
        own_opts!($k, b, &$m.data[0].0);
        apply_sets!(b, &$m.own, $regs);
        let mut out = vec![];
        for k in 0..$m.data.len() {
            if k == 1 {
                apply_sets!(b, &$m.later, $regs);
            }
            out.push(b.finish().map(Metric::from));
        }
        out
    }};
}
fn describe(m: &Metric) -> String {
    let n = m.name();
    format!("{:?} {:?} {:?} {:?} help {:?} labels {:?}\n{}", m.kind(), n.namespace(), n.subsystem(), n.name(), help_of(m), label_vec(m.labels()), display(m))
}
/// The text, without what is not determined: the help of families whose members differ in it (as they do here), and the
/// sign of a bound or quantile that is zero.
fn text(f: &MetricFamilies) -> String {
    let lines: Vec<String> = f.to_text().lines().filter(|l| !l.starts_with("# HELP ")).map(|l| l.replace("=\"-0\"", "=\"0\"")).collect();
    lines.join("\n")
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let clock = Virtual::new();
    // Two worlds: metrics of the common builder and metrics made by hand. The last gatherer is the default one.
    let mut ga: Vec<Gatherer> = (0..GATHERERS).map(|_| Gatherer::new()).collect();
    let mut gb: Vec<Gatherer> = (0..=GATHERERS).map(|_| Gatherer::new()).collect();
    let ra: Vec<Registry> = ga.iter().map(|g| g.registry()).collect();
    let rb: Vec<Registry> = gb.iter().map(|g| g.registry()).collect();
    let uses_default = c.ops.iter().any(|o| matches!(o, Op::New(Start::New | Start::Default)));
    if uses_default {
        // What a failing case may have left.
        default_gatherer().clear_poison();
        default_gatherer().lock().unwrap().gather();
        let before = default_gatherer().lock().unwrap().gather();
        ensure!(before.as_ref().is_empty(), "the default gatherer is not empty at the start of a case:\n{}", before.to_text());
        let _ = default_registry();
    }
    let mut builders: Vec<(MetricBuilder, Model)> = vec![];
    let mut metrics: Vec<(Metric, Metric)> = vec![];
    let (mut shared, mut failed, mut several, mut reused) = (0usize, 0, false, false);
    let mut makes_per_builder: Vec<u32> = vec![];
    let mut last_window = 1u64;
    let win = |m: &Make| m.window.map_or(HOUR, crate::c05::window);
    for op in c.ops.iter().chain([&Op::Gather]) {
        let n = builders.len();
        let pick = |i: &usize| i % n.max(1);
        if n == 0 && !matches!(op, Op::New(_) | Op::Gather | Op::Advance(_) | Op::AdvanceWindow(_)) {
            continue;
        }
        match op {
            Op::New(s) => {
                let (b, regs) = match s {
                    Start::With(i) => (MetricBuilder::with_registry(ra[*i].clone()), vec![*i]),
                    Start::Without => (MetricBuilder::without_registry(), vec![]),
                    Start::New => (MetricBuilder::new(), vec![GATHERERS]),
                    Start::Default => (MetricBuilder::default(), vec![GATHERERS]),
                };
                builders.push((b, Model { regs, ..Model::default() }));
                makes_per_builder.push(0);
            }
            Op::Configure(i, s) => {
                let i = pick(i);
                let (b, m) = &mut builders[i];
                apply_sets!(b, [s], ra);
                match s {
                    Set::Namespace(x) => m.ns = Some(x.clone()),
                    Set::Subsystem(x) => m.sub = Some(x.clone()),
                    Set::Label(n, v) => m.labels.push((n.clone(), v.clone())),
                    Set::Registry(r) => m.regs.push(*r),
                }
                reused |= makes_per_builder[i] > 0;
            }
            Op::SetRegistry(i, r) => {
                let (b, m) = &mut builders[pick(i)];
                b.set_registry(ra[*r].clone());
                m.regs = vec![*r];
            }
            Op::CloneBuilder(i) => {
                let x = builders[pick(i)].clone();
                builders.push(x);
                makes_per_builder.push(0);
            }
            Op::Make(i, mk) => {
                let i = pick(i);
                let (b, model) = &builders[i];
                last_window = mk.window.unwrap_or(last_window);
                makes_per_builder[i] += 1;
                let got = match &mk.data[0].0 {
                    Data::Counter { .. } => common!(Counter, b.counter(&mk.name), mk, ra),
                    Data::Gauge { .. } => common!(Gauge, b.gauge(&mk.name), mk, ra),
                    Data::Hist { .. } => common!(Hist, b.histogram(&mk.name), mk, ra),
                    Data::Summary { .. } => common!(Summary, b.summary(&mk.name, win(mk)), mk, ra),
                };
                let mut group: Vec<(Metric, Metric)> = vec![];
                for (k, g) in got.into_iter().enumerate() {
                    let h = match &mk.data[0].0 {
                        Data::Counter { .. } => by_hand!(Counter, CounterBuilder::new(&mk.name), mk, model, rb, k),
                        Data::Gauge { .. } => by_hand!(Gauge, GaugeBuilder::new(&mk.name), mk, model, rb, k),
                        Data::Hist { .. } => by_hand!(Hist, HistogramBuilder::new(&mk.name), mk, model, rb, k),
                        Data::Summary { .. } => by_hand!(Summary, SummaryBuilder::new(&mk.name, win(mk)), mk, model, rb, k),
                    };
                    match (g, h) {
                        (Ok(g), Ok(h)) => {
                            ensure!(describe(&g) == describe(&h), "the common builder's metric is {}\nbut by hand it is {}", describe(&g), describe(&h));
                            group.push((g, h));
                        }
                        (Err(g), Err(h)) => {
                            ensure!(*g.kind() == ErrorKind::InvalidInput && *h.kind() == ErrorKind::InvalidInput, "rejected with {:?} and {:?}", g, h);
                            failed += 1;
                        }
                        (g, h) => return Err(format!("with the common builder: {:?}, by hand: {:?}", g.map(|m| describe(&m)), h.map(|m| describe(&m)))),
                    }
                }
                // The metrics of one builder are independent: each use shows on one only.
                several |= group.len() > 1;
                for k in 0..group.len() {
                    // (Of large groups, the first and the last are enough.)
                    let watch = k < 3 || k + 1 == group.len();
                    let others: Vec<String> = if watch { group.iter().map(|x| describe(&x.0)).collect() } else { vec![] };
                    let (d, ts) = &mk.data[k];
                    let spec = Spec { ns: None, sub: None, name: String::new(), help: None, labels: vec![], ts: *ts, data: d.clone() };
                    apply(&group[k].0, &spec);
                    apply(&group[k].1, &spec);
                    if let Data::Counter { .. } = d {
                        if k == 0 {
                            labels_mut(&mut group[k].0, |l| l.insert("own", "1")).map_err(|e| format!("{:?}", e))?;
                            labels_mut(&mut group[k].1, |l| l.insert("own", "1")).map_err(|e| format!("{:?}", e))?;
                        }
                    }
                    for (j, x) in group.iter().enumerate().take(others.len()) {
                        ensure!(j == k || describe(&x.0) == others[j], "using one metric changed another of the same builder from {} to {}", others[j], describe(&x.0));
                    }
                    ensure!(describe(&group[k].0) == describe(&group[k].1), "used alike, the metrics are {} and {}", describe(&group[k].0), describe(&group[k].1));
                }
                if makes_per_builder[i] > 1 {
                    shared += 1;
                }
                metrics.extend(group);
            }
            Op::Advance(u) => clock.advance(Duration::from_nanos(u * 10)),
            Op::AdvanceWindow(d) => clock.advance(Duration::from_nanos((last_window * 10).saturating_add_signed(*d as i64 * 10))),
            Op::Drop(i) => {
                if !metrics.is_empty() {
                    let i = i % metrics.len();
                    metrics.swap_remove(i);
                }
            }
            Op::Gather => {
                for i in 0..=GATHERERS {
                    let a = if i < GATHERERS {
                        ga[i].gather()
                    } else if uses_default {
                        default_gatherer().lock().unwrap().gather()
                    } else {
                        continue;
                    };
                    let b = gb[i].gather();
                    ensure!(text(&a) == text(&b), "gatherer {} with common builders:\n{}\nby hand:\n{}", i, text(&a), text(&b));
                }
                // The metrics have kept everything.
                for (a, b) in &metrics {
                    ensure!(describe(a) == describe(b), "later, the metrics are {} and {}", describe(a), describe(b));
                }
            }
        }
    }
    drop(metrics);
    if uses_default {
        let _ = default_gatherer().lock().unwrap().gather();
    }
    cx.class_if(shared > 0, "several metrics of one common builder");
    cx.class_if(several, "one builder finished several times");
    cx.class_if(reused, "configured further after making metrics");
    cx.class_if(failed > 0, "rejected either way");
    cx.class_if(uses_default, "the default registry");
    cx.nontrivial(shared > 0 || several);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C20",
        level: "exploration",
        assumptions: &["metrics made by hand are those of the individual builders, which C01-C13 check on their own"],
        subs: vec![
            sub("scripts", "several metrics made by one common builder, or one builder finished several times", 12_000, 500_000, || strategy(false, 3..25), oracle).guide(&["/ops"]),
            sub_one("default", "the same, with builders that begin with the default registry", 3_000, 120_000, || strategy(true, 3..25), oracle),
            sub("long", "the same as scripts, with 60..250 operations", 150, 6_000, || strategy(false, 60..250), oracle),
            sub_fresh("fresh", "several metrics made by one common builder, or one builder finished several times", 800, 12_000, || strategy(false, 3..25), oracle),
            sub_fresh("fresh-default", "the same, with builders that begin with the default registry", 800, 12_000, || strategy(true, 3..25), oracle),
        ],
    }
}
