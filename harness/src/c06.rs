//! A metric is gathered exactly by its registries, exactly while it is alive.
use crate::c03::{near_labels, near_name};
use crate::engine::*;
use crate::gen::{self, F};
use crate::world::*;
use prometrics::metric::Metric;
use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, Gatherer, Registry};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, Ordering};

const GATHERERS: usize = 3;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    /// Registries given to the metric's own builder.
    Builder,
    /// Registries given to a common builder.
    Common,
    /// The metric's collector registered by hand.
    Collector,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// `on`: bit per gatherer; bits 3 to 6: registries of gatherers that are gone, before, between and after those; bit 7:
    /// in reverse order.
    Create { spec: Spec, on: u8, how: How },
    /// Another registration, with gatherers that do not have the metric yet.
    Register(usize, u8),
    Clone(usize),
    /// Drops one clone (possibly the last) of a metric.
    Drop(usize, bool),
    /// Drops every clone of several metrics.
    DropMany(Vec<usize>),
    Update(usize, F),
    Gather(usize),
    /// Replaces a gatherer by a new one; the old registry handles are used once more.
    Replace(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}
struct M {
    spec: Spec,
    on: [bool; GATHERERS],
    clones: Vec<Metric>,
}
pub fn register(r: &Registry, m: &Metric) {
    match m {
        Metric::Counter(m) => r.register(m.collector()),
        Metric::Gauge(m) => r.register(m.collector()),
        Metric::Histogram(m) => r.register(m.collector()),
        Metric::Summary(m) => r.register(m.collector()),
    }
}
macro_rules! rest {
    ($b:expr, $s:expr) => {{
        if let Some(x) = &$s.help {
            $b.help(x);
        }
    }};
}
pub fn build_common(s: &Spec, regs: &[Registry]) -> prometrics::Result<Metric> {
    let mut c = MetricBuilder::without_registry();
    if let Some(x) = &s.ns {
        c.namespace(x);
    }
    if let Some(x) = &s.sub {
        c.subsystem(x);
    }
    for (k, v) in &s.labels {
        c.label(k, v);
    }
    for r in regs {
        c.registry(r.clone());
    }
    let m: Metric = match &s.data {
        Data::Counter { .. } => {
            let mut b = c.counter(&s.name);
            rest!(b, s);
            b.finish()?.into()
        }
        Data::Gauge { .. } => {
            let mut b = c.gauge(&s.name);
            rest!(b, s);
            b.finish()?.into()
        }
        Data::Hist { bounds, .. } => {
            let mut b = c.histogram(&s.name);
            rest!(b, s);
            b.buckets(gen::raw(bounds));
            b.finish()?.into()
        }
        Data::Summary { quantiles, .. } => {
            let mut b = c.summary(&s.name, HOUR);
            rest!(b, s);
            for q in quantiles {
                b.quantile(q.0);
            }
            b.finish()?.into()
        }
    };
    apply(&m, s);
    Ok(m)
}
fn strategy(ops: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    let spec = (near_name(), near_labels(), gen::opt_millis(), any_data(true)).prop_map(|((ns, sub, name), labels, ts, data)| Spec { ns, sub, name, help: None, labels, ts, data });
    let how = prop_oneof![2 => Just(How::Builder), 1 => Just(How::Common), 1 => Just(How::Collector)];
    let op = prop_oneof![
        6 => (spec, prop_oneof![3 => 0u8..8, 1 => any::<u8>()], how).prop_map(|(spec, on, how)| Op::Create { spec, on, how }),
        1 => (any::<usize>(), 0u8..8).prop_map(|(i, on)| Op::Register(i, on)),
        2 => any::<usize>().prop_map(Op::Clone),
        5 => (any::<usize>(), any::<bool>()).prop_map(|(i, t)| Op::Drop(i, t)),
        1 => prop::collection::vec(any::<usize>(), 1..8).prop_map(Op::DropMany),
        2 => (any::<usize>(), gen::dyadic()).prop_map(|(i, f)| Op::Update(i, f)),
        5 => (0usize..GATHERERS).prop_map(Op::Gather),
        1 => (0usize..40).prop_map(Op::Replace),
    ];
    prop::collection::vec(op, ops).prop_map(|ops| Case { ops }).boxed()
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut gs: Vec<Gatherer> = (0..GATHERERS).map(|_| Gatherer::new()).collect();
    let mut rs: Vec<Registry> = gs.iter().map(|g| g.registry()).collect();
    let mut dead: Vec<Registry> = vec![];
    let mut ms: Vec<M> = vec![];
    let (mut gathers, mut gone_seen, mut kept_by_clone) = (0, false, false);
    let mut died_since = [false; GATHERERS];
    let check = |g: &mut Gatherer, gi: usize, ms: &[M]| -> R {
        let want = expected(ms.iter().filter(|m| m.on[gi]).map(|m| &m.spec));
        check_gather(&g.gather(), &want).map_err(|e| format!("gatherer {}: {}", gi, e))
    };
    for op in &c.ops {
        match op {
            Op::Create { spec, on, how } => {
                let bits = *on;
                let on: Vec<bool> = (0..GATHERERS).map(|i| bits >> i & 1 == 1).collect();
                // Registries: fresh from the gatherer, or clones of one obtained earlier.
                let mut regs: Vec<Registry> = vec![];
                for i in 0..=GATHERERS {
                    if bits >> (3 + i) & 1 == 1 {
                        regs.push(dead.last().cloned().unwrap_or_else(|| Gatherer::new().registry()));
                        cx.class("given to a gatherer that is gone");
                    }
                    if i < GATHERERS && on[i] {
                        regs.push(if ms.len() % 2 == 0 { gs[i].registry() } else { rs[i].clone() });
                    }
                }
                if bits & 128 != 0 {
                    regs.reverse();
                }
                let m = match how {
                    How::Builder => build(spec, &regs),
                    How::Common => build_common(spec, &regs),
                    How::Collector => build(spec, &[]).map(|m| {
                        regs.iter().for_each(|r| register(r, &m));
                        m
                    }),
                }
                .map_err(|e| format!("a valid metric is rejected: {:?}", e))?;
                ms.push(M { spec: spec.clone(), on: [on[0], on[1], on[2]], clones: vec![m] });
                cx.class_if(on.iter().filter(|o| **o).count() > 1, "metric of several registries");
                cx.class_if(on.iter().all(|o| !*o), "metric of no registry");
            }
            Op::Gather(g) => {
                check(&mut gs[*g], *g, &ms)?;
                gathers += 1;
                gone_seen |= died_since[*g] && ms.iter().any(|m| m.on[*g]);
                died_since[*g] = false;
            }
            Op::Replace(g) if *g < GATHERERS => {
                let old = rs[*g].clone();
                gs[*g] = Gatherer::new();
                rs[*g] = gs[*g].registry();
                for m in &mut ms {
                    m.on[*g] = false;
                }
                dead.push(old.clone());
                // A registry whose gatherer is gone accepts metrics and does nothing.
                if let Some(m) = ms.last() {
                    register(&old, &m.clones[0]);
                }
                cx.class("gatherer replaced");
            }
            Op::Replace(_) => {}
            _ if ms.is_empty() => {}
            Op::Register(i, on) => {
                let i = i % ms.len();
                for g in 0..GATHERERS {
                    if on >> g & 1 == 1 && !ms[i].on[g] {
                        register(&rs[g], &ms[i].clones[0]);
                        ms[i].on[g] = true;
                        cx.class("registered later");
                    }
                }
            }
            Op::Clone(i) => {
                let i = i % ms.len();
                let m = ms[i].clones[0].clone();
                ms[i].clones.push(m);
            }
            Op::Drop(i, thread) => {
                let i = i % ms.len();
                let m = ms[i].clones.remove(0); // the oldest handle goes first
                if *thread && c.ops.len() < 20 {
                    std::thread::spawn(move || drop(m)).join().unwrap();
                } else {
                    drop(m);
                }
                if ms[i].clones.is_empty() {
                    let dead = ms.remove(i);
                    for g in 0..GATHERERS {
                        died_since[g] |= dead.on[g];
                    }
                } else {
                    kept_by_clone = true;
                }
            }
            Op::DropMany(v) => {
                for i in v {
                    if !ms.is_empty() {
                        let dead = ms.remove(i % ms.len());
                        for g in 0..GATHERERS {
                            died_since[g] |= dead.on[g];
                        }
                    }
                }
            }
            Op::Update(i, f) => {
                let i = i % ms.len();
                let m = &mut ms[i];
                match (m.clones.last().unwrap(), &mut m.spec.data) {
                    (Metric::Counter(h), Data::Counter { adds }) => {
                        h.add(f.0.abs()).map_err(|e| format!("add: {:?}", e))?;
                        adds.push(F(f.0.abs()));
                    }
                    (Metric::Gauge(h), Data::Gauge { value }) => {
                        h.set(f.0);
                        *value = *f;
                    }
                    (Metric::Histogram(h), Data::Hist { obs, .. }) => {
                        h.observe(f.0);
                        obs.push(*f);
                    }
                    (Metric::Summary(h), Data::Summary { obs, .. }) => {
                        h.observe(f.0);
                        obs.push(*f);
                    }
                    _ => unreachable!(),
                }
            }
        }
    }
    for g in 0..GATHERERS {
        check(&mut gs[g], g, &ms)?;
    }
    cx.class_if(gone_seen, "gather with some metrics gone and some left");
    cx.class_if(kept_by_clone, "metric kept by a clone");
    cx.nontrivial(gathers > 0 && gone_seen);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DefaultCase {
    specs: Vec<Spec>,
    how: Vec<u8>,
    drops: Vec<usize>,
    /// Before this metric is made, some code panics while it holds the default gatherer.
    #[serde(default)]
    panic: Option<usize>,
}
fn default_strategy() -> BoxedStrategy<DefaultCase> {
    (prop::collection::vec(spec(true), 1..6), prop::collection::vec(0u8..3, 6), prop::collection::vec(any::<usize>(), 0..5), prop::option::weighted(0.3, 0usize..6)).prop_map(|(specs, how, drops, panic)| DefaultCase { specs, how, drops, panic }).boxed()
}
/// The default registry is shared by the whole process, so each case uses names of its own in it.
fn default_oracle(c: &DefaultCase, cx: &mut Cx) -> R {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    // What a failing case may have left.
    default_gatherer().clear_poison();
    let tag = format!("case{}_{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed));
    let mut specs = c.specs.clone();
    for s in &mut specs {
        s.ns = Some(tag.clone());
    }
    unify_help(&mut specs);
    let mut ms = vec![];
    for (i, (s, how)) in specs.iter().zip(&c.how).enumerate() {
        if c.panic == Some(i) {
            let _ = std::panic::catch_unwind(|| {
                let _guard = default_gatherer().lock();
                std::panic::resume_unwind(Box::new(()))
            });
        }
        let m = match how {
            0 => build(s, &[default_registry()]),
            1 => build_common(s, &[default_registry()]),
            _ => build(s, &[]).map(|m| {
                register(&default_registry(), &m);
                m
            }),
        };
        ms.push(m.map_err(|e| format!("a valid metric is rejected: {:?}", e))?);
    }
    // `default_registry()` of the builders
    let extra = CounterBuilder::new("extra").namespace(&tag).default_registry().finish().unwrap();
    let extra2 = GaugeBuilder::new("extra2").namespace(&tag).default_registry().finish().unwrap();
    let extra3 = HistogramBuilder::new("extra3").namespace(&tag).default_registry().finish().unwrap();
    let extra4 = SummaryBuilder::new("extra4", HOUR).namespace(&tag).default_registry().finish().unwrap();
    let extra5 = MetricBuilder::new().namespace(&tag).counter("extra5").finish().unwrap();
    let extras = |names: &[(&str, Data)]| -> Vec<Spec> { names.iter().map(|(n, d)| Spec { ns: Some(tag.clone()), sub: None, name: n.to_string(), help: None, labels: vec![], ts: None, data: d.clone() }).collect() };
    let ex = extras(&[
        ("extra", Data::Counter { adds: vec![] }),
        ("extra2", Data::Gauge { value: F(0.0) }),
        ("extra3", Data::Hist { bounds: vec![], obs: vec![] }),
        ("extra4", Data::Summary { quantiles: vec![], obs: vec![] }),
        ("extra5", Data::Counter { adds: vec![] }),
    ]);
    let look = |want: &Expected| -> R {
        // The result is kept no longer than needed: it keeps the metrics in it alive.
        let got = default_gatherer().lock().unwrap_or_else(|e| e.into_inner()).gather();
        let text: String = got.as_ref().iter().filter(|f| f.name().to_string().starts_with(&format!("{}_", tag))).map(|f| f.to_string()).collect();
        check_text(&text, want)
    };
    look(&expected(specs.iter().chain(&ex)))?;
    default_gatherer().clear_poison();
    drop((extra, extra2, extra3, extra4, extra5));
    for d in &c.drops {
        if !ms.is_empty() {
            let d = d % ms.len();
            ms.remove(d);
            specs.remove(d);
        }
    }
    look(&expected(&specs))?;
    cx.class_if(!c.drops.is_empty(), "some dropped");
    cx.nontrivial(!c.drops.is_empty() && c.specs.len() > 1);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C06",
        level: "exploration",
        assumptions: &["no gather result is kept across a later gather (results hold on to the metrics in them)", "a metric is never registered twice with one gatherer"],
        subs: vec![
            sub("lifecycle", "a gather after some metrics of the gatherer died and some are left", 16_000, 600_000, || strategy(1..30), oracle).guide(&["/ops"]),
            sub("long", "the same, with 100..500 operations", 200, 8_000, || strategy(100..500), oracle),
            sub("schedules", crate::regs::RULE, 48000, 600_000, || crate::regs::strategy(crate::regs::About::Lives, false), crate::regs::oracle).guide(crate::regs::LISTS),
            sub("crowd", "gatherers of up to thousands of metrics: 100 or more alive at a gather", 400, 16_000, crate::crowd::mixed, crate::crowd::oracle),
            sub("registries", "one metric given to more than 8 registries", 300, 12_000, crate::scale::everywhere, crate::scale::everywhere_oracle),
            sub_one("default", "several metrics, some of which are dropped, in the default registry", 500, 20_000, default_strategy, default_oracle),
            sub_fresh("fresh", "a gather after some metrics of the gatherer died and some are left", 800, 12_000, || strategy(1..30), oracle),
            sub_fresh("fresh-schedules", crate::regs::RULE, 800, 12_000, || crate::regs::strategy(crate::regs::About::Lives, true), crate::regs::oracle),
            sub_fresh("fresh-default", "several metrics, some of which are dropped, in the default registry", 800, 12_000, default_strategy, default_oracle),
        ],
    }
}
