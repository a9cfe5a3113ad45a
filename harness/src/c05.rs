//! Summaries with one identity pool their samples.
use crate::c03::{near_labels, near_name};
use crate::clock::{self, Virtual};
use crate::engine::*;
use crate::gen::{self, F};
use crate::world::*;
use prometrics::metric::Metric;
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Observe(usize, F),
    /// Time passes, in units of 10 ns.
    Advance(u64),
    /// The wall clock is adjusted by so many ns; no time passes.
    Step(i64),
    Gather,
    Ts(usize, Option<i64>),
    Drop(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// With the window in units of 10 ns (5 ns are added, so that no sample's age ever equals the window).
    members: Vec<(Spec, u64)>,
    ops: Vec<Op>,
}
pub fn window(units: u64) -> Duration {
    Duration::from_nanos(5) + Duration::from_secs(units / 100_000_000) + Duration::from_nanos(units % 100_000_000 * 10)
}
/// Spans of time in units of 10 ns: from 10 ns to days, concentrated around round values.
pub fn span() -> BoxedStrategy<u64> {
    let base = vec![1u64, 10, 100_000, 50_000_000, 99_999_999, 100_000_000, 100_000_001, 150_000_000, 200_000_000, 6_000_000_000, 360_000_000_000];
    // 2^32 ns, us, ms and s; 2^31 s.
    let wide = vec![429_496_729u64, 429_496_730, 429_496_729_600, 429_496_729_600_000, 214_748_364_800_000_000, 429_496_729_600_000_000];
    prop_oneof![
        4 => prop::sample::select(base.clone()),
        1 => (prop::sample::select(wide), 0u64..3, prop::sample::select(base.clone())).prop_map(|(w, d, b)| w * d.max(1) + b * (d % 2)),
        3 => (prop::sample::select(base), 0u64..3).prop_map(|(b, d)| b * (d + 1)),
        1 => prop::sample::select(crate::dict::spans()).prop_map(|ns| ns / 10 + 1),
        2 => 0u64..400_000_000,
        1 => 0u64..1_000,
        1 => 0u64..20_000_000_000_000,
    ]
    .boxed()
}
/// Adjustments of the wall clock (ns), forth and back.
pub fn step() -> BoxedStrategy<i64> {
    prop_oneof![
        2 => (span(), any::<bool>()).prop_map(|(u, back)| (u.min(50_000_000_000_000_000) as i64 + 1) * if back { -10 } else { 10 }),
        1 => -10_000_000_000i64..10_000_000_000,
    ]
    .boxed()
}
fn strategy(members: BoxedStrategy<usize>, ops: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    let v = || prop_oneof![6 => (-9i32..9).prop_map(|i| F(i as f64)), 3 => gen::dyadic(), 2 => gen::any_f64(), 1 => Just(F(f64::NAN))].boxed();
    let op = prop_oneof![
        12 => (any::<usize>(), v()).prop_map(|(i, f)| Op::Observe(i, f)),
        4 => span().prop_map(Op::Advance),
        1 => step().prop_map(Op::Step),
        2 => Just(Op::Gather),
        1 => (any::<usize>(), gen::opt_millis()).prop_map(|(i, t)| Op::Ts(i, t)),
        1 => any::<usize>().prop_map(Op::Drop),
    ];
    let member = (prop::collection::vec(gen::quantile(), 0..5), gen::opt_millis(), span(), any::<u8>());
    (members.prop_flat_map(move |n| prop::collection::vec(member.clone(), n)), prop::collection::vec((near_name(), near_labels()), 1..3), prop::collection::vec(op, ops))
        .prop_map(|(m, ids, ops)| {
            let members = m
                .into_iter()
                .map(|(quantiles, ts, w, pick)| {
                    let id = if pick < 190 { &ids[0] } else { &ids[pick as usize % ids.len()] };
                    (Spec { ns: id.0 .0.clone(), sub: id.0 .1.clone(), name: id.0 .2.clone(), help: None, labels: id.1.clone(), ts, data: Data::Summary { quantiles, obs: vec![] } }, w)
                })
                .collect();
            Case { members, ops }
        })
        .boxed()
}
struct M {
    spec: Spec,
    metric: Metric,
    window: Duration,
    /// (age, value)
    all: Vec<(u128, f64)>,
}
fn model(ms: &[M], now: u128) -> Expected {
    // Counts and sums cover everything, the pool only what is within each member's own window.
    let specs: Vec<Spec> = ms
        .iter()
        .map(|m| {
            let mut s = m.spec.clone();
            if let Data::Summary { obs, .. } = &mut s.data {
                *obs = m.all.iter().map(|a| F(a.1)).collect();
            }
            s
        })
        .collect();
    let mut want = expected(&specs);
    for f in want.iter_mut() {
        for s in f.1.series.iter_mut() {
            if let Exp::Summary { pool, .. } = &mut s.1.val {
                *pool = ms
                    .iter()
                    .filter(|m| m.spec.full() == f.0 .0 && &m.spec.label_map() == s.0)
                    .flat_map(|m| m.all.iter().filter(|a| now - a.0 < m.window.as_nanos()).map(|a| a.1))
                    .filter(|v| !v.is_nan())
                    .collect();
            }
        }
    }
    want
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let clock = Virtual::new();
    let mut now = 0u128;
    let mut g = Gatherer::new();
    let regs = [g.registry()];
    let mut ms = vec![];
    for (spec, w) in &c.members {
        let metric = create_window(spec, &regs, window(*w)).map_err(|e| format!("a valid summary is rejected: {:?}", e))?;
        set_ts(&metric, spec.ts);
        ms.push(M { spec: spec.clone(), metric, window: window(*w), all: vec![] });
    }
    let (mut merged, mut expired, mut partly, mut stepped) = (false, false, false, false);
    for op in c.ops.iter().chain([&Op::Gather]) {
        match op {
            _ if ms.is_empty() => break,
            Op::Observe(i, v) => {
                let i = i % ms.len();
                let m = &mut ms[i];
                if let Metric::Summary(s) = &m.metric {
                    s.observe(v.0);
                }
                m.all.push((now, v.0));
            }
            Op::Step(ns) => {
                clock::step_wall(*ns as i128);
                stepped = true;
            }
            Op::Advance(u) => {
                clock.advance(Duration::from_nanos(u * 10));
                now += *u as u128 * 10;
            }
            Op::Ts(i, t) => {
                let i = i % ms.len();
                set_ts(&ms[i].metric, *t);
                ms[i].spec.ts = *t;
            }
            Op::Drop(i) => {
                let i = i % ms.len();
                ms.remove(i);
            }
            Op::Gather => {
                let want = model(&ms, now);
                check_gather(&g.gather(), &want).map_err(|e| format!("at {} ns: {}", now, e))?;
                for f in want.values().flat_map(|f| f.series.values()) {
                    if let Exp::Summary { pool, count, .. } = &f.val {
                        merged |= f.members > 1 && !pool.is_empty();
                        expired |= (pool.len() as u64) < *count;
                        partly |= f.members > 1 && !pool.is_empty() && (pool.len() as u64) < *count;
                    }
                }
            }
        }
    }
    cx.class_if(stepped && merged, "merged, and the wall clock was adjusted");
    cx.class_if(merged, "merged series with samples");
    cx.class_if(expired, "expired or NaN samples");
    cx.class_if(partly, "merged series with some samples expired or NaN");
    cx.nontrivial(merged);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C05",
        level: "exploration",
        assumptions: &["no sample's age ever equals its window exactly", "schedules: interleavings are those of single steps between loads, stores and branches of the crate; reorderings by the memory model are not explored"],
        subs: vec![
            sub("pool", "two or more summaries share an identity and have samples in their windows at a gather", 64_000, 600_000, || strategy((1usize..5).boxed(), 0..40), oracle).guide(&["/ops", "/members"]),
            sub("big", "the same, with up to 30 members and 2000 operations", 480, 4_000, || strategy((2usize..30).boxed(), 200..2000), oracle),
            sub("crowd", "gatherers of up to thousands of metrics: 100 or more alive at a gather", 1_200, 12_000, || crate::crowd::merged(&[Kind::Summary]), crate::crowd::oracle),
            sub("schedules", crate::conc::RULE, 72000, 400000, || crate::conc::twins(&[Kind::Summary], true), crate::conc::oracle).guide(crate::conc::LISTS),
            sub_fresh("fresh", "two or more summaries share an identity and have samples in their windows at a gather", 800, 12_000, || strategy((1usize..5).boxed(), 0..40), oracle),
            sub_fresh("fresh-schedules", crate::conc::RULE, 800, 12_000, || crate::conc::twins(&[Kind::Summary], true), crate::conc::oracle),
        ],
    }
}
