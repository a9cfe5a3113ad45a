//! Summary quantiles come from the sliding window, totals from all time.
use crate::c05::{span, window};
use crate::clock::{self, Virtual};
use crate::engine::*;
use crate::gen::{self, raw, F};
use crate::promtext::Val;
use crate::world::*;
use prometrics::metrics::*;
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Observe(u8, F),
    /// Many samples at once: start, step (both times the index modulo 256), how many.
    Burst(u8, F, F, u16),
    /// In units of 10 ns.
    Advance(u64),
    /// The wall clock is adjusted by so many ns; no time passes.
    Step(i64),
    /// Time passes: the window plus or minus a little (units of 10 ns).
    AdvanceWindow(i8),
    Read(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// In units of 10 ns; 5 ns are added, so that no age ever equals the window. None: the longest duration there is.
    window: Option<u64>,
    quantiles: Vec<F>,
    ops: Vec<Op>,
}
fn strategy(ops: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    let v = || prop_oneof![6 => (-9i32..9).prop_map(|i| F(i as f64)), 3 => gen::dyadic(), 2 => gen::any_f64(), 1 => Just(F(f64::NAN))];
    let op = prop_oneof![
        10 => (any::<u8>(), v()).prop_map(|(i, f)| Op::Observe(i, f)),
        3 => span().prop_map(Op::Advance),
        1 => (-3i8..3).prop_map(Op::AdvanceWindow),
        1 => crate::c05::step().prop_map(Op::Step),
        4 => any::<u8>().prop_map(Op::Read),
    ];
    (prop_oneof![12 => span().prop_map(Some), 1 => Just(None)], prop_oneof![9 => prop::collection::vec(gen::quantile(), 0..6), 1 => prop::collection::vec(gen::quantile(), 6..40)], prop::collection::vec(op, ops))
        .prop_map(|(window, quantiles, ops)| Case { window, quantiles, ops })
        .boxed()
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let clock = Virtual::new();
    let mut now = 0u128;
    let w = c.window.map_or(Duration::MAX, window);
    let mut g = Gatherer::new();
    let mut b = SummaryBuilder::new("s", w);
    b.registry(g.registry());
    for q in &c.quantiles {
        b.quantile(q.0);
    }
    let first = b.finish().map_err(|e| format!("{:?}", e))?;
    let hs = [first.clone(), first.clone(), first];
    let qs = distinct_quantiles(raw(&c.quantiles));
    let mut all: Vec<(u128, f64)> = vec![];
    let (mut expired, mut partly, mut emptied, mut stepped) = (false, false, false, false);
    for op in c.ops.iter().chain([&Op::Read(0)]) {
        match op {
            Op::Observe(i, v) => {
                hs[*i as usize % 3].observe(v.0);
                all.push((now, v.0));
            }
            Op::Burst(i, v, d, n) => {
                for k in 0..*n {
                    let v = v.0 + d.0 * (k as u8 as f64);
                    hs[*i as usize % 3].observe(v);
                    all.push((now, v));
                }
            }
            Op::Step(ns) => {
                clock::step_wall(*ns as i128);
                stepped = true;
            }
            Op::Advance(u) => {
                clock.advance(Duration::from_nanos(u * 10));
                now += *u as u128 * 10;
            }
            Op::AdvanceWindow(d) => {
                let u = (c.window.unwrap_or(1) as i64 + *d as i64).max(0) as u64;
                clock.advance(Duration::from_nanos(u * 10));
                now += u as u128 * 10;
            }
            Op::Read(i) => {
                let at = |e: String| format!("at {} ns, window {:?}, observed (time, value) {:?}: {}", now, w, &all[..all.len().min(60)], e);
                let inside: Vec<f64> = all.iter().filter(|a| now - a.0 < w.as_nanos()).map(|a| a.1).filter(|v| !v.is_nan()).collect();
                let sum = Sum(all.iter().map(|a| a.1).collect());
                let h = &hs[*i as usize % 3];
                let got: Vec<(f64, f64)> = h.quantiles().iter().map(|q| (q.0.as_f64(), q.1)).collect();
                quantiles_ok(&qs, &inside, &got).map_err(at)?;
                ensure!(h.count() == all.len() as u64, "{}", at(format!("count is {}, not {}", h.count(), all.len())));
                sum.check(h.sum()).map_err(at)?;
                let want = Exp::Summary { quantiles: qs.clone(), pool: inside.clone(), sum, count: all.len() as u64 };
                let s = parse_display("s", Kind::Summary, &h.to_string()).map_err(at)?;
                val_ok(&want, &s.val).map_err(|e| at(format!("the rendering: {}\n{}", e, h)))?;
                ensure!(matches!(&s.val, Val::Summary(q, x, _) if same(*x, h.sum()) && *q == got), "{}", at(format!("the rendering differs from the handle:\n{}", h)));
                let f = g.gather();
                let s = api_series(&f.as_ref()[0]);
                ensure!(s.len() == 1, "{} series gathered", s.len());
                val_ok(&want, &s[0].val).map_err(|e| at(format!("gathered: {}", e)))?;
                expired |= inside.len() < all.len();
                partly |= inside.len() < all.len() && !inside.is_empty();
                emptied |= !all.is_empty() && inside.is_empty();
            }
        }
    }
    cx.class_if(stepped && partly, "samples inside and outside, and the wall clock was adjusted");
    cx.class_if(expired, "samples outside the window");
    cx.class_if(partly, "samples inside and outside");
    cx.class_if(emptied, "all samples outside the window");
    cx.class_if(c.window.is_none(), "longest window");
    cx.class_if(all.len() > 5_000, "more than 5000 samples");
    cx.class_if(c.quantiles.iter().any(|q| q.0 == 1.0 || q.0 == 0.0), "quantile 0 or 1");
    cx.nontrivial(!qs.is_empty() && partly);
    Ok(())
}
/// Bursts of samples among the rest.
fn bursts() -> BoxedStrategy<Case> {
    let burst = (any::<u8>(), gen::dyadic(), gen::dyadic(), prop_oneof![1 => 100u16..2_000, 1 => 2_000u16..20_000, 1 => prop::sample::select(crate::dict::sizes(40_000)).prop_map(|n| n as u16)]).prop_map(|(i, v, d, n)| Op::Burst(i, v, d, n));
    (strategy(0..12), prop::collection::vec((burst, any::<prop::sample::Index>()), 1..4))
        .prop_map(|(mut c, bursts)| {
            for (b, at) in bursts {
                let at = at.index(c.ops.len() + 1);
                c.ops.insert(at, b);
            }
            c
        })
        .boxed()
}
pub fn check() -> Check {
    Check {
        id: "C12",
        level: "exploration",
        assumptions: &["no sample's age ever equals the window exactly", "schedules: interleavings are those of single steps between loads, stores and branches of the crate; reorderings by the memory model are not explored"],
        subs: vec![
            sub("window", "has quantiles and a read with samples both inside and outside the window (or NaN)", 160_000, 1_500_000, || strategy(0..40), oracle).guide(&["/ops"]),
            sub("long", "the same, with 300..3000 operations", 400, 4_000, || strategy(300..3000), oracle),
            sub("bursts", "the same, with bursts of up to 20000 samples", 1_000, 10_000, bursts, oracle),
            sub("schedules", crate::conc::RULE, 96000, 600000, || crate::conc::strategy(&[crate::world::Kind::Summary], true), crate::conc::oracle).guide(crate::conc::LISTS),
            sub_fresh("fresh", "has quantiles and a read with samples both inside and outside the window (or NaN)", 800, 12_000, || strategy(0..40), oracle),
            sub_fresh("fresh-schedules", crate::conc::RULE, 800, 12_000, || crate::conc::strategy(&[crate::world::Kind::Summary], true), crate::conc::oracle),
        ],
    }
}
