//! Every observation is counted in exactly one histogram bucket.
use crate::c04::next;
use crate::engine::*;
use crate::gen::{self, raw, F};
use crate::promtext::Val;
use crate::world::*;
use prometrics::metrics::*;
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    bounds: Vec<F>,
    /// In stages; all views are compared after each.
    stages: Vec<Vec<F>>,
    clones: u8,
}
fn strategy(bounds: std::ops::Range<usize>, obs: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    (prop::collection::vec(gen::bound(), bounds), 0u8..4)
        .prop_flat_map(move |(bounds, clones)| {
            let mut near: Vec<F> = vec![F(0.0), F(-0.0), F(f64::INFINITY), F(f64::NEG_INFINITY)];
            for b in &bounds {
                near.extend([b.0, next(b.0), -next(-b.0)].iter().filter(|x| !x.is_nan()).map(|x| F(*x)));
            }
            let edges: Vec<F> = near.iter().cloned().skip(4).chain([F(1.0)]).collect();
            let o = prop_oneof![6 => prop::sample::select(edges), 1 => prop::sample::select(near), 3 => gen::dyadic(), 1 => gen::finite(), 1 => gen::bound()];
            (Just(bounds), Just(clones), prop::collection::vec(prop::collection::vec(o, obs.clone()), 1..4))
        })
        .prop_map(|(bounds, clones, stages)| Case { bounds, stages, clones })
        .boxed()
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let first = HistogramBuilder::new("h").buckets(raw(&c.bounds)).registry(g.registry()).finish().map_err(|e| format!("{:?}", e))?;
    let hs: Vec<Histogram> = (0..=c.clones).map(|_| first.clone()).collect();
    drop(first);
    let bounds = distinct_bounds(raw(&c.bounds));
    let mut all: Vec<f64> = vec![];
    for (si, stage) in c.stages.iter().enumerate() {
        for (i, v) in stage.iter().enumerate() {
            hs[(i + si) % hs.len()].observe(v.0);
            all.push(v.0);
        }
        let cum: Vec<(f64, u64)> = bounds.iter().map(|b| (*b, all.iter().filter(|v| **v <= *b).count() as u64)).collect();
        let own: Vec<(f64, u64)> = cum.iter().enumerate().map(|(i, b)| (b.0, b.1 - if i == 0 { 0 } else { cum[i - 1].1 })).collect();
        let sum = Sum(all.clone());
        for h in &hs {
            let got: Vec<(f64, u64)> = h.buckets().iter().map(|b| (b.upper_bound(), b.count())).collect();
            ensure!(got == own, "buckets are {:?}, not {:?}, after observing {:?}", got, own, all);
            let got: Vec<(f64, u64)> = h.cumulative_buckets().take(100_000).map(|b| (b.upper_bound(), b.cumulative_count())).collect();
            ensure!(got == cum, "cumulative buckets are {:?}, not {:?}, after observing {:?}", got, cum, all);
            ensure!(h.count() == all.len() as u64, "count is {}, not {}", h.count(), all.len());
            sum.check(h.sum())?;
        }
        let want = Exp::Hist { buckets: cum, sum, count: all.len() as u64 };
        let s = parse_display("h", Kind::Hist, &hs[0].to_string())?;
        val_ok(&want, &s.val).map_err(|e| format!("the rendering: {}\n{}", e, hs[0]))?;
        ensure!(matches!(s.val, Val::Hist(_, x, _) if same(x, hs[0].sum())), "the rendering shows another sum than {:?}:\n{}", hs[0].sum(), hs[0]);
        let f = g.gather();
        let s = api_series(&f.as_ref()[0]);
        ensure!(s.len() == 1, "{} series gathered", s.len());
        val_ok(&want, &s[0].val).map_err(|e| format!("gathered: {}", e))?;
    }
    let edge = all.iter().any(|v| bounds.contains(v) && v.is_finite());
    cx.class_if(edge, "observation equal to a bound");
    cx.class_if(all.iter().any(|v| v.is_infinite()), "infinite observation");
    cx.class_if(bounds.len() > 8, "more than 8 buckets");
    cx.class_if(bounds.len() == 1, "only +Inf");
    cx.class_if(c.clones > 0, "several clones");
    cx.nontrivial(edge && bounds.len() > 2);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C10",
        level: "exploration",
        assumptions: &["observing NaN is a precondition violation (it panics)", "sums that are not exact in every order are compared up to the rounding error of plain f64 additions", "schedules: interleavings are those of single steps between loads, stores and branches of the crate; reorderings by the memory model are not explored"],
        subs: vec![
            sub("count", "3 or more buckets and an observation equal to a bound", 180_000, 1_200_000, || strategy(0..9, 0..16), oracle).guide(&["/bounds", "/stages"]),
            sub("big", "the same, with up to 300 bounds and 3 x 400 observations", 2_400, 16_000, || strategy(0..300, 0..400), oracle),
            sub("bursts", "more than 100 buckets and more than 100 observations", 900, 6_000, crate::scale::bursts, crate::scale::bursts_oracle),
            sub("schedules", crate::conc::RULE, 72000, 600000, || crate::conc::strategy(&[crate::world::Kind::Hist], false), crate::conc::oracle).guide(crate::conc::LISTS),
            sub_fresh("fresh", "3 or more buckets and an observation equal to a bound", 800, 12_000, || strategy(0..9, 0..16), oracle),
            sub_fresh("fresh-schedules", crate::conc::RULE, 800, 12_000, || crate::conc::strategy(&[crate::world::Kind::Hist], false), crate::conc::oracle),
        ],
    }
}
