//! Histograms with one identity merge bucket by bucket.
use crate::c03::{near_labels, near_name};
use crate::engine::*;
use crate::gen::{self, F};
use crate::world::*;
use prometrics::metric::Metric;
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    members: Vec<Spec>,
    /// Further observations and timestamps between the gathers.
    later: Vec<(usize, F, Option<i64>)>,
}
/// Bounds for all members of a case: drawn from a small common stock, so that they overlap, nearly overlap and interleave.
fn hist_family(members: BoxedStrategy<usize>, bounds: std::ops::Range<usize>, obs: std::ops::Range<usize>) -> BoxedStrategy<Vec<Data>> {
    (prop::collection::vec(gen::bound(), 1..(bounds.end + 4)), members)
        .prop_flat_map(move |(stock, n)| {
            let near: Vec<F> = stock
                .iter()
                .flat_map(|b| {
                    let x = b.0;
                    [x, next(x), -next(-x), x + 0.5]
                })
                .filter(|x| !x.is_nan())
                .map(F)
                .collect();
            let b = prop_oneof![6 => prop::sample::select(stock), 2 => prop::sample::select(near.clone()), 1 => gen::bound()];
            let o = prop_oneof![4 => prop::sample::select(near), 3 => gen::dyadic(), 1 => gen::non_nan()];
            prop::collection::vec((prop::collection::vec(b, bounds.clone()), prop::collection::vec(o, obs.clone())).prop_map(|(bounds, obs)| Data::Hist { bounds, obs }), n)
        })
        .boxed()
}
pub fn next(x: f64) -> f64 {
    if x.is_nan() || x == f64::INFINITY {
        x
    } else if x == 0.0 {
        5e-324
    } else {
        let b = x.to_bits();
        f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
    }
}
fn strategy(members: BoxedStrategy<usize>, bounds: std::ops::Range<usize>, obs: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    let ident = (near_name(), near_labels());
    (hist_family(members, bounds, obs), prop::collection::vec(ident, 1..3), prop::collection::vec((any::<u8>(), gen::opt_millis()), 12), prop::collection::vec((any::<usize>(), gen::bound(), gen::opt_millis()), 0..4))
        .prop_map(|(datas, idents, extra, later)| {
            let members = datas
                .into_iter()
                .enumerate()
                .map(|(i, data)| {
                    let (pick, ts) = extra[i % extra.len()].clone();
                    // Most members share the first identity.
                    let id = if pick < 190 { &idents[0] } else { &idents[pick as usize % idents.len()] };
                    Spec { ns: id.0 .0.clone(), sub: id.0 .1.clone(), name: id.0 .2.clone(), help: None, labels: id.1.clone(), ts, data }
                })
                .collect();
            Case { members, later }
        })
        .boxed()
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let regs = [g.registry()];
    let mut specs = c.members.clone();
    let mut live: Vec<Metric> = vec![];
    for s in &specs {
        live.push(build(s, &regs).map_err(|e| format!("a valid metric is rejected: {:?}", e))?);
    }
    check_gather(&g.gather(), &expected(&specs))?;
    for (i, v, t) in &c.later {
        let i = i % live.len();
        if let (Metric::Histogram(h), Data::Hist { obs, .. }) = (&live[i], &mut specs[i].data) {
            h.observe(v.0);
            obs.push(*v);
        }
        set_ts(&live[i], *t);
        specs[i].ts = *t;
    }
    let want = expected(&specs);
    check_gather(&g.gather(), &want)?;
    // Part of the members goes away.
    if live.len() > 1 {
        live.remove(0);
        specs.remove(0);
        check_gather(&g.gather(), &expected(&specs))?;
    }
    let merged = want.values().any(|f| f.series.values().any(|s| s.members > 1));
    let layouts: std::collections::BTreeSet<String> = c.members.iter().map(|s| if let Data::Hist { bounds, .. } = &s.data { format!("{:?}", distinct_bounds(gen::raw(bounds))) } else { String::new() }).collect();
    let bounds: Vec<f64> = c.members.iter().flat_map(|s| if let Data::Hist { bounds, .. } = &s.data { gen::raw(bounds) } else { vec![] }).collect();
    let d = distinct_bounds(bounds.iter().cloned());
    cx.class_if(merged, "merged series");
    cx.class_if(layouts.len() > 1, "different layouts");
    cx.class_if(d.windows(2).any(|w| w[0].is_finite() && next(w[0]) == w[1]), "adjacent floats as bounds");
    cx.class_if(d[0] == f64::NEG_INFINITY, "-Inf as bound");
    cx.class_if(bounds.iter().any(|b| *b != 0.0 && b.abs() < 1e-15), "tiny bound");
    cx.class_if(c.members.len() >= 5, "5 or more members");
    cx.class_if(want.values().map(|f| f.series.len()).sum::<usize>() > 1, "several identities");
    cx.nontrivial(merged && layouts.len() > 1);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C04",
        level: "exploration",
        assumptions: &["sums that are not exact in every order are compared up to the rounding error of plain f64 additions", "schedules: interleavings are those of single steps between loads, stores and branches of the crate; reorderings by the memory model are not explored"],
        subs: vec![
            sub("merge", "two or more histograms of different layouts share an identity", 40_000, 600_000, || strategy((1usize..6).boxed(), 0..7, 0..9), oracle).guide(&["/later", "/members"]),
            sub("big", "the same, with up to 40 members of up to 80 bounds and 200 observations", 500, 6_000, || strategy((5usize..40).boxed(), 0..80, 0..200), oracle),
            sub("crowd", "gatherers of up to thousands of metrics: 100 or more alive at a gather", 750, 12_000, || crate::crowd::merged(&[Kind::Hist]), crate::crowd::oracle),
            sub("schedules", crate::conc::RULE, 48000, 300000, || crate::conc::twins(&[Kind::Hist], false), crate::conc::oracle).guide(crate::conc::LISTS),
            sub_fresh("fresh", "two or more histograms of different layouts share an identity", 800, 12_000, || strategy((1usize..6).boxed(), 0..7, 0..9), oracle),
            sub_fresh("fresh-schedules", crate::conc::RULE, 800, 12_000, || crate::conc::twins(&[Kind::Hist], false), crate::conc::oracle),
        ],
    }
}
