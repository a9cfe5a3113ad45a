//! Histogram bucket layouts are what was asked for, plus one +Inf.
use crate::engine::*;
use crate::gen::{self, raw, F};
use crate::world::*;
use prometrics::metrics::*;
use prometrics::ErrorKind;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Base {
    Plain,
    Linear(F, F, usize),
    Exp(F, F, usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Add {
    One(F),
    Many(Vec<F>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    base: Base,
    adds: Vec<Add>,
    /// Made through the common builder (only without base).
    common: bool,
}
fn count() -> BoxedStrategy<usize> {
    prop_oneof![8 => 0usize..12, 2 => 12usize..60, 1 => 60usize..700].boxed()
}
fn base() -> BoxedStrategy<Base> {
    let tame = || prop_oneof![3 => gen::dyadic(), 1 => (-1e3..1e3f64).prop_map(F), 1 => prop::sample::select(vec![0.1, 0.005, 1e-3, 2.5, 1e6, -0.1]).prop_map(F)].boxed();
    let start = || prop_oneof![3 => (1i32..64).prop_map(|i| F(i as f64 / 8.0)), 1 => prop::sample::select(vec![0.001, 0.1, 1e-9, 1e-30, 1e30, 5.0, -1.0, -0.25]).prop_map(F)].boxed();
    let factor = || prop_oneof![3 => prop::sample::select(vec![2.0, 1.5, 10.0, 0.5, 4.0, 3.0, 1.25, 1.1]).prop_map(F), 1 => prop::sample::select(vec![1.0, -2.0, -1.0, -0.5, 0.1, 100.0]).prop_map(F), 1 => (0.2..5.0f64).prop_map(F)].boxed();
    prop_oneof![
        3 => Just(Base::Plain),
        3 => (tame(), tame(), count()).prop_map(|(s, w, n)| Base::Linear(s, w, n)),
        3 => (start(), factor(), count()).prop_map(|(s, f, n)| {
            // Clear of overflow and of subnormal numbers.
            let room = (900.0 - s.0.abs().log2().abs()) / f.0.abs().log2().abs();
            Base::Exp(s, f, (n as f64).min(room) as usize)
        }),
        1 => (0u8..4, 2usize..60, tame(), factor(), start()).prop_map(|(how, n, t, f, s)| match how {
            0 => Base::Linear(F(f64::NAN), t, n),
            1 => Base::Linear(t, F(f64::NAN), n),
            2 => Base::Exp(F(f64::NAN), f, n),
            _ => Base::Exp(s, F(f64::NAN), n),
        }),
    ]
    .boxed()
}
fn strategy() -> BoxedStrategy<Case> {
    let b = || prop_oneof![30 => gen::bound(), 2 => Just(F(f64::INFINITY)), 1 => Just(F(f64::NEG_INFINITY))];
    let n = prop_oneof![9 => 0usize..7, 2 => 7usize..100, 1 => 100usize..3000];
    let add = prop_oneof![2 => b().prop_map(Add::One), 1 => n.prop_flat_map(move |n| prop::collection::vec(b(), n)).prop_map(Add::Many)];
    let nan = prop_oneof![9 => Just(None), 1 => any::<[prop::sample::Index; 2]>().prop_map(Some)];
    (base(), prop::collection::vec(add, 0..5), any::<bool>(), nan)
        .prop_map(|(base, mut adds, common, nan)| {
            if let Some([i, j]) = nan {
                let i = i.index(adds.len() + 1);
                match adds.get_mut(i) {
                    Some(Add::Many(v)) => v.insert(j.index(v.len() + 1), F(f64::NAN)),
                    _ => adds.insert(i, Add::One(F(f64::NAN))),
                }
            }
            Case { base, adds, common }
        })
        .boxed()
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let common = MetricBuilder::without_registry();
    let mut b = match &c.base {
        Base::Plain if c.common => common.histogram("h"),
        Base::Plain => HistogramBuilder::new("h"),
        Base::Linear(s, w, n) => HistogramBuilder::with_linear_buckets("h", s.0, w.0, *n),
        Base::Exp(s, f, n) => HistogramBuilder::with_exponential_buckets("h", s.0, f.0, *n),
    };
    let mut given: Vec<f64> = vec![];
    for a in &c.adds {
        match a {
            Add::One(x) => {
                b.bucket(x.0);
                given.push(x.0);
            }
            Add::Many(v) => {
                b.buckets(raw(v));
                given.extend(raw(v));
            }
        }
    }
    // The computed bounds. A linear one takes one product and one sum, however it is written (an accumulated sum of widths
    // would drift away from it as the count grows); an exponential one may be a power or a running product.
    let computed: Vec<(f64, f64)> = match &c.base {
        Base::Plain => vec![],
        Base::Linear(s, w, n) => (0..*n).map(|i| (s.0 + i as f64 * w.0, (s.0.abs() + (i as f64 * w.0).abs()) * 8.0 * f64::EPSILON)).collect(),
        Base::Exp(s, f, n) => (0..*n)
            .map(|i| {
                let mut x = s.0;
                for _ in 0..i {
                    x *= f.0;
                }
                (x, x.abs() * (i as f64 + 4.0) * 2.0 * f64::EPSILON)
            })
            .collect(),
    };
    let nan = given.iter().any(|x| x.is_nan()) || computed.iter().any(|x| x.0.is_nan());
    cx.class_if(nan, "NaN bound");
    let h = match b.finish() {
        Err(e) => {
            ensure!(nan, "bounds without NaN are rejected: {:?}", e);
            ensure!(*e.kind() == ErrorKind::InvalidInput, "a NaN bound gives {:?}", e);
            cx.nontrivial(true);
            return Ok(());
        }
        Ok(h) => h,
    };
    ensure!(!nan, "a NaN bound is accepted");
    let got: Vec<f64> = h.buckets().iter().map(|b| b.upper_bound()).collect();
    let show = || format!("the bounds are {:?}", got);
    ensure!(got.windows(2).all(|w| w[0] < w[1]), "{}: not strictly ascending", show());
    ensure!(got.last() == Some(&f64::INFINITY), "{}: the last one is not +Inf", show());
    ensure!(h.buckets().iter().all(|b| b.count() == 0) && h.count() == 0 && h.sum() == 0.0, "a new histogram is not empty");
    if computed.is_empty() {
        let want = distinct_bounds(given.iter().cloned());
        ensure!(got == want, "{}, not {:?}", show(), want);
    } else {
        for g in &given {
            ensure!(got.contains(g), "{}: {:?} is missing", show(), g);
        }
        let near = |c: &(f64, f64), g: f64| c.0 == g || (c.0 - g).abs() <= c.1;
        for c in &computed {
            ensure!(got.iter().any(|g| near(c, *g)), "{}: {:?} is missing", show(), c.0);
        }
        for g in &got {
            ensure!(*g == f64::INFINITY || given.contains(g) || computed.iter().any(|c| near(c, *g)), "{}: {:?} was not asked for", show(), g);
        }
        // Where every way of computing gives the same bounds, they are exactly these.
        let simple = |x: f64| (x * 1024.0).fract() == 0.0 && x.abs() < 1e9;
        let exact = match &c.base {
            Base::Linear(s, w, _) => simple(s.0) && simple(w.0),
            Base::Exp(s, f, n) => *n < 20 && simple(s.0) && [2.0, 0.5, 4.0, 1.0, -2.0, -1.0].contains(&f.0),
            _ => false,
        };
        if exact {
            let want = distinct_bounds(given.iter().cloned().chain(computed.iter().map(|c| c.0)));
            ensure!(got == want, "{}, not {:?}", show(), want);
            cx.class("exactly computable");
        }
    }
    let again: Vec<f64> = b.finish().map_err(|e| format!("finishing again: {:?}", e))?.buckets().iter().map(|b| b.upper_bound()).collect();
    ensure!(again == got, "finishing again gives the bounds {:?}, not {:?}", again, got);
    let total = 1 + given.len() + computed.len();
    cx.class_if(total > got.len(), "a bound given twice");
    cx.class_if(matches!(c.base, Base::Linear(..)), "linear");
    cx.class_if(computed.len() > 100, "more than 100 computed bounds");
    cx.class_if(matches!(c.base, Base::Exp(..)), "exponential");
    cx.nontrivial(got.len() > 2);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C11",
        level: "exploration",
        assumptions: &["computed bounds are compared to a few units in the last place (exponential ones: as many as there are factors) unless every way of computing them is exact; parameters stay clear of overflow"],
        subs: vec![
            sub("layout", "more than 2 buckets, or a NaN bound", 90_000, 2_500_000, strategy, oracle).guide(&["/adds"]),
            sub_fresh("fresh", "more than 2 buckets, or a NaN bound", 800, 12_000, strategy, oracle),
        ],
    }
}
