//! Counters account for every addition and never go down.
use crate::engine::*;
use crate::gen::{self, F};
use crate::world::{self, parse_display, Kind};
use prometrics::metric::Metric;
use prometrics::metrics::*;
use prometrics::{ErrorKind, Gatherer};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Inc(u8),
    AddU64(u8, u64),
    Add(u8, F),
    Clone,
    /// Drops one of the clones (never the last one).
    Drop(u8),
    /// Many increments in a row.
    Burst(u8, u16),
    /// Many additions of one number in a row.
    BurstAdd(u8, F, u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}
fn nonneg() -> BoxedStrategy<F> {
    gen::non_nan().prop_map(|f| F(f.0.abs())).boxed()
}
fn ints() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 0u64..100,
        2 => 0u64..1 << 40,
        1 => prop::sample::select(vec![0, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 52) - 1, (1 << 53) - 100, 1 << 62, 1 << 63, u64::MAX, u64::MAX - 1, u64::MAX / 2]),
        1 => prop::sample::select(crate::dict::ints()),
    ]
    .boxed()
}
fn op() -> BoxedStrategy<Op> {
    let who = any::<u8>;
    prop_oneof![
        4 => who().prop_map(Op::Inc),
        4 => (who(), ints()).prop_map(|(w, n)| Op::AddU64(w, n)),
        3 => (who(), gen::dyadic_nonneg()).prop_map(|(w, f)| Op::Add(w, f)),
        2 => (who(), nonneg()).prop_map(|(w, f)| Op::Add(w, f)),
        1 => (who(), (0u32..12).prop_map(|k| F((2f64).powi(52 + k as i32)))).prop_map(|(w, f)| Op::Add(w, f)),
        3 => (who(), gen::any_f64()).prop_map(|(w, f)| Op::Add(w, f)),
        1 => (who(), prop::sample::select(vec![-1.0, -0.5, -5e-324, f64::NEG_INFINITY, f64::NAN, -1e300, f64::MIN]).prop_map(F)).prop_map(|(w, f)| Op::Add(w, f)),
        1 => Just(Op::Clone),
        1 => who().prop_map(Op::Drop),
        1 => (who(), 0u16..3000).prop_map(|(w, n)| Op::Burst(w, n)),
        1 => (who(), prop_oneof![gen::dyadic_nonneg(), nonneg()], 0u16..2000).prop_map(|(w, f, n)| Op::BurstAdd(w, f, n)),
    ]
    .boxed()
}
/// Integer-only histories stay exact, so they are generated on their own too.
fn int_op() -> BoxedStrategy<Op> {
    let who = any::<u8>;
    prop_oneof![
        3 => who().prop_map(Op::Inc),
        3 => (who(), 0u64..1 << 44).prop_map(|(w, n)| Op::AddU64(w, n)),
        3 => (who(), (0u64..1 << 44).prop_map(|i| F(i as f64))).prop_map(|(w, f)| Op::Add(w, f)),
        1 => (who(), prop::sample::select(vec![0.5, 1.5, 0.25, 0.75, 1024.5])).prop_map(|(w, f)| Op::Add(w, F(f))),
        1 => Just(Op::Clone),
        1 => (who(), prop_oneof![6 => 0u16..3000, 1 => prop::sample::select(crate::dict::sizes(65_535)).prop_map(|n| n as u16)]).prop_map(|(w, n)| Op::Burst(w, n)),
        1 => (who(), (0u64..1 << 34).prop_map(|i| F(i as f64 / 2.0)), 0u16..2000).prop_map(|(w, f, n)| Op::BurstAdd(w, f, n)),
    ]
    .boxed()
}
fn strategy() -> BoxedStrategy<Case> {
    prop::collection::vec(op(), 0..40).prop_map(|ops| Case { ops }).boxed()
}
fn int_strategy() -> BoxedStrategy<Case> {
    prop::collection::vec(int_op(), 0..60).prop_map(|ops| Case { ops }).boxed()
}
/// What was added, without keeping every number.
#[derive(Default)]
struct Total {
    n: u64,
    sum: f64,
    nonzero: u8,
    infinite: bool,
}
impl Total {
    fn push(&mut self, v: f64) {
        self.n += 1;
        self.sum += v;
        self.nonzero = self.nonzero.saturating_add(u8::from(v != 0.0));
        self.infinite |= v.is_infinite();
    }
    fn check(&self, actual: f64) -> R {
        let tol = if self.nonzero < 2 { 0.0 } else { world::tolerance(self.sum, self.n) };
        // Whether finite numbers overflow at the very end of the range depends on the order they are added in.
        if self.infinite || self.sum < 1e308 {
            ensure!(actual == self.sum || (actual - self.sum).abs() <= tol, "got {:?}, but the sum of {} numbers is {:?}", actual, self.n, self.sum);
        }
        Ok(())
    }
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let first = CounterBuilder::new("c").registry(g.registry()).finish().map_err(|e| format!("{:?}", e))?;
    let mut hs = vec![first];
    // The total of the integers exactly (in units of 1/1024 as long as everything fits), and all contributions.
    let mut exact: Option<u128> = Some(0);
    let mut all = Total::default();
    let mut last = 0.0f64;
    let (mut rejected, mut float, mut beyond, mut kinds) = (0, false, false, 0u8);
    ensure!(hs[0].value() == 0.0, "a new counter reads {:?}", hs[0].value());
    for (n, op) in c.ops.iter().enumerate() {
        match op {
            Op::Inc(w) => {
                hs[*w as usize % hs.len()].increment();
                exact = exact.map(|e| e + 1024);
                all.push(1.0);
                kinds |= 1;
            }
            Op::Burst(w, k) => {
                let h = &hs[*w as usize % hs.len()];
                for _ in 0..*k {
                    h.increment();
                }
                exact = exact.map(|e| e + *k as u128 * 1024);
                all.push(*k as f64);
                kinds |= 1;
            }
            Op::BurstAdd(w, v, k) => {
                let h = &hs[*w as usize % hs.len()];
                for _ in 0..*k {
                    h.add(v.0).map_err(|e| format!("op {}: adding {:?} is rejected: {:?}", n, v.0, e))?;
                    all.push(v.0);
                }
                let units = v.0 * 1024.0;
                exact = match exact {
                    Some(e) if units.fract() == 0.0 && units < 1e30 => Some(e + units as u128 * *k as u128),
                    _ => None,
                };
                float |= *k > 0 && v.0.fract() != 0.0;
                kinds |= 4;
            }
            Op::AddU64(w, v) => {
                hs[*w as usize % hs.len()].add_u64(*v);
                exact = exact.map(|e| e + *v as u128 * 1024);
                all.push(*v as f64);
                kinds |= 2;
            }
            Op::Add(w, v) => {
                let r = hs[*w as usize % hs.len()].add(v.0);
                if v.0 == 0.0 && v.0.is_sign_negative() {
                    // Whether -0 counts as negative is nowhere said; it must change nothing either way.
                } else if v.0 >= 0.0 {
                    ensure!(r.is_ok(), "op {}: adding {:?} is rejected: {:?}", n, v.0, r);
                    all.push(v.0);
                    let units = v.0 * 1024.0;
                    exact = match exact {
                        Some(e) if units.fract() == 0.0 && units < 1e30 => Some(e + units as u128),
                        _ => None,
                    };
                    float |= v.0.fract() != 0.0;
                    kinds |= 4;
                } else {
                    match r {
                        Ok(()) => return Err(format!("op {}: adding {:?} is not rejected", n, v.0)),
                        Err(e) => ensure!(*e.kind() == ErrorKind::InvalidInput, "op {}: adding {:?} gives {:?}", n, v.0, e),
                    }
                    rejected += 1;
                    for h in &hs {
                        ensure!(world::same(h.value(), last), "op {}: the rejected addition of {:?} changed the value from {:?} to {:?}", n, v.0, last, h.value());
                    }
                }
            }
            Op::Clone => {
                let h = hs[0].clone();
                hs.push(h);
            }
            Op::Drop(w) => {
                if hs.len() > 1 {
                    let w = *w as usize % hs.len();
                    hs.remove(w);
                }
            }
        }
        for (i, h) in hs.iter().enumerate() {
            let v = h.value();
            if i > 0 && world::same(v, hs[0].value()) {
                continue;
            }
            ensure!(v >= last, "op {} ({:?}): the value went from {:?} to {:?}", n, op, last, v);
            match exact {
                Some(e) if e < 1024 << 42 => ensure!(v == e as f64 / 1024.0, "after op {} ({:?}) the value is {:?}, but {:?} was added", n, op, v, e as f64 / 1024.0),
                // With integers only, exact up to 2^53.
                Some(e) if !float && e <= 1024 << 53 => ensure!(v == (e / 1024) as f64, "after op {} ({:?}) the value is {:?}, but {} was added", n, op, v, e / 1024),
                _ => all.check(v).map_err(|m| format!("after op {} ({:?}): {}", n, op, m))?,
            }
            beyond |= v >= 18446744073709551616.0;
        }
        last = hs[0].value();
    }
    // The other views of the value.
    for h in &hs {
        let s = parse_display("c", Kind::Counter, &h.to_string())?;
        ensure!(matches!(s.val, crate::promtext::Val::Scalar(v) if v == last), "the rendering {:?} does not show the value {:?}", h.to_string(), last);
        ensure!(Metric::from(h.clone()).kind() == prometrics::metric::MetricKind::Counter, "kind");
    }
    let f = g.gather();
    let s = world::api_series(&f.as_ref()[0]);
    ensure!(s.len() == 1 && matches!(s[0].val, crate::promtext::Val::Scalar(v) if v == last), "gathered {:?}, but the value is {:?}", s, last);
    cx.class_if(rejected > 0, "rejected addition");
    cx.class_if(float, "fractional addition");
    cx.class_if(beyond, "beyond the 64-bit range");
    cx.class_if(last.is_infinite(), "infinite");
    cx.class_if(exact.is_some() && c.ops.len() > 3, "exact history");
    cx.class_if(hs.len() > 1, "several clones");
    cx.nontrivial(c.ops.len() >= 3 && kinds.count_ones() >= 2);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C08",
        level: "exploration",
        assumptions: &["sums that are not exact are compared up to the rounding error of plain f64 additions", "schedules: interleavings are those of single steps between loads, stores and branches of the crate; reorderings by the memory model are not explored"],
        subs: vec![
            sub("history", "at least 3 operations, of two or more of the kinds increment, integer add, float add", 160_000, 1_500_000, strategy, oracle).guide(&["/ops"]),
            sub("exact", "the same, additions whose total stays exact", 80_000, 800_000, int_strategy, oracle).guide(&["/ops"]),
            sub("schedules", crate::conc::RULE, 96000, 600000, || crate::conc::strategy(&[crate::world::Kind::Counter], false), crate::conc::oracle).guide(crate::conc::LISTS),
            sub_fresh("fresh", "at least 3 operations, of two or more of the kinds increment, integer add, float add", 800, 12_000, strategy, oracle),
            sub_fresh("fresh-schedules", crate::conc::RULE, 800, 12_000, || crate::conc::strategy(&[crate::world::Kind::Counter], false), crate::conc::oracle),
        ],
    }
}
