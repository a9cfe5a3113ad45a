//! A gauge holds exactly what its operations say.
use crate::engine::*;
use crate::gen::{self, F};
use crate::promtext::Val;
use crate::world::{self, parse_display, same, Kind};
use prometrics::metrics::*;
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set(u8, F),
    Add(u8, F),
    Sub(u8, F),
    Inc(u8),
    Dec(u8),
    Clone,
    Drop(u8),
    /// Many operations in a row: which one, with what number, how often.
    Burst(u8, u8, F, u16),
    /// The tracked code performs the operations, then returns or panics.
    Track(u8, Vec<Op>, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    init: Option<F>,
    ops: Vec<Op>,
    dyadic: bool,
}
fn op(dyadic: bool, depth: u32) -> BoxedStrategy<Op> {
    let who = any::<u8>;
    let v = move || if dyadic { gen::dyadic() } else { gen::any_f64() };
    let plain = prop_oneof![
        2 => (who(), v()).prop_map(|(w, f)| Op::Set(w, f)),
        3 => (who(), v()).prop_map(|(w, f)| Op::Add(w, f)),
        3 => (who(), v()).prop_map(|(w, f)| Op::Sub(w, f)),
        2 => who().prop_map(Op::Inc),
        2 => who().prop_map(Op::Dec),
        1 => Just(Op::Clone),
        1 => who().prop_map(Op::Drop),
        1 => (who(), 0u8..6, v(), prop_oneof![6 => 0u16..1500, 1 => prop::sample::select(crate::dict::sizes(65_535)).prop_map(|n| n as u16)]).prop_map(|(w, o, f, n)| Op::Burst(w, o, f, n)),
    ]
    .boxed();
    if depth == 0 {
        return plain;
    }
    prop_oneof![
        8 => plain,
        1 => (who(), prop::collection::vec(op(dyadic, depth - 1), 0..5), any::<bool>()).prop_map(|(w, o, p)| Op::Track(w, o, p)),
    ]
    .boxed()
}
fn strategy(dyadic: bool) -> BoxedStrategy<Case> {
    let v = if dyadic { gen::dyadic() } else { gen::any_f64() };
    (proptest::option::of(v), prop::collection::vec(op(dyadic, if dyadic { 3 } else { 0 }), 0..40)).prop_map(move |(init, ops)| Case { init, ops, dyadic }).boxed()
}
/// Values outside this range could make `x + 1 - 1` differ from `x`; tracking is then not compared exactly.
struct W {
    hs: Vec<Gauge>,
    model: f64,
    tracked: u32,
    panicked: u32,
}
fn look(w: &W, what: &dyn std::fmt::Debug) -> R {
    for (i, h) in w.hs.iter().enumerate() {
        ensure!(same(h.value(), w.model), "after {:?} clone {} reads {:?}, not {:?}", what, i, h.value(), w.model);
    }
    Ok(())
}
struct Planned;
fn run(ops: &[Op], w: &mut W) -> R {
    for op in ops {
        let n = w.hs.len();
        let h = |w: &W, i: &u8| w.hs[*i as usize % n].clone();
        match op {
            Op::Set(i, v) => {
                h(w, i).set(v.0);
                w.model = v.0;
            }
            Op::Add(i, v) => {
                h(w, i).add(v.0);
                w.model += v.0;
            }
            Op::Sub(i, v) => {
                h(w, i).subtract(v.0);
                w.model -= v.0;
            }
            Op::Inc(i) => {
                h(w, i).increment();
                w.model += 1.0;
            }
            Op::Dec(i) => {
                h(w, i).decrement();
                w.model -= 1.0;
            }
            Op::Burst(i, o, v, k) => {
                let g = h(w, i);
                for _ in 0..*k {
                    match o {
                        0 => {
                            g.add(v.0);
                            w.model += v.0;
                        }
                        1 => {
                            g.subtract(v.0);
                            w.model -= v.0;
                        }
                        2 => {
                            g.increment();
                            w.model += 1.0;
                        }
                        3 => {
                            g.decrement();
                            w.model -= 1.0;
                        }
                        4 => {
                            g.set(v.0);
                            w.model = v.0;
                        }
                        _ => {
                            let inside = g.track_inprogress(|| g.value());
                            ensure!(same(inside, w.model + 1.0), "in tracked code the gauge is {:?}, before it was {:?}", inside, w.model);
                            w.model = w.model + 1.0 - 1.0;
                        }
                    }
                }
            }
            Op::Clone => w.hs.push(w.hs[0].clone()),
            Op::Drop(i) => {
                if n > 1 {
                    w.hs.remove(*i as usize % n);
                }
            }
            Op::Track(i, inner, panics) => {
                let g = h(w, i);
                let before = w.model;
                w.tracked += 1;
                let token = format!("token {}", w.tracked);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    g.track_inprogress(|| {
                        w.model = before + 1.0;
                        let r = look(w, &"entering tracked code").and_then(|_| run(inner, w)).map(|_| token.clone());
                        if *panics && r.is_ok() {
                            resume_unwind(Box::new(Planned));
                        }
                        r
                    })
                }));
                match r {
                    Ok(r) => {
                        let t = r?;
                        ensure!(!*panics, "the panic of the tracked code was swallowed");
                        ensure!(t == token, "the result of the tracked code was not passed on");
                    }
                    Err(e) if e.is::<Planned>() => w.panicked += 1,
                    Err(e) => resume_unwind(e),
                }
                w.model -= 1.0;
            }
        }
        look(w, op)?;
    }
    Ok(())
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let mut b = GaugeBuilder::new("g");
    b.registry(g.registry());
    if let Some(v) = c.init {
        b.initial_value(v.0);
    }
    let first = b.finish().map_err(|e| format!("{:?}", e))?;
    let mut w = W { hs: vec![first], model: c.init.map_or(0.0, |v| v.0), tracked: 0, panicked: 0 };
    look(&w, &"creation")?;
    run(&c.ops, &mut w)?;
    let s = parse_display("g", Kind::Gauge, &w.hs[0].to_string())?;
    ensure!(matches!(s.val, Val::Scalar(v) if same(v, w.model)), "the rendering {:?} does not show the value {:?}", w.hs[0].to_string(), w.model);
    let s = world::api_series(&g.gather().as_ref()[0]);
    ensure!(s.len() == 1 && matches!(s[0].val, Val::Scalar(v) if same(v, w.model)), "gathered {:?}, but the value is {:?}", s, w.model);
    cx.class_if(w.tracked > 0, "tracked code");
    cx.class_if(w.panicked > 0, "tracked code that panics");
    cx.class_if(c.init.is_some(), "initial value");
    cx.class_if(!w.model.is_finite(), "NaN or infinite value");
    cx.class_if(w.hs.len() > 1, "several clones");
    cx.nontrivial(c.ops.len() >= 3);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C09",
        level: "exploration",
        assumptions: &["tracked code is checked on values for which adding and subtracting 1 is exact", "schedules: interleavings are those of single steps between loads, stores and branches of the crate; reorderings by the memory model are not explored"],
        subs: vec![
            sub("tracking", "at least 3 operations; includes nested and panicking tracked code", 120_000, 800_000, || strategy(true), oracle).guide(&["/ops"]),
            sub("floats", "at least 3 operations on arbitrary floats", 120_000, 800_000, || strategy(false), oracle).guide(&["/ops"]),
            sub("schedules", crate::conc::RULE, 96000, 600000, || crate::conc::strategy(&[crate::world::Kind::Gauge], false), crate::conc::oracle).guide(crate::conc::LISTS),
            sub_fresh("fresh", "at least 3 operations; includes nested and panicking tracked code", 800, 12_000, || strategy(true), oracle),
            sub_fresh("fresh-schedules", crate::conc::RULE, 800, 12_000, || crate::conc::strategy(&[crate::world::Kind::Gauge], false), crate::conc::oracle),
        ],
    }
}
