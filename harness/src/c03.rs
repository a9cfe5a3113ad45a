//! Counters and gauges with one identity are reported as their sum.
use crate::engine::*;
use crate::gen::{self, F};
use crate::world::*;
use prometrics::metric::Metric;
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Up {
    Value(usize, F),
    Ts(usize, Option<i64>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Phase {
    ups: Vec<Up>,
    drops: Vec<usize>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    members: Vec<Spec>,
    phases: Vec<Phase>,
}
/// Names that are equal or nearly so.
pub fn near_name() -> BoxedStrategy<(Option<String>, Option<String>, String)> {
    let o = |s: &str| if s.is_empty() { None } else { Some(s.to_string()) };
    let v: Vec<_> = [("", "", "m"), ("", "n", "m"), ("n", "", "m"), ("", "", "n_m"), ("", "", "m_"), ("", "", "M"), ("", "", "mm"), ("n", "m", "m"), ("", "", "m_total")]
        .iter()
        .map(|x| (o(x.0), o(x.1), x.2.to_string()))
        .collect();
    prop_oneof![3 => Just(v[0].clone()), 2 => prop::sample::select(v[..4].to_vec()), 2 => prop::sample::select(v)].boxed()
}
/// Label sets that are equal or nearly so.
pub fn near_labels() -> BoxedStrategy<Vec<(String, String)>> {
    let long = "x".repeat(300);
    let (l1, l2) = (format!("{}1", long), format!("{}2", long));
    let v: Vec<Vec<(&str, &str)>> = vec![
        vec![],
        vec![("a", "x")],
        vec![("a", "")],
        vec![("a", "x"), ("b", "y")],
        vec![("b", "y"), ("a", "x")],
        vec![("b", "z"), ("a", "x"), ("b", "y")],
        vec![("a", "x\",b=\"y")],
        vec![("a", "x"), ("b", "")],
        vec![("ab", "x")],
        vec![("a", "bx")],
        vec![("a", "x ")],
        vec![("a", "X")],
        vec![("b", "x")],
        vec![("a", "y"), ("b", "x")],
        vec![("a", "\u{e9}")],
        vec![("a", "e\u{301}")],
        vec![("a", "x\n")],
        vec![("a", "x\\n")],
        vec![("a", &l1)],
        vec![("a", &l2)],
        vec![("a", "x"), ("b", "y"), ("c", "1")],
        vec![("a", "x"), ("b", "y"), ("c", "2")],
        vec![("A", "x")],
    ];
    let v: Vec<Vec<(String, String)>> = v.into_iter().map(|s| s.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()).collect();
    prop_oneof![3 => prop::sample::select(v[..2].to_vec()), 2 => prop::sample::select(v[3..7].to_vec()), 3 => prop::sample::select(v)].boxed()
}
fn strategy(len: BoxedStrategy<usize>) -> BoxedStrategy<Case> {
    let vals = || prop_oneof![3 => gen::dyadic(), 1 => gen::any_f64()].boxed();
    let spec = (any::<u8>(), gen::opt_millis(), scalar(vals()));
    let ids = prop::collection::vec((near_name(), near_labels()), 1..5);
    let up = prop_oneof![
        3 => (any::<usize>(), vals()).prop_map(|(i, f)| Up::Value(i, f)),
        1 => (any::<usize>(), gen::opt_millis()).prop_map(|(i, t)| Up::Ts(i, t)),
    ];
    let phase = (prop::collection::vec(up, 0..5), prop::collection::vec(any::<usize>(), 0..2)).prop_map(|(ups, drops)| Phase { ups, drops });
    (ids, len.prop_flat_map(move |n| prop::collection::vec(spec.clone(), n)), prop::collection::vec(phase, 0..4))
        .prop_map(|(ids, m, phases)| {
            let members = m
                .into_iter()
                .map(|(pick, ts, data)| {
                    let ((ns, sub, name), labels) = if pick < 120 { ids[0].clone() } else { ids[pick as usize % ids.len()].clone() };
                    Spec { ns, sub, name, help: None, labels, ts, data }
                })
                .collect();
            Case { members, phases }
        })
        .boxed()
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let regs = [g.registry()];
    let mut specs = c.members.clone();
    let mut live: Vec<Metric> = vec![];
    for s in &specs {
        live.push(build(s, &regs).map_err(|e| format!("a valid metric is rejected: {:?}", e))?);
    }
    let mut merged = 0;
    let mut decoys = false;
    for p in c.phases.iter().map(Some).chain([None]) {
        let got = g.gather();
        let want = expected(&specs);
        check_gather(&got, &want)?;
        merged = merged.max(want.values().flat_map(|f| f.series.values()).map(|s| s.members).max().unwrap_or(0));
        decoys |= want.len() > 1 || want.values().any(|f| f.series.len() > 1);
        let Some(p) = p else { break };
        if specs.is_empty() {
            break;
        }
        for u in &p.ups {
            match u {
                Up::Value(i, f) => {
                    let i = i % live.len();
                    match (&live[i], &mut specs[i].data) {
                        (Metric::Counter(m), Data::Counter { adds }) => {
                            let f = if f.0.is_nan() { F(0.5) } else { F(f.0.abs()) };
                            m.add(f.0).map_err(|e| format!("add: {:?}", e))?;
                            adds.push(f);
                        }
                        (Metric::Gauge(m), Data::Gauge { value }) => {
                            m.set(f.0);
                            *value = *f;
                        }
                        _ => unreachable!(),
                    }
                }
                Up::Ts(i, t) => {
                    let i = i % live.len();
                    set_ts(&live[i], *t);
                    specs[i].ts = *t;
                }
            }
        }
        // What was gathered is what was held then.
        check_gather(&got, &want).map_err(|e| format!("a result gathered earlier changed with later updates: {}", e))?;
        cx.class_if(!p.ups.is_empty(), "updates after a gather");
        drop(got);
        for d in &p.drops {
            if !live.is_empty() {
                let d = d % live.len();
                live.remove(d);
                specs.remove(d);
                cx.class("a member dropped between gathers");
            }
        }
    }
    cx.class_if(merged >= 2, "merged series");
    cx.class_if(merged >= 5, "series of 5 or more members");
    cx.class_if(decoys, "several identities");
    cx.nontrivial(merged >= 2 && decoys);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C03",
        level: "exploration",
        assumptions: &["sums that are not exact in every order are compared up to the rounding error of plain f64 additions", "schedules: interleavings are those of single steps between loads, stores and branches of the crate; reorderings by the memory model are not explored"],
        subs: vec![
            sub("sum", "two or more metrics share an identity and another identity is present", 64_000, 600_000, || strategy((1usize..9).boxed()), oracle).guide(&["/members", "/phases"]),
            sub("big", "the same, with 30..200 metrics", 800, 8_000, || strategy((30usize..200).boxed()), oracle),
            sub("crowd", "gatherers of up to thousands of metrics: 100 or more alive at a gather", 1_200, 12_000, || crate::crowd::merged(&[Kind::Counter, Kind::Gauge]), crate::crowd::oracle),
            sub("schedules", crate::conc::RULE, 72000, 400000, || crate::conc::twins(&[Kind::Counter, Kind::Gauge], false), crate::conc::oracle).guide(crate::conc::LISTS),
            sub_fresh("fresh", "two or more metrics share an identity and another identity is present", 800, 12_000, || strategy((1usize..9).boxed()), oracle),
            sub_fresh("fresh-schedules", crate::conc::RULE, 800, 12_000, || crate::conc::twins(&[Kind::Counter, Kind::Gauge], false), crate::conc::oracle),
        ],
    }
}
