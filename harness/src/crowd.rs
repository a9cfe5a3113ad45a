//! Gatherers with hundreds or thousands of metrics, described compactly: most limits that a change could introduce
//! (a batch size, a fixed capacity, a counter that is too narrow) show only in numbers.
use crate::engine::*;
use crate::gen::F;
use crate::world::*;
use prometrics::metric::Metric;
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Round {
    create: u16,
    /// Metrics whose number modulo `.0` is below `.1` are dropped (before or after the creation).
    drop: (u16, u16),
    drop_first: bool,
    gather: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kinds: Vec<Kind>,
    /// Number of names.
    names: u16,
    /// Number of metrics that have the same labels.
    dup: u16,
    rounds: Vec<Round>,
}
fn number() -> BoxedStrategy<u16> {
    prop_oneof![2 => 0u16..40, 3 => 40u16..400, 2 => 400u16..1500, 1 => prop::sample::select(crate::dict::sizes(2_500)).prop_map(|n| n as u16), 1 => prop::sample::select(vec![127u16, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049])].boxed()
}
fn strategy(kinds: BoxedStrategy<Vec<Kind>>, dup: BoxedStrategy<u16>) -> BoxedStrategy<Case> {
    let names = prop_oneof![1 => Just(1u16), 1 => 2u16..10, 1 => 100u16..2000];
    let round = (number(), (1u16..12).prop_flat_map(|m| (Just(m), 0..=m)), any::<bool>(), prop::bool::weighted(0.8)).prop_map(|(create, drop, drop_first, gather)| Round { create, drop, drop_first, gather });
    (kinds, names, dup, prop::collection::vec(round, 1..5)).prop_map(|(kinds, names, dup, rounds)| Case { kinds, names, dup, rounds }).boxed()
}
/// All kinds, with some metrics of equal identity.
pub fn mixed() -> BoxedStrategy<Case> {
    strategy(prop::collection::vec(kind(), 1..5).boxed(), prop_oneof![2 => Just(1u16), 1 => 2u16..40].boxed())
}
/// Few identities, with many members each.
pub fn merged(kinds: &'static [Kind]) -> BoxedStrategy<Case> {
    strategy(prop::sample::select(kinds).prop_map(|k| vec![k]).boxed(), prop_oneof![1 => 2u16..40, 2 => 100u16..2000].boxed())
}
fn spec(c: &Case, i: u32) -> Spec {
    let n = i % c.names as u32;
    let v = (i % 97) as f64;
    let data = match c.kinds[n as usize % c.kinds.len()] {
        Kind::Counter => Data::Counter { adds: vec![F(v), F(1.0)] },
        Kind::Gauge => Data::Gauge { value: F(v - 30.0) },
        Kind::Hist => Data::Hist { bounds: vec![F((i % 7) as f64), F((i % 50) as f64)], obs: vec![F(v - 10.0), F(v / 4.0)] },
        Kind::Summary => Data::Summary { quantiles: vec![F((i % 5) as f64 / 4.0)], obs: vec![F(v), F(v / 2.0)] },
    };
    let mut labels = vec![("group".to_string(), (i / c.names as u32 / c.dup as u32).to_string())];
    if i % 3 == 0 {
        labels.push(("x".into(), "1".into()));
    }
    Spec { ns: None, sub: None, name: format!("m{}", n), help: None, labels, ts: (i % 4 == 0).then_some(i as i64), data }
}
pub fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let r = g.registry();
    let mut alive: Vec<(u32, Spec, Metric)> = vec![];
    let (mut next, mut most, mut died) = (0u32, 0, false);
    for round in &c.rounds {
        let mut drop_some = |alive: &mut Vec<(u32, Spec, Metric)>| {
            let before = alive.len();
            alive.retain(|m| m.0 % round.drop.0 as u32 >= round.drop.1 as u32);
            died |= alive.len() < before && !alive.is_empty();
        };
        if round.drop_first {
            drop_some(&mut alive);
        }
        for _ in 0..round.create {
            let s = spec(c, next);
            let m = build(&s, &[r.clone()]).map_err(|e| format!("a valid metric is rejected: {:?}", e))?;
            alive.push((next, s, m));
            next += 1;
        }
        if !round.drop_first {
            drop_some(&mut alive);
        }
        if round.gather {
            most = most.max(alive.len());
            check_api(&g.gather(), &expected(alive.iter().map(|m| &m.1)))?;
        }
    }
    most = most.max(alive.len());
    check_gather(&g.gather(), &expected(alive.iter().map(|m| &m.1)))?;
    cx.class_if(most >= 128, "128 metrics and more");
    cx.class_if(most >= 1024, "1024 metrics and more");
    cx.class_if(c.dup >= 100, "100 and more metrics of one identity");
    cx.class_if(died, "some gone and some left");
    cx.nontrivial(most >= 100);
    Ok(())
}
