//! One family per name and kind, one series per label set, whatever the order.
use crate::engine::*;
use crate::gen;
use crate::world::*;
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    specs: Vec<Spec>,
    order: Vec<u32>,
    label_order: Vec<u32>,
    drop: Vec<u32>,
}
/// Splits a full name at some of its underscores into the parts a builder takes.
fn split(full: &str, a: usize, b: usize) -> (Option<String>, Option<String>, String) {
    let ok = |s: &str| crate::promtext::valid_metric_name(s);
    let cuts: Vec<usize> = full.match_indices('_').map(|m| m.0).collect();
    let mut parts = vec![];
    let mut rest = full;
    for pick in [a, b] {
        let base = full.len() - rest.len();
        let c: Vec<usize> = cuts.iter().filter(|c| **c >= base).map(|c| c - base).filter(|c| ok(&rest[..*c]) && ok(&rest[c + 1..])).collect();
        if pick % (c.len() + 1) == 0 {
            parts.push(None);
        } else {
            let at = c[pick % (c.len() + 1) - 1];
            parts.push(Some(rest[..at].to_string()));
            rest = &rest[at + 1..];
        }
    }
    (parts[0].clone(), parts[1].clone(), rest.to_string())
}
/// 0 and -0 are equal but look different: which of the two a merged series shows is not specified.
fn positive_zeros(s: &mut Spec) {
    let fix = |v: &mut Vec<gen::F>| v.iter_mut().for_each(|f| f.0 += 0.0);
    match &mut s.data {
        Data::Counter { adds } => fix(adds),
        Data::Gauge { value } => value.0 += 0.0,
        Data::Hist { bounds, obs } => {
            fix(bounds);
            fix(obs)
        }
        Data::Summary { quantiles, obs } => {
            fix(quantiles);
            fix(obs)
        }
    }
}
const FULL: &[&str] = &["a", "a_b", "a_b_c", "a_b_c_d", "ab_c", "a__b", "a_b_", "_a_b", "a:b_c", "A_b", "b", "b_a", "a_c", "a_b0", "a_b_b", "a_a_b"];
fn name() -> BoxedStrategy<(Option<String>, Option<String>, String)> {
    prop_oneof![
        6 => (prop::sample::select(&FULL[1..4]), 0usize..6, 0usize..6).prop_map(|(f, a, b)| split(f, a, b)),
        4 => (prop::sample::select(FULL), 0usize..6, 0usize..6).prop_map(|(f, a, b)| split(f, a, b)),
        1 => (gen::opt_name_part(), gen::opt_name_part(), gen::name_part()),
    ]
    .boxed()
}
fn few_labels() -> BoxedStrategy<Vec<(String, String)>> {
    let n = || prop::sample::select(&["a", "b", "c", "ab", "B"][..]).prop_map(|s| s.to_string());
    let v = || prop::sample::select(&["", "a", "b", "ab", "0", "a\",b=\"x", "\n", "é"][..]).prop_map(|s| s.to_string());
    let two = || prop::sample::select(&["a", "b"][..]).prop_map(|s| s.to_string());
    prop_oneof![4 => Just(vec![]), 4 => prop::collection::vec((two(), two()), 0..3), 5 => prop::collection::vec((n(), v()), 0..4), 1 => gen::labels(5)].boxed()
}
fn strategy(len: impl Strategy<Value = usize> + 'static) -> BoxedStrategy<Case> {
    let s = (name(), few_labels(), gen::help(), gen::opt_millis(), prop_oneof![1 => data(Kind::Counter, true), 2 => any_data(true)])
        .prop_map(|((ns, sub, name), labels, help, ts, data)| Spec { ns, sub, name, help, labels, ts, data });
    (len.prop_flat_map(move |n| prop::collection::vec(s.clone(), n)), gen::keys(), gen::keys(), prop::collection::vec(any::<u32>(), 0..6))
        .prop_map(|(mut specs, order, label_order, drop)| {
            unify_help(&mut specs);
            specs.iter_mut().for_each(positive_zeros);
            Case { specs, order, label_order, drop }
        })
        .boxed()
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let bad = |e| format!("a valid metric is rejected: {:?}", e);
    let mut g1 = Gatherer::new();
    let mut keep1 = vec![];
    for s in &c.specs {
        keep1.push(build(s, &[g1.registry()]).map_err(bad)?);
    }
    // The same metrics, created in another order, their labels given in another order.
    let mut g2 = Gatherer::new();
    let mut keep2 = vec![];
    for s in gen::shuffle(&c.specs, &c.order) {
        let mut s = s.clone();
        s.labels = gen::shuffle(&s.label_map().into_iter().collect::<Vec<_>>(), &c.label_order);
        keep2.push(build(&s, &[g2.registry()]).map_err(bad)?);
    }
    // And created in the first order, but registered in the second one.
    let mut g3 = Gatherer::new();
    let mut keep3 = vec![];
    for s in &c.specs {
        keep3.push(build(s, &[]).map_err(bad)?);
    }
    let reg = g3.registry();
    for m in gen::shuffle(&keep3, &c.order) {
        use prometrics::metric::Metric::*;
        match m {
            Counter(m) => reg.register(m.collector()),
            Gauge(m) => reg.register(m.collector()),
            Histogram(m) => reg.register(m.collector()),
            Summary(m) => reg.register(m.collector()),
        }
    }
    let r1 = g1.gather();
    check_gather(&r1, &expected(&c.specs))?;
    let t1 = r1.to_text();
    let again = g1.gather().to_text();
    ensure!(again == t1, "gathering again with nothing changed gives another text:\n{}\nbefore:\n{}", again, t1);
    let t2 = g2.gather().to_text();
    ensure!(t2 == t1, "another creation order gives another text:\n{}\nfirst order:\n{}", t2, t1);
    let t3 = g3.gather().to_text();
    ensure!(t3 == t1, "another registration order gives another text:\n{}\nfirst order:\n{}", t3, t1);
    ensure!(g2.gather().to_text() == t1 && g1.gather().to_text() == t1, "gathering again gives another text");
    // Dropping some of them reorders the collectors; the rest must look as if the others had never been there.
    if !c.specs.is_empty() && !c.drop.is_empty() {
        drop(r1);
        let dead: BTreeSet<usize> = c.drop.iter().map(|d| *d as usize % c.specs.len()).collect();
        let rest: Vec<&Spec> = c.specs.iter().enumerate().filter(|(i, _)| !dead.contains(i)).map(|x| x.1).collect();
        for d in dead.iter().rev() {
            keep1.remove(*d);
        }
        let mut g4 = Gatherer::new();
        let mut keep4 = vec![];
        for s in &rest {
            keep4.push(build(s, &[g4.registry()]).map_err(bad)?);
        }
        let (a, b) = (g1.gather(), g4.gather().to_text());
        check_gather(&a, &expected(rest.iter().cloned()))?;
        ensure!(a.to_text() == b, "after dropping some metrics the text is:\n{}\nbut only the others give:\n{}", a.to_text(), b);
        cx.class("some dropped");
    }
    let e = expected(&c.specs);
    let splits: BTreeSet<_> = c.specs.iter().map(|s| (s.full(), s.data.kind(), s.ns.clone(), s.sub.clone())).collect();
    let split = splits.len() > e.len();
    cx.class_if(split, "one full name split in several ways");
    let merged = e.values().any(|f| f.series.values().any(|s| s.members > 1));
    cx.class_if(merged, "merged series");
    cx.class_if(e.values().any(|f| f.series.len() > 1), "family of several series");
    cx.class_if(e.keys().any(|k| e.keys().any(|l| l.0 == k.0 && l.1 != k.1)), "one name of several kinds");
    cx.nontrivial(c.specs.len() > 2 && (split || merged));
    Ok(())
}
/// `harness order`: the text of the metrics given on standard input, created in the order given.
pub fn order_process() {
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
    let specs: Vec<Spec> = serde_json::from_str(&text).unwrap();
    let mut g = Gatherer::new();
    let keep: Vec<_> = specs.iter().map(|s| build(s, &[g.registry()]).expect("valid")).collect();
    print!("{}", g.gather().to_text());
    drop(keep);
}
/// The two creation orders in a process each: whatever a process remembers of the first one is not there for the second.
fn processes(c: &Case, cx: &mut Cx) -> R {
    let other: Vec<Spec> = gen::shuffle(&c.specs, &c.order)
        .into_iter()
        .map(|mut s| {
            s.labels = gen::shuffle(&s.label_map().into_iter().collect::<Vec<_>>(), &c.label_order);
            s
        })
        .collect();
    let text = |specs: &[Spec]| -> Result<String, String> {
        let out = own_process(&["order"], &serde_json::to_string(specs).unwrap())?;
        ensure!(out.status.success(), "the process ends with {:?} and says {:?}", out.status, String::from_utf8_lossy(&out.stderr));
        String::from_utf8(out.stdout).map_err(|e| e.to_string())
    };
    let (a, b) = (text(&c.specs)?, text(&other)?);
    if a != b {
        // An order that is another one in each process would not depend on the order of creation.
        let mut stable = true;
        for _ in 0..3 {
            stable &= text(&c.specs)? == a && text(&other)? == b;
        }
        ensure!(!stable, "in a process of its own, another creation order gives another text:\n{}\nfirst order:\n{}", b, a);
        cx.class("order of the process");
    }
    cx.nontrivial(c.specs.len() > 2);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C02",
        level: "exploration",
        assumptions: &["sums of the generated values are exact in any order, so texts can be compared byte for byte"],
        subs: vec![
            sub("order", "at least 3 metrics with a full name split in several ways or a merged series", 16_000, 300_000, || strategy((1usize..10).boxed()), oracle),
            sub("big", "the same, with 20..120 metrics", 400, 8_000, || strategy((20usize..120).boxed()), oracle),
            sub("crowd", "gatherers of up to thousands of metrics: 100 or more alive at a gather", 800, 16_000, crate::crowd::mixed, crate::crowd::oracle),
            sub("processes", "at least 3 metrics", 400, 12_000, || strategy((1usize..10).boxed()), processes),
            sub_fresh("fresh", "at least 3 metrics with a full name split in several ways or a merged series", 800, 12_000, || strategy((1usize..10).boxed()), oracle),
        ],
    }
}
