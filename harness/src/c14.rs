//! Labels behave as a map keyed by name, shared by all clones.
use crate::engine::*;
use crate::gen::{self, F};
use crate::world::*;
use prometrics::metric::Metric;
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Insert(u8, String, String),
    Remove(u8, String),
    Clear(u8),
    Clone,
    Drop(u8),
    /// Mutable views of two clones are kept over these changes (by the second one, if so marked), and never dropped if so marked.
    Hold(u8, u8, Vec<(bool, Change)>, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    Insert(String, String),
    /// Rejected.
    Bad(String),
    Remove(String),
    Clear,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    start: Vec<(String, String)>,
    common: bool,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    a: History,
    /// A second metric that ends up with the same labels (and one more insertion that is removed again).
    b: History,
    order: Vec<u32>,
}
const POOL: &[&str] = &["a", "b", "c", "ab", "B", "_", "a0", "a_", "Aa", "z", "aa", "_a", "job", "instance", "x1", "x10", "x2"];
fn history(len: std::ops::Range<usize>) -> BoxedStrategy<History> {
    let name = || prop_oneof![8 => prop::sample::select(POOL).prop_map(|s| s.to_string()), 1 => gen::label_name()].boxed();
    let val = || prop_oneof![2 => prop::sample::select(&["", "a", "b", "A", "0", "10", "9"][..]).prop_map(|s| s.to_string()), 1 => gen::text()].boxed();
    let change = prop_oneof![
        4 => (name(), val()).prop_map(|(n, v)| Change::Insert(n, v)),
        4 => name().prop_map(Change::Remove),
        1 => prop::sample::select(&["", "0", "__a", "a-", "é"][..]).prop_map(|n| Change::Bad(n.into())),
        1 => Just(Change::Clear),
    ];
    let hold = (any::<u8>(), any::<u8>(), prop::collection::vec((any::<bool>(), change), 1..5), any::<bool>());
    let op = prop_oneof![
        2 => hold.prop_map(|(v, w, c, l)| Op::Hold(v, w, c, l)),
        8 => (any::<u8>(), name(), val()).prop_map(|(w, n, v)| Op::Insert(w, n, v)),
        4 => (any::<u8>(), name()).prop_map(|(w, n)| Op::Remove(w, n)),
        1 => (any::<u8>(), prop_oneof![Just("".to_string()), Just("le".to_string()), Just("no such name".to_string())]).prop_map(|(w, n)| Op::Remove(w, n)),
        1 => any::<u8>().prop_map(Op::Clear),
        1 => Just(Op::Clone),
        1 => any::<u8>().prop_map(Op::Drop),
    ];
    (prop::collection::vec((name(), val()), 0..6), any::<bool>(), prop::collection::vec(op, len)).prop_map(|(start, common, ops)| History { start, common, ops }).boxed()
}
fn strategy(len: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    (kind(), history(len.clone()), history(0..len.end / 3 + 1), gen::keys()).prop_map(|(kind, a, b, order)| Case { kind, a, b, order }).boxed()
}
fn spec_of(kind: Kind, labels: &[(String, String)]) -> Spec {
    let data = match kind {
        Kind::Counter => Data::Counter { adds: vec![F(2.0)] },
        Kind::Gauge => Data::Gauge { value: F(3.0) },
        Kind::Hist => Data::Hist { bounds: vec![F(1.0)], obs: vec![F(0.5), F(2.0)] },
        Kind::Summary => Data::Summary { quantiles: vec![F(0.5)], obs: vec![F(4.0)] },
    };
    Spec { ns: None, sub: None, name: "m".into(), help: None, labels: labels.to_vec(), ts: None, data }
}
fn look(l: &prometrics::label::Labels, map: &BTreeMap<String, String>) -> R {
    let it = label_vec(l);
    let mut names: Vec<&String> = it.iter().map(|x| &x.0).collect();
    names.sort();
    names.dedup();
    ensure!(names.len() == it.len() && it.iter().cloned().collect::<BTreeMap<_, _>>() == *map, "the labels are {:?}, not {:?}", it, map);
    ensure!(l.len() == map.len() && l.is_empty() == map.is_empty(), "{} labels, empty: {}; they are {:?}", l.len(), l.is_empty(), map);
    for n in POOL.iter().cloned().chain(map.keys().map(|k| k.as_str())).chain(["le", ""]) {
        // The reference is not kept beyond this statement.
        let got = l.get(n).map(|l| (l.name().to_string(), l.value().to_string()));
        ensure!(got == map.get(n).map(|v| (n.to_string(), v.clone())), "looking up {:?} gives {:?}, but the labels are {:?}", n, got, map);
    }
    let text = l.to_string();
    let s = crate::promtext::sample(&format!("m{} 1", text))?;
    ensure!(s.labels == *map && s.order == it.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "the labels {:?} render as {:?}", map, text);
    let own: String = it.iter().filter_map(|x| prometrics::label::Label::new(&x.0, &x.1).ok()).map(|l| l.to_string()).collect::<Vec<_>>().join(",");
    ensure!(text == format!("{{{}}}", own), "the labels render as {:?}, one by one as {:?}", text, own);
    Ok(())
}
fn rendered(m: &Metric, map: &BTreeMap<String, String>) -> R {
    let s = parse_display("m", Kind::of(m.kind()), &display(m))?;
    ensure!(s.labels == *map, "the rendering shows the labels {:?}, not {:?}", s.labels, map);
    Ok(())
}
/// Runs a history; returns the metric and its final map.
fn run(kind: Kind, h: &History, g: &mut Gatherer, base: &mut Vec<Spec>, cx: &mut Cx) -> Result<(Metric, BTreeMap<String, String>), String> {
    let spec = spec_of(kind, &h.start);
    let regs = [g.registry()];
    let m = if h.common { crate::c06::build_common(&spec, &regs) } else { build(&spec, &regs) }.map_err(|e| format!("a valid metric is rejected: {:?}", e))?;
    let mut map = spec.label_map();
    cx.class_if(map.len() < h.start.len(), "label given twice at build");
    let mut hs = vec![m];
    look(hs[0].labels(), &map)?;
    for (i, op) in h.ops.iter().enumerate() {
        let n = hs.len();
        match op {
            Op::Insert(w, k, v) => {
                labels_mut(&mut hs[*w as usize % n], |l| l.insert(k, v)).map_err(|e| format!("inserting {:?} is rejected: {:?}", k, e))?;
                if map.insert(k.clone(), v.clone()).is_some() {
                    cx.class("label replaced");
                }
            }
            Op::Remove(w, k) => {
                labels_mut(&mut hs[*w as usize % n], |l| l.remove(k));
                if map.remove(k).is_some() {
                    cx.class("label removed");
                }
            }
            Op::Clear(w) => {
                labels_mut(&mut hs[*w as usize % n], |l| l.clear());
                map.clear();
            }
            Op::Clone => hs.push(hs[0].clone()),
            Op::Hold(v, w, changes, leak) => {
                let (mut a, mut b) = (hs[*v as usize % n].clone(), hs[*w as usize % n].clone());
                let (mut a, mut b) = (labels_guard(&mut a), labels_guard(&mut b));
                for (j, (second, change)) in changes.iter().enumerate() {
                    let l = if *second { &mut b } else { &mut a };
                    match change {
                        Change::Insert(k, v) => {
                            l.insert(k, v).map_err(|e| format!("inserting {:?} is rejected: {:?}", k, e))?;
                            map.insert(k.clone(), v.clone());
                        }
                        Change::Bad(k) => ensure!(l.insert(k, "x").is_err(), "the label {:?} is accepted", k),
                        Change::Remove(k) => {
                            l.remove(k);
                            map.remove(k);
                        }
                        Change::Clear => {
                            l.clear();
                            map.clear();
                        }
                    }
                    for (who, l) in [("the handle", hs[0].labels()), ("the first view", &*a), ("the second view", &*b)] {
                        look(l, &map).map_err(|e| format!("{}, after change {} of operation {} {:?}: {}", who, j, i, op, e))?;
                    }
                    if j % 3 == 1 {
                        rendered(&hs[0], &map)?;
                        let mut all = base.clone();
                        all.push(spec_of(kind, &map.clone().into_iter().collect::<Vec<_>>()));
                        check_gather(&g.gather(), &expected(&all))?;
                    }
                }
                cx.class("mutable views kept");
                if *leak {
                    std::mem::forget((a, b));
                }
            }
            Op::Drop(w) => {
                if n > 1 {
                    hs.remove(*w as usize % n);
                }
            }
        }
        for h in &hs {
            look(h.labels(), &map).map_err(|e| format!("after operation {} {:?}: {}", i, op, e))?;
        }
        let h = &mut hs[0];
        // Seen through the mutable view too.
        ensure!(labels_mut(h, |l| l.len()) == map.len(), "the mutable view has another length");
        if i % 4 == 0 {
            rendered(h, &map)?;
            let mut all = base.clone();
            all.push(spec_of(kind, &map.clone().into_iter().collect::<Vec<_>>()));
            check_gather(&g.gather(), &expected(&all))?;
        }
    }
    rendered(&hs[0], &map)?;
    base.push(spec_of(kind, &map.clone().into_iter().collect::<Vec<_>>()));
    check_gather(&g.gather(), &expected(&*base))?;
    Ok((hs.swap_remove(0), map))
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let mut base = vec![];
    let (a, map) = run(c.kind, &c.a, &mut g, &mut base, cx)?;
    // Another way to the same map: own history, then everything not in the map goes and the rest is set in another order.
    let mut b = c.b.clone();
    let pairs = gen::shuffle(&map.clone().into_iter().collect::<Vec<_>>(), &c.order);
    let mut known: Vec<String> = b.start.iter().map(|x| x.0.clone()).collect();
    known.extend(b.ops.iter().filter_map(|o| if let Op::Insert(_, n, _) = o { Some(n.clone()) } else { None }));
    for o in &b.ops {
        if let Op::Hold(_, _, changes, _) = o {
            known.extend(changes.iter().filter_map(|c| if let Change::Insert(n, _) = &c.1 { Some(n.clone()) } else { None }));
        }
    }
    let (first, rest) = pairs.split_at(pairs.len() / 2);
    b.ops.extend(first.iter().map(|(k, v)| Op::Insert(0, k.clone(), v.clone())));
    b.ops.extend(known.into_iter().filter(|k| !map.contains_key(k)).map(|k| Op::Remove(1, k)));
    b.ops.extend(rest.iter().map(|(k, v)| Op::Insert(2, k.clone(), v.clone())));
    let (b, map_b) = run(c.kind, &b, &mut g, &mut base, cx)?;
    ensure!(map == map_b, "harness: the second history misses the map");
    ensure!(label_vec(a.labels()) == label_vec(b.labels()), "two metrics with equal labels present them as {:?} and {:?}", label_vec(a.labels()), label_vec(b.labels()));
    ensure!(a.labels().to_string() == b.labels().to_string(), "two metrics with equal labels render them as {} and {}", a.labels(), b.labels());
    let f = g.gather();
    let n: usize = f.as_ref().iter().map(|f| api_series(f).len()).sum();
    ensure!(n == 1, "two metrics with the labels {:?} are gathered as {} series", map, n);
    cx.class_if(map.len() > 8, "more than 8 labels");
    cx.class_if(!map.is_empty(), "labels left at the end");
    cx.nontrivial(c.a.ops.len() >= 3 && map.len() >= 2);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C14",
        level: "exploration",
        assumptions: &["schedules: interleavings are those of single steps between loads, stores and branches of the crate; reorderings by the memory model are not explored"],
        subs: vec![
            sub("map", "at least 3 operations, 2 or more labels at the end", 24_000, 500_000, || strategy(0..16), oracle).guide(&["/a/ops", "/b/ops"]),
            sub("long", "the same, with 50..200 operations", 200, 4_000, || strategy(50..200), oracle),
            sub("churn", "more than 20 changes of the labels, two and more labels at a time", 400, 8_000, crate::scale::churn, crate::scale::churn_oracle),
            sub("wide", "30 and more labels", 300, 6_000, crate::scale::wide, crate::scale::wide_oracle),
            sub("many", "four or more threads, under the scheduler, change labels of their own", 1_200, 60_000, crate::meta::many, crate::meta::many_oracle),
            sub("schedules", crate::meta::RULE, 120000, 600000, || crate::meta::strategy(crate::meta::About::Labels), crate::meta::oracle).guide(crate::meta::LISTS),
            sub_fresh("fresh", "at least 3 operations, 2 or more labels at the end", 800, 12_000, || strategy(0..16), oracle),
            sub_fresh("fresh-schedules", crate::meta::RULE, 800, 12_000, || crate::meta::strategy(crate::meta::About::Labels), crate::meta::oracle),
        ],
    }
}
