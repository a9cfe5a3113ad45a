//! Names, labels, kinds and quantiles compare, sort and hash as what they denote.
use crate::c03::near_name;
use crate::engine::*;
use crate::gen;
use crate::world::full;
use prometrics::label::Label;
use prometrics::metric::{Metric, MetricKind, MetricName};
use prometrics::metrics::*;
use prometrics::quantile::Quantile;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

type Parts = (Option<String>, Option<String>, String);
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    names: Vec<(Parts, u8)>,
    labels: Vec<(String, String)>,
    quantiles: Vec<gen::F>,
}
fn name() -> BoxedStrategy<Parts> {
    let cut = ("[ab_:]{1,7}", prop::sample::select(vec![0u8, 1, 2, 3]), any::<[u8; 2]>()).prop_map(|(s, how, at)| {
        // One text, cut at some of its underscores.
        let cuts: Vec<usize> = s.char_indices().filter(|(i, c)| *c == '_' && *i > 0 && *i + 1 < s.len()).map(|x| x.0).collect();
        let pick = |k: u8| cuts.get(k as usize % cuts.len().max(1)).cloned();
        match (how, pick(at[0]), pick(at[1])) {
            (1, Some(i), _) => (Some(s[..i].into()), None, s[i + 1..].into()),
            (2, Some(i), _) => (None, Some(s[..i].into()), s[i + 1..].into()),
            (3, Some(i), Some(j)) if i + 1 < j => (Some(s[..i].into()), Some(s[i + 1..j].into()), s[j + 1..].into()),
            _ => (None, None, s),
        }
    });
    prop_oneof![2 => cut, 2 => near_name(), 1 => (gen::opt_name_part(), gen::opt_name_part(), gen::name_part())].boxed()
}
fn strategy() -> BoxedStrategy<Case> {
    let text = || prop_oneof![3 => "[ab=\",\\\\]{0,3}", 1 => gen::text()];
    let label = prop_oneof![3 => ("[ab_][ab]{0,2}", text()), 1 => (gen::label_name(), text())].prop_filter("reserved", |l| !l.0.starts_with("__"));
    let q = prop_oneof![2 => gen::quantile(), 1 => prop::sample::select(vec![0.0, -0.0, 1.0, 0.5, 0.1 + 0.2, 0.3, f64::MIN_POSITIVE, 5e-324]).prop_map(gen::F)];
    (prop::collection::vec((name(), 0u8..4), 2..14), prop::collection::vec(label, 2..14), prop::collection::vec(q, 2..10))
        .prop_map(|(names, labels, quantiles)| Case { names, labels, quantiles })
        .boxed()
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// The laws of a total order that agrees with equality of what the values denote.
fn laws<T: Ord + Clone + Debug, K: PartialEq + Debug>(what: &str, v: &[T], keys: &[K]) -> R {
    for (a, k) in v.iter().zip(keys) {
        ensure!(a.clone() == *a && a.clone().cmp(a) == Ordering::Equal, "a clone of the {} {:?} differs", what, a);
        for (b, l) in v.iter().zip(keys) {
            let o = a.cmp(b);
            ensure!((a == b) == (k == l) && (a != b) == (k != l), "the {}s {:?} and {:?} compare as equal={}", what, a, b, a == b);
            ensure!((o == Ordering::Equal) == (k == l), "the {}s {:?} and {:?} are ordered {:?}", what, a, b, o);
            ensure!(b.cmp(a) == o.reverse(), "the {}s {:?} and {:?} are ordered {:?}, the other way round {:?}", what, a, b, o, b.cmp(a));
            ensure!(a.partial_cmp(b) == Some(o), "the {}s {:?} and {:?} are ordered {:?} and {:?}", what, a, b, o, a.partial_cmp(b));
            ensure!((a < b) == (o == Ordering::Less) && (a <= b) == (o != Ordering::Greater), "the {}s {:?} and {:?}: < and <= disagree with {:?}", what, a, b, o);
            for c in v {
                ensure!(!(a <= b && b <= c) || a <= c, "the order of {}s is not transitive: {:?} {:?} {:?}", what, a, b, c);
            }
        }
    }
    Ok(())
}
fn hashes<T: Ord + Hash + Clone + Debug, K: Ord + Clone + Debug>(what: &str, v: &[T], keys: &[K]) -> R {
    let (mut hm, mut bm, mut model) = (HashMap::new(), BTreeMap::new(), BTreeMap::new());
    for (i, (a, k)) in v.iter().zip(keys).enumerate() {
        for (b, l) in v.iter().zip(keys) {
            ensure!(k != l || hash(a) == hash(b), "equal {}s {:?} and {:?} hash differently", what, a, b);
            // As part of something larger, too.
            ensure!(k != l || hash(&(a, b)) == hash(&(b, a)), "pairs of equal {}s {:?} and {:?} hash differently", what, a, b);
        }
        hm.insert(a.clone(), i);
        bm.insert(a.clone(), i);
        model.insert(k.clone(), i);
    }
    ensure!(hm.len() == model.len() && bm.len() == model.len(), "{} distinct {}s give maps of {} and {} entries: {:?}", model.len(), what, hm.len(), bm.len(), bm);
    for (a, k) in v.iter().zip(keys) {
        ensure!(hm.get(a) == model.get(k) && bm.get(a) == model.get(k), "the {} {:?} is mapped to {:?} and {:?}, not {:?}", what, a, hm.get(a), bm.get(a), model.get(k));
    }
    Ok(())
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let err = |e| format!("{:?}", e);
    let mut metrics: Vec<Metric> = vec![];
    for ((ns, sub, n), kind) in &c.names {
        let mut b = MetricBuilder::without_registry();
        if let Some(s) = ns {
            b.namespace(s);
        }
        if let Some(s) = sub {
            b.subsystem(s);
        }
        metrics.push(match kind {
            0 => b.counter(n).finish().map_err(err)?.into(),
            1 => b.gauge(n).finish().map_err(err)?.into(),
            2 => b.histogram(n).finish().map_err(err)?.into(),
            _ => b.summary(n, std::time::Duration::from_secs(1)).finish().map_err(err)?.into(),
        });
    }
    let names: Vec<MetricName> = metrics.iter().map(|m| m.name().clone()).collect();
    let texts: Vec<String> = c.names.iter().map(|((ns, sub, n), _)| full(ns, sub, n)).collect();
    laws("metric name", &names, &texts)?;
    hashes("metric name", &names, &texts)?;
    for (n, ((ns, sub, name), _)) in names.iter().zip(&c.names) {
        ensure!(n.namespace() == ns.as_deref() && n.subsystem() == sub.as_deref() && n.name() == name, "the parts of a cloned name are {:?}", n);
    }
    let kinds: Vec<MetricKind> = metrics.iter().map(|m| m.kind()).collect();
    let words: Vec<u8> = c.names.iter().map(|x| x.1).collect();
    laws("kind", &kinds, &words)?;
    hashes("kind", &kinds, &words)?;
    let mut labels = vec![];
    for (n, v) in &c.labels {
        labels.push(Label::new(n, v).map_err(err)?);
    }
    laws("label", &labels, &c.labels)?;
    hashes("label", &labels, &c.labels)?;
    let mut qs = vec![];
    for q in &c.quantiles {
        qs.push(Quantile::new(q.0).map_err(err)?);
    }
    let nums: Vec<f64> = c.quantiles.iter().map(|q| q.0).collect();
    laws("quantile", &qs, &nums)?;
    for (a, x) in qs.iter().zip(&nums) {
        ensure!(a.as_f64() == *x, "the quantile {:?} reads {:?}", x, a.as_f64());
        for (b, y) in qs.iter().zip(&nums) {
            ensure!(Some(a.cmp(b)) == x.partial_cmp(y), "the quantiles {:?} and {:?} are ordered {:?}", x, y, a.cmp(b));
        }
    }
    let dup = |v: &[String]| (0..v.len()).any(|i| v[..i].contains(&v[i]));
    cx.class_if(dup(&texts), "one name twice");
    cx.class_if((0..names.len()).any(|i| (0..i).any(|j| texts[i] == texts[j] && c.names[i].0 != c.names[j].0)), "one name split in two ways");
    cx.class_if((0..labels.len()).any(|i| c.labels[..i].contains(&c.labels[i])), "one label twice");
    cx.nontrivial(dup(&texts));
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C27",
        level: "exploration",
        assumptions: &[],
        subs: vec![
            sub("laws", "two of the names are the same text", 24_000, 1_000_000, strategy, oracle).guide(&["/names", "/labels", "/quantiles"]),
            sub_fresh("fresh", "two of the names are the same text", 800, 12_000, strategy, oracle),
        ],
    }
}
