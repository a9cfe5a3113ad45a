//! Handles, gathered values and text all tell the same story.
use crate::c03::{near_labels, near_name};
use crate::engine::*;
use crate::gen;
use crate::promtext as pt;
use crate::world::*;
use prometrics::metric::{Metric, MetricFamily, Metrics};
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    specs: Vec<Spec>,
    /// How to go through iterators: the kinds of steps, and how far.
    #[serde(default)]
    walk: Vec<(u8, u8)>,
}
fn strategy() -> BoxedStrategy<Case> {
    let near = (near_name(), near_labels(), gen::help(), gen::opt_millis(), any_data(true)).prop_map(|((ns, sub, name), labels, help, ts, data)| Spec { ns, sub, name, help, labels, ts, data });
    // Sometimes a second metric with the same identity and its own data.
    let one = prop_oneof![1 => spec(false), 1 => near].prop_flat_map(|s| {
        let twin = prop_oneof![3 => Just(None), 1 => (data(s.data.kind(), true), gen::opt_millis()).prop_map(Some)];
        (Just(s), twin)
    });
    (prop::collection::vec(one, 1..7), prop::collection::vec((0u8..10, 0u8..4), 0..8))
        .prop_map(|(pairs, walk)| {
            let mut specs = vec![];
            for (s, twin) in pairs {
                if let Some((data, ts)) = twin {
                    specs.push(Spec { data, ts, ..s.clone() });
                }
                specs.push(s);
            }
            unify_help(&mut specs);
            Case { specs, walk }
        })
        .boxed()
}
fn eq_f(a: f64, b: f64) -> bool {
    same(a, b)
}
/// Goes through an iterator, step by step as planned: every way of doing so sees the same things.
fn walk<T: PartialEq + std::fmt::Debug, I: Iterator>(what: &str, mut it: I, conv: impl Fn(I::Item) -> T, all: &[T], plan: &[(u8, u8)]) -> R {
    let mut at = 0;
    for (how, k) in plan.iter().chain([&(9, 0)]) {
        let rest = &all[at..];
        let (lo, hi) = it.size_hint();
        ensure!(lo <= rest.len() && hi.map_or(true, |h| h >= rest.len()), "{}: {} things left, but their number is said to be {:?}..{:?}", what, rest.len(), lo, hi);
        let k = *k as usize;
        let (got, want) = match how {
            0..=2 => (it.next().map(&conv), rest.first()),
            3 | 4 => (it.nth(k).map(&conv), rest.get(k)),
            5 => (it.by_ref().take(k + 1).last().map(&conv), rest.get(k).or(rest.last())),
            6 => (it.by_ref().skip(k).next().map(&conv), rest.get(k)),
            7 => {
                let n = it.count();
                ensure!(n == rest.len(), "{}: {} things left, but counted as {}", what, rest.len(), n);
                return Ok(());
            }
            8 => {
                let last = it.last().map(&conv);
                ensure!(last.as_ref() == rest.last(), "{}: the last is {:?}, should be {:?}", what, last, rest.last());
                return Ok(());
            }
            _ => {
                let mut left = vec![];
                it.for_each(|x| left.push(conv(x)));
                ensure!(left == rest, "{}: {:?} is left, should be {:?}", what, left, rest);
                return Ok(());
            }
        };
        ensure!(got.as_ref() == want, "{}: step {:?} at {} of {:?} gives {:?}", what, (how, k), at, all, got);
        at += if *how <= 2 { 1 } else { k + 1 };
        if at > all.len() {
            // What comes after the end is not said.
            return Ok(());
        }
    }
    Ok(())
}
/// What the handle says, in the shape of a parsed series.
fn handle(m: &Metric) -> Result<pt::Series, String> {
    let v = label_vec(m.labels());
    ensure!(v.len() == m.labels().len() && v.is_empty() == m.labels().is_empty(), "{} labels are iterated, but their number is given as {}", v.len(), m.labels().len());
    let val = match m {
        Metric::Counter(x) => pt::Val::Scalar(x.value()),
        Metric::Gauge(x) => pt::Val::Scalar(x.value()),
        Metric::Histogram(x) => {
            let cum: Vec<(f64, f64)> = x.cumulative_buckets().map(|b| (b.upper_bound(), b.cumulative_count() as f64)).collect();
            let mut total = 0;
            let plain: Vec<(f64, f64)> = x
                .buckets()
                .iter()
                .map(|b| {
                    total += b.count();
                    (b.upper_bound(), total as f64)
                })
                .collect();
            ensure!(cum == plain, "cumulative buckets {:?}, but the buckets add up to {:?}", cum, plain);
            ensure!(x.count() == total, "count {} but the buckets hold {}", x.count(), total);
            pt::Val::Hist(cum, x.sum(), x.count() as f64)
        }
        Metric::Summary(x) => pt::Val::Summary(x.quantiles().iter().map(|q| (q.0.as_f64(), q.1)).collect(), x.sum(), x.count() as f64),
    };
    Ok(pt::Series { order: v.iter().map(|x| x.0.clone()).collect(), labels: v.into_iter().collect(), ts: get_ts(m), val })
}
fn agree(a: &pt::Series, b: &pt::Series) -> R {
    ensure!(a.labels == b.labels && a.order == b.order, "labels {:?} and {:?}", a.labels, b.labels);
    ensure!(a.ts == b.ts, "timestamps {:?} and {:?}", a.ts, b.ts);
    let pairs = |x: &[(f64, f64)], y: &[(f64, f64)]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eq_f(p.0, q.0) && eq_f(p.1, q.1));
    let same = match (&a.val, &b.val) {
        (pt::Val::Scalar(x), pt::Val::Scalar(y)) => eq_f(*x, *y),
        (pt::Val::Hist(x, s, c), pt::Val::Hist(y, t, d)) => pairs(x, y) && eq_f(*s, *t) && c == d,
        (pt::Val::Summary(x, s, c), pt::Val::Summary(y, t, d)) => pairs(x, y) && eq_f(*s, *t) && c == d,
        _ => false,
    };
    ensure!(same, "values {:?} and {:?}", a.val, b.val);
    Ok(())
}
/// Per aggregated member of a family: its name, and its own rendering.
fn members(f: &MetricFamily) -> Vec<(String, String)> {
    match f.metrics() {
        Metrics::Counter(v) => v.iter().map(|m| (m.metric_name().to_string(), m.to_string())).collect(),
        Metrics::Gauge(v) => v.iter().map(|m| (m.metric_name().to_string(), m.to_string())).collect(),
        Metrics::Histogram(v) => v.iter().map(|m| (m.metric_name().to_string(), m.to_string())).collect(),
        Metrics::Summary(v) => v.iter().map(|m| (m.metric_name().to_string(), m.to_string())).collect(),
    }
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let mut ms = vec![];
    for s in &c.specs {
        ms.push(build(s, &[g.registry()]).map_err(|e| format!("a valid metric is rejected: {:?}", e))?);
    }
    // The metric on its own: specification, handle, rendering.
    for (s, m) in c.specs.iter().zip(&ms) {
        let n = m.name();
        ensure!(n.namespace() == s.ns.as_deref() && n.subsystem() == s.sub.as_deref() && n.name() == s.name, "name parts are {:?} {:?} {:?}", n.namespace(), n.subsystem(), n.name());
        ensure!(n.to_string() == s.full(), "the full name is {:?}, not {:?}", n.to_string(), s.full());
        ensure!(help_of(m) == s.help.as_deref(), "help is {:?}, not {:?}", help_of(m), s.help);
        ensure!(Kind::of(m.kind()) == s.data.kind() && m.kind().to_string() == s.data.kind().word(), "the kind is {:?} {}", m.kind(), m.kind());
        let h = handle(m)?;
        ensure!(h.labels == s.label_map(), "labels are {:?}, not {:?}", h.labels, s.label_map());
        ensure!(h.ts == s.ts, "the timestamp is {:?}, not {:?}", h.ts, s.ts);
        val_ok(&merge(&[s]).val, &h.val).map_err(|e| format!("the handle of {}: {}", s.full(), e))?;
        let d = parse_display(&s.full(), s.data.kind(), &display(m)).map_err(|e| format!("{} in {:?}", e, display(m)))?;
        agree(&h, &d).map_err(|e| format!("handle and rendering disagree: {}\n{}", e, display(m)))?;
        for (k, v) in &h.labels {
            let l = m.labels().get(k);
            ensure!(l.map(|l| (l.name().to_string(), l.value().to_string())) == Some((k.clone(), v.clone())), "label {:?} is looked up as {:?}", k, l);
        }
        walk("labels", m.labels().iter(), |l| (l.name().to_string(), l.value().to_string()), &label_vec(m.labels()), &c.walk)?;
        if let (Metric::Histogram(x), pt::Val::Hist(b, ..)) = (m, &h.val) {
            walk("cumulative buckets", x.cumulative_buckets(), |b| (b.upper_bound(), b.cumulative_count() as f64), b, &c.walk)?;
        }
        let clone = m.clone();
        ensure!(display(&clone) == display(m) && clone.name() == n && clone.kind() == m.kind(), "a clone of {} differs", s.full());
    }
    // Names and kinds compare as what they say.
    for (a, s) in ms.iter().zip(&c.specs) {
        for (b, t) in ms.iter().zip(&c.specs) {
            let same = s.full() == t.full();
            ensure!((a.name() == b.name()) == same, "names {:?} and {:?} compare as {}", s.full(), t.full(), a.name() == b.name());
            ensure!((a.name().cmp(b.name()) == std::cmp::Ordering::Equal) == same && a.name().partial_cmp(b.name()) == Some(b.name().cmp(a.name()).reverse()), "the order of names {:?} and {:?}", s.full(), t.full());
            let hash = |m: &Metric| {
                let mut h = DefaultHasher::new();
                m.name().hash(&mut h);
                h.finish()
            };
            ensure!(!same || hash(a) == hash(b), "equal names {:?} hash differently", s.full());
            ensure!((a.kind() == b.kind()) == (s.data.kind() == t.data.kind()), "kinds {:?} and {:?}", a.kind(), b.kind());
        }
    }
    let got = g.gather();
    let text = got.to_text();
    let wrap = |e: String| format!("{}\nin the text:\n{}", e, text);
    // The gathered families: API, own renderings, text, and all ways through the result.
    let want = expected(&c.specs);
    check_gather(&got, &want)?;
    let parsed = pt::parse(&text).map_err(wrap)?;
    let slice: &[MetricFamily] = got.as_ref();
    ensure!(parsed.len() == slice.len(), "{} families in the text, {} in the result", parsed.len(), slice.len());
    let mut identities: BTreeMap<(String, Kind, BTreeMap<String, String>), Vec<&Metric>> = BTreeMap::new();
    for (s, m) in c.specs.iter().zip(&ms) {
        identities.entry((s.full(), s.data.kind(), s.label_map())).or_default().push(m);
    }
    for (f, p) in slice.iter().zip(&parsed) {
        ensure!(f.name().to_string() == p.name && f.kind().to_string() == p.kind, "family {} {} is rendered as {} {}", f.name(), f.kind(), p.name, p.kind);
        ensure!(f.help().map(|h| h.to_string()) == p.help, "{}", wrap(format!("family {} has help {:?}, rendered as {:?}", f.name(), f.help(), p.help)));
        let kind_of_metrics = match f.metrics() {
            Metrics::Counter(_) => Kind::Counter,
            Metrics::Gauge(_) => Kind::Gauge,
            Metrics::Histogram(_) => Kind::Hist,
            Metrics::Summary(_) => Kind::Summary,
        };
        ensure!(kind_of_metrics == Kind::of(f.kind()), "a family of kind {} holds {:?} metrics", f.kind(), kind_of_metrics);
        let (api, txt) = (api_series(f), pt::series(p).map_err(wrap)?);
        ensure!(api.len() == txt.len(), "{}", wrap(format!("{} has {} series, {} in the text", f.name(), api.len(), txt.len())));
        let mem = members(f);
        for (i, (a, t)) in api.iter().zip(&txt).enumerate() {
            agree(a, t).map_err(|e| wrap(format!("gathered and rendered {} disagree: {}", f.name(), e)))?;
            ensure!(mem[i].0 == f.name().to_string(), "{} is a member of family {}", mem[i].0, f.name());
            let own = parse_display(&p.name, kind_of_metrics, &mem[i].1)?;
            agree(a, &own).map_err(|e| format!("gathered {} and its own rendering disagree: {}\n{}", f.name(), e, mem[i].1))?;
            let Some(of) = identities.get(&(p.name.clone(), kind_of_metrics, a.labels.clone())) else { return Err(format!("unexpected {} {:?}", p.name, a.labels)) };
            if let [m] = of[..] {
                cx.class("series of a single metric");
                agree(&handle(m)?, a).map_err(|e| format!("handle and gathered {} disagree: {}", f.name(), e))?;
            } else {
                cx.class("aggregated series");
            }
        }
        if let Metrics::Histogram(v) = f.metrics() {
            for (x, t) in v.iter().zip(&txt) {
                let pt::Val::Hist(b, ..) = &t.val else { return Err("not a histogram".into()) };
                walk("aggregated buckets", x.cumulative_buckets(), |b| (b.upper_bound(), b.cumulative_count() as f64), b, &c.walk)?;
            }
        }
        let body = f.metrics().to_string();
        ensure!(f.to_string().ends_with(&body), "family {} does not end with its metrics {:?}", f, body);
        ensure!(body == mem.iter().map(|m| m.1.clone() + "\n").collect::<String>(), "the metrics of {} are rendered as {:?}, not as its members {:?}", f.name(), body, mem);
    }
    let joined = |v: &mut dyn Iterator<Item = &MetricFamily>| v.map(|f| f.to_string()).collect::<String>();
    ensure!(joined(&mut slice.iter()) == text, "the families one by one give another text");
    let vec = got.clone().into_vec();
    ensure!(joined(&mut vec.iter()) == text, "into_vec gives other families");
    walk("families", got.clone().into_iter(), |f| f.to_string(), &slice.iter().map(|f| f.to_string()).collect::<Vec<_>>(), &c.walk)?;
    let iter: Vec<MetricFamily> = got.clone().into_iter().collect();
    ensure!(joined(&mut iter.iter()) == text, "into_iter gives other families");
    ensure!(got.clone().to_text() == text && got.to_text() == text, "a clone gives another text");
    cx.class_if(slice.len() > 1, "several families");
    cx.nontrivial(c.specs.len() > 1);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C23",
        level: "exploration",
        assumptions: &["help is the same for all members of a family"],
        subs: vec![
            sub("views", "two or more metrics", 20_000, 800_000, strategy, oracle).guide(&["/specs", "/walk"]),
            sub_fresh("fresh", "two or more metrics", 800, 12_000, strategy, oracle),
        ],
    }
}
