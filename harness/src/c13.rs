//! Malformed names, labels, bounds and quantiles are rejected without effect.
use crate::engine::*;
use crate::gen::{self, raw, F};
use crate::promtext::{valid_label_name, valid_metric_name};
use crate::world::*;
use prometrics::label::Label;
use prometrics::metric::Metric;
use prometrics::metrics::*;
use prometrics::quantile::Quantile;
use prometrics::{ErrorKind, Gatherer};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

const ODD: &[char] = &['-', '.', ' ', '!', '@', '/', '[', '`', '{', '0', '9', ':', ';', '_', '\0', '\n', '\t', '"', '\\', 'é', 'ª', 'Ａ', '０', 'ǅ', '\u{100}', '\u{141}', '\u{15f}', '\u{13a}', 'Ω', '\u{660}', '😀', '\u{7f}', '\u{80}', '$', '%', '*', '+', ',', '<', '=', '>', '?', '^', '|', '~'];
/// A valid name, or one with a character replaced, put in front, appended or inserted; or empty, or anything.
fn mutated(base: BoxedStrategy<String>) -> BoxedStrategy<String> {
    let odd = || prop_oneof![6 => prop::sample::select(ODD), 1 => prop::sample::select(crate::dict::strings().concat().chars().chain(['-']).collect::<Vec<_>>()), 1 => any::<char>(), 1 => (0u32..256).prop_map(|c| char::from_u32(c).unwrap())];
    // Long: mostly ordinary characters with at most one odd one.
    let len = prop_oneof![4 => 10usize..80, 3 => prop::sample::select(&[15usize, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 65535, 65536][..]), 1 => prop::sample::select(crate::dict::sizes(70_000)).prop_map(|n| (n as usize).max(1)), 1 => 80usize..2_000, 1 => 2_000usize..70_000];
    let long = (base.clone(), odd(), len, any::<usize>(), 0u8..5).prop_map(|(s, c, n, i, how)| {
        let mut v: Vec<char> = s.chars().take(20).chain(std::iter::repeat("ab_0Z".chars()).flatten()).take(n).collect();
        match how {
            0 => {}
            1 => v.push(c),
            2 => v[n - 1] = c,
            3 => v[(i >> 8) % n] = c,
            // In the last part of it.
            _ => v[n - 1 - i % n.min(8)] = c,
        }
        v.into_iter().collect::<String>()
    });
    prop_oneof![
        12 => base.clone(),
        1 => long,
        1 => (base.clone(), odd()).prop_map(|(s, c)| format!("{}{}", c, s)),
        1 => (base.clone(), odd()).prop_map(|(s, c)| format!("{}{}", s, c)),
        2 => (base, odd(), any::<usize>()).prop_map(|(s, c, i)| {
            let mut v: Vec<char> = s.chars().collect();
            let i = i % (v.len() + 1);
            v.insert(i, c);
            if v.len() > i + 1 && i % 2 == 0 {
                v.remove(i + 1);
            }
            v.into_iter().collect()
        }),
        1 => Just(String::new()),
        1 => "[a-z_:0-9]{0,3}",
    ]
    .boxed()
}
fn part() -> BoxedStrategy<String> {
    mutated(gen::name_part())
}
fn lname() -> BoxedStrategy<String> {
    let special = prop::sample::select(&["le", "quantile", "__", "__a", "__le", "_", "_a", "_0", "a__", "0", ":", "a:b", "le_", "Le", "lE", "LE", "_le", "l", "e", "lele", "Quantile", "QUANTILE", "quantiles", "_quantile", "quantile_", "quantil", "___", "_:"][..]).prop_map(|s| s.to_string());
    prop_oneof![4 => mutated(gen::label_name()), 2 => special].boxed()
}
/// Rewritten from the property, not from the code.
fn label_ok(name: &str, reserved: Option<&str>) -> bool {
    valid_label_name(name) && !name.starts_with("__") && reserved != Some(name)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    spec: Spec,
    common: bool,
}
fn strategy() -> BoxedStrategy<Case> {
    // Mostly at most one thing is wrong, so that nothing else hides it.
    let good = || (gen::opt_name_part(), gen::opt_name_part(), gen::name_part(), gen::help(), gen::labels(4), gen::opt_millis(), any_data(true)).prop_map(|(ns, sub, name, help, labels, ts, data)| Spec { ns, sub, name, help, labels, ts, data });
    let bad_q = prop_oneof![
        prop::sample::select(vec![-0.1, 1.1, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0 + f64::EPSILON, -5e-324, 2.0, -1.0, 1e300]).prop_map(F),
        gen::quantile(),
        gen::any_f64(),
    ];
    let data2 = prop_oneof![
        2 => any_data(true),
        1 => prop::collection::vec(bad_q, 0..4).prop_map(|quantiles| Data::Summary { quantiles, obs: vec![] }),
        1 => prop::collection::vec(prop_oneof![5 => gen::bound(), 1 => Just(F(f64::NAN))], 0..4).prop_map(|bounds| Data::Hist { bounds, obs: vec![] }),
    ];
    let s = prop_oneof![
        1 => good(),
        2 => (good(), part()).prop_map(|(mut s, p)| { s.ns = Some(p); s }),
        2 => (good(), part()).prop_map(|(mut s, p)| { s.sub = Some(p); s }),
        2 => (good(), part()).prop_map(|(mut s, p)| { s.name = p; s }),
        4 => (good(), lname(), gen::text(), any::<usize>()).prop_map(|(mut s, l, v, i)| { let i = i % (s.labels.len() + 1); s.labels.insert(i, (l, v)); s }),
        2 => (good(), data2).prop_map(|(mut s, d)| { s.data = d; s }),
        1 => (part(), part(), part(), prop::collection::vec((lname(), gen::text()), 0..3), any_data(true)).prop_map(|(a, b, c, labels, data)| Spec { ns: Some(a), sub: Some(b), name: c, help: None, labels, ts: None, data }),
    ];
    (s, any::<bool>()).prop_map(|(spec, common)| Case { spec, common }).boxed()
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let s = &c.spec;
    let names_ok = [&s.ns, &s.sub, &Some(s.name.clone())].into_iter().flatten().all(|p| valid_metric_name(p));
    let labels_ok = s.labels.iter().all(|l| label_ok(&l.0, s.data.kind().reserved()));
    let data_ok = match &s.data {
        Data::Hist { bounds, .. } => !bounds.iter().any(|b| b.0.is_nan()),
        Data::Summary { quantiles, .. } => quantiles.iter().all(|q| q.0 >= 0.0 && q.0 <= 1.0),
        _ => true,
    };
    let ok = names_ok && labels_ok && data_ok;
    let mut g = Gatherer::new();
    let regs = [g.registry(), g.registry()];
    let r = if c.common { crate::c06::build_common(s, &regs[..1]) } else { build(s, &regs[..1]) };
    match &r {
        Ok(m) => {
            ensure!(ok, "accepted (names valid: {}, labels valid: {}, bounds and quantiles valid: {})", names_ok, labels_ok, data_ok);
            ensure!(m.name().to_string() == s.full(), "the full name is {:?}, not {:?}", m.name().to_string(), s.full());
            let n = m.name();
            ensure!((n.namespace(), n.subsystem(), n.name()) == (s.ns.as_deref(), s.sub.as_deref(), s.name.as_str()), "name parts: {:?}", n);
            check_gather(&g.gather(), &expected([s]))?;
        }
        Err(e) => {
            ensure!(!ok, "rejected, but valid: {:?}", e);
            ensure!(*e.kind() == ErrorKind::InvalidInput, "rejected with {:?}", e);
            let f = g.gather();
            ensure!(f.as_ref().is_empty(), "rejected, but gathered: {:?}", f.to_text());
        }
    }
    cx.class_if(ok, "valid");
    cx.class_if(!names_ok, "invalid name");
    cx.class_if(!labels_ok, "invalid label");
    cx.class_if(!data_ok, "invalid bound or quantile");
    // The short forms take the same names.
    if s.ns.is_none() && s.sub.is_none() {
        let short: Result<Metric, _> = match s.data.kind() {
            Kind::Counter => Counter::new(&s.name).map(Metric::from),
            Kind::Gauge => Gauge::new(&s.name).map(Metric::from),
            Kind::Hist => Histogram::new(&s.name).map(Metric::from),
            Kind::Summary => Summary::new(&s.name, HOUR).map(Metric::from),
        };
        ensure!(short.is_ok() == valid_metric_name(&s.name), "new({:?}) gives {:?}", s.name, short.is_ok());
    }
    for (n, v) in &s.labels {
        let l = Label::new(n, v);
        ensure!(l.is_ok() == label_ok(n, None), "Label::new({:?}, _) gives {:?}", n, l.is_ok());
        match l {
            Ok(l) => ensure!(l.name() == n && l.value() == v, "the label {:?}={:?} reads {:?}", n, v, l),
            Err(e) => ensure!(*e.kind() == ErrorKind::InvalidInput, "Label::new({:?}, _) gives {:?}", n, e),
        }
    }
    if let Data::Summary { quantiles, .. } = &s.data {
        for q in raw(quantiles) {
            let r = Quantile::new(q);
            ensure!(r.is_ok() == (q >= 0.0 && q <= 1.0), "Quantile::new({:?}) gives {:?}", q, r.is_ok());
            match r {
                Ok(x) => ensure!(x.as_f64() == q, "quantile {:?} reads {:?}", q, x),
                Err(e) => ensure!(*e.kind() == ErrorKind::InvalidInput, "Quantile::new({:?}) gives {:?}", q, e),
            }
        }
    }
    let long = [&s.ns, &s.sub, &Some(s.name.clone())].into_iter().flatten().chain(s.labels.iter().map(|l| &l.0)).map(|s| s.len()).max().unwrap_or(0);
    cx.class_if(long > 255 && !ok, "invalid, with a name longer than 255 bytes");
    cx.class_if(long > 255 && ok, "valid, with a name longer than 255 bytes");
    cx.nontrivial(!ok || s.labels.len() + s.full().len() > 4);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Insert {
    kind: Kind,
    start: Vec<(String, String)>,
    inserts: Vec<(String, String)>,
}
fn insert_strategy() -> BoxedStrategy<Insert> {
    (kind(), gen::labels(4), prop::collection::vec((lname(), gen::text()), 1..6)).prop_map(|(kind, start, inserts)| Insert { kind, start, inserts }).boxed()
}
fn insert_oracle(c: &Insert, cx: &mut Cx) -> R {
    let data = match c.kind {
        Kind::Counter => Data::Counter { adds: vec![] },
        Kind::Gauge => Data::Gauge { value: F(1.0) },
        Kind::Hist => Data::Hist { bounds: vec![], obs: vec![] },
        Kind::Summary => Data::Summary { quantiles: vec![], obs: vec![] },
    };
    let mut s = Spec { ns: None, sub: None, name: "m".into(), help: None, labels: c.start.clone(), ts: None, data };
    let mut g = Gatherer::new();
    let mut m = build(&s, &[g.registry()]).map_err(|e| format!("{:?}", e))?;
    let (mut good, mut bad) = (0, 0);
    for (n, v) in &c.inserts {
        let before = label_vec(m.labels());
        let ok = label_ok(n, c.kind.reserved());
        match labels_mut(&mut m, |l| l.insert(n, v)) {
            Ok(()) => {
                ensure!(ok, "inserting the label {:?} into a {} is accepted", n, c.kind.word());
                s.labels.push((n.clone(), v.clone()));
                good += 1;
            }
            Err(e) => {
                ensure!(!ok, "inserting the label {:?} into a {} is rejected: {:?}", n, c.kind.word(), e);
                ensure!(*e.kind() == ErrorKind::InvalidInput, "inserting the label {:?} gives {:?}", n, e);
                ensure!(label_vec(m.labels()) == before, "the rejected insertion of {:?} changed the labels from {:?} to {:?}", n, before, label_vec(m.labels()));
                bad += 1;
            }
        }
        check_gather(&g.gather(), &expected([&s]))?;
    }
    cx.class_if(good > 0, "accepted insertion");
    cx.class_if(bad > 0, "rejected insertion");
    cx.nontrivial(bad > 0);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C13",
        level: "exploration",
        assumptions: &[],
        subs: vec![
            sub("build", "something is invalid, or a valid metric whose name and labels are more than trivial", 120_000, 1_500_000, strategy, oracle),
            sub("insert", "a label insertion that must be rejected", 60_000, 800_000, insert_strategy, insert_oracle),
            sub_fresh("fresh", "something is invalid, or a valid metric whose name and labels are more than trivial", 800, 12_000, strategy, oracle),
        ],
    }
}
