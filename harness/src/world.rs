//! Metrics made from generated specifications, and the reference model of what a gather must contain.
use crate::engine::R;
use crate::gen::{self, raw, F};
use crate::promtext as pt;
use prometrics::metric::{Metric, MetricFamilies, MetricFamily, MetricKind, Metrics};
use prometrics::metrics::{CounterBuilder, GaugeBuilder, HistogramBuilder, SummaryBuilder};
use prometrics::Registry;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;

pub const HOUR: Duration = Duration::from_secs(3600);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Data {
    /// Non-negative additions.
    Counter { adds: Vec<F> },
    /// The value it is set to.
    Gauge { value: F },
    Hist { bounds: Vec<F>, obs: Vec<F> },
    Summary { quantiles: Vec<F>, obs: Vec<F> },
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Counter,
    Gauge,
    Hist,
    Summary,
}
pub const KINDS: [Kind; 4] = [Kind::Counter, Kind::Gauge, Kind::Hist, Kind::Summary];
impl Kind {
    pub fn word(self) -> &'static str {
        match self {
            Kind::Counter => "counter",
            Kind::Gauge => "gauge",
            Kind::Hist => "histogram",
            Kind::Summary => "summary",
        }
    }
    pub fn of(k: MetricKind) -> Kind {
        match k {
            MetricKind::Counter => Kind::Counter,
            MetricKind::Gauge => Kind::Gauge,
            MetricKind::Histogram => Kind::Hist,
            MetricKind::Summary => Kind::Summary,
        }
    }
    pub fn reserved(self) -> Option<&'static str> {
        match self {
            Kind::Hist => Some("le"),
            Kind::Summary => Some("quantile"),
            _ => None,
        }
    }
}
impl Data {
    pub fn kind(&self) -> Kind {
        match self {
            Data::Counter { .. } => Kind::Counter,
            Data::Gauge { .. } => Kind::Gauge,
            Data::Hist { .. } => Kind::Hist,
            Data::Summary { .. } => Kind::Summary,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub ns: Option<String>,
    pub sub: Option<String>,
    pub name: String,
    pub help: Option<String>,
    pub labels: Vec<(String, String)>,
    pub ts: Option<i64>,
    pub data: Data,
}
impl Spec {
    pub fn full(&self) -> String {
        full(&self.ns, &self.sub, &self.name)
    }
    pub fn label_map(&self) -> BTreeMap<String, String> {
        self.labels.iter().cloned().collect()
    }
}
pub fn full(ns: &Option<String>, sub: &Option<String>, name: &str) -> String {
    let mut s = String::new();
    for p in [ns, sub].into_iter().flatten() {
        s += p;
        s.push('_');
    }
    s + name
}

pub fn scalar(v: BoxedStrategy<F>) -> BoxedStrategy<Data> {
    let v2 = v.clone();
    prop_oneof![
        prop::collection::vec(v.prop_map(|f| F(if f.0.is_nan() { 1.0 } else { f.0.abs() })), 0..4).prop_map(|adds| Data::Counter { adds }),
        v2.prop_map(|value| Data::Gauge { value }),
    ]
    .boxed()
}
/// Values: `dyadic` values make all sums exact in any order.
pub fn data(kind: Kind, dyadic: bool) -> BoxedStrategy<Data> {
    let v = move || if dyadic { gen::dyadic() } else { gen::any_f64() };
    let nn = move || if dyadic { gen::dyadic() } else { gen::non_nan() };
    let len = || prop_oneof![9 => 0usize..7, 1 => 7usize..60];
    match kind {
        Kind::Counter => len()
            .prop_flat_map(move |n| prop::collection::vec(nn().prop_map(|f| F(f.0.abs())), n))
            .prop_map(|adds| Data::Counter { adds })
            .boxed(),
        Kind::Gauge => v().prop_map(|value| Data::Gauge { value }).boxed(),
        Kind::Hist => (len(), len())
            .prop_flat_map(move |(b, n)| {
                (prop::collection::vec(gen::bound(), b), prop::collection::vec(if dyadic { gen::dyadic() } else { prop_oneof![gen::bound(), gen::non_nan()].boxed() }, n))
            })
            .prop_map(|(bounds, obs)| Data::Hist { bounds, obs })
            .boxed(),
        Kind::Summary => (0usize..6, len())
            .prop_flat_map(move |(q, n)| (prop::collection::vec(gen::quantile(), q), prop::collection::vec(v(), n)))
            .prop_map(|(quantiles, obs)| Data::Summary { quantiles, obs })
            .boxed(),
    }
}
pub fn kind() -> BoxedStrategy<Kind> {
    prop::sample::select(&KINDS[..]).boxed()
}
pub fn any_data(dyadic: bool) -> BoxedStrategy<Data> {
    kind().prop_flat_map(move |k| data(k, dyadic)).boxed()
}

/// Builds the metric and applies its data. Nothing but the specification decides which calls are made.
pub fn build(s: &Spec, regs: &[Registry]) -> prometrics::Result<Metric> {
    let m = create(s, regs)?;
    apply(&m, s);
    Ok(m)
}
macro_rules! common {
    ($b:expr, $s:expr, $regs:expr) => {{
        if let Some(x) = &$s.ns {
            $b.namespace(x);
        }
        if let Some(x) = &$s.sub {
            $b.subsystem(x);
        }
        if let Some(x) = &$s.help {
            $b.help(x);
        }
        for (k, v) in &$s.labels {
            $b.label(k, v);
        }
        for r in $regs {
            $b.registry(r.clone());
        }
    }};
}
pub fn create(s: &Spec, regs: &[Registry]) -> prometrics::Result<Metric> {
    create_window(s, regs, HOUR)
}
pub fn create_window(s: &Spec, regs: &[Registry], window: Duration) -> prometrics::Result<Metric> {
    Ok(match &s.data {
        Data::Counter { .. } => {
            let mut b = CounterBuilder::new(&s.name);
            common!(b, s, regs);
            b.finish()?.into()
        }
        Data::Gauge { .. } => {
            let mut b = GaugeBuilder::new(&s.name);
            common!(b, s, regs);
            b.finish()?.into()
        }
        Data::Hist { bounds, .. } => {
            let mut b = HistogramBuilder::new(&s.name);
            common!(b, s, regs);
            b.buckets(raw(bounds));
            b.finish()?.into()
        }
        Data::Summary { quantiles, .. } => {
            let mut b = SummaryBuilder::new(&s.name, window);
            common!(b, s, regs);
            for q in quantiles {
                b.quantile(q.0);
            }
            b.finish()?.into()
        }
    })
}
pub fn apply(m: &Metric, s: &Spec) {
    match (m, &s.data) {
        (Metric::Counter(m), Data::Counter { adds }) => {
            for a in adds {
                m.add(a.0).expect("non-negative");
            }
        }
        (Metric::Gauge(m), Data::Gauge { value }) => m.set(value.0),
        (Metric::Histogram(m), Data::Hist { obs, .. }) => obs.iter().for_each(|o| m.observe(o.0)),
        (Metric::Summary(m), Data::Summary { obs, .. }) => obs.iter().for_each(|o| m.observe(o.0)),
        _ => panic!("the built metric is of another kind"),
    }
    if let Some(t) = s.ts {
        set_ts(m, Some(t));
    }
}
pub fn set_ts(m: &Metric, t: Option<i64>) {
    let mut x = match m {
        Metric::Counter(m) => m.timestamp_mut(),
        Metric::Gauge(m) => m.timestamp_mut(),
        Metric::Histogram(m) => m.timestamp_mut(),
        Metric::Summary(m) => m.timestamp_mut(),
    };
    match t {
        Some(t) => x.set(t),
        None => x.clear(),
    }
}
pub fn get_ts(m: &Metric) -> Option<i64> {
    match m {
        Metric::Counter(m) => m.timestamp().get(),
        Metric::Gauge(m) => m.timestamp().get(),
        Metric::Histogram(m) => m.timestamp().get(),
        Metric::Summary(m) => m.timestamp().get(),
    }
}
pub fn labels_mut<T>(m: &mut Metric, f: impl FnOnce(&mut prometrics::label::LabelsMut) -> T) -> T {
    match m {
        Metric::Counter(m) => f(&mut m.labels_mut()),
        Metric::Gauge(m) => f(&mut m.labels_mut()),
        Metric::Histogram(m) => f(&mut m.labels_mut()),
        Metric::Summary(m) => f(&mut m.labels_mut()),
    }
}
pub fn labels_guard(m: &mut Metric) -> prometrics::label::LabelsMut<'_> {
    match m {
        Metric::Counter(m) => m.labels_mut(),
        Metric::Gauge(m) => m.labels_mut(),
        Metric::Histogram(m) => m.labels_mut(),
        Metric::Summary(m) => m.labels_mut(),
    }
}
pub fn ts_guard(m: &mut Metric) -> prometrics::timestamp::TimestampMut<'_> {
    match m {
        Metric::Counter(m) => m.timestamp_mut(),
        Metric::Gauge(m) => m.timestamp_mut(),
        Metric::Histogram(m) => m.timestamp_mut(),
        Metric::Summary(m) => m.timestamp_mut(),
    }
}
pub fn help_of(m: &Metric) -> Option<&str> {
    match m {
        Metric::Counter(m) => m.help(),
        Metric::Gauge(m) => m.help(),
        Metric::Histogram(m) => m.help(),
        Metric::Summary(m) => m.help(),
    }
}
pub fn display(m: &Metric) -> String {
    match m {
        Metric::Counter(m) => m.to_string(),
        Metric::Gauge(m) => m.to_string(),
        Metric::Histogram(m) => m.to_string(),
        Metric::Summary(m) => m.to_string(),
    }
}
pub fn label_vec(l: &prometrics::label::Labels) -> Vec<(String, String)> {
    l.iter().take(10_000).map(|l| (l.name().to_string(), l.value().to_string())).collect()
}

/// How far two ways of adding up `n` numbers, whose absolute values sum to `abs`, can be apart in plain f64 arithmetic.
pub fn tolerance(abs: f64, n: u64) -> f64 {
    abs * 2.5e-16 * (n as f64 + 4.0) + f64::MIN_POSITIVE
}
/// A sum in unknown order: compared exactly when every order gives the same result.
#[derive(Clone, Debug, Default)]
pub struct Sum(pub Vec<f64>);
impl Sum {
    pub fn check(&self, actual: f64) -> Result<(), String> {
        let v = &self.0;
        let fail = |want: f64| Err(format!("got {:?}, but the sum of {:?} is {:?}", actual, v, want));
        let pinf = v.iter().any(|x| *x == f64::INFINITY);
        let ninf = v.iter().any(|x| *x == f64::NEG_INFINITY);
        if v.iter().any(|x| x.is_nan()) || (pinf && ninf) {
            return if actual.is_nan() { Ok(()) } else { fail(f64::NAN) };
        }
        let abs: f64 = v.iter().filter(|x| x.is_finite()).map(|x| x.abs()).sum();
        if !abs.is_finite() {
            return Ok(()); // whether an intermediate result overflows depends on the order
        }
        if pinf || ninf {
            let want = if pinf { f64::INFINITY } else { f64::NEG_INFINITY };
            return if actual == want { Ok(()) } else { fail(want) };
        }
        let sum: f64 = v.iter().sum();
        let nz: Vec<f64> = v.iter().cloned().filter(|x| *x != 0.0).collect();
        if nz.len() <= 1 {
            let want = nz.first().cloned().unwrap_or(0.0);
            return if actual == want { Ok(()) } else { fail(want) };
        }
        let exact = abs * 1024.0 < 4503599627370496.0 && v.iter().all(|x| (x * 1024.0).fract() == 0.0);
        let tol = if exact { 0.0 } else { tolerance(abs, v.len() as u64) };
        if (actual - sum).abs() <= tol {
            Ok(())
        } else {
            fail(sum)
        }
    }
}

#[derive(Clone, Debug)]
pub enum Exp {
    Scalar(Sum),
    Hist { buckets: Vec<(f64, u64)>, sum: Sum, count: u64 },
    Summary { quantiles: Vec<f64>, pool: Vec<f64>, sum: Sum, count: u64 },
}
#[derive(Clone, Debug)]
pub struct ExpSeries {
    pub ts: Option<i64>,
    pub val: Exp,
    pub members: usize,
}
#[derive(Clone, Debug)]
pub struct ExpFamily {
    /// Some of the members' help strings; with more than one distinct, the shown help is not specified.
    pub helps: Vec<Option<String>>,
    pub series: BTreeMap<BTreeMap<String, String>, ExpSeries>,
}
pub type Expected = BTreeMap<(String, Kind), ExpFamily>;

pub fn sort_f(v: &mut Vec<f64>) {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
}
pub fn distinct_bounds(b: impl IntoIterator<Item = f64>) -> Vec<f64> {
    let mut v: Vec<f64> = b.into_iter().chain([f64::INFINITY]).collect();
    sort_f(&mut v);
    v.dedup_by(|a, b| a == b);
    v
}
pub fn distinct_quantiles(q: impl IntoIterator<Item = f64>) -> Vec<f64> {
    let mut v: Vec<f64> = q.into_iter().collect();
    sort_f(&mut v);
    v.dedup_by(|a, b| a == b);
    v
}
/// The bound in whose bucket a histogram with these bounds counts the value.
pub fn home(bounds: &[f64], v: f64) -> f64 {
    *bounds.iter().find(|b| v <= **b).unwrap()
}
pub fn merge(specs: &[&Spec]) -> ExpSeries {
    let ts = specs.iter().filter_map(|s| s.ts).max();
    let val = match specs[0].data {
        Data::Counter { .. } | Data::Gauge { .. } => Exp::Scalar(Sum(specs
            .iter()
            .flat_map(|s| match &s.data {
                Data::Counter { adds } => raw(adds),
                Data::Gauge { value } => vec![value.0],
                _ => vec![],
            })
            .collect())),
        Data::Hist { .. } => {
            let mut all = vec![];
            let mut homes = vec![];
            let mut sum = vec![];
            for s in specs {
                if let Data::Hist { bounds, obs } = &s.data {
                    let b = distinct_bounds(raw(bounds));
                    for o in obs {
                        homes.push(home(&b, o.0));
                        sum.push(o.0);
                    }
                    all.extend(b);
                }
            }
            let buckets = distinct_bounds(all).into_iter().map(|b| (b, homes.iter().filter(|h| **h <= b).count() as u64)).collect();
            Exp::Hist { buckets, count: sum.len() as u64, sum: Sum(sum) }
        }
        Data::Summary { .. } => {
            let (mut qs, mut all) = (vec![], vec![]);
            for s in specs {
                if let Data::Summary { quantiles, obs } = &s.data {
                    qs.extend(raw(quantiles));
                    all.extend(raw(obs));
                }
            }
            let pool: Vec<f64> = all.iter().cloned().filter(|x| !x.is_nan()).collect();
            Exp::Summary { quantiles: distinct_quantiles(qs), pool, count: all.len() as u64, sum: Sum(all) }
        }
    };
    ExpSeries { ts, val, members: specs.len() }
}
pub fn expected<'a>(specs: impl IntoIterator<Item = &'a Spec>) -> Expected {
    let mut groups: BTreeMap<(String, Kind), BTreeMap<BTreeMap<String, String>, Vec<&Spec>>> = BTreeMap::new();
    for s in specs {
        groups.entry((s.full(), s.data.kind())).or_default().entry(s.label_map()).or_default().push(s);
    }
    groups
        .into_iter()
        .map(|(k, g)| {
            let mut helps: Vec<Option<String>> = g.values().flatten().map(|s| s.help.clone()).collect();
            helps.sort();
            helps.dedup();
            (k, ExpFamily { helps, series: g.into_iter().map(|(l, m)| (l, merge(&m))).collect() })
        })
        .collect()
}

/// Is `v` an acceptable value of quantile `q` of the pool?
pub fn quantile_ok(q: f64, v: f64, pool: &[f64]) -> R {
    ensure!(pool.iter().any(|p| *p == v), "quantile {:?}: {:?} is not one of the {} observations {:?}", q, v, pool.len(), cut(pool));
    let n = pool.len() as f64;
    let below = pool.iter().filter(|p| **p < v).count() as f64;
    let upto = pool.iter().filter(|p| **p <= v).count() as f64;
    let slack = n * 1e-9;
    ensure!(
        below <= q * n + slack && upto >= q * n - slack,
        "quantile {:?} of {} observations is given as {:?}, but {} are below it and {} at or below it: {:?}", q, n, v, below, upto, cut(pool)
    );
    Ok(())
}
fn cut(v: &[f64]) -> &[f64] {
    &v[..v.len().min(40)]
}
pub fn quantiles_ok(qs: &[f64], pool: &[f64], got: &[(f64, f64)]) -> R {
    if pool.is_empty() {
        ensure!(got.is_empty(), "quantiles {:?} of no observations", got);
        return Ok(());
    }
    let names: Vec<f64> = got.iter().map(|g| g.0).collect();
    ensure!(names == qs, "quantiles reported: {:?}, configured: {:?}", names, qs);
    for (q, v) in got {
        quantile_ok(*q, *v, pool)?;
    }
    Ok(())
}
pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// Compares one parsed series (or the equivalent read through the API) with the model.
pub fn val_ok(want: &Exp, got: &pt::Val) -> R {
    match (want, got) {
        (Exp::Scalar(s), pt::Val::Scalar(v)) => s.check(*v),
        (Exp::Hist { buckets, sum, count }, pt::Val::Hist(b, s, c)) => {
            let w: Vec<(f64, f64)> = buckets.iter().map(|b| (b.0, b.1 as f64)).collect();
            ensure!(w == *b, "buckets are {:?}, not {:?}", b, w);
            ensure!(*c == *count as f64, "count is {:?}, not {:?}", c, count);
            sum.check(*s).map_err(|e| format!("histogram sum: {}", e))
        }
        (Exp::Summary { quantiles, pool, sum, count }, pt::Val::Summary(q, s, c)) => {
            ensure!(*c == *count as f64, "count is {:?}, not {:?}", c, count);
            sum.check(*s).map_err(|e| format!("summary sum: {}", e))?;
            quantiles_ok(quantiles, pool, q)
        }
        _ => Err(format!("another kind of series: {:?}", got)),
    }
}
fn kind_of_word(w: &str) -> Kind {
    *KINDS.iter().find(|k| k.word() == w).unwrap()
}
/// The text must contain exactly the expected families and series.
pub fn check_text(text: &str, want: &Expected) -> R {
    let wrap = |e: String| format!("{}\nin the text:\n{}", e, text.chars().take(3000).collect::<String>());
    let got = pt::parse(text).map_err(wrap)?;
    let mut seen: BTreeMap<(String, Kind), ()> = BTreeMap::new();
    for f in &got {
        let key = (f.name.clone(), kind_of_word(&f.kind));
        let Some(w) = want.get(&key) else { return Err(wrap(format!("unexpected family {:?}", key))) };
        if seen.insert(key.clone(), ()).is_some() {
            return Err(wrap(format!("family {:?} appears twice", key)));
        }
        if w.helps.len() == 1 && f.help != w.helps[0] {
            return Err(wrap(format!("help of {:?} is {:?}, not {:?}", key, f.help, w.helps[0])));
        }
        let series = pt::series(f).map_err(wrap)?;
        if series.len() != w.series.len() {
            return Err(wrap(format!("{:?} has {} series, not {}", key, series.len(), w.series.len())));
        }
        for s in &series {
            let Some(e) = w.series.get(&s.labels) else { return Err(wrap(format!("unexpected series {:?} of {:?}", s.labels, key))) };
            if s.ts != e.ts {
                return Err(wrap(format!("timestamp of {:?} {:?} is {:?}, not {:?}", key, s.labels, s.ts, e.ts)));
            }
            val_ok(&e.val, &s.val).map_err(|m| wrap(format!("{:?} {:?}: {}", key, s.labels, m)))?;
        }
    }
    for k in want.keys() {
        if !seen.contains_key(k) {
            return Err(wrap(format!("family {:?} is missing", k)));
        }
    }
    Ok(())
}
/// A gathered family, read through the API, in the shape of a parsed one.
pub fn api_series(f: &MetricFamily) -> Vec<pt::Series> {
    let mk = |l: &prometrics::label::Labels, ts: Option<i64>, val| {
        let v = label_vec(l);
        pt::Series { order: v.iter().map(|x| x.0.clone()).collect(), labels: v.into_iter().collect(), ts, val }
    };
    const CAP: usize = 100_000;
    match f.metrics() {
        Metrics::Counter(v) => v.iter().map(|m| mk(m.labels(), m.timestamp().get(), pt::Val::Scalar(m.value()))).collect(),
        Metrics::Gauge(v) => v.iter().map(|m| mk(m.labels(), m.timestamp().get(), pt::Val::Scalar(m.value()))).collect(),
        Metrics::Histogram(v) => v
            .iter()
            .map(|m| {
                let b = m.cumulative_buckets().take(CAP).map(|b| (b.upper_bound(), b.cumulative_count() as f64)).collect();
                mk(m.labels(), m.timestamp().get(), pt::Val::Hist(b, m.sum(), m.count() as f64))
            })
            .collect(),
        Metrics::Summary(v) => v
            .iter()
            .map(|m| {
                let q = m.quantiles().iter().map(|q| (q.0.as_f64(), q.1)).collect();
                mk(m.labels(), m.timestamp().get(), pt::Val::Summary(q, m.sum(), m.count() as f64))
            })
            .collect(),
    }
}
/// The gather result, read through the API, must contain exactly the expected families and series.
pub fn check_api(got: &MetricFamilies, want: &Expected) -> R {
    let mut seen = BTreeMap::new();
    for f in got.as_ref() {
        let key = (f.name().to_string(), Kind::of(f.kind()));
        let Some(w) = want.get(&key) else { return Err(format!("unexpected family {:?}", key)) };
        ensure!(seen.insert(key.clone(), ()).is_none(), "family {:?} appears twice", key);
        ensure!(w.helps.len() != 1 || f.help() == w.helps[0].as_deref(), "help of {:?} is {:?}, not {:?}", key, f.help(), w.helps[0]);
        let series = api_series(f);
        let mut sets = BTreeMap::new();
        for s in &series {
            let Some(e) = w.series.get(&s.labels) else { return Err(format!("unexpected series {:?} of {:?}", s.labels, key)) };
            ensure!(sets.insert(s.labels.clone(), ()).is_none(), "series {:?} of {:?} appears twice", s.labels, key);
            ensure!(s.ts == e.ts, "timestamp of {:?} {:?} is {:?}, not {:?}", key, s.labels, s.ts, e.ts);
            val_ok(&e.val, &s.val).map_err(|m| format!("{:?} {:?}: {}", key, s.labels, m))?;
        }
        ensure!(sets.len() == w.series.len(), "{:?} has {} series, not {}", key, sets.len(), w.series.len());
    }
    for k in want.keys() {
        ensure!(seen.contains_key(k), "family {:?} is missing", k);
    }
    Ok(())
}
pub fn check_gather(got: &MetricFamilies, want: &Expected) -> R {
    check_api(got, want).map_err(|e| format!("{}\nthe text is:\n{}", e, got.to_text().chars().take(3000).collect::<String>()))?;
    check_text(&got.to_text(), want)
}
/// One metric's own rendering, parsed.
pub fn parse_display(name: &str, kind: Kind, text: &str) -> Result<pt::Series, String> {
    let t = format!("# TYPE {} {}\n{}\n", name, kind.word(), text);
    let f = pt::parse(&t)?;
    ensure!(f.len() == 1, "rendering contains other families: {:?}", text);
    let mut s = pt::series(&f[0])?;
    ensure!(s.len() == 1, "rendering contains {} series: {:?}", s.len(), text);
    Ok(s.remove(0))
}
/// A full specification.
pub fn spec(dyadic: bool) -> BoxedStrategy<Spec> {
    (gen::opt_name_part(), gen::opt_name_part(), gen::name_part(), gen::help(), gen::labels(5), gen::opt_millis(), any_data(dyadic))
        .prop_map(|(ns, sub, name, help, labels, ts, data)| Spec { ns, sub, name, help, labels, ts, data })
        .boxed()
}
/// Gives all members of a family the same help.
pub fn unify_help(specs: &mut [Spec]) {
    let mut h: BTreeMap<(String, Kind), Option<String>> = BTreeMap::new();
    for s in specs.iter_mut() {
        let k = (s.full(), s.data.kind());
        s.help = h.entry(k).or_insert_with(|| s.help.clone()).clone();
    }
}
