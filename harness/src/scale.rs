//! Single metrics and collectors of unusual size, described compactly: long texts, many labels, many observations,
//! many collectors.
use crate::engine::*;
use crate::gen::{self, raw, F};
use crate::promtext::Val;
use crate::world::*;
use prometrics::metric::Metric;
use prometrics::metrics::*;
use prometrics::{Collect, Gatherer};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

fn size(max: u32) -> BoxedStrategy<u32> {
    let edges: Vec<u32> = [15u32, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8192, 16384, 32768, 65535, 65536].into_iter().flat_map(|e| [e, e + 1]).filter(|e| *e <= max).collect();
    prop_oneof![1 => prop::sample::select(crate::dict::sizes(max as u64)).prop_map(|n| n as u32), 2 => 0u32..40.min(max), 2 => 40.min(max / 2)..max.min(1000), 1 => max.min(1000) / 2..max, 2 => prop::sample::select(edges)].boxed()
}

// ---- C01: long names, texts and label lists.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Huge {
    data: Data,
    name: (String, u32),
    help: (String, u32),
    /// Value unit and its repetitions, for each label.
    labels: Vec<(String, u32)>,
    /// More labels with short values.
    more: u32,
    label_name: u32,
}
fn unit() -> BoxedStrategy<String> {
    prop_oneof![
        1 => Just("x".to_string()),
        2 => prop::sample::select(&["\\", "\"", "\n", "ab\\", "é", "\r", "日", "😀", "\\n", "a,b=\"c\"} 1\n"][..]).prop_map(|s| s.to_string()),
        1 => gen::text().prop_map(|s| s.chars().take(20).collect()),
    ]
    .boxed()
}
pub fn huge() -> BoxedStrategy<Huge> {
    let labels = prop_oneof![1 => Just(vec![]), 3 => prop::collection::vec((unit(), size(70_000)), 1..3)];
    (any_data(false), ("[a-zA-Z_:]", size(5_000)), (unit(), size(70_000)), labels, prop_oneof![2 => Just(0u32), 1 => size(300)], size(3_000))
        .prop_map(|(data, name, help, labels, more, label_name)| Huge { data, name, help, labels, more, label_name })
        .boxed()
}
pub fn huge_oracle(c: &Huge, cx: &mut Cx) -> R {
    let text = |(s, n): &(String, u32)| s.repeat(*n as usize);
    let mut labels: Vec<(String, String)> = c.labels.iter().enumerate().map(|(i, l)| (format!("{}{}", "l".repeat(1 + c.label_name as usize), i), text(l))).collect();
    labels.extend((0..c.more).map(|i| (format!("m{}", (i * 7) % 1009), i.to_string())));
    let s = Spec { ns: None, sub: None, name: format!("n{}", text(&c.name)), help: Some(text(&c.help)), labels, ts: Some(5), data: c.data.clone() };
    let mut g = Gatherer::new();
    let short = |e: String| if e.len() > 700 { format!("{} …", e.chars().take(700).collect::<String>()) } else { e };
    let m = build(&s, &[g.registry()]).map_err(|e| short(format!("a valid metric is rejected: {:?}", e)))?;
    let got = g.gather();
    check_gather(&got, &expected([&s])).map_err(short)?;
    let own = parse_display(&s.name, c.data.kind(), &display(&m)).map_err(short)?;
    ensure!(own.labels == s.label_map(), "the rendering shows other labels: {}", short(display(&m)));
    let longest = s.labels.iter().map(|l| l.1.len()).chain(s.help.as_ref().map(|h| h.len())).max().unwrap_or(0);
    cx.class_if(longest > 4_096, "text longer than 4096 bytes");
    cx.class_if(longest > 65_536, "text longer than 65536 bytes");
    cx.class_if(s.labels.len() > 64, "more than 64 labels");
    cx.class_if(s.name.len() > 255, "name longer than 255 bytes");
    cx.nontrivial(longest > 1_000 || s.labels.len() > 64);
    Ok(())
}

// ---- C07: many collectors that end at different times.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many {
    /// How many are registered before each gather.
    rounds: Vec<u32>,
    /// Collector i answers `lives[i % len]` times before it ends.
    lives: Vec<u8>,
    /// It returns i % per metrics.
    per: u8,
    /// The first ones return that many, twice at most.
    generous: Vec<u32>,
}
impl Many {
    fn life(&self, i: usize) -> u8 {
        let l = self.lives[i % self.lives.len()];
        if i < self.generous.len() { l.min(2) } else { l }
    }
    fn count(&self, i: usize) -> usize {
        self.generous.get(i).map_or(i % self.per as usize, |n| *n as usize)
    }
}
pub fn many() -> BoxedStrategy<Many> {
    (prop::collection::vec(prop_oneof![1 => Just(0u32), 3 => size(2_500)], 2..7), prop::collection::vec(prop_oneof![3 => 0u8..6, 1 => Just(200u8)], 1..12), 1u8..4, prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(size(9_000), 1..3)])
        .prop_map(|(rounds, lives, per, generous)| Many { rounds, lives, per, generous })
        .boxed()
}
struct Mortal {
    id: usize,
    left: u8,
    count: usize,
    calls: Arc<Mutex<Vec<u32>>>,
}
impl Collect for Mortal {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.calls.lock().unwrap()[self.id] += 1;
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let v: Vec<Metric> = (0..self.count).map(|k| GaugeBuilder::new("g").label("id", &self.id.to_string()).label("k", &k.to_string()).finish().unwrap().into()).collect();
        Some(v.into_iter())
    }
}
pub fn many_oracle(c: &Many, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let r = g.registry();
    let calls = Arc::new(Mutex::new(vec![]));
    // Registered in round.
    let mut born: Vec<usize> = vec![];
    let life = |i: usize| c.life(i);
    let (mut most, mut ended) = (0, 0);
    for round in 0..c.rounds.len() + 2 {
        for _ in 0..c.rounds.get(round).cloned().unwrap_or(0) {
            let id = born.len();
            born.push(round);
            calls.lock().unwrap().push(0);
            r.register(Mortal { id, left: life(id), count: c.count(id), calls: calls.clone() });
        }
        let before = calls.lock().unwrap().clone();
        let got = g.gather();
        let after = calls.lock().unwrap().clone();
        let mut want: BTreeMap<(String, String), u32> = BTreeMap::new();
        for (id, b) in born.iter().enumerate() {
            let asked = (round - b) as u32;
            let l = life(id) as u32;
            let should = u32::from(asked <= l);
            ensure!(
                after[id] - before[id] == should && after[id] == (asked + 1).min(l + 1),
                "of {} collectors, number {} (registered before gather {}, ends at its call {}) was asked {} times in gather {}", born.len(), id, b, l + 1, after[id] - before[id], round
            );
            if asked < l {
                for k in 0..c.count(id) {
                    want.insert((id.to_string(), k.to_string()), 0);
                }
            }
            ended += usize::from(asked == l);
        }
        most = most.max(born.len() - ended);
        for f in got.as_ref() {
            ensure!(f.name().to_string() == "g" && f.kind().to_string() == "gauge", "the family {:?} {}", f.name(), f.kind());
            for s in api_series(f) {
                let l = |n: &str| s.labels.get(n).cloned().unwrap_or_default();
                match want.get_mut(&(l("id"), l("k"))) {
                    Some(n) => *n += 1,
                    None => return Err(format!("gather {} has a series {:?} that no collector returned", round, s.labels)),
                }
            }
        }
        if let Some(w) = want.iter().find(|w| *w.1 != 1) {
            return Err(format!("metric {:?} of one of {} collectors is {} times in gather {}", w.0, born.len(), w.1, round));
        }
    }
    cx.class_if(most >= 1_024, "1024 and more collectors at once");
    cx.class_if((0..born.len()).any(|i| life(i) > 0 && c.count(i) >= 1_024), "a collector returned 1024 and more metrics");
    cx.class_if(ended > 0 && most > 0, "some ended, some went on");
    cx.nontrivial(most >= 40 && ended > 0);
    Ok(())
}

// ---- C10: many bounds, many observations.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bursts {
    /// Bounds are start + i * step.
    start: F,
    step: F,
    bounds: u32,
    /// Values start + k * step, `.2` times each.
    bursts: Vec<(F, F, u32, u32)>,
}
pub fn bursts() -> BoxedStrategy<Bursts> {
    let step = || prop::sample::select(vec![1.0, 0.25, 2.0, 0.5, 3.0]).prop_map(F);
    let b = (gen::dyadic(), step(), size(3_000), prop_oneof![3 => Just(1u32), 1 => size(70_000)]).prop_map(|(v, d, n, k)| if k > 1 { (v, d, n.min(3), k) } else { (v, d, n, k) });
    (gen::dyadic(), step(), size(3_000), prop::collection::vec(b, 1..5)).prop_map(|(start, step, bounds, bursts)| Bursts { start, step, bounds, bursts }).boxed()
}
pub fn bursts_oracle(c: &Bursts, cx: &mut Cx) -> R {
    let bounds: Vec<F> = (0..c.bounds).map(|i| F(c.start.0 + i as f64 * c.step.0)).collect();
    let mut g = Gatherer::new();
    let h = HistogramBuilder::new("h").buckets(raw(&bounds)).registry(g.registry()).finish().map_err(|e| format!("{:?}", e))?;
    let bounds = distinct_bounds(raw(&bounds));
    let mut all: Vec<(f64, u64)> = vec![];
    for b in &c.bursts {
        for k in 0..b.2 {
            let v = b.0 .0 + k as f64 * b.1 .0;
            for _ in 0..b.3 {
                h.observe(v);
            }
            all.push((v, b.3 as u64));
        }
    }
    all.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let (mut cum, mut at, mut n) = (vec![], 0, 0);
    for b in &bounds {
        while at < all.len() && all[at].0 <= *b {
            n += all[at].1;
            at += 1;
        }
        cum.push((*b, n));
    }
    let sum: f64 = all.iter().map(|a| a.0 * a.1 as f64).sum();
    let first = |got: &[(f64, u64)], want: &[(f64, u64)]| got.iter().zip(want).position(|(a, b)| a != b).map(|i| (i, got[i], want[i]));
    let own: Vec<(f64, u64)> = cum.iter().enumerate().map(|(i, b)| (b.0, b.1 - if i == 0 { 0 } else { cum[i - 1].1 })).collect();
    let got: Vec<(f64, u64)> = h.buckets().iter().map(|b| (b.upper_bound(), b.count())).collect();
    ensure!(got == own, "{} buckets, not {}; first difference (number, is, should be): {:?}", got.len(), own.len(), first(&got, &own));
    let got: Vec<(f64, u64)> = h.cumulative_buckets().take(100_000).map(|b| (b.upper_bound(), b.cumulative_count())).collect();
    ensure!(got == cum, "{} cumulative buckets, not {}; first difference (number, is, should be): {:?}", got.len(), cum.len(), first(&got, &cum));
    ensure!(h.count() == n && h.sum() == sum, "count {} and sum {}, not {} and {}", h.count(), h.sum(), n, sum);
    let agree = |v: &Val, what: &str| match v {
        Val::Hist(b, s, k) => {
            let b: Vec<(f64, u64)> = b.iter().map(|x| (x.0, x.1 as u64)).collect();
            ensure!(b == cum && *s == sum && *k == n as f64, "{}: {} buckets, sum {}, count {}; should be {}, {}, {}; first difference (number, is, should be): {:?}", what, b.len(), s, k, cum.len(), sum, n, first(&b, &cum));
            Ok(())
        }
        _ => Err(format!("{}: not a histogram", what)),
    };
    agree(&parse_display("h", Kind::Hist, &h.to_string())?.val, "the rendering")?;
    let f = g.gather();
    agree(&api_series(&f.as_ref()[0])[0].val, "gathered")?;
    cx.class_if(bounds.len() > 1_024, "more than 1024 buckets");
    cx.class_if(n > 65_536, "more than 65536 observations");
    cx.class_if(own.iter().any(|b| b.1 > 65_536), "more than 65536 in one bucket");
    cx.nontrivial(bounds.len() > 100 && n > 100);
    Ok(())
}

// ---- C14: many labels.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wide {
    kind: Kind,
    /// How many labels are given, in an order that this step decides.
    n: u32,
    step: u32,
    /// Those with number % .0 == .1 are removed, and added again with another value if the flag is set.
    remove: (u32, u32, bool),
    /// How many are given at build time; the others are inserted.
    built: u32,
}
pub fn wide() -> BoxedStrategy<Wide> {
    (kind(), size(500), 1u32..600, (1u32..12, 0u32..12, any::<bool>()), size(500)).prop_map(|(kind, n, step, remove, built)| Wide { kind, n, step, remove, built }).boxed()
}
pub fn wide_oracle(c: &Wide, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let regs = [g.registry()];
    // All different, since 601 is a prime.
    let all: Vec<(String, String)> = (0..c.n.min(600)).map(|i| ((i + 1) * c.step % 601).to_string()).map(|s| (format!("l{}", s), s)).collect();
    let (first, rest) = all.split_at(all.len().min(c.built as usize));
    let data = match c.kind {
        Kind::Counter => Data::Counter { adds: vec![F(2.0)] },
        Kind::Gauge => Data::Gauge { value: F(3.0) },
        Kind::Hist => Data::Hist { bounds: vec![F(1.0)], obs: vec![F(0.5)] },
        Kind::Summary => Data::Summary { quantiles: vec![F(0.5)], obs: vec![F(4.0)] },
    };
    let mut s = Spec { ns: None, sub: None, name: "m".into(), help: None, labels: first.to_vec(), ts: None, data };
    let mut m = build(&s, &regs).map_err(|e| format!("a valid metric is rejected: {:?}", e))?;
    let mut other = m.clone();
    let mut map = s.label_map();
    for (k, v) in rest {
        labels_mut(&mut other, |l| l.insert(k, v)).map_err(|e| format!("inserting {:?} is rejected: {:?}", k, e))?;
        map.insert(k.clone(), v.clone());
    }
    let gone: Vec<String> = map.keys().filter(|k| k[1..].parse::<u32>().unwrap() % c.remove.0 == c.remove.1).cloned().collect();
    for k in &gone {
        labels_mut(&mut m, |l| l.remove(k));
        map.remove(k);
    }
    if c.remove.2 {
        for k in gone.iter().rev() {
            labels_mut(&mut m, |l| l.insert(k, "again")).map_err(|e| format!("inserting {:?} is rejected: {:?}", k, e))?;
            map.insert(k.clone(), "again".into());
        }
    }
    for m in [&m, &other] {
        let l = m.labels();
        ensure!(l.len() == map.len() && l.is_empty() == map.is_empty(), "{} labels, not {}", l.len(), map.len());
        let it = label_vec(l);
        ensure!(it.len() == map.len() && it.iter().cloned().collect::<BTreeMap<_, _>>() == map, "{} labels iterated; they are {:?}, not {:?}", it.len(), it, map);
        for i in 0..602 {
            let k = format!("l{}", i);
            let got = l.get(&k).map(|l| l.value().to_string());
            ensure!(got.as_ref() == map.get(&k), "looking up {:?} of {} labels gives {:?}, not {:?}", k, map.len(), got, map.get(&k));
        }
    }
    let text = display(&m);
    ensure!(parse_display("m", c.kind, &text)?.labels == map, "the rendering shows other labels than {:?}:\n{}", map, text);
    s.labels = map.clone().into_iter().collect();
    check_gather(&g.gather(), &expected([&s]))?;
    // The same labels, given the other way round.
    let mut t = s.clone();
    t.labels.reverse();
    let twin = build(&t, &regs).map_err(|e| format!("a valid metric is rejected: {:?}", e))?;
    ensure!(label_vec(m.labels()) == label_vec(twin.labels()), "two metrics with equal labels present them as {:?} and {:?}", label_vec(m.labels()), label_vec(twin.labels()));
    check_gather(&g.gather(), &expected([&s, &t]))?;
    cx.class_if(map.len() >= 64, "64 and more labels");
    cx.class_if(map.len() >= 256, "256 and more labels");
    cx.nontrivial(map.len() >= 30);
    Ok(())
}

// ---- C06: many registries.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Everywhere {
    spec: Spec,
    gatherers: u32,
    /// Gatherer i is given if i % .0 != .1.
    not: (u32, u32),
    /// 0: the metric's own builder, 1: a common builder, 2: by hand, 3: the two in turn.
    how: u8,
    /// How often each gatherer is asked before the metric goes.
    rounds: u32,
    clones: u8,
    /// Gatherer i is gone before the metric is made if i % .0 == .1.
    #[serde(default)]
    gone: Option<(u32, u32)>,
}
pub fn everywhere() -> BoxedStrategy<Everywhere> {
    let spec = (gen::name_part(), gen::labels(3), any_data(true)).prop_map(|(name, labels, data)| Spec { ns: None, sub: None, name, help: None, labels, ts: None, data });
    (spec, prop_oneof![3 => size(600), 1 => 1u32..4], (1u32..9, 1u32..9), 0u8..4, prop_oneof![4 => 1u32..4, 1 => 4u32..80, 1 => size(3_000)], 0u8..4, proptest::option::weighted(0.3, (2u32..9, 0u32..9))).prop_map(|(spec, gatherers, not, how, rounds, clones, gone)| Everywhere { spec, gatherers, not, how, rounds, clones, gone }).boxed()
}
pub fn everywhere_oracle(c: &Everywhere, cx: &mut Cx) -> R {
    let mut gs: Vec<Gatherer> = (0..c.gatherers).map(|_| Gatherer::new()).collect();
    let on = |i: usize| i as u32 % c.not.0 != c.not.1;
    let regs: Vec<_> = gs.iter().enumerate().filter(|g| on(g.0)).map(|g| g.1.registry()).collect();
    if let Some((n, k)) = c.gone {
        // An empty one in its place.
        gs.iter_mut().enumerate().filter(|g| g.0 as u32 % n == k).for_each(|g| *g.1 = Gatherer::new());
        cx.class("some gatherers are gone");
    }
    let gone = |i: usize| c.gone.map_or(false, |(n, k)| i as u32 % n == k);
    let by_hand = match c.how {
        0 | 1 => regs.len(),
        2 => 0,
        _ => regs.len() / 2,
    };
    let m = if c.how == 1 { crate::c06::build_common(&c.spec, &regs) } else { build(&c.spec, &regs[..by_hand]) }.map_err(|e| format!("a valid metric is rejected: {:?}", e))?;
    regs[by_hand..].iter().for_each(|r| crate::c06::register(r, &m));
    let n_regs = regs.len();
    if c.clones % 2 == 1 {
        drop(regs);
    }
    let clones: Vec<Metric> = (0..c.clones).map(|_| m.clone()).collect();
    let (want, none) = (expected([&c.spec]), expected([]));
    let look = |gs: &mut Vec<Gatherer>, alive: bool, what: &str| -> R {
        for (i, g) in gs.iter_mut().enumerate() {
            let w = if alive && on(i) && !gone(i) { &want } else { &none };
            check_gather(&g.gather(), w).map_err(|e| format!("gatherer {} of {} ({} have the metric), {}: {}", i, c.gatherers, n_regs, what, e))?;
        }
        Ok(())
    };
    // (Not both many gathers and many gatherers, for the time it takes.)
    let rounds = match c.gatherers {
        0..=3 => c.rounds,
        4..=64 => c.rounds.min(60),
        _ => c.rounds.min(3),
    };
    for k in 0..rounds {
        look(&mut gs, true, &format!("its gather {}", k))?;
    }
    drop(m);
    look(&mut gs, c.clones > 0, "with the first handle dropped")?;
    drop(clones);
    look(&mut gs, false, "with every handle dropped")?;
    look(&mut gs, false, "with every handle dropped, once more")?;
    cx.class_if(n_regs >= 64, "64 and more registries");
    cx.class_if(n_regs >= 256, "256 and more registries");
    cx.class_if(rounds > 20, "more than 20 gathers");
    cx.class_if(rounds > 256, "more than 256 gathers");
    cx.nontrivial(n_regs > 8 || rounds > 20);
    Ok(())
}

// ---- C07: many gathers.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Patience {
    gathers: u32,
    /// Collectors: before which gather they are registered, and how often they answer; the one in the middle is a metric.
    collectors: Vec<(u32, u32)>,
    metric: Option<usize>,
}
pub fn patience() -> BoxedStrategy<Patience> {
    let c = (prop_oneof![2 => Just(0u32), 1 => size(3_000)], prop_oneof![2 => Just(u32::MAX), 3 => size(3_000)]);
    (size(3_000), prop::collection::vec(c, 1..7), proptest::option::of(0usize..7)).prop_map(|(gathers, collectors, metric)| Patience { gathers, collectors, metric }).boxed()
}
struct Patient {
    id: usize,
    left: u32,
    calls: Arc<Mutex<Vec<u32>>>,
}
impl Collect for Patient {
    type Metrics = std::iter::Once<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.calls.lock().unwrap()[self.id] += 1;
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        Some(std::iter::once(GaugeBuilder::new("g").label("id", &self.id.to_string()).finish().unwrap().into()))
    }
}
pub fn patience_oracle(c: &Patience, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let r = g.registry();
    let calls = Arc::new(Mutex::new(vec![0; c.collectors.len()]));
    let mut metric = None;
    let mut ends = 0;
    for k in 0..=c.gathers {
        for (id, x) in c.collectors.iter().enumerate() {
            if x.0 == k {
                if c.metric == Some(id) {
                    metric = Some(GaugeBuilder::new("g").label("id", "metric").registry(r.clone()).finish().unwrap());
                }
                r.register(Patient { id, left: x.1, calls: calls.clone() });
            }
        }
        let got = g.gather();
        let mut want: Vec<String> = metric.iter().map(|_| "metric".to_string()).collect();
        for (id, x) in c.collectors.iter().enumerate() {
            let asked = if k < x.0 { 0 } else { (k - x.0 + 1).min(x.1.saturating_add(1)) };
            let is = calls.lock().unwrap()[id];
            ensure!(is == asked, "after gather {}, collector {} (registered before gather {}, ends at its call {}) was asked {} times, not {}", k, id, x.0, x.1 as u64 + 1, is, asked);
            if k >= x.0 && k - x.0 < x.1 {
                want.push(id.to_string());
            }
            ends += u32::from(k >= x.0 && k - x.0 == x.1);
        }
        let mut is: Vec<String> = got.as_ref().iter().flat_map(api_series).map(|s| s.labels.get("id").cloned().unwrap_or_default()).collect();
        is.sort();
        want.sort();
        ensure!(is == want, "gather {} has the metrics of {:?}, not {:?}", k, is, want);
    }
    cx.class_if(c.gathers > 256, "more than 256 gathers");
    cx.class_if(ends > 0, "a collector ended");
    cx.nontrivial(c.gathers > 20 && ends > 0);
    Ok(())
}

// ---- C14: many changes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Churn {
    kind: Kind,
    start: u32,
    /// How many times: what (0, 1, 2 insert, 3 remove, 4 replace, 5 clear), beginning with which name, with which step.
    runs: Vec<(u32, u8, u32, u32)>,
    names: u32,
}
pub fn churn() -> BoxedStrategy<Churn> {
    (kind(), 0u32..20, prop::collection::vec((size(1_200), 0u8..6, 0u32..100, 1u32..50), 1..8), 1u32..60).prop_map(|(kind, start, runs, names)| Churn { kind, start, runs, names }).boxed()
}
pub fn churn_oracle(c: &Churn, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let data = match c.kind {
        Kind::Counter => Data::Counter { adds: vec![F(2.0)] },
        Kind::Gauge => Data::Gauge { value: F(3.0) },
        Kind::Hist => Data::Hist { bounds: vec![F(1.0)], obs: vec![F(0.5)] },
        Kind::Summary => Data::Summary { quantiles: vec![F(0.5)], obs: vec![F(4.0)] },
    };
    let name = |i: u32| format!("l{}", i % c.names);
    let mut s = Spec { ns: None, sub: None, name: "m".into(), help: None, labels: (0..c.start).map(|i| (name(i), "start".to_string())).collect(), ts: None, data };
    let mut m = build(&s, &[g.registry()]).map_err(|e| format!("a valid metric is rejected: {:?}", e))?;
    let mut other = m.clone();
    let mut map = s.label_map();
    let (mut changes, mut most) = (0u32, 0);
    for (times, what, from, step) in &c.runs {
        for k in 0..*times {
            let n = name(from + k * step);
            changes += 1;
            let h = if changes % 3 == 0 { &mut other } else { &mut m };
            match what {
                0..=2 => {
                    let v = format!("{}", changes);
                    labels_mut(h, |l| l.insert(&n, &v)).map_err(|e| format!("inserting {:?} is rejected: {:?}", n, e))?;
                    map.insert(n, v);
                }
                3 => {
                    labels_mut(h, |l| l.remove(&n));
                    map.remove(&n);
                }
                4 => {
                    labels_mut(h, |l| l.remove(&n));
                    labels_mut(h, |l| l.insert(&n, "same")).map_err(|e| format!("inserting {:?} is rejected: {:?}", n, e))?;
                    map.insert(n, "same".into());
                }
                _ => {
                    if k % 50 == 0 {
                        labels_mut(h, |l| l.clear());
                        map.clear();
                    } else {
                        labels_mut(h, |l| l.insert(&n, "")).map_err(|e| format!("inserting {:?} is rejected: {:?}", n, e))?;
                        map.insert(n, String::new());
                    }
                }
            }
            most = most.max(map.len());
            if changes < 20 || k + 1 == *times || changes % 61 == 0 {
                for m in [&m, &other] {
                    let it = label_vec(m.labels());
                    ensure!(it.len() == map.len() && it.iter().cloned().collect::<BTreeMap<_, _>>() == map, "after {} changes the labels are {:?}, not {:?}", changes, it, map);
                    ensure!(m.labels().len() == map.len(), "after {} changes there are {} labels, not {}", changes, m.labels().len(), map.len());
                }
            }
        }
        s.labels = map.clone().into_iter().collect();
        check_gather(&g.gather(), &expected([&s])).map_err(|e| format!("after {} changes: {}", changes, e))?;
    }
    cx.class_if(changes > 256, "more than 256 changes");
    cx.class_if(changes > 1_024, "more than 1024 changes");
    cx.nontrivial(changes > 20 && most > 1);
    Ok(())
}
