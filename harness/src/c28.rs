//! A panic in code that runs during a gather (or a call that is refused by a panic) costs nothing beyond that gather.
use crate::engine::*;
use crate::gen;
use crate::world::*;
use prometrics::metric::{Metric, MetricFamilies};
use prometrics::metrics::HistogramBuilder;
use prometrics::{default_gatherer, default_registry, Collect, Gatherer, Registry};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

/// Where a collector panics when it is asked.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum At {
    /// In `collect`.
    Collect,
    /// In its iterator, after so many metrics.
    Next(u8),
    /// When the iterator is asked how many metrics there are.
    Hint,
    /// When the iterator is dropped.
    DropIter,
    /// It ends, and panics when it is dropped.
    End,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Answer {
    Metrics(Vec<Spec>),
    End,
    Panic(At, Vec<Spec>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// A collector that gives these answers, and then no metrics.
    Register(u8, Vec<Answer>),
    /// A metric in one gatherer, the other, or both.
    Metric(u8, Spec),
    Drop(usize),
    Gather(u8),
    /// A gather in a thread of its own, which the panic ends.
    Elsewhere(u8),
    /// A call that its documentation forbids: observing not-a-number, or the timestamp that means none.
    Misuse(usize),
    /// Bounds for a histogram: given before, by an iterator that panics after so many, and given after.
    Bounds(Vec<gen::F>, Vec<gen::F>, u8, Vec<gen::F>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
    /// Use the default gatherer for the first one.
    #[serde(default)]
    default: bool,
}

struct Planned(u64);
#[derive(Default)]
struct Log {
    /// Per collector: how often it was asked in this gather.
    asked: Vec<u32>,
    /// The panics in this gather.
    fired: Vec<u64>,
    count: u64,
    disarmed: bool,
}
type Shared = Arc<Mutex<Log>>;
/// Panics, unless this thread is panicking already.
fn fire(log: &Shared) {
    let mut l = log.lock().unwrap();
    if l.disarmed || std::thread::panicking() {
        return;
    }
    l.count += 1;
    let n = l.count;
    l.fired.push(n);
    drop(l);
    resume_unwind(Box::new(Planned(n)))
}
struct Scripted {
    id: usize,
    script: Vec<Answer>,
    at: usize,
    armed: bool,
    log: Shared,
}
struct Given {
    metrics: std::vec::IntoIter<Metric>,
    given: u8,
    panic: Option<At>,
    log: Shared,
}
impl Iterator for Given {
    type Item = Metric;
    fn next(&mut self) -> Option<Metric> {
        if self.panic == Some(At::Next(self.given)) {
            self.panic = None;
            fire(&self.log);
        }
        self.given = self.given.saturating_add(1);
        self.metrics.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.panic == Some(At::Hint) {
            fire(&self.log);
        }
        self.metrics.size_hint()
    }
}
impl Drop for Given {
    fn drop(&mut self) {
        if self.panic == Some(At::DropIter) {
            fire(&self.log);
        }
    }
}
impl Collect for Scripted {
    type Metrics = Given;
    fn collect(&mut self) -> Option<Given> {
        let a = self.script.get(self.at).cloned().unwrap_or(Answer::Metrics(vec![]));
        self.at += 1;
        self.log.lock().unwrap().asked[self.id] += 1;
        let (specs, panic) = match a {
            Answer::End => return None,
            Answer::Metrics(s) => (s, None),
            Answer::Panic(At::End, _) => {
                self.armed = true;
                return None;
            }
            Answer::Panic(at, s) => (s, Some(at)),
        };
        if panic == Some(At::Collect) {
            fire(&self.log);
        }
        let metrics = specs.iter().map(|s| build(s, &[]).expect("valid")).collect::<Vec<_>>().into_iter();
        Some(Given { metrics, given: 0, panic, log: self.log.clone() })
    }
}
impl Drop for Scripted {
    fn drop(&mut self) {
        if self.armed {
            fire(&self.log);
        }
    }
}

fn small_spec() -> BoxedStrategy<Spec> {
    (crate::c03::near_name(), crate::c03::near_labels(), gen::opt_millis(), any_data(true)).prop_map(|((ns, sub, name), labels, ts, data)| Spec { ns, sub, name, help: None, labels, ts, data }).boxed()
}
fn strategy(n: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    let specs = || prop::collection::vec(small_spec(), 0..3);
    let at = prop_oneof![3 => Just(At::Collect), 2 => (0u8..3).prop_map(At::Next), 1 => Just(At::Hint), 2 => Just(At::DropIter), 2 => Just(At::End)];
    let answer = prop_oneof![3 => specs().prop_map(Answer::Metrics), 1 => Just(Answer::End), 3 => (at, specs()).prop_map(|(a, s)| Answer::Panic(a, s))];
    let bounds = || prop::collection::vec((-8i32..8).prop_map(|i| gen::F(i as f64 / 2.0)), 0..4);
    let op = prop_oneof![
        6 => (0u8..2, prop::collection::vec(answer, 1..5)).prop_map(|(g, s)| Op::Register(g, s)),
        4 => (0u8..3, small_spec()).prop_map(|(g, s)| Op::Metric(g, s)),
        2 => any::<usize>().prop_map(Op::Drop),
        5 => (0u8..2).prop_map(Op::Gather),
        1 => (0u8..2).prop_map(Op::Elsewhere),
        1 => any::<usize>().prop_map(Op::Misuse),
        1 => (bounds(), bounds(), 0u8..4, bounds()).prop_map(|(a, b, k, c)| Op::Bounds(a, b, k, c)),
    ];
    prop::collection::vec(op, n).prop_map(|ops| Case { ops, default: false }).boxed()
}
fn default_strategy() -> BoxedStrategy<Case> {
    strategy(1..20).prop_map(|c| Case { default: true, ..c }).boxed()
}

enum G {
    Own(Gatherer),
    Default,
}
impl G {
    fn registry(&self) -> Registry {
        match self {
            G::Own(g) => g.registry(),
            G::Default => default_registry(),
        }
    }
    fn gather(&mut self) -> MetricFamilies {
        match self {
            G::Own(g) => g.gather(),
            G::Default => default_gatherer().lock().unwrap_or_else(|e| e.into_inner()).gather(),
        }
    }
}
/// A collector as it should be: its gatherer, its script, how often it was asked, and whether it has ended.
struct Model(usize, Vec<Answer>, usize, bool);
struct Run {
    gs: [G; 2],
    log: Shared,
    collectors: Vec<Model>,
    /// Per live metric the gatherers it is in.
    metrics: Vec<(u8, Spec, Metric)>,
    interrupted: [u32; 2],
    recovered: bool,
    ends: bool,
}
impl Run {
    fn gather(&mut self, g: usize, elsewhere: bool) -> Result<bool, String> {
        {
            let mut l = self.log.lock().unwrap();
            l.asked.iter_mut().for_each(|n| *n = 0);
            l.fired.clear();
        }
        let it = &mut self.gs[g];
        let r = if elsewhere { std::thread::scope(|s| s.spawn(|| it.gather()).join()) } else { catch_unwind(AssertUnwindSafe(|| it.gather())) };
        let (asked, fired) = {
            let l = self.log.lock().unwrap();
            (l.asked.clone(), l.fired.clone())
        };
        ensure!(fired.len() <= 1, "{} collectors panicked in one gather: it went on after the first", fired.len());
        let got = match (r, fired.first()) {
            (Ok(got), None) => Some(got),
            (Ok(_), Some(_)) => return Err("a collector panicked, but the gather returned".into()),
            (Err(e), Some(n)) => {
                ensure!(e.downcast_ref::<Planned>().map(|p| p.0) == Some(*n), "the gather passed another panic on than the collector's");
                None
            }
            (Err(e), None) => return guarded(|| resume_unwind(e)).map_err(|m| format!("a gather in which no collector panicked: {}", m)),
        };
        let mut specs = vec![];
        for (i, m) in self.collectors.iter_mut().enumerate() {
            let most = u32::from(m.0 == g && !m.3);
            ensure!(asked[i] <= most, "collector {} was asked {} times in a gather of gatherer {}, should be at most {}", i, asked[i], g, most);
            ensure!(got.is_none() || asked[i] == most, "collector {}, which has not ended, was not asked; its gatherer had {} interrupted gathers before", i, self.interrupted[g]);
            if asked[i] == 1 {
                let a = m.1.get(m.2);
                m.2 += 1;
                match a {
                    None => {}
                    Some(Answer::End) | Some(Answer::Panic(At::End, _)) => {
                        m.3 = true;
                        self.ends = true;
                    }
                    Some(Answer::Metrics(s)) | Some(Answer::Panic(_, s)) => specs.extend(s),
                }
            }
        }
        let Some(got) = got else {
            self.interrupted[g] += 1;
            return Ok(false);
        };
        let alive = self.metrics.iter().filter(|m| m.0 == 2 || m.0 == g as u8).map(|m| &m.1);
        let n = alive.clone().count();
        check_gather(&got, &expected(alive.chain(specs.iter().copied()))).map_err(|e| format!("a gather after {} interrupted ones: {}", self.interrupted[g], e))?;
        self.recovered |= self.interrupted[g] > 0 && n > 0;
        Ok(true)
    }
}
fn refused(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
fn bounds(before: &[gen::F], by: &[gen::F], k: u8, after: &[gen::F]) -> R {
    let mut b = HistogramBuilder::new("m");
    b.buckets(gen::raw(before));
    let k = (k as usize).min(by.len());
    let r = catch_unwind(AssertUnwindSafe(|| {
        b.buckets(gen::raw(by).into_iter().enumerate().map(|(i, x)| if i == k { resume_unwind(Box::new(Planned(0))) } else { x }));
    }));
    ensure!(r.is_err() == (k < by.len()), "the panic of an iterator of bounds was {}", if r.is_err() { "invented" } else { "swallowed" });
    b.buckets(gen::raw(after));
    let h = b.finish().map_err(|e| format!("a histogram is rejected after an iterator of bounds panicked: {:?}", e))?;
    let got: Vec<f64> = h.buckets().iter().map(|b| b.upper_bound()).collect();
    let all = |extra: &[gen::F]| distinct_bounds(gen::raw(before).into_iter().chain(gen::raw(after)).chain(gen::raw(extra)));
    let (least, most) = (all(if r.is_ok() { by } else { &[] }), all(&by[..k]));
    let within = |a: &[f64], b: &[f64]| a.iter().all(|x| b.contains(x));
    ensure!(within(&least, &got) && within(&got, &most) && got.windows(2).all(|w| w[0] < w[1]), "bounds {:?}, should be between {:?} and {:?}", got, least, most);
    Ok(())
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut run = Run {
        gs: [if c.default { G::Default } else { G::Own(Gatherer::new()) }, G::Own(Gatherer::new())],
        log: Shared::default(),
        collectors: vec![],
        metrics: vec![],
        interrupted: [0, 0],
        recovered: false,
        ends: false,
    };
    let r = steps(c, &mut run, cx);
    run.log.lock().unwrap().disarmed = true;
    cx.class_if(run.interrupted.iter().any(|n| *n > 1), "several interrupted gathers");
    cx.class_if(run.interrupted.iter().any(|n| *n > 0) && run.ends, "interrupted gathers, and collectors that ended");
    cx.nontrivial(run.recovered);
    r
}
fn steps(c: &Case, run: &mut Run, cx: &mut Cx) -> R {
    for op in &c.ops {
        match op {
            Op::Register(g, script) => {
                let g = *g as usize % 2;
                let id = run.collectors.len();
                run.log.lock().unwrap().asked.push(0);
                run.collectors.push(Model(g, script.clone(), 0, false));
                run.gs[g].registry().register(Scripted { id, script: script.clone(), at: 0, armed: false, log: run.log.clone() });
            }
            Op::Metric(g, s) => {
                let regs: Vec<_> = (0..2).filter(|i| *g >= 2 || *g == *i).map(|i| run.gs[i as usize].registry()).collect();
                let m = build(s, &regs).map_err(|e| format!("a valid metric is rejected: {:?}", e))?;
                run.metrics.push(((*g).min(2), s.clone(), m));
            }
            Op::Drop(i) => {
                if !run.metrics.is_empty() {
                    run.metrics.remove(i % run.metrics.len());
                }
            }
            Op::Gather(g) | Op::Elsewhere(g) => {
                run.gather(*g as usize % 2, matches!(op, Op::Elsewhere(_)))?;
            }
            Op::Misuse(i) => {
                if !run.metrics.is_empty() {
                    let (_, s, m) = &run.metrics[i % run.metrics.len()];
                    let before = display(m);
                    // What happens if it is not refused is not said.
                    if !refused(|| set_ts(m, Some(i64::MIN))) {
                        set_ts(m, s.ts);
                    }
                    if let Metric::Histogram(h) = m {
                        if !refused(|| h.observe(f64::NAN)) {
                            cx.class("not-a-number is not refused");
                            return Ok(());
                        }
                    }
                    ensure!(display(m) == before, "a refused call changed {:?} to {:?}", before, display(m));
                }
            }
            Op::Bounds(a, b, k, c) => bounds(a, b, *k, c)?,
        }
    }
    for g in 0..2 {
        // Each collector panics at most as often as its script is long.
        let most: usize = run.collectors.iter().filter(|m| m.0 == g).map(|m| m.1.len()).sum();
        let mut done = false;
        for _ in 0..=most {
            done |= run.gather(g, false)?;
        }
        ensure!(done, "every gather is interrupted");
    }
    Ok(())
}
const RULE: &str = "a gather that was complete after interrupted ones, with metrics in it";
pub fn check() -> Check {
    Check {
        id: "C28",
        level: "exploration",
        assumptions: &["panics unwind", "a panic does not happen while another one unwinds"],
        subs: vec![
            sub("histories", RULE, 24_000, 600_000, || strategy(1..24), oracle).guide(&["/ops"]),
            sub("long", RULE, 200, 8_000, || strategy(100..400), oracle),
            sub_fresh("fresh", RULE, 400, 12_000, || strategy(1..24), oracle),
            sub_fresh("fresh-default", RULE, 800, 12_000, default_strategy, oracle),
        ],
    }
}
