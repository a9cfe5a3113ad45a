//! A rendered histogram is self-consistent even while being observed.
use crate::engine::*;
use crate::gen::{raw, F};
use crate::promtext as pt;
use crate::world::*;
use prometrics::metrics::*;
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

/// One histogram: its bounds, what it has observed before rendering begins, and its label (same label: aggregated).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Member {
    bounds: Vec<F>,
    before: Vec<F>,
    label: u8,
}
/// An observation made when the renderer has written this many fragments.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct During {
    at: u16,
    member: u8,
    value: F,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    members: Vec<Member>,
    during: Vec<During>,
    /// Repeat the last observation at every fragment from this one on.
    steady: Option<u16>,
}
fn value() -> BoxedStrategy<F> {
    prop_oneof![4 => (0i32..12).prop_map(|i| F(i as f64)), 1 => (-12i32..200).prop_map(|i| F(i as f64 / 2.0)), 1 => Just(F(1e6))].boxed()
}
fn strategy() -> BoxedStrategy<Case> {
    let bounds = prop::collection::vec((-2i32..12).prop_map(|i| F(i as f64)), 0..7);
    let member = (bounds, prop::collection::vec(value(), 0..6), 0u8..2).prop_map(|(bounds, before, label)| Member { bounds, before, label });
    let during = (0u16..120, any::<u8>(), value()).prop_map(|(at, member, value)| During { at, member, value });
    (prop::collection::vec(member, 1..4), prop::collection::vec(during, 0..12), prop_oneof![2 => Just(None), 1 => (0u16..60).prop_map(Some)])
        .prop_map(|(members, during, steady)| Case { members, during, steady })
        .boxed()
}
/// Collects the text and makes the observations that are due after each fragment.
struct Sink<'a> {
    text: String,
    fragments: Cell<u16>,
    made: usize,
    case: &'a Case,
    /// The members this rendering is about.
    hists: &'a [Histogram],
    /// Everything observed so far, per member.
    log: &'a mut Vec<Vec<f64>>,
}
impl Sink<'_> {
    fn due(&mut self) {
        let n = self.fragments.get();
        let c = self.case;
        for d in c.during.iter().filter(|d| d.at == n) {
            self.observe(d);
        }
        if let (Some(from), Some(d)) = (c.steady, c.during.last()) {
            if n >= from && n < from + 2000 {
                self.observe(d);
            }
        }
    }
    fn observe(&mut self, d: &During) {
        let m = d.member as usize % self.hists.len();
        self.hists[m].observe(d.value.0);
        self.log[m].push(d.value.0);
        self.made += 1;
    }
}
impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.text.push_str(s);
        self.fragments.set(self.fragments.get().saturating_add(1));
        self.due();
        Ok(())
    }
}
/// Per member: its distinct bounds, and the values observed before the rendering began and by its end.
struct Seen<'a> {
    bounds: Vec<f64>,
    before: &'a [f64],
    after: &'a [f64],
}
fn consistent(s: &pt::Series, members: &[Seen]) -> R {
    let pt::Val::Hist(buckets, sum, count) = &s.val else { return Err(format!("not a histogram: {:?}", s)) };
    let want: Vec<f64> = distinct_bounds(members.iter().flat_map(|m| m.bounds.iter().cloned()));
    let got: Vec<f64> = buckets.iter().map(|b| b.0).collect();
    ensure!(got == want, "bounds {:?}, not {:?}", got, want);
    for w in buckets.windows(2) {
        ensure!(w[0].1 <= w[1].1, "bucket counts decrease: {:?}", buckets);
    }
    let last = buckets.last().unwrap().1;
    ensure!(last == *count, "the +Inf bucket is {} but the count is {}: {:?}", last, count, buckets);
    let upto = |v: &dyn Fn(&Seen) -> Vec<f64>, b: f64| members.iter().map(|m| v(m).iter().filter(|x| home(&m.bounds, **x) <= b).count()).sum::<usize>() as f64;
    for (b, n) in buckets {
        let lo = upto(&|m| m.before.to_vec(), *b);
        let hi = upto(&|m| m.after.to_vec(), *b);
        ensure!(*n >= lo && *n <= hi, "bucket {:?} is {}, but between {} and {} observations were there: {:?}", b, n, lo, hi, buckets);
    }
    let all = |v: &dyn Fn(&Seen) -> Vec<f64>| members.iter().flat_map(|m| v(m)).collect::<Vec<f64>>();
    let (before, after) = (all(&|m| m.before.to_vec()), all(&|m| m.after.to_vec()));
    // Values are multiples of 1/2, so every partial sum is exact; a negative part may be seen without a positive one.
    let lo = before.iter().sum::<f64>() + after.iter().filter(|x| **x < 0.0).sum::<f64>() - before.iter().filter(|x| **x < 0.0).sum::<f64>();
    let hi = before.iter().sum::<f64>() + after.iter().filter(|x| **x > 0.0).sum::<f64>() - before.iter().filter(|x| **x > 0.0).sum::<f64>();
    ensure!(*sum >= lo && *sum <= hi, "the sum is {:?}, not between {:?} and {:?}", sum, lo, hi);
    Ok(())
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let err = |e| format!("{:?}", e);
    let mut g = Gatherer::new();
    let mut hists = vec![];
    let mut log: Vec<Vec<f64>> = vec![];
    let bounds: Vec<Vec<f64>> = c.members.iter().map(|m| distinct_bounds(raw(&m.bounds))).collect();
    for m in &c.members {
        let h = HistogramBuilder::new("h").label("l", &m.label.to_string()).buckets(raw(&m.bounds)).registry(g.registry()).finish().map_err(err)?;
        m.before.iter().for_each(|v| h.observe(v.0));
        log.push(raw(&m.before));
        hists.push(h);
    }
    let mut made = 0;
    // Each on its own.
    for i in 0..hists.len() {
        let mut own = vec![log[i].clone()];
        let mut sink = Sink { text: String::new(), fragments: Cell::new(0), made: 0, case: c, hists: &hists[i..=i], log: &mut own };
        write!(sink, "{}", hists[i]).map_err(|_| "rendering fails")?;
        let text = std::mem::take(&mut sink.text);
        made += sink.made;
        let s = parse_display("h", Kind::Hist, &text)?;
        let seen = Seen { bounds: bounds[i].clone(), before: &log[i], after: &own[0] };
        consistent(&s, &[seen]).map_err(|e| format!("alone: {}\nin:\n{}", e, text))?;
        log[i] = own.remove(0);
    }
    // The gathered family.
    let got = g.gather();
    let before = log.clone();
    ensure!(got.as_ref().len() == 1, "not one family");
    let mut sink = Sink { text: String::new(), fragments: Cell::new(0), made: 0, case: c, hists: &hists, log: &mut log };
    write!(sink, "{}", got.as_ref()[0]).map_err(|_| "rendering fails")?;
    let text = std::mem::take(&mut sink.text);
    made += sink.made;
    let f = pt::parse(&text).map_err(|e| format!("{}\nin:\n{}", e, text))?;
    let series = pt::series(&f[0])?;
    for s in &series {
        let members: Vec<Seen> = (0..hists.len())
            .filter(|i| Some(&c.members[*i].label.to_string()) == s.labels.get("l"))
            .map(|i| Seen { bounds: bounds[i].clone(), before: &before[i], after: &log[i] })
            .collect();
        ensure!(!members.is_empty(), "unexpected series {:?}", s.labels);
        cx.class_if(members.len() > 1, "aggregated");
        consistent(s, &members).map_err(|e| format!("gathered: {}\nin:\n{}", e, text))?;
    }
    cx.class_if(made > 0, "observations during rendering");
    cx.nontrivial(made > 0);
    Ok(())
}

/// Observers on other threads.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Race {
    bounds: Vec<F>,
    /// Per observer: the values it observes in turn, and its histogram (of one identity).
    observers: Vec<(Vec<F>, u8)>,
    hists: u8,
}
fn race() -> BoxedStrategy<Race> {
    let v = (0i32..12).prop_map(|i| F(i as f64));
    (
        prop::collection::vec((0i32..12).prop_map(|i| F(i as f64)), 0..7),
        prop::collection::vec((prop::collection::vec(v, 1..5), any::<u8>()), 1..5),
        1u8..3,
    )
        .prop_map(|(bounds, observers, hists)| Race { bounds, observers, hists })
        .boxed()
}
fn race_oracle(c: &Race, cx: &mut Cx) -> R {
    let err = |e| format!("{:?}", e);
    let mut g = Gatherer::new();
    let mut hists: Vec<Histogram> = vec![];
    for i in 0..c.hists {
        let mut b = HistogramBuilder::new("h");
        b.registry(g.registry()).bucket(20.0 + i as f64).buckets(raw(&c.bounds));
        hists.push(b.finish().map_err(err)?);
    }
    let started: Vec<AtomicU64> = c.observers.iter().map(|_| AtomicU64::new(0)).collect();
    let ended: Vec<AtomicU64> = c.observers.iter().map(|_| AtomicU64::new(0)).collect();
    let read = |v: &[AtomicU64]| v.iter().map(|a| a.load(Ordering::SeqCst)).collect::<Vec<u64>>();
    let stop = AtomicBool::new(false);
    let (r, busy) = std::thread::scope(|s| {
        for (i, (vals, h)) in c.observers.iter().enumerate() {
            let h = hists[*h as usize % hists.len()].clone();
            let (stop, started, ended) = (&stop, &started[i], &ended[i]);
            s.spawn(move || {
                let mut k = 0;
                while !stop.load(Ordering::Relaxed) && k < 3_000_000 {
                    started.store(k + 1, Ordering::SeqCst);
                    h.observe(vals[k as usize % vals.len()].0);
                    k += 1;
                    ended.store(k, Ordering::SeqCst);
                }
            });
        }
        // How many of the first n values observer i makes satisfy f, and their sum.
        let tally = |i: usize, n: u64, f: &dyn Fn(f64) -> bool| {
            let v = &c.observers[i].0;
            let (full, rest) = (n / v.len() as u64, (n % v.len() as u64) as usize);
            let count = |part: &[F]| part.iter().filter(|x| f(x.0)).count() as u64;
            let sum = |part: &[F]| part.iter().filter(|x| f(x.0)).map(|x| x.0).sum::<f64>();
            (full * count(v) + count(&v[..rest]), full as f64 * sum(v) + sum(&v[..rest]))
        };
        let mut busy = 0;
        let mut one = || -> R {
            for round in 0..200 {
                // Alone: the first histogram; gathered: all.
                let gathered = round % 2 == 1;
                let who: Vec<usize> = (0..c.observers.len()).filter(|i| gathered || c.observers[*i].1 as usize % hists.len() == 0).collect();
                let lo = read(&ended);
                let text = if gathered { g.gather().to_text() } else { hists[0].to_string() };
                let hi = read(&started);
                let s = if gathered {
                    let f = pt::parse(&text)?;
                    ensure!(f.len() == 1, "not one family: {:?}", text);
                    let mut s = pt::series(&f[0])?;
                    ensure!(s.len() == 1, "not one series: {:?}", text);
                    s.remove(0)
                } else {
                    parse_display("h", Kind::Hist, &text)?
                };
                let pt::Val::Hist(buckets, sum, count) = &s.val else { return Err(format!("not a histogram: {:?}", text)) };
                let wrap = |m: String| format!("{}\nin:\n{}", m, text);
                for w in buckets.windows(2) {
                    ensure!(w[0].1 <= w[1].1, "{}", wrap(format!("bucket counts decrease: {:?}", buckets)));
                }
                ensure!(buckets.last().map(|b| b.1) == Some(*count), "{}", wrap(format!("the +Inf bucket and the count {} differ", count)));
                for (b, n) in buckets {
                    // The value's own histogram has the bound 20 or 21, which is its home if no other is.
                    let at = |v: f64, i: usize| {
                        let extra = 20.0 + (c.observers[i].1 as usize % hists.len()) as f64;
                        let bounds = distinct_bounds(raw(&c.bounds).into_iter().chain([extra]));
                        home(&bounds, v) <= *b
                    };
                    let total = |ns: &[u64]| who.iter().map(|i| tally(*i, ns[*i], &|v| at(v, *i)).0).sum::<u64>() as f64;
                    let (l, h) = (total(&lo), total(&hi));
                    ensure!(*n >= l && *n <= h, "{}", wrap(format!("bucket {:?} is {}, not between {} and {}", b, n, l, h)));
                }
                let total = |ns: &[u64]| who.iter().map(|i| tally(*i, ns[*i], &|_| true).1).sum::<f64>();
                let (l, h) = (total(&lo), total(&hi));
                ensure!(*sum >= l && *sum <= h, "{}", wrap(format!("the sum is {:?}, not between {:?} and {:?}", sum, l, h)));
                if lo != hi {
                    busy += 1;
                }
            }
            Ok(())
        };
        let r = guarded(&mut one);
        stop.store(true, Ordering::Relaxed);
        (r, busy)
    });
    r?;
    cx.class_if(busy >= 100, "most renderings raced with observations");
    cx.nontrivial(busy >= 20);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C17",
        level: "exploration",
        assumptions: &["observations are injected between the fragments the renderer writes, and by free-running threads", "schedules: interleavings are those of single steps between loads, stores and branches of the crate; reorderings by the memory model are not explored"],
        subs: vec![
            sub("injected", "at least one observation is made while a histogram is being rendered", 48_000, 600_000, strategy, oracle).guide(&["/members", "/during"]),
            sub_threads("threads", "at least 20 of 200 renderings race with observations", 360, 4_000, race, race_oracle),
            sub("schedules", crate::conc::RULE, 96000, 600000, || crate::conc::renders(), crate::conc::oracle).guide(crate::conc::LISTS),
            sub_fresh("fresh", "at least one observation is made while a histogram is being rendered", 800, 12_000, strategy, oracle),
            sub_fresh("fresh-schedules", crate::conc::RULE, 800, 12_000, || crate::conc::renders(), crate::conc::oracle),
        ],
    }
}
