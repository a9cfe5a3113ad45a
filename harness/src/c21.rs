//! Timing helpers record real elapsed time exactly once.
use crate::clock::{self, Virtual};
use crate::engine::*;
use crate::gen::{F, HOURISH};
use crate::world::Kind;
use crate::world;
use prometrics::metrics::*;
use prometrics::timestamp::duration_to_seconds;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// Time passes.
    Pass(u64),
    /// The wall clock is adjusted by so many nanoseconds.
    Step(i64),
    /// The timed code times something on the same metric.
    Nested(Vec<Act>),
    /// The timed code uses the metric.
    Use(F),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    /// The code that is timed, run after run, each handing back a number.
    runs: Vec<(Vec<Act>, i64)>,
    clone: bool,
}
fn act(depth: u32) -> BoxedStrategy<Act> {
    let ns = prop_oneof![2 => 0u64..2_000_000_000, 2 => 0u64..5_000, 1 => 0u64..100_000_000_000_000_000, 1 => prop::sample::select(HOURISH), 1 => prop::sample::select(crate::dict::spans()).prop_map(|n| n.min(100_000_000_000_000_000))];
    let plain = prop_oneof![
        5 => ns.prop_map(Act::Pass),
        2 => prop_oneof![-10_000_000_000i64..10_000_000_000, -1_000_000_000_000_000_000i64..1_000_000_000_000_000_000].prop_map(Act::Step),
        1 => (0u32..64).prop_map(|i| Act::Use(F(i as f64))),
    ]
    .boxed();
    if depth == 0 {
        return plain;
    }
    prop_oneof![9 => plain, 1 => prop::collection::vec(act(depth - 1), 0..4).prop_map(Act::Nested)].boxed()
}
/// How far the clocks move, at most (ns).
fn span(acts: &[Act]) -> u64 {
    acts.iter()
        .map(|a| match a {
            Act::Pass(n) => *n,
            Act::Step(n) => n.unsigned_abs(),
            Act::Nested(inner) => span(inner),
            Act::Use(_) => 0,
        })
        .fold(0, u64::saturating_add)
}
fn strategy() -> BoxedStrategy<Case> {
    (world::kind(), prop::collection::vec((prop::collection::vec(act(1), 0..5), any::<i64>()), 1..5), any::<bool>(), prop_oneof![15 => Just(0usize), 1 => 2usize..300])
        // (Some have many runs, as long as the clock can hold the time they take.)
        .prop_map(|(kind, runs, clone, more)| {
            let once = runs.iter().map(|r| span(&r.0)).fold(0, u64::saturating_add);
            let more = more.min((8_000_000_000_000_000_000 / once.max(1)) as usize);
            Case { kind, runs: if more < runs.len() { runs } else { runs.iter().cycle().take(more).cloned().collect() }, clone }
        })
        .boxed()
}
enum H {
    C(Counter),
    G(Gauge),
    H(Histogram),
    S(Summary),
}
/// What the model of the metric says: everything recorded so far, in order.
struct Model {
    recorded: Vec<f64>,
}
fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= b.abs() * 4.5e-16 + 1e-15
}
fn run<T>(h: &H, m: &mut Model, acts: &[Act], result: T, now: &mut u64) -> T {
    let start = *now;
    let body = || {
        for a in acts {
            match a {
                Act::Pass(n) => {
                    clock::advance(Duration::from_nanos(*n));
                    *now += n;
                }
                Act::Step(n) => clock::step_wall(*n as i128),
                Act::Nested(inner) => {
                    run(h, m, inner, (), now);
                }
                Act::Use(v) => {
                    match h {
                        H::C(x) => x.add(v.0).expect("non-negative"),
                        H::G(x) => x.add(v.0),
                        H::H(x) => x.observe(v.0),
                        H::S(x) => x.observe(v.0),
                    }
                    m.recorded.push(if let H::G(_) = h { m.recorded.last().cloned().unwrap_or(0.0) + v.0 } else { v.0 });
                }
            }
        }
        result
    };
    let r = match h {
        H::C(x) => x.time(body),
        H::G(x) => x.time(body),
        H::H(x) => x.time(body),
        H::S(x) => x.time(body),
    };
    m.recorded.push((*now - start) as f64 / 1e9);
    r
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let v = Virtual::new();
    let err = |e| format!("{:?}", e);
    let bounds = [0.0, 1e-6, 1e-3, 1.0, 10.0, 3600.0];
    // The window is longer than anything that passes here, either way.
    let window = Duration::from_secs(1 << 40);
    let h = match c.kind {
        Kind::Counter => H::C(Counter::new("m").map_err(err)?),
        Kind::Gauge => H::G(Gauge::new("m").map_err(err)?),
        Kind::Hist => H::H(HistogramBuilder::new("m").buckets(bounds.iter().cloned()).finish().map_err(err)?),
        Kind::Summary => H::S(SummaryBuilder::new("m", window).quantile(0.0).quantile(1.0).finish().map_err(err)?),
    };
    let other = match &h {
        H::C(m) => H::C(m.clone()),
        H::G(m) => H::G(m.clone()),
        H::H(m) => H::H(m.clone()),
        H::S(m) => H::S(m.clone()),
    };
    let mut m = Model { recorded: vec![] };
    let mut now = 0;
    for (i, (acts, token)) in c.runs.iter().enumerate() {
        let via = if c.clone && i % 2 == 1 { &other } else { &h };
        let got = run(via, &mut m, acts, *token, &mut now);
        ensure!(got == *token, "the timed code's result {} comes back as {}", token, got);
        let n = m.recorded.len() as u64;
        let total: f64 = m.recorded.iter().sum();
        // Differences of less than a microsecond in 10^8 s would be rounding.
        let tol = total.abs() * 1e-15 * (4.0 + n as f64) + 1e-14;
        let sum_ok = |s: f64| (s - total).abs() <= tol;
        match &h {
            H::C(x) => ensure!(sum_ok(x.value()), "the counter is {:?} after recording {:?}", x.value(), m.recorded),
            H::G(x) => {
                let want = *m.recorded.last().unwrap();
                ensure!(close(x.value(), want), "the gauge is {:?}, but {:?} s passed", x.value(), want)
            }
            H::H(x) => {
                ensure!(x.count() == n, "{} observations, not {}", x.count(), n);
                ensure!(sum_ok(x.sum()), "the histogram's sum is {:?} after {:?}", x.sum(), m.recorded);
                for b in x.cumulative_buckets() {
                    let lo = m.recorded.iter().filter(|r| **r < b.upper_bound() && !close(**r, b.upper_bound())).count() as u64;
                    let hi = m.recorded.iter().filter(|r| **r <= b.upper_bound() || close(**r, b.upper_bound())).count() as u64;
                    let k = b.cumulative_count();
                    ensure!(k >= lo && k <= hi, "bucket {:?} has {} of {:?}", b.upper_bound(), k, m.recorded);
                }
            }
            H::S(x) => {
                ensure!(x.count() == n, "{} observations, not {}", x.count(), n);
                ensure!(sum_ok(x.sum()), "the summary's sum is {:?} after {:?}", x.sum(), m.recorded);
                let q = x.quantiles();
                let min = m.recorded.iter().cloned().fold(f64::INFINITY, f64::min);
                let max = m.recorded.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                ensure!(q.len() == 2 && close(q[0].1, min) && close(q[1].1, max), "the observations range over {:?}, not from {:?} to {:?}", q, min, max);
            }
        }
    }
    drop(v);
    fn has(acts: &[Act], f: &dyn Fn(&Act) -> bool) -> bool {
        acts.iter().any(|a| f(a) || if let Act::Nested(i) = a { has(i, f) } else { false })
    }
    let stepped = c.runs.iter().any(|r| has(&r.0, &|a| matches!(a, Act::Step(_))));
    let passed = c.runs.iter().any(|r| has(&r.0, &|a| matches!(a, Act::Pass(n) if *n > 0)));
    cx.class_if(stepped, "the wall clock is adjusted meanwhile");
    cx.class_if(c.runs.iter().any(|r| has(&r.0, &|a| matches!(a, Act::Nested(_)))), "nested");
    cx.nontrivial(passed && (stepped || c.runs.len() > 1));
    Ok(())
}

/// Against the real clock.
fn real_strategy() -> BoxedStrategy<(Kind, u32)> {
    (world::kind(), 0u32..400).boxed()
}
fn real_oracle(c: &(Kind, u32), cx: &mut Cx) -> R {
    let err = |e| format!("{:?}", e);
    let mut inner = Duration::ZERO;
    let body = || {
        let t = Instant::now();
        while t.elapsed() < Duration::from_micros(c.1 as u64) {
            std::hint::spin_loop();
        }
        inner = t.elapsed();
    };
    let outer = Instant::now();
    let got = match c.0 {
        Kind::Counter => {
            let m = Counter::new("m").map_err(err)?;
            m.time(body);
            m.value()
        }
        Kind::Gauge => {
            let m = Gauge::new("m").map_err(err)?;
            m.time(body);
            m.value()
        }
        Kind::Hist => {
            let m = Histogram::new("m").map_err(err)?;
            m.time(body);
            m.sum()
        }
        Kind::Summary => {
            let m = Summary::new("m", world::HOUR).map_err(err)?;
            m.time(body);
            m.sum()
        }
    };
    let outer = outer.elapsed();
    let (lo, hi) = (inner.as_nanos() as f64 / 1e9, outer.as_nanos() as f64 / 1e9);
    ensure!(got >= lo - 1e-12 && got <= hi + 1e-12, "{:?} s recorded, but it took between {:?} and {:?}", got, lo, hi);
    cx.nontrivial(c.1 > 0);
    Ok(())
}

/// Conversions and the current time.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conv {
    secs: u64,
    nanos: u32,
    now: i64,
    again: i64,
}
fn conv() -> BoxedStrategy<Conv> {
    let secs = prop_oneof![3 => 0u64..100, 2 => 0u64..10_000_000_000, 1 => any::<u64>(), 1 => prop::sample::select(crate::dict::ints()), 1 => prop::sample::select(vec![0, u64::MAX, 1 << 53, (1 << 53) + 1, 1 << 32, u32::MAX as u64])];
    let nanos = prop_oneof![0u32..1_000_000_000, prop::sample::select(crate::dict::sizes(999_999_999)).prop_map(|n| n as u32), prop::sample::select(vec![0, 1, 999_999_999, 500_000_000, 999, 1000, 1_000_000])];
    let now = || prop_oneof![3 => 1_400_000_000_000_000_000i64..1_800_000_000_000_000_000, 1 => -5_000_000_000i64..5_000_000_000, 1 => any::<i64>()];
    (secs, nanos, now(), now()).prop_map(|(secs, nanos, now, again)| Conv { secs, nanos, now, again }).boxed()
}
fn conv_oracle(c: &Conv, cx: &mut Cx) -> R {
    let got = duration_to_seconds(Duration::new(c.secs, c.nanos));
    // Compared in units of 2^-30 ns for small durations and exactly scaled integers for large ones.
    let exact_ns = c.secs as u128 * 1_000_000_000 + c.nanos as u128;
    let want = exact_ns as f64 / 1e9;
    ensure!((got - want).abs() <= want * 4.5e-16, "{} s and {} ns are converted to {:?}, not {:?}", c.secs, c.nanos, got, want);
    let g = Gauge::new("m").map_err(|e| format!("{:?}", e))?;
    for t in [c.now, c.again] {
        let v = Virtual::at(t as i128);
        g.set_to_current_time();
        drop(v);
        let want = t as f64 / 1e9;
        ensure!((g.value() - want).abs() <= want.abs() * 4.5e-16 + 1e-15, "at {} ns from the epoch the gauge is set to {:?}, not {:?}", t, g.value(), want);
    }
    cx.class_if(c.now < 0 || c.again < 0, "a time before the epoch");
    cx.nontrivial(c.nanos > 0 && c.secs > 0);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C21",
        level: "exploration",
        assumptions: &["clocks are read through libc's clock_gettime, which the harness replaces for the generating thread (asserted at run time)"],
        subs: vec![
            sub("timed", "time passes in the timed code, and the wall clock is adjusted or there are several runs", 480_000, 2_000_000, strategy, oracle),
            sub("real", "the timed code takes some time", 24_000, 40_000, real_strategy, real_oracle),
            sub("conversion", "whole and fractional seconds", 480_000, 4_000_000, conv, conv_oracle),
            sub_fresh("fresh", "time passes in the timed code, and the wall clock is adjusted or there are several runs", 800, 12_000, strategy, oracle),
        ],
    }
}
