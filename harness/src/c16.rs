//! No update is lost when threads share a metric.
use crate::engine::*;
use crate::gen::{self, raw, F};
use crate::world::*;
use prometrics::metrics::*;
use prometrics::{Gatherer, Registry};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Barrier, Mutex};

/// Per thread: the values it uses in turn, and how many operations it makes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Thread {
    values: Vec<F>,
    n: u16,
    /// Picks the operations.
    mix: u8,
    /// Makes the last quarter of them while the thread ends: in the destructor of a thread-local value that was
    /// made after (`Some(false)`) or before the first operations.
    #[serde(default)]
    ending: Option<bool>,
}
/// What a thread does when its thread-local values are destroyed.
struct Ending(std::cell::Cell<Option<Box<dyn FnOnce()>>>);
impl Drop for Ending {
    fn drop(&mut self) {
        if let Some(f) = self.0.take() {
            f()
        }
    }
}
thread_local! { static ENDING: Ending = const { Ending(std::cell::Cell::new(None)) }; }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    threads: Vec<Thread>,
    readers: u8,
    bounds: Vec<F>,
    /// A counter's value at the beginning.
    base: u64,
}
fn strategy() -> BoxedStrategy<Case> {
    // Sums stay exact in every order: multiples of 1/16 below 4096.
    let v = || prop_oneof![2 => (0u32..5).prop_map(|i| F(i as f64)), 1 => (0u32..65_536).prop_map(|i| F(i as f64 / 16.0)), 1 => Just(F(0.5))];
    let t = (prop::collection::vec(v(), 1..5), prop_oneof![1 => 1u16..20, 4 => 500u16..3000], any::<u8>(), prop_oneof![5 => Just(None), 2 => any::<bool>().prop_map(Some)]).prop_map(|(values, n, mix, ending)| Thread { values, n, mix, ending });
    let base = prop_oneof![6 => Just(0u64), 1 => 0u64..1000, 1 => Just(u64::MAX), 1 => (0u64..40_000).prop_map(|d| u64::MAX - d)];
    (kind(), prop::collection::vec(t, 2..7), 0u8..3, prop::collection::vec((0i32..16).prop_map(|i| F(i as f64 / 2.0)), 0..5), base)
        .prop_map(|(kind, threads, readers, bounds, base)| Case { kind, threads, readers, bounds, base })
        .boxed()
}
enum H {
    C(Counter),
    G(Gauge),
    H(Histogram),
    S(Summary),
}
impl H {
    fn dup(&self) -> H {
        match self {
            H::C(m) => H::C(m.clone()),
            H::G(m) => H::G(m.clone()),
            H::H(m) => H::H(m.clone()),
            H::S(m) => H::S(m.clone()),
        }
    }
    /// The k-th operation of a thread; what it contributes to the total.
    fn op(&self, t: &Thread, k: usize) -> f64 {
        let v = t.values[k % t.values.len()].0;
        let pick = (k as u64 * (t.mix as u64 | 1) >> 2) % 4;
        match self {
            H::C(m) => match pick {
                0 | 1 if t.mix < 128 => {
                    m.increment();
                    1.0
                }
                2 => {
                    m.add_u64(v as u64);
                    (v as u64) as f64
                }
                _ => {
                    m.add(v).expect("non-negative");
                    v
                }
            },
            H::G(m) => match pick {
                0 => {
                    m.increment();
                    1.0
                }
                1 => {
                    m.decrement();
                    -1.0
                }
                2 => {
                    m.subtract(v);
                    -v
                }
                _ if t.mix % 8 == 0 => {
                    m.track_inprogress(|| m.add(v));
                    v
                }
                _ => {
                    m.add(v);
                    v
                }
            },
            H::H(m) => {
                m.observe(v);
                v
            }
            H::S(m) => {
                // Mostly distinct samples, so that a lost one shifts the ranks of others visibly.
                let v = v + k as f64;
                m.observe(v);
                v
            }
        }
    }
    /// Something that must not go down as seen by one thread (a gauge has nothing of the kind).
    fn monotone(&self) -> f64 {
        match self {
            H::C(m) => m.value(),
            H::G(m) => m.value() * 0.0,
            H::H(m) => m.count() as f64,
            H::S(m) => m.count() as f64,
        }
    }
    /// The other ways of reading it, which must not disturb the writers.
    fn look(&self, way: usize) {
        match (self, way) {
            (_, 0) => {}
            (H::S(m), 1) => drop(m.quantiles()),
            (H::S(m), 2) => drop(m.sum()),
            (H::H(m), 1) => drop(m.cumulative_buckets().count()),
            (H::H(m), 2) => drop(m.buckets().iter().map(|b| b.count()).sum::<u64>()),
            (H::C(m), _) => drop(m.to_string()),
            (H::G(m), _) => drop(m.to_string()),
            (H::H(m), _) => drop(m.to_string()),
            (H::S(m), _) => drop(m.to_string()),
        }
    }
    fn register(&self, r: &Registry) {
        match self {
            H::C(m) => r.register(m.collector()),
            H::G(m) => r.register(m.collector()),
            H::H(m) => r.register(m.collector()),
            H::S(m) => r.register(m.collector()),
        }
    }
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let qs: Vec<f64> = (0..=64).map(|i| i as f64 / 64.0).collect();
    let err = |e| format!("{:?}", e);
    let h = match c.kind {
        Kind::Counter => {
            let m = Counter::new("m").map_err(err)?;
            m.add_u64(c.base);
            H::C(m)
        }
        Kind::Gauge => H::G(Gauge::new("m").map_err(err)?),
        Kind::Hist => H::H(HistogramBuilder::new("m").buckets(raw(&c.bounds)).finish().map_err(err)?),
        Kind::Summary => {
            let mut b = SummaryBuilder::new("m", HOUR);
            qs.iter().for_each(|q| {
                b.quantile(*q);
            });
            H::S(b.finish().map_err(err)?)
        }
    };
    let barrier = Barrier::new(c.threads.len() + c.readers as usize);
    let stop = AtomicBool::new(false);
    let (contrib, reads) = std::thread::scope(|s| {
        let readers: Vec<_> = (0..c.readers)
            .map(|i| {
                let h = h.dup();
                // 4 of 5 ways look at the metric itself, the last one gathers it.
                let way = (i as usize * 3 + c.threads[0].mix as usize) % 5;
                let (barrier, stop) = (&barrier, &stop);
                s.spawn(move || -> Result<u64, String> {
                    let mut g = Gatherer::new();
                    h.register(&g.registry());
                    barrier.wait();
                    let (mut last, mut n) = (f64::NEG_INFINITY, 0);
                    while !stop.load(Ordering::Relaxed) {
                        if way == 4 {
                            let f = g.gather();
                            ensure!(f.as_ref().len() == 1 && f.to_text().len() > 5, "{} families gathered", f.as_ref().len());
                        } else {
                            h.look(way);
                        }
                        let v = h.monotone();
                        ensure!(v >= last, "one thread reads {:?} after it has read {:?}", v, last);
                        last = v;
                        n += 1;
                    }
                    Ok(n)
                })
            })
            .collect();
        let workers: Vec<_> = c
            .threads
            .iter()
            .map(|t| {
                let h = h.dup();
                let barrier = &barrier;
                let late = Arc::new(Mutex::new(vec![]));
                let (l, mine) = (late.clone(), t.clone());
                let w = s.spawn(move || {
                    let (n, first) = (t.n as usize, t.n as usize * if t.ending.is_some() { 3 } else { 4 } / 4);
                    if t.ending == Some(true) {
                        ENDING.with(|_| ());
                    }
                    barrier.wait();
                    let done = (0..first).map(|k| h.op(t, k)).collect::<Vec<f64>>();
                    if t.ending.is_some() {
                        let f = move || {
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (first..n).map(|k| h.op(&mine, k)).collect::<Vec<f64>>()));
                            l.lock().unwrap().push(r.map_err(|_| "a thread using the metric while it ends panicked".to_string()));
                        };
                        ENDING.with(|e| e.0.set(Some(Box::new(f))));
                    }
                    done
                });
                (w, late)
            })
            .collect();
        // (A panic of a worker is passed on as the case's panic.)
        let mut contrib: Vec<Result<Vec<f64>, String>> = vec![];
        for (w, late) in workers {
            contrib.push(w.join().map_err(|_| "a thread using the metric panicked".to_string()));
            // (Joining has waited for the destructors, too.)
            contrib.append(&mut late.lock().unwrap());
        }
        stop.store(true, Ordering::Relaxed);
        (contrib, readers.into_iter().map(|r| r.join().unwrap()).collect::<Vec<_>>())
    });
    let mut all = vec![];
    for x in contrib {
        all.extend(x?);
    }
    let mut n_reads = 0;
    for r in reads {
        n_reads += r?;
    }
    let total: f64 = all.iter().sum();
    match &h {
        H::C(m) => {
            if c.base < 1 << 40 {
                ensure!(m.value() == total + c.base as f64, "the counter reads {:?}, but {:?} was added", m.value(), total + c.base as f64);
            } else {
                // 2048 is the distance of neighbouring floats near 2^64; the sum has two parts.
                let want = c.base as f64 + total;
                ensure!((m.value() - want).abs() <= 8192.0, "the counter reads {:?}, but {:?} was added", m.value(), want);
            }
        }
        H::G(m) => ensure!(m.value() == total, "the gauge reads {:?}, not {:?}", m.value(), total),
        H::H(m) => {
            let cum: Vec<(f64, u64)> = m.cumulative_buckets().map(|b| (b.upper_bound(), b.cumulative_count())).collect();
            let want: Vec<(f64, u64)> = distinct_bounds(raw(&c.bounds)).into_iter().map(|b| (b, all.iter().filter(|v| **v <= b).count() as u64)).collect();
            ensure!(cum == want, "the buckets are {:?}, not {:?}", cum, want);
            ensure!(m.count() == all.len() as u64 && m.sum() == total, "count and sum are {} and {:?}, not {} and {:?}", m.count(), m.sum(), all.len(), total);
        }
        H::S(m) => {
            ensure!(m.count() == all.len() as u64 && m.sum() == total, "count and sum are {} and {:?}, not {} and {:?}", m.count(), m.sum(), all.len(), total);
            let got: Vec<(f64, f64)> = m.quantiles().iter().map(|q| (q.0.as_f64(), q.1)).collect();
            quantiles_ok(&qs, &all, &got)?;
        }
    }
    cx.class(c.kind.word());
    cx.class_if(n_reads > 10, "concurrent reads");
    cx.class_if(n_reads > 10 && (0..c.readers as usize).any(|i| (i * 3 + c.threads[0].mix as usize) % 5 != 0), "concurrent renderings, quantiles or gathers");
    cx.class_if(c.threads.iter().any(|t| t.ending.is_some() && t.n >= 4), "operations while a thread ends");
    cx.class_if(c.base > 1 << 60, "counter near the end of the 64-bit range");
    cx.nontrivial(c.threads.iter().filter(|t| t.n >= 500).count() >= 2);
    Ok(())
}
pub fn check() -> Check {
    let _ = gen::keys;
    Check {
        id: "C16",
        level: "exploration",
        assumptions: &[
            "threads: interleavings are those the scheduler happens to produce on this machine",
            "schedules: interleavings are those of single steps between loads, stores and branches of the crate; reorderings by the memory model are not explored",
        ],
        subs: vec![
            sub("schedules", crate::conc::RULE, 180000, 2_000_000, || crate::conc::strategy(&KINDS, false), crate::conc::oracle).guide(crate::conc::LISTS),
            sub("many", crate::conc::RULE, 1_600, 100_000, crate::conc::many, crate::conc::oracle),
            sub_threads("threads", "two or more threads make at least 500 operations each", 3_000, 40_000, strategy, oracle),
            sub_fresh("fresh-schedules", crate::conc::RULE, 800, 12_000, || crate::conc::strategy(&KINDS, false), crate::conc::oracle),
        ],
    }
}
