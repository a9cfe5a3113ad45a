//! Rendering into a sink that fails: the error is reported, nothing follows it, and nothing else is affected.
use crate::engine::*;
use crate::world::*;
use prometrics::label::Label;
use prometrics::metric::{Metric, MetricFamily, Metrics};
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Display, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum How {
    /// The call with this number fails; it takes nothing.
    Call,
    /// Takes so many bytes; the call that brings more fails and takes nothing of it.
    Whole,
    /// Takes so many bytes; the call that brings more takes what still fits, and fails.
    Part,
    /// The call with this number panics.
    Panic,
    /// A byte slice of this size, through `std::io::Write`.
    Io,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault {
    /// What is rendered.
    what: u16,
    how: How,
    /// Modulo the number of possible places, the last of which is behind the end.
    at: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    specs: Vec<Spec>,
    faults: Vec<Fault>,
}
fn strategy() -> BoxedStrategy<Case> {
    let twin = (spec(true), prop_oneof![3 => Just(None), 1 => any::<bool>().prop_map(Some)]);
    let how = prop::sample::select(vec![How::Call, How::Call, How::Whole, How::Part, How::Panic, How::Io]);
    let at = prop_oneof![3 => any::<u32>(), 2 => 0u32..12, 1 => (0u32..4).prop_map(|k| u32::MAX - k)];
    let fault = (any::<u16>(), how, at).prop_map(|(what, how, at)| Fault { what, how, at });
    (prop::collection::vec(twin, 1..4), prop::collection::vec(fault, 1..24))
        .prop_map(|(pairs, faults)| {
            let mut specs = vec![];
            for (s, t) in pairs {
                if t.is_some() {
                    specs.push(s.clone());
                }
                specs.push(s);
            }
            unify_help(&mut specs);
            Case { specs, faults }
        })
        .boxed()
}
struct Planned;
struct Sink {
    taken: String,
    calls: usize,
    how: Option<How>,
    at: usize,
    failed: bool,
    after: usize,
}
impl Sink {
    fn new(how: Option<How>, at: usize) -> Sink {
        Sink { taken: String::new(), calls: 0, how, at, failed: false, after: 0 }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
            return Err(fmt::Error);
        }
        self.calls += 1;
        let room = self.at.saturating_sub(self.taken.len());
        let fails = match self.how {
            None => false,
            Some(How::Call) | Some(How::Panic) => self.calls > self.at,
            Some(_) => s.len() > room,
        };
        if !fails {
            self.taken.push_str(s);
            return Ok(());
        }
        self.failed = true;
        match self.how {
            Some(How::Panic) => resume_unwind(Box::new(Planned)),
            Some(How::Part) => {
                let n = (0..=room).rev().find(|n| s.is_char_boundary(*n)).unwrap();
                self.taken.push_str(&s[..n]);
            }
            _ => {}
        }
        Err(fmt::Error)
    }
}
type Item<'a> = (String, &'a dyn Display);
fn items<'a>(ms: &'a [Metric], labels: &'a [Vec<Label>], families: &'a [MetricFamily]) -> Vec<Item<'a>> {
    let mut v: Vec<Item> = vec![];
    for (m, ls) in ms.iter().zip(labels) {
        let d: &dyn Display = match m {
            Metric::Counter(x) => x,
            Metric::Gauge(x) => x,
            Metric::Histogram(x) => x,
            Metric::Summary(x) => x,
        };
        v.push((format!("{} {}", m.kind(), m.name()), d));
        v.push((format!("name {}", m.name()), m.name()));
        v.push((format!("labels of {}", m.name()), m.labels()));
        for l in ls {
            v.push((format!("label {}", l.name()), l));
        }
    }
    for f in families {
        v.push((format!("family {}", f.name()), f));
        v.push((format!("metrics of family {}", f.name()), f.metrics()));
        match f.metrics() {
            Metrics::Counter(x) => v.extend(x.iter().map(|m| (format!("aggregated {}", f.name()), m as &dyn Display))),
            Metrics::Gauge(x) => v.extend(x.iter().map(|m| (format!("aggregated {}", f.name()), m as &dyn Display))),
            Metrics::Histogram(x) => v.extend(x.iter().map(|m| (format!("aggregated {}", f.name()), m as &dyn Display))),
            Metrics::Summary(x) => v.extend(x.iter().map(|m| (format!("aggregated {}", f.name()), m as &dyn Display))),
        }
    }
    v
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let mut ms = vec![];
    for s in &c.specs {
        ms.push(build(s, &[g.registry()]).map_err(|e| format!("a valid metric is rejected: {:?}", e))?);
    }
    let labels: Vec<Vec<Label>> = ms.iter().map(|m| m.labels().iter().cloned().collect()).collect();
    let got = g.gather();
    let text = got.to_text();
    let all = items(&ms, &labels, got.as_ref());
    let mut early = 0;
    for f in &c.faults {
        let (what, d) = &all[f.what as usize % all.len()];
        let full = d.to_string();
        let mut dry = Sink::new(None, 0);
        ensure!(write!(dry, "{}", d).is_ok() && dry.taken == full, "{}: into a sink that never fails goes {:?}, not {:?}", what, dry.taken, full);
        let places = match f.how {
            How::Call | How::Panic => dry.calls,
            _ => full.len(),
        };
        let at = f.at as usize % (places + 1);
        let fails = at < places;
        early += usize::from(fails);
        let ctx = |m: String| format!("rendering {} ({:?} at {} of {}): {}\nthe text is {:?}", what, f.how, at, places, m, full);
        if let How::Io = f.how {
            use std::io::Write;
            let mut buf = vec![0u8; at];
            let mut rest = &mut buf[..];
            let r = write!(rest, "{}", d);
            let left = rest.len();
            ensure!(r.is_err() == fails, "{}", ctx(format!("the outcome is {:?}", r)));
            ensure!(left == 0 && buf == full.as_bytes()[..at], "{}", ctx(format!("what arrived is {:?}", String::from_utf8_lossy(&buf))));
        } else {
            let mut sink = Sink::new(Some(f.how), at);
            let r = catch_unwind(AssertUnwindSafe(|| write!(sink, "{}", d)));
            match r {
                Ok(r) => {
                    ensure!(!matches!(f.how, How::Panic) || !sink.failed, "{}", ctx("the panic of the sink was swallowed".into()));
                    ensure!(sink.failed == fails, "{}", ctx(format!("the sink got {} calls and {} bytes, now and before differently", sink.calls, sink.taken.len())));
                    ensure!(r.is_err() == fails, "{}", ctx(format!("the sink {}, but the outcome is {:?}", if fails { "failed" } else { "did not fail" }, r)));
                }
                Err(e) if e.is::<Planned>() && fails => {}
                Err(e) => resume_unwind(e),
            }
            ensure!(sink.after == 0, "{}", ctx(format!("{} more calls after the failure", sink.after)));
            ensure!(full.starts_with(&sink.taken), "{}", ctx(format!("what arrived is no beginning of it: {:?}", sink.taken)));
            ensure!(fails || sink.taken == full, "{}", ctx(format!("only this arrived: {:?}", sink.taken)));
        }
        // Nothing is different from before.
        ensure!(d.to_string() == full, "{}", ctx(format!("afterwards it is {:?}", d.to_string())));
        cx.class_if(fails, "the sink failed");
        cx.class_if(matches!(f.how, How::Panic) && fails, "the sink panicked");
        cx.class_if(matches!(f.how, How::Io), "through io::Write");
    }
    ensure!(got.to_text() == text, "the gathered text has changed");
    drop(all);
    drop(got);
    // Updates and gathers still work.
    for (m, s) in ms.iter().zip(&c.specs) {
        set_ts(m, s.ts);
    }
    let again = g.gather();
    ensure!(again.to_text() == text, "after failed renderings the next gather is {:?}, not {:?}", again.to_text(), text);
    check_gather(&again, &expected(&c.specs))?;
    cx.nontrivial(early > 0);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C25",
        level: "exploration",
        assumptions: &["nothing changes while rendering"],
        subs: vec![
            sub("faults", "a sink failed before the end of the text", 16_000, 600_000, strategy, oracle).guide(&["/specs", "/faults"]),
            sub_fresh("fresh", "a sink failed before the end of the text", 800, 12_000, strategy, oracle),
        ],
    }
}
