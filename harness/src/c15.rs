//! Label views stay valid and unchanged while labels are modified.
use crate::alloc::Quarantine;
use crate::engine::*;
use crate::gen::{self, F};
use crate::world::*;
use prometrics::label::{Iter, Label};
use prometrics::metric::Metric;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Insert(String, String),
    Remove(String),
    Clear,
    /// Starts an iteration.
    Start,
    /// Takes some labels from an iteration.
    Take(u8, u8),
    /// Ends an iteration before its end.
    Stop(u8),
    /// Looks a label up and keeps the reference.
    Get(String),
    /// Reads the labels in ways that change nothing.
    Read,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    start: Vec<(String, String)>,
    ops: Vec<Op>,
}
const POOL: &[&str] = &["a", "b", "c", "d", "e"];
fn strategy(get: bool) -> BoxedStrategy<Case> {
    let name = || prop::sample::select(POOL).prop_map(|s| s.to_string());
    let val = || prop_oneof![2 => "[a-z]{0,3}", 1 => gen::text()].boxed();
    let change = prop_oneof![3 => (name(), val()).prop_map(|(n, v)| Op::Insert(n, v)), 1 => name().prop_map(Op::Remove), 1 => Just(Op::Clear)].boxed();
    let op = if get {
        prop_oneof![2 => change, 4 => name().prop_map(Op::Get), 2 => Just(Op::Read), 1 => Just(Op::Start), 1 => any::<u8>().prop_map(Op::Stop)].boxed()
    } else {
        prop_oneof![
            5 => change,
            3 => Just(Op::Start),
            4 => (any::<u8>(), 0u8..4).prop_map(|(i, n)| Op::Take(i, n)),
            1 => any::<u8>().prop_map(Op::Stop),
            1 => Just(Op::Read),
        ]
        .boxed()
    };
    (kind(), prop::collection::vec((name(), val()), 0..6), prop::collection::vec(op, 0..24)).prop_map(|(kind, start, ops)| Case { kind, start, ops }).boxed()
}
fn metric(kind: Kind, labels: &[(String, String)]) -> Result<Metric, String> {
    let data = match kind {
        Kind::Counter => Data::Counter { adds: vec![] },
        Kind::Gauge => Data::Gauge { value: F(0.0) },
        Kind::Hist => Data::Hist { bounds: vec![], obs: vec![] },
        Kind::Summary => Data::Summary { quantiles: vec![], obs: vec![] },
    };
    build(&Spec { ns: None, sub: None, name: "m".into(), help: None, labels: labels.to_vec(), ts: None, data }, &[]).map_err(|e| format!("{:?}", e))
}
/// Does any part of the label lie in freed memory?
fn dead(q: &Quarantine, l: &Label) -> bool {
    q.freed(l as *const Label as usize) || (!l.name().is_empty() && q.freed(l.name().as_ptr() as usize)) || (!l.value().is_empty() && q.freed(l.value().as_ptr() as usize))
}
struct Run<'a> {
    iter: Iter<'a>,
    snapshot: Vec<(String, String)>,
    taken: Vec<&'a Label>,
    changed: bool,
}
fn step_run(q: &Quarantine, r: &mut Run, n: usize) -> R {
    for _ in 0..n {
        match r.iter.next() {
            Some(l) => {
                ensure!(!dead(q, l), "the iteration yields a label in freed memory");
                r.taken.push(l)
            }
            None => {
                ensure!(r.taken.len() == r.snapshot.len(), "the iteration ended after {:?}, but began on {:?}", r.taken, r.snapshot);
                break;
            }
        }
        ensure!(r.taken.len() <= r.snapshot.len(), "the iteration yields more labels than there were: {:?}", r.taken);
    }
    for (l, s) in r.taken.iter().zip(&r.snapshot) {
        ensure!(!dead(q, l), "a label yielded by a running iteration is freed");
        ensure!((l.name(), l.value()) == (s.0.as_str(), s.1.as_str()), "the iteration begun on {:?} yielded {:?}", r.snapshot, r.taken);
    }
    Ok(())
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let m = metric(c.kind, &c.start)?;
    let mut writer = m.clone();
    // One quarantine for the whole case: whatever is freed from here on stays readable, and known to be freed.
    let q = Quarantine::new();
    let mut runs: Vec<Run> = vec![];
    let mut gets: Vec<(&Label, String, String, bool)> = vec![];
    let (mut interleaved, mut kept) = (false, false);
    for (i, op) in c.ops.iter().enumerate() {
        let mut change = false;
        match op {
            Op::Insert(n, v) => {
                labels_mut(&mut writer, |l| l.insert(n, v)).map_err(|e| format!("{:?}", e))?;
                change = true;
            }
            Op::Remove(n) => {
                labels_mut(&mut writer, |l| l.remove(n));
                change = true;
            }
            Op::Clear => {
                labels_mut(&mut writer, |l| l.clear());
                change = true;
            }
            Op::Start => {
                let snapshot = label_vec(m.labels());
                runs.push(Run { iter: m.labels().iter(), snapshot, taken: vec![], changed: false });
            }
            Op::Take(r, n) => {
                if !runs.is_empty() {
                    let r = *r as usize % runs.len();
                    step_run(&q, &mut runs[r], *n as usize)?;
                }
            }
            Op::Stop(r) => {
                if !runs.is_empty() {
                    let r = *r as usize % runs.len();
                    runs.remove(r);
                }
            }
            Op::Get(n) => {
                if let Some(l) = m.labels().get(n) {
                    let value = label_vec(m.labels()).into_iter().find(|x| x.0 == *n).map(|x| x.1);
                    ensure!(!dead(&q, l), "operation {}: looking {:?} up gives a reference to freed memory at once", i, n);
                    ensure!(Some(l.value()) == value.as_deref() && l.name() == n, "looking {:?} up gives {:?}", n, l);
                    gets.push((l, n.clone(), l.value().to_string(), false));
                }
            }
            Op::Read => {
                let _ = (m.labels().to_string(), m.labels().len(), display(&writer), label_vec(writer.labels()));
            }
        }
        for r in &mut runs {
            r.changed |= change;
        }
        for g in &mut gets {
            g.3 |= change;
        }
        for g in &gets {
            let gone = dead(&q, g.0);
            if !g.3 {
                ensure!(!gone, "a looked-up label is freed although no label was changed (operation {} {:?})", i, op);
            }
            if gone {
                cx.finding("label-ref-outlives-change", format!("the label {:?} looked up before is freed memory after {:?}", g.1, op))?;
            }
            if !gone || g.3 {
                // (Freed blocks are quarantined, so this reads what was there.)
                ensure!((g.0.name(), g.0.value()) == (g.1.as_str(), g.2.as_str()), "a looked-up label changed from {:?} to {:?}", (&g.1, &g.2), g.0);
            }
            kept |= !g.3 && i > 1;
        }
        if q.full() {
            cx.class("no room left for freed memory");
            return Ok(());
        }
    }
    for mut r in runs {
        let n = r.snapshot.len() + 1;
        interleaved |= r.changed && !r.snapshot.is_empty();
        step_run(&q, &mut r, n)?;
        ensure!(r.taken.len() == r.snapshot.len(), "the iteration yielded {:?}, but began on {:?}", r.taken, r.snapshot);
        // What an iteration yielded may be kept longer than the iteration itself.
        let Run { iter, snapshot, taken, .. } = r;
        drop(iter);
        for (l, s) in taken.iter().zip(&snapshot) {
            if dead(&q, l) {
                cx.finding("label-ref-outlives-change", format!("the label {:?} obtained from an iteration is freed memory after the iteration", s))?;
            }
        }
    }
    cx.class_if(interleaved, "labels changed during an iteration");
    cx.class_if(kept, "looked-up reference kept without changes");
    cx.nontrivial(interleaved || kept);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Race {
    kind: Kind,
    start: Vec<(String, String)>,
    ops: Vec<Op>,
    readers: u8,
    rounds: u16,
}
fn race_strategy() -> BoxedStrategy<Race> {
    (strategy(false), 1u8..5, 50u16..400)
        .prop_map(|(c, readers, rounds)| Race { kind: c.kind, start: c.start, ops: c.ops.into_iter().filter(|o| matches!(o, Op::Insert(..) | Op::Remove(_) | Op::Clear)).collect(), readers, rounds })
        .boxed()
}
/// One thread changes the labels, others iterate: each iteration yields one of the label sets there ever were.
fn race_oracle(c: &Race, cx: &mut Cx) -> R {
    let m = metric(c.kind, &c.start)?;
    let mut w = m.clone();
    let change = |w: &mut Metric, op: &Op| match op {
        Op::Insert(n, v) => labels_mut(w, |l| l.insert(n, v)).map_err(|e| format!("{:?}", e)),
        Op::Remove(n) => Ok(labels_mut(w, |l| l.remove(n))),
        _ => Ok(labels_mut(w, |l| l.clear())),
    };
    // The label sets there will ever be: two rounds reach all of them.
    let mut states = BTreeSet::new();
    states.insert(label_vec(w.labels()));
    for op in c.ops.iter().chain(&c.ops) {
        change(&mut w, op)?;
        states.insert(label_vec(w.labels()));
    }
    let stop = AtomicBool::new(false);
    let r = std::thread::scope(|s| -> R {
        let rs: Vec<_> = (0..c.readers)
            .map(|_| {
                let m = m.clone();
                let (stop, states) = (&stop, &states);
                s.spawn(move || -> R {
                    guarded(|| {
                        while !stop.load(Ordering::Relaxed) {
                            let v = label_vec(m.labels());
                            ensure!(states.contains(&v), "an iteration yielded {:?}, which the labels never were; they were {:?}", v, states);
                        }
                        Ok(())
                    })
                })
            })
            .collect();
        let mut r = Ok(());
        'out: for _ in 0..c.rounds {
            for op in &c.ops {
                r = change(&mut w, op);
                if r.is_err() {
                    break 'out;
                }
            }
        }
        stop.store(true, Ordering::Relaxed);
        for t in rs {
            r = r.and(t.join().unwrap());
        }
        r
    });
    cx.class_if(states.len() > 2, "3 or more label sets");
    cx.nontrivial(states.len() > 2);
    r
}
pub fn check() -> Check {
    Check {
        id: "C15",
        level: "exploration",
        assumptions: &["a freed block is recognised by the harness's allocator, which keeps blocks freed by the testing thread in quarantine", "schedules: interleavings are those of single steps between loads, stores and branches of the crate; reorderings by the memory model are not explored"],
        subs: vec![
            sub("iter", "labels were changed while an iteration over a non-empty set was running", 120_000, 1_000_000, || strategy(false), oracle).guide(&["/ops"]),
            sub("get", "a looked-up reference was kept over further operations", 120_000, 1_000_000, || strategy(true), oracle).guide(&["/ops"]),
            sub_threads("race", "3 or more distinct label sets while other threads iterate", 600, 4_000, race_strategy, race_oracle),
            sub("schedules", crate::meta::RULE, 120000, 600000, || crate::meta::strategy(crate::meta::About::Iterations), crate::meta::grave_oracle).guide(crate::meta::LISTS),
            sub_fresh("fresh", "labels were changed while an iteration over a non-empty set was running", 800, 12_000, || strategy(false), oracle),
            sub_fresh("fresh-schedules", crate::meta::RULE, 800, 12_000, || crate::meta::strategy(crate::meta::About::Iterations), crate::meta::grave_oracle),
        ],
    }
}
