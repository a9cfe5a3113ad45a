//! Small concurrent programs over the labels and the timestamp of one metric. Every operation must seem to happen at one
//! moment between its beginning and its end: some order of all operations explains what each of them gave.
use crate::alloc::Group;
use crate::clock;
use crate::engine::*;
use crate::promtext as pt;
use crate::turns::{self, *};
use crate::world::*;
use prometrics::label::Label;
use prometrics::metric::Metric;
use prometrics::metrics::*;
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Op {
    Insert(u8, u8),
    /// With a name that is not valid.
    Bad(u8),
    Remove(u8),
    Clear,
    Has(u8),
    Len,
    /// Reads all labels, in one of several ways.
    All(u8),
    /// Begins an iteration and goes on to other operations.
    Hold,
    /// Takes so many from an iteration.
    Take(u8, u8),
    SetTime(i64),
    ClearTime,
    /// Reads the timestamp, in one of several ways.
    Time(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    start: Vec<(u8, u8)>,
    a: Vec<Op>,
    b: Vec<Op>,
    c: Vec<Op>,
    plan: Vec<Switch>,
}
pub const LISTS: &[&str] = &["/plan", "/a", "/b", "/c"];
const NAMES: [&str; 5] = ["a", "b", "c", "d", "e"];
#[derive(Clone, Copy, PartialEq)]
pub enum About {
    Labels,
    Iterations,
    Times,
}
pub fn strategy(about: About) -> BoxedStrategy<Case> {
    let n = || 0u8..5;
    let change = move || prop_oneof![6 => (n(), 0u8..4).prop_map(|(n, v)| Op::Insert(n, v)), 2 => n().prop_map(Op::Remove), 1 => Just(Op::Clear), 1 => n().prop_map(Op::Bad)].boxed();
    let read = move || prop_oneof![1 => n().prop_map(Op::Has), 1 => Just(Op::Len), 3 => (0u8..4).prop_map(Op::All)].boxed();
    let ts = move || prop_oneof![2 => 0i64..4, 1 => -3i64..0, 1 => prop::sample::select(vec![i64::MAX, i64::MIN + 1, 1 << 32, -(1 << 32), 1_500_000_000_123]), 1 => any::<i64>().prop_map(|t| t.max(i64::MIN + 1))].boxed();
    let op = move |writes: u32| match about {
        About::Labels => prop_oneof![writes => change(), 2 => read()].boxed(),
        About::Iterations => prop_oneof![writes => change(), 1 => read(), 3 => Just(Op::Hold), 3 => (any::<u8>(), 0u8..4).prop_map(|(i, n)| Op::Take(i, n))].boxed(),
        About::Times => prop_oneof![2 => ts().prop_map(Op::SetTime), 1 => Just(Op::ClearTime), 3 => (0u8..3).prop_map(Op::Time), 1 => change()].boxed(),
    };
    let l = move |w| prop::collection::vec(op(w), 1..6).boxed();
    let lists = (1u32..6, 1u32..6).prop_flat_map(move |(x, y)| (l(x), l(y), prop_oneof![2 => Just(vec![]).boxed(), 1 => l(2)]));
    // (The text of one histogram or summary has its labels several times.)
    let kinds = prop_oneof![Just(Kind::Counter), Just(Kind::Gauge)];
    let kinds = if about == About::Iterations { kind() } else { kinds.boxed() };
    (kinds, prop::collection::vec((n(), 0u8..4), 0..4), lists, turns::plan(false))
        .prop_map(|(kind, start, (a, b, c), plan)| Case { kind, start, a, b, c, plan })
        .boxed()
}
type Set = BTreeMap<String, String>;
#[derive(Clone, Debug)]
enum Rec {
    Insert(String, String),
    Remove(String),
    Clear,
    Has(String, bool),
    Len(usize),
    All(Set),
    SetTime(Option<i64>),
    Time(Option<i64>),
}
fn timestamp_mut<T>(m: &Metric, f: impl FnOnce(&mut prometrics::timestamp::TimestampMut) -> T) -> T {
    match m {
        Metric::Counter(m) => f(&mut m.timestamp_mut()),
        Metric::Gauge(m) => f(&mut m.timestamp_mut()),
        Metric::Histogram(m) => f(&mut m.timestamp_mut()),
        Metric::Summary(m) => f(&mut m.timestamp_mut()),
    }
}
/// A set of labels, each name once, in order of the names.
fn as_set(v: Vec<(String, String)>) -> Result<Set, String> {
    ensure!(v.windows(2).all(|w| w[0].0 < w[1].0), "labels seen: {:?}", v);
    Ok(v.into_iter().collect())
}
struct Grave(*const Group);
unsafe impl Send for Grave {}
impl Grave {
    fn dead(&self, l: &Label) -> bool {
        let g = unsafe { &*self.0 };
        g.freed(l as *const Label as usize) || (!l.name().is_empty() && g.freed(l.name().as_ptr() as usize)) || (!l.value().is_empty() && g.freed(l.value().as_ptr() as usize))
    }
}
fn player(ops: &[Op], m: &Metric, mut g: Gatherer, order: &Order, grave: &Grave) -> Result<(Vec<Done<Rec>>, Gatherer), String> {
    let mut w = m.clone();
    let mut log: Vec<Done<Rec>> = vec![];
    // Running iterations, what they have yielded, and where in the log what they must yield is (checked at the end).
    let mut held: Vec<(prometrics::label::Iter, Vec<&Label>, u64, u64)> = vec![];
    let mut op = |f: &mut dyn FnMut() -> Result<Vec<Rec>, String>| -> R {
        turns::point();
        let begin = order.tick();
        let r = f()?;
        let end = order.tick();
        turns::point();
        log.extend(r.into_iter().map(|op| Done { begin, end, op }));
        Ok(())
    };
    let s = |n: u8| NAMES[n as usize].to_string();
    for o in ops {
        match *o {
            Op::Insert(n, v) => {
                let (n, v) = (s(n), v.to_string());
                op(&mut || labels_mut(&mut w, |l| l.insert(&n, &v)).map(|_| vec![Rec::Insert(n.clone(), v.clone())]).map_err(|e| e.to_string()))?
            }
            Op::Bad(n) => op(&mut || {
                let r = labels_mut(&mut w, |l| l.insert(["", "__x", "0", "a-b", "é"][n as usize % 5], "x"));
                ensure!(r.is_err(), "an invalid name is accepted");
                Ok(vec![])
            })?,
            Op::Remove(n) => op(&mut || {
                labels_mut(&mut w, |l| l.remove(&s(n)));
                Ok(vec![Rec::Remove(s(n))])
            })?,
            Op::Clear => op(&mut || {
                labels_mut(&mut w, |l| l.clear());
                Ok(vec![Rec::Clear])
            })?,
            Op::Has(n) => op(&mut || Ok(vec![Rec::Has(s(n), m.labels().get(&s(n)).is_some())]))?,
            Op::Len => op(&mut || {
                let n = m.labels().len();
                Ok(vec![Rec::Len(n)])
            })?,
            Op::All(how) => op(&mut || {
                let text = match how {
                    0 => return Ok(vec![Rec::All(as_set(label_vec(m.labels()))?)]),
                    1 => format!("x{} 0\n", m.labels()),
                    2 => format!("{}\n", display(m)),
                    _ => g.gather().to_text(),
                };
                // (A type line, so that the text can be parsed as a whole.)
                let text = if how == 3 { text } else { format!("# TYPE {} gauge\n{}", if how == 1 { "x" } else { "m" }, text) };
                if how >= 2 && !matches!(m, Metric::Counter(_) | Metric::Gauge(_)) {
                    return Ok(vec![]);
                }
                let f = pt::parse(&text).map_err(|e| format!("{}\nin:\n{}", e, text))?;
                ensure!(f.len() == 1 && f[0].samples.len() == 1, "not one sample: {:?}", text);
                let x = &f[0].samples[0];
                Ok(vec![Rec::All(as_set(x.order.iter().map(|k| (k.clone(), x.labels[k].clone())).collect())?)])
            })?,
            Op::Hold => {
                let (b, i) = (order.tick(), m.labels().iter());
                held.push((i, vec![], b, order.tick()));
            }
            Op::Take(i, n) => {
                if !held.is_empty() {
                    let i = i as usize % held.len();
                    for _ in 0..n {
                        if let Some(l) = held[i].0.next() {
                            held[i].1.push(l);
                        }
                        turns::point();
                    }
                }
            }
            Op::SetTime(t) => op(&mut || {
                timestamp_mut(m, |x| x.set(t));
                Ok(vec![Rec::SetTime(Some(t))])
            })?,
            Op::ClearTime => op(&mut || {
                timestamp_mut(m, |x| x.clear());
                Ok(vec![Rec::SetTime(None)])
            })?,
            Op::Time(how) => op(&mut || {
                let t = match how {
                    0 => get_ts(m),
                    1 => parse_display("m", if let Metric::Counter(_) = m { Kind::Counter } else { Kind::Gauge }, &display(m))?.ts,
                    _ => {
                        let f = pt::parse(&g.gather().to_text())?;
                        ensure!(f.len() == 1 && f[0].samples.len() == 1, "not one sample");
                        f[0].samples[0].ts
                    }
                };
                Ok(vec![Rec::Time(t)])
            })?,
        }
        for h in &held {
            for l in &h.1 {
                ensure!(!grave.dead(l), "a label yielded by a running iteration is freed");
            }
        }
    }
    for (mut i, mut taken, begin, end) in held {
        while let Some(l) = i.next() {
            ensure!(!grave.dead(l), "the iteration yields a label in freed memory");
            taken.push(l);
            ensure!(taken.len() < 1000, "the iteration does not end");
        }
        let v = taken.iter().map(|l| (l.name().to_string(), l.value().to_string())).collect();
        log.push(Done { begin, end, op: Rec::All(as_set(v)?) });
    }
    Ok((log, g))
}
fn run(c: &Case, cx: &mut Cx, graves: bool) -> R {
    let group = Group::new(if graves { 8192 } else { 0 });
    // (The search may make long programs of short ones.)
    let threads: Vec<&[Op]> = [&c.a, &c.b, &c.c].into_iter().filter(|t| !t.is_empty()).map(|t| &t[..t.len().min(16)]).collect();
    let gs: Vec<Gatherer> = threads.iter().map(|_| Gatherer::new()).collect();
    let err = |e| format!("{:?}", e);
    let start: Set = c.start.iter().map(|(n, v)| (NAMES[*n as usize].to_string(), v.to_string())).collect();
    macro_rules! go {
        ($b:expr) => {{
            let mut b = $b;
            start.iter().for_each(|(n, v)| {
                b.label(n, v);
            });
            gs.iter().for_each(|g| {
                b.registry(g.registry());
            });
            Metric::from(b.finish().map_err(err)?)
        }};
    }
    let m = match c.kind {
        Kind::Counter => go!(CounterBuilder::new("m")),
        Kind::Gauge => go!(GaugeBuilder::new("m")),
        Kind::Hist => go!(HistogramBuilder::new("m")),
        Kind::Summary => go!(SummaryBuilder::new("m", HOUR)),
    };
    let order = Order::new();
    let bodies: Vec<Body<_>> = threads
        .iter()
        .zip(gs)
        .map(|(ops, g)| {
            let (ops, m, order, grave) = (ops.to_vec(), m.clone(), order.clone(), Grave(&group));
            Box::new(move || {
                let grave = grave;
                player(&ops, &m, g, &order, &grave)
            }) as Body<_>
        })
        .collect();
    let time = Arc::new(clock::Shared::new());
    let played = if graves { group.with(|| turns::play(&time, &c.plan, bodies))? } else { turns::play(&time, &c.plan, bodies)? };
    if graves && group.full() {
        cx.class("no graves left");
        return Ok(());
    }
    let mut log: Vec<Done<Rec>> = vec![];
    let mut rest = vec![];
    for (l, g) in played.results {
        log.extend(l);
        rest.push(g);
    }
    log.sort_by_key(|d| d.begin);
    let n = log.len();
    let overlapping = log.iter().any(|x| log.iter().any(|y| x.begin < y.begin && y.begin < x.end));
    // Alone again.
    let all: Vec<Op> = (0..4).map(Op::All).chain((0..3).filter(|_| matches!(m, Metric::Counter(_) | Metric::Gauge(_))).map(Op::Time)).collect();
    log.extend(player(&all, &m, rest.remove(0), &order, &Grave(&group))?.0);
    let labels: Vec<Done<Rec>> = log.iter().filter(|d| !matches!(d.op, Rec::SetTime(_) | Rec::Time(_))).cloned().collect();
    let times: Vec<Done<Rec>> = log.iter().filter(|d| matches!(d.op, Rec::SetTime(_) | Rec::Time(_))).cloned().collect();
    let writes = |l: &[Done<Rec>]| l.iter().filter(|d| matches!(d.op, Rec::Insert(..) | Rec::Remove(_) | Rec::Clear | Rec::SetTime(_))).count();
    if labels.len() < 60 {
        let ok = linearizable(&labels, start.clone(), |_| true, |s, r| {
            let mut t = s.clone();
            match r {
                Rec::Insert(n, v) => drop(t.insert(n.clone(), v.clone())),
                Rec::Remove(n) => drop(t.remove(n)),
                Rec::Clear => t.clear(),
                Rec::Has(n, b) if s.contains_key(n) == *b => {}
                Rec::Len(n) if s.len() == *n => {}
                Rec::All(l) if l == s => {}
                _ => return None,
            }
            Some(t)
        });
        ensure!(ok, "no order of the operations explains what they gave, beginning with {:?}:\n{:?}", start, labels);
    }
    if times.len() < 60 {
        let ok = linearizable(&times, None, |_| true, |s: &Option<i64>, r| match r {
            Rec::SetTime(t) => Some(*t),
            Rec::Time(t) if t == s => Some(*s),
            _ => None,
        });
        ensure!(ok, "no order of the operations explains the timestamps: {:?}", times);
    }
    cx.class_if(overlapping, "overlapping operations");
    cx.class_if(overlapping && threads.iter().filter(|t| t.iter().any(|o| matches!(o, Op::Insert(..) | Op::Remove(_) | Op::Clear))).count() > 1, "two threads change labels");
    cx.class_if(played.stats.blocked > 0, "a thread waits for a lock");
    cx.nontrivial(overlapping && writes(&log) > 0 && n > writes(&log));
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ManyCase {
    kind: Kind,
    start: u8,
    /// What each thread does, with labels of its own.
    ops: Vec<Op>,
    many: turns::Many,
}
pub fn many() -> BoxedStrategy<ManyCase> {
    let n = || 0u8..2;
    let op = prop_oneof![4 => (n(), 0u8..4).prop_map(|(n, v)| Op::Insert(n, v)), 2 => n().prop_map(Op::Remove), 1 => n().prop_map(Op::Has), 1 => (0u8..4).prop_map(Op::All)];
    (kind(), 0u8..3, prop::collection::vec(op, 1..5), turns::many()).prop_map(|(kind, start, ops, many)| ManyCase { kind, start, ops, many }).boxed()
}
/// Hundreds of threads change labels of their own: each sees the state of those that it made.
pub fn many_oracle(c: &ManyCase, cx: &mut Cx) -> R {
    let spec_labels: Vec<(String, String)> = (0..c.start).map(|i| (format!("s{}", i), "0".into())).collect();
    macro_rules! go {
        ($b:expr) => {{
            let mut b = $b;
            spec_labels.iter().for_each(|(n, v)| {
                b.label(n, v);
            });
            Metric::from(b.finish().map_err(|e| format!("{:?}", e))?)
        }};
    }
    let m = match c.kind {
        Kind::Counter => go!(CounterBuilder::new("m")),
        Kind::Gauge => go!(GaugeBuilder::new("m")),
        Kind::Hist => go!(HistogramBuilder::new("m")),
        Kind::Summary => go!(SummaryBuilder::new("m", HOUR)),
    };
    let threads = c.many.threads(vec![()]).len();
    let bodies: Vec<Body<Set>> = (0..threads)
        .map(|k| {
            let (ops, mut m) = (c.ops.clone(), m.clone());
            Box::new(move || {
                let mut own = Set::new();
                let name = |n: u8| format!("t{}_{}", k, n % 2);
                for o in &ops {
                    match *o {
                        Op::Insert(n, v) => {
                            labels_mut(&mut m, |l| l.insert(&name(n), &v.to_string())).map_err(|e| e.to_string())?;
                            own.insert(name(n), v.to_string());
                        }
                        Op::Remove(n) => {
                            labels_mut(&mut m, |l| l.remove(&name(n)));
                            own.remove(&name(n));
                        }
                        Op::Has(n) => {
                            let got = m.labels().get(&name(n)).is_some();
                            ensure!(got == own.contains_key(&name(n)), "{:?} is there: {}; this thread's labels are {:?}", name(n), got, own);
                        }
                        _ => {
                            let prefix = format!("t{}_", k);
                            let mut all = as_set(label_vec(m.labels()))?;
                            all.retain(|n, _| n.starts_with(&prefix));
                            ensure!(all == own, "of a thread's labels {:?} it sees {:?}", own, all);
                        }
                    }
                    turns::point();
                }
                Ok(own)
            }) as Body<_>
        })
        .collect();
    let time = Arc::new(clock::Shared::new());
    let played = turns::play(&time, &c.many.plan(), bodies)?;
    let mut want: Set = spec_labels.into_iter().collect();
    for own in played.results {
        want.extend(own);
    }
    let got = as_set(label_vec(m.labels()))?;
    let missing: Vec<_> = want.iter().filter(|x| got.get(x.0) != Some(x.1)).collect();
    let extra: Vec<_> = got.iter().filter(|x| want.get(x.0) != Some(x.1)).collect();
    ensure!(missing.is_empty() && extra.is_empty() && m.labels().len() == want.len(), "{} threads have ended; of the labels {:?} are missing and {:?} should not be there", threads, missing, extra);
    cx.class_if(threads > 64, "more than 64 threads");
    cx.class_if(played.stats.blocked > 0, "a thread waits for a lock");
    cx.nontrivial(threads > 3 && want.len() > 3);
    Ok(())
}
pub const RULE: &str = "threads take turns by a generated plan so that two operations overlap, and there are both changes and reads";
pub fn oracle(c: &Case, cx: &mut Cx) -> R {
    run(c, cx, false)
}
/// What is freed stays readable, and known to be freed.
pub fn grave_oracle(c: &Case, cx: &mut Cx) -> R {
    run(c, cx, true)
}
