//! Timestamps read back and render as set, latest wins.
use crate::clock::Virtual;
use crate::engine::*;
use crate::gen::{self, F};
use crate::world::*;
use prometrics::metric::Metric;
use prometrics::timestamp::TimestampMut;
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::time::{Duration, UNIX_EPOCH};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set(u8, i64),
    /// Seconds and nanoseconds from the epoch (before it, if the flag is set).
    SetTime(u8, u64, u32, bool),
    /// The wall clock then says this many nanoseconds from the epoch.
    SetNow(u8, i64),
    Clear(u8),
    Clone(u8),
    Drop(u8),
    Look,
    /// Mutable views of two clones are kept over these settings (by the second one, if so marked), and never dropped if so marked.
    Hold(u8, u8, Vec<(bool, Option<i64>)>, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    /// How many metrics of one identity there are.
    members: u8,
    ops: Vec<Op>,
}
fn strategy(len: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    let secs = prop_oneof![
        2 => 0u64..5,
        3 => 1_400_000_000u64..1_800_000_000,
        1 => 0u64..9_000_000_000_000_000,
        1 => prop::sample::select(vec![0u64, 1 << 31, 1 << 32, (1 << 31) - 1, 9_000_000_000_000_000, 62_135_596_800]),
        1 => prop::sample::select(crate::dict::sizes(9_000_000_000_000_000)),
    ];
    let nanos = prop_oneof![2 => 0u32..1_000_000_000, 1 => prop::sample::select(vec![0, 1, 999_999, 1_000_000, 1_000_001, 999_000_000, 999_999_999, 500_000_000, 1_999_999, 123_456_789])];
    let now = prop_oneof![3 => 1_400_000_000_000_000_000i64..1_800_000_000_000_000_000, 1 => -2_000_000_000i64..2_000_000_000, 1 => any::<i64>()];
    let op = prop_oneof![
        4 => (any::<u8>(), gen::millis()).prop_map(|(w, t)| Op::Set(w, t)),
        4 => (any::<u8>(), secs, nanos, any::<bool>()).prop_map(|(w, s, n, neg)| Op::SetTime(w, s, n, neg)),
        3 => (any::<u8>(), now).prop_map(|(w, t)| Op::SetNow(w, t)),
        2 => any::<u8>().prop_map(Op::Clear),
        1 => any::<u8>().prop_map(Op::Clone),
        1 => any::<u8>().prop_map(Op::Drop),
        2 => Just(Op::Look),
        2 => (any::<u8>(), any::<u8>(), prop::collection::vec((any::<bool>(), gen::opt_millis()), 1..5), any::<bool>()).prop_map(|(v, w, c, l)| Op::Hold(v, w, c, l)),
    ];
    (kind(), 1u8..4, prop::collection::vec(op, len)).prop_map(|(kind, members, ops)| Case { kind, members, ops }).boxed()
}
fn with<T>(m: &mut Metric, f: impl FnOnce(&mut TimestampMut) -> T) -> T {
    match m {
        Metric::Counter(m) => f(&mut m.timestamp_mut()),
        Metric::Gauge(m) => f(&mut m.timestamp_mut()),
        Metric::Histogram(m) => f(&mut m.timestamp_mut()),
        Metric::Summary(m) => f(&mut m.timestamp_mut()),
    }
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let data = match c.kind {
        Kind::Counter => Data::Counter { adds: vec![F(1.0)] },
        Kind::Gauge => Data::Gauge { value: F(1.0) },
        Kind::Hist => Data::Hist { bounds: vec![F(1.0), F(2.0)], obs: vec![F(1.5)] },
        Kind::Summary => Data::Summary { quantiles: vec![F(0.5), F(0.9)], obs: vec![F(1.5)] },
    };
    let spec = Spec { ns: None, sub: None, name: "m".into(), help: None, labels: vec![("a".into(), "b".into())], ts: None, data };
    // Handles with the member they are clones of; the first ones stay.
    let mut handles: Vec<(Metric, usize)> = vec![];
    let mut model: Vec<Option<i64>> = vec![];
    let clock = Virtual::new();
    for i in 0..c.members as usize {
        handles.push((build(&spec, &[g.registry()]).map_err(|e| format!("{:?}", e))?, i));
        model.push(None);
    }
    let (mut sets, mut clears, mut looks) = (0, 0, 0);
    for op in c.ops.iter().chain([&Op::Look]) {
        let who = |w: &u8| *w as usize % handles.len();
        match op {
            Op::Set(w, t) => {
                let (m, i) = &mut { let k = who(w); (handles[k].0.clone(), handles[k].1) };
                with(m, |x| x.set(*t));
                ensure!(get_ts(m) == Some(*t), "set to {} but reads {:?}", t, get_ts(m));
                model[*i] = Some(*t);
                sets += 1;
            }
            Op::SetTime(w, s, n, neg) => {
                let d = Duration::new(*s, *n);
                let t = if *neg { UNIX_EPOCH - d } else { UNIX_EPOCH + d };
                let want = d.as_nanos() as i128 * if *neg { -1 } else { 1 };
                let k = who(w);
                let i = handles[k].1;
                let m = &mut handles[k].0;
                with(m, |x| x.set_time(t));
                let Some(got) = get_ts(m) else { return Err(format!("set to {:?}, but reads nothing", t)) };
                ensure!((got as i128 * 1_000_000 - want).abs() < 1_000_000, "set to {} ns from the epoch, but reads {} ms", want, got);
                model[i] = Some(got);
                sets += 1;
                cx.class_if(*neg && want < 0, "a time before the epoch");
            }
            Op::SetNow(w, t) => {
                let k = who(w);
                let i = handles[k].1;
                let m = &mut handles[k].0;
                let _at = Virtual::at(*t as i128);
                with(m, |x| x.set_now());
                let Some(got) = get_ts(m) else { return Err("set to now, but reads nothing".into()) };
                ensure!((got as i128 * 1_000_000 - *t as i128).abs() < 1_000_000, "set to now, {} ns from the epoch, but reads {} ms", t, got);
                model[i] = Some(got);
                sets += 1;
                drop(_at);
                std::mem::forget(Virtual::new());
            }
            Op::Clear(w) => {
                let k = who(w);
                with(&mut handles[k].0, |x| x.clear());
                model[handles[k].1] = None;
                clears += 1;
            }
            Op::Hold(v, w, sets, leak) => {
                let (v, w) = (who(v), who(w));
                let (mut a, mut b) = (handles[v].0.clone(), handles[w].0.clone());
                let (mut a, mut b) = (ts_guard(&mut a), ts_guard(&mut b));
                for (second, t) in sets {
                    let (x, i) = if *second { (&mut b, handles[w].1) } else { (&mut a, handles[v].1) };
                    match t {
                        Some(t) => x.set(*t),
                        None => x.clear(),
                    }
                    model[i] = *t;
                    let got = [a.get(), get_ts(&handles[v].0), b.get(), get_ts(&handles[w].0)];
                    let (p, q) = (model[handles[v].1], model[handles[w].1]);
                    ensure!(got == [p, p, q, q], "while mutable views of two handles are kept, they and the handles read {:?}, not {:?} and {:?}", got, p, q);
                }
                cx.class("mutable views kept");
                if *leak {
                    std::mem::forget((a, b));
                }
            }
            Op::Clone(w) => {
                let k = who(w);
                if handles.len() < 12 {
                    let h = (handles[k].0.clone(), handles[k].1);
                    handles.push(h);
                }
            }
            Op::Drop(w) => {
                let k = who(w);
                if k >= c.members as usize {
                    handles.remove(k);
                }
            }
            Op::Look => {
                looks += 1;
                let latest = model.iter().flatten().max().copied();
                let got = g.gather();
                let mut want = expected(model.iter().map(|t| Spec { ts: *t, ..spec.clone() }).collect::<Vec<_>>().iter());
                for f in want.values_mut() {
                    for s in f.series.values_mut() {
                        s.ts = latest;
                    }
                }
                check_gather(&got, &want)?;
                // Every sample line carries it.
                for line in got.to_text().lines().filter(|l| !l.starts_with('#')) {
                    let s = crate::promtext::sample(line)?;
                    ensure!(s.ts == latest, "the line {:?} should carry timestamp {:?}", line, latest);
                }
            }
        }
        for (m, i) in &mut handles {
            ensure!(get_ts(m) == model[*i], "a clone reads {:?}, not {:?}", get_ts(m), model[*i]);
            let t = with(m, |x| x.get());
            ensure!(t == model[*i], "the mutable view reads {:?}, not {:?}", t, model[*i]);
        }
        if !matches!(op, Op::Look) || c.ops.len() < 8 {
            let (m, i) = &handles[(sets * 7 + clears) % handles.len()];
            let text = display(m);
            for line in text.lines() {
                let s = crate::promtext::sample(line)?;
                ensure!(s.ts == model[*i], "the rendered line {:?} should carry timestamp {:?}", line, model[*i]);
            }
        }
    }
    drop(clock);
    cx.class_if(clears > 0, "cleared");
    cx.class_if(c.members > 1, "merged");
    cx.nontrivial(sets > 0 && looks > 0 && (c.members > 1 || clears > 0));
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C19",
        level: "exploration",
        assumptions: &["the smallest i64 is not a legal timestamp", "points in time are those an i64 of milliseconds can express", "schedules: interleavings are those of single steps between loads, stores and branches of the crate; reorderings by the memory model are not explored"],
        subs: vec![
            sub("ops", "a timestamp is set, and several metrics are merged or one is cleared", 160_000, 2_000_000, || strategy(1..12), oracle).guide(&["/ops"]),
            sub("long", "the same with 30..120 operations", 8_000, 80_000, || strategy(30..120), oracle),
            sub("schedules", crate::meta::RULE, 72000, 400000, || crate::meta::strategy(crate::meta::About::Times), crate::meta::oracle).guide(crate::meta::LISTS),
            sub_fresh("fresh", "a timestamp is set, and several metrics are merged or one is cleared", 800, 12_000, || strategy(1..12), oracle),
            sub_fresh("fresh-schedules", crate::meta::RULE, 800, 12_000, || crate::meta::strategy(crate::meta::About::Times), crate::meta::oracle),
        ],
    }
}
