//! Custom collectors run once per gather until they return None.
use crate::engine::*;
use crate::gen;
use crate::world::*;
use prometrics::metric::Metric;
use prometrics::{Collect, Gatherer, Registry};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Answer {
    Metrics(Vec<Spec>),
    /// As `Metrics`, and registers another collector (the given one) while being asked.
    Spawn(Vec<Spec>, Box<Script>),
    End,
}
/// What a collector answers, call by call. After the script's end it would go on answering with the last entry.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    answers: Vec<Answer>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Register(Script),
    /// An ordinary metric; the flag says whether it is dropped right away.
    Metric(Spec, bool),
    DropMetric(usize),
    Gather,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}
/// What the collectors of a case saw: per collector the number of calls so far, and all live specs they returned last.
#[derive(Default)]
struct Log {
    calls: Vec<u32>,
    returned: Vec<Spec>,
    /// Collectors registered from inside a gather.
    spawned: Vec<(usize, Script)>,
}
struct Scripted {
    id: usize,
    script: Script,
    at: usize,
    registry: Registry,
    log: Arc<Mutex<Log>>,
}
impl Collect for Scripted {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        let a = self.script.answers[self.at.min(self.script.answers.len() - 1)].clone();
        self.at += 1;
        let mut log = self.log.lock().unwrap();
        log.calls[self.id] += 1;
        let specs = match a {
            Answer::End => return None,
            Answer::Metrics(s) => s,
            Answer::Spawn(s, script) => {
                let id = log.calls.len();
                log.calls.push(0);
                log.spawned.push((id, (*script).clone()));
                self.registry.register(Scripted { id, script: *script, at: 0, registry: self.registry.clone(), log: self.log.clone() });
                s
            }
        };
        log.returned.extend(specs.iter().cloned());
        Some(specs.iter().map(|s| build(s, &[]).expect("valid")).collect::<Vec<_>>().into_iter())
    }
}
fn small_spec() -> BoxedStrategy<Spec> {
    (crate::c03::near_name(), crate::c03::near_labels(), gen::opt_millis(), prop_oneof![2 => data(Kind::Counter, true), 1 => any_data(true)])
        .prop_map(|((ns, sub, name), labels, ts, data)| Spec { ns, sub, name, help: None, labels, ts, data })
        .boxed()
}
fn script(depth: u32) -> BoxedStrategy<Script> {
    let specs = || prop::collection::vec(small_spec(), 0..3);
    let plain = prop_oneof![3 => specs().prop_map(Answer::Metrics), 2 => Just(Answer::End), 1 => Just(Answer::Metrics(vec![]))].boxed();
    let a = if depth == 0 { plain } else { prop_oneof![9 => plain, 1 => (specs(), script(depth - 1)).prop_map(|(s, c)| Answer::Spawn(s, Box::new(c)))].boxed() };
    prop::collection::vec(a, 1..5).prop_map(|answers| Script { answers }).boxed()
}
fn strategy(n: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        5 => script(1).prop_map(Op::Register),
        2 => (small_spec(), prop::bool::weighted(0.3)).prop_map(|(s, d)| Op::Metric(s, d)),
        1 => any::<usize>().prop_map(Op::DropMetric),
        4 => Just(Op::Gather),
    ];
    prop::collection::vec(op, n).prop_map(|ops| Case { ops }).boxed()
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let registry = g.registry();
    let log = Arc::new(Mutex::new(Log::default()));
    // The model: per collector its script, the number of its calls, and whether it has ended.
    let mut model: Vec<(Script, u32, bool)> = vec![];
    let mut metrics: Vec<(Spec, Metric)> = vec![];
    let (mut gathers, mut ended, mut spawned) = (0, 0, 0);
    for op in c.ops.iter().chain([&Op::Gather, &Op::Gather]) {
        match op {
            Op::Register(script) => {
                let id = {
                    let mut l = log.lock().unwrap();
                    l.calls.push(0);
                    l.calls.len() - 1
                };
                model.push((script.clone(), 0, false));
                registry.register(Scripted { id, script: script.clone(), at: 0, registry: registry.clone(), log: log.clone() });
            }
            Op::Metric(s, gone) => {
                let m = build(s, &[registry.clone()]).map_err(|e| format!("a valid metric is rejected: {:?}", e))?;
                if !gone {
                    metrics.push((s.clone(), m));
                }
            }
            Op::DropMetric(i) => {
                if !metrics.is_empty() {
                    metrics.remove(i % metrics.len());
                }
            }
            Op::Gather => {
                gathers += 1;
                log.lock().unwrap().returned.clear();
                let before = model.len();
                let got = g.gather();
                let mut l = log.lock().unwrap();
                let mut specs: Vec<Spec> = vec![];
                for (i, m) in model.iter_mut().enumerate() {
                    let answer = &m.0.answers[(m.1 as usize).min(m.0.answers.len() - 1)];
                    let expect_calls = if m.2 { m.1 } else { m.1 + 1 };
                    ensure!(
                        l.calls[i] == expect_calls,
                        "collector {} was asked {} times in gather {} (it has {})", i, l.calls[i] as i64 - m.1 as i64, gathers, if m.2 { "already ended" } else { "not ended before" }
                    );
                    if m.2 {
                        continue;
                    }
                    m.1 += 1;
                    match answer {
                        Answer::End => {
                            m.2 = true;
                            ended += 1;
                        }
                        Answer::Metrics(s) | Answer::Spawn(s, _) => specs.extend(s.iter().cloned()),
                    }
                }
                // Collectors registered by others during this gather may be asked now or from the next gather on.
                for (id, script) in std::mem::take(&mut l.spawned) {
                    ensure!(id == model.len(), "harness: collector numbering");
                    spawned += 1;
                    let calls = l.calls[id];
                    ensure!(calls <= 1, "collector {} was asked {} times in the gather it was registered in", id, calls);
                    let mut end = false;
                    if calls == 1 {
                        match &script.answers[0] {
                            Answer::End => end = true,
                            Answer::Metrics(s) | Answer::Spawn(s, _) => specs.extend(s.iter().cloned()),
                        }
                    }
                    model.push((script, calls, end));
                }
                ensure!(before <= model.len() && l.calls.len() == model.len(), "harness: collector numbering");
                specs.extend(metrics.iter().map(|m| m.0.clone()));
                drop(l);
                check_gather(&got, &expected(&specs)).map_err(|e| format!("gather {}: {}", gathers, e))?;
            }
        }
    }
    cx.class_if(ended > 0, "a collector ended");
    cx.class_if(ended > 0 && ended < model.len(), "some ended, some went on");
    cx.class_if(spawned > 0, "a collector registered from within a gather");
    cx.nontrivial(gathers > 2 && ended > 0 && ended < model.len());
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C07",
        level: "exploration",
        assumptions: &["a collector registered while a gather is going on may take part in that gather or not"],
        subs: vec![
            sub("scripts", "at least 3 gathers, some collectors ended and some went on", 25_000, 600_000, || strategy(1..16), oracle).guide(&["/ops"]),
            sub("long", "the same, with 60..250 operations", 480, 10_000, || strategy(60..250), oracle),
            sub("schedules", crate::regs::RULE, 48000, 600_000, || crate::regs::strategy(crate::regs::About::Collectors, false), crate::regs::oracle).guide(crate::regs::LISTS),
            sub("patience", "more than 20 gathers, in which collectors end", 160, 4_000, crate::scale::patience, crate::scale::patience_oracle),
            sub("many", "40 and more collectors at once, some of which ended", 200, 2_500, crate::scale::many, crate::scale::many_oracle),
            sub_fresh("fresh", "at least 3 gathers, some collectors ended and some went on", 800, 12_000, || strategy(1..16), oracle),
            sub_fresh("fresh-schedules", crate::regs::RULE, 800, 12_000, || crate::regs::strategy(crate::regs::About::Collectors, true), crate::regs::oracle),
        ],
    }
}
