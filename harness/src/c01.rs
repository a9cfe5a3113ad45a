//! Exposition text is well-formed and lossless for every registered metric.
use crate::engine::*;
use crate::gen;
use crate::world::*;
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    specs: Vec<Spec>,
}
fn families(fam: impl Strategy<Value = usize> + 'static, per: usize) -> BoxedStrategy<Case> {
    let family = (gen::opt_name_part(), gen::opt_name_part(), gen::name_part(), gen::help(), kind()).prop_flat_map(move |(ns, sub, name, help, k)| {
        prop::collection::vec((gen::labels(5), gen::opt_millis(), data(k, false)), 1..per).prop_map(move |v| {
            v.into_iter()
                .map(|(labels, ts, data)| Spec { ns: ns.clone(), sub: sub.clone(), name: name.clone(), help: help.clone(), labels, ts, data })
                .collect::<Vec<_>>()
        })
    });
    fam.prop_flat_map(move |n| prop::collection::vec(family.clone(), n))
        .prop_map(|f| {
            let mut specs: Vec<Spec> = f.into_iter().flatten().collect();
            // One TYPE per name: the format leaves several kinds of one name undefined.
            let mut kinds: BTreeMap<String, Kind> = BTreeMap::new();
            for s in &mut specs {
                let k = s.data.kind();
                while *kinds.entry(s.full()).or_insert(k) != k {
                    s.name += k.word();
                }
            }
            unify_help(&mut specs);
            Case { specs }
        })
        .boxed()
}
fn small() -> BoxedStrategy<Case> {
    families(1usize..4, 4)
}
fn big() -> BoxedStrategy<Case> {
    families(10usize..60, 10)
}
fn special(s: &str) -> bool {
    s.contains(['\\', '"', '\n'])
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let mut g = Gatherer::new();
    let regs = [g.registry()];
    let mut keep = vec![];
    for s in &c.specs {
        keep.push(build(s, &regs).map_err(|e| format!("a valid metric is rejected: {:?}", e))?);
    }
    let got = g.gather();
    let want = expected(&c.specs);
    check_text(&got.to_text(), &want)?;
    ensure!(got.to_text() == got.to_text(), "rendering the same result twice gives two texts");
    let vals = || c.specs.iter().flat_map(|s| s.labels.iter().map(|l| &l.1).chain(s.help.iter()));
    let nasty = vals().any(|v| special(v));
    cx.class_if(nasty, "character that needs escaping");
    cx.class_if(vals().any(|v| v.chars().any(|c| c as u32 > 127)), "non-ASCII text");
    let all = |f: &dyn Fn(f64) -> bool| {
        c.specs.iter().any(|s| match &s.data {
            Data::Gauge { value } => f(value.0),
            Data::Counter { adds } => adds.iter().any(|a| f(a.0)),
            Data::Hist { bounds, obs } => obs.iter().chain(bounds).any(|a| f(a.0)),
            Data::Summary { obs, .. } => obs.iter().any(|a| f(a.0)),
        })
    };
    let odd = all(&|x| !x.is_finite());
    cx.class_if(odd, "NaN or infinite value");
    cx.class_if(all(&|x| x.is_finite() && x.abs() > 1e20), "huge value");
    cx.class_if(all(&|x| x != 0.0 && x.abs() < 1e-20), "tiny value");
    cx.class_if(c.specs.iter().any(|s| s.ts.is_some()), "timestamp");
    cx.class_if(c.specs.iter().any(|s| s.help.is_some()), "help");
    cx.class_if(want.values().any(|f| f.series.values().any(|s| s.members > 1)), "merged series");
    for k in KINDS {
        cx.class_if(c.specs.iter().any(|s| s.data.kind() == k), k.word());
    }
    cx.nontrivial(nasty || odd || want.len() > 1);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C01",
        level: "exploration",
        assumptions: &["the independent parser implements text format 0.0.4", "help is common to the members of a family", "one kind per full name"],
        subs: vec![
            sub("text", "has a label value or help that needs escaping, a non-finite number, or several families", 18_000, 400_000, small, oracle),
            sub("big", "the same, with 10..60 families of up to 9 series", 240, 6_000, big, oracle),
            sub("huge", "a text longer than 1000 bytes or more than 64 labels", 220, 6_000, crate::scale::huge, crate::scale::huge_oracle),
            sub_fresh("fresh", "has a label value or help that needs escaping, a non-finite number, or several families", 800, 12_000, small, oracle),
        ],
    }
}
