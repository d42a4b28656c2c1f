//! Classes of grammars and conversions between them.
use crate::common::*;
use crate::deriv::names_rule as rule;
use rustomata::grammars::cfg::{CFG, LetterT};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::mcfg::Mcfg;
use rustomata::grammars::pmcfg::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Rule = PMCFGRule<String, String, i64>;
pub fn comp(c: &Composition<String>) -> Value {
    json!(c
        .iter()
        .map(|x| x
            .iter()
            .map(|v| match v {
                VarT::Var(i, j) => json!(["V", i, j]),
                VarT::T(t) => json!(["T", t]),
            })
            .collect::<Vec<_>>())
        .collect::<Vec<_>>())
}
fn put<N, F: Fn(&N) -> Value>(r: &PMCFGRule<N, String, i64>, f: F) -> Value {
    json!({"head": f(&r.head), "tail": r.tail.iter().map(|x| f(x)).collect::<Vec<_>>(), "comp": comp(&r.composition), "w": r.weight})
}
fn plain(rs: &[Rule]) -> Value {
    json!(rs.iter().map(|r| put(r, |n| json!(n))).collect::<Vec<_>>())
}
fn gram(p: (Vec<Rule>, String)) -> Value {
    json!({"initial": p.1, "rules": plain(&p.0)})
}
fn pmcfg(p: &PMCFG<String, String, i64>) -> Value {
    json!({"initial": p.initial, "rules": plain(&p.rules)})
}
pub fn run(case: &Value, rec: &Rec) {
    let rules: Vec<Rule> = a(case, "rules").iter().map(rule).collect();
    let initial = strings(&case["initial"]);
    let first = initial.get(0).cloned();
    match s(case, "kind") {
        "class" => {
            if initial.len() == 1 {
                let l = Lcfrs::new(rules.clone(), first.clone().unwrap());
                rec.ev(json!({"op": "lcfrs", "res": opt(l.clone().map(|x| gram(x.destruct())))}));
                if let Some(l) = l {
                    rec.ev(json!({"op": "normal", "res": [l.in_normal_form()]}));
                    rec.ev(json!({"op": "same", "res": pmcfg(&PMCFG::from(Mcfg::from(l.clone())))}));
                    let m: Mcfg<_, _, _> = l.into();
                    rec.ev(json!({"op": "same", "res": pmcfg(&PMCFG::from(m))}));
                }
                let m = Mcfg::new(rules.clone(), first.unwrap());
                rec.ev(json!({"op": "same", "res": pmcfg(&PMCFG::from(m))}));
            }
            let m = Mcfg::from_pmcfg(PMCFG { initial, rules });
            rec.ev(json!({"op": "mcfg", "res": opt(m.map(|x| gram(x.destruct())))}));
        }
        "conv" => {
            let l: Lcfrs<(String, BTreeSet<usize>), String, i64> = Mcfg::new(rules, first.expect("HARNESS: initial")).into();
            let nf = l.in_normal_form();
            let (rs, ini) = l.destruct();
            let name = |n: &(String, BTreeSet<usize>)| json!([n.0, n.1]);
            rec.ev(json!({"op": "conv", "res": {"initial": name(&ini), "rules": rs.iter().map(|r| put(r, name)).collect::<Vec<_>>()}}));
            rec.ev(json!({"op": "convnormal", "res": nf}));
        }
        "cfg" => {
            let p = PMCFG { initial, rules };
            let g = catch_unwind(AssertUnwindSafe(|| CFG::from(p))).ok();
            rec.ev(json!({"op": "cfg", "res": opt(g.map(|g| json!({"initial": g.initial, "rules": g.rules.iter().map(|r| json!({"head": r.head, "w": r.weight,
                "comp": r.composition.composition.iter().map(|l| match l { LetterT::Label(n) => json!(["N", n]), LetterT::Value(t) => json!(["T", t]) }).collect::<Vec<_>>()})).collect::<Vec<_>>()})))}));
        }
        _ => panic!("HARNESS: kind"),
    }
}
