//! Derivation trees: evaluation, separation of terminals, NEGRA export.
use crate::common::*;
use crate::gtext::{comp, cps, text};
use rustomata::grammars::pmcfg::negra::{meets_negra_criteria, noparse, to_negra, DumpMode};
use rustomata::grammars::pmcfg::*;
use rustomata::util::tree::GornTree;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Rule = PMCFGRule<String, String, i64>;
pub fn composition(v: &Value) -> Composition<String> {
    let c = v.as_array().expect("HARNESS: comp").iter().map(|x| {
        x.as_array()
            .expect("HARNESS: comp")
            .iter()
            .map(|y| match y[0].as_str() {
                Some("T") => VarT::T(text(&y[1])),
                Some("V") => VarT::Var(y[1].as_u64().expect("HARNESS: var") as usize, y[2].as_u64().expect("HARNESS: var") as usize),
                _ => panic!("HARNESS: item"),
            })
            .collect::<Vec<_>>()
    });
    Composition::from(c.collect::<Vec<_>>())
}
fn tree(v: &Value) -> GornTree<Rule> {
    v.as_array()
        .expect("HARNESS: tree")
        .iter()
        .map(|p| {
            let r = &p[1];
            let rule = PMCFGRule {
                head: text(&r["head"]),
                tail: a(r, "tail").iter().map(text).collect(),
                composition: composition(&r["comp"]),
                weight: i(r, "w"),
            };
            (usizes(&p[0]), rule)
        })
        .collect()
}
fn put(t: &GornTree<Rule>) -> Value {
    let nodes = t.into_iter().map(|(k, r)| {
        json!([k, {"head": cps(&r.head), "tail": r.tail.iter().map(|x| cps(x)).collect::<Vec<_>>(), "comp": comp(&r.composition), "w": r.weight}])
    });
    json!(nodes.collect::<Vec<_>>())
}
/// [] if the function refuses
fn refusable<R, F: FnOnce() -> R>(f: F, put: fn(&R) -> Value) -> Value {
    opt(catch_unwind(AssertUnwindSafe(f)).ok().map(|x| put(&x)))
}
fn val(c: &Composition<String>) -> Value {
    comp(c)
}
pub fn run(case: &Value, rec: &Rec) {
    match s(case, "kind") {
        "eval" => {
            let t = tree(&case["tree"]);
            let (terms, heads) = to_term(&t);
            rec.ev(json!({"op": "term",
                "comps": (&terms).into_iter().map(|(k, c)| json!([k, comp(c)])).collect::<Vec<_>>(),
                "heads": (&heads).into_iter().map(|(k, h)| json!([k, cps(h)])).collect::<Vec<_>>()}));
            rec.ev(json!({"op": "eval", "at": [], "res": refusable(|| evaluate(&terms), val)}));
            for (k, _) in &terms {
                rec.ev(json!({"op": "eval", "at": k, "res": refusable(|| evaluate_pos(&terms, k.clone()), val)}));
            }
        }
        "sep" => {
            let t = tree(&case["tree"]);
            let q = separate_terminal_rules(&t);
            rec.ev(json!({"op": "sep", "tree": put(&q), "orig": put(&t)}));
            rec.ev(json!({"op": "criteria", "before": meets_negra_criteria(&t), "after": meets_negra_criteria(&q)}));
            rec.ev(json!({"op": "sepeval", "res": refusable(|| evaluate(&to_term(&q).0), val)}));
        }
        "negra" => {
            let mut t = tree(&case["tree"]);
            if case["sep"] == json!(true) {
                t = separate_terminal_rules(&t);
                rec.ev(json!({"op": "sep", "tree": put(&t), "orig": case["tree"]}));
            }
            let mode = || match case["tokens"].as_array() {
                Some(ts) if case["given"] == json!(true) => DumpMode::FromPos(ts.iter().map(text).collect()),
                _ => DumpMode::Default,
            };
            rec.ev(json!({"op": "negra", "text": refusable(|| to_negra(&t, u(case, "sid"), mode()), |x| cps(x))}));
        }
        "noparse" => {
            let words: Vec<String> = a(case, "words").iter().map(text).collect();
            let mode = match case["given"] == json!(true) {
                true => DumpMode::FromPos(a(case, "tokens").iter().map(text).collect()),
                false => DumpMode::Default,
            };
            rec.ev(json!({"op": "noparse", "text": cps(&noparse(&words, u(case, "sid"), mode))}));
        }
        _ => panic!("HARNESS: kind"),
    }
}
/// a rule whose symbols are plain strings
pub fn names_rule(r: &Value) -> Rule {
    let st = |x: &Value| x.as_str().expect("HARNESS: name").to_string();
    let c = a(r, "comp").iter().map(|x| {
        x.as_array()
            .expect("HARNESS: comp")
            .iter()
            .map(|y| match y[0].as_str() {
                Some("T") => VarT::T(st(&y[1])),
                Some("V") => VarT::Var(y[1].as_u64().expect("HARNESS: var") as usize, y[2].as_u64().expect("HARNESS: var") as usize),
                _ => panic!("HARNESS: item"),
            })
            .collect::<Vec<_>>()
    });
    PMCFGRule { head: st(&r["head"]), tail: strings(&r["tail"]), composition: Composition::from(c.collect::<Vec<_>>()), weight: i(r, "w") }
}
