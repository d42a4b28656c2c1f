//! Grammars of treebank tools: discodop and rparse.
use crate::common::*;
use crate::gtext::{clamp, cps, text, Wt};
use log_domain::LogDomain;
use rustomata::grammars::lcfrs::from_discodop::{DiscoDopGrammar, DiscoLexer};
use rustomata::grammars::lcfrs::from_rparse::verif_read_rparse;
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::VarT;
use serde_json::{json, Value};
use std::fmt::Debug;
use std::ops::{AddAssign, Div, DivAssign};

fn put<T, W: Wt, F: Fn(&T) -> Value>(g: Lcfrs<String, T, W>, sym: F) -> Value {
    let (rules, initial) = g.destruct();
    let rs = rules.iter().map(|r| {
        let c: Vec<Vec<Value>> = r
            .composition
            .iter()
            .map(|x| {
                x.iter()
                    .map(|v| match v {
                        VarT::Var(i, j) => json!(["V", i, j]),
                        VarT::T(t) => json!(["T", sym(t)]),
                    })
                    .collect()
            })
            .collect();
        let w = r.weight.f();
        json!({"head": cps(&r.head), "tail": r.tail.iter().map(|x| cps(x)).collect::<Vec<_>>(), "comp": c, "w8": clamp((w * 1e8).round()), "m": clamp((w * 1e6).round())})
    });
    let rs: Vec<Value> = rs.collect();
    json!({"initial": cps(&initial), "rules": rs})
}
fn slim(mut v: Value, drop: &str) -> Value {
    for r in v["rules"].as_array_mut().unwrap() {
        r.as_object_mut().unwrap().remove(drop);
    }
    v
}
fn disco<W>(case: &Value, rec: &Rec)
where
    W: Wt + Div<Output = W> + DivAssign + AddAssign + Copy,
    W::Err: Debug,
{
    let read = || text(&case["text"]).parse::<DiscoDopGrammar<String, (), W>>();
    let g = read();
    rec.ev(json!({"op": "cons", "ok": g.is_ok()}));
    let lex = a(case, "lex").get(0).map(|l| text(l).parse::<DiscoLexer<String, String, W>>());
    if let Some(ref l) = lex {
        rec.ev(json!({"op": "lex", "ok": l.is_ok()}));
    }
    let g = match g {
        Ok(g) => g,
        Err(_) => return,
    };
    match lex {
        Some(Ok(l)) => {
            let l: Lcfrs<String, String, W> = read().ok().expect("reads once").with_lexer(l).into();
            rec.ev(json!({"op": "gram", "res": slim(put(l, |t| cps(t)), "m")}));
        }
        Some(_) => {}
        None => {
            let l: Lcfrs<String, (), W> = read().ok().expect("reads once").into();
            rec.ev(json!({"op": "gram", "res": slim(put(l, |_| json!("unit")), "m")}));
        }
    }
    if case["dflt"] == json!(true) {
        let l: Lcfrs<String, String, W> = g.with_default_lexer().into();
        rec.ev(json!({"op": "dgram", "res": slim(put(l, |t| cps(t)), "m")}));
    }
}
pub fn run(case: &Value, rec: &Rec) {
    match s(case, "kind") {
        "disco" if s(case, "wt") == "f64" => disco::<f64>(case, rec),
        "disco" => disco::<LogDomain<f64>>(case, rec),
        "rparse" => {
            let r: Option<Lcfrs<String, (), f64>> = verif_read_rparse(&text(&case["text"]));
            rec.ev(json!({"op": "rparse", "res": opt(r.map(|l| slim(put(l, |_| json!("unit")), "w8")))}));
        }
        _ => panic!("HARNESS: kind"),
    }
}
