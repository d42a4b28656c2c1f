//! Chomsky-Schuetzenberger parsing.
use crate::common::*;
use log_domain::LogDomain;
use rustomata::grammars::lcfrs::csparsing::{CSRepresentation, DebugResult};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT};
use rustomata::util::tree::GornTree;
use serde_json::{json, Value};

type W = LogDomain<f64>;
type R = PMCFGRule<String, i64, W>;

fn weight(e: i64) -> W {
    LogDomain::new((2f64).powi(-(e as i32))).expect("HARNESS: weight")
}
fn rule(v: &Value) -> R {
    let comp = a(v, "comp")
        .iter()
        .map(|c| {
            c.as_array()
                .expect("HARNESS: component")
                .iter()
                .map(|x| match x[0].as_str() {
                    Some("T") => VarT::T(x[1].as_i64().expect("HARNESS: letter")),
                    _ => VarT::Var(x[1].as_u64().expect("HARNESS: var") as usize, x[2].as_u64().expect("HARNESS: var") as usize),
                })
                .collect()
        })
        .collect::<Vec<Vec<_>>>();
    PMCFGRule { head: s(v, "head").to_string(), tail: strings(&v["tail"]), composition: Composition { composition: comp }, weight: weight(i(v, "e")) }
}
fn show(r: &R) -> Value {
    let e = -r.weight.ln() / std::f64::consts::LN_2;
    let comp: Vec<Vec<Value>> = r
        .composition
        .composition
        .iter()
        .map(|c| {
            c.iter()
                .map(|x| match *x {
                    VarT::T(t) => json!(["T", t]),
                    VarT::Var(i, j) => json!(["V", i, j]),
                })
                .collect()
        })
        .collect();
    json!({"head": r.head, "tail": r.tail, "comp": comp, "e": if e.is_finite() { e.round() as i64 } else { -1 }})
}
fn tree(t: &GornTree<R>) -> Value {
    json!(t.into_iter().map(|(p, r)| json!([p, show(r)])).collect::<Vec<_>>())
}
fn tree_ref(t: &GornTree<&R>) -> Value {
    json!(t.into_iter().map(|(p, r)| json!([p, show(r)])).collect::<Vec<_>>())
}

pub fn run(case: &Value, rec: &Rec) {
    let rules: Vec<R> = a(case, "rules").iter().map(rule).collect();
    let g = Lcfrs::new(rules, s(case, "init").to_string()).expect("HARNESS: no LCFRS");
    let mut cs: CSRepresentation<String, i64, W> = CSRepresentation::new(g, u(case, "est"));
    for st in a(case, "steps") {
        let mut ev = st.clone();
        if s(st, "op") == "reload" {
            let bytes = bincode::serialize(&cs, bincode::Infinite).expect("serialize");
            cs = bincode::deserialize(&bytes).expect("deserialize");
            rec.ev(ev);
            continue;
        }
        let word = ints(&st["word"]);
        let mut b = cs.build_generator();
        if i(st, "beam") >= 0 {
            b.set_beam(u(st, "beam"));
        }
        if i(st, "cand") >= 0 {
            b.set_candidates(u(st, "cand"));
        }
        if i(st, "delta") >= 0 {
            b.set_delta(weight(i(st, "delta")));
        }
        match s(st, "op") {
            "parse" => {
                let lim = u(st, "lim");
                let (mut it, fall) = b.with_fallback(&word);
                let mut out = Vec::new();
                let mut end = false;
                while out.len() < lim {
                    match it.next() {
                        Some(t) => out.push(tree_ref(&t)),
                        None => {
                            end = true;
                            break;
                        }
                    }
                }
                ev["out"] = json!(out);
                ev["end"] = json!(end);
                ev["fall"] = json!(fall.iter().map(tree).collect::<Vec<_>>());
            }
            "debug" => {
                let (nrules, len, _, res) = b.debug(&word);
                let (kind, t, n) = match res {
                    DebugResult::Parse(t, n) => ("parse", tree(&t), n),
                    DebugResult::Fallback(t, n) => ("fallback", tree(&t), n),
                    DebugResult::Noparse => ("noparse", json!([]), 0),
                };
                ev["nrules"] = json!(nrules);
                ev["len"] = json!(len);
                ev["res"] = json!(kind);
                ev["tree"] = t;
                ev["n"] = json!(n);
            }
            _ => panic!("HARNESS: op"),
        }
        rec.ev(ev);
    }
}
