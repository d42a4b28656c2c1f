//! Reading and printing grammar texts.
use crate::common::*;
use log_domain::LogDomain;
use num_traits::One;
use rustomata::grammars::cfg::{CFGRule, LetterT, CFG};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
use serde_json::{json, Value};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::str::FromStr;

pub fn text(v: &Value) -> String {
    ints(v).into_iter().map(|c| std::char::from_u32(c as u32).expect("HARNESS: code point")).collect()
}
pub fn cps(s: &str) -> Value {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}

pub trait Symb: FromStr + Clone + Display + Eq + Hash + Ord {}
impl<X: FromStr + Clone + Display + Eq + Hash + Ord> Symb for X {}

pub trait Wt: FromStr + One + Clone + Display {
    fn f(&self) -> f64;
    fn ln(&self) -> f64;
}
impl Wt for f64 {
    fn f(&self) -> f64 {
        *self
    }
    fn ln(&self) -> f64 {
        f64::ln(*self)
    }
}
impl Wt for LogDomain<f64> {
    fn f(&self) -> f64 {
        self.value()
    }
    fn ln(&self) -> f64 {
        self.ln()
    }
}
pub fn clamp(x: f64) -> i64 {
    if x.is_nan() {
        -2000000002
    } else if x > 2.0e9 {
        2000000001
    } else if x < -2.0e9 {
        -2000000001
    } else {
        x.round() as i64
    }
}
/// m: millionths; l: natural logarithm in 1/10000; b: the bits
pub fn weight<W: Wt>(w: &W) -> Value {
    json!({"m": clamp(w.f() * 1e6), "l": clamp(w.ln() * 1e4), "b": format!("{:016x}", w.f().to_bits())})
}
fn sym<T: Display>(t: &T) -> Value {
    cps(&t.to_string())
}
fn ix(i: usize) -> i64 {
    if i > 1_000_000_000 {
        -1
    } else {
        i as i64
    }
}
pub fn comp<T: Display>(c: &Composition<T>) -> Value {
    json!(c
        .iter()
        .map(|x| x
            .iter()
            .map(|v| match v {
                VarT::Var(i, j) => json!(["V", ix(*i), ix(*j)]),
                VarT::T(t) => json!(["T", sym(t)]),
            })
            .collect::<Vec<_>>())
        .collect::<Vec<_>>())
}
pub fn prule<N: Display, T: Display, W: Wt>(r: &PMCFGRule<N, T, W>) -> Value {
    json!({"head": sym(&r.head), "tail": r.tail.iter().map(sym).collect::<Vec<_>>(), "comp": comp(&r.composition), "w": weight(&r.weight)})
}
pub fn crule<N: Display, T: Display, W: Wt>(r: &CFGRule<N, T, W>) -> Value {
    let c = r.composition.composition.iter().map(|l| match l {
        LetterT::Label(n) => json!(["N", sym(n)]),
        LetterT::Value(t) => json!(["T", sym(t)]),
    });
    json!({"head": sym(&r.head), "tail": [], "comp": c.collect::<Vec<_>>(), "w": weight(&r.weight)})
}
fn gram<N: Display>(initial: &[N], rules: Vec<Value>) -> Value {
    json!({"initial": initial.iter().map(sym).collect::<Vec<_>>(), "rules": rules})
}

/// Reads the text as kind; gives the observation and the printed form.
fn read<N: Symb, T: Symb, W: Wt>(kind: &str, t: &str) -> Option<(Value, String)>
where
    N::Err: Debug,
    T::Err: Debug,
    W::Err: Debug,
{
    match kind {
        "cfg" => {
            let g: CFG<N, T, W> = t.parse().ok()?;
            let o = gram(&g.initial, g.rules.iter().map(crule).collect());
            // a CFG as a whole has no printed form; its rules have
            let ini: Vec<String> = g.initial.iter().map(|n| format!("\"{}\"", n)).collect();
            let mut p = format!("initial: [{}]\n", ini.join(", "));
            for r in &g.rules {
                p.push_str(&format!("{}\n", r));
            }
            Some((o, p))
        }
        "pmcfg" => {
            let g: PMCFG<N, T, W> = t.parse().ok()?;
            Some((gram(&g.initial, g.rules.iter().map(prule).collect()), g.to_string()))
        }
        "lcfrs" => {
            let g: Lcfrs<N, T, W> = t.parse().ok()?;
            let p = g.to_string();
            let (rules, init) = g.destruct();
            Some((gram(&[init], rules.iter().map(prule).collect()), p))
        }
        "cfgrule" => {
            let r: CFGRule<N, T, W> = t.parse().ok()?;
            Some((gram::<N>(&[], vec![crule(&r)]), r.to_string()))
        }
        "pmcfgrule" => {
            let r: PMCFGRule<N, T, W> = t.parse().ok()?;
            Some((gram::<N>(&[], vec![prule(&r)]), r.to_string()))
        }
        _ => panic!("HARNESS: kind"),
    }
}
fn go<N: Symb, T: Symb, W: Wt>(case: &Value, rec: &Rec)
where
    N::Err: Debug,
    T::Err: Debug,
    W::Err: Debug,
{
    let kind = s(case, "kind");
    let t = text(&case["text"]);
    let r = read::<N, T, W>(kind, &t);
    rec.ev(json!({"op": "read", "res": opt(r.as_ref().map(|x| x.0.clone()))}));
    if let Some((_, p)) = r {
        if case["print"] == json!(true) {
            rec.ev(json!({"op": "print", "text": cps(&p)}));
            let q = read::<N, T, W>(kind, &p);
            rec.ev(json!({"op": "reread", "res": opt(q.map(|x| x.0))}));
        }
    }
}
pub fn run(case: &Value, rec: &Rec) {
    match (s(case, "sym"), s(case, "wt")) {
        ("str", "f64") => go::<String, String, f64>(case, rec),
        ("str", _) => go::<String, String, LogDomain<f64>>(case, rec),
        (_, "f64") => go::<char, char, f64>(case, rec),
        _ => go::<char, char, LogDomain<f64>>(case, rec),
    }
}
