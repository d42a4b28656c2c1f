//! Reading and printing texts of automata.
use crate::common::*;
use log_domain::LogDomain;
use num_traits::One;
use rustomata::automata::finite_state_automaton::{FiniteStateAutomaton, FiniteStateInstruction};
use rustomata::automata::tree_stack_automaton::{TreeStackAutomaton, TreeStackInstruction};
use rustomata::recognisable::automaton::Automaton;
use rustomata::recognisable::Transition;
use serde_json::{json, Value};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::ops::{Mul, MulAssign};
use std::str::FromStr;

fn text(v: &Value) -> String {
    ints(v).into_iter().map(|c| std::char::from_u32(c as u32).expect("HARNESS: code point")).collect()
}
fn cps(s: &str) -> Value {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn clamp(x: f64) -> i64 {
    if x.is_nan() {
        -2000000002
    } else if x > 2.0e9 {
        2000000001
    } else if x < -2.0e9 {
        -2000000001
    } else {
        x.round() as i64
    }
}
trait Symb: FromStr + Clone + Display + Debug + Eq + Hash + Ord {}
impl<X: FromStr + Clone + Display + Debug + Eq + Hash + Ord> Symb for X {}
trait Wt: FromStr + One + Mul<Output = Self> + MulAssign + Copy + Eq + Ord + Display {
    /// m: millionths; l: natural logarithm in 1/10000
    fn show(&self) -> Value;
}
impl Wt for LogDomain<f64> {
    fn show(&self) -> Value {
        json!({"m": clamp(self.value() * 1e6), "l": clamp(self.ln() * 1e4)})
    }
}
impl Wt for usize {
    fn show(&self) -> Value {
        json!({"m": clamp(*self as f64 * 1e6), "l": 0})
    }
}
fn num(n: usize) -> i64 {
    if n > 1_000_000_000 {
        -1
    } else {
        n as i64
    }
}
fn tsi<A: Display>(i: &TreeStackInstruction<A>) -> Value {
    let p = |a: &A| cps(&a.to_string());
    match i {
        TreeStackInstruction::Up { n, current_val, old_val, new_val } => json!(["Up", num(*n), p(current_val), p(old_val), p(new_val)]),
        TreeStackInstruction::Push { n, current_val, new_val } => json!(["Push", num(*n), p(current_val), p(new_val)]),
        TreeStackInstruction::Down { current_val, old_val, new_val } => json!(["Down", p(current_val), p(old_val), p(new_val)]),
    }
}
/// the fields are private, but the printed form shows them
fn fsi<A: Symb>(i: &FiniteStateInstruction<A>) -> Value {
    let t = i.to_string();
    let t = t.strip_prefix('(').and_then(|t| t.strip_suffix(')')).unwrap_or(&t);
    // states contain no white space, as instructions are read word by word
    let q: Vec<&str> = t.split(' ').collect();
    json!(["F", cps(q[0]), cps(q.get(2).unwrap_or(&"?"))])
}
fn tr<I, W: Wt>(t: &Transition<I, String, W>, ins: &dyn Fn(&I) -> Value) -> Value {
    json!({"word": t.word.iter().map(|x| cps(x)).collect::<Vec<_>>(), "ins": ins(&t.instruction), "w": t.weight.show()})
}

fn read<A: Symb, W: Wt>(what: &str, form: &str, t: &str) -> Option<(Value, String)>
where
    A::Err: Debug,
    W::Err: Debug,
{
    let none: Vec<Value> = Vec::new();
    match (what, form) {
        ("aut", "tsa") => {
            let a: TreeStackAutomaton<A, String, W> = t.parse().ok()?;
            let trs: Vec<_> = Automaton::transitions(&a).map(|t| tr(&t, &tsi)).collect();
            Some((json!({"ini": [cps(&Automaton::initial(&a).current_symbol().to_string())], "trs": trs}), a.to_string()))
        }
        ("aut", "fsa") => {
            let a: FiniteStateAutomaton<A, String, W> = t.parse().ok()?;
            let trs: Vec<_> = Automaton::transitions(&a).map(|t| tr(&t, &fsi)).collect();
            Some((json!({"ini": [cps(&Automaton::initial(&a).to_string())], "trs": trs}), a.to_string()))
        }
        ("trans", "tsa") => {
            let r: Transition<TreeStackInstruction<A>, String, W> = t.parse().ok()?;
            Some((json!({"ini": none, "trs": [tr(&r, &tsi)]}), r.to_string()))
        }
        ("trans", "fsa") => {
            let r: Transition<FiniteStateInstruction<A>, String, W> = t.parse().ok()?;
            Some((json!({"ini": none, "trs": [tr(&r, &fsi)]}), r.to_string()))
        }
        ("instr", "tsa") => {
            let r: TreeStackInstruction<A> = t.parse().ok()?;
            let p = r.to_string();
            Some((json!({"ini": none, "trs": [{"word": [], "ins": tsi(&r), "w": W::one().show()}]}), inner(&p)))
        }
        ("instr", "fsa") => {
            let r: FiniteStateInstruction<A> = t.parse().ok()?;
            let p = r.to_string();
            Some((json!({"ini": none, "trs": [{"word": [], "ins": fsi(&r), "w": W::one().show()}]}), inner(&p)))
        }
        _ => panic!("HARNESS: kind"),
    }
}
/// an instruction is printed in parentheses, but read without
fn inner(p: &str) -> String {
    p.strip_prefix('(').and_then(|t| t.strip_suffix(')')).unwrap_or(p).to_string()
}
fn go<A: Symb, W: Wt>(case: &Value, rec: &Rec)
where
    A::Err: Debug,
    W::Err: Debug,
{
    let (what, form) = (s(case, "what"), s(case, "form"));
    let t = text(&case["text"]);
    let r = read::<A, W>(what, form, &t);
    rec.ev(json!({"op": "read", "res": opt(r.as_ref().map(|x| x.0.clone()))}));
    if let Some((_, p)) = r {
        if case["print"] == json!(true) {
            rec.ev(json!({"op": "print", "text": cps(&p)}));
            let q = read::<A, W>(what, form, &p);
            rec.ev(json!({"op": "reread", "res": opt(q.map(|x| x.0))}));
        }
    }
}
pub fn run(case: &Value, rec: &Rec) {
    match (s(case, "sym"), s(case, "wt")) {
        ("str", "log") => go::<String, LogDomain<f64>>(case, rec),
        ("str", _) => go::<String, usize>(case, rec),
        (_, "log") => go::<usize, LogDomain<f64>>(case, rec),
        _ => go::<usize, usize>(case, rec),
    }
}
