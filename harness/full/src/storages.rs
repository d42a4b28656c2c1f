//! Pushdowns, tree stacks, their instructions, transitions.
use crate::common::*;
use integeriser::{HashIntegeriser, Integeriser};
use rustomata::automata::push_down_automaton::{PushDown, PushDownInstruction};
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackInstruction};
use rustomata::recognisable::{Configuration, Instruction, Transition};
use rustomata::util::integerisable::Integerisable1;
use rustomata::util::push_down::Pushdown;
use serde_json::{json, Value};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn sgn(o: Option<Ordering>) -> i64 {
    match o {
        None => 7,
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
    }
}
fn matrix<S, R: serde::Serialize, F: Fn(&S, &S) -> R>(regs: &[S], f: F) -> Value {
    json!(regs.iter().map(|x| regs.iter().map(|y| f(x, y)).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn eqs<S: Ord>(regs: &[S]) -> Value {
    json!({"op": "eq", "eq": matrix(regs, |x, y| x == y), "cmp": matrix(regs, |x, y| sgn(Some(x.cmp(y)))), "part": matrix(regs, |x, y| sgn(x.partial_cmp(y)))})
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub fn tree(s: &TreeStack<i64>) -> Value {
    let (t, at) = s.to_tree();
    json!({"t": t.into_iter().map(|(a, v)| json!([a, v])).collect::<Vec<_>>(), "at": at})
}
pub fn tinstr(v: &Value) -> TreeStackInstruction<i64> {
    let n = |k: usize| v[k].as_i64().expect("HARNESS: instr");
    match v[0].as_str().expect("HARNESS: instr") {
        "Up" => TreeStackInstruction::Up { n: n(1) as usize, current_val: n(2), old_val: n(3), new_val: n(4) },
        "Push" => TreeStackInstruction::Push { n: n(1) as usize, current_val: n(2), new_val: n(3) },
        _ => TreeStackInstruction::Down { current_val: n(1), old_val: n(2), new_val: n(3) },
    }
}
/// the same through numbered symbols
fn numbered<S, I>(i: &I, s: &S) -> Vec<S>
where
    S: Integerisable1<I = HashIntegeriser<i64>>,
    I: Integerisable1<I = HashIntegeriser<i64>>,
    I::AInt: Instruction<Storage = S::AInt>,
{
    let mut h = HashIntegeriser::new();
    h.integerise(-77);
    let s1 = s.integerise(&mut h);
    let i1 = i.integerise(&mut h);
    i1.apply(s1).iter().map(|x| S::un_integerise(x, &h)).collect()
}
fn roundtrip<S: Integerisable1<I = HashIntegeriser<i64>>>(s: &S) -> S {
    let mut h = HashIntegeriser::new();
    for k in &[5, 3, 1] {
        h.integerise(*k);
    }
    let x = s.integerise(&mut h);
    S::un_integerise(&x, &h)
}
fn transit<I: Instruction>(st: &Value, i: I, s: &I::Storage, show: &dyn Fn(&I::Storage) -> Value) -> Value
where
    I::Storage: Clone,
{
    let t = Transition { word: ints(&st["tr"]["word"]), weight: i_(&st["tr"], "weight"), instruction: i };
    let c = Configuration { word: ints(&st["word"]), storage: s.clone(), weight: i_(st, "weight") };
    json!(t.apply(&c).iter().map(|c| json!({"word": c.word, "weight": c.weight, "storage": show(&c.storage)})).collect::<Vec<_>>())
}
fn i_(v: &Value, k: &str) -> i64 {
    i(v, k)
}
fn event(st: &Value, extra: Value) -> Value {
    let mut e = st.clone();
    for (k, v) in extra.as_object().expect("HARNESS: event") {
        e[k] = v.clone();
    }
    e
}
fn trees(case: &Value, rec: &Rec) {
    let root: i64 = i(case, "root");
    let mut regs = vec![TreeStack::new(root), TreeStack::new(root), TreeStack::new(root)];
    for st in a(case, "script") {
        let op = s(st, "op");
        if op == "eq" {
            rec.ev(eqs(&regs));
            continue;
        }
        let x = regs[u(st, "from") - 1].clone();
        let called = Cell::new(false);
        let mut extra = json!({});
        let dump = |v: &[TreeStack<i64>]| json!(v.iter().map(tree).collect::<Vec<_>>());
        let r: Option<Result<TreeStack<i64>, TreeStack<i64>>> = match op {
            "push" => Some(x.push(u(st, "n"), i(st, "a"))),
            "pushwith" => Some(x.push_with(u(st, "n"), || { called.set(true); i(st, "a") })),
            "pushnext" => Some(Ok(x.push_next(i(st, "a")))),
            "up" => Some(x.up(u(st, "n"))),
            "down" => Some(x.down()),
            "set" => Some(Ok(x.set(i(st, "a")))),
            "map" => Some(Ok(x.map(&mut |v| v + i(st, "a")))),
            "number" => Some(Ok(roundtrip(&x))),
            "ups" => { extra = json!({"res": dump(&x.ups())}); None }
            "cur" => { extra = json!({"res": x.current_symbol(), "bottom": x.is_at_bottom()}); None }
            "all" => { extra = json!({"res": x.all(&|v| *v <= i(st, "a"))}); None }
            "text" => { extra = json!({"res": x.to_string()}); None }
            "instr" => {
                let ins = tinstr(&st["i"]);
                let q = ins.apply(x.clone());
                extra = json!({"res": dump(&q), "int": dump(&numbered(&ins, &x)), "text": ins.to_string()});
                if let Some(y) = q.into_iter().next() {
                    regs[u(st, "to") - 1] = y;
                }
                extra["regs"] = dump(&regs);
                None
            }
            "trans" => { extra = json!({"res": transit(st, tinstr(&st["tr"]["instr"]), &x, &tree)}); None }
            _ => panic!("HARNESS: op"),
        };
        if let Some(r) = r {
            extra["ok"] = json!(r.is_ok());
            regs[u(st, "to") - 1] = match r { Ok(y) => y, Err(y) => y };
            extra["regs"] = dump(&regs);
        }
        if op == "pushwith" {
            extra["called"] = json!(called.get());
        }
        rec.ev(event(st, extra));
    }
}
fn pds(case: &Value, rec: &Rec) {
    let root: Vec<i64> = ints(&case["root"]);
    let new = || Pushdown::from(root.as_slice());
    let mut regs = vec![new(), new(), new()];
    for st in a(case, "script") {
        let op = s(st, "op");
        if op == "eq" {
            rec.ev(eqs(&regs));
            continue;
        }
        let x = regs[u(st, "from") - 1].clone();
        let mut extra = json!({});
        let r = match op {
            "push" => Some(Ok(x.push(i(st, "a")))),
            "set" => Some(x.set(i(st, "a"))),
            "pop" => Some(x.pop().map(|(y, a)| { extra["res"] = json!([a]); y })),
            "map" => Some(Ok(x.map(&mut |v| v + i(st, "a")))),
            "number" => Some(Ok(roundtrip(&x))),
            "read" => {
                let into: Vec<i64> = x.clone().into();
                extra = json!({"peek": opt(x.peek()), "peekref": opt(x.peek_ref().cloned()), "empty": x.is_empty(), "vec": x.to_vec(), "iter": x.iter().collect::<Vec<_>>(),
                    "into": into, "back": Pushdown::from(x.to_vec().as_slice()).to_vec()});
                None
            }
            "new" => { extra = json!({"res": Pushdown::<i64>::new().to_vec(), "default": Pushdown::<i64>::default().to_vec(), "isempty": Pushdown::<i64>::new().is_empty()}); None }
            _ => panic!("HARNESS: op"),
        };
        if let Some(r) = r {
            extra["ok"] = json!(r.is_ok());
            regs[u(st, "to") - 1] = match r { Ok(y) => y, Err(y) => y };
            extra["regs"] = json!(regs.iter().map(|r| r.to_vec()).collect::<Vec<_>>());
        }
        rec.ev(event(st, extra));
    }
}
fn pushes(case: &Value, rec: &Rec) {
    let root: Vec<i64> = ints(&case["root"]);
    let mut regs = vec![PushDown::from(root.clone()), PushDown::from(root.clone()), PushDown::from(root)];
    let list = |p: &PushDown<i64>| json!(p.iter().collect::<Vec<_>>());
    let dump = |v: &[PushDown<i64>]| json!(v.iter().map(|p| list(p)).collect::<Vec<_>>());
    for st in a(case, "script") {
        let op = s(st, "op");
        if op == "eq" {
            let mut e = eqs(&regs);
            e["hash"] = matrix(&regs, |x, y| hash(x) == hash(y));
            rec.ev(e);
            continue;
        }
        let x = regs[u(st, "from") - 1].clone();
        let mut extra = json!({});
        let ins = |v: &Value| PushDownInstruction::Replace { current_val: ints(&v["old"]), new_val: ints(&v["new"]) };
        let r = match op {
            "replace" => Some(x.replace(&ints(&st["old"]), &ints(&st["new"]))),
            "map" => Some(Ok(x.map(&|v| v + i(st, "a")))),
            "number" => Some(Ok(roundtrip(&x))),
            "instr" => {
                let ins = ins(st);
                let q = ins.apply(x.clone());
                extra = json!({"res": dump(&q), "int": dump(&numbered(&ins, &x)), "text": ins.to_string()});
                if let Some(y) = q.into_iter().next() {
                    regs[u(st, "to") - 1] = y;
                }
                extra["regs"] = dump(&regs);
                None
            }
            "read" => {
                extra = json!({"bottom": x.is_bottom(), "iter": list(&x)});
                if x.iter().next().is_some() {
                    extra["cur"] = json!(x.current_symbol());
                    extra["empty"] = json!(x.empty());
                    extra["text"] = json!(x.to_string());
                }
                None
            }
            "new" => { extra = json!({"res": list(&PushDown::new(i(st, "a"), i(st, "b")))}); None }
            "trans" => { extra = json!({"res": transit(st, ins(&st["tr"]), &x, &list)}); None }
            _ => panic!("HARNESS: op"),
        };
        if let Some(r) = r {
            extra["ok"] = json!(r.is_ok());
            regs[u(st, "to") - 1] = match r { Ok(y) => y, Err(y) => y };
            extra["regs"] = dump(&regs);
        }
        rec.ev(event(st, extra));
    }
}
pub fn run(case: &Value, rec: &Rec) {
    match s(case, "kind") {
        "tree" => trees(case, rec),
        "pd" => pds(case, rec),
        _ => pushes(case, rec),
    }
}
