//! Rules as values: equality, hash, order, dictionaries, renaming, serialisation.
use crate::common::*;
use rustomata::grammars::cfg::{CFGComposition, CFGRule, LetterT, CFG};
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

type P = PMCFGRule<i64, i64, i64>;
type C = CFGRule<i64, i64, i64>;
trait Rule: Clone + Eq + Hash + Ord {
    fn get(v: &Value) -> Self;
    fn put(&self) -> Value;
}
fn n(v: &Value, k: usize) -> i64 {
    v[k].as_i64().expect("HARNESS: letter")
}
fn pcomp(v: &Value) -> Vec<Vec<VarT<i64>>> {
    let letter = |x: &Value| if x[0] == "V" { VarT::Var(n(x, 1) as usize, n(x, 2) as usize) } else { VarT::T(n(x, 1)) };
    v.as_array().expect("HARNESS: comp").iter().map(|c| c.as_array().expect("HARNESS: comp").iter().map(letter).collect()).collect()
}
fn component(c: &Vec<VarT<i64>>) -> Value {
    json!(c.iter().map(|x| match x { VarT::Var(i, j) => json!(["V", i, j]), VarT::T(t) => json!(["T", t]) }).collect::<Vec<_>>())
}
impl Rule for P {
    fn get(v: &Value) -> Self {
        PMCFGRule { head: i(v, "head"), tail: ints(&v["tail"]), composition: Composition { composition: pcomp(&v["comp"]) }, weight: i(v, "w") }
    }
    fn put(&self) -> Value {
        json!({"head": self.head, "tail": self.tail, "comp": self.composition.composition.iter().map(component).collect::<Vec<_>>(), "w": self.weight})
    }
}
impl Rule for C {
    fn get(v: &Value) -> Self {
        let comp: Vec<_> = a(v, "comp").iter().map(|x| if x[0] == "N" { LetterT::Label(n(x, 1)) } else { LetterT::Value(n(x, 1)) }).collect();
        CFGRule { head: i(v, "head"), composition: CFGComposition::from(comp), weight: i(v, "w") }
    }
    fn put(&self) -> Value {
        let comp: Vec<_> = self.composition.composition.iter().map(|x| match x { LetterT::Label(n) => json!(["N", n]), LetterT::Value(t) => json!(["T", t]) }).collect();
        json!({"head": self.head, "tail": [], "comp": comp, "w": self.weight})
    }
}
fn sgn(o: Ordering) -> i64 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn values<R: Rule>(case: &Value, rec: &Rec) -> Vec<R> {
    let rs: Vec<R> = a(case, "rules").iter().map(R::get).collect();
    let mut d: HashMap<R, i64> = HashMap::new();
    for st in a(case, "script") {
        let r = R::get(&st[1]);
        match st[0].as_str() {
            Some("put") => rec.ev(json!({"op": "put", "rule": st[1], "val": st[2], "res": opt(d.insert(r, n(st, 2)))})),
            Some("get") => rec.ev(json!({"op": "get", "rule": st[1], "res": opt(d.get(&r).cloned())})),
            _ => rec.ev(json!({"op": "del", "rule": st[1], "res": opt(d.remove(&r))})),
        }
        rec.ev(json!({"op": "len", "res": d.len()}));
    }
    for (i, r) in rs.iter().enumerate() {
        for (j, s) in rs.iter().enumerate() {
            let part = r.partial_cmp(s).map_or(7, sgn);
            rec.ev(json!({"op": "cmp", "i": i + 1, "j": j + 1, "eq": r == s, "ne": r != s, "hash": hash(r) == hash(s), "ord": sgn(r.cmp(s)), "part": part}));
        }
    }
    rec.ev(json!({"op": "set", "res": rs.iter().cloned().collect::<HashSet<R>>().len()}));
    let mut sorted = rs.clone();
    sorted.sort();
    rec.ev(json!({"op": "sort", "res": sorted.iter().map(R::put).collect::<Vec<_>>()}));
    rec.ev(json!({"op": "clone", "res": rs.clone().iter().map(R::put).collect::<Vec<_>>()}));
    rs
}
fn gram(rs: usize, rec: &Rec, same: &dyn Fn(&[i64], &[usize], &[i64], &[usize]) -> bool) {
    if rs >= 2 {
        for (a, x, b, y) in &[
            (vec![1], vec![1, 2], vec![1], vec![1, 2]),
            (vec![1], vec![1], vec![1], vec![2]),
            (vec![1], vec![1, 2], vec![1], vec![2, 1]),
            (vec![1], vec![1, 2], vec![1], vec![1]),
            (vec![1], vec![2, 2], vec![2], vec![2, 2]),
            (vec![1, 2], vec![], vec![2, 1], vec![]),
            (vec![], vec![], vec![], vec![]),
        ] {
            rec.ev(json!({"op": "gram", "a": a, "x": x, "b": b, "y": y, "res": same(a, x, b, y)}));
        }
    }
}
pub fn run(case: &Value, rec: &Rec) {
    if s(case, "kind") == "cfg" {
        let rs = values::<C>(case, rec);
        gram(rs.len(), rec, &|a, x, b, y| {
            let g = |n: &[i64], k: &[usize]| CFG { initial: n.to_vec(), rules: k.iter().map(|i| rs[i - 1].clone()).collect::<Vec<_>>() };
            g(a, x) == g(b, y)
        });
        return;
    }
    let rs = values::<P>(case, rec);
    gram(rs.len(), rec, &|a, x, b, y| {
        let g = |n: &[i64], k: &[usize]| PMCFG { initial: n.to_vec(), rules: k.iter().map(|i| rs[i - 1].clone()).collect::<Vec<_>>() };
        g(a, x) == g(b, y)
    });
    let f: HashMap<i64, i64> = a(case, "map").iter().map(|p| (n(p, 0), n(p, 1))).collect();
    for (k, r) in rs.iter().enumerate() {
        let i = k + 1;
        rec.ev(json!({"op": "map", "i": i, "res": r.map_nonterminals(|x| *f.get(x).unwrap_or(x)).put()}));
        let js: P = serde_json::from_str(&serde_json::to_string(r).expect("to json")).expect("from json");
        rec.ev(json!({"op": "json", "i": i, "res": js.put()}));
        let bin: P = bincode::deserialize(&bincode::serialize(r, bincode::Infinite).expect("to bytes")).expect("from bytes");
        rec.ev(json!({"op": "bin", "i": i, "res": bin.put()}));
        let c = &r.composition;
        let list = |v: Vec<Vec<VarT<i64>>>| v.iter().map(component).collect::<Vec<_>>();
        let mut m = c.clone();
        for x in &mut m {
            x.push(VarT::T(0));
        }
        rec.ev(json!({"op": "comp", "i": i, "len": c.len(), "index": list((0..c.len()).map(|k| c[k].clone()).collect()), "iter": list(c.iter().cloned().collect()),
            "owned": list(c.clone().into_iter().collect()), "from": list(Composition::from(c.composition.clone()).composition), "mutated": list(m.composition)}));
        let ls: Vec<&VarT<i64>> = c.iter().flatten().collect();
        rec.ev(json!({"op": "letters", "i": i, "isvar": ls.iter().map(|x| x.is_var()).collect::<Vec<_>>(), "ist": ls.iter().map(|x| x.is_t()).collect::<Vec<_>>(),
            "un": ls.iter().map(|x| if let VarT::Var(..) = x { let (i, j) = x.unwrap_var(); json!([i, j]) } else { json!([x.unwrap_t()]) }).collect::<Vec<_>>()}));
    }
}
