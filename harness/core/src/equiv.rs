//! Equivalence relations and their classes.
use crate::common::*;
use crate::gtext::{cps, text};
use rustomata::approximation::equivalence_classes::{EquivalenceClass, EquivalenceRelation};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

trait Sym: Eq + Hash + Clone + Debug + FromStr {
    fn get(v: &Value) -> Self;
    fn put(&self) -> Value;
}
impl Sym for String {
    fn get(v: &Value) -> Self {
        text(v)
    }
    fn put(&self) -> Value {
        cps(self)
    }
}
impl Sym for u32 {
    fn get(v: &Value) -> Self {
        v.as_u64().expect("HARNESS: number") as u32
    }
    fn put(&self) -> Value {
        json!(self)
    }
}

fn class<T: Sym>(v: &Value) -> EquivalenceClass<T, T> {
    let set = if v["dflt"] == json!(true) { None } else { Some(a(v, "members").iter().map(T::get).collect()) };
    EquivalenceClass::from((T::get(&v["label"]), set))
}
fn map<T: Sym>(cs: &[Value]) -> HashMap<T, HashSet<T>> {
    cs.iter().map(|c| (T::get(&c["label"]), a(c, "members").iter().map(T::get).collect())).collect()
}
fn put<T: Sym>(r: &Option<EquivalenceRelation<T, T>>, case: &Value, rec: &Rec) {
    let res: Vec<Value> = r.iter().map(|r| a(case, "queries").iter().map(|q| r.project(&T::get(q)).put()).collect()).collect();
    rec.ev(json!({"op": "rel", "res": res}));
    for other in case["others"].as_array().unwrap_or(&vec![]) {
        let o = catch_unwind(AssertUnwindSafe(|| EquivalenceRelation::<T, T>::from(other.as_array().expect("HARNESS: others").iter().map(class).collect::<Vec<_>>())));
        if let (Some(r), Ok(o)) = (r, o) {
            rec.ev(json!({"op": "eq", "other": other, "res": *r == o, "back": o == *r, "copy": o.clone() == o}));
        }
    }
}
fn relation<T: Sym>(case: &Value, rec: &Rec)
where
    T::Err: Debug,
{
    match s(case, "kind") {
        "text" => put::<T>(&text(&case["text"]).parse().ok(), case, rec),
        "map" => {
            let (m, d) = (map::<T>(a(case, "classes")), T::get(&case["default"]));
            put(&EquivalenceRelation::new_safe(m.clone(), d.clone()).ok(), case, rec);
            put(&catch_unwind(AssertUnwindSafe(|| EquivalenceRelation::new(m, d))).ok(), case, rec)
        }
        "list" => {
            let cs: Vec<EquivalenceClass<T, T>> = a(case, "classes").iter().map(class).collect();
            put(&catch_unwind(AssertUnwindSafe(|| EquivalenceRelation::from(cs))).ok(), case, rec)
        }
        _ => panic!("HARNESS: kind"),
    }
}
pub fn run(case: &Value, rec: &Rec) {
    match s(case, "kind") {
        "class" => {
            let r = text(&case["text"]).parse::<EquivalenceClass<String, String>>().ok();
            rec.ev(json!({"op": "class", "res": opt(r.map(|r| r == class::<String>(&case["cand"])))}))
        }
        _ if s(case, "ty") == "str" => relation::<String>(case, rec),
        _ => relation::<u32>(case, rec),
    }
}
