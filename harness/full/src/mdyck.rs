//! Multiple Dyck languages.
use crate::common::*;
use rustomata::dyck::multiple::MultipleDyckLanguage;
use rustomata::dyck::Bracket;
use rustomata::util::partition::Partition;
use serde_json::{json, Value};

fn word<T: Ord, F: Fn(i64) -> T>(w: &Value, f: &F) -> Vec<Bracket<T>> {
    w.as_array().expect("HARNESS: word").iter().map(|b| {
        let x = f(b[1].as_i64().expect("HARNESS: symbol"));
        if b[0] == "o" { Bracket::Open(x) } else { Bracket::Close(x) }
    }).collect()
}
fn go<T, F, G>(case: &Value, rec: &Rec, f: F, back: G)
where
    T: Ord + Clone + serde::Serialize + serde::de::DeserializeOwned,
    F: Fn(i64) -> T,
    G: Fn(&T) -> i64,
{
    let p = || Partition::new(a(case, "cells").iter().map(|c| ints(c).into_iter().map(&f).collect()).collect()).expect("a partition");
    let sort = ints(&case["sort"]);
    let plain = MultipleDyckLanguage::new(p());
    let read: MultipleDyckLanguage<T> = bincode::deserialize(&bincode::serialize(&plain, bincode::Infinite).expect("to bytes")).expect("from bytes");
    let sorted = if sort.is_empty() { None } else { Some(MultipleDyckLanguage::sorted(p(), |x| sort[back(x) as usize - 1] as usize)) };
    let sread: Option<MultipleDyckLanguage<T>> = sorted.as_ref().map(|l| bincode::deserialize(&bincode::serialize(l, bincode::Infinite).expect("to bytes")).expect("from bytes"));
    for w in a(case, "words") {
        let ws = word(w, &f);
        let mut e = json!({"op": "rec", "w": w, "res": plain.recognize(&ws), "read": read.recognize(&ws)});
        if let (Some(l), Some(r)) = (&sorted, &sread) {
            e["sorted"] = json!(l.recognize(&ws));
            e["sortedread"] = json!(r.recognize(&ws));
        }
        rec.ev(e);
    }
}
pub fn run(case: &Value, rec: &Rec) {
    if case["ty"] == "str" {
        go(case, rec, |x| format!("s{}", x), |x| x[1..].parse().expect("HARNESS: symbol"))
    } else {
        go(case, rec, |x| x, |x| *x)
    }
}
