//! Configurations, reversed weights, factorisation.
use crate::common::*;
use log_domain::LogDomain;
use num_traits::{One, Zero};
use rustomata::recognisable::configuration::Configuration;
use rustomata::util::factorizable::Factorizable;
use rustomata::util::reverse::Reverse;
use search::agenda::weighted::{Weighted, WeightedItem};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BinaryHeap, HashSet};
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::ops::*;

trait Num: Clone + PartialOrd + Debug {
    fn get(n: i64) -> Self;
    fn put(&self) -> i64;
}
impl Num for i64 {
    fn get(n: i64) -> Self {
        n
    }
    fn put(&self) -> i64 {
        *self
    }
}
impl Num for f64 {
    fn get(n: i64) -> Self {
        n as f64
    }
    fn put(&self) -> i64 {
        crate::gtext::clamp(*self)
    }
}
impl Num for LogDomain<f64> {
    fn get(n: i64) -> Self {
        LogDomain::new(n as f64).expect("HARNESS: weight")
    }
    fn put(&self) -> i64 {
        crate::gtext::clamp(self.value())
    }
}
impl<W: Num> Num for Reverse<W> {
    fn get(n: i64) -> Self {
        Reverse::from(W::get(n))
    }
    fn put(&self) -> i64 {
        self.inner().put()
    }
}
type C<W> = Configuration<i64, i64, W>;
fn conf<W: Num>(v: &Value) -> C<W> {
    Configuration { word: ints(&v["word"]), storage: i(v, "storage"), weight: W::get(i(v, "weight")) }
}
fn put<W: Num>(c: &C<W>) -> Value {
    json!({"word": c.word, "storage": c.storage, "weight": c.weight.put()})
}
fn sgn(o: Option<Ordering>) -> i64 {
    match o {
        None => 7,
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
    }
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn compare<W: Num>(case: &Value) -> Value {
    let (x, y) = (conf::<W>(&case["confs"][0]), conf::<W>(&case["confs"][1]));
    json!({"op": "cmp", "part": sgn(x.partial_cmp(&y)), "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y, "hash": hash(&x) == hash(&y)})
}
fn partial<W: Num>(case: &Value, rec: &Rec) {
    rec.ev(compare::<W>(case));
    rec.ev(json!({"op": "clone", "res": put(&conf::<W>(&case["confs"][0]).clone())}));
}
fn total<W: Num + Ord>(case: &Value, rec: &Rec) {
    let cs: Vec<C<W>> = a(case, "confs").iter().map(conf).collect();
    if cs.len() > 1 {
        let mut v = compare::<W>(case);
        v["ord"] = json!(sgn(Some(cs[0].cmp(&cs[1]))));
        rec.ev(v);
        rec.ev(json!({"op": "clone", "res": put(&cs[0].clone())}));
        rec.ev(json!({"op": "max", "res": put(&cs[0].clone().max(cs[1].clone()))}));
        rec.ev(json!({"op": "min", "res": put(&cs[0].clone().min(cs[1].clone()))}));
    }
    let mut sorted = cs.clone();
    sorted.sort();
    rec.ev(json!({"op": "sort", "res": sorted.iter().map(put).collect::<Vec<_>>()}));
    let mut heap: BinaryHeap<C<W>> = cs.into_iter().collect();
    for step in case["script"].as_array().unwrap_or(&vec![json!("pop"), json!("pop"), json!("pop")]) {
        if step == &json!("pop") {
            rec.ev(json!({"op": "pop", "res": opt(heap.pop().map(|c| put(&c)))}));
        } else {
            heap.push(conf(step));
            rec.ev(json!({"op": "push", "arg": step}));
        }
    }
}
fn shown<W: Num + Display>(case: &Value, rec: &Rec) {
    for v in a(case, "confs") {
        let c: C<W> = conf(v);
        rec.ev(json!({"op": "print", "arg": v, "res": c.to_string().split('\n').collect::<Vec<_>>()}));
    }
}
/// items with weights: only the weights are compared
fn items<W: Num + Ord>(case: &Value, rec: &Rec) {
    let (x, y) = (WeightedItem(0, W::get(i(case, "a"))), WeightedItem(i(case, "i"), W::get(i(case, "b"))));
    rec.ev(json!({"op": "icmp", "part": sgn(x.partial_cmp(&y)), "ord": sgn(Some(x.cmp(&y))), "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y,
                  "weight": y.get_weight().put(), "clone": [y.clone().0, y.clone().1.put()]}));
    let greater = std::cmp::max(x, y);
    rec.ev(json!({"op": "imax", "res": greater.1.put()}));
}
fn distinct<W: Num>(case: &Value, rec: &Rec) {
    let set: HashSet<C<W>> = a(case, "confs").iter().map(conf).collect();
    rec.ev(json!({"op": "set", "res": set.len()}));
}
fn reverse<W>(case: &Value, rec: &Rec, integers: bool)
where
    W: Num + Copy + Display + std::str::FromStr + Zero + One + Add<Output = W> + Sub<Output = W> + Mul<Output = W> + Div<Output = W> + Rem<Output = W>,
    W: AddAssign + SubAssign + MulAssign + DivAssign + RemAssign + serde::Serialize + serde::de::DeserializeOwned,
    W::Err: Debug,
{
    let (p, q) = (i(case, "a"), i(case, "b"));
    let (x, y) = (Reverse::from(W::get(p)), Reverse::from(W::get(q)));
    rec.ev(json!({"op": "rcmp", "part": sgn(x.partial_cmp(&y)), "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y}));
    let mut arith = |what: &str, res: Reverse<W>, f: &dyn Fn(&mut Reverse<W>)| {
        let mut z = x;
        f(&mut z);
        rec.ev(json!({"op": "arith", "what": what, "res": res.put(), "assigned": z.put()}));
    };
    arith("add", x + y, &|z| *z += y);
    arith("sub", x - y, &|z| *z -= y);
    arith("mul", x * y, &|z| *z *= y);
    if q != 0 && (integers || p % q == 0) {
        arith("div", x / y, &|z| *z /= y);
    }
    if q != 0 {
        arith("rem", x % y, &|z| *z %= y);
    }
    let t: Reverse<W> = x.to_string().parse().expect("reads what it prints");
    let js: Reverse<W> = serde_json::from_str(&serde_json::to_string(&x).expect("to json")).expect("from json");
    let bin: Reverse<W> = bincode::deserialize(&bincode::serialize(&x, bincode::Infinite).expect("to bytes")).expect("from bytes");
    rec.ev(json!({"op": "inner", "res": x.put(), "unwrapped": x.unwrap().put(), "text": t.put(), "json": js.put(), "bin": bin.put(), "shown": x.to_string() == W::get(p).to_string()}));
    rec.ev(json!({"op": "consts", "zero": Reverse::<W>::zero().put(), "one": Reverse::<W>::one().put(), "is_zero": x.is_zero()}));
    for t in &["", "x", "1", "-7", " 1", "1 ", "+3", "1.5", "0x1", "1e2", "99999999999999999999999"] {
        rec.ev(json!({"op": "parse", "text": t, "same": t.parse::<Reverse<W>>().ok().map(|z| z.unwrap()) == t.parse::<W>().ok()}));
    }
}
fn factors<W, F: Fn(&W) -> f64>(w: W, case: &Value, rec: &Rec, ln: F)
where
    W: Factorizable,
{
    let fs: Vec<f64> = w.factorize(u(case, "n")).iter().map(ln).collect();
    if s(case, "kind") == "zero" {
        rec.ev(json!({"op": "zero", "len": fs.len(), "zero": fs.iter().all(|x| *x == -1.0 / 0.0)}));
    } else {
        rec.ev(json!({"op": "factors", "res": fs.iter().map(|x| crate::gtext::clamp(x * 1e4)).collect::<Vec<_>>()}));
    }
}
pub fn run(case: &Value, rec: &Rec) {
    match (s(case, "kind"), s(case, "wt")) {
        ("conf", "int") => {
            total::<i64>(case, rec);
            distinct::<i64>(case, rec);
            shown::<i64>(case, rec)
        }
        ("conf", "rev") => {
            total::<Reverse<i64>>(case, rec);
            distinct::<Reverse<i64>>(case, rec);
            shown::<Reverse<i64>>(case, rec)
        }
        ("conf", "log") => total::<LogDomain<f64>>(case, rec),
        ("conf", "f64") => partial::<f64>(case, rec),
        ("conf", "revf64") => partial::<Reverse<f64>>(case, rec),
        ("rev", "int") => {
            reverse::<i64>(case, rec, true);
            let (x, y) = (Reverse::from(i(case, "a")), Reverse::from(i(case, "b")));
            rec.ev(json!({"op": "rcmp", "ord": sgn(Some(x.cmp(&y))), "part": sgn(x.partial_cmp(&y)), "lt": y > x, "le": y >= x, "gt": y < x, "ge": y <= x, "eq": !(x != y)}));
        }
        ("item", "int") => items::<i64>(case, rec),
        ("item", "rev") => items::<Reverse<i64>>(case, rec),
        ("item", "log") => items::<LogDomain<f64>>(case, rec),
        ("rev", "f64") => reverse::<f64>(case, rec, false),
        ("fact", "unit") => rec.ev(json!({"op": "unit", "res": ().factorize(u(case, "n")).len()})),
        (k, wt) => {
            let w = if k == "zero" { LogDomain::zero() } else { LogDomain::new(1.0f64.exp()).expect("e").pow(i(case, "ln") as f64 / 1e4) };
            if wt == "log" {
                factors(w, case, rec, |x: &LogDomain<f64>| x.ln())
            } else {
                factors(Reverse::from(w), case, rec, |x: &Reverse<LogDomain<f64>>| x.inner().ln())
            }
        }
    }
}
