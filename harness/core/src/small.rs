//! Unique heaps, vector multimaps, partitions, Gorn trees and Dyck words.
use crate::common::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Values of different Rust types that stand for integers (in the same order).
pub trait Sym: Ord + Clone + Hash + Debug {
    fn of(i: i64) -> Self;
    fn num(&self) -> i64;
}
impl Sym for i64 {
    fn of(i: i64) -> i64 {
        i
    }
    fn num(&self) -> i64 {
        *self
    }
}
impl Sym for String {
    fn of(i: i64) -> String {
        format!("s{:06}", i + 1000)
    }
    fn num(&self) -> i64 {
        self[1..].parse::<i64>().unwrap() - 1000
    }
}
fn nums<'a, T: Sym + 'a, I: IntoIterator<Item = &'a T>>(it: I) -> Value {
    json!(it.into_iter().map(|x| x.num()).collect::<Vec<_>>())
}

// ---------------------------------------------------------------- unique heap
fn heap<T: Sym, B: BuildHasher + Default + Clone>(case: &Value, rec: &Rec) {
    use unique_heap::UniqueHeap;
    let init: Vec<(i64, T)> = a(case, "init").iter().map(|p| (p[0].as_i64().unwrap(), T::of(p[1].as_i64().unwrap()))).collect();
    let mut h: UniqueHeap<T, i64, B> = match s(case, "ctor") {
        "vec" => init.into(),
        // an iterator that knows no good upper bound of its length
        "lazy" => (0..usize::max_value()).take_while(|k| *k < init.len()).map(|k| (init[k].1.clone(), init[k].0)).collect(),
        "iter" if init.is_empty() => UniqueHeap::default(),
        _ => init.into_iter().map(|(w, x)| (x, w)).collect(),
    };
    fn show<T: Sym, B: BuildHasher>(e: &mut Value, h: &UniqueHeap<T, i64, B>) {
        e["len"] = json!(h.len());
        e["empty"] = json!(h.is_empty());
        e["peek"] = opt(h.peek().map(|p| json!([p.0, p.1.num()])));
        e["all"] = json!(h.into_iter().map(|p| json!([p.0, p.1.num()])).collect::<Vec<_>>());
    }
    let mut e = json!({"op": "new"});
    show(&mut e, &h);
    rec.ev(e);
    for op in a(case, "ops") {
        let name = s(op, "op");
        let mut e = op.clone();
        match name {
            "push" => e["res"] = json!(h.push(T::of(i(op, "x")), i(op, "w"))),
            "pop" => e["res"] = opt(h.pop().map(|(x, w)| json!([x.num(), w]))),
            "clone" => h = h.clone(),
            _ => panic!("HARNESS: op"),
        }
        show(&mut e, &h);
        rec.ev(e);
    }
    let v = h.clone().into_sorted_vec();
    rec.ev(json!({"op": "sorted", "all": v.iter().map(|p| json!([p.0, p.1.num()])).collect::<Vec<_>>()}));
    rec.ev(json!({"op": "drain", "all": h.into_iter().map(|p| json!([p.0, p.1.num()])).collect::<Vec<_>>()}));
}
pub fn uniqueheap(case: &Value, rec: &Rec) {
    use std::collections::hash_map::RandomState;
    match (s(case, "ty"), s(case, "hasher")) {
        ("int", "std") => heap::<i64, RandomState>(case, rec),
        ("int", _) => heap::<i64, fnv::FnvBuildHasher>(case, rec),
        (_, "std") => heap::<String, RandomState>(case, rec),
        _ => heap::<String, fnv::FnvBuildHasher>(case, rec),
    }
}

// ---------------------------------------------------------------- vector multimap
trait Mm<T> {
    fn push(&mut self, i: usize, x: T);
    fn get(&mut self, i: usize) -> Vec<T>;
    fn fail(&self, i: usize) -> Option<Vec<T>>;
    fn mutate(&mut self, i: usize, s: Vec<T>) -> Vec<T>;
    fn index(&self, i: usize) -> Option<Vec<T>>;
}
impl<T: Clone> Mm<T> for vecmultimap::VecMultiMap<T> {
    fn push(&mut self, i: usize, x: T) {
        self.push_to(i, x)
    }
    fn get(&mut self, i: usize) -> Vec<T> {
        self.get(i).clone()
    }
    fn fail(&self, i: usize) -> Option<Vec<T>> {
        self.get_or_fail(i).cloned()
    }
    fn mutate(&mut self, i: usize, s: Vec<T>) -> Vec<T> {
        std::mem::replace(self.get_mut(i), s)
    }
    fn index(&self, i: usize) -> Option<Vec<T>> {
        self.get_or_fail(i).cloned()
    }
}
impl<'a, T: Clone> Mm<T> for vecmultimap::VecMultiMapAdapter<'a, T> {
    fn push(&mut self, i: usize, x: T) {
        self.push_to(i, x)
    }
    fn get(&mut self, i: usize) -> Vec<T> {
        self.get(i).clone()
    }
    fn fail(&self, i: usize) -> Option<Vec<T>> {
        self.get_or_fail(i).cloned()
    }
    fn mutate(&mut self, i: usize, s: Vec<T>) -> Vec<T> {
        if i % 2 == 0 {
            std::mem::replace(self.get_mut(i), s)
        } else {
            std::mem::replace(&mut self[i], s)
        }
    }
    fn index(&self, i: usize) -> Option<Vec<T>> {
        catch_unwind(AssertUnwindSafe(|| self[i].clone())).ok()
    }
}
fn lists<T: Sym>(v: &[Vec<T>]) -> Value {
    json!(v.iter().map(nums).collect::<Vec<_>>())
}
fn mm_ops<T: Sym, M: Mm<T>>(m: &mut M, case: &Value, rec: &Rec) {
    let mut fresh = 0;
    for op in a(case, "ops") {
        let mut e = op.clone();
        let ix = u(op, "i");
        match s(op, "op") {
            "push" => {
                fresh += 1;
                e["x"] = json!(fresh);
                m.push(ix, T::of(fresh))
            }
            "get" => e["res"] = nums(&m.get(ix)),
            "fail" => e["res"] = opt(m.fail(ix).map(|v| nums(&v))),
            "index" => e["res"] = opt(m.index(ix).map(|v| nums(&v))),
            "mut" => e["res"] = nums(&m.mutate(ix, ints(&op["s"]).into_iter().map(T::of).collect())),
            _ => panic!("HARNESS: op"),
        }
        rec.ev(e);
    }
}
fn vmm<T: Sym>(case: &Value, rec: &Rec) {
    if s(case, "via") == "map" {
        let mut m = vecmultimap::VecMultiMap::<T>::new();
        mm_ops(&mut m, case, rec);
        match ints(&case["end"]).first() {
            Some(&n) => {
                let v = m.into_vec_with_size(n as usize);
                rec.ev(json!({"op": "sized", "n": n, "res": lists(&v)}));
            }
            None => {
                let v: Vec<Vec<T>> = m.into();
                rec.ev(json!({"op": "into", "res": lists(&v)}));
            }
        }
    } else {
        let mut v: Vec<Vec<T>> = a(case, "init").iter().map(|l| ints(l).into_iter().map(T::of).collect()).collect();
        if a(case, "ops").len() % 2 == 0 {
            mm_ops(&mut vecmultimap::VecMultiMapAdapter(&mut v), case, rec);
        } else {
            let mut ad: vecmultimap::VecMultiMapAdapter<T> = (&mut v).into();
            mm_ops(&mut ad, case, rec);
        }
        rec.ev(json!({"op": "behind", "res": lists(&v)}));
    }
}
pub fn vecmm(case: &Value, rec: &Rec) {
    match s(case, "ty") {
        "int" => vmm::<i64>(case, rec),
        _ => vmm::<String>(case, rec),
    }
}

// ---------------------------------------------------------------- partition
fn part<T: Sym + serde::Serialize + serde::de::DeserializeOwned>(case: &Value, rec: &Rec) {
    use rustomata::util::partition::Partition;
    let read = |k: &str| -> Vec<BTreeSet<T>> { a(case, k).iter().map(|l| ints(l).into_iter().map(T::of).collect()).collect() };
    let show = |v: Vec<&BTreeSet<T>>| json!(v.into_iter().map(nums).collect::<Vec<_>>());
    let p = Partition::new(read("cells"));
    rec.ev(json!({"op": "new", "res": p.is_some()}));
    if let Some(p) = p {
        let top = p.alphabet().into_iter().map(|x: &T| x.num()).max().unwrap_or(0).max(5) + 2;
        let look = |p: &Partition<T>| {
            rec.ev(json!({"op": "alphabet", "res": nums(p.alphabet())}));
            for x in -1..=top {
                rec.ev(json!({"op": "cell", "x": x, "res": opt(p.get_cell(&T::of(x)).map(nums))}));
            }
            rec.ev(json!({"op": "collapse", "res": show(p.collapse())}));
        };
        look(&p);
        let q = Partition::new(p.collapse().into_iter().cloned().collect());
        rec.ev(json!({"op": "rebuild", "res": q.as_ref() == Some(&p)}));
        q.iter().for_each(&look);
        let bytes = bincode::serialize(&p, bincode::Infinite).unwrap();
        let q: Option<Partition<T>> = bincode::deserialize(&bytes).ok();
        q.iter().for_each(&look);
        let js: Option<Partition<T>> = serde_json::from_value(serde_json::to_value(&p).unwrap()).ok();
        js.iter().for_each(&look);
        let eq: Option<bool> = q.map(|q| q == p);
        rec.ev(json!({"op": "serde", "res": opt(eq.map(|e| e && js.as_ref() == Some(&p)))}));
        let o = Partition::new(read("other"));
        rec.ev(json!({"op": "same", "res": opt(o.map(|o| o == p))}));
    }
    let bytes = bincode::serialize(&read("cells"), bincode::Infinite).unwrap();
    let q: Result<Partition<T>, _> = bincode::deserialize(&bytes);
    rec.ev(json!({"op": "read", "res": q.is_ok()}));
}
pub fn partition(case: &Value, rec: &Rec) {
    match s(case, "ty") {
        "int" => part::<i64>(case, rec),
        _ => part::<String>(case, rec),
    }
}

// ---------------------------------------------------------------- Gorn tree
pub fn gorn(case: &Value, rec: &Rec) {
    use rustomata::util::tree::GornTree;
    fn entries(t: &GornTree<i64>) -> Value {
        json!(t.into_iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>())
    }
    let build = |k: &str, collect: bool| -> GornTree<i64> {
        let ps = a(case, k).iter().map(|p| (usizes(&p[0]), p[1].as_i64().unwrap()));
        if collect {
            ps.collect()
        } else {
            let mut t = GornTree::new();
            for (k, v) in ps {
                t.insert(k, v);
            }
            t
        }
    };
    let mut x = build("a", true);
    let mut y = build("b", false);
    let show = |mut e: Value, x: &GornTree<i64>, y: &GornTree<i64>| {
        e["a"] = entries(x);
        e["b"] = entries(y);
        e["keys"] = json!(x.keys().collect::<Vec<_>>());
        e["values"] = json!(x.values().collect::<Vec<_>>());
        e["len"] = json!(x.len());
        e["empty"] = json!(x.is_empty());
        e["eq"] = json!(x == y);
        rec.ev(e);
    };
    show(json!({"op": "new"}), &x, &y);
    for op in a(case, "ops") {
        let mut e = op.clone();
        let k = usizes(&op["k"]);
        let v = i(op, "v");
        match s(op, "op") {
            "insert" => e["res"] = opt(x.insert(k, v)),
            "remove" => e["res"] = opt(x.remove(&k)),
            "get" => {
                e["res"] = opt(x.get(&k).cloned());
                e["has"] = json!(x.contains_key(&k));
            }
            "modify" => {
                e["res"] = opt(x.get(&k).cloned());
                if let Some(r) = x.get_mut(&k) {
                    *r = v
                }
            }
            "entry" => e["res"] = json!([*x.entry(k).or_insert(v)]),
            "append" => x.append(&mut y),
            "split" => y = x.split_off(&k),
            "swap" => std::mem::swap(&mut x, &mut y),
            "addall" => {
                for r in x.values_mut() {
                    *r += v
                }
            }
            "addallit" => {
                for (_, r) in &mut x {
                    *r += v
                }
            }
            "clear" => x.clear(),
            "clone" => x = x.clone(),
            "collect" => x = x.into_iter().collect(),
            "cloned" => x = (&x).into_iter().map(|(k, v)| (k.clone(), v)).collect::<GornTree<&i64>>().cloned(),
            _ => panic!("HARNESS: op"),
        }
        show(e, &x, &y);
    }
}

// ---------------------------------------------------------------- Dyck words
fn dy<T: Sym>(case: &Value, rec: &Rec) {
    use rustomata::dyck::{recognize, Bracket};
    for w in a(case, "words") {
        let word: Vec<Bracket<T>> = w
            .as_array()
            .unwrap()
            .iter()
            .map(|b| {
                let x = T::of(b[1].as_i64().unwrap());
                if b[0] == "o" {
                    Bracket::Open(x)
                } else {
                    Bracket::Close(x)
                }
            })
            .collect();
        rec.ev(json!({"op": "rec", "w": w, "res": recognize(&word)}));
    }
}
pub fn dyck(case: &Value, rec: &Rec) {
    match s(case, "ty") {
        "int" => dy::<i64>(case, rec),
        _ => dy::<String>(case, rec),
    }
}
