use crate::common::*;
use search::agenda::{self, binary_heap, weighted::Weighted, Agenda};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::VecDeque;
use std::ops::Mul;

/// A priority whose "multiplication" is addition (kind "add") or multiplication (kind "mul") of integers.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Prio(pub i64, pub bool);
impl PartialOrd for Prio {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Prio {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl Mul for Prio {
    type Output = Prio;
    fn mul(self, o: Prio) -> Prio {
        Prio(if self.1 { self.0 * o.0 } else { self.0 + o.0 }, self.1)
    }
}

/// An item whose own order is unrelated to its priority.
#[derive(Clone, Debug)]
pub struct Item(pub i64, pub Prio);
impl Weighted for Item {
    type Weight = Prio;
    fn get_weight(&self) -> Prio {
        self.1
    }
}

trait Ag {
    /// Reports [accepted, evicted]: what the call returned, as far as the call reports it.
    fn push(&mut self, x: Item) -> Value;
    fn extend(&mut self, xs: Vec<Item>);
    fn pop(&mut self) -> Option<Item>;
    fn peek(&self) -> Option<Item>;
    fn len(&self) -> usize;
    fn empty(&self) -> bool;
    fn clear(&mut self) -> bool;
    fn clone_(&self) -> Option<Box<dyn Ag>>;
    fn drain(self: Box<Self>) -> Vec<Item>;
}

/// Access through the trait `Agenda` only.
struct ViaTrait<A>(A);
impl<A: Agenda<Item = Item> + IntoIterator<Item = Item>> Ag for ViaTrait<A> {
    fn push(&mut self, x: Item) -> Value {
        Agenda::push(&mut self.0, x);
        json!({})
    }
    fn extend(&mut self, xs: Vec<Item>) {
        Agenda::extend(&mut self.0, xs)
    }
    fn pop(&mut self) -> Option<Item> {
        Agenda::pop(&mut self.0)
    }
    fn peek(&self) -> Option<Item> {
        Agenda::peek(&self.0).cloned()
    }
    fn len(&self) -> usize {
        Agenda::len(&self.0)
    }
    fn empty(&self) -> bool {
        Agenda::is_empty(&self.0)
    }
    fn clear(&mut self) -> bool {
        false
    }
    fn clone_(&self) -> Option<Box<dyn Ag>> {
        None
    }
    fn drain(self: Box<Self>) -> Vec<Item> {
        self.0.into_iter().collect()
    }
}

macro_rules! inherent {
    ($name:ident, $ty:ty, $push:expr, $clear:expr, $clone:expr) => {
        struct $name($ty);
        impl Ag for $name {
            fn push(&mut self, x: Item) -> Value {
                ($push)(&mut self.0, x)
            }
            fn extend(&mut self, xs: Vec<Item>) {
                for x in xs {
                    ($push)(&mut self.0, x);
                }
            }
            fn pop(&mut self) -> Option<Item> {
                self.0.pop()
            }
            fn peek(&self) -> Option<Item> {
                self.0.peek().cloned()
            }
            fn len(&self) -> usize {
                self.0.len()
            }
            fn empty(&self) -> bool {
                self.0.len() == 0
            }
            fn clear(&mut self) -> bool {
                ($clear)(&mut self.0);
                true
            }
            fn clone_(&self) -> Option<Box<dyn Ag>> {
                ($clone)(&self.0)
            }
            fn drain(self: Box<Self>) -> Vec<Item> {
                self.0.into_iter().collect()
            }
        }
    };
}
fn pair(x: &Item) -> Value {
    json!([x.0, (x.1).0])
}
fn evicted(o: Option<Item>) -> Value {
    match o {
        Some(x) => json!({ "evicted": [pair(&x)] }),
        None => json!({"evicted": []}),
    }
}
inherent!(WBin, binary_heap::weighted::BinaryHeap<Item>,
    |h: &mut binary_heap::weighted::BinaryHeap<Item>, x: Item| { h.push(x); json!({}) },
    |h: &mut binary_heap::weighted::BinaryHeap<Item>| h.clear(), |_| None);
inherent!(WLim, agenda::limited_heap::weighted::LimitedHeap<Item>,
    |h: &mut agenda::limited_heap::weighted::LimitedHeap<Item>, x: Item| evicted(h.push(x)),
    |h: &mut agenda::limited_heap::weighted::LimitedHeap<Item>| h.clear(), |_| None);
inherent!(WBeam, agenda::beam_heap::weighted::BeamHeap<Item>,
    |h: &mut agenda::beam_heap::weighted::BeamHeap<Item>, x: Item| json!({"accepted": h.push(x)}),
    |h: &mut agenda::beam_heap::weighted::BeamHeap<Item>| h.clear(), |_| None);
inherent!(RLim, agenda::LimitedHeap<Item, Prio>,
    |h: &mut agenda::LimitedHeap<Item, Prio>, x: Item| { let p = x.1; evicted(h.push(x, p)) },
    |h: &mut agenda::LimitedHeap<Item, Prio>| h.clear(),
    |h: &agenda::LimitedHeap<Item, Prio>| Some(Box::new(RLim(h.clone())) as Box<dyn Ag>));
inherent!(RBeam, agenda::BeamHeap<Item, Prio>,
    |h: &mut agenda::BeamHeap<Item, Prio>, x: Item| { let p = x.1; json!({"accepted": h.push(x, p)}) },
    |h: &mut agenda::BeamHeap<Item, Prio>| h.clear(),
    |h: &agenda::BeamHeap<Item, Prio>| Some(Box::new(RBeam(h.clone())) as Box<dyn Ag>));

/// 2000000000 in a case stands for the largest capacity, which 32-bit numbers cannot tell.
pub fn cap_of(case: &Value) -> usize {
    match u(case, "cap") {
        2000000000 => usize::max_value(),
        k => k,
    }
}

pub fn run(case: &Value, rec: &Rec) {
    let kind = s(case, "kind");
    let via = s(case, "via");
    let mul = s(case, "mul") == "mul";
    let cap = cap_of(case);
    let beta = Prio(i(case, "beta"), mul);
    let init: Vec<Item> = a(case, "init").iter().map(|x| Item(x[0].as_i64().unwrap(), Prio(x[1].as_i64().unwrap(), mul))).collect();
    let mut ag: Box<dyn Ag> = match (kind, via) {
        ("lifo", _) => Box::new(ViaTrait(init.clone())),
        ("fifo", _) => Box::new(ViaTrait(init.iter().rev().cloned().collect::<VecDeque<_>>())),
        ("heap", "trait") => Box::new(ViaTrait(init.iter().cloned().collect::<binary_heap::weighted::BinaryHeap<_>>())),
        ("heap", _) => Box::new(WBin(init.iter().cloned().collect())),
        ("limited", "trait") => Box::new(ViaTrait(agenda::limited_heap::weighted::LimitedHeap::with_capacity(cap))),
        ("limited", "weighted") => Box::new(WLim(agenda::limited_heap::weighted::LimitedHeap::with_capacity(cap))),
        ("limited", _) => Box::new(RLim(agenda::LimitedHeap::with_capacity(cap))),
        ("beam", "trait") => Box::new(ViaTrait(agenda::beam_heap::weighted::BeamHeap::new(beta))),
        ("beam", "weighted") => Box::new(WBeam(agenda::beam_heap::weighted::BeamHeap::new(beta))),
        ("beam", _) => Box::new(RBeam(agenda::BeamHeap::new(beta))),
        _ => panic!("HARNESS: kind"),
    };
    let mut fresh = 1000;
    for op in a(case, "ops") {
        let name = s(op, "op");
        let mut e = json!({ "op": name });
        match name {
            "push" => {
                fresh += 1;
                let x = Item(fresh, Prio(i(op, "p"), mul));
                e["x"] = pair(&x);
                e["res"] = ag.push(x);
            }
            "extend" => {
                let mut xs = Vec::new();
                for p in a(op, "ps") {
                    fresh += 1;
                    xs.push(Item(fresh, Prio(p.as_i64().unwrap(), mul)));
                }
                e["xs"] = Value::Array(xs.iter().map(pair).collect());
                ag.extend(xs);
            }
            "pop" => e["res"] = opt(ag.pop().map(|x| pair(&x))),
            "clear" => {
                if !ag.clear() {
                    e["op"] = json!("noop");
                }
            }
            "clone" => match ag.clone_() {
                Some(b) => ag = b,
                None => e["op"] = json!("noop"),
            },
            _ => panic!("HARNESS: op"),
        }
        e["len"] = json!(ag.len());
        e["empty"] = json!(ag.empty());
        e["peek"] = opt(ag.peek().map(|x| pair(&x)));
        rec.ev(e);
    }
    rec.ev(json!({"op": "drain", "all": ag.drain().iter().map(pair).collect::<Vec<_>>()}));
}
