//! Transitions as values; numbering of their symbols; the map of an automaton's transitions.
use crate::autom::{fs_instr, pd_instr, Stored};
use crate::common::*;
use integeriser::HashIntegeriser;
use rustomata::automata::finite_state_automaton::{FiniteStateAutomaton, FiniteStateInstruction};
use rustomata::automata::push_down_automaton::{PushDown, PushDownAutomaton, PushDownInstruction};
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackAutomaton, TreeStackInstruction};
use rustomata::recognisable::automaton::Automaton;
use rustomata::recognisable::{Instruction, Transition};
use rustomata::util::integerisable::{Integerisable1, Integerisable2};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BinaryHeap, HashSet};
use std::hash::{Hash, Hasher};

type Tr<I> = Transition<I, i64, i64>;
type Num<I> = Transition<I, usize, i64>;

fn sgn(o: Ordering) -> i64 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}
fn show<I: Stored>(t: &Tr<I>, sym: &dyn Fn(&I::Sym) -> Value) -> Value {
    json!({"word": t.word, "w": t.weight, "ins": t.instruction.show(sym)})
}
fn shown<I: Stored>(t: &Num<I>, sym: &dyn Fn(&I::Sym) -> Value) -> Value {
    json!({"word": t.word, "w": t.weight, "ins": t.instruction.show(sym)})
}
fn values<I>(case: &Value, rec: &Rec, get: &dyn Fn(&Value) -> I) -> Vec<Tr<I>>
where
    I: Stored<Sym = i64> + Clone + Ord + Integerisable1<I = HashIntegeriser<i64>>,
    I::AInt: Stored<Sym = usize> + Clone + Ord,
{
    let n = |k: &i64| json!(k);
    let m = |k: &usize| json!(k);
    let ts: Vec<Tr<I>> = a(case, "trans").iter().map(|t| Transition { word: ints(&t["word"]), weight: i(t, "w"), instruction: get(&t["ins"]) }).collect();
    rec.ev(json!({"op": "instr", "res": ts.iter().map(|t| ts.iter().map(|u| sgn(t.instruction.cmp(&u.instruction))).collect::<Vec<_>>()).collect::<Vec<_>>()}));
    for (j, t) in ts.iter().enumerate() {
        for (k, u) in ts.iter().enumerate() {
            rec.ev(json!({"op": "cmp", "i": j + 1, "j": k + 1, "eq": t == u, "ne": t != u, "ord": sgn(t.cmp(u)), "part": t.partial_cmp(u).map_or(7, sgn)}));
        }
    }
    let list = |v: Vec<Tr<I>>| v.iter().map(|t| show(t, &n)).collect::<Vec<_>>();
    let mut sorted = ts.clone();
    sorted.sort();
    rec.ev(json!({"op": "sort", "res": list(sorted)}));
    let mut heap: BinaryHeap<Tr<I>> = ts.iter().cloned().collect();
    let mut popped = Vec::new();
    while let Some(t) = heap.pop() {
        popped.push(t);
    }
    rec.ev(json!({"op": "heap", "res": list(popped)}));
    rec.ev(json!({"op": "clone", "res": list(ts.clone())}));
    // numbering, with tables that grow
    let mut wt = HashIntegeriser::new();
    let mut st = HashIntegeriser::new();
    let mut coded: Vec<Num<I::AInt>> = Vec::new();
    for step in a(case, "script") {
        let k = step[1].as_u64().expect("HARNESS: script") as usize;
        if step[0] == "t" {
            let c = ts[k - 1].integerise(&mut wt, &mut st);
            rec.ev(json!({"op": "number", "k": k, "res": shown(&c, &m)}));
            coded.push(c);
        } else if k <= coded.len() {
            rec.ev(json!({"op": "back", "k": k, "res": show(&Tr::<I>::un_integerise(&coded[k - 1], &wt, &st), &n)}));
        }
    }
    for (j, t) in coded.iter().enumerate() {
        rec.ev(json!({"op": "alike", "k": j + 1, "res": coded.iter().map(|u| t == u).collect::<Vec<_>>()}));
    }
    ts
}
fn hashes<I: Hash + Eq + Clone>(ts: &[Tr<I>], rec: &Rec) {
    let h = |t: &Tr<I>| {
        let mut h = DefaultHasher::new();
        t.hash(&mut h);
        h.finish()
    };
    rec.ev(json!({"op": "hash", "res": ts.iter().map(|t| ts.iter().map(|u| h(t) == h(u)).collect::<Vec<_>>()).collect::<Vec<_>>()}));
    rec.ev(json!({"op": "set", "res": ts.iter().cloned().collect::<HashSet<_>>().len()}));
}
fn files<A, I>(aut: &A, rec: &Rec)
where
    A: Automaton<i64, i64, I = I, Key = usize, TInt = usize>,
    I: Stored<Sym = i64> + Clone + Instruction,
    A::IInt: Stored<Sym = usize> + Clone + Eq + Ord + Instruction,
{
    let n = |k: &i64| json!(k);
    let m = |k: &usize| json!(k);
    rec.ev(json!({"op": "list", "res": aut.transitions().map(|t| show(&t, &n)).collect::<Vec<_>>()}));
    let map = aut.transition_map();
    // a heap pops the heaviest first
    let cells: Vec<Value> = map.iter().map(|(k, h)| {
        let mut h: BinaryHeap<Transition<A::IInt, usize, i64>> = h.iter().cloned().collect();
        let mut v = Vec::new();
        while let Some(t) = h.pop() {
            v.push(shown(&t, &m));
        }
        json!([k, v])
    }).collect();
    rec.ev(json!({"op": "files", "res": cells}));
}
pub fn run(case: &Value, rec: &Rec) {
    match s(case, "kind") {
        "pd" => {
            let ts = values::<PushDownInstruction<i64>>(case, rec, &pd_instr);
            hashes(&ts, rec);
            if a(case, "trans").iter().all(|t| t["ins"][1].as_array().map_or(false, |x| !x.is_empty())) {
                files(&<PushDownAutomaton<i64, i64, i64> as Automaton<i64, i64>>::from_transitions(ts, PushDown::from(vec![7, 8])), rec);
            }
        }
        "ts" => {
            let ts = values::<TreeStackInstruction<i64>>(case, rec, &crate::storages::tinstr);
            hashes(&ts, rec);
            files(&<TreeStackAutomaton<i64, i64, i64> as Automaton<i64, i64>>::from_transitions(ts, TreeStack::new(7)), rec);
        }
        _ => {
            let ts = values::<FiniteStateInstruction<i64>>(case, rec, &fs_instr);
            files(&<FiniteStateAutomaton<i64, i64, i64> as Automaton<i64, i64>>::from_transitions(ts, 7), rec);
        }
    }
}
