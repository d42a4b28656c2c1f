use crate::common::*;
use search::agenda::{limited_heap, weighted::Weighted};
use search::Search;
use serde_json::{json, Value};
use std::cmp::Ordering;

/// A graph node; identity and order by name, priority by the table of the case.
#[derive(Clone, Debug)]
struct Node(i64, i64);
impl PartialEq for Node {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Node {}
impl PartialOrd for Node {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Node {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl Weighted for Node {
    type Weight = i64;
    fn get_weight(&self) -> i64 {
        self.1
    }
}

fn record<I: Iterator<Item = Node>>(mut it: I, max: usize, rec: &Rec) {
    let mut after = 0;
    for _ in 0..max {
        let r = it.next();
        let none = r.is_none();
        rec.ev(json!({"op": "next", "res": opt(r.map(|n| json!(n.0)))}));
        if none {
            after += 1;
            if after == 2 {
                break;
            }
        }
    }
}

pub fn run(case: &Value, rec: &Rec) {
    let w = ints(&case["w"]);
    let node = |n: i64| Node(n, w[n as usize]);
    let table: Vec<Vec<Node>> = a(case, "succ").iter().map(|l| ints(l).into_iter().map(node).collect()).collect();
    let start: Vec<Node> = ints(&case["start"]).into_iter().map(node).collect();
    let max = u(case, "max");
    let uniq = case["uniq"].as_bool().expect("HARNESS: uniq");
    let f = |n: &Node| table[n.0 as usize].clone();
    match (s(case, "kind"), uniq) {
        ("lifo", false) => record(Search::dfs(start, f), max, rec),
        ("lifo", true) => record(Search::dfs(start, f).uniques(), max, rec),
        ("fifo", false) => record(Search::bfs(start, f), max, rec),
        ("fifo", true) => record(Search::bfs(start, f).uniques(), max, rec),
        ("heap", false) => record(Search::weighted(start, f), max, rec),
        ("heap", true) => record(Search::weighted(start, f).uniques(), max, rec),
        ("limited", false) => {
            let mut h = limited_heap::weighted::LimitedHeap::with_capacity(crate::agenda::cap_of(case));
            for n in start {
                h.push(n);
            }
            record(Search::with_agenda(h, f), max, rec)
        }
        _ => panic!("HARNESS: kind"),
    }
}
