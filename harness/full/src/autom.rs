//! Automata: recognition (with and without beam), approximation, coarse-to-fine.
use crate::common::*;
use log_domain::LogDomain;
use num_traits::{One, Zero};
use rustomata::approximation::relabel::RlbElement;
use rustomata::approximation::tts::TTSElement;
use rustomata::approximation::{ApproximationInstance, ApproximationStrategy};
use rustomata::automata::finite_state_automaton::{FiniteStateAutomaton, FiniteStateInstruction};
use rustomata::automata::push_down_automaton::{PushDown, PushDownAutomaton, PushDownInstruction, PushState};
use rustomata::automata::tree_stack_automaton::{to_abstract_syntax_tree, PosState, TreeStack, TreeStackAutomaton, TreeStackInstruction};
use rustomata::coarse_to_fine_recogniser;
use rustomata::grammars::cfg::{CFGComposition, CFGRule, LetterT, CFG};
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
use rustomata::recognisable::automaton::{recognise, recognise_beam, Automaton};
use rustomata::recognisable::coarse_to_fine::CoarseToFineRecogniser;
use rustomata::recognisable::{Instruction, Item, Recognisable, Transition};
use rustomata::util::push_down::Pushdown;
use serde_json::{json, Value};
use std::hash::Hash;
use std::rc::Rc;

pub type W = LogDomain<f64>;
type Rule = PMCFGRule<i64, i64, W>;

pub fn weight(v: &Value) -> W {
    let n = v[0].as_f64().expect("HARNESS: weight");
    let k = v[1].as_f64().expect("HARNESS: weight");
    if n == 0.0 {
        W::zero()
    } else if k == 0.0 && n == 1.0 {
        W::one()
    } else {
        LogDomain::new(n / k.exp2()).expect("HARNESS: weight")
    }
}
/// in units of 2^-24
pub fn measured(w: W) -> i64 {
    (w.value() * 24f64.exp2()).round() as i64
}
pub trait Stored {
    type Sym: Clone;
    fn show(&self, sym: &dyn Fn(&Self::Sym) -> Value) -> Value;
}
impl<A: Clone> Stored for PushDown<A> {
    type Sym = A;
    fn show(&self, sym: &dyn Fn(&A) -> Value) -> Value {
        json!(self.iter().map(|a| sym(a)).collect::<Vec<_>>())
    }
}
impl<A: Clone> Stored for TreeStack<A> {
    type Sym = A;
    fn show(&self, sym: &dyn Fn(&A) -> Value) -> Value {
        let (t, at) = self.to_tree();
        json!({"t": t.into_iter().map(|(a, v)| json!([a, sym(&v)])).collect::<Vec<_>>(), "at": at})
    }
}
impl Stored for i64 {
    type Sym = i64;
    fn show(&self, sym: &dyn Fn(&i64) -> Value) -> Value {
        sym(self)
    }
}
impl<A: Clone> Stored for PushDownInstruction<A> {
    type Sym = A;
    fn show(&self, sym: &dyn Fn(&A) -> Value) -> Value {
        let PushDownInstruction::Replace { current_val, new_val } = self;
        json!(["R", current_val.iter().map(|a| sym(a)).collect::<Vec<_>>(), new_val.iter().map(|a| sym(a)).collect::<Vec<_>>()])
    }
}
impl<A: Clone> Stored for TreeStackInstruction<A> {
    type Sym = A;
    fn show(&self, sym: &dyn Fn(&A) -> Value) -> Value {
        match self {
            TreeStackInstruction::Up { n, current_val, old_val, new_val } => json!(["Up", n, sym(current_val), sym(old_val), sym(new_val)]),
            TreeStackInstruction::Push { n, current_val, new_val } => json!(["Push", n, sym(current_val), sym(new_val)]),
            TreeStackInstruction::Down { current_val, old_val, new_val } => json!(["Down", sym(current_val), sym(old_val), sym(new_val)]),
        }
    }
}
impl<A: Clone + std::fmt::Display + std::str::FromStr + From<u16>> Stored for FiniteStateInstruction<A> {
    type Sym = A;
    fn show(&self, sym: &dyn Fn(&A) -> Value) -> Value {
        // its fields are private
        let t = self.to_string();
        let q: Vec<A> = t
            .trim_matches(|c| c == '(' || c == ')')
            .split(" → ")
            .map(|x| x.parse().unwrap_or_else(|_| A::from(59999)))
            .collect();
        json!(["F", sym(&q[0]), sym(q.get(1).unwrap_or(&A::from(59999)))])
    }
}
pub fn trans<I: Stored>(t: &Transition<I, i64, W>, sym: &dyn Fn(&I::Sym) -> Value) -> Value {
    json!([t.word, measured(t.weight), t.instruction.show(sym)])
}
fn run_value<I: Stored + Clone>(ts: &Pushdown<Transition<I, i64, W>>, sym: &dyn Fn(&I::Sym) -> Value) -> Value
where
    Transition<I, i64, W>: Clone,
{
    json!(ts.to_vec().iter().map(|t| trans(t, sym)).collect::<Vec<_>>())
}
fn item<S: Stored, I: Stored<Sym = S::Sym> + Clone>(i: &Item<S, I, i64, W>, sym: &dyn Fn(&S::Sym) -> Value) -> Value {
    json!({"ts": run_value(&i.1, sym), "x": measured(i.0.weight), "st": i.0.storage.show(sym), "rest": i.0.word})
}
fn ran<S: Stored, I: Stored<Sym = S::Sym> + Clone>(op: &str, step: &Value, runs: Box<dyn Iterator<Item = Item<S, I, i64, W>> + '_>, sym: &dyn Fn(&S::Sym) -> Value, rec: &Rec, extra: &dyn Fn(&Item<S, I, i64, W>, &mut Value)) {
    let lim = u(step, "lim");
    let mut out = Vec::new();
    // where the search may go on for ever, only lim results are asked for
    let cut = step["cut"].as_bool().expect("HARNESS: cut");
    let mut end = false;
    let mut runs = runs;
    while out.len() <= lim && !(cut && out.len() == lim) {
        match runs.next() {
            None => {
                end = true;
                break;
            }
            Some(i) => {
                let mut v = item(&i, sym);
                extra(&i, &mut v);
                out.push(v);
            }
        }
    }
    rec.ev(json!({"op": op, "word": step["word"], "lim": lim, "beam": step["beam"], "wide": step["wide"], "exact": step["exact"], "runs": out, "end": end}));
}
/// everything an automaton can be asked
fn drive<A, S, I>(a: &A, case: &Value, sym: &dyn Fn(&S::Sym) -> Value, rec: &Rec, extra: &dyn Fn(&Item<S, I, i64, W>, &mut Value))
where
    S: Stored + Clone + Eq,
    I: Stored<Sym = S::Sym> + Clone + Eq + Instruction<Storage = S>,
    A: Automaton<i64, W, I = I>,
    A::IInt: Ord,
    <A::IInt as Instruction>::Storage: Clone + Eq + Ord,
    A::TInt: Clone + Eq + Ord,
{
    let ts: Vec<_> = a.transitions().collect();
    rec.ev(json!({"op": "list", "trans": ts.iter().map(|t| trans(t, sym)).collect::<Vec<_>>(), "init": a.initial().show(sym)}));
    for step in self::a(case, "words") {
        let word: Vec<i64> = ints(&step["word"]);
        match s(step, "op") {
            "recog" => ran("recog", step, Box::new(recognise(a, word)), sym, rec, &|i, v| {
                v["check"] = json!(a.check_run(i.1.clone()).iter().map(|j| json!({"x": measured(j.0.weight), "st": j.0.storage.show(sym), "rest": j.0.word, "same": run_value(&j.1, sym) == v["ts"]})).collect::<Vec<_>>());
                extra(i, v);
            }),
            "beam" => ran("beam", step, Box::new(recognise_beam(a, u(step, "beam"), word)), sym, rec, &|_, _| ()),
            "check" => {
                let run: Vec<_> = if ts.is_empty() { vec![] } else { usizes(&step["pick"]).iter().map(|k| ts[k % ts.len()].clone()).collect() };
                let pd = Pushdown::from(run.as_slice());
                let res: Vec<_> = a.check_run(pd.clone()).iter().map(|i| item(i, sym)).collect();
                rec.ev(json!({"op": "check", "ts": run_value(&pd, sym), "res": res}));
            }
            _ => panic!("HARNESS: op"),
        }
    }
}
/// an approximation: its automaton, its runs, and what they stand for
fn refine<St, A1, S1, I1, S2, I2>(a1: &A1, strategy: St, case: &Value, sym1: &dyn Fn(&S1::Sym) -> Value, sym2: &dyn Fn(&S2::Sym) -> Value, rec: &Rec)
where
    S1: Stored + Clone + Eq,
    I1: Stored<Sym = S1::Sym> + Clone + Eq + Ord + Instruction<Storage = S1>,
    S2: Stored + Clone + Eq,
    I2: Stored<Sym = S2::Sym> + Clone + Eq + Ord + Instruction<Storage = S2>,
    St: ApproximationStrategy<i64, W, I1 = I1, I2 = I2, A1 = A1>,
    A1: Automaton<i64, W, I = I1>,
    <St::A2 as Automaton<i64, W>>::IInt: Ord,
    <<St::A2 as Automaton<i64, W>>::IInt as Instruction>::Storage: Clone + Eq + Ord,
    <St::A2 as Automaton<i64, W>>::TInt: Clone + Eq + Ord,
{
    let (a2, inst): (St::A2, ApproximationInstance<St, i64, W>) = strategy.approximate_automaton(a1);
    drive(&a2, case, sym2, rec, &|i: &Item<S2, I2, i64, W>, v| {
        let runs: Vec<_> = inst.unapproximate_run(i.1.clone()).into_iter().map(|r| run_value(&r, sym1)).collect();
        v["back"] = json!(runs);
    });
    for t in a2.transitions() {
        rec.ev(json!({"op": "untrans", "t": trans(&t, sym2), "back": inst.unapproximate_transition(&t).iter().map(|t| trans(t, sym1)).collect::<Vec<_>>()}));
    }
    for t in a1.transitions() {
        rec.ev(json!({"op": "one", "t": trans(&t, sym1), "i": inst.approximate_instruction(&t.instruction).show(sym2)}));
    }
    for st in self::a(case, "words") {
        if s(st, "op") == "recog" {
            for i in recognise_storages(a1, ints(&st["word"])) {
                rec.ev(json!({"op": "storage", "of": i.show(sym1), "to": inst.approximate_storage(i.clone()).show(sym2)}));
            }
        }
    }
}
/// some storages that occur: those along the transitions that can be taken one after the other, whatever they read
fn recognise_storages<A1, S1: Clone + Eq, I1>(a1: &A1, pick: Vec<i64>) -> Vec<S1>
where
    I1: Instruction<Storage = S1>,
    A1: Automaton<i64, W, I = I1>,
    I1: Clone,
{
    let ts: Vec<_> = a1.transitions().collect();
    let mut out = vec![a1.initial()];
    for p in pick {
        let cur = out[out.len() - 1].clone();
        let succ: Vec<S1> = ts.iter().flat_map(|t| t.instruction.apply(cur.clone())).collect();
        if succ.is_empty() {
            break;
        }
        out.push(succ[p.unsigned_abs() as usize % succ.len()].clone());
    }
    out
}
fn c2f<R, S, I>(r: &R, case: &Value, sym: &dyn Fn(&S::Sym) -> Value, rec: &Rec)
where
    S: Stored,
    I: Stored<Sym = S::Sym> + Clone,
    R: Recognisable<i64, W, Parse = Item<S, I, i64, W>>,
{
    for step in a(case, "words") {
        if s(step, "op") == "recog" {
            ran("c2f", step, r.recognise(ints(&step["word"])), sym, rec, &|_, _| ());
        }
    }
}

pub fn num(x: &i64) -> Value {
    json!(x)
}
fn push_sym(x: &PushState<i64, i64>) -> Value {
    match x {
        PushState::Designated => json!(["@"]),
        PushState::Initial => json!(["I"]),
        PushState::Nt(n) => json!(["N", n]),
        PushState::T(t) => json!(["T", t]),
    }
}
fn pos_sym<X>(x: &PosState<X>, f: &dyn Fn(&X) -> Value) -> Value {
    match x {
        PosState::Designated => json!(["@"]),
        PosState::Initial => json!(["I"]),
        PosState::Position(r, i, j) => json!(["P", f(r), i, j]),
    }
}
fn cfg(g: &Value) -> CFG<i64, i64, W> {
    let letter = |x: &Value| if x[0] == "N" { LetterT::Label(x[1].as_i64().expect("HARNESS: comp")) } else { LetterT::Value(x[1].as_i64().expect("HARNESS: comp")) };
    CFG {
        initial: ints(&g["init"]),
        rules: a(g, "rules").iter().map(|r| CFGRule { head: i(r, "head"), composition: CFGComposition { composition: a(r, "comp").iter().map(letter).collect() }, weight: weight(&r["w"]) }).collect(),
    }
}
fn pmcfg(g: &Value) -> PMCFG<i64, i64, W> {
    let n = |x: &Value| x.as_u64().expect("HARNESS: comp") as usize;
    let letter = |x: &Value| if x[0] == "V" { VarT::Var(n(&x[1]), n(&x[2])) } else { VarT::T(x[1].as_i64().expect("HARNESS: comp")) };
    PMCFG {
        initial: ints(&g["init"]),
        rules: a(g, "rules")
            .iter()
            .map(|r| PMCFGRule {
                head: i(r, "head"),
                tail: ints(&r["tail"]),
                composition: Composition { composition: a(r, "comp").iter().map(|c| c.as_array().expect("HARNESS: comp").iter().map(letter).collect()).collect() },
                weight: weight(&r["w"]),
            })
            .collect(),
    }
}
/// the symbol maps of a case: [[from, to], ...]
fn lookup(m: &Value) -> impl Fn(&i64) -> i64 + '_ {
    move |x| {
        for p in m.as_array().expect("HARNESS: map") {
            if p[0].as_i64() == Some(*x) {
                return p[1].as_i64().expect("HARNESS: map");
            }
        }
        panic!("HARNESS: symbol {} not mapped", x)
    }
}
fn list<I, F: Fn(&Value) -> I>(case: &Value, f: F) -> Vec<Transition<I, i64, W>> {
    a(case, "trans").iter().map(|t| Transition { word: ints(&t[0]), weight: weight(&t[1]), instruction: f(&t[2]) }).collect()
}
pub fn pd_instr(v: &Value) -> PushDownInstruction<i64> {
    PushDownInstruction::Replace { current_val: ints(&v[1]), new_val: ints(&v[2]) }
}
pub fn pda(case: &Value) -> PushDownAutomaton<i64, i64, W> {
    PushDownAutomaton::new(list(case, pd_instr), PushDown::from(ints(&case["init"])))
}
pub fn tsa(case: &Value) -> TreeStackAutomaton<i64, i64, W> {
    TreeStackAutomaton::new(list(case, crate::storages::tinstr), TreeStack::new(i(case, "init")))
}
pub fn fs_instr(v: &Value) -> FiniteStateInstruction<i64> {
    format!("{} -> {}", v[1], v[2]).parse().expect("HARNESS: instr")
}
pub fn fsa(case: &Value) -> FiniteStateAutomaton<i64, i64, W> {
    FiniteStateAutomaton::new(list(case, fs_instr), i(case, "init"), ints(&case["fin"]))
}
fn clone_of<A: Clone>(a: &A) -> A {
    a.clone()
}

pub fn run(case: &Value, rec: &Rec) {
    let none = Value::Null;
    let chain: Vec<&Value> = case.get("chain").and_then(|c| c.as_array()).map(|c| c.iter().collect()).unwrap_or_default();
    let strat = |k: usize| -> &Value { chain.get(k).map(|c| &c[1]).unwrap_or(&none) };
    let what = s(case, "what");
    macro_rules! task {
        ($a:expr, $sym:expr, $n:expr, [$($first:expr, $sym2:expr)?], [$($s1:expr),*], $extra:expr) => {
            match what {
                "run" => drive(&$a, case, $sym, rec, $extra),
                $("approx" => refine(&$a, $first, case, $sym, $sym2, rec),)?
                "c2f" => { let r = coarse_to_fine_recogniser!(clone_of(&$a); $($s1),*); c2f(&r, case, $sym, rec) }
                _ => panic!("HARNESS: what"),
            }
        };
    }
    match (s(case, "kind"), chain.len()) {
        ("fsa", _) => drive(&fsa(case), case, &num, rec, &|_, _| ()),
        ("pda", 0..=1) => {
            let m1 = lookup(strat(0));
            let f1 = |x: &i64| m1(x);
            task!(pda(case), &num, 1, [RlbElement::new(&f1), &num], [RlbElement::new(&f1)], &|_, _| ())
        }
        ("pda", _) => {
            let (m1, m2) = (lookup(strat(0)), lookup(strat(1)));
            let (f1, f2) = (|x: &i64| m1(x), |x: &i64| m2(x));
            task!(pda(case), &num, 2, [], [RlbElement::new(&f1), RlbElement::new(&f2)], &|_, _| ())
        }
        ("tsa", 0..=1) => task!(tsa(case), &num, 1, [TTSElement::new(), &num], [TTSElement::new()], &|_, _| ()),
        ("tsa", 2) => {
            let m1 = lookup(strat(1));
            let f1 = |x: &i64| m1(x);
            task!(tsa(case), &num, 2, [], [TTSElement::new(), RlbElement::new(&f1)], &|_, _| ())
        }
        ("tsa", _) => {
            let (m1, m2) = (lookup(strat(1)), lookup(strat(2)));
            let (f1, f2) = (|x: &i64| m1(x), |x: &i64| m2(x));
            task!(tsa(case), &num, 3, [], [TTSElement::new(), RlbElement::new(&f1), RlbElement::new(&f2)], &|_, _| ())
        }
        ("cfg", _) => {
            let m1 = lookup(strat(0));
            let f1 = |x: &PushState<i64, i64>| x.map(|n| m1(n));
            let g = cfg(&case["g"]);
            task!(PushDownAutomaton::from(g.clone()), &push_sym, 1, [RlbElement::new(&f1), &push_sym], [RlbElement::new(&f1)], &|_, _| ())
        }
        ("pmcfg", n) => {
            let g = pmcfg(&case["g"]);
            let rules = g.rules.clone();
            let index = |r: &Rule| json!(rules.iter().position(|q| q == r).map(|k| k as i64 + 1).unwrap_or(-1));
            let sym = |x: &PosState<Rule>| pos_sym(x, &index);
            let aut = TreeStackAutomaton::from(g.clone());
            let tree = |i: &Item<TreeStack<PosState<Rule>>, TreeStackInstruction<PosState<Rule>>, i64, W>, v: &mut Value| {
                v["tree"] = json!(to_abstract_syntax_tree(i.0.storage.to_tree()).into_iter().map(|(a, r)| json!([a, index(&r)])).collect::<Vec<_>>());
            };
            if n <= 1 {
                task!(aut, &sym, 1, [TTSElement::new(), &sym], [TTSElement::new()], &tree)
            } else {
                let m1 = lookup(&chain[1][2]);
                let f1 = |x: &PosState<Rule>| x.map(|r| m1(&r.head));
                task!(aut, &sym, 2, [], [TTSElement::new(), RlbElement::new(&f1)], &tree)
            }
        }
        _ => panic!("HARNESS: kind"),
    }
}
#[allow(dead_code)]
fn unused<T: Hash>(_: T) {}
