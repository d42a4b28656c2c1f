//! Stand-in for the unreachable git crate `integeriser`: a bijection between values and 0..size().
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash;

pub trait Integeriser {
    type Item;
    fn integerise(&mut self, value: Self::Item) -> usize;
    fn find_value(&self, key: usize) -> Option<&Self::Item>;
    fn find_key(&self, value: &Self::Item) -> Option<usize>;
    fn size(&self) -> usize;
}

#[derive(Clone, Debug)]
pub struct HashIntegeriser<A: Eq + Hash> {
    map: HashMap<A, usize>,
    rmap: Vec<A>,
}

impl<A: Eq + Hash> PartialEq for HashIntegeriser<A> {
    fn eq(&self, other: &Self) -> bool { self.rmap == other.rmap }
}
impl<A: Eq + Hash> Eq for HashIntegeriser<A> {}

impl<A: Clone + Eq + Hash> HashIntegeriser<A> {
    pub fn new() -> Self { HashIntegeriser { map: HashMap::new(), rmap: Vec::new() } }
}
impl<A: Clone + Eq + Hash> Default for HashIntegeriser<A> {
    fn default() -> Self { Self::new() }
}

impl<A: Clone + Eq + Hash> Integeriser for HashIntegeriser<A> {
    type Item = A;
    fn integerise(&mut self, value: A) -> usize {
        if let Some(&k) = self.map.get(&value) { return k; }
        let k = self.rmap.len();
        self.rmap.push(value.clone());
        self.map.insert(value, k);
        k
    }
    fn find_value(&self, key: usize) -> Option<&A> { self.rmap.get(key) }
    fn find_key(&self, value: &A) -> Option<usize> { self.map.get(value).cloned() }
    fn size(&self) -> usize { self.rmap.len() }
}
