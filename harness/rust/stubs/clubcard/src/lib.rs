//! The contract of a clubcard. Approximate ribbons hold the included items of a block; exact ribbons, built once the
//! approximate ones are collected, decide for every item put into them. An item no exact ribbon decides may be answered
//! either way once it gets past the approximate filter (here: true). The bytes list all of it.
use std::collections::{BTreeMap, BTreeSet};
pub type Block = Vec<u8>;
/// what an item of the builder must offer
pub trait AsItem { fn block(&self) -> Vec<u8>; fn discriminant(&self) -> Vec<u8>; fn included(&self) -> bool; }
pub trait AsQuery { fn block(&self) -> Vec<u8>; fn discriminant(&self) -> Vec<u8>; }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Store {
    /// per block: universe size and included items
    pub approx: BTreeMap<Block, (usize, BTreeSet<Vec<u8>>)>,
    pub exact: BTreeMap<Block, BTreeMap<Vec<u8>, bool>>,
}
#[derive(Clone, Debug)]
pub struct Clubcard<const W: usize, U, P> { pub store: Store, pub universe: U, pub partition: P }
impl<const W: usize, U, P> Clubcard<W, U, P> {
    pub fn unchecked_contains<Q: AsQuery>(&self, q: &Q) -> bool {
        let (b, d) = (q.block(), q.discriminant());
        match self.store.approx.get(&b) {
            None => return false,
            Some((_, s)) => if s.is_empty() { return false },
        }
        match self.store.exact.get(&b).and_then(|m| m.get(&d)) { Some(f) => *f && self.store.approx[&b].1.contains(&d), None => true }
    }
    pub fn universe(&self) -> &U { &self.universe }
}
pub mod builder {
    use super::*;
    use std::marker::PhantomData;
    pub struct ApproximateRibbon<const W: usize, I> { pub block: Block, pub universe: usize, pub items: BTreeSet<Vec<u8>>, _p: PhantomData<I> }
    pub struct ExactRibbon<const W: usize, I> { pub block: Block, pub items: BTreeMap<Vec<u8>, bool>, _p: PhantomData<I> }
    pub struct Approx;
    pub struct Exact;
    pub struct RibbonBuilder<K, const W: usize, I> { block: Block, universe: usize, items: Vec<(Block, Vec<u8>, bool)>, _p: PhantomData<(K, I)> }
    impl<K, const W: usize, I: AsItem> RibbonBuilder<K, W, I> {
        pub fn insert(&mut self, i: I) { self.items.push((i.block(), i.discriminant(), i.included())) }
        pub fn set_universe_size(&mut self, n: usize) { self.universe = n }
    }
    impl<const W: usize, I> From<RibbonBuilder<Approx, W, I>> for ApproximateRibbon<W, I> {
        fn from(b: RibbonBuilder<Approx, W, I>) -> Self {
            let n = b.items.len();
            // the size of the approximate filter is computed from these two
            assert!(b.universe >= n, "universe of {} is smaller than the set of {}", b.universe, n);
            let items: BTreeSet<Vec<u8>> = b.items.into_iter().map(|(blk, d, inc)| { assert!(inc, "excluded item in an approximate ribbon"); assert!(blk == b.block, "item of another block"); d }).collect();
            ApproximateRibbon { block: b.block, universe: b.universe, items, _p: PhantomData }
        }
    }
    impl<const W: usize, I> From<RibbonBuilder<Exact, W, I>> for ExactRibbon<W, I> {
        fn from(b: RibbonBuilder<Exact, W, I>) -> Self {
            let mut items = BTreeMap::new();
            for (blk, d, inc) in b.items {
                assert!(blk == b.block, "item of another block");
                let old = items.insert(d, inc);
                assert!(old.is_none() || old == Some(inc), "an item with two answers has no solution");
            }
            ExactRibbon { block: b.block, items, _p: PhantomData }
        }
    }
    pub struct ClubcardBuilder<const W: usize, I> { store: Store, collected: bool, _p: PhantomData<I> }
    unsafe impl<const W: usize, I> Sync for ClubcardBuilder<W, I> {}
    impl<const W: usize, I: AsItem> ClubcardBuilder<W, I> {
        pub fn new() -> Self { ClubcardBuilder { store: Store::default(), collected: false, _p: PhantomData } }
        pub fn new_approx_builder(&self, block: &[u8]) -> RibbonBuilder<Approx, W, I> { RibbonBuilder { block: block.to_vec(), universe: 0, items: vec![], _p: PhantomData } }
        pub fn new_exact_builder(&self, block: &[u8]) -> RibbonBuilder<Exact, W, I> {
            assert!(self.collected, "exact ribbons are built on the collected approximate ones");
            RibbonBuilder { block: block.to_vec(), universe: 0, items: vec![], _p: PhantomData }
        }
        pub fn collect_approx_ribbons(&mut self, v: Vec<ApproximateRibbon<W, I>>) {
            self.collected = true;
            for r in v {
                let e = self.store.approx.entry(r.block).or_default();
                e.0 += r.universe;
                e.1.extend(r.items);
            }
        }
        pub fn collect_exact_ribbons(&mut self, v: Vec<ExactRibbon<W, I>>) {
            for r in v { self.store.exact.entry(r.block).or_default().extend(r.items) }
        }
        pub fn build<Q>(self, universe: Q::U, partition: Q::P) -> Clubcard<W, Q::U, Q::P> where Q: super::Meta { Clubcard { store: self.store, universe, partition } }
    }
    impl<const W: usize, I: AsItem> Default for ClubcardBuilder<W, I> { fn default() -> Self { Self::new() } }
}
/// the metadata types a query goes with
pub trait Meta { type U; type P; }
