//! Parallel iteration with the order in which the tasks run taken from VERIF_TASKS (a permutation's number); what the
//! iterators deliver keeps the order of the items, as rayon's does.
fn order(n: usize) -> Vec<usize> {
    let mut k: usize = std::env::var("VERIF_TASKS").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in (1..=n).rev() { out.push(left.remove(k % i)); k /= i; }
    out
}
fn run<T, R, F: FnMut(T) -> R>(items: Vec<T>, mut f: F) -> Vec<R> {
    let n = items.len();
    let mut slots: Vec<Option<T>> = items.into_iter().map(Some).collect();
    let mut res: Vec<Option<R>> = (0..n).map(|_| None).collect();
    for i in order(n) { res[i] = Some(f(slots[i].take().unwrap())) }
    res.into_iter().map(|x| x.unwrap()).collect()
}
pub struct Par<'a, T> { run: Box<dyn FnOnce() -> Vec<T> + 'a> }
pub mod iter {
    pub use super::*;
    pub trait ParallelIterator<'a>: Sized {
        type Item: 'a;
        fn items(self) -> Vec<Self::Item>;
        fn map<R: 'a, F: Fn(Self::Item) -> R + 'a>(self, f: F) -> Par<'a, R> where Self: 'a { Par { run: Box::new(move || run(self.items(), |x| f(x))) } }
        fn filter<F: Fn(&Self::Item) -> bool + 'a>(self, f: F) -> Par<'a, Self::Item> where Self: 'a { Par { run: Box::new(move || self.items().into_iter().filter(|x| f(x)).collect()) } }
        fn filter_map<R: 'a, F: Fn(Self::Item) -> Option<R> + 'a>(self, f: F) -> Par<'a, R> where Self: 'a { Par { run: Box::new(move || run(self.items(), |x| f(x)).into_iter().flatten().collect()) } }
        fn for_each<F: Fn(Self::Item)>(self, f: F) { run(self.items(), |x| f(x)); }
        fn collect<C: std::iter::FromIterator<Self::Item>>(self) -> C { self.items().into_iter().collect() }
        fn reduce<ID: Fn() -> Self::Item, OP: Fn(Self::Item, Self::Item) -> Self::Item>(self, id: ID, op: OP) -> Self::Item { self.items().into_iter().fold(id(), |a, b| op(a, b)) }
        fn sum<S: std::iter::Sum<Self::Item>>(self) -> S { self.items().into_iter().sum() }
    }
    impl<'a, T: 'a> ParallelIterator<'a> for Par<'a, T> { type Item = T; fn items(self) -> Vec<T> { (self.run)() } }
    pub trait IntoParallelRefIterator<'a> { type Item: 'a; fn par_iter(&'a self) -> Par<'a, Self::Item>; }
    impl<'a, T: 'a> IntoParallelRefIterator<'a> for [T] { type Item = &'a T; fn par_iter(&'a self) -> Par<'a, &'a T> { Par { run: Box::new(move || self.iter().collect()) } } }
    impl<'a, T: 'a> IntoParallelRefIterator<'a> for Vec<T> { type Item = &'a T; fn par_iter(&'a self) -> Par<'a, &'a T> { Par { run: Box::new(move || self.iter().collect()) } } }
    pub trait IntoParallelIterator<'a> { type Item: 'a; fn into_par_iter(self) -> Par<'a, Self::Item>; }
    impl<'a, T: 'a> IntoParallelIterator<'a> for Vec<T> { type Item = T; fn into_par_iter(self) -> Par<'a, T> { Par { run: Box::new(move || self) } } }
}
pub mod prelude { pub use super::iter::*; }
