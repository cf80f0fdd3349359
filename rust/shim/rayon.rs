//! stand-in for rayon: the same combinators, one after the other
pub struct Par<I>(pub I);
impl<I: Iterator> Par<I> {
    pub fn map<R, F: Fn(I::Item) -> R>(self, f: F) -> Par<std::vec::IntoIter<R>> {
        Par(self.0.map(f).collect::<Vec<R>>().into_iter())
    }
    pub fn reduce_with<F: Fn(I::Item, I::Item) -> I::Item>(self, f: F) -> Option<I::Item> { self.0.reduce(f) }
    pub fn for_each<F: Fn(I::Item)>(self, f: F) { self.0.for_each(f) }
    pub fn filter<F: Fn(&I::Item) -> bool>(self, f: F) -> Par<std::vec::IntoIter<I::Item>> { Par(self.0.filter(|x| f(x)).collect::<Vec<_>>().into_iter()) }
    pub fn enumerate(self) -> Par<std::iter::Enumerate<I>> { Par(self.0.enumerate()) }
    pub fn zip<J: prelude::IntoParallelIterator>(self, j: J) -> Par<std::iter::Zip<I, J::I>> { Par(self.0.zip(j.into_par_iter().0)) }
    pub fn rev(self) -> Par<std::iter::Rev<I>> where I: DoubleEndedIterator { Par(self.0.rev()) }
    pub fn with_min_len(self, _n: usize) -> Self { self }
    pub fn with_max_len(self, _n: usize) -> Self { self }
    pub fn map_with<T: Clone, R, F: Fn(&mut T, I::Item) -> R>(self, mut t: T, f: F) -> Par<std::vec::IntoIter<R>> { Par(self.0.map(|x| f(&mut t, x)).collect::<Vec<R>>().into_iter()) }
    pub fn fold<T, D: Fn() -> T, F: Fn(T, I::Item) -> T>(self, d: D, f: F) -> Par<std::vec::IntoIter<T>> { Par(vec![self.0.fold(d(), f)].into_iter()) }
    pub fn flat_map<R, J: prelude::IntoParallelIterator<I = R>, F: Fn(I::Item) -> J>(self, f: F) -> Par<std::vec::IntoIter<R::Item>> where R: Iterator { Par(self.0.flat_map(|x| f(x).into_par_iter().0).collect::<Vec<_>>().into_iter()) }
    pub fn count(self) -> usize { self.0.count() }
    pub fn max(self) -> Option<I::Item> where I::Item: Ord { self.0.max() }
    pub fn min(self) -> Option<I::Item> where I::Item: Ord { self.0.min() }
    pub fn any<F: Fn(I::Item) -> bool>(mut self, f: F) -> bool { self.0.any(f) }
    pub fn all<F: Fn(I::Item) -> bool>(mut self, f: F) -> bool { self.0.all(f) }
    pub fn sum<S: std::iter::Sum<I::Item>>(self) -> S { self.0.sum() }
    pub fn collect<C: std::iter::FromIterator<I::Item>>(self) -> C { self.0.collect() }
    pub fn reduce<D: Fn() -> I::Item, F: Fn(I::Item, I::Item) -> I::Item>(self, d: D, f: F) -> I::Item { self.0.fold(d(), f) }
}
pub mod prelude {
    pub use super::Par;
    pub trait IntoParallelIterator { type I: Iterator; fn into_par_iter(self) -> Par<Self::I>; }
    pub trait ParallelIterator {}
    impl<I: Iterator> ParallelIterator for Par<I> {}
    pub trait IndexedParallelIterator {}
    impl<I: Iterator> IndexedParallelIterator for Par<I> {}
    pub trait IntoParallelRefIterator<'a> { type I: Iterator; fn par_iter(&'a self) -> Par<Self::I>; }
    impl<'a, T: 'a + ?Sized> IntoParallelRefIterator<'a> for T where &'a T: IntoIterator { type I = <&'a T as IntoIterator>::IntoIter; fn par_iter(&'a self) -> Par<Self::I> { Par(self.into_iter()) } }
    pub trait IntoParallelRefMutIterator<'a> { type I: Iterator; fn par_iter_mut(&'a mut self) -> Par<Self::I>; }
    impl<'a, T: 'a + ?Sized> IntoParallelRefMutIterator<'a> for T where &'a mut T: IntoIterator { type I = <&'a mut T as IntoIterator>::IntoIter; fn par_iter_mut(&'a mut self) -> Par<Self::I> { Par(self.into_iter()) } }
    impl<T: IntoIterator> IntoParallelIterator for T { type I = T::IntoIter; fn into_par_iter(self) -> Par<T::IntoIter> { Par(self.into_iter()) } }
}
pub mod iter { pub use super::prelude::*; }
pub fn join<A, B, F: FnOnce() -> A, G: FnOnce() -> B>(f: F, g: G) -> (A, B) { (f(), g()) }
pub fn current_num_threads() -> usize { 1 }
