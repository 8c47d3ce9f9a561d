//! Stand-in for the rayon API used by the library, with a controllable scheduler (see `mc`).
#![allow(clippy::all)]
pub mod mc;
use std::sync::Mutex;

pub mod prelude {
    pub use crate::{FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelExtend, ParallelIterator, ParallelSlice, ParallelSliceMut};
}
pub mod iter { pub use crate::{FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelExtend, ParallelIterator}; }
pub mod slice { pub use crate::{ParallelSlice, ParallelSliceMut}; }

pub trait ParallelIterator: Sized + Send {
    type Item: Send;
    /// Calls `c(worker, sequence number, item)` for every item, on all workers.
    fn drive(self, c: &(dyn Fn(usize, usize, Self::Item) + Sync));
    fn drive_seq(self) -> Vec<(usize, Self::Item)> {
        let v = Mutex::new(Vec::new());
        self.drive(&|_, i, x| mc::masked(|| v.lock().unwrap().push((i, x))));
        let mut v = v.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        v
    }

    fn map<R: Send, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Map<Self, F> { Map(self, f) }
    fn map_with<T: Send + Clone + Sync, R: Send, F: Fn(&mut T, Self::Item) -> R + Sync + Send>(self, t: T, f: F) -> impl ParallelIterator<Item = R> { self.map(move |x| { let mut t = t.clone(); f(&mut t, x) }) }
    fn map_init<T, R: Send, I: Fn() -> T + Sync + Send, F: Fn(&mut T, Self::Item) -> R + Sync + Send>(self, init: I, f: F) -> impl ParallelIterator<Item = R> { self.map(move |x| { let mut t = init(); f(&mut t, x) }) }
    fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> FilterMap<Self, impl Fn(Self::Item) -> Option<Self::Item> + Sync + Send> { FilterMap(self, move |x| if f(&x) { Some(x) } else { None }) }
    fn filter_map<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> FilterMap<Self, F> { FilterMap(self, f) }
    fn inspect<F: Fn(&Self::Item) + Sync + Send>(self, f: F) -> impl ParallelIterator<Item = Self::Item> { self.map(move |x| { f(&x); x }) }
    fn flat_map_iter<S: IntoIterator, F: Fn(Self::Item) -> S + Sync + Send>(self, f: F) -> FlatMapIter<Self, F> where S::Item: Send { FlatMapIter(self, f) }
    fn cloned<'a, T: 'a + Clone + Send + Sync>(self) -> impl ParallelIterator<Item = T> where Self: ParallelIterator<Item = &'a T> { self.map(|x: &'a T| x.clone()) }
    fn copied<'a, T: 'a + Copy + Send + Sync>(self) -> impl ParallelIterator<Item = T> where Self: ParallelIterator<Item = &'a T> { self.map(|x: &'a T| *x) }

    fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) { self.drive(&|_, _, x| f(x)); }
    fn for_each_init<T, I: Fn() -> T + Sync + Send, F: Fn(&mut T, Self::Item) + Sync + Send>(self, init: I, f: F) { self.drive(&|_, _, x| { let mut t = init(); f(&mut t, x) }); }
    fn for_each_with<T: Send + Clone + Sync, F: Fn(&mut T, Self::Item) + Sync + Send>(self, t: T, f: F) { self.drive(&|_, _, x| { let mut t = t.clone(); f(&mut t, x) }); }
    fn try_for_each<E: Send, F: Fn(Self::Item) -> Result<(), E> + Sync + Send>(self, f: F) -> Result<(), E> {
        let e = Mutex::new(None);
        self.drive(&|_, _, x| { if mc::masked(|| e.lock().unwrap().is_some()) { return; } if let Err(x) = f(x) { mc::masked(|| { e.lock().unwrap().get_or_insert(x); }) } });
        match e.into_inner().unwrap() { Some(e) => Err(e), None => Ok(()) }
    }
    /// items grouped by the worker that produced them
    fn per_worker(self) -> Vec<Vec<Self::Item>> {
        let v: Mutex<Vec<(usize, Vec<Self::Item>)>> = Mutex::new(Vec::new());
        self.drive(&|w, _, x| {
            mc::masked(|| {
                let mut v = v.lock().unwrap();
                if let Some(e) = v.iter_mut().find(|e| e.0 == w) { e.1.push(x); } else { v.push((w, vec![x])); }
            })
        });
        v.into_inner().unwrap().into_iter().map(|x| x.1).collect()
    }
    fn sum<S: Send + std::iter::Sum<Self::Item> + std::iter::Sum<S>>(self) -> S { self.per_worker().into_iter().map(|v| v.into_iter().sum::<S>()).sum() }
    fn product<S: Send + std::iter::Product<Self::Item> + std::iter::Product<S>>(self) -> S { self.per_worker().into_iter().map(|v| v.into_iter().product::<S>()).product() }
    fn reduce<ID: Fn() -> Self::Item + Sync + Send, OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, id: ID, op: OP) -> Self::Item {
        self.per_worker().into_iter().map(|v| v.into_iter().fold(id(), &op)).fold(id(), &op)
    }
    fn reduce_with<OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, op: OP) -> Option<Self::Item> {
        self.per_worker().into_iter().filter_map(|v| v.into_iter().reduce(&op)).reduce(&op)
    }
    fn try_reduce<T: Send, E: Send, ID: Fn() -> T + Sync + Send, OP: Fn(T, T) -> Result<T, E> + Sync + Send>(self, id: ID, op: OP) -> Result<T, E> where Self: ParallelIterator<Item = Result<T, E>> {
        let mut acc = id();
        for v in self.per_worker() { let mut a = id(); for x in v { a = op(a, x?)?; } acc = op(acc, a)?; }
        Ok(acc)
    }
    fn fold<T: Send, ID: Fn() -> T + Sync + Send, F: Fn(T, Self::Item) -> T + Sync + Send>(self, id: ID, f: F) -> Src<std::vec::IntoIter<T>> {
        let v: Mutex<Vec<(usize, Option<T>)>> = Mutex::new(Vec::new());
        self.drive(&|w, _, x| {
            let old = mc::masked(|| { let mut v = v.lock().unwrap(); match v.iter_mut().find(|e| e.0 == w) { Some(e) => e.1.take(), None => { v.push((w, None)); None } } });
            let new = f(old.unwrap_or_else(&id), x);
            mc::masked(|| v.lock().unwrap().iter_mut().find(|e| e.0 == w).unwrap().1 = Some(new));
        });
        Src(v.into_inner().unwrap().into_iter().filter_map(|x| x.1).collect::<Vec<_>>().into_iter())
    }
    fn count(self) -> usize { self.drive_seq().len() }
    fn min(self) -> Option<Self::Item> where Self::Item: Ord { self.drive_seq().into_iter().map(|x| x.1).min() }
    fn max(self) -> Option<Self::Item> where Self::Item: Ord { self.drive_seq().into_iter().map(|x| x.1).max() }
    fn min_by_key<K: Ord + Send, F: Fn(&Self::Item) -> K + Sync + Send>(self, f: F) -> Option<Self::Item> { self.drive_seq().into_iter().map(|x| x.1).min_by_key(f) }
    fn max_by_key<K: Ord + Send, F: Fn(&Self::Item) -> K + Sync + Send>(self, f: F) -> Option<Self::Item> { self.drive_seq().into_iter().map(|x| x.1).max_by_key(f) }
    fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool { self.map(f).drive_seq().into_iter().any(|x| x.1) }
    fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool { self.map(f).drive_seq().into_iter().all(|x| x.1) }
    fn collect<C: FromParallelIterator<Self::Item>>(self) -> C { C::from_par(self.drive_seq().into_iter().map(|x| x.1).collect()) }
    fn find_any<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> { self.drive_seq().into_iter().map(|x| x.1).find(f) }
    fn find_first<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> { self.drive_seq().into_iter().map(|x| x.1).find(f) }
    fn chain<C: IntoParallelIterator<Item = Self::Item>>(self, o: C) -> Src<std::vec::IntoIter<Self::Item>> {
        let mut v: Vec<_> = self.drive_seq().into_iter().map(|x| x.1).collect();
        v.extend(o.into_par_iter().drive_seq().into_iter().map(|x| x.1));
        Src(v.into_iter())
    }
}
pub trait IndexedParallelIterator: ParallelIterator {
    fn enumerate(self) -> Enumerate<Self> { Enumerate(self) }
    fn zip<Z: IntoParallelIterator>(self, z: Z) -> Src<std::vec::IntoIter<(Self::Item, Z::Item)>> {
        let a = self.drive_seq(); let b = z.into_par_iter().drive_seq();
        Src(a.into_iter().zip(b).map(|(a, b)| (a.1, b.1)).collect::<Vec<_>>().into_iter())
    }
    fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> Src<std::vec::IntoIter<(Self::Item, Z::Item)>> { self.zip(z) }
    fn rev(self) -> Src<std::vec::IntoIter<Self::Item>> { let mut v: Vec<_> = self.drive_seq().into_iter().map(|x| x.1).collect(); v.reverse(); Src(v.into_iter()) }
    fn take(self, n: usize) -> Src<std::vec::IntoIter<Self::Item>> { Src(self.drive_seq().into_iter().map(|x| x.1).take(n).collect::<Vec<_>>().into_iter()) }
    fn skip(self, n: usize) -> Src<std::vec::IntoIter<Self::Item>> { Src(self.drive_seq().into_iter().map(|x| x.1).skip(n).collect::<Vec<_>>().into_iter()) }
    fn with_min_len(self, _: usize) -> Self { self }
    fn with_max_len(self, _: usize) -> Self { self }
}
impl<T: ParallelIterator> IndexedParallelIterator for T {}

pub struct Src<I>(I);
impl<I: Iterator + Send> ParallelIterator for Src<I> where I::Item: Send {
    type Item = I::Item;
    fn drive(self, c: &(dyn Fn(usize, usize, I::Item) + Sync)) {
        if mc::worker_count() <= 1 {
            for (i, x) in self.0.enumerate() { c(0, i, x); }
            return;
        }
        let src = Mutex::new(self.0.enumerate());
        mc::workers(&|w| loop {
            mc::point("pull");
            let n = mc::masked(|| src.lock().unwrap().next());
            match n { Some((i, x)) => c(w, i, x), None => break }
        });
    }
}
pub struct Map<P, F>(P, F);
impl<P: ParallelIterator, R: Send, F: Fn(P::Item) -> R + Sync + Send> ParallelIterator for Map<P, F> {
    type Item = R;
    fn drive(self, c: &(dyn Fn(usize, usize, R) + Sync)) { let f = &self.1; self.0.drive(&|w, i, x| c(w, i, f(x))); }
}
pub struct FilterMap<P, F>(P, F);
impl<P: ParallelIterator, R: Send, F: Fn(P::Item) -> Option<R> + Sync + Send> ParallelIterator for FilterMap<P, F> {
    type Item = R;
    fn drive(self, c: &(dyn Fn(usize, usize, R) + Sync)) { let f = &self.1; self.0.drive(&|w, i, x| if let Some(y) = f(x) { c(w, i, y) }); }
}
pub struct FlatMapIter<P, F>(P, F);
impl<P: ParallelIterator, S: IntoIterator, F: Fn(P::Item) -> S + Sync + Send> ParallelIterator for FlatMapIter<P, F> where S::Item: Send {
    type Item = S::Item;
    fn drive(self, c: &(dyn Fn(usize, usize, S::Item) + Sync)) { let f = &self.1; self.0.drive(&|w, i, x| for y in f(x) { c(w, i, y) }); }
}
pub struct Enumerate<P>(P);
impl<P: ParallelIterator> ParallelIterator for Enumerate<P> {
    type Item = (usize, P::Item);
    fn drive(self, c: &(dyn Fn(usize, usize, Self::Item) + Sync)) { self.0.drive(&|w, i, x| c(w, i, (i, x))); }
}

pub trait ParallelBridge: Sized { fn par_bridge(self) -> Src<Self>; }
impl<I: Iterator + Send> ParallelBridge for I where I::Item: Send { fn par_bridge(self) -> Src<Self> { Src(self) } }

pub trait IntoParallelIterator { type Iter: ParallelIterator<Item = Self::Item>; type Item: Send; fn into_par_iter(self) -> Self::Iter; }
impl<P: ParallelIterator> IntoParallelIterator for P { type Iter = P; type Item = P::Item; fn into_par_iter(self) -> P { self } }
impl<T: Send> IntoParallelIterator for Vec<T> { type Iter = Src<std::vec::IntoIter<T>>; type Item = T; fn into_par_iter(self) -> Self::Iter { Src(self.into_iter()) } }
impl<T: Send> IntoParallelIterator for Box<[T]> { type Iter = Src<std::vec::IntoIter<T>>; type Item = T; fn into_par_iter(self) -> Self::Iter { Src(self.into_vec().into_iter()) } }
impl<'a, T: Sync> IntoParallelIterator for &'a [T] { type Iter = Src<std::slice::Iter<'a, T>>; type Item = &'a T; fn into_par_iter(self) -> Self::Iter { Src(self.iter()) } }
impl<'a, T: Send> IntoParallelIterator for &'a mut [T] { type Iter = Src<std::slice::IterMut<'a, T>>; type Item = &'a mut T; fn into_par_iter(self) -> Self::Iter { Src(self.iter_mut()) } }
impl<'a, T: Sync> IntoParallelIterator for &'a Vec<T> { type Iter = Src<std::slice::Iter<'a, T>>; type Item = &'a T; fn into_par_iter(self) -> Self::Iter { Src(self.iter()) } }
impl<'a, T: Send> IntoParallelIterator for &'a mut Vec<T> { type Iter = Src<std::slice::IterMut<'a, T>>; type Item = &'a mut T; fn into_par_iter(self) -> Self::Iter { Src(self.iter_mut()) } }
macro_rules! ranges { ($($t:ty),*) => { $(
    impl IntoParallelIterator for std::ops::Range<$t> { type Iter = Src<std::ops::Range<$t>>; type Item = $t; fn into_par_iter(self) -> Self::Iter { Src(self) } }
    impl IntoParallelIterator for std::ops::RangeInclusive<$t> { type Iter = Src<std::ops::RangeInclusive<$t>>; type Item = $t; fn into_par_iter(self) -> Self::Iter { Src(self) } }
)* } }
ranges!(usize, u64, u32, u16, u8, i32, i64, isize);
pub trait IntoParallelRefIterator<'a> { type Iter: ParallelIterator<Item = Self::Item>; type Item: Send + 'a; fn par_iter(&'a self) -> Self::Iter; }
impl<'a, T: Sync + 'a> IntoParallelRefIterator<'a> for [T] { type Iter = Src<std::slice::Iter<'a, T>>; type Item = &'a T; fn par_iter(&'a self) -> Self::Iter { Src(self.iter()) } }
impl<'a, T: Sync + 'a> IntoParallelRefIterator<'a> for Vec<T> { type Iter = Src<std::slice::Iter<'a, T>>; type Item = &'a T; fn par_iter(&'a self) -> Self::Iter { Src(self.iter()) } }
pub trait IntoParallelRefMutIterator<'a> { type Iter: ParallelIterator<Item = Self::Item>; type Item: Send + 'a; fn par_iter_mut(&'a mut self) -> Self::Iter; }
impl<'a, T: Send + 'a> IntoParallelRefMutIterator<'a> for [T] { type Iter = Src<std::slice::IterMut<'a, T>>; type Item = &'a mut T; fn par_iter_mut(&'a mut self) -> Self::Iter { Src(self.iter_mut()) } }
impl<'a, T: Send + 'a> IntoParallelRefMutIterator<'a> for Vec<T> { type Iter = Src<std::slice::IterMut<'a, T>>; type Item = &'a mut T; fn par_iter_mut(&'a mut self) -> Self::Iter { Src(self.iter_mut()) } }

pub trait ParallelSlice<T: Sync> {
    fn as_par(&self) -> &[T];
    fn par_chunks(&self, n: usize) -> Src<std::slice::Chunks<'_, T>> { Src(self.as_par().chunks(n)) }
    fn par_chunks_exact(&self, n: usize) -> Src<std::slice::ChunksExact<'_, T>> { Src(self.as_par().chunks_exact(n)) }
    fn par_windows(&self, n: usize) -> Src<std::slice::Windows<'_, T>> { Src(self.as_par().windows(n)) }
}
impl<T: Sync> ParallelSlice<T> for [T] { fn as_par(&self) -> &[T] { self } }
pub trait ParallelSliceMut<T: Send> {
    fn as_par_mut(&mut self) -> &mut [T];
    fn par_chunks_mut(&mut self, n: usize) -> Src<std::slice::ChunksMut<'_, T>> { Src(self.as_par_mut().chunks_mut(n)) }
    fn par_chunks_exact_mut(&mut self, n: usize) -> Src<std::slice::ChunksExactMut<'_, T>> { Src(self.as_par_mut().chunks_exact_mut(n)) }
    fn par_sort(&mut self) where T: Ord { self.as_par_mut().sort() }
    fn par_sort_unstable(&mut self) where T: Ord { self.as_par_mut().sort_unstable() }
    fn par_sort_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) { self.as_par_mut().sort_by_key(f) }
    fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) { self.as_par_mut().sort_unstable_by_key(f) }
}
impl<T: Send> ParallelSliceMut<T> for [T] { fn as_par_mut(&mut self) -> &mut [T] { self } }

pub trait FromParallelIterator<T: Send>: Sized { fn from_par(v: Vec<T>) -> Self; }
impl<T: Send> FromParallelIterator<T> for Vec<T> { fn from_par(v: Vec<T>) -> Self { v } }
impl<T: Send> FromParallelIterator<T> for Box<[T]> { fn from_par(v: Vec<T>) -> Self { v.into_boxed_slice() } }
impl<T: Send, E: Send, C: FromParallelIterator<T>> FromParallelIterator<Result<T, E>> for Result<C, E> { fn from_par(v: Vec<Result<T, E>>) -> Self { let v: Result<Vec<T>, E> = v.into_iter().collect(); v.map(C::from_par) } }
impl<T: Send, C: FromParallelIterator<T>> FromParallelIterator<Option<T>> for Option<C> { fn from_par(v: Vec<Option<T>>) -> Self { let v: Option<Vec<T>> = v.into_iter().collect(); v.map(C::from_par) } }
pub trait ParallelExtend<T: Send> { fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I); }
impl<T: Send> ParallelExtend<T> for Vec<T> { fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) { self.extend(i.into_par_iter().drive_seq().into_iter().map(|x| x.1)) } }

pub struct Scope<'scope> { g: *const mc::Group<'scope>, m: std::marker::PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>> }
unsafe impl Send for Scope<'_> {}
unsafe impl Sync for Scope<'_> {}
impl<'scope> Scope<'scope> {
    pub fn spawn<F: FnOnce(&Scope<'scope>) + Send + 'scope>(&self, f: F) {
        let s2 = Scope { g: self.g, m: std::marker::PhantomData };
        unsafe { &*self.g }.spawn(Box::new(move || { let s2 = s2; f(&s2) }));
    }
}
pub fn in_place_scope<'scope, OP: FnOnce(&Scope<'scope>) -> R, R>(op: OP) -> R {
    mc::group(|g: &mc::Group<'scope>| op(&Scope { g, m: std::marker::PhantomData }))
}
pub fn scope<'scope, OP: FnOnce(&Scope<'scope>) -> R + Send, R: Send>(op: OP) -> R { in_place_scope(op) }
pub fn join<A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send>(a: A, b: B) -> (RA, RB) {
    let rb = Mutex::new(None);
    let rbr = &rb;
    let ra = mc::group(|g| { g.spawn(Box::new(move || { let x = b(); mc::masked(|| *rbr.lock().unwrap() = Some(x)); })); a() });
    (ra, rb.into_inner().unwrap().unwrap())
}
pub fn current_num_threads() -> usize { mc::worker_count() }
pub fn current_thread_index() -> Option<usize> { Some(mc::worker_index()) }
pub fn max_num_threads() -> usize { 1 << 16 }
