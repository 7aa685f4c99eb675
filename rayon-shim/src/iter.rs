//! Parallel iterators: a list of pieces of work, run by the scheduler, results kept in order.
use crate::mc;
use std::cmp::Ordering;
use std::collections::*;
use std::hash::{BuildHasher, Hash};
use std::sync::atomic::{AtomicBool, Ordering as AO};
use std::sync::{Arc, Mutex};

/// One piece of work: produces any number of items.
pub trait Thunk<T>: Send {
    fn emit(self, out: &mut Vec<T>);
}
pub struct Val<T>(T);
impl<T: Send> Thunk<T> for Val<T> {
    fn emit(self, out: &mut Vec<T>) {
        out.push(self.0)
    }
}

pub struct Items<T>(pub Vec<T>);
impl<T: Send> ParallelIterator for Items<T> {
    type Item = T;
    type Th = Val<T>;
    fn thunks(self) -> Vec<Val<T>> {
        self.0.into_iter().map(Val).collect()
    }
}
impl<T: Send> IndexedParallelIterator for Items<T> {}

/// Run every piece of work; `stop` keeps pieces from starting.
fn run_stop<I: ParallelIterator, R: Send>(
    i: I,
    stop: &AtomicBool,
    f: impl Fn(Vec<I::Item>) -> R + Sync,
) -> Vec<Option<R>> {
    let th = i.thunks();
    let slots: Vec<Mutex<Option<R>>> = th.iter().map(|_| Mutex::new(None)).collect();
    {
        let f = &f;
        let jobs: Vec<Box<dyn FnOnce() + Send + '_>> = th
            .into_iter()
            .zip(&slots)
            .map(|(t, s)| {
                Box::new(move || {
                    if stop.load(AO::SeqCst) {
                        return;
                    }
                    let mut out = vec![];
                    t.emit(&mut out);
                    let r = f(out);
                    *s.lock().unwrap() = Some(r);
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        mc::fork_join(jobs);
    }
    slots.into_iter().map(|s| s.into_inner().unwrap()).collect()
}
fn run<I: ParallelIterator>(i: I) -> Vec<Vec<I::Item>> {
    run_stop(i, &AtomicBool::new(false), |v| v).into_iter().flatten().collect()
}
fn flat<I: ParallelIterator>(i: I) -> Vec<I::Item> {
    run(i).into_iter().flatten().collect()
}

/// Combine along a tree whose shape the chooser picks.
fn tree<P, R>(mut pieces: Vec<P>, leaf: &impl Fn(Vec<P>) -> R, join: &impl Fn(R, R) -> R) -> R {
    if mc::split(pieces.len()) {
        let right = pieces.split_off(pieces.len() / 2);
        let l = tree(pieces, leaf, join);
        let r = tree(right, leaf, join);
        join(l, r)
    } else {
        leaf(pieces)
    }
}
/// Cut into the leaves of such a tree.
fn leaves<P>(pieces: Vec<P>) -> Vec<Vec<P>> {
    tree(
        pieces,
        &|p| vec![p],
        &|mut a: Vec<Vec<P>>, b| {
            a.extend(b);
            a
        },
    )
}
fn reduce_opt<T: Send>(v: Vec<Vec<T>>, op: impl Fn(T, T) -> T) -> Option<T> {
    tree(
        v,
        &|p: Vec<Vec<T>>| p.into_iter().flatten().reduce(&op),
        &|a, b| match (a, b) {
            (Some(a), Some(b)) => Some(op(a, b)),
            (a, None) => a,
            (None, b) => b,
        },
    )
}

pub struct Map<B, F> {
    base: B,
    f: Arc<F>,
}
pub struct MapTh<X, F, T> {
    base: X,
    f: Arc<F>,
    p: std::marker::PhantomData<fn() -> T>,
}
impl<B: ParallelIterator, R: Send, F: Fn(B::Item) -> R + Send + Sync> ParallelIterator for Map<B, F> {
    type Item = R;
    type Th = MapTh<B::Th, F, B::Item>;
    fn thunks(self) -> Vec<Self::Th> {
        let f = self.f;
        self.base.thunks().into_iter().map(|base| MapTh { base, f: f.clone(), p: Default::default() }).collect()
    }
}
impl<B: IndexedParallelIterator, R: Send, F: Fn(B::Item) -> R + Send + Sync> IndexedParallelIterator for Map<B, F> {}
impl<T, R: Send, X: Thunk<T>, F: Fn(T) -> R + Send + Sync> Thunk<R> for MapTh<X, F, T> {
    fn emit(self, out: &mut Vec<R>) {
        let mut v = vec![];
        self.base.emit(&mut v);
        out.extend(v.into_iter().map(|x| (self.f)(x)));
    }
}

/// Any number of outputs per input.
pub struct Many<B, F> {
    base: B,
    f: Arc<F>,
}
fn many<B: ParallelIterator, R: Send, F: Fn(B::Item, &mut Vec<R>) + Send + Sync>(base: B, f: F) -> ManyOf<B, F, R> {
    ManyOf { m: Many { base, f: Arc::new(f) }, p: Default::default() }
}
pub struct ManyOf<B, F, R> {
    m: Many<B, F>,
    p: std::marker::PhantomData<fn() -> R>,
}
pub struct ManyTh<X, F, T, R> {
    base: X,
    f: Arc<F>,
    p: std::marker::PhantomData<fn() -> (T, R)>,
}
impl<B: ParallelIterator, R: Send, F: Fn(B::Item, &mut Vec<R>) + Send + Sync> ParallelIterator for ManyOf<B, F, R> {
    type Item = R;
    type Th = ManyTh<B::Th, F, B::Item, R>;
    fn thunks(self) -> Vec<Self::Th> {
        let f = self.m.f;
        self.m.base.thunks().into_iter().map(|base| ManyTh { base, f: f.clone(), p: Default::default() }).collect()
    }
}
impl<T, R: Send, X: Thunk<T>, F: Fn(T, &mut Vec<R>) + Send + Sync> Thunk<R> for ManyTh<X, F, T, R> {
    fn emit(self, out: &mut Vec<R>) {
        let mut v = vec![];
        self.base.emit(&mut v);
        for x in v {
            (self.f)(x, out);
        }
    }
}

pub struct Zip<A, B>(A, B);
pub struct ZipTh<X, Y, S, T>(X, Y, std::marker::PhantomData<fn() -> (S, T)>);
impl<A: ParallelIterator, B: ParallelIterator> ParallelIterator for Zip<A, B> {
    type Item = (A::Item, B::Item);
    type Th = ZipTh<A::Th, B::Th, A::Item, B::Item>;
    fn thunks(self) -> Vec<Self::Th> {
        self.0.thunks().into_iter().zip(self.1.thunks()).map(|(a, b)| ZipTh(a, b, Default::default())).collect()
    }
}
impl<A: IndexedParallelIterator, B: IndexedParallelIterator> IndexedParallelIterator for Zip<A, B> {}
impl<S: Send, T: Send, X: Thunk<S>, Y: Thunk<T>> Thunk<(S, T)> for ZipTh<X, Y, S, T> {
    fn emit(self, out: &mut Vec<(S, T)>) {
        let (mut a, mut b) = (vec![], vec![]);
        self.0.emit(&mut a);
        self.1.emit(&mut b);
        out.extend(a.into_iter().zip(b));
    }
}

pub struct Enumerate<B>(B);
pub struct EnumTh<X>(usize, X);
impl<B: ParallelIterator> ParallelIterator for Enumerate<B> {
    type Item = (usize, B::Item);
    type Th = EnumTh<B::Th>;
    fn thunks(self) -> Vec<Self::Th> {
        self.0.thunks().into_iter().enumerate().map(|(i, b)| EnumTh(i, b)).collect()
    }
}
impl<B: IndexedParallelIterator> IndexedParallelIterator for Enumerate<B> {}
impl<T: Send, X: Thunk<T>> Thunk<(usize, T)> for EnumTh<X> {
    fn emit(self, out: &mut Vec<(usize, T)>) {
        let mut v = vec![];
        self.1.emit(&mut v);
        out.extend(v.into_iter().map(|x| (self.0, x)));
    }
}

pub enum Either<A, B> {
    L(A),
    R(B),
}
impl<T: Send, A: Thunk<T>, B: Thunk<T>> Thunk<T> for Either<A, B> {
    fn emit(self, out: &mut Vec<T>) {
        match self {
            Either::L(a) => a.emit(out),
            Either::R(b) => b.emit(out),
        }
    }
}
pub struct Chain<A, B>(A, B);
impl<A: ParallelIterator, B: ParallelIterator<Item = A::Item>> ParallelIterator for Chain<A, B> {
    type Item = A::Item;
    type Th = Either<A::Th, B::Th>;
    fn thunks(self) -> Vec<Self::Th> {
        self.0.thunks().into_iter().map(Either::L).chain(self.1.thunks().into_iter().map(Either::R)).collect()
    }
}
impl<A: IndexedParallelIterator, B: IndexedParallelIterator<Item = A::Item>> IndexedParallelIterator for Chain<A, B> {}

/// A rearrangement of the pieces of work.
pub struct Moved<B, G>(B, G);
impl<B: ParallelIterator, G: FnOnce(Vec<B::Th>) -> Vec<B::Th> + Send> ParallelIterator for Moved<B, G> {
    type Item = B::Item;
    type Th = B::Th;
    fn thunks(self) -> Vec<B::Th> {
        (self.1)(self.0.thunks())
    }
}
impl<B: IndexedParallelIterator, G: FnOnce(Vec<B::Th>) -> Vec<B::Th> + Send> IndexedParallelIterator for Moved<B, G> {}

/// Consecutive pieces of work grouped and mapped as a whole.
pub struct Grouped<B, G, F, R> {
    base: B,
    group: G,
    f: Arc<F>,
    p: std::marker::PhantomData<fn() -> R>,
}
pub struct GroupTh<X, F, T, R> {
    base: Vec<X>,
    f: Arc<F>,
    p: std::marker::PhantomData<fn() -> (T, R)>,
}
/// Gets the items of a group one by one, in order.
pub struct Feed<'a, T> {
    next: &'a mut dyn FnMut() -> Option<T>,
}
impl<T> Iterator for Feed<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        (self.next)()
    }
}
impl<B, G, R, F> ParallelIterator for Grouped<B, G, F, R>
where
    B: ParallelIterator,
    G: FnOnce(Vec<B::Th>) -> Vec<Vec<B::Th>> + Send,
    R: Send,
    F: Fn(&mut Feed<B::Item>, &mut Vec<R>) + Send + Sync,
{
    type Item = R;
    type Th = GroupTh<B::Th, F, B::Item, R>;
    fn thunks(self) -> Vec<Self::Th> {
        let f = self.f;
        (self.group)(self.base.thunks())
            .into_iter()
            .map(|base| GroupTh { base, f: f.clone(), p: Default::default() })
            .collect()
    }
}
impl<B, G, R, F> IndexedParallelIterator for Grouped<B, G, F, R>
where
    B: ParallelIterator,
    G: FnOnce(Vec<B::Th>) -> Vec<Vec<B::Th>> + Send,
    R: Send,
    F: Fn(&mut Feed<B::Item>, &mut Vec<R>) + Send + Sync,
{
}
impl<T: Send, R: Send, X: Thunk<T>, F: Fn(&mut Feed<T>, &mut Vec<R>) + Send + Sync> Thunk<R> for GroupTh<X, F, T, R> {
    fn emit(self, out: &mut Vec<R>) {
        let mut th = self.base.into_iter();
        let mut buf: VecDeque<T> = VecDeque::new();
        let mut next = || {
            while buf.is_empty() {
                let mut v = vec![];
                th.next()?.emit(&mut v);
                buf.extend(v);
            }
            buf.pop_front()
        };
        (self.f)(&mut Feed { next: &mut next }, out);
    }
}
fn grouped<B, R, G, F>(base: B, group: G, f: F) -> Grouped<B, G, F, R>
where
    B: ParallelIterator,
    R: Send,
    G: FnOnce(Vec<B::Th>) -> Vec<Vec<B::Th>> + Send,
    F: Fn(&mut Feed<B::Item>, &mut Vec<R>) + Send + Sync,
{
    Grouped { base, group, f: Arc::new(f), p: Default::default() }
}

pub trait ParallelIterator: Sized + Send {
    type Item: Send;
    type Th: Thunk<Self::Item>;
    fn thunks(self) -> Vec<Self::Th>;

    fn map<R: Send, F: Fn(Self::Item) -> R + Send + Sync>(self, f: F) -> Map<Self, F> {
        Map { base: self, f: Arc::new(f) }
    }
    fn inspect<F: Fn(&Self::Item) + Send + Sync>(self, f: F) -> impl IndexedParallelIterator<Item = Self::Item>
    where
        Self: IndexedParallelIterator,
    {
        self.map(move |x| {
            f(&x);
            x
        })
    }
    fn update<F: Fn(&mut Self::Item) + Send + Sync>(self, f: F) -> impl ParallelIterator<Item = Self::Item> {
        self.map(move |mut x| {
            f(&mut x);
            x
        })
    }
    fn filter<F: Fn(&Self::Item) -> bool + Send + Sync>(self, f: F) -> impl ParallelIterator<Item = Self::Item> {
        many(self, move |x, out: &mut Vec<Self::Item>| {
            if f(&x) {
                out.push(x)
            }
        })
    }
    fn filter_map<R: Send, F: Fn(Self::Item) -> Option<R> + Send + Sync>(self, f: F) -> impl ParallelIterator<Item = R> {
        many(self, move |x, out: &mut Vec<R>| out.extend(f(x)))
    }
    fn flat_map<P: IntoParallelIterator, F: Fn(Self::Item) -> P + Send + Sync>(
        self,
        f: F,
    ) -> impl ParallelIterator<Item = P::Item> {
        many(self, move |x, out: &mut Vec<P::Item>| out.extend(flat(f(x).into_par_iter())))
    }
    fn flat_map_iter<S: IntoIterator, F: Fn(Self::Item) -> S + Send + Sync>(
        self,
        f: F,
    ) -> impl ParallelIterator<Item = S::Item>
    where
        S::Item: Send,
    {
        many(self, move |x, out: &mut Vec<S::Item>| out.extend(f(x)))
    }
    fn flatten(self) -> impl ParallelIterator<Item = <Self::Item as IntoParallelIterator>::Item>
    where
        Self::Item: IntoParallelIterator,
    {
        self.flat_map(|x| x)
    }
    fn flatten_iter(self) -> impl ParallelIterator<Item = <Self::Item as IntoIterator>::Item>
    where
        Self::Item: IntoIterator,
        <Self::Item as IntoIterator>::Item: Send,
    {
        self.flat_map_iter(|x| x)
    }
    fn cloned<'a, T: 'a + Clone + Send>(self) -> Map<Self, fn(&'a T) -> T>
    where
        Self: ParallelIterator<Item = &'a T>,
    {
        Map { base: self, f: Arc::new(|x: &'a T| x.clone()) }
    }
    fn copied<'a, T: 'a + Copy + Send>(self) -> Map<Self, fn(&'a T) -> T>
    where
        Self: ParallelIterator<Item = &'a T>,
    {
        Map { base: self, f: Arc::new(|x: &'a T| *x) }
    }
    fn chain<C: IntoParallelIterator<Item = Self::Item>>(self, c: C) -> Chain<Self, C::Iter> {
        Chain(self, c.into_par_iter())
    }
    fn map_with<T: Clone + Send + Sync, R: Send, F: Fn(&mut T, Self::Item) -> R + Send + Sync>(
        self,
        t: T,
        f: F,
    ) -> impl IndexedParallelIterator<Item = R> {
        grouped(self, leaves, move |feed, out| {
            let mut t = t.clone();
            for x in feed {
                out.push(f(&mut t, x));
            }
        })
    }
    fn map_init<I: Fn() -> T + Send + Sync, T, R: Send, F: Fn(&mut T, Self::Item) -> R + Send + Sync>(
        self,
        init: I,
        f: F,
    ) -> impl IndexedParallelIterator<Item = R> {
        grouped(self, leaves, move |feed, out| {
            let mut t = init();
            for x in feed {
                out.push(f(&mut t, x));
            }
        })
    }
    fn fold<T: Send, I: Fn() -> T + Send + Sync, F: Fn(T, Self::Item) -> T + Send + Sync>(
        self,
        id: I,
        f: F,
    ) -> impl ParallelIterator<Item = T> {
        grouped(self, leaves, move |feed, out| out.push(feed.fold(id(), &f)))
    }
    fn for_each<F: Fn(Self::Item) + Send + Sync>(self, f: F) {
        run(self.map(f));
    }
    fn for_each_with<T: Clone + Send + Sync, F: Fn(&mut T, Self::Item) + Send + Sync>(self, t: T, f: F) {
        run(self.map_with(t, f));
    }
    fn for_each_init<I: Fn() -> T + Send + Sync, T, F: Fn(&mut T, Self::Item) + Send + Sync>(self, i: I, f: F) {
        run(self.map_init(i, f));
    }
    fn try_for_each<E: Send, F: Fn(Self::Item) -> Result<(), E> + Send + Sync>(self, f: F) -> Result<(), E> {
        self.map(f).collect::<Result<Vec<()>, E>>().map(|_| ())
    }
    fn collect<C: FromParallelIterator<Self::Item>>(self) -> C {
        C::from_par_iter(self)
    }
    fn count(self) -> usize {
        flat(self).len()
    }
    fn sum<S: Send + std::iter::Sum<Self::Item> + std::iter::Sum<S>>(self) -> S {
        tree(run(self), &|p: Vec<Vec<Self::Item>>| p.into_iter().flatten().sum::<S>(), &|a: S, b: S| {
            [a, b].into_iter().sum::<S>()
        })
    }
    fn product<S: Send + std::iter::Product<Self::Item> + std::iter::Product<S>>(self) -> S {
        tree(run(self), &|p: Vec<Vec<Self::Item>>| p.into_iter().flatten().product::<S>(), &|a: S, b: S| {
            [a, b].into_iter().product::<S>()
        })
    }
    fn reduce<O, I>(self, id: I, op: O) -> Self::Item
    where
        O: Fn(Self::Item, Self::Item) -> Self::Item + Send + Sync,
        I: Fn() -> Self::Item + Send + Sync,
    {
        tree(run(self), &|p: Vec<Vec<Self::Item>>| p.into_iter().flatten().fold(id(), &op), &|a, b| op(a, b))
    }
    fn reduce_with<O: Fn(Self::Item, Self::Item) -> Self::Item + Send + Sync>(self, op: O) -> Option<Self::Item> {
        reduce_opt(run(self), op)
    }
    fn min(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        self.min_by(|a, b| a.cmp(b))
    }
    fn max(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        self.max_by(|a, b| a.cmp(b))
    }
    fn min_by<F: Fn(&Self::Item, &Self::Item) -> Ordering + Send + Sync>(self, f: F) -> Option<Self::Item> {
        reduce_opt(run(self), |a, b| if f(&a, &b) == Ordering::Greater { b } else { a })
    }
    fn max_by<F: Fn(&Self::Item, &Self::Item) -> Ordering + Send + Sync>(self, f: F) -> Option<Self::Item> {
        reduce_opt(run(self), |a, b| if f(&a, &b) == Ordering::Greater { a } else { b })
    }
    fn min_by_key<K: Ord + Send, F: Fn(&Self::Item) -> K + Send + Sync>(self, f: F) -> Option<Self::Item> {
        self.map(move |x| (f(&x), x)).min_by(|a, b| a.0.cmp(&b.0)).map(|x| x.1)
    }
    fn max_by_key<K: Ord + Send, F: Fn(&Self::Item) -> K + Send + Sync>(self, f: F) -> Option<Self::Item> {
        self.map(move |x| (f(&x), x)).max_by(|a, b| a.0.cmp(&b.0)).map(|x| x.1)
    }
    /// The match that is found first, in time.
    fn find_any<F: Fn(&Self::Item) -> bool + Send + Sync>(self, f: F) -> Option<Self::Item> {
        let stop = AtomicBool::new(false);
        let found = Mutex::new(None);
        run_stop(self, &stop, |v| {
            for x in v {
                if f(&x) {
                    found.lock().unwrap().get_or_insert(x);
                    stop.store(true, AO::SeqCst);
                    return;
                }
            }
        });
        found.into_inner().unwrap()
    }
    fn find_first<F: Fn(&Self::Item) -> bool + Send + Sync>(self, f: F) -> Option<Self::Item> {
        flat(self.filter(f)).into_iter().next()
    }
    fn find_last<F: Fn(&Self::Item) -> bool + Send + Sync>(self, f: F) -> Option<Self::Item> {
        flat(self.filter(f)).into_iter().last()
    }
    fn find_map_any<R: Send, F: Fn(Self::Item) -> Option<R> + Send + Sync>(self, f: F) -> Option<R> {
        self.map(f).find_any(|x| x.is_some()).flatten()
    }
    fn find_map_first<R: Send, F: Fn(Self::Item) -> Option<R> + Send + Sync>(self, f: F) -> Option<R> {
        flat(self.filter_map(f)).into_iter().next()
    }
    fn any<F: Fn(Self::Item) -> bool + Send + Sync>(self, f: F) -> bool {
        self.map(f).find_any(|x| *x).is_some()
    }
    fn all<F: Fn(Self::Item) -> bool + Send + Sync>(self, f: F) -> bool {
        self.map(f).find_any(|x| !*x).is_none()
    }
    fn partition<A, B, F>(self, f: F) -> (A, B)
    where
        A: Default + Send + ParallelExtend<Self::Item>,
        B: Default + Send + ParallelExtend<Self::Item>,
        F: Fn(&Self::Item) -> bool + Send + Sync,
    {
        let (mut a, mut b) = (A::default(), B::default());
        let (mut va, mut vb) = (vec![], vec![]);
        for (k, x) in flat(self.map(move |x| (f(&x), x))) {
            if k { va.push(x) } else { vb.push(x) }
        }
        a.par_extend(Items(va));
        b.par_extend(Items(vb));
        (a, b)
    }
    fn unzip<A, B, FA, FB>(self) -> (FA, FB)
    where
        Self: ParallelIterator<Item = (A, B)>,
        FA: Default + Send + ParallelExtend<A>,
        FB: Default + Send + ParallelExtend<B>,
        A: Send,
        B: Send,
    {
        let (mut fa, mut fb) = (FA::default(), FB::default());
        let (a, b): (Vec<A>, Vec<B>) = flat(self).into_iter().unzip();
        fa.par_extend(Items(a));
        fb.par_extend(Items(b));
        (fa, fb)
    }
}

pub trait IndexedParallelIterator: ParallelIterator {
    fn zip<Z: IntoParallelIterator>(self, z: Z) -> Zip<Self, Z::Iter> {
        Zip(self, z.into_par_iter())
    }
    fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> Zip<Self, Z::Iter> {
        Zip(self, z.into_par_iter())
    }
    fn enumerate(self) -> Enumerate<Self> {
        Enumerate(self)
    }
    fn rev(self) -> impl IndexedParallelIterator<Item = Self::Item> {
        Moved(self, |mut v: Vec<Self::Th>| {
            v.reverse();
            v
        })
    }
    fn take(self, n: usize) -> impl IndexedParallelIterator<Item = Self::Item> {
        Moved(self, move |mut v: Vec<Self::Th>| {
            v.truncate(n);
            v
        })
    }
    fn skip(self, n: usize) -> impl IndexedParallelIterator<Item = Self::Item> {
        Moved(self, move |v: Vec<Self::Th>| v.into_iter().skip(n).collect())
    }
    fn step_by(self, n: usize) -> impl IndexedParallelIterator<Item = Self::Item> {
        Moved(self, move |v: Vec<Self::Th>| v.into_iter().step_by(n).collect())
    }
    fn chunks(self, n: usize) -> impl IndexedParallelIterator<Item = Vec<Self::Item>> {
        grouped(
            self,
            move |v: Vec<Self::Th>| {
                let mut out: Vec<Vec<Self::Th>> = vec![];
                for x in v {
                    if out.last().is_none_or(|l| l.len() == n) {
                        out.push(vec![]);
                    }
                    out.last_mut().unwrap().push(x);
                }
                out
            },
            |feed, out| out.push(feed.collect()),
        )
    }
    fn with_min_len(self, _: usize) -> Self {
        self
    }
    fn with_max_len(self, _: usize) -> Self {
        self
    }
    fn len(self) -> usize {
        self.thunks().len()
    }
    fn position_any<F: Fn(Self::Item) -> bool + Send + Sync>(self, f: F) -> Option<usize> {
        self.map(f).enumerate().find_any(|x| x.1).map(|x| x.0)
    }
    fn position_first<F: Fn(Self::Item) -> bool + Send + Sync>(self, f: F) -> Option<usize> {
        self.map(f).enumerate().find_first(|x| x.1).map(|x| x.0)
    }
    fn position_last<F: Fn(Self::Item) -> bool + Send + Sync>(self, f: F) -> Option<usize> {
        self.map(f).enumerate().find_last(|x| x.1).map(|x| x.0)
    }
    fn collect_into_vec(self, v: &mut Vec<Self::Item>) {
        *v = flat(self);
    }
}

pub trait IntoParallelIterator {
    type Item: Send;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn into_par_iter(self) -> Self::Iter;
}
impl<I: ParallelIterator> IntoParallelIterator for I {
    type Item = I::Item;
    type Iter = I;
    fn into_par_iter(self) -> I {
        self
    }
}
macro_rules! into {
    ($([$($g:tt)*] $t:ty, $item:ty);* $(;)?) => {$(
        impl<$($g)*> IntoParallelIterator for $t {
            type Item = $item;
            type Iter = Items<$item>;
            fn into_par_iter(self) -> Items<$item> { Items(self.into_iter().collect()) }
        }
    )*};
}
into! {
    [T: Send] Vec<T>, T;
    [T: Send] VecDeque<T>, T;
    [T: Send] Option<T>, T;
    [T: Send, const N: usize] [T; N], T;
    ['a, T: Sync] &'a Vec<T>, &'a T;
    ['a, T: Sync] &'a [T], &'a T;
    ['a, T: Sync, const N: usize] &'a [T; N], &'a T;
    ['a, T: Sync] &'a VecDeque<T>, &'a T;
    ['a, T: Sync] &'a HashSet<T>, &'a T;
    ['a, T: Sync] &'a BTreeSet<T>, &'a T;
    ['a, K: Sync, V: Sync] &'a HashMap<K, V>, (&'a K, &'a V);
    ['a, K: Sync, V: Sync] &'a BTreeMap<K, V>, (&'a K, &'a V);
    ['a, T: Send] &'a mut Vec<T>, &'a mut T;
    ['a, T: Send] &'a mut [T], &'a mut T;
    ['a, T: Send] &'a mut VecDeque<T>, &'a mut T;
}
macro_rules! ranges { ($($t:ty)*) => {$(
    impl IntoParallelIterator for std::ops::Range<$t> {
        type Item = $t;
        type Iter = Items<$t>;
        fn into_par_iter(self) -> Items<$t> { Items(self.collect()) }
    }
    impl IntoParallelIterator for std::ops::RangeInclusive<$t> {
        type Item = $t;
        type Iter = Items<$t>;
        fn into_par_iter(self) -> Items<$t> { Items(self.collect()) }
    }
)*}; }
ranges!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);

pub trait IntoParallelRefIterator<'a> {
    type Item: Send + 'a;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn par_iter(&'a self) -> Self::Iter;
}
impl<'a, I: 'a + ?Sized> IntoParallelRefIterator<'a> for I
where
    &'a I: IntoParallelIterator,
{
    type Item = <&'a I as IntoParallelIterator>::Item;
    type Iter = <&'a I as IntoParallelIterator>::Iter;
    fn par_iter(&'a self) -> Self::Iter {
        self.into_par_iter()
    }
}
pub trait IntoParallelRefMutIterator<'a> {
    type Item: Send + 'a;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn par_iter_mut(&'a mut self) -> Self::Iter;
}
impl<'a, I: 'a + ?Sized> IntoParallelRefMutIterator<'a> for I
where
    &'a mut I: IntoParallelIterator,
{
    type Item = <&'a mut I as IntoParallelIterator>::Item;
    type Iter = <&'a mut I as IntoParallelIterator>::Iter;
    fn par_iter_mut(&'a mut self) -> Self::Iter {
        self.into_par_iter()
    }
}
pub trait ParallelBridge: Sized {
    fn par_bridge(self) -> Items<Self::Item>
    where
        Self: Iterator,
        Self::Item: Send,
    {
        Items(self.collect())
    }
}
impl<I: Iterator + Send> ParallelBridge for I {}

pub trait FromParallelIterator<T: Send> {
    fn from_par_iter<I: ParallelIterator<Item = T>>(i: I) -> Self;
}
macro_rules! from { ($([$($g:tt)*] $t:ty, $item:ty);* $(;)?) => {$(
    impl<$($g)*> FromParallelIterator<$item> for $t {
        fn from_par_iter<PI: ParallelIterator<Item = $item>>(i: PI) -> Self { flat(i).into_iter().collect() }
    }
)*}; }
from! {
    [T: Send] Vec<T>, T;
    [T: Send] VecDeque<T>, T;
    [T: Send] LinkedList<T>, T;
    [T: Send] Box<[T]>, T;
    [T: Send + Ord] BinaryHeap<T>, T;
    [T: Send + Ord] BTreeSet<T>, T;
    [T: Send + Eq + Hash, S: BuildHasher + Default + Send] HashSet<T, S>, T;
    [K: Send + Ord, V: Send] BTreeMap<K, V>, (K, V);
    [K: Send + Eq + Hash, V: Send, S: BuildHasher + Default + Send] HashMap<K, V, S>, (K, V);
    [] String, char;
    [] String, String;
}
impl FromParallelIterator<()> for () {
    fn from_par_iter<I: ParallelIterator<Item = ()>>(i: I) {
        flat(i);
    }
}
/// Ends early with the error that occurs first, in time.
impl<T: Send, E: Send, C: FromParallelIterator<T>> FromParallelIterator<Result<T, E>> for Result<C, E> {
    fn from_par_iter<I: ParallelIterator<Item = Result<T, E>>>(i: I) -> Self {
        let stop = AtomicBool::new(false);
        let first = Mutex::new(None);
        let ok = run_stop(i, &stop, |v| {
            let mut out = vec![];
            for r in v {
                match r {
                    Ok(x) => out.push(x),
                    Err(e) => {
                        first.lock().unwrap().get_or_insert(e);
                        stop.store(true, AO::SeqCst);
                        break;
                    }
                }
            }
            out
        });
        match first.into_inner().unwrap() {
            Some(e) => Err(e),
            None => Ok(C::from_par_iter(Items(ok.into_iter().flatten().flatten().collect::<Vec<T>>()))),
        }
    }
}
impl<T: Send, C: FromParallelIterator<T>> FromParallelIterator<Option<T>> for Option<C> {
    fn from_par_iter<I: ParallelIterator<Item = Option<T>>>(i: I) -> Self {
        i.map(|x| x.ok_or(())).collect::<Result<C, ()>>().ok()
    }
}
pub trait ParallelExtend<T: Send> {
    fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I);
}
impl<T: Send> ParallelExtend<T> for Vec<T> {
    fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) {
        self.extend(flat(i.into_par_iter()))
    }
}
impl<T: Send + Eq + Hash, S: BuildHasher + Send> ParallelExtend<T> for HashSet<T, S> {
    fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) {
        self.extend(flat(i.into_par_iter()))
    }
}
impl<K: Send + Eq + Hash, V: Send, S: BuildHasher + Send> ParallelExtend<(K, V)> for HashMap<K, V, S> {
    fn par_extend<I: IntoParallelIterator<Item = (K, V)>>(&mut self, i: I) {
        self.extend(flat(i.into_par_iter()))
    }
}
