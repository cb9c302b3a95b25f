//! The part of rayon's interface that data-parallel code here uses, run by the cooperative
//! scheduler. As in rayon: a loop of at most one item runs on the calling thread; larger loops run
//! on pool threads that have an index, any of which may take any item in any order; after an error
//! the remaining items may be skipped. What is not here does not compile, and such code is checked
//! against the real rayon without schedules instead.
use std::cell::Cell;
use std::sync::Mutex;
use vsched as vs;

thread_local! {
    static INDEX: Cell<Option<usize>> = const { Cell::new(None) };
}

pub fn current_thread_index() -> Option<usize> {
    INDEX.with(|i| i.get())
}
pub fn current_num_threads() -> usize {
    vs::pool_size()
}
pub fn max_num_threads() -> usize {
    1024
}

/// Run `f(state, i)` for all i in 0..n; stops early when it returns false.
fn drive<S>(n: usize, init: &(dyn Fn() -> S + Sync), f: &(dyn Fn(&mut S, usize) -> bool + Sync)) {
    let w = vs::par_workers();
    if n <= 1 || w == 0 || current_thread_index().is_some() {
        let pooled = n > 1 && current_thread_index().is_none();
        if pooled {
            INDEX.with(|i| i.set(Some(0)));
        }
        struct Reset(bool);
        impl Drop for Reset {
            fn drop(&mut self) {
                if self.0 {
                    INDEX.with(|i| i.set(None));
                }
            }
        }
        let _r = Reset(pooled);
        let mut s = init();
        for i in 0..n {
            if !f(&mut s, i) {
                break;
            }
        }
        return;
    }
    // who takes which item, and in which direction each worker goes
    let owner: Vec<usize> = (0..n).map(|_| vs::choose("owner", w)).collect();
    let back: Vec<bool> = (0..w).map(|k| owner.iter().filter(|o| **o == k).count() > 1 && vs::choose("back", 2) == 1).collect();
    let stop = Mutex::new(false);
    let panic = Mutex::new(None);
    let mut ids = vec![];
    std::thread::scope(|s| {
        for k in 0..w {
            let mut items: Vec<usize> = (0..n).filter(|i| owner[*i] == k).collect();
            if items.is_empty() {
                continue;
            }
            if back[k] {
                items.reverse();
            }
            let id = vs::register();
            ids.push(id);
            let (stop, panic) = (&stop, &panic);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    vs::run(id, || {
                        INDEX.with(|i| i.set(Some(vs::pool_index(k))));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let mut st = init();
                            for i in items {
                                vs::point();
                                if *stop.lock().unwrap() {
                                    break;
                                }
                                if !f(&mut st, i) {
                                    *stop.lock().unwrap() = true;
                                }
                            }
                        }));
                        if let Err(p) = r {
                            *stop.lock().unwrap() = true;
                            panic.lock().unwrap().get_or_insert(p);
                        }
                    })
                })
                .expect("spawn");
            vs::started(id);
        }
        for id in &ids {
            vs::wait_until(|| vs::done(*id));
        }
    });
    if let Some(p) = panic.into_inner().unwrap() {
        std::panic::resume_unwind(p);
    }
}

fn take<T>(v: Vec<T>) -> Vec<Mutex<Option<T>>> {
    v.into_iter().map(|x| Mutex::new(Some(x))).collect()
}
fn pop<T>(c: &[Mutex<Option<T>>], i: usize) -> T {
    c[i].lock().unwrap().take().unwrap()
}
fn results<R>(v: Vec<Mutex<Option<R>>>) -> Vec<R> {
    v.into_iter().filter_map(|m| m.into_inner().unwrap()).collect()
}
fn slots<R>(n: usize) -> Vec<Mutex<Option<R>>> {
    (0..n).map(|_| Mutex::new(None)).collect()
}

/// A parallel iterator: its items.
pub struct Par<T>(Vec<T>);

pub trait ParallelIterator: Sized {
    type Item: Send;
    fn items(self) -> Vec<Self::Item>;

    fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
        self.map(f).items();
    }
    fn for_each_with<S: Send + Clone + Sync, F: Fn(&mut S, Self::Item) + Sync + Send>(self, s: S, f: F) {
        self.map_with(s, f).items();
    }
    fn for_each_init<S, I: Fn() -> S + Sync + Send, F: Fn(&mut S, Self::Item) + Sync + Send>(self, i: I, f: F) {
        self.map_init(i, f).items();
    }
    fn try_for_each<R: Tri + Send, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> R {
        self.try_for_each_init(|| (), |_, x| f(x))
    }
    fn try_for_each_with<S: Send + Clone + Sync, R: Tri + Send, F: Fn(&mut S, Self::Item) -> R + Sync + Send>(self, s: S, f: F) -> R {
        self.try_for_each_init(|| s.clone(), f)
    }
    fn try_for_each_init<S, R: Tri + Send, I: Fn() -> S + Sync + Send, F: Fn(&mut S, Self::Item) -> R + Sync + Send>(self, init: I, f: F) -> R {
        let c = take(self.items());
        let bad: Mutex<Option<R>> = Mutex::new(None);
        drive(c.len(), &init, &|s, i| {
            let r = f(s, pop(&c, i));
            let ok = r.good();
            if !ok {
                bad.lock().unwrap().get_or_insert(r);
            }
            ok
        });
        bad.into_inner().unwrap().unwrap_or_else(R::unit)
    }
    fn map<R: Send, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<R> {
        self.map_init(|| (), |_, x| f(x))
    }
    fn map_with<S: Send + Clone + Sync, R: Send, F: Fn(&mut S, Self::Item) -> R + Sync + Send>(self, s: S, f: F) -> Par<R> {
        self.map_init(|| s.clone(), f)
    }
    fn map_init<S, R: Send, I: Fn() -> S + Sync + Send, F: Fn(&mut S, Self::Item) -> R + Sync + Send>(self, init: I, f: F) -> Par<R> {
        let c = take(self.items());
        let out = slots(c.len());
        drive(c.len(), &init, &|s, i| {
            let r = f(s, pop(&c, i));
            *out[i].lock().unwrap() = Some(r);
            true
        });
        Par(results(out))
    }
    fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Par<Self::Item> {
        Par(self.map(|x| f(&x).then_some(x)).items().into_iter().flatten().collect())
    }
    fn filter_map<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Par<R> {
        Par(self.map(f).items().into_iter().flatten().collect())
    }
    fn flat_map_iter<R: IntoIterator, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<R::Item>
    where
        R::Item: Send,
    {
        Par(self.map(|x| f(x).into_iter().collect::<Vec<_>>()).items().into_iter().flatten().collect())
    }
    fn flat_map<R: IntoParallelIterator, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<R::Item> {
        Par(self.map(|x| f(x).into_par_iter().items()).items().into_iter().flatten().collect())
    }
    fn inspect<F: Fn(&Self::Item) + Sync + Send>(self, f: F) -> Par<Self::Item> {
        self.map(|x| {
            f(&x);
            x
        })
    }
    fn copied<'a, T: Copy + Send + Sync + 'a>(self) -> Par<T>
    where
        Self: ParallelIterator<Item = &'a T>,
    {
        Par(self.items().into_iter().copied().collect())
    }
    fn cloned<'a, T: Clone + Send + Sync + 'a>(self) -> Par<T>
    where
        Self: ParallelIterator<Item = &'a T>,
    {
        Par(self.items().into_iter().cloned().collect())
    }
    fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
        self.map(f).items().into_iter().all(|x| x)
    }
    fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
        self.map(f).items().into_iter().any(|x| x)
    }
    fn find_any<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
        let mut v = self.filter(f).items();
        if v.is_empty() {
            return None;
        }
        let k = vs::choose("found", v.len());
        Some(v.swap_remove(k))
    }
    fn find_first<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
        self.filter(f).items().into_iter().next()
    }
    fn find_map_any<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Option<R> {
        let mut v = self.filter_map(f).items();
        if v.is_empty() {
            return None;
        }
        let k = vs::choose("found", v.len());
        Some(v.swap_remove(k))
    }
    fn reduce<I: Fn() -> Self::Item + Sync + Send, F: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, i: I, f: F) -> Self::Item {
        self.items().into_iter().fold(i(), f)
    }
    fn count(self) -> usize {
        self.items().len()
    }
    fn sum<S: std::iter::Sum<Self::Item>>(self) -> S {
        self.items().into_iter().sum()
    }
    fn min(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        self.items().into_iter().min()
    }
    fn max(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        self.items().into_iter().max()
    }
    fn collect<C: FromIterator<Self::Item>>(self) -> C {
        self.items().into_iter().collect()
    }
    fn unzip<A: Send, B: Send, X: Default + Extend<A>, Y: Default + Extend<B>>(self) -> (X, Y)
    where
        Self: ParallelIterator<Item = (A, B)>,
    {
        self.items().into_iter().unzip()
    }
}

pub trait IndexedParallelIterator: ParallelIterator {
    fn len(&self) -> usize;
    fn enumerate(self) -> Par<(usize, Self::Item)> {
        Par(self.items().into_iter().enumerate().collect())
    }
    fn zip<Z: IntoParallelIterator>(self, z: Z) -> Par<(Self::Item, Z::Item)> {
        Par(self.items().into_iter().zip(z.into_par_iter().items()).collect())
    }
    fn rev(self) -> Par<Self::Item> {
        Par(self.items().into_iter().rev().collect())
    }
    fn with_min_len(self, _: usize) -> Par<Self::Item> {
        Par(self.items())
    }
    fn with_max_len(self, _: usize) -> Par<Self::Item> {
        Par(self.items())
    }
    fn skip(self, n: usize) -> Par<Self::Item> {
        Par(self.items().into_iter().skip(n).collect())
    }
    fn take(self, n: usize) -> Par<Self::Item> {
        Par(self.items().into_iter().take(n).collect())
    }
    fn chunks(self, n: usize) -> Par<Vec<Self::Item>> {
        let mut out = vec![];
        let mut it = self.items().into_iter().peekable();
        while it.peek().is_some() {
            out.push(it.by_ref().take(n).collect());
        }
        Par(out)
    }
    fn collect_into_vec(self, v: &mut Vec<Self::Item>) {
        *v = self.items();
    }
    fn unzip_into_vecs<A: Send, B: Send>(self, a: &mut Vec<A>, b: &mut Vec<B>)
    where
        Self: ParallelIterator<Item = (A, B)>,
    {
        let (x, y) = self.items().into_iter().unzip();
        *a = x;
        *b = y;
    }
}

impl<T: Send> ParallelIterator for Par<T> {
    type Item = T;
    fn items(self) -> Vec<T> {
        self.0
    }
}
impl<T: Send> IndexedParallelIterator for Par<T> {
    fn len(&self) -> usize {
        self.0.len()
    }
}

/// What `try_for_each` bodies return.
pub trait Tri {
    fn good(&self) -> bool;
    fn unit() -> Self;
}
impl<E> Tri for Result<(), E> {
    fn good(&self) -> bool {
        self.is_ok()
    }
    fn unit() -> Self {
        Ok(())
    }
}
impl Tri for Option<()> {
    fn good(&self) -> bool {
        self.is_some()
    }
    fn unit() -> Self {
        Some(())
    }
}

pub trait IntoParallelIterator {
    type Item: Send;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn into_par_iter(self) -> Self::Iter;
}
macro_rules! into {
    ($([$($g:tt)*] $t:ty => $i:ty);* $(;)?) => { $(
        impl<$($g)*> IntoParallelIterator for $t {
            type Item = $i;
            type Iter = Par<$i>;
            fn into_par_iter(self) -> Par<$i> {
                Par(self.into_iter().collect())
            }
        }
    )* };
}
into! {
    ['a, T: Sync] &'a [T] => &'a T;
    ['a, T: Send] &'a mut [T] => &'a mut T;
    ['a, T: Sync] &'a Vec<T> => &'a T;
    ['a, T: Send] &'a mut Vec<T> => &'a mut T;
    ['a, T: Sync, const N: usize] &'a [T; N] => &'a T;
    [T: Send] Vec<T> => T;
    [T: Send] Option<T> => T;
    [T: Send, const N: usize] [T; N] => T;
    [] std::ops::Range<usize> => usize;
    [] std::ops::Range<u64> => u64;
    [] std::ops::Range<u32> => u32;
    [] std::ops::Range<i32> => i32;
    [] std::ops::RangeInclusive<usize> => usize;
}
impl<T: Send> IntoParallelIterator for Par<T> {
    type Item = T;
    type Iter = Par<T>;
    fn into_par_iter(self) -> Par<T> {
        self
    }
}

pub trait IntoParallelRefIterator<'a> {
    type Item: Send + 'a;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn par_iter(&'a self) -> Self::Iter;
}
impl<'a, C: 'a + ?Sized> IntoParallelRefIterator<'a> for C
where
    &'a C: IntoParallelIterator,
    <&'a C as IntoParallelIterator>::Item: 'a,
{
    type Item = <&'a C as IntoParallelIterator>::Item;
    type Iter = <&'a C as IntoParallelIterator>::Iter;
    fn par_iter(&'a self) -> Self::Iter {
        self.into_par_iter()
    }
}
pub trait IntoParallelRefMutIterator<'a> {
    type Item: Send + 'a;
    type Iter: ParallelIterator<Item = Self::Item>;
    fn par_iter_mut(&'a mut self) -> Self::Iter;
}
impl<'a, C: 'a + ?Sized> IntoParallelRefMutIterator<'a> for C
where
    &'a mut C: IntoParallelIterator,
    <&'a mut C as IntoParallelIterator>::Item: 'a,
{
    type Item = <&'a mut C as IntoParallelIterator>::Item;
    type Iter = <&'a mut C as IntoParallelIterator>::Iter;
    fn par_iter_mut(&'a mut self) -> Self::Iter {
        self.into_par_iter()
    }
}
pub trait ParallelSlice<T: Sync> {
    fn par_chunks(&self, n: usize) -> Par<&[T]>;
    fn par_chunks_exact(&self, n: usize) -> Par<&[T]>;
    fn par_windows(&self, n: usize) -> Par<&[T]>;
}
impl<T: Sync> ParallelSlice<T> for [T] {
    fn par_chunks(&self, n: usize) -> Par<&[T]> {
        Par(self.chunks(n).collect())
    }
    fn par_chunks_exact(&self, n: usize) -> Par<&[T]> {
        Par(self.chunks_exact(n).collect())
    }
    fn par_windows(&self, n: usize) -> Par<&[T]> {
        Par(self.windows(n).collect())
    }
}
pub trait ParallelSliceMut<T: Send> {
    fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]>;
    fn par_chunks_exact_mut(&mut self, n: usize) -> Par<&mut [T]>;
    fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F);
}
impl<T: Send> ParallelSliceMut<T> for [T] {
    fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]> {
        Par(self.chunks_mut(n).collect())
    }
    fn par_chunks_exact_mut(&mut self, n: usize) -> Par<&mut [T]> {
        Par(self.chunks_exact_mut(n).collect())
    }
    fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) {
        self.sort_unstable_by(f)
    }
}

pub fn join<A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send>(a: A, b: B) -> (RA, RB) {
    let (fa, fb) = (Mutex::new(Some(a)), Mutex::new(Some(b)));
    let (ra, rb) = (Mutex::new(None), Mutex::new(None));
    let take2 = |i: usize| {
        if i == 0 {
            let f = fa.lock().unwrap().take().unwrap();
            let r = f();
            *ra.lock().unwrap() = Some(r);
        } else {
            let f = fb.lock().unwrap().take().unwrap();
            let r = f();
            *rb.lock().unwrap() = Some(r);
        }
    };
    drive(2, &|| (), &|_, i| {
        take2(i);
        true
    });
    (ra.into_inner().unwrap().unwrap(), rb.into_inner().unwrap().unwrap())
}

#[derive(Default)]
pub struct ThreadPoolBuilder;
static POOL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "The global thread pool has already been initialized.")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        match POOL.swap(true, std::sync::atomic::Ordering::SeqCst) {
            false => Ok(()),
            true => Err(ThreadPoolBuildError),
        }
    }
}

pub mod iter {
    pub use crate::{IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelIterator};
}
pub mod slice {
    pub use crate::{ParallelSlice, ParallelSliceMut};
}
pub mod prelude {
    pub use crate::iter::*;
    pub use crate::slice::*;
}
