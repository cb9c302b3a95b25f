//! `std` with threads and locks that go through the cooperative scheduler when one is active.
//! What is not here in scheduled form is left out on purpose, so that code using it does not
//! compile against this facade and is checked without schedules instead.
pub use ::std::*;

pub mod thread {
    pub use ::std::thread::{available_parallelism, current, panicking, AccessError, LocalKey, Result, Thread, ThreadId};
    use ::std::io;
    use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
    use ::std::sync::Mutex;
    use vsched as vs;

    type Id = Option<(u64, usize)>;

    pub fn yield_now() {
        vs::yield_now()
    }
    pub fn sleep(_: ::std::time::Duration) {
        vs::yield_now()
    }

    #[repr(transparent)]
    pub struct Scope<'scope, 'env: 'scope>(::std::thread::Scope<'scope, 'env>);

    static KIDS: Mutex<Vec<(usize, Id)>> = Mutex::new(vec![]);

    pub struct ScopedJoinHandle<'scope, T>(::std::thread::ScopedJoinHandle<'scope, T>, Id);
    impl<'scope, T> ScopedJoinHandle<'scope, T> {
        pub fn join(self) -> Result<T> {
            vs::wait_until(|| vs::done(self.1));
            vs::point();
            self.0.join()
        }
        pub fn is_finished(&self) -> bool {
            vs::point();
            vs::done(self.1) && self.0.is_finished()
        }
        pub fn thread(&self) -> &Thread {
            self.0.thread()
        }
    }

    impl<'scope, 'env> Scope<'scope, 'env> {
        pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
        where
            F: FnOnce() -> T + Send + 'scope,
            T: Send + 'scope,
        {
            let id = vs::register();
            KIDS.lock().unwrap_or_else(|e| e.into_inner()).push((self as *const _ as usize, id));
            let h = ::std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(&self.0, move || vs::run(id, f)).expect("spawn");
            vs::started(id);
            ScopedJoinHandle(h, id)
        }
    }

    pub fn scope<'env, F, T>(f: F) -> T
    where
        F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
    {
        ::std::thread::scope(|s| {
            // safety: transparent wrapper
            let s: &Scope<'_, 'env> = unsafe { ::std::mem::transmute(s) };
            let r = catch_unwind(AssertUnwindSafe(|| f(s)));
            let me = s as *const _ as usize;
            let mine: Vec<Id> = {
                let mut k = KIDS.lock().unwrap_or_else(|e| e.into_inner());
                let v = k.iter().filter(|x| x.0 == me).map(|x| x.1).collect();
                k.retain(|x| x.0 != me);
                v
            };
            for id in mine {
                vs::wait_until(|| vs::done(id));
            }
            r.unwrap_or_else(|e| resume_unwind(e))
        })
    }

    pub struct JoinHandle<T>(::std::thread::JoinHandle<T>, Id);
    impl<T> JoinHandle<T> {
        pub fn join(self) -> Result<T> {
            vs::wait_until(|| vs::done(self.1));
            vs::point();
            self.0.join()
        }
        pub fn is_finished(&self) -> bool {
            vs::point();
            vs::done(self.1) && self.0.is_finished()
        }
        pub fn thread(&self) -> &Thread {
            self.0.thread()
        }
    }
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let id = vs::register();
        let h = ::std::thread::Builder::new().stack_size(64 << 20).spawn(move || vs::run(id, f)).expect("spawn");
        vs::started(id);
        JoinHandle(h, id)
    }

    #[derive(Default, Debug)]
    pub struct Builder {
        _p: (),
    }
    impl Builder {
        pub fn new() -> Builder {
            Builder { _p: () }
        }
        pub fn name(self, _: String) -> Builder {
            self
        }
        pub fn stack_size(self, _: usize) -> Builder {
            self
        }
        pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
        where
            F: FnOnce() -> T + Send + 'static,
            T: Send + 'static,
        {
            Ok(spawn(f))
        }
        pub fn spawn_scoped<'scope, 'env, F, T>(self, s: &'scope Scope<'scope, 'env>, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
        where
            F: FnOnce() -> T + Send + 'scope,
            T: Send + 'scope,
        {
            Ok(s.spawn(f))
        }
    }
}

pub mod sync {
    pub use ::std::sync::{Arc, LockResult, Once, OnceLock, PoisonError, TryLockError, TryLockResult, Weak};
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use vsched as vs;

    macro_rules! guard {
        ($g:ident, $bound:ident) => {
            pub struct $g<'a, T: ?Sized + 'a>(Option<::std::sync::$g<'a, T>>);
            impl<'a, T: ?Sized> Deref for $g<'a, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    self.0.as_ref().unwrap()
                }
            }
            impl<'a, T: ?Sized> Drop for $g<'a, T> {
                fn drop(&mut self) {
                    self.0.take();
                    vs::progress();
                    vs::point();
                }
            }
            impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $g<'a, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
        };
    }
    macro_rules! guard_mut {
        ($g:ident) => {
            impl<'a, T: ?Sized> DerefMut for $g<'a, T> {
                fn deref_mut(&mut self) -> &mut T {
                    self.0.as_mut().unwrap()
                }
            }
        };
    }
    guard!(MutexGuard, x);
    guard!(RwLockReadGuard, x);
    guard!(RwLockWriteGuard, x);
    guard_mut!(MutexGuard);
    guard_mut!(RwLockWriteGuard);

    macro_rules! acquire {
        ($self:ident, $try:ident, $g:ident) => {{
            vs::point();
            let mut got = None;
            vs::wait_until(|| match $self.0.$try() {
                Ok(g) => {
                    got = Some(Ok($g(Some(g))));
                    true
                }
                Err(TryLockError::Poisoned(p)) => {
                    got = Some(Err(PoisonError::new($g(Some(p.into_inner())))));
                    true
                }
                Err(TryLockError::WouldBlock) => false,
            });
            vs::point();
            got.unwrap()
        }};
    }
    macro_rules! try_acquire {
        ($self:ident, $try:ident, $g:ident) => {{
            vs::point();
            match $self.0.$try() {
                Ok(g) => Ok($g(Some(g))),
                Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new($g(Some(p.into_inner()))))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }};
    }

    #[derive(Default)]
    pub struct Mutex<T: ?Sized>(::std::sync::Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex(::std::sync::Mutex::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            acquire!(self, try_lock, MutexGuard)
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            try_acquire!(self, try_lock, MutexGuard)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
    }
    impl<T: fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }

    #[derive(Default)]
    pub struct RwLock<T: ?Sized>(::std::sync::RwLock<T>);
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock(::std::sync::RwLock::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            acquire!(self, try_read, RwLockReadGuard)
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            acquire!(self, try_write, RwLockWriteGuard)
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            try_acquire!(self, try_read, RwLockReadGuard)
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            try_acquire!(self, try_write, RwLockWriteGuard)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
    }
    impl<T: fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }

    pub mod atomic {
        pub use ::std::sync::atomic::{compiler_fence, fence, Ordering};
        use vsched as vs;
        macro_rules! atomic {
            ($n:ident, $t:ty $(, $m:ident)*) => {
                #[derive(Debug, Default)]
                pub struct $n(::std::sync::atomic::$n);
                impl $n {
                    pub const fn new(x: $t) -> Self {
                        $n(::std::sync::atomic::$n::new(x))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        vs::point();
                        self.0.load(o)
                    }
                    pub fn store(&self, x: $t, o: Ordering) {
                        vs::point();
                        self.0.store(x, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        vs::point();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        vs::point();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, f: F) -> Result<$t, $t> {
                        vs::point();
                        self.0.fetch_update(s, l, f)
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    $(pub fn $m(&self, x: $t, o: Ordering) -> $t {
                        vs::point();
                        self.0.$m(x, o)
                    })*
                }
            };
        }
        #[derive(Debug)]
        pub struct AtomicPtr<T>(::std::sync::atomic::AtomicPtr<T>);
        impl<T> AtomicPtr<T> {
            pub const fn new(x: *mut T) -> Self {
                AtomicPtr(::std::sync::atomic::AtomicPtr::new(x))
            }
            pub fn load(&self, o: Ordering) -> *mut T {
                vs::point();
                self.0.load(o)
            }
            pub fn store(&self, x: *mut T, o: Ordering) {
                vs::point();
                self.0.store(x, o)
            }
            pub fn swap(&self, x: *mut T, o: Ordering) -> *mut T {
                vs::point();
                self.0.swap(x, o)
            }
            pub fn compare_exchange(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
                vs::point();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F: FnMut(*mut T) -> Option<*mut T>>(&self, s: Ordering, l: Ordering, f: F) -> Result<*mut T, *mut T> {
                vs::point();
                self.0.fetch_update(s, l, f)
            }
        }
        atomic!(AtomicUsize, usize, swap, fetch_add, fetch_sub, fetch_max, fetch_min, fetch_and, fetch_or);
        atomic!(AtomicU64, u64, swap, fetch_add, fetch_sub, fetch_max, fetch_min, fetch_and, fetch_or);
        atomic!(AtomicU32, u32, swap, fetch_add, fetch_sub, fetch_max, fetch_min, fetch_and, fetch_or);
        atomic!(AtomicIsize, isize, swap, fetch_add, fetch_sub, fetch_max, fetch_min, fetch_and, fetch_or);
        atomic!(AtomicBool, bool, swap, fetch_and, fetch_or);
    }
}
