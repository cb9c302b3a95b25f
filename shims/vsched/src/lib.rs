//! A cooperative scheduler. Threads are real, but only the one holding the baton runs; who gets it
//! next is asked of a chooser, which a symbolic-execution harness makes a symbolic variable.
//!
//! `point()` is a place where the running thread may be preempted, up to a given number of times per
//! run. Everything else (which thread runs after another blocks or ends, whether a spawned thread or
//! its parent goes first) is always asked.
use std::cell::Cell;
use std::sync::{Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Runnable,
    Blocked,
    Done,
}

struct Sched {
    active: bool,
    epoch: u64,
    threads: Vec<State>,
    cur: usize,
    steps: u64,
    budget: u64,
    choices: u64,
    tag: usize,
    par_workers: usize,
    stride: usize,
    switches: u64,
}

static S: Mutex<Sched> = Mutex::new(Sched { active: false, epoch: 0, threads: vec![], cur: 0, steps: 0, budget: 0, choices: 0, tag: 0, par_workers: 0, stride: 1, switches: 0 });
static CV: Condvar = Condvar::new();
static CHOOSER: Mutex<Option<fn(&str, usize) -> usize>> = Mutex::new(None);

thread_local! {
    static ME: Cell<(u64, usize)> = const { Cell::new((u64::MAX, 0)) };
}

fn lock() -> MutexGuard<'static, Sched> {
    S.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn set_chooser(f: fn(&str, usize) -> usize) {
    *CHOOSER.lock().unwrap_or_else(|e| e.into_inner()) = Some(f);
}

/// Pick one of 0..n. Only the running thread calls this.
pub fn choose(what: &str, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let k = {
        let mut s = lock();
        s.choices += 1;
        (s.tag, s.choices)
    };
    let f = *CHOOSER.lock().unwrap_or_else(|e| e.into_inner());
    f.map_or(0, |f| f(&format!("{}.{}-{what}{n}", k.0, k.1), n))
}

/// From here on the calling thread is scheduled. `tag` is part of the names of the choices;
/// `par_workers`: how many workers data-parallel
/// loops use (0: they run in order on the calling thread).
pub fn start(tag: usize, preemptions: u64, par_workers: usize) {
    let mut s = lock();
    s.active = true;
    s.epoch += 1;
    s.threads = vec![State::Runnable];
    s.cur = 0;
    s.steps = 0;
    s.budget = preemptions;
    s.choices = 0;
    s.tag = tag;
    s.switches = 0;
    s.par_workers = par_workers;
    s.stride = 1;
    ME.with(|m| m.set((s.epoch, 0)));
}

/// Steps taken; the scheduled region ends.
pub fn stop() -> u64 {
    let mut s = lock();
    s.active = false;
    ME.with(|m| m.set((u64::MAX, 0)));
    s.steps
}

pub fn switches() -> u64 {
    lock().switches
}

pub fn par_workers() -> usize {
    if me().is_some() {
        lock().par_workers
    } else {
        0
    }
}

/// The workers that take part are some of a larger pool: every `stride`th thread of it.
pub fn set_stride(stride: usize) {
    lock().stride = stride;
}

/// The index within the pool of the `k`th worker taking part.
pub fn pool_index(k: usize) -> usize {
    let s = lock().stride;
    if s == 1 {
        k
    } else {
        (k + 1) * s
    }
}

/// Threads in the pool.
pub fn pool_size() -> usize {
    let w = par_workers();
    let s = lock().stride;
    if s == 1 {
        w.max(1)
    } else {
        w * s + 1
    }
}

fn me() -> Option<usize> {
    let m = ME.try_with(|m| m.get()).ok()?;
    let s = lock();
    (s.active && m.0 == s.epoch).then_some(m.1)
}

pub fn scheduled() -> bool {
    me().is_some()
}

fn wait_turn(me: usize) {
    let mut s = lock();
    while s.active && s.cur != me {
        s = CV.wait(s).unwrap_or_else(|e| e.into_inner());
    }
}

fn give(to: usize) {
    let mut s = lock();
    s.cur = to;
    s.switches += 1;
    drop(s);
    CV.notify_all();
}

fn runnable_but(me: usize) -> Vec<usize> {
    let s = lock();
    (0..s.threads.len()).filter(|t| *t != me && s.threads[*t] == State::Runnable).collect()
}

/// A place where the running thread may be preempted.
pub fn point() {
    let Some(me) = me() else { return };
    let can = {
        let mut s = lock();
        s.steps += 1;
        s.budget > 0
    };
    if can && !runnable_but(me).is_empty() && choose("preempt", 2) == 1 {
        lock().budget -= 1;
        yield_from(me);
    }
}

fn yield_from(me: usize) {
    let others = runnable_but(me);
    if others.is_empty() {
        return;
    }
    let to = others[choose("to", others.len())];
    give(to);
    wait_turn(me);
}

pub fn yield_now() {
    if let Some(me) = me() {
        yield_from(me)
    }
}

/// Something other threads may be waiting for has happened.
pub fn progress() {
    if me().is_some() {
        for t in lock().threads.iter_mut() {
            if *t == State::Blocked {
                *t = State::Runnable;
            }
        }
    }
}

/// Let others run until `cond` holds.
pub fn wait_until(mut cond: impl FnMut() -> bool) {
    let Some(me) = me() else {
        while !cond() {
            std::thread::yield_now();
        }
        return;
    };
    while !cond() {
        lock().threads[me] = State::Blocked;
        let others = runnable_but(me);
        if others.is_empty() {
            eprintln!("deadlock: no thread can run");
            println!("{{\"deadlock\":true}}");
            std::process::exit(96);
        }
        let to = others[choose("next", others.len())];
        give(to);
        wait_turn(me);
        lock().threads[me] = State::Runnable;
    }
}

/// A thread about to be spawned. The parent calls this, then `started` once the thread exists;
/// the thread itself runs its body through `run`.
pub fn register() -> Option<(u64, usize)> {
    me()?;
    let mut s = lock();
    s.threads.push(State::Runnable);
    Some((s.epoch, s.threads.len() - 1))
}

pub fn started(id: Option<(u64, usize)>) {
    let (Some((_, id)), Some(me)) = (id, me()) else { return };
    if choose("child", 2) == 1 {
        give(id);
        wait_turn(me);
    }
}

struct Finish(usize);
impl Drop for Finish {
    fn drop(&mut self) {
        progress();
        lock().threads[self.0] = State::Done;
        let others = runnable_but(self.0);
        if !others.is_empty() {
            let to = others[choose("after", others.len())];
            give(to);
        }
    }
}

pub fn run<R>(id: Option<(u64, usize)>, f: impl FnOnce() -> R) -> R {
    let Some((epoch, id)) = id else { return f() };
    ME.with(|m| m.set((epoch, id)));
    wait_turn(id);
    let _f = Finish(id);
    f()
}

pub fn done(id: Option<(u64, usize)>) -> bool {
    match id {
        None => true,
        Some((_, id)) => lock().threads[id] == State::Done,
    }
}
