//! Depth-first exploration of all paths of a scenario, with the solver deciding every branch and
//! every assertion.
use crate::arena::*;
use crate::ctx::*;
use crate::enc::Enc;
use crate::engine::*;
use crate::json::*;
use crate::solver::*;
use crate::sym::Sym;
use std::collections::HashMap;
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::atomic::{AtomicU64, AtomicUsize};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type SymFn = Arc<dyn Fn(&mut Ctx<Sym>) + Send + Sync>;
pub type F64Fn = Arc<dyn Fn(&mut Ctx<f64>) + Send + Sync>;
pub type F32Fn = Arc<dyn Fn(&mut Ctx<f32>) + Send + Sync>;

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    pub domain: Domain,
    pub sym: SymFn,
    pub n64: Option<F64Fn>,
    pub n32: Option<F32Fn>,
    /// build variants in which to run it, `*` for all
    pub variants: String,
    /// how the inputs are bounded, for the evidence
    pub bounds: String,
    /// functions under test that the scenario executes
    pub funcs: String,
    /// seconds one run may take before it counts as a hang
    pub run_limit: u64,
    /// expected cost, to start long jobs first
    pub cost: u32,
}

pub struct Settings {
    pub solver: String,
    /// for integer queries that the linear solver leaves open
    pub exact_solver: String,
    pub timeout_ms: u64,
    pub time_s: f64,
    pub model_path: String,
    pub seed: u64,
    pub thorough: bool,
    pub max_paths: u64,
}

#[derive(Default, Debug)]
pub struct Stats {
    pub paths: u64,
    pub assertions: u64,
    pub branches: u64,
    pub flips_infeasible: u64,
    pub goals_solver: u64,
    pub goals_folded: u64,
    pub native_runs: u64,
    pub native_mismatch: u64,
    pub incomplete: u64,
    pub max_depth: usize,
    pub assumed_out: u64,
    pub exact_queries: u64,
}

pub struct Violation {
    pub label: String,
    pub model: Vec<(String, u64)>,
    pub desc: Vec<String>,
}

enum Outcome {
    Done,
    AssumeOut,
    Panicked(String),
    Unsupported(String),
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static RUN_START: AtomicU64 = AtomicU64::new(0);
static QUIET: AtomicUsize = AtomicUsize::new(1);

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_empty() {
            *g = format!("{m} at {loc}");
        }
        if QUIET.load(Relaxed) == 0 {
            eprintln!("panic: {m} at {loc}");
        }
    }));
}

fn run_catch<S: Scalar>(f: &(dyn Fn(&mut Ctx<S>) + Send + Sync), ctx: &mut Ctx<S>) -> Outcome {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clear();
    *UNSUPPORTED.lock().unwrap_or_else(|e| e.into_inner()) = None;
    match catch_unwind(AssertUnwindSafe(|| f(ctx))) {
        Ok(()) => Outcome::Done,
        Err(p) => {
            if p.is::<AssumeFailed>() {
                return Outcome::AssumeOut;
            }
            if let Some(u) = UNSUPPORTED.lock().unwrap_or_else(|e| e.into_inner()).take() {
                return Outcome::Unsupported(u);
            }
            let m = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
            Outcome::Panicked(if m.is_empty() { "panic".into() } else { m })
        }
    }
}

pub struct Explorer<'a> {
    sc: &'a Scenario,
    set: &'a Settings,
    /// exact encoding; used only when the linear one is undecided
    exact: Option<Enc>,
    lin: Option<Enc>,
    start: Instant,
    pub stats: Stats,
    pub violation: Option<Violation>,
    pub note: Option<String>,
    model_file: std::fs::File,
    base: Vec<Atom>,
    pub samples: Vec<String>,
}

enum Extra<'a> {
    None,
    Goals(&'a [u32]),
}

impl<'a> Explorer<'a> {
    pub fn new(sc: &'a Scenario, set: &'a Settings) -> Self {
        let model_file = std::fs::File::create(&set.model_path).expect("model file");
        Explorer {
            sc,
            set,
            exact: None,
            lin: (sc.domain == Domain::Int).then(|| Enc::new(&set.solver, set.timeout_ms, "QF_LIA", true)),
            start: Instant::now(),
            stats: Stats::default(),
            violation: None,
            note: None,
            model_file,
            base: vec![],
            samples: vec![],
        }
    }

    fn exact(&mut self) -> &mut Enc {
        if self.exact.is_none() {
            let name = match self.sc.domain {
                Domain::Int => self.set.exact_solver.as_str(),
                Domain::Mf { .. } => self.set.exact_solver.as_str(),
            };
            let mut enc = Enc::new(name, self.set.timeout_ms, "QF_BV", false);
            if let Domain::Mf { eb, sb } = self.sc.domain {
                enc.solver.send(&crate::bvfp::preamble(eb, sb));
            }
            self.exact = Some(enc);
        }
        self.exact.as_mut().unwrap()
    }

    /// Does the model satisfy the path condition and the negated goals, computed exactly?
    fn satisfies(&self, model: &HashMap<usize, u64>, extra: &Extra) -> bool {
        let mut e = eng();
        e.model = model.clone();
        self.base.iter().all(|a| match *a {
            Atom::Cmp { a, b, taken, .. } => outcome(e.eval(a), e.eval(b)) & taken != 0,
            Atom::Bool { term, val } => e.eval_b(term) == val,
            Atom::Assumed { term } => e.eval_b(term),
            Atom::Violated { term } => !e.eval_b(term),
        }) && match extra {
            Extra::None => true,
            Extra::Goals(g) => g.iter().any(|g| !e.eval_b(*g)),
        }
    }

    /// Is the path condition (`self.base`) satisfiable together with `extra`?
    fn check(&mut self, extra: Extra) -> (Sat, HashMap<usize, u64>) {
        if self.lin.is_some() {
            let mut lin = self.lin.take().unwrap();
            lin.sync(&self.base);
            if let Extra::Goals(g) = extra {
                lin.push_goals(g);
            }
            let mut r = (Sat::Unknown, HashMap::new());
            for _ in 0..12 {
                match lin.solver.check() {
                    Sat::Unsat => {
                        r.0 = Sat::Unsat;
                        break;
                    }
                    Sat::Unknown => break,
                    Sat::Sat => {
                        let m = lin.model();
                        if self.satisfies(&m, &extra) {
                            r = (Sat::Sat, m);
                            break;
                        }
                        if !lin.refine() {
                            break;
                        }
                    }
                }
            }
            if let Extra::Goals(_) = extra {
                lin.pop_goals();
            }
            self.lin = Some(lin);
            if r.0 != Sat::Unknown {
                return r;
            }
            self.stats.exact_queries += 1;
        }
        let base = self.base.clone();
        let ex = self.exact();
        ex.sync(&base);
        if let Extra::Goals(g) = extra {
            ex.push_goals(g);
        }
        let s = ex.solver.check();
        let m = if s == Sat::Sat { ex.model() } else { HashMap::new() };
        if let Extra::Goals(_) = extra {
            ex.pop_goals();
        }
        (s, m)
    }

    /// The model as (name, value) pairs, variables unknown to the solver included.
    fn named_model() -> Vec<(String, u64)> {
        let e = eng();
        (0..e.arena.vars.len())
            .map(|v| {
                let raw = e.raw(v);
                let x = if e.arena.vars[v].choice || !e.int() { raw } else { e.arena.decode_var(v, raw) as i64 as u64 };
                (e.arena.vars[v].name.clone(), x)
            })
            .collect()
    }

    fn write_model(&mut self) {
        let t = model_text(&Self::named_model());
        let _ = self.model_file.rewind();
        let _ = self.model_file.set_len(0);
        let _ = self.model_file.write_all(t.as_bytes());
    }

    fn run(&mut self, model: HashMap<usize, u64>) -> (Ctx<Sym>, Outcome, Vec<Atom>) {
        {
            let mut e = eng();
            e.begin(&self.base, model);
        }
        self.write_model();
        BAD_TAG.store(0, Relaxed);
        RUN_START.store(self.start.elapsed().as_millis() as u64 + 1, Relaxed);
        let mut ctx = Ctx::<Sym>::new(Mode::Symbolic, self.sc.domain, HashMap::new());
        ctx.tier_thorough = self.set.thorough;
        let o = run_catch(&*self.sc.sym, &mut ctx);
        RUN_START.store(0, Relaxed);
        let trace = {
            let mut e = eng();
            e.active = false;
            std::mem::take(&mut e.trace)
        };
        (ctx, o, trace)
    }

    fn over(&self) -> bool {
        self.violation.is_some() || self.note.is_some() || self.start.elapsed().as_secs_f64() > self.set.time_s || self.stats.paths >= self.set.max_paths
    }

    fn violate(&mut self, label: String, desc: Vec<String>) {
        self.write_model();
        self.violation = Some(Violation { label, model: Self::named_model(), desc });
    }

    /// The real code on the real scalar type, with the inputs of the path just run.
    fn native_as<S: Scalar>(&mut self, f: &(dyn Fn(&mut Ctx<S>) + Send + Sync), ctx: &Ctx<Sym>) {
        let model: HashMap<String, u64> = Self::named_model().into_iter().collect();
        let mut c = Ctx::<S>::new(Mode::Concrete, self.sc.domain, model);
        c.tier_thorough = self.set.thorough;
        RUN_START.store(self.start.elapsed().as_millis() as u64 + 1, Relaxed);
        let mut bad = None;
        match run_catch(f, &mut c) {
            Outcome::Panicked(m) => bad = Some((format!("native run: {m}"), c.desc.clone())),
            Outcome::Done => {
                if let Some(x) = c.checks.iter().find(|x| !x.1.c) {
                    bad = Some((format!("native run: {}", x.0), c.desc.clone()));
                }
                let same = c.obs.len() == ctx.obs.len() && c.obs.iter().zip(&ctx.obs).all(|(a, b)| a == b || (a.is_nan() && b.is_nan()));
                if !same {
                    self.stats.native_mismatch += 1;
                }
            }
            _ => {}
        }
        RUN_START.store(0, Relaxed);
        self.stats.native_runs += 1;
        if let Some((l, d)) = bad {
            self.violate(l, d);
        }
    }

    fn native(&mut self, ctx: &Ctx<Sym>) {
        if let Some(f) = self.sc.n64.clone() {
            self.native_as::<f64>(&*f, ctx);
        } else if let Some(f) = self.sc.n32.clone() {
            self.native_as::<f32>(&*f, ctx);
        }
    }

    pub fn explore(&mut self, model: HashMap<usize, u64>) {
        if self.over() {
            self.stats.incomplete += 1;
            return;
        }
        let (ctx, outcome, trace) = self.run(model);
        self.stats.paths += 1;
        self.stats.branches += trace.len() as u64;
        let base_len = self.base.len();
        self.stats.max_depth = self.stats.max_depth.max(base_len + trace.len());
        match &outcome {
            Outcome::Unsupported(m) => {
                self.note = Some(format!("unsupported: {m}"));
                return;
            }
            Outcome::Panicked(m) => {
                self.violate(format!("panic: {m}"), ctx.desc.clone());
                return;
            }
            Outcome::AssumeOut => self.stats.assumed_out += 1,
            Outcome::Done => {
                if BAD_TAG.load(Relaxed) != 0 {
                    self.violate("uninitialised scalar".into(), ctx.desc.clone());
                    return;
                }
                self.stats.assertions += ctx.checks.len() as u64;
                if let Some(c) = ctx.checks.iter().find(|c| !c.1.c) {
                    self.violate(c.0.clone(), ctx.desc.clone());
                    return;
                }
                self.native(&ctx);
                if self.violation.is_some() {
                    return;
                }
                if self.samples.len() < 3 && (self.stats.paths < 3 || self.stats.paths % 97 == 0) {
                    self.samples.push(format!("path {}: inputs {} ; {} branches ; {} assertions", self.stats.paths, ctx.desc.join(" "), trace.len(), ctx.checks.len()));
                }
            }
        }
        // enter the path
        self.base.extend(&trace);
        // the assertion, for every value that follows this path
        if matches!(outcome, Outcome::Done) {
            let goals: Vec<u32> = {
                let mut g: Vec<u32> = ctx.checks.iter().filter(|c| c.1.id != 0).map(|c| c.1.id).collect();
                g.sort();
                g.dedup();
                g
            };
            if goals.is_empty() {
                self.stats.goals_folded += 1;
            } else {
                self.stats.goals_solver += 1;
                match self.check(Extra::Goals(&goals)) {
                    (Sat::Unsat, _) => {}
                    (Sat::Unknown, _) => self.stats.incomplete += 1,
                    (Sat::Sat, m) => {
                        let (c2, o2, _) = self.run(m);
                        match o2 {
                            Outcome::Done => {
                                if let Some(c) = c2.checks.iter().find(|c| !c.1.c) {
                                    self.violate(c.0.clone(), c2.desc.clone());
                                } else {
                                    self.note = Some(format!("counterexample did not reproduce in the symbolic runtime: {}", c2.desc.join(" ")));
                                }
                            }
                            Outcome::Panicked(m) => self.violate(format!("panic: {m}"), c2.desc.clone()),
                            _ => self.note = Some("counterexample run ended outside the precondition".into()),
                        }
                        return;
                    }
                }
            }
        }
        // the other side of each branch, deepest first
        for i in (0..trace.len()).rev() {
            self.base.truncate(base_len + i);
            let flipped = match trace[i] {
                Atom::Cmp { a, b, before, taken } => Atom::Cmp { a, b, before, taken: before & !taken },
                Atom::Bool { term, val } => Atom::Bool { term, val: !val },
                Atom::Assumed { .. } => continue,
                Atom::Violated { term } => Atom::Assumed { term },
            };
            if self.over() {
                self.stats.incomplete += 1;
                continue;
            }
            self.base.push(flipped);
            match self.check(Extra::None) {
                (Sat::Unsat, _) => self.stats.flips_infeasible += 1,
                (Sat::Unknown, _) => self.stats.incomplete += 1,
                (Sat::Sat, m) => {
                    self.explore(m);
                    if self.violation.is_some() || self.note.is_some() {
                        return;
                    }
                }
            }
        }
        self.base.truncate(base_len);
    }

    pub fn report(&self) -> String {
        let s = &self.stats;
        let q = |f: fn(&Enc) -> u64| self.lin.as_ref().map(f).unwrap_or(0) + self.exact.as_ref().map(f).unwrap_or(0);
        let names: Vec<&str> = [&self.lin, &self.exact].iter().filter_map(|e| e.as_ref().map(|e| e.solver.name.as_str())).collect();
        let names = names.join("+");
        let mut o = format!(
            "{{\"scenario\":{},\"paths\":{},\"assertions\":{},\"branches\":{},\"infeasible\":{},\"goal_queries\":{},\"goals_folded\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"native_runs\":{},\"native_mismatch\":{},\"incomplete\":{},\"max_depth\":{},\"assumed_out\":{},\"terms\":{},\"exact_queries\":{},\"refinements\":{},\"solver\":{},\"bounds\":{},\"funcs\":{},\"samples\":[{}]",
            esc(&self.sc.name), s.paths, s.assertions, s.branches, s.flips_infeasible, s.goals_solver, s.goals_folded,
            q(|e| e.solver.queries), q(|e| e.solver.sat), q(|e| e.solver.unsat), q(|e| e.solver.unknown), q(|e| e.solver.time.as_micros() as u64) as f64 / 1e6, self.start.elapsed().as_secs_f64(),
            s.native_runs, s.native_mismatch, s.incomplete, s.max_depth, s.assumed_out, eng().arena.nodes.len(), s.exact_queries, q(|e| e.refinements), esc(&names), esc(&self.sc.bounds), esc(&self.sc.funcs),
            self.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
        );
        if let Some(v) = &self.violation {
            o += &format!(",\"violation\":{{\"label\":{},\"desc\":{},\"model\":{}}}", esc(&v.label), esc(&v.desc.join(" ")), esc(&model_text(&v.model)));
        }
        if let Some(n) = &self.note {
            o += &format!(",\"note\":{}", esc(n));
        }
        o += "}";
        o
    }
}

/// Explore one scenario; prints one JSON line.
pub fn work(sc: &Scenario, set: &Settings) {
    quiet_panics();
    install(sc.domain, set.seed);
    let limit = sc.run_limit;
    let t0 = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let s = RUN_START.load(Relaxed);
        if s != 0 {
            let now = t0.elapsed().as_millis() as u64 + 1;
            if now > s + limit * 1000 {
                println!("{{\"hang\":true}}");
                std::process::exit(97);
            }
        }
    });
    let out = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn_scoped(s, || {
                let mut x = Explorer::new(sc, set);
                x.explore(HashMap::new());
                x.report()
            })
            .unwrap()
            .join()
            .expect("explorer thread")
    });
    println!("{out}");
}

/// Run one scenario concretely on a model. Exit code: 0 held, 1 property violated, 3 outside the
/// precondition. A crash or hang of the process is a violation too; the caller sees it.
pub fn replay(sc: &Scenario, model: &str, thorough: bool, as_sym: bool) -> i32 {
    quiet_panics();
    QUIET.store(0, Relaxed);
    install(sc.domain, 0);
    eng().concrete = true;
    let m = parse_model(model);
    fn go<S: Scalar>(f: &(dyn Fn(&mut Ctx<S>) + Send + Sync), d: Domain, m: HashMap<String, u64>, thorough: bool, what: &str) -> i32 {
        let mut c = Ctx::<S>::new(Mode::Concrete, d, m);
        c.tier_thorough = thorough;
        let r = run_catch(f, &mut c);
        println!("inputs ({what}): {}", c.desc.join(" "));
        match r {
            Outcome::Panicked(m) => {
                println!("FAILED: panic: {m}");
                1
            }
            Outcome::AssumeOut => {
                println!("outside the precondition");
                3
            }
            Outcome::Unsupported(m) => {
                println!("unsupported: {m}");
                4
            }
            Outcome::Done => match c.checks.iter().find(|x| !x.1.c) {
                Some(x) => {
                    println!("FAILED: {}", x.0);
                    1
                }
                None => {
                    println!("held");
                    0
                }
            },
        }
    }
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || {
                if as_sym {
                    go(&*sc.sym, sc.domain, m, thorough, "model scalar, concrete")
                } else if let Some(f) = &sc.n64 {
                    go(&**f, sc.domain, m, thorough, "f64")
                } else if let Some(f) = &sc.n32 {
                    go(&**f, sc.domain, m, thorough, "f32")
                } else {
                    go(&*sc.sym, sc.domain, m, thorough, "model scalar, concrete")
                }
            })
            .unwrap()
            .join()
            .unwrap_or(1)
    })
}
