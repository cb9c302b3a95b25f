//! Inputs, references and result shapes shared by the scenarios.
pub use fnntw::Tree;
pub use ordered_float::NotNan;
pub use symrt::arena::Domain;
pub use symrt::explore::Scenario;
pub use symrt::{all, any, Ctx, Scalar, Sym, B};

/// How the points of a scenario are made.
#[derive(Clone, Debug)]
pub enum Data {
    /// every coordinate is a symbolic integer in lo..=hi
    Sym { n: usize, lo: i64, hi: i64 },
    /// symbolic, first coordinates non-decreasing (one representative per input permutation)
    Sorted { n: usize, lo: i64, hi: i64 },
    /// concrete, by generator number
    Conc { n: usize, gen: u32, lo: i64, hi: i64 },
    /// concrete, except that the last `m` points are symbolic
    Mixed { n: usize, m: usize, gen: u32, lo: i64, hi: i64 },
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub data: Data,
    pub q: (i64, i64),
    pub leaf: (usize, usize),
    pub k: (usize, usize),
    /// parallel build with par_split_level in this range
    pub par: Option<(usize, usize)>,
    /// periodic box, same in every dimension unless symbolic
    pub boxsize: Option<(i64, i64)>,
    /// by how much the box is longer in each further dimension
    pub oblong: i64,
    /// number of queries in a batch
    pub nq: usize,
    /// which batch entry point
    pub api: u32,
    pub axis: (usize, usize),
    /// number of concrete queries ahead of the symbolic ones in a batch
    pub extra: u64,
    /// instead, one of these numbers of concrete queries
    pub sizes: &'static [usize],
    /// batches in which the same query comes several times
    pub again: bool,
    pub sched: Option<Sch>,
    /// coordinates are multiples of 2^-unit
    pub unit: i32,
}

/// Exploration of schedules (only in the build against the scheduling shims).
#[derive(Clone, Copy, Debug)]
pub struct Sch {
    pub preemptions: u64,
    /// pool threads of data-parallel loops
    pub workers: usize,
    /// may be preempted at every comparison, not only at locks, atomics and joins
    pub fine: bool,
}

/// Run `f` under all schedules that `cfg` asks for.
#[allow(unused_variables)]
pub fn exec<S: Scalar, R>(ctx: &mut Ctx<S>, cfg: &Cfg, f: impl FnOnce() -> R) -> R {
    #[cfg(feature = "sched")]
    if let Some(s) = cfg.sched {
        return crate::sched::scheduled(ctx, s.preemptions, s.workers, s.fine, f);
    }
    f()
}

impl Cfg {
    pub fn new(data: Data) -> Cfg {
        let (lo, hi) = data.range();
        Cfg { data, q: (lo, hi), leaf: (1, 1), k: (1, 1), par: None, boxsize: None, oblong: 0, nq: 1, api: 0, axis: (0, 0), extra: 0, sizes: &[], again: false, sched: None, unit: 0 }
    }
    pub fn leaf(mut self, a: usize, b: usize) -> Cfg {
        self.leaf = (a, b);
        self
    }
    pub fn k(mut self, a: usize, b: usize) -> Cfg {
        self.k = (a, b);
        self
    }
    pub fn q(mut self, a: i64, b: i64) -> Cfg {
        self.q = (a, b);
        self
    }
    pub fn par(mut self, a: usize, b: usize) -> Cfg {
        self.par = Some((a, b));
        self
    }
    pub fn boxed(mut self, a: i64, b: i64) -> Cfg {
        self.boxsize = Some((a, b));
        self
    }
    pub fn oblong(mut self, a: i64) -> Cfg {
        self.oblong = a;
        self
    }
    pub fn nq(mut self, n: usize) -> Cfg {
        self.nq = n;
        self
    }
    pub fn api(mut self, a: u32) -> Cfg {
        self.api = a;
        self
    }
    pub fn axis(mut self, a: usize, b: usize) -> Cfg {
        self.axis = (a, b);
        self
    }
    pub fn extra(mut self, a: u64) -> Cfg {
        self.extra = a;
        self
    }
    pub fn sizes(mut self, a: &'static [usize]) -> Cfg {
        self.sizes = a;
        self
    }
    pub fn again(mut self) -> Cfg {
        self.again = true;
        self
    }
    pub fn sched(mut self, preemptions: u64, workers: usize, fine: bool) -> Cfg {
        self.sched = Some(Sch { preemptions, workers, fine });
        self
    }
    pub fn unit(mut self, u: i32) -> Cfg {
        self.unit = u;
        self
    }
    pub fn describe(&self, d: usize) -> String {
        let mut s = match &self.data {
            Data::Sym { n, lo, hi } => format!("{n} points in {d}-D, every coordinate symbolic in {lo}..={hi}, any input order"),
            Data::Sorted { n, lo, hi } => format!("{n} points in {d}-D, every coordinate symbolic in {lo}..={hi}, first coordinates in input order"),
            Data::Conc { n, gen, lo, hi } => format!("concrete data set #{gen} of {n} points in {d}-D in {lo}..={hi}"),
            Data::Mixed { n, m, gen, lo, hi } => format!("concrete data set #{gen} of {n} points in {d}-D in {lo}..={hi}, {m} of them symbolic"),
        };
        s += &format!("; query coordinates symbolic in {}..={}; leafsize {}..={}; k {}..={}", self.q.0, self.q.1, self.leaf.0, self.leaf.1, self.k.0, self.k.1);
        if let Some(p) = self.par {
            s += &format!("; parallel build, split level {}..={}", p.0, p.1);
        }
        if let Some(b) = self.boxsize {
            s += &format!("; periodic box {}..={}", b.0, b.1);
            if self.oblong != 0 {
                s += &format!(" (plus {} per dimension)", self.oblong);
            }
        }
        if self.nq != 1 {
            s += &format!("; {} symbolic queries", self.nq);
        }
        if self.extra != 0 {
            s += &format!("; {} concrete queries", self.extra);
        }
        if !self.sizes.is_empty() {
            s += &format!("; one of {:?} concrete queries", self.sizes);
        }
        if self.unit != 0 {
            s += &format!("; all coordinates in units of 2^{}", -self.unit);
        }
        if let Some(c) = self.sched {
            s += &format!("; all schedules with at most {} preemptions at {}", c.preemptions, if c.fine { "locks, atomics, joins and every comparison" } else { "locks, atomics and joins" });
            if c.workers > 0 {
                s += &format!(", any distribution of loop items over {} pool threads{}", c.workers % 10, if c.workers >= 10 { ", being every, every 240th or every 256th thread of the pool" } else { "" });
            }
        }
        s
    }
}

impl Data {
    pub fn n(&self) -> usize {
        match self {
            Data::Sym { n, .. } | Data::Sorted { n, .. } | Data::Conc { n, .. } | Data::Mixed { n, .. } => *n,
        }
    }
    pub fn range(&self) -> (i64, i64) {
        match self {
            Data::Sym { lo, hi, .. } | Data::Sorted { lo, hi, .. } | Data::Conc { lo, hi, .. } | Data::Mixed { lo, hi, .. } => (*lo, *hi),
        }
    }
    pub fn make<S: Scalar, const D: usize>(&self, ctx: &mut Ctx<S>) -> Vec<[S; D]> {
        match *self {
            Data::Sym { n, lo, hi } => (0..n).map(|i| point(ctx, &format!("p{i}"), lo, hi)).collect(),
            Data::Sorted { n, lo, hi } => {
                let p: Vec<[S; D]> = (0..n).map(|i| point(ctx, &format!("p{i}"), lo, hi)).collect();
                for w in p.windows(2) {
                    ctx.assume(w[0][0].b_le(w[1][0]));
                }
                p
            }
            Data::Conc { n, gen, lo, hi } => concrete::<D>(n, gen, lo, hi).into_iter().map(|p| p.map(lit)).collect(),
            Data::Mixed { n, m, gen, lo, hi } => {
                let mut v: Vec<[S; D]> = concrete::<D>(n, gen, lo, hi).into_iter().map(|p| p.map(lit)).collect();
                for i in 0..m {
                    // spread over the input order
                    let at = if m == 1 { n / 2 } else { i * (n - 1) / (m - 1) };
                    v[at] = point(ctx, &format!("p{at}"), lo, hi);
                }
                v
            }
        }
    }
}

static UNIT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);

/// Called before a scenario runs.
pub fn set_unit(cfg: &Cfg) {
    UNIT.store(cfg.unit, std::sync::atomic::Ordering::Relaxed);
}

fn unit() -> f64 {
    2f64.powi(-UNIT.load(std::sync::atomic::Ordering::Relaxed))
}

/// `x` units of length
pub fn lit<S: Scalar>(x: i64) -> S {
    S::lit(x as f64 * unit())
}

/// A symbolic number of units of length
pub fn num<S: Scalar>(ctx: &mut Ctx<S>, name: &str, lo: i64, hi: i64) -> S {
    let x = ctx.num(name, lo, hi);
    if unit() == 1.0 {
        x
    } else {
        x * S::lit(unit())
    }
}

pub fn point<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, name: &str, lo: i64, hi: i64) -> [S; D] {
    std::array::from_fn(|d| num(ctx, &format!("{name}_{d}"), lo, hi))
}

/// Deterministic data sets: 0 pseudo-random, 1 all equal, 2 few distinct values, 3 sorted line,
/// 4 two clusters, 5 reversed line, 6 random in a coarse grid (many ties),
/// 8 random, the first three equal, 9 a rare middle value, most of its repetitions late among larger ones
pub fn concrete<const D: usize>(n: usize, gen: u32, lo: i64, hi: i64) -> Vec<[i64; D]> {
    let span = (hi - lo + 1) as u64;
    let h = |i: usize, d: usize| {
        let mut x = (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (d as u64 + 1).wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ (gen as u64).wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^= x >> 29;
        x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x ^ (x >> 32)
    };
    (0..n)
        .map(|i| {
            std::array::from_fn(|d| match gen {
                1 => lo + span as i64 / 2,
                2 => lo + ((h(i, d) % 2) * (span - 1)) as i64,
                3 => lo + (i as u64 * (span - 1) / (n.max(2) as u64 - 1)) as i64,
                4 => {
                    let q = span / 4;
                    (if h(i, 99) % 2 == 0 { lo } else { hi - q as i64 }) + (h(i, d) % q.max(1)) as i64
                }
                5 => hi - (i as u64 * (span - 1) / (n.max(2) as u64 - 1)) as i64,
                9 => {
                    let half = span / 2;
                    let late = i >= n - n / 4;
                    if if late { i >= n - n / 8 && i % 32 == 31 } else { i % 37 == 36 } {
                        lo + half as i64
                    } else if late || i % 2 == 0 {
                        lo + half as i64 + 1 + (h(i, d) % (half - 1).max(1)) as i64
                    } else {
                        lo + (h(i, d) % half.max(1)) as i64
                    }
                }
                // mirrored about the middle, nearly
                10 if i % 2 == 0 => hi - 5 * i as i64,
                10 => lo + 5 * (i as i64 - 1) + 1,
                8 if i < 3 => lo + (h(0, d) % span) as i64,
                6 => lo + ((h(i, d) % 4) * (span - 1) / 3) as i64,
                _ => lo + (h(i, d) % span) as i64,
            })
        })
        .collect()
}

/// Places in a sequence of `n` things at which something may be overlooked.
pub fn places(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 2, n - 1, n.saturating_sub(2)];
    for p in [7, 8, 10, 12, 14, 16] {
        v.extend([(1 << p) - 1, 1 << p]);
    }
    v.push(n / 16 * 16);
    v.retain(|i| *i < n);
    v.sort();
    v.dedup();
    v
}

/// Squared distance in the order the property defines it.
pub fn d2<S: Scalar, const D: usize>(a: &[S; D], b: &[S; D]) -> S {
    let mut s = S::lit(0.0);
    for i in 0..D {
        let t = a[i] - b[i];
        s = s + t * t;
    }
    s
}

/// x <= every one of `xs`; the known ones are summed up by their minimum.
pub fn at_most<S: Scalar>(x: S, xs: impl IntoIterator<Item = S>) -> B {
    let mut least: Option<S> = None;
    let mut b = B::k(true);
    for y in xs {
        if !y.known() || y.conc().is_nan() {
            b = b & x.b_le(y);
        } else if least.map_or(true, |l| y.conc() < l.conc()) {
            least = Some(y);
        }
    }
    match least {
        Some(l) => x.b_le(l) & b,
        None => b,
    }
}

/// The value the library reports for a squared distance in this build configuration.
pub fn reported<S: Scalar>(x: S) -> S {
    if cfg!(feature = "sqrt-dist2") {
        x.sqrt()
    } else {
        x
    }
}

pub fn build<'t, S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg, data: &'t [[S; D]]) -> Tree<'t, S, D> {
    let leaf = ctx.choose("leafsize", cfg.leaf.0, cfg.leaf.1);
    match cfg.par {
        None => Tree::new(data, leaf).expect("valid data was rejected"),
        Some((a, b)) => {
            let p = ctx.choose("par_split_level", a, b);
            exec(ctx, cfg, || Tree::new_parallel(data, leaf, p)).expect("valid data was rejected")
        }
    }
}

pub fn nn<S: Scalar, const D: usize>(p: &[S; D]) -> [NotNan<S>; D] {
    p.map(|x| NotNan::new(x).unwrap())
}

/// One row of a k-nearest result.
pub struct Row<S, const D: usize> {
    pub d: Vec<S>,
    pub i: Option<Vec<u64>>,
    pub p: Option<Vec<[S; D]>>,
}

#[macro_export]
macro_rules! scenario {
    ($v:expr, $name:expr, $f:ident, $d:literal, $cfg:expr, $funcs:expr, $cost:expr) => {{
        let cfg: Cfg = $cfg;
        let bounds = cfg.describe($d);
        let (c1, c2) = (cfg.clone(), cfg.clone());
        $v.push(Scenario {
            name: format!("{}", $name),
            domain: Domain::Int,
            sym: std::sync::Arc::new(move |c: &mut Ctx<Sym>| {
                set_unit(&c1);
                $f::<Sym, $d>(c, &c1)
            }),
            // with preemption at comparisons a schedule means the same only for the same scalar type
            n64: if cfg.sched.map_or(false, |s| s.fine) { None } else { Some(std::sync::Arc::new(move |c: &mut Ctx<f64>| {
                set_unit(&c2);
                $f::<f64, $d>(c, &c2)
            })) },
            n32: None,
            variants: "*".to_string(),
            bounds,
            funcs: $funcs.to_string(),
            run_limit: 30,
            cost: $cost,
        });
    }};
}

/// IEEE values of the given format: (11, 53) is f64, (8, 24) is f32, others are small formats.
#[macro_export]
macro_rules! ieee {
    ($v:expr, $name:expr, $f:ident, $d:literal, $eb:expr, $sb:expr, $cfg:expr, $funcs:expr, $cost:expr) => {{
        let cfg: Cfg = $cfg;
        let what = match ($eb, $sb) {
            (11, 53) => "f64".to_string(),
            (8, 24) => "f32".to_string(),
            (a, b) => format!("IEEE floats with {} exponent and {} fraction bits", a, b - 1),
        };
        let bounds = format!("{} points in {}-D, coordinates {}; leafsize {}..={}; k {}..={}; {} queries", cfg.data.n(), $d, what, cfg.leaf.0, cfg.leaf.1, cfg.k.0, cfg.k.1, cfg.nq);
        let (c1, c2, c3) = (cfg.clone(), cfg.clone(), cfg.clone());
        $v.push(Scenario {
            name: format!("{}", $name),
            domain: Domain::Mf { eb: $eb, sb: $sb },
            sym: std::sync::Arc::new(move |c: &mut Ctx<Sym>| $f::<Sym, $d>(c, &c1)),
            n64: if ($eb, $sb) == (11, 53) { Some(std::sync::Arc::new(move |c: &mut Ctx<f64>| $f::<f64, $d>(c, &c2))) } else { None },
            n32: if ($eb, $sb) == (8, 24) { Some(std::sync::Arc::new(move |c: &mut Ctx<f32>| $f::<f32, $d>(c, &c3))) } else { None },
            variants: "*".to_string(),
            bounds,
            funcs: $funcs.to_string(),
            run_limit: 30,
            cost: $cost,
        });
    }};
}

/// Restrict the scenarios added last to some build variants.
#[macro_export]
macro_rules! only {
    ($v:expr, $from:expr, $w:expr) => {
        for s in &mut $v[$from..] {
            s.variants = $w.to_string();
        }
    };
}
