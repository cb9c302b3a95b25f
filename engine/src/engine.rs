//! The state of the current symbolic run: path condition, trace of branches, concolic model.
use crate::arena::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Mutex, MutexGuard};

/// A symbolic boolean: its value in the current run and its term (0: constant).
#[derive(Clone, Copy, Debug)]
pub struct B {
    pub c: bool,
    pub id: u32,
}

/// A branch of the run.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Atom {
    /// outcome of comparing a with b was known to lie in `before`, and lies in `taken`
    Cmp { a: u32, b: u32, before: u8, taken: u8 },
    Bool { term: u32, val: bool },
    /// like Bool{val: true} but the other side is outside the property's precondition
    Assumed { term: u32 },
    /// the run left the precondition here: only the other side matters
    Violated { term: u32 },
}

/// An integer interval with holes.
#[derive(Clone, Debug)]
pub struct Know {
    pub lo: i64,
    pub hi: i64,
    pub not: Vec<i64>,
}

impl Know {
    /// possible outcomes of comparing with r
    pub fn mask(&self, r: i64) -> u8 {
        let mut m = 0;
        if self.lo < r {
            m |= L;
        }
        if self.lo <= r && r <= self.hi && !self.not.contains(&r) {
            m |= E;
        }
        if self.hi > r {
            m |= G;
        }
        m
    }
    pub fn restrict(&mut self, r: i64, m: u8) {
        match m & LEG {
            1 => self.hi = self.hi.min(r - 1),
            2 => {
                self.lo = self.lo.max(r);
                self.hi = self.hi.min(r);
            }
            3 => self.hi = self.hi.min(r),
            4 => self.lo = self.lo.max(r + 1),
            6 => self.lo = self.lo.max(r),
            5 => self.not.push(r),
            _ => {}
        }
        loop {
            if self.not.contains(&self.lo) && self.lo <= self.hi {
                self.lo += 1;
            } else if self.not.contains(&self.hi) && self.lo <= self.hi {
                self.hi -= 1;
            } else {
                break;
            }
        }
    }
}

pub struct Engine {
    pub arena: Arena,
    pub known: HashMap<(u32, u32), u8>,
    /// what the path condition says about each integer form
    pub forms: HashMap<u32, Know>,
    pub known_b: HashMap<u32, bool>,
    pub trace: Vec<Atom>,
    /// raw bits by variable
    pub model: HashMap<usize, u64>,
    pub active: bool,
    /// concrete replay: variables are read from the model and become constants
    pub concrete: bool,
    pub branches: u64,
    pub seed: u64,
    pub touched: Vec<usize>,
}

static ENGINE: Mutex<Option<Engine>> = Mutex::new(None);
pub static BAD_TAG: AtomicU64 = AtomicU64::new(0);
pub static MF: AtomicBool = AtomicBool::new(false);
pub static MF_FMT: AtomicU64 = AtomicU64::new(0);
/// called at each symbolic branch; the cooperative scheduler uses it as a switch point
pub static ON_BRANCH: Mutex<Option<fn()>> = Mutex::new(None);
pub static HOOKED: AtomicBool = AtomicBool::new(false);

/// Call `f` before every comparison made by the code under test.
pub fn on_branch(f: Option<fn()>) {
    HOOKED.store(f.is_some(), std::sync::atomic::Ordering::Relaxed);
    *ON_BRANCH.lock().unwrap_or_else(|e| e.into_inner()) = f;
}

pub struct AssumeFailed;
pub struct Unsupported(pub String);
/// The first thing the encoding could not express in this run. Code under test may wrap the panic.
pub static UNSUPPORTED: Mutex<Option<String>> = Mutex::new(None);

pub fn unsupported(m: String) -> ! {
    UNSUPPORTED.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert(m.clone());
    std::panic::panic_any(Unsupported(m))
}

pub struct Guard(MutexGuard<'static, Option<Engine>>);
impl std::ops::Deref for Guard {
    type Target = Engine;
    fn deref(&self) -> &Engine {
        self.0.as_ref().expect("no symbolic engine")
    }
}
impl std::ops::DerefMut for Guard {
    fn deref_mut(&mut self) -> &mut Engine {
        self.0.as_mut().expect("no symbolic engine")
    }
}

pub fn eng() -> Guard {
    Guard(ENGINE.lock().unwrap_or_else(|e| e.into_inner()))
}

pub fn install(domain: Domain, seed: u64) {
    let e = Engine {
        arena: Arena::new(domain),
        known: HashMap::new(),
        forms: HashMap::new(),
        known_b: HashMap::new(),
        trace: vec![],
        model: HashMap::new(),
        active: false,
        concrete: false,
        branches: 0,
        seed,
        touched: vec![],
    };
    if let Domain::Mf { eb, sb } = domain {
        MF.store(true, Relaxed);
        MF_FMT.store((eb as u64) << 32 | sb as u64, Relaxed);
    } else {
        MF.store(false, Relaxed);
    }
    *ENGINE.lock().unwrap_or_else(|e| e.into_inner()) = Some(e);
}

#[inline]
pub fn mf() -> Option<(u32, u32)> {
    if MF.load(Relaxed) {
        let x = MF_FMT.load(Relaxed);
        Some(((x >> 32) as u32, x as u32))
    } else {
        None
    }
}

/// Round to the active format (identity in the Int domain).
#[inline]
pub fn rnd(x: f64) -> f64 {
    match mf() {
        Some((eb, sb)) => round_mf(x, eb, sb),
        None => x,
    }
}

pub fn outcome(a: f64, b: f64) -> u8 {
    if a < b {
        L
    } else if a == b {
        E
    } else if a > b {
        G
    } else {
        U
    }
}

pub fn swap(m: u8) -> u8 {
    (m & (E | U)) | if m & L != 0 { G } else { 0 } | if m & G != 0 { L } else { 0 }
}

/// A comparison after normalisation.
enum Norm {
    /// decided: the only possible outcome
    Known(u8),
    /// compare term a with term b; `flip`: the outcome is to be swapped;
    /// `grid`: b is a constant rounded down, where E and L both mean L
    Pair { a: u32, b: u32, flip: bool, grid: bool, o: u8, initial: u8 },
}

impl Engine {
    pub fn int(&self) -> bool {
        self.arena.int()
    }

    pub fn term(&mut self, c: f64, id: u32) -> u32 {
        if id != 0 {
            id
        } else {
            self.arena.constant(c)
        }
    }

    fn normalise(&mut self, ac: f64, aid: u32, bc: f64, bid: u32) -> Norm {
        if aid == 0 && bid == 0 {
            return Norm::Known(outcome(ac, bc));
        }
        let mut o = outcome(ac, bc);
        let mut a = self.term(ac, aid);
        let mut b = self.term(bc, bid);
        if self.int() {
            // square roots compare like their arguments
            let na = self.arena.nodes[a as usize];
            let nb = self.arena.nodes[b as usize];
            match (na.op == Op::Sqrt, nb.op == Op::Sqrt) {
                (true, true) => {
                    a = na.a;
                    b = nb.a;
                }
                (true, false) if nb.op == Op::Const => {
                    if bc.is_infinite() {
                        return Norm::Known(if bc > 0.0 { L } else { G });
                    }
                    if bc < 0.0 {
                        return Norm::Known(G);
                    }
                    a = na.a;
                    b = self.arena.constant(bc * bc);
                }
                (false, true) if na.op == Op::Const => {
                    if ac.is_infinite() {
                        return Norm::Known(if ac > 0.0 { G } else { L });
                    }
                    if ac < 0.0 {
                        return Norm::Known(L);
                    }
                    a = self.arena.constant(ac * ac);
                    b = nb.a;
                }
                (true, false) => {
                    // sqrt(x) against y: y < 0 is G, otherwise compare x with y^2
                    let y = (bc, bid);
                    if self.arena.meta[b as usize].lo < 0.0 && self.decide(y.0, y.1, 0.0, 0, &[L, E | G | U]) == 0 {
                        return Norm::Known(G);
                    }
                    a = na.a;
                    b = self.arena.mk(Op::Mul, b, b, 0, 0);
                }
                (false, true) => {
                    let x = (ac, aid);
                    if self.arena.meta[a as usize].lo < 0.0 && self.decide(x.0, x.1, 0.0, 0, &[L, E | G | U]) == 0 {
                        return Norm::Known(L);
                    }
                    a = self.arena.mk(Op::Mul, a, a, 0, 0);
                    b = nb.a;
                }
                _ => {}
            }
            if na.op == Op::Sqrt || nb.op == Op::Sqrt {
                // the concrete outcome through the exact arguments
                let x = self.eval(a);
                let y = self.eval(b);
                o = outcome(x, y);
            }
        }
        if self.int() {
            if let Some(n) = self.form_of(a, b) {
                return n;
            }
        }
        let ma = self.arena.meta[a as usize];
        let mb = self.arena.meta[b as usize];
        let nanp = if ma.can_nan || mb.can_nan { U } else { 0 };
        if a == b {
            if nanp == 0 {
                return Norm::Known(E);
            }
            return Norm::Pair { a, b, flip: false, grid: false, o, initial: E | U };
        }
        let mut initial = LEG | nanp;
        if self.int() {
            if ma.lo.is_nan() || mb.lo.is_nan() {
                return Norm::Known(U);
            }
            if ma.hi < mb.lo {
                return Norm::Known(L);
            }
            if ma.lo > mb.hi {
                return Norm::Known(G);
            }
            if ma.lo == ma.hi && mb.lo == mb.hi {
                return Norm::Known(outcome(ma.lo, mb.lo));
            }
            if ma.hi == mb.lo {
                initial &= !G;
            }
            if ma.lo == mb.hi {
                initial &= !L;
            }
            // a constant that is not on the other term's grid: round it down
            for side in 0..2 {
                let (k, t) = if side == 0 { (b, a) } else { (a, b) };
                if self.arena.nodes[k as usize].op == Op::Const && self.arena.meta[k as usize].big {
                    let kc = f64::from_bits(self.arena.nodes[k as usize].cst);
                    let f = 2f64.powi(self.arena.meta[t as usize].scale);
                    let fl = (kc * f).floor() / f;
                    if frac_bits(fl).is_none() {
                        unsupported(format!("constant {kc} cannot be encoded"));
                    }
                    let exact = fl == kc;
                    let kid = self.arena.constant(fl);
                    // t vs fl
                    let tc = self.eval(t);
                    let o = outcome(tc, fl);
                    return Norm::Pair { a: t, b: kid, flip: side == 1, grid: !exact, o, initial: LEG };
                }
            }
            if ma.big || mb.big {
                unsupported(format!("comparison of terms outside the exact encoding: {:?} {:?}", self.arena.nodes[a as usize], self.arena.nodes[b as usize]));
            }
        }
        if a > b {
            return Norm::Pair { a: b, b: a, flip: true, grid: false, o: swap(o), initial: swap(initial) };
        }
        Norm::Pair { a, b, flip: false, grid: false, o, initial }
    }

    /// Comparison of two polynomial terms as a canonical integer form against a constant.
    fn form_of(&mut self, a: u32, b: u32) -> Option<Norm> {
        if a == b {
            return Some(Norm::Known(E));
        }
        let (ma, mb) = (self.arena.meta[a as usize], self.arena.meta[b as usize]);
        if ma.hi < mb.lo {
            return Some(Norm::Known(L));
        }
        if ma.lo > mb.hi {
            return Some(Norm::Known(G));
        }
        let pa = self.arena.poly(a)?;
        let pb = self.arena.poly(b)?;
        let d = pa.add(&pb, -1);
        let c = *d.terms.get(&vec![]).unwrap_or(&0);
        let mut f: Vec<(Vec<u32>, i128)> = d.terms.iter().filter(|t| !t.0.is_empty()).map(|t| (t.0.clone(), *t.1)).collect();
        if f.is_empty() {
            return Some(Norm::Known(if c < 0 { L } else if c == 0 { E } else { G }));
        }
        let g = f.iter().fold(0, |g, t| gcd(g, t.1));
        let flip = f[0].1 < 0;
        let s = if flip { -g } else { g };
        for t in f.iter_mut() {
            t.1 /= s;
        }
        // s * form + c  ?  0   <=>   form ? -c/s  (swapped when s < 0)
        let num = -c * s.signum();
        let den = g;
        let r = num.div_euclid(den);
        let grid = r * den != num;
        if r.abs() > 1 << 50 {
            return None;
        }
        let hint = (self.arena.domain == Domain::Int && g == 1 && d.degree() > 1 && ma.scale == 0 && mb.scale == 0 && !ma.big && !mb.big && c.abs() < 1 << 40).then_some((a, b, c, s < 0));
        let t = self.arena.form(f, hint);
        let m = self.arena.meta[t as usize];
        let know = self.forms.entry(t).or_insert_with(|| Know { lo: m.lo as i64, hi: m.hi as i64, not: vec![] });
        let mask = know.mask(r as i64);
        let v = self.eval(t);
        let k = self.arena.constant(r as f64);
        Some(Norm::Pair { a: t, b: k, flip, grid, o: outcome(v, r as f64), initial: mask })
    }

    /// Both sides are squares (or one is a constant): the bases, for a linear comparison.
    fn squares(&mut self, ac: f64, aid: u32, bc: f64, bid: u32) -> Option<(u32, Result<u32, f64>, bool)> {
        if !self.int() {
            return None;
        }
        let sq = |e: &Engine, id: u32| {
            if id == 0 {
                return None;
            }
            let mut id = id;
            let n0 = e.arena.nodes[id as usize];
            if n0.op == Op::Sqrt {
                id = n0.a;
            }
            let n = e.arena.nodes[id as usize];
            if n.op == Op::Mul && n.a == n.b {
                Some(n.a)
            } else {
                None
            }
        };
        let root = |e: &Engine, id: u32| id != 0 && e.arena.nodes[id as usize].op == Op::Sqrt;
        let (sa, sb) = (sq(self, aid), sq(self, bid));
        let konst = |e: &Engine, c: f64, id: u32| {
            if id == 0 {
                Some(c)
            } else {
                let n = e.arena.nodes[id as usize];
                let n = if n.op == Op::Sqrt { e.arena.nodes[n.a as usize] } else { n };
                if n.op == Op::Const { Some(f64::from_bits(n.cst)) } else { None }
            }
        };
        match (sa, sb) {
            (Some(t), Some(u)) if root(self, aid) == root(self, bid) => {
                self.arena.poly(t)?;
                self.arena.poly(u)?;
                Some((t, Ok(u), false))
            }
            (Some(t), None) => {
                let mut k = konst(self, bc, bid)?;
                if root(self, aid) && !root(self, bid) {
                    k = k * k.abs();
                } else if !root(self, aid) && root(self, bid) {
                    return None;
                }
                (k >= 0.0 && k < 1e15 && self.arena.meta[t as usize].scale == 0).then_some((t, Err(k), false))
            }
            (None, Some(u)) => {
                let mut k = konst(self, ac, aid)?;
                if root(self, bid) && !root(self, aid) {
                    k = k * k.abs();
                } else if !root(self, bid) && root(self, aid) {
                    return None;
                }
                (k >= 0.0 && k < 1e15 && self.arena.meta[u as usize].scale == 0).then_some((u, Err(k), true))
            }
            _ => None,
        }
    }

    fn decide_squares(&mut self, t: u32, u: Result<u32, f64>, flip: bool, parts: &[u8]) -> usize {
        let find = |o: u8| {
            let o = if flip { swap(o) } else { o };
            parts.iter().position(|p| p & o != 0).expect("outcomes not covered")
        };
        match u {
            Ok(u) => {
                let f1 = self.arena.mk(Op::Sub, t, u, 0, 0);
                let f2 = self.arena.mk(Op::Add, t.min(u), t.max(u), 0, 0);
                let c1 = self.eval(f1);
                match self.decide(c1, f1, 0.0, 0, &[L, E, G | U]) {
                    1 => find(E),
                    s => {
                        let c2 = self.eval(f2);
                        let ps: Vec<u8> = parts.iter().map(|p| if s == 0 { swap(*p) } else { *p }).collect();
                        self.decide(c2, f2, 0.0, 0, &ps)
                    }
                }
            }
            Err(k) => {
                let s = k.sqrt().floor();
                let exact = s * s == k;
                let c = self.eval(t);
                if exact {
                    match self.decide(c, t, s, 0, &[L, E, G | U]) {
                        1 => find(E),
                        2 => find(G),
                        _ => match self.decide(c, t, -s, 0, &[L, E, G | U]) {
                            0 => find(G),
                            1 => find(E),
                            _ => find(L),
                        },
                    }
                } else if self.decide(c, t, s, 0, &[L | E, G | U]) == 1 || self.decide(c, t, -s, 0, &[L, E | G | U]) == 0 {
                    find(G)
                } else {
                    find(L)
                }
            }
        }
    }

    fn cmp_squares(&mut self, t: u32, u: Result<u32, f64>, flip: bool, mask: u8) -> B {
        let mask = if flip { swap(mask) } else { mask };
        let (l, e, g) = match u {
            Ok(u) => {
                let f1 = self.arena.mk(Op::Sub, t, u, 0, 0);
                let f2 = self.arena.mk(Op::Add, t.min(u), t.max(u), 0, 0);
                let (c1, c2) = (self.eval(f1), self.eval(f2));
                let z = |s: &mut Engine, c, f, m| s.cmp_b(c, f, 0.0, 0, m);
                let (n1, z1, p1) = (z(self, c1, f1, L), z(self, c1, f1, E), z(self, c1, f1, G));
                let (n2, z2, p2) = (z(self, c2, f2, L), z(self, c2, f2, E), z(self, c2, f2, G));
                let (x, y) = (self.and(n1, p2), self.and(p1, n2));
                let l = self.or(x, y);
                let (x, y) = (self.and(n1, n2), self.and(p1, p2));
                let g = self.or(x, y);
                let e = self.or(z1, z2);
                (l, e, g)
            }
            Err(k) => {
                let s = k.sqrt().floor();
                let exact = s * s == k;
                let c = self.eval(t);
                let (ml, mg) = if exact { (L, G) } else { (L | E, G | E) };
                let x = self.cmp_b(c, t, s, 0, ml);
                let y = self.cmp_b(c, t, -s, 0, mg);
                let l = self.and(x, y);
                let x = self.cmp_b(c, t, s, 0, G);
                let y = self.cmp_b(c, t, -s, 0, L);
                let g = self.or(x, y);
                let e = if exact {
                    let x = self.cmp_b(c, t, s, 0, E);
                    let y = self.cmp_b(c, t, -s, 0, E);
                    self.or(x, y)
                } else {
                    B::k(false)
                };
                (l, e, g)
            }
        };
        let mut r = B::k(false);
        if mask & L != 0 {
            r = self.or(r, l);
        }
        if mask & E != 0 {
            r = self.or(r, e);
        }
        if mask & G != 0 {
            r = self.or(r, g);
        }
        if mask & LEG == LEG {
            r = B::k(true);
        }
        r
    }

    /// Value of a numeric term in the current model.
    pub fn eval(&self, id: u32) -> f64 {
        let n = self.arena.nodes[id as usize];
        let e = |i: u32| self.eval(i);
        match n.op {
            Op::Var => self.var_value(n.cst as usize),
            Op::Form => self.arena.forms[n.cst as usize].iter().map(|(m, c)| *c as f64 * m.iter().map(|v| self.var_value(*v as usize)).product::<f64>()).sum(),
            Op::Const => f64::from_bits(n.cst),
            Op::Add => rnd(e(n.a) + e(n.b)),
            Op::Sub => rnd(e(n.a) - e(n.b)),
            Op::Mul => rnd(e(n.a) * e(n.b)),
            Op::Div => rnd(e(n.a) / e(n.b)),
            Op::Neg => -e(n.a),
            Op::Abs => e(n.a).abs(),
            Op::Sqrt => rnd(e(n.a).sqrt()),
            Op::Min => e(n.a).min(e(n.b)),
            Op::Max => e(n.a).max(e(n.b)),
            Op::Ite => {
                if self.eval_b(n.c) {
                    e(n.a)
                } else {
                    e(n.b)
                }
            }
            _ => panic!("not a number: {n:?}"),
        }
    }

    pub fn eval_b(&self, id: u32) -> bool {
        let n = self.arena.nodes[id as usize];
        match n.op {
            Op::BTrue => true,
            Op::BFalse => false,
            Op::Cmp => outcome(self.eval(n.a), self.eval(n.b)) & n.cst as u8 != 0,
            Op::IsNan => self.eval(n.a).is_nan(),
            Op::IsInf => self.eval(n.a).is_infinite(),
            Op::IsNeg => {
                let x = self.eval(n.a);
                x.is_sign_negative() && !x.is_nan() && (x != 0.0 || !self.int())
            }
            Op::Not => !self.eval_b(n.a),
            Op::And => self.eval_b(n.a) && self.eval_b(n.b),
            Op::Or => self.eval_b(n.a) || self.eval_b(n.b),
            Op::ChoiceEq => self.raw((n.cst >> 32) as usize) == (n.cst & 0xffff_ffff),
            Op::CLe => self.eval_n(n.a) <= n.cst,
            Op::CGe => self.eval_n(n.a) >= n.cst,
            _ => panic!("not a boolean: {n:?}"),
        }
    }

    fn eval_n(&self, id: u32) -> u64 {
        let n = self.arena.nodes[id as usize];
        match n.op {
            Op::Count1 => self.eval_b(n.a) as u64,
            Op::CAdd => self.eval_n(n.a) + self.eval_n(n.b),
            _ => panic!("not a counter: {n:?}"),
        }
    }

    pub fn raw(&self, var: usize) -> u64 {
        match self.model.get(&var) {
            Some(&x) => x,
            None => self.default_raw(var),
        }
    }

    pub fn default_raw(&self, var: usize) -> u64 {
        let v = &self.arena.vars[var];
        if v.choice {
            return v.lo as u64;
        }
        match self.arena.domain {
            Domain::Int => {
                // spread initial values so that the first run is not degenerate
                let span = (v.hi - v.lo) as u64 + 1;
                let h = (var as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(self.seed.wrapping_mul(0xD1B5_4A32_D192_ED03));
                let x = v.lo + ((h >> 17) % span) as i64;
                x as u64
            }
            Domain::Mf { eb, sb } => encode_mf(((var as u64 * 7 + self.seed) % 4) as f64, eb, sb),
        }
    }

    pub fn var_value(&self, var: usize) -> f64 {
        self.arena.decode_var(var, self.raw(var))
    }

    /// Which of the given parts (a partition of the outcomes) the comparison falls in.
    pub fn decide(&mut self, ac: f64, aid: u32, bc: f64, bid: u32, parts: &[u8]) -> usize {
        let find = |o: u8| parts.iter().position(|p| p & o != 0).expect("outcomes not covered");
        if let Some((t, u, flip)) = self.squares(ac, aid, bc, bid) {
            return self.decide_squares(t, u, flip, parts);
        }
        match self.normalise(ac, aid, bc, bid) {
            Norm::Known(o) => find(o),
            Norm::Pair { a, b, flip, grid, o, initial } => {
                let form = self.arena.nodes[a as usize].op == Op::Form;
                let before = if form { initial } else { *self.known.get(&(a, b)).unwrap_or(&initial) & initial };
                let tr = |p: u8| {
                    let p = if flip { swap(p) } else { p };
                    if grid {
                        // t vs floor(k): t < k iff outcome in {L, E}; never equal
                        (if p & L != 0 { L | E } else { 0 }) | (p & G)
                    } else {
                        p
                    }
                };
                let mut part = usize::MAX;
                for (i, p) in parts.iter().enumerate() {
                    if tr(*p) & o != 0 {
                        part = i;
                    }
                }
                assert!(part != usize::MAX, "concrete outcome outside the path condition");
                let taken = before & tr(parts[part]);
                debug_assert!(taken & o != 0, "model violates the path condition: {a} {b} before={before} o={o}");
                if taken != before {
                    self.learn(a, b, taken);
                    self.trace.push(Atom::Cmp { a, b, before, taken });
                    self.branches += 1;
                }
                part
            }
        }
    }

    fn learn(&mut self, a: u32, b: u32, taken: u8) {
        if self.arena.nodes[a as usize].op == Op::Form {
            let m = self.arena.meta[a as usize];
            let r = f64::from_bits(self.arena.nodes[b as usize].cst) as i64;
            self.forms.entry(a).or_insert_with(|| Know { lo: m.lo as i64, hi: m.hi as i64, not: vec![] }).restrict(r, taken);
        } else {
            self.known.insert((a, b), taken);
        }
    }

    pub fn decide_b(&mut self, term: u32) -> bool {
        if let Some(&v) = self.known_b.get(&term) {
            return v;
        }
        let v = self.eval_b(term);
        self.known_b.insert(term, v);
        self.trace.push(Atom::Bool { term, val: v });
        self.branches += 1;
        v
    }

    pub fn assume(&mut self, b: B) -> bool {
        if b.id == 0 {
            return b.c;
        }
        if let Some(&v) = self.known_b.get(&b.id) {
            return v;
        }
        if b.c {
            self.known_b.insert(b.id, true);
            self.trace.push(Atom::Assumed { term: b.id });
        } else {
            self.trace.push(Atom::Violated { term: b.id });
        }
        b.c
    }

    /// A non-branching comparison.
    pub fn cmp_b(&mut self, ac: f64, aid: u32, bc: f64, bid: u32, mask: u8) -> B {
        if let Some((t, u, flip)) = self.squares(ac, aid, bc, bid) {
            return self.cmp_squares(t, u, flip, mask);
        }
        match self.normalise(ac, aid, bc, bid) {
            Norm::Known(o) => B { c: o & mask != 0, id: 0 },
            Norm::Pair { a, b, flip, grid, o, initial } => {
                let m = if flip { swap(mask) } else { mask };
                let m = if grid { (if m & L != 0 { L | E } else { 0 }) | (m & G) } else { m };
                let form = self.arena.nodes[a as usize].op == Op::Form;
                let before = if form { initial } else { *self.known.get(&(a, b)).unwrap_or(&initial) & initial };
                let c = o & m != 0;
                if before & m == 0 || before & !m == 0 {
                    return B { c, id: 0 };
                }
                let id = self.arena.mk(Op::Cmp, a, b, 0, (m & before) as u64);
                B { c, id }
            }
        }
    }

    pub fn not(&mut self, x: B) -> B {
        if x.id == 0 {
            return B { c: !x.c, id: 0 };
        }
        let n = self.arena.nodes[x.id as usize];
        let id = if n.op == Op::Not { n.a } else { self.arena.mk(Op::Not, x.id, 0, 0, 0) };
        B { c: !x.c, id }
    }

    pub fn and(&mut self, x: B, y: B) -> B {
        match (x.id, y.id) {
            (0, _) => {
                if x.c {
                    y
                } else {
                    x
                }
            }
            (_, 0) => {
                if y.c {
                    x
                } else {
                    y
                }
            }
            (i, j) if i == j => x,
            (i, j) => B { c: x.c && y.c, id: self.arena.mk(Op::And, i.min(j), i.max(j), 0, 0) },
        }
    }

    pub fn or(&mut self, x: B, y: B) -> B {
        match (x.id, y.id) {
            (0, _) => {
                if x.c {
                    x
                } else {
                    y
                }
            }
            (_, 0) => {
                if y.c {
                    y
                } else {
                    x
                }
            }
            (i, j) if i == j => x,
            (i, j) => B { c: x.c || y.c, id: self.arena.mk(Op::Or, i.min(j), i.max(j), 0, 0) },
        }
    }

    pub fn choose(&mut self, name: &str, lo: usize, hi: usize) -> usize {
        assert!(lo <= hi && hi < 1 << CHOICE_W, "bad choice range {name} {lo} {hi}");
        let v = self.arena.choice(name, lo as i64, hi as i64);
        let x = (self.raw(v) as usize).clamp(lo, hi);
        if lo < hi && !self.concrete {
            let t = self.arena.mk(Op::ChoiceEq, 0, 0, 0, (v as u64) << 32 | x as u64);
            let got = self.decide_b(t);
            debug_assert!(got);
        }
        x
    }

    pub fn begin(&mut self, base: &[Atom], model: HashMap<usize, u64>) {
        self.known.clear();
        self.forms.clear();
        self.known_b.clear();
        self.trace.clear();
        self.model = model;
        for a in base {
            match *a {
                Atom::Cmp { a, b, taken, .. } => self.learn(a, b, taken),
                Atom::Bool { term, val } => {
                    self.known_b.insert(term, val);
                }
                Atom::Assumed { term } => {
                    self.known_b.insert(term, true);
                }
                Atom::Violated { .. } => {}
            }
        }
        self.active = true;
    }
}

pub mod ops {
    use super::*;
    pub const T: B = B { c: true, id: 0 };
    pub const F: B = B { c: false, id: 0 };
}

impl std::ops::Not for B {
    type Output = B;
    fn not(self) -> B {
        if self.id == 0 {
            B { c: !self.c, id: 0 }
        } else {
            eng().not(self)
        }
    }
}
impl std::ops::BitAnd for B {
    type Output = B;
    fn bitand(self, o: B) -> B {
        if self.id == 0 {
            if self.c {
                o
            } else {
                self
            }
        } else if o.id == 0 {
            if o.c {
                self
            } else {
                o
            }
        } else {
            eng().and(self, o)
        }
    }
}
impl std::ops::BitOr for B {
    type Output = B;
    fn bitor(self, o: B) -> B {
        if self.id == 0 {
            if self.c {
                self
            } else {
                o
            }
        } else if o.id == 0 {
            if o.c {
                o
            } else {
                self
            }
        } else {
            eng().or(self, o)
        }
    }
}
impl B {
    pub fn k(c: bool) -> B {
        B { c, id: 0 }
    }
    pub fn implies(self, o: B) -> B {
        !self | o
    }
    pub fn iff(self, o: B) -> B {
        (self & o) | (!self & !o)
    }
    /// Branch on it.
    pub fn branch(self) -> bool {
        if self.id == 0 {
            self.c
        } else {
            eng().decide_b(self.id)
        }
    }
}

/// A symbolic counter of booleans.
#[derive(Clone, Copy)]
pub struct Cnt {
    pub c: u64,
    pub base: u64,
    pub id: u32,
}
impl Cnt {
    pub fn zero() -> Cnt {
        Cnt { c: 0, base: 0, id: 0 }
    }
    pub fn add(self, b: B) -> Cnt {
        if b.id == 0 {
            return Cnt { c: self.c + b.c as u64, base: self.base + b.c as u64, id: self.id };
        }
        let mut e = eng();
        let t = e.arena.mk(Op::Count1, b.id, 0, 0, 0);
        let id = if self.id == 0 { t } else { e.arena.mk(Op::CAdd, self.id, t, 0, 0) };
        Cnt { c: self.c + b.c as u64, base: self.base, id }
    }
    pub fn le(self, k: u64) -> B {
        if self.id == 0 {
            return B::k(self.base <= k);
        }
        if k < self.base {
            return B::k(false);
        }
        B { c: self.c <= k, id: eng().arena.mk(Op::CLe, self.id, 0, 0, k - self.base) }
    }
    pub fn ge(self, k: u64) -> B {
        if self.id == 0 {
            return B::k(self.base >= k);
        }
        if k <= self.base {
            return B::k(true);
        }
        B { c: self.c >= k, id: eng().arena.mk(Op::CGe, self.id, 0, 0, k - self.base) }
    }
    pub fn eq(self, k: u64) -> B {
        self.le(k) & self.ge(k)
    }
}
