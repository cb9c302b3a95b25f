//! Hash-consed term arena and its translation to SMT-LIB2.
//!
//! Two arithmetic domains:
//!  * `Int`: every value is a dyadic rational `n / 2^scale` with a statically known interval.
//!    Terms become bit-vectors that are wide enough never to wrap, so the encoding is exact, and
//!    it coincides with f64/f32 arithmetic wherever that arithmetic is exact (the scenario ranges
//!    are chosen so that it is).
//!  * `Mf`: IEEE-754 binary format with `eb` exponent and `sb` significand bits (circuits of `bvfp`),
//!    round-to-nearest-even, with subnormals, infinities and NaN.
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Domain {
    /// integers as bit-vectors
    Int,
    /// integers, linear integer arithmetic
    Mf { eb: u32, sb: u32 },
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var,          // cst = var number
    Const,        // cst = f64 bits
    Add,
    Sub,
    Mul,
    Div,
    Neg,
    Abs,
    Sqrt,
    Min,
    Max,
    Ite,          // c = bool term
    Form,         // cst = form number: an integer-valued polynomial over variables
    // booleans
    BTrue,
    BFalse,
    Cmp,          // cst = mask over L=1,E=2,G=4,U=8
    IsNan,
    IsInf,
    IsNeg,        // sign bit set
    ChoiceEq,     // cst = var << 32 | value
    Not,
    And,
    Or,
    // small unsigned counters (8 bit) used by reference models
    Count1,       // ite(bool,1,0)
    CAdd,
    CLe,          // cst = constant: counter <= cst
    CGe,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub cst: u64,
}

#[derive(Clone, Copy, Debug)]
pub struct Meta {
    pub lo: f64,
    pub hi: f64,
    pub scale: i32,
    pub width: u32,
    pub can_nan: bool,
    pub can_inf: bool,
    pub nonneg: bool,
    /// not representable exactly as a bit-vector (huge constants, infinities)
    pub big: bool,
}

pub struct VarInfo {
    pub name: String,
    pub lo: i64,
    pub hi: i64,
    /// Mf only: which classes of value the variable may take
    pub allow_nonfinite: bool,
    /// a small unsigned integer that the harness enumerates (k, leafsize, a scheduling decision)
    pub choice: bool,
    pub term: u32,
}

pub const CHOICE_W: u32 = 16;

/// Polynomial over variable numbers, value = sum(coefficient * product of variables) / 2^scale.
#[derive(Clone, Debug, PartialEq)]
pub struct Poly {
    pub terms: BTreeMap<Vec<u32>, i128>,
    pub scale: i32,
}

impl Poly {
    fn konst(c: i128, scale: i32) -> Poly {
        let mut t = BTreeMap::new();
        if c != 0 {
            t.insert(vec![], c);
        }
        Poly { terms: t, scale }
    }
    fn rescale(&self, s: i32) -> Poly {
        let f = 1i128 << (s - self.scale);
        Poly { terms: self.terms.iter().map(|(m, c)| (m.clone(), c * f)).collect(), scale: s }
    }
    pub fn add(&self, o: &Poly, sign: i128) -> Poly {
        let s = self.scale.max(o.scale);
        let mut a = self.rescale(s);
        for (m, c) in o.rescale(s).terms {
            let e = a.terms.entry(m.clone()).or_insert(0);
            *e += sign * c;
            if *e == 0 {
                a.terms.remove(&m);
            }
        }
        a
    }
    fn mul(&self, o: &Poly) -> Option<Poly> {
        let mut t: BTreeMap<Vec<u32>, i128> = BTreeMap::new();
        for (m, c) in &self.terms {
            for (n, d) in &o.terms {
                let mut v = m.clone();
                v.extend(n);
                if v.len() > 4 {
                    return None;
                }
                v.sort();
                let e = t.entry(v.clone()).or_insert(0);
                *e += c * d;
                if *e == 0 {
                    t.remove(&v);
                }
            }
        }
        if t.len() > 64 {
            return None;
        }
        Some(Poly { terms: t, scale: self.scale + o.scale })
    }
    pub fn degree(&self) -> usize {
        self.terms.keys().map(|m| m.len()).max().unwrap_or(0)
    }
}

pub struct Arena {
    pub domain: Domain,
    pub polys: HashMap<u32, Option<Arc<Poly>>>,
    pub forms: Vec<Vec<(Vec<u32>, i128)>>,
    pub form_index: HashMap<Vec<(Vec<u32>, i128)>, u32>,
    /// for a nonlinear form: terms a, b and a constant c with form = (a - b - c) or its negation
    pub form_hint: HashMap<u32, (u32, u32, i128, bool)>,
    /// linear terms as coefficient * form + constant, so that equal forms are encoded once
    pub alias: HashMap<u32, (u32, i128, i128)>,
    pub nodes: Vec<Node>,
    pub meta: Vec<Meta>,
    pub index: HashMap<Node, u32>,
    pub vars: Vec<VarInfo>,
    pub var_by_name: HashMap<String, usize>,
}

pub const L: u8 = 1;
pub const E: u8 = 2;
pub const G: u8 = 4;
pub const U: u8 = 8;
pub const LEG: u8 = 7;

pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}

fn bits_for(lo: f64, hi: f64) -> u32 {
    // signed width holding every integer in [lo, hi]
    let mut w = 1;
    while !(lo >= -(2f64.powi(w - 1)) && hi <= 2f64.powi(w - 1) - 1.0) {
        w += 1;
        assert!(w < 120, "interval too wide for the bit-vector encoding: {lo} {hi}");
    }
    w as u32
}

/// Number of fractional bits of a finite f64, if the number has at most 51 bits, 72 of them fractional.
pub fn frac_bits(x: f64) -> Option<i32> {
    if !x.is_finite() || x.abs() > 2f64.powi(52) {
        return None;
    }
    for s in 0..=72 {
        let y = x * 2f64.powi(s);
        if y == y.trunc() {
            return (y.abs() < 2f64.powi(51)).then_some(s);
        }
    }
    None
}

impl Arena {
    pub fn new(domain: Domain) -> Self {
        let mut a = Arena {
            domain,
            polys: HashMap::new(),
            forms: vec![],
            form_index: HashMap::new(),
            form_hint: HashMap::new(),
            alias: HashMap::new(),
            nodes: vec![],
            meta: vec![],
            index: HashMap::new(),
            vars: vec![],
            var_by_name: HashMap::new(),
        };
        // id 0 is reserved: "constant, no term"
        a.nodes.push(Node { op: Op::BFalse, a: 0, b: 0, c: 0, cst: u64::MAX });
        a.meta.push(Meta { lo: 0., hi: 0., scale: 0, width: 0, can_nan: false, can_inf: false, nonneg: false, big: false });
        a
    }

    pub fn int(&self) -> bool {
        self.domain == Domain::Int
    }

    /// The term as a polynomial over the variables, if it is one.
    pub fn poly(&mut self, id: u32) -> Option<Arc<Poly>> {
        if let Some(p) = self.polys.get(&id) {
            return p.clone();
        }
        let n = self.nodes[id as usize];
        let p = match n.op {
            Op::Var => Some(Poly { terms: [(vec![n.cst as u32], 1)].into_iter().collect(), scale: 0 }),
            Op::Const => {
                let m = self.meta[id as usize];
                if m.big {
                    None
                } else {
                    Some(Poly::konst((f64::from_bits(n.cst) * 2f64.powi(m.scale)) as i128, m.scale))
                }
            }
            Op::Add | Op::Sub => match (self.poly(n.a), self.poly(n.b)) {
                (Some(a), Some(b)) => Some(a.add(&b, if n.op == Op::Add { 1 } else { -1 })),
                _ => None,
            },
            Op::Neg => self.poly(n.a).map(|a| Poly::konst(0, 0).add(&a, -1)),
            Op::Mul => match (self.poly(n.a), self.poly(n.b)) {
                (Some(a), Some(b)) => a.mul(&b),
                _ => None,
            },
            Op::Div => {
                let d = f64::from_bits(self.nodes[n.b as usize].cst);
                let k = d.abs().log2() as i32;
                self.poly(n.a).and_then(|a| {
                    let s = a.scale + k;
                    let mut p = (*a).clone();
                    if d < 0.0 {
                        p = Poly::konst(0, 0).add(&p, -1);
                    }
                    if s < 0 {
                        for c in p.terms.values_mut() {
                            *c <<= -s;
                        }
                        p.scale = 0;
                    } else {
                        p.scale = s;
                    }
                    Some(p)
                })
            }
            _ => None,
        };
        let p = p.filter(|p| p.terms.len() <= 64 && p.terms.values().all(|c| c.abs() < 1 << 80)).map(Arc::new);
        self.polys.insert(id, p.clone());
        p
    }

    pub fn form(&mut self, f: Vec<(Vec<u32>, i128)>, hint: Option<(u32, u32, i128, bool)>) -> u32 {
        let i = match self.form_index.get(&f) {
            Some(&i) => i,
            None => {
                let i = self.forms.len() as u32;
                self.forms.push(f.clone());
                self.form_index.insert(f, i);
                if let Some(h) = hint {
                    self.form_hint.insert(i, h);
                }
                i
            }
        };
        self.mk(Op::Form, 0, 0, 0, i as u64)
    }

    /// Interval of a product of variables.
    fn mono_range(&self, m: &[u32]) -> (f64, f64) {
        let mut lo = 1.0f64;
        let mut hi = 1.0f64;
        let mut i = 0;
        while i < m.len() {
            let mut j = i;
            while j < m.len() && m[j] == m[i] {
                j += 1;
            }
            let v = &self.vars[m[i] as usize];
            let (a, b) = (v.lo as f64, v.hi as f64);
            let e = (j - i) as i32;
            let (x, y) = if e % 2 == 0 {
                let top = a.abs().max(b.abs()).powi(e);
                let bot = if a <= 0.0 && b >= 0.0 { 0.0 } else { a.abs().min(b.abs()).powi(e) };
                (bot, top)
            } else {
                (a.powi(e), b.powi(e))
            };
            let c = [lo * x, lo * y, hi * x, hi * y];
            lo = c.iter().cloned().fold(f64::INFINITY, f64::min);
            hi = c.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            i = j;
        }
        (lo, hi)
    }

    pub fn mk(&mut self, op: Op, a: u32, b: u32, c: u32, cst: u64) -> u32 {
        let n = Node { op, a, b, c, cst };
        if let Some(&i) = self.index.get(&n) {
            return i;
        }
        let m = self.compute_meta(&n);
        let i = self.nodes.len() as u32;
        self.nodes.push(n);
        self.meta.push(m);
        self.index.insert(n, i);
        if n.op == Op::Mul && a == b && self.domain == Domain::Int && matches!(self.nodes[a as usize].op, Op::Add | Op::Sub | Op::Neg) && !m.big && self.meta[a as usize].scale == 0 {
            if let Some(p) = self.poly(a).filter(|p| p.degree() == 1 && p.scale == 0) {
                let c = *p.terms.get(&vec![]).unwrap_or(&0);
                let mut f: Vec<(Vec<u32>, i128)> = p.terms.iter().filter(|t| !t.0.is_empty()).map(|t| (t.0.clone(), *t.1)).collect();
                let mut g = f.iter().fold(0, |g, t| gcd(g, t.1));
                if f[0].1 < 0 {
                    g = -g;
                }
                for t in f.iter_mut() {
                    t.1 /= g;
                }
                let t = self.form(f, None);
                self.alias.insert(a, (t, g, c));
            }
        }
        i
    }

    pub fn constant(&mut self, x: f64) -> u32 {
        // -0.0 and 0.0 stay distinct in Mf, and are the same number in Int
        let x = if self.int() && x == 0.0 { 0.0 } else { x };
        self.mk(Op::Const, 0, 0, 0, x.to_bits())
    }

    pub fn var(&mut self, name: &str, lo: i64, hi: i64, allow_nonfinite: bool) -> u32 {
        if let Some(&i) = self.var_by_name.get(name) {
            let v = &self.vars[i];
            assert!(v.lo == lo && v.hi == hi, "variable {name} redeclared with another range");
            return v.term;
        }
        let i = self.vars.len();
        self.vars.push(VarInfo { name: name.to_string(), lo, hi, allow_nonfinite, choice: false, term: 0 });
        let t = self.mk(Op::Var, 0, 0, 0, i as u64);
        self.vars[i].term = t;
        self.var_by_name.insert(name.to_string(), i);
        t
    }

    pub fn choice(&mut self, name: &str, lo: i64, hi: i64) -> usize {
        if let Some(&i) = self.var_by_name.get(name) {
            // the range may depend on the path; the variable ranges over the union
            let v = &mut self.vars[i];
            assert!(v.choice);
            assert!(v.lo == lo && v.hi == hi, "choice {name} redeclared with another range");
            return i;
        }
        let i = self.vars.len();
        self.vars.push(VarInfo { name: name.to_string(), lo, hi, allow_nonfinite: false, choice: true, term: 0 });
        self.var_by_name.insert(name.to_string(), i);
        i
    }

    fn compute_meta(&self, n: &Node) -> Meta {
        let z = Meta { lo: 0., hi: 0., scale: 0, width: 1, can_nan: false, can_inf: false, nonneg: false, big: false };
        let (ma, mb) = (self.meta[n.a as usize], self.meta[n.b as usize]);
        let int = self.int();
        let mut m = match n.op {
            Op::Var => {
                let v = &self.vars[n.cst as usize];
                Meta {
                    lo: v.lo as f64,
                    hi: v.hi as f64,
                    can_nan: v.allow_nonfinite,
                    can_inf: v.allow_nonfinite,
                    nonneg: v.lo >= 0 && int,
                    ..z
                }
            }
            Op::Const => {
                let x = f64::from_bits(n.cst);
                let fb = frac_bits(x);
                Meta {
                    lo: x,
                    hi: x,
                    scale: fb.unwrap_or(0),
                    can_nan: x.is_nan(),
                    can_inf: x.is_infinite(),
                    nonneg: x >= 0.0,
                    big: fb.is_none(),
                    ..z
                }
            }
            Op::Add => Meta {
                lo: ma.lo + mb.lo,
                hi: ma.hi + mb.hi,
                scale: ma.scale.max(mb.scale),
                can_nan: ma.can_nan || mb.can_nan || (ma.can_inf && mb.can_inf && !(ma.nonneg && mb.nonneg)),
                can_inf: true,
                nonneg: ma.nonneg && mb.nonneg,
                ..z
            },
            Op::Sub => Meta {
                lo: ma.lo - mb.hi,
                hi: ma.hi - mb.lo,
                scale: ma.scale.max(mb.scale),
                can_nan: ma.can_nan || mb.can_nan || (ma.can_inf && mb.can_inf),
                can_inf: true,
                ..z
            },
            Op::Mul => {
                let c = [ma.lo * mb.lo, ma.lo * mb.hi, ma.hi * mb.lo, ma.hi * mb.hi];
                let mut lo = c.iter().cloned().fold(f64::INFINITY, f64::min);
                let hi = c.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                if n.a == n.b {
                    lo = lo.max(0.0);
                }
                Meta {
                    lo,
                    hi,
                    scale: ma.scale + mb.scale,
                    can_nan: ma.can_nan || mb.can_nan || (n.a != n.b && (ma.can_inf || mb.can_inf)),
                    can_inf: true,
                    nonneg: n.a == n.b || (ma.nonneg && mb.nonneg),
                    ..z
                }
            }
            Op::Div => {
                // Int: only by a power of two (b constant)
                let d = mb.lo;
                let k = d.abs().log2() as i32;
                let (x, y) = (ma.lo / d, ma.hi / d);
                Meta {
                    lo: x.min(y),
                    hi: x.max(y),
                    scale: (ma.scale + k).max(0),
                    can_nan: true,
                    can_inf: true,
                    nonneg: ma.nonneg && mb.nonneg,
                    ..z
                }
            }
            Op::Neg => Meta { lo: -ma.hi, hi: -ma.lo, scale: ma.scale, can_nan: ma.can_nan, can_inf: ma.can_inf, ..z },
            Op::Abs => {
                let (lo, hi) = if ma.lo >= 0.0 {
                    (ma.lo, ma.hi)
                } else if ma.hi <= 0.0 {
                    (-ma.hi, -ma.lo)
                } else {
                    (0.0, ma.hi.max(-ma.lo))
                };
                Meta { lo, hi, scale: ma.scale, can_nan: ma.can_nan, can_inf: ma.can_inf, nonneg: true, ..z }
            }
            Op::Sqrt => Meta { lo: ma.lo.max(0.0).sqrt(), hi: ma.hi.max(0.0).sqrt(), can_nan: ma.can_nan || !ma.nonneg, can_inf: ma.can_inf, nonneg: true, big: true, ..z },
            Op::Min | Op::Max | Op::Ite => {
                let (lo, hi) = match n.op {
                    Op::Min => (ma.lo.min(mb.lo), ma.hi.min(mb.hi)),
                    Op::Max => (ma.lo.max(mb.lo), ma.hi.max(mb.hi)),
                    _ => (ma.lo.min(mb.lo), ma.hi.max(mb.hi)),
                };
                Meta {
                    lo,
                    hi,
                    scale: ma.scale.max(mb.scale),
                    can_nan: ma.can_nan || mb.can_nan,
                    can_inf: ma.can_inf || mb.can_inf,
                    nonneg: ma.nonneg && mb.nonneg,
                    big: ma.big || mb.big,
                    ..z
                }
            }
            Op::Form => {
                let (mut lo, mut hi) = (0.0, 0.0);
                for (mo, c) in &self.forms[n.cst as usize] {
                    let (a, b) = self.mono_range(mo);
                    let c = *c as f64;
                    lo += (a * c).min(b * c);
                    hi += (a * c).max(b * c);
                }
                if let Some((a, b, c, neg)) = self.form_hint.get(&(n.cst as u32)) {
                    let (ma, mb) = (&self.meta[*a as usize], &self.meta[*b as usize]);
                    let (mut l, mut h) = (ma.lo - mb.hi - *c as f64, ma.hi - mb.lo - *c as f64);
                    if *neg {
                        (l, h) = (-h, -l);
                    }
                    lo = lo.max(l);
                    hi = hi.min(h);
                }
                Meta { lo, hi, ..z }
            }
            Op::Count1 => Meta { hi: 1.0, width: 10, ..z },
            Op::CAdd => Meta { hi: ma.hi + mb.hi, width: 10, ..z },
            _ => z,
        };
        if int && !m.big && matches!(n.op, Op::Var | Op::Const | Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Neg | Op::Abs | Op::Min | Op::Max | Op::Ite | Op::Form) {
            let f = 2f64.powi(m.scale);
            assert!(m.lo.abs() * f < 2f64.powi(52) && m.hi.abs() * f < 2f64.powi(52), "Int domain term exceeds exact f64 range");
            m.width = bits_for(m.lo * f, m.hi * f);
        }
        m
    }

    /// Can the term be given to the solver as an exact number?
    pub fn encodable(&self, id: u32) -> bool {
        match self.domain {
            Domain::Int => !self.meta[id as usize].big,
            _ => true,
        }
    }

    fn fit(&self, id: u32, w: u32, scale: i32) -> String {
        let m = &self.meta[id as usize];
        let mut s = format!("t{id}");
        if w > m.width {
            s = format!("((_ sign_extend {}) {})", w - m.width, s);
        } else if w < m.width {
            s = format!("((_ extract {} 0) {})", w - 1, s);
        }
        let d = scale - m.scale;
        debug_assert!(d >= 0);
        if d > 0 {
            s = format!("(bvshl {} {})", s, bv(d as i128, w));
        }
        s
    }

    fn cmp_int(&self, mask: u8, a: u32, b: u32) -> String {
        let (ma, mb) = (self.meta[a as usize], self.meta[b as usize]);
        let sc = ma.scale.max(mb.scale);
        let w = (ma.width + (sc - ma.scale) as u32).max(mb.width + (sc - mb.scale) as u32);
        let (x, y) = (self.fit(a, w, sc), self.fit(b, w, sc));
        match mask & LEG {
            0 => "false".into(),
            1 => format!("(bvslt {x} {y})"),
            2 => format!("(= {x} {y})"),
            3 => format!("(bvsle {x} {y})"),
            4 => format!("(bvsgt {x} {y})"),
            5 => format!("(not (= {x} {y}))"),
            6 => format!("(bvsge {x} {y})"),
            _ => "true".into(),
        }
    }

    fn cmp_fp(&self, mask: u8, a: u32, b: u32) -> String {
        let mut p = vec![];
        if mask & L != 0 {
            p.push(format!("(flt t{a} t{b})"));
        }
        if mask & E != 0 {
            p.push(format!("(feq t{a} t{b})"));
        }
        if mask & G != 0 {
            p.push(format!("(flt t{b} t{a})"));
        }
        if mask & U != 0 {
            p.push(format!("(or (isnan t{a}) (isnan t{b}))"));
        }
        match p.len() {
            0 => "false".into(),
            1 => p.pop().unwrap(),
            _ => format!("(or {})", p.join(" ")),
        }
    }

    /// SMT sort and body of a term; the caller has already defined the operands.
    pub fn smt(&self, id: u32, lin: bool) -> (String, String) {
        let n = self.nodes[id as usize];
        let m = self.meta[id as usize];
        let (a, b) = (n.a, n.b);
        let boolean = || "Bool".to_string();
        match n.op {
            Op::BTrue => return (boolean(), "true".into()),
            Op::BFalse => return (boolean(), "false".into()),
            Op::ChoiceEq if lin => return (boolean(), format!("(= v{} {})", n.cst >> 32, n.cst & 0xffff_ffff)),
            Op::ChoiceEq => return (boolean(), format!("(= v{} {})", n.cst >> 32, bv((n.cst & 0xffff_ffff) as i128, CHOICE_W))),
            Op::Not => return (boolean(), format!("(not t{a})")),
            Op::And => return (boolean(), format!("(and t{a} t{b})")),
            Op::Or => return (boolean(), format!("(or t{a} t{b})")),
            Op::Count1 if lin => return ("Int".into(), format!("(ite t{a} 1 0)")),
            Op::CAdd if lin => return ("Int".into(), format!("(+ t{a} t{b})")),
            Op::CLe if lin => return (boolean(), format!("(<= t{a} {})", n.cst)),
            Op::CGe if lin => return (boolean(), format!("(>= t{a} {})", n.cst)),
            Op::Count1 => return ("(_ BitVec 10)".into(), format!("(ite t{a} {} {})", bv(1, 10), bv(0, 10))),
            Op::CAdd => return ("(_ BitVec 10)".into(), format!("(bvadd t{a} t{b})")),
            Op::CLe => return (boolean(), format!("(bvule t{a} {})", bv(n.cst as i128, 10))),
            Op::CGe => return (boolean(), format!("(bvuge t{a} {})", bv(n.cst as i128, 10))),
            _ => {}
        }
        match self.domain {
            Domain::Int if lin => {
                let neg = |x: i128| if x < 0 { format!("(- {})", -x) } else { format!("{x}") };
                let at = |i: u32, s: i32| {
                    let d = s - self.meta[i as usize].scale;
                    if d == 0 { format!("t{i}") } else { format!("(* {} t{i})", 1i64 << d) }
                };
                let body = match n.op {
                    _ if self.alias.contains_key(&id) => {
                        let (f, k, c) = self.alias[&id];
                        let x = if k == 1 { format!("t{f}") } else { format!("(* {} t{f})", neg(k)) };
                        if c == 0 { x } else { format!("(+ {x} {})", neg(c)) }
                    }
                    Op::Var => format!("v{}", n.cst),
                    Op::Const => neg((f64::from_bits(n.cst) * 2f64.powi(m.scale)) as i128),
                    Op::Add => format!("(+ {} {})", at(a, m.scale), at(b, m.scale)),
                    Op::Sub => format!("(- {} {})", at(a, m.scale), at(b, m.scale)),
                    Op::Neg => format!("(- t{a})"),
                    Op::Abs => format!("(ite (< t{a} 0) (- t{a}) t{a})"),
                    Op::Min | Op::Max => {
                        let (x, y) = (at(a, m.scale), at(b, m.scale));
                        format!("(ite ({} {x} {y}) {x} {y})", if n.op == Op::Min { "<" } else { ">" })
                    }
                    Op::Ite => format!("(ite t{} {} {})", n.c, at(a, m.scale), at(b, m.scale)),
                    Op::Mul => {
                        // one factor is a constant
                        let (k, t) = if self.nodes[a as usize].op == Op::Const { (a, b) } else { (b, a) };
                        let mk = self.meta[k as usize];
                        format!("(* {} t{t})", neg((mk.lo * 2f64.powi(mk.scale)) as i128))
                    }
                    Op::Div => {
                        let d = self.meta[b as usize].lo;
                        let k = d.abs().log2() as i32;
                        let sh = m.scale - (self.meta[a as usize].scale + k);
                        let x = if sh > 0 { format!("(* {} t{a})", 1i64 << sh) } else { format!("t{a}") };
                        if d < 0.0 { format!("(- {x})") } else { x }
                    }
                    Op::Form if self.form_hint.contains_key(&(n.cst as u32)) => {
                        let (a, b, c, neg_) = self.form_hint[&(n.cst as u32)];
                        let (x, y, c) = if neg_ { (b, a, -c) } else { (a, b, c) };
                        if c == 0 { format!("(- t{x} t{y})") } else { format!("(- t{x} t{y} {})", neg(c)) }
                    }
                    Op::Form => {
                        let t: Vec<String> = self.forms[n.cst as usize]
                            .iter()
                            .map(|(mo, c)| {
                                assert!(mo.len() == 1, "nonlinear form in the linear encoding");
                                if *c == 1 { format!("v{}", mo[0]) } else { format!("(* {} v{})", neg(*c), mo[0]) }
                            })
                            .collect();
                        if t.len() == 1 { t[0].clone() } else { format!("(+ {})", t.join(" ")) }
                    }
                    Op::Cmp => {
                        let sc = self.meta[a as usize].scale.max(self.meta[b as usize].scale);
                        let (x, y) = (at(a, sc), at(b, sc));
                        return (
                            boolean(),
                            match n.cst as u8 & LEG {
                                0 => "false".into(),
                                1 => format!("(< {x} {y})"),
                                2 => format!("(= {x} {y})"),
                                3 => format!("(<= {x} {y})"),
                                4 => format!("(> {x} {y})"),
                                5 => format!("(not (= {x} {y}))"),
                                6 => format!("(>= {x} {y})"),
                                _ => "true".into(),
                            },
                        );
                    }
                    Op::IsNan | Op::IsInf => return (boolean(), "false".into()),
                    Op::IsNeg => return (boolean(), format!("(< t{a} 0)")),
                    _ => panic!("term {:?} cannot be encoded in the Lin domain", n),
                };
                ("Int".into(), body)
            }
            Domain::Int => {
                let w = m.width;
                let sort = format!("(_ BitVec {w})");
                let body = match n.op {
                    _ if self.domain == Domain::Int && self.alias.contains_key(&id) => {
                        let (f, k, c) = self.alias[&id];
                        let ww = w.max(self.meta[f as usize].width);
                        let mut x = self.fit_raw(f, ww);
                        match k {
                            1 => {}
                            -1 => x = format!("(bvneg {x})"),
                            k => x = format!("(bvmul {} {x})", bv(k, ww)),
                        }
                        if c != 0 {
                            x = format!("(bvadd {x} {})", bv(c, ww));
                        }
                        trunc(x, ww, w)
                    }
                    _ if self.domain == Domain::Int && self.alias.contains_key(&id) => {
                        let (f, k, c) = self.alias[&id];
                        let ww = w.max(self.meta[f as usize].width);
                        let mut x = self.fit_raw(f, ww);
                        match k {
                            1 => {}
                            -1 => x = format!("(bvneg {x})"),
                            k => x = format!("(bvmul {} {x})", bv(k, ww)),
                        }
                        if c != 0 {
                            x = format!("(bvadd {x} {})", bv(c, ww));
                        }
                        trunc(x, ww, w)
                    }
                    Op::Var => format!("v{}", n.cst),
                    Op::Const => {
                        let x = f64::from_bits(n.cst);
                        bv((x * 2f64.powi(m.scale)) as i128, w)
                    }
                    Op::Add | Op::Sub => {
                        let ww = w.max(self.meta[a as usize].width).max(self.meta[b as usize].width);
                        let (x, y) = (self.fit(a, ww, m.scale), self.fit(b, ww, m.scale));
                        let o = if n.op == Op::Add { "bvadd" } else { "bvsub" };
                        trunc(format!("({o} {x} {y})"), ww, w)
                    }
                    Op::Mul if a == b && self.meta[a as usize].width <= 7 => {
                        // a square as a table over the magnitude: solvers see its monotonicity
                        let ma = self.meta[a as usize];
                        let aw = ma.width + 1;
                        let x = self.fit_raw(a, aw);
                        let top = ma.lo.abs().max(ma.hi.abs()) as i128;
                        fn tree(lo: i128, hi: i128, aw: u32, w: u32) -> String {
                            if lo == hi {
                                return bv(lo * lo, w);
                            }
                            let mid = (lo + hi + 1) / 2;
                            format!("(ite (bvuge m {}) {} {})", bv(mid, aw), tree(mid, hi, aw, w), tree(lo, mid - 1, aw, w))
                        }
                        format!("(let ((m (ite (bvslt {x} {}) (bvneg {x}) {x}))) {})", bv(0, aw), tree(0, top, aw, w))
                    }
                    Op::Mul => {
                        let ww = w.max(self.meta[a as usize].width).max(self.meta[b as usize].width);
                        let (x, y) = (self.fit_raw(a, ww), self.fit_raw(b, ww));
                        trunc(format!("(bvmul {x} {y})"), ww, w)
                    }
                    Op::Div => {
                        // a / (sign * 2^k)
                        let d = self.meta[b as usize].lo;
                        let k = d.abs().log2() as i32;
                        let ma = self.meta[a as usize];
                        // value = A / 2^(sa) / 2^k ; our scale is max(sa + k, 0)
                        let sh = m.scale - (ma.scale + k);
                        let ww = w.max(ma.width);
                        let mut x = self.fit_raw(a, ww);
                        if sh > 0 {
                            x = format!("(bvshl {} {})", x, bv(sh as i128, ww));
                        }
                        if d < 0.0 {
                            x = format!("(bvneg {x})");
                        }
                        trunc(x, ww, w)
                    }
                    Op::Neg => {
                        let ww = w.max(self.meta[a as usize].width);
                        trunc(format!("(bvneg {})", self.fit_raw(a, ww)), ww, w)
                    }
                    Op::Abs => {
                        let ww = w.max(self.meta[a as usize].width);
                        let x = self.fit_raw(a, ww);
                        trunc(format!("(ite (bvslt {x} {}) (bvneg {x}) {x})", bv(0, ww)), ww, w)
                    }
                    Op::Min | Op::Max => {
                        let ww = w.max(self.meta[a as usize].width + (m.scale - self.meta[a as usize].scale) as u32).max(self.meta[b as usize].width + (m.scale - self.meta[b as usize].scale) as u32);
                        let (x, y) = (self.fit(a, ww, m.scale), self.fit(b, ww, m.scale));
                        let o = if n.op == Op::Min { "bvslt" } else { "bvsgt" };
                        trunc(format!("(ite ({o} {x} {y}) {x} {y})"), ww, w)
                    }
                    Op::Ite => {
                        let (x, y) = (self.fit(a, w, m.scale), self.fit(b, w, m.scale));
                        format!("(ite t{} {x} {y})", n.c)
                    }
                    Op::Form if self.form_hint.contains_key(&(n.cst as u32)) => {
                        let (a, b, c, neg) = self.form_hint[&(n.cst as u32)];
                        let ww = w.max(self.meta[a as usize].width).max(self.meta[b as usize].width);
                        let (mut x, mut y) = (self.fit_raw(a, ww), self.fit_raw(b, ww));
                        if neg {
                            (x, y) = (y, x);
                        }
                        let mut t = format!("(bvsub {x} {y})");
                        let c = if neg { -c } else { c };
                        if c != 0 {
                            t = format!("(bvsub {t} {})", bv(c, ww));
                        }
                        trunc(t, ww, w)
                    }
                    Op::Form => {
                        let mut t = vec![];
                        for (mo, c) in &self.forms[n.cst as usize] {
                            // the sum fits in w bits, so modular intermediate results are harmless
                            let ext = |v: u32| {
                                let vw = self.meta[self.vars[v as usize].term as usize].width;
                                if vw < w {
                                    format!("((_ sign_extend {}) v{v})", w - vw)
                                } else {
                                    trunc(format!("v{v}"), vw, w)
                                }
                            };
                            let mut x = ext(mo[0]);
                            for v in &mo[1..] {
                                x = format!("(bvmul {x} {})", ext(*v));
                            }
                            t.push(match *c {
                                1 => x,
                                -1 => format!("(bvneg {x})"),
                                c => format!("(bvmul {} {x})", bv(c, w)),
                            });
                        }
                        let mut it = t.into_iter();
                        let first = it.next().unwrap();
                        it.fold(first, |acc, x| format!("(bvadd {acc} {x})"))
                    }
                    Op::Cmp => return (boolean(), self.cmp_int(n.cst as u8, a, b)),
                    Op::IsNan | Op::IsInf => return (boolean(), "false".into()),
                    Op::IsNeg => {
                        let w = self.meta[a as usize].width;
                        return (boolean(), format!("(bvslt t{a} {})", bv(0, w)));
                    }
                    _ => panic!("term {:?} cannot be encoded in the Int domain", n),
                };
                (sort, body)
            }
            Domain::Mf { eb, sb } => {
                // numbers are their bits; the functions are those of `bvfp`
                let sort = format!("(_ BitVec {})", eb + sb);
                let body = match n.op {
                    Op::Var => format!("v{}", n.cst),
                    Op::Const => bv(encode_mf(f64::from_bits(n.cst), eb, sb) as i128, eb + sb),
                    Op::Add => format!("(fadd t{a} t{b})"),
                    Op::Sub => format!("(fsub t{a} t{b})"),
                    Op::Mul => format!("(fmul t{a} t{b})"),
                    Op::Div => {
                        // dividing by a power of two is multiplying by its reciprocal
                        let d = f64::from_bits(self.nodes[b as usize].cst);
                        let r = 1.0 / d;
                        let tiny = 2f64.powi(2 - (1i32 << (eb - 1)));
                        if self.nodes[b as usize].op == Op::Const && d.is_normal() && d.to_bits() << 12 == 0 && r.abs() >= tiny && round_mf(r, eb, sb) == r {
                            format!("(fmul t{a} {})", bv(encode_mf(r, eb, sb) as i128, eb + sb))
                        } else {
                            format!("(fdiv t{a} t{b})")
                        }
                    }
                    Op::Neg => format!("(fneg t{a})"),
                    Op::Abs => format!("(fabs t{a})"),
                    Op::Sqrt => format!("(fsqrt t{a})"),
                    // Rust's min/max: the other operand if one is NaN
                    Op::Min => format!("(fmin t{a} t{b})"),
                    Op::Max => format!("(fmax t{a} t{b})"),
                    Op::Ite => format!("(ite t{} t{a} t{b})", n.c),
                    Op::Cmp => return (boolean(), self.cmp_fp(n.cst as u8, a, b)),
                    Op::IsNan => return (boolean(), format!("(isnan t{a})")),
                    Op::IsInf => return (boolean(), format!("(isinf t{a})")),
                    Op::IsNeg => return (boolean(), format!("(isneg t{a})")),
                    _ => panic!("term {:?} cannot be encoded in the Mf domain", n),
                };
                (sort, body)
            }
        }
    }

    fn fit_raw(&self, id: u32, w: u32) -> String {
        let m = &self.meta[id as usize];
        if w > m.width {
            format!("((_ sign_extend {}) t{id})", w - m.width)
        } else {
            format!("t{id}")
        }
    }

    pub fn operands(&self, id: u32) -> [u32; 3] {
        let n = self.nodes[id as usize];
        if let Some(a) = self.alias.get(&id) {
            return [a.0, 0, 0];
        }
        if n.op == Op::Form && self.domain == Domain::Int {
            if let Some(h) = self.form_hint.get(&(n.cst as u32)) {
                return [h.0, h.1, 0];
            }
        }
        [n.a, n.b, n.c]
    }

    /// Declaration of a variable: raw bits, plus range constraint.
    /// The declaration and (separately, because assertions are scoped) the range assertion.
    pub fn declare_var(&self, i: usize, lin: bool) -> (String, String) {
        let v = &self.vars[i];
        if lin {
            let n = |x: i64| if x < 0 { format!("(- {})", -x) } else { format!("{x}") };
            return (format!("(declare-const v{i} Int)\n"), format!("(assert (and (<= {} v{i}) (<= v{i} {})))\n", n(v.lo), n(v.hi)));
        }
        if v.choice {
            let w = CHOICE_W;
            return (
                format!("(declare-const v{i} (_ BitVec {w}))\n"),
                format!("(assert (and (bvule {} v{i}) (bvule v{i} {})))\n", bv(v.lo as i128, w), bv(v.hi as i128, w)),
            );
        }
        match self.domain {
            Domain::Int => {
                let w = self.meta[v.term as usize].width;
                (
                    format!("(declare-const v{i} (_ BitVec {w}))\n"),
                    format!("(assert (and (bvsle {} v{i}) (bvsle v{i} {})))\n", bv(v.lo as i128, w), bv(v.hi as i128, w)),
                )
            }
            Domain::Mf { eb, sb } => {
                let w = eb + sb;
                let d = format!("(declare-const v{i} (_ BitVec {w}))\n");
                let mut r = String::new();
                if !v.allow_nonfinite {
                    // exponent field not all ones
                    r = format!("(assert (not (= ((_ extract {} {}) v{i}) {})))\n", w - 2, sb - 1, bv((1i128 << eb) - 1, eb));
                }
                (d, r)
            }
        }
    }

    /// Raw value (a signed integer in the Int domain) of the bits of a bit-vector constant.
    pub fn raw_of_bits(&self, i: usize, bits: u64) -> u64 {
        if self.vars[i].choice || self.domain != Domain::Int {
            return bits;
        }
        let w = self.meta[self.vars[i].term as usize].width;
        if w < 64 && (bits >> (w - 1)) & 1 == 1 {
            ((bits as i64) - (1i64 << w)) as u64
        } else {
            bits
        }
    }

    /// Is a product linear because one factor is a constant?
    pub fn linear_product(&self, id: u32) -> bool {
        let n = self.nodes[id as usize];
        self.nodes[n.a as usize].op == Op::Const || self.nodes[n.b as usize].op == Op::Const
    }

    pub fn form_degree(&self, f: u64) -> usize {
        self.forms[f as usize].iter().map(|t| t.0.len()).max().unwrap_or(0)
    }

    pub fn decode_var(&self, i: usize, bits: u64) -> f64 {
        if self.vars[i].choice {
            return bits as f64;
        }
        match self.domain {
            Domain::Int => bits as i64 as f64,
            Domain::Mf { eb, sb } => decode_mf(bits, eb, sb),
        }
    }
}

fn trunc(s: String, from: u32, to: u32) -> String {
    if from > to {
        format!("((_ extract {} 0) {s})", to - 1)
    } else {
        s
    }
}

pub fn bv(x: i128, w: u32) -> String {
    let m = if w >= 127 { u128::MAX } else { (1u128 << w) - 1 };
    format!("(_ bv{} {})", (x as u128) & m, w)
}

/// Round an f64 to the format (eb, sb); ties to even, gradual underflow, overflow to infinity.
pub fn round_mf(x: f64, eb: u32, sb: u32) -> f64 {
    if !x.is_finite() || x == 0.0 || (eb == 11 && sb == 53) {
        return x;
    }
    if eb == 8 && sb == 24 {
        return x as f32 as f64;
    }
    let bias = (1i32 << (eb - 1)) - 1;
    let emin = 1 - bias;
    let emax = bias;
    let e = x.abs().log2().floor() as i32;
    // log2 can be off by one at powers of two
    let mut e = e;
    while 2f64.powi(e) > x.abs() {
        e -= 1;
    }
    while 2f64.powi(e + 1) <= x.abs() {
        e += 1;
    }
    let e = e.max(emin);
    let ulp = 2f64.powi(e - (sb as i32 - 1));
    let q = x / ulp;
    let mut r = q.trunc();
    let d = (q - r).abs();
    if d > 0.5 || (d == 0.5 && (r as i64) % 2 != 0) {
        r += q.signum();
    }
    let y = r * ulp;
    let max = (2.0 - 2f64.powi(-(sb as i32 - 1))) * 2f64.powi(emax);
    if y.abs() > max {
        f64::INFINITY.copysign(x)
    } else if y == 0.0 {
        0f64.copysign(x)
    } else {
        y
    }
}

pub fn decode_mf(bits: u64, eb: u32, sb: u32) -> f64 {
    if eb == 11 && sb == 53 {
        return f64::from_bits(bits);
    }
    if eb == 8 && sb == 24 {
        return f32::from_bits(bits as u32) as f64;
    }
    let mb = sb - 1;
    let man = bits & ((1 << mb) - 1);
    let exp = ((bits >> mb) & ((1 << eb) - 1)) as i32;
    let neg = (bits >> (mb + eb)) & 1 == 1;
    let bias = (1i32 << (eb - 1)) - 1;
    let v = if exp == (1 << eb) - 1 {
        if man != 0 {
            return f64::NAN;
        }
        f64::INFINITY
    } else if exp == 0 {
        man as f64 * 2f64.powi(1 - bias - mb as i32)
    } else {
        (1.0 + man as f64 / 2f64.powi(mb as i32)) * 2f64.powi(exp - bias)
    };
    if neg {
        -v
    } else {
        v
    }
}

pub fn encode_mf(x: f64, eb: u32, sb: u32) -> u64 {
    if eb == 11 && sb == 53 && !x.is_nan() {
        return x.to_bits();
    }
    if eb == 8 && sb == 24 && !x.is_nan() {
        return (x as f32).to_bits() as u64;
    }
    let mb = sb - 1;
    let ones = (1u64 << eb) - 1;
    if x.is_nan() {
        return (ones << mb) | (1 << (mb - 1));
    }
    let x = round_mf(x, eb, sb);
    let sign = if x.is_sign_negative() { 1u64 << (mb + eb) } else { 0 };
    let a = x.abs();
    if a.is_infinite() {
        return sign | (ones << mb);
    }
    if a == 0.0 {
        return sign;
    }
    let bias = (1i32 << (eb - 1)) - 1;
    let mut e = a.log2().floor() as i32;
    while 2f64.powi(e) > a {
        e -= 1;
    }
    while 2f64.powi(e + 1) <= a {
        e += 1;
    }
    if e < 1 - bias {
        let man = (a / 2f64.powi(1 - bias - mb as i32)) as u64;
        sign | man
    } else {
        let man = ((a / 2f64.powi(e) - 1.0) * 2f64.powi(mb as i32)) as u64;
        sign | (((e + bias) as u64) << mb) | man
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn roundtrip() {
        for (eb, sb) in [(3, 3), (4, 4), (3, 5)] {
            for bits in 0..(1u64 << (eb + sb)) {
                let x = decode_mf(bits, eb, sb);
                if x.is_nan() {
                    continue;
                }
                assert_eq!(round_mf(x, eb, sb).to_bits(), x.to_bits());
                assert_eq!(encode_mf(x, eb, sb), bits, "{x}");
            }
        }
    }
}
