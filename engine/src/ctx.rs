//! What a scenario sees: named inputs, assumptions, assertions. The same scenario runs with
//! `Sym` (all values at once) and with `f64`/`f32` (replay of a counterexample).
use crate::arena::*;
use crate::engine::*;
use crate::sym::*;
use num_traits::Float;
use std::collections::HashMap;
use std::fmt::Debug;
use std::ops::AddAssign;

pub trait Scalar: Float + Debug + Send + Sync + AddAssign + 'static {
    const NATIVE: bool;
    fn lit(x: f64) -> Self;
    /// value in the current run
    fn conc(self) -> f64;
    fn cmpm(self, o: Self, mask: u8) -> B;
    fn b_nan(self) -> B;
    fn b_inf(self) -> B;
    fn b_neg(self) -> B;
    /// was the value produced by an operation (as opposed to garbage memory)?
    fn sane(&self) -> bool;
    /// does the value depend on no symbolic input?
    fn known(self) -> bool;
    fn b_lt(self, o: Self) -> B {
        self.cmpm(o, L)
    }
    fn b_le(self, o: Self) -> B {
        self.cmpm(o, L | E)
    }
    fn b_eq(self, o: Self) -> B {
        self.cmpm(o, E)
    }
    fn b_gt(self, o: Self) -> B {
        self.cmpm(o, G)
    }
    fn b_ge(self, o: Self) -> B {
        self.cmpm(o, G | E)
    }
    /// same value, or both NaN
    fn b_same(self, o: Self) -> B {
        self.b_eq(o) | (self.b_nan() & o.b_nan())
    }
}

impl Scalar for Sym {
    const NATIVE: bool = false;
    fn lit(x: f64) -> Sym {
        Sym::k(x)
    }
    fn conc(self) -> f64 {
        self.c
    }
    fn cmpm(self, o: Sym, m: u8) -> B {
        self.cmp_b(o, m)
    }
    fn b_nan(self) -> B {
        self.nan_b()
    }
    fn b_inf(self) -> B {
        self.inf_b()
    }
    fn b_neg(self) -> B {
        self.neg_b()
    }
    fn sane(&self) -> bool {
        self.tag == TAG
    }
    fn known(self) -> bool {
        self.id == 0
    }
}

macro_rules! native {
    ($t:ty) => {
        impl Scalar for $t {
            const NATIVE: bool = true;
            fn lit(x: f64) -> $t {
                x as $t
            }
            fn conc(self) -> f64 {
                self as f64
            }
            fn cmpm(self, o: $t, m: u8) -> B {
                B::k(outcome(self as f64, o as f64) & m != 0)
            }
            fn b_nan(self) -> B {
                B::k(<$t>::is_nan(self))
            }
            fn b_inf(self) -> B {
                B::k(<$t>::is_infinite(self))
            }
            fn b_neg(self) -> B {
                B::k(<$t>::is_sign_negative(self) && !<$t>::is_nan(self))
            }
            fn sane(&self) -> bool {
                true
            }
            fn known(self) -> bool {
                true
            }
        }
    };
}
native!(f64);
native!(f32);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Symbolic,
    /// inputs are read from a model
    Concrete,
}

pub struct Ctx<S: Scalar> {
    pub mode: Mode,
    pub domain: Domain,
    /// raw bits by name (Concrete)
    pub model: HashMap<String, u64>,
    pub checks: Vec<(String, B)>,
    pub obs: Vec<f64>,
    pub desc: Vec<String>,
    pub tier_thorough: bool,
    _p: std::marker::PhantomData<S>,
}

impl<S: Scalar> Ctx<S> {
    pub fn new(mode: Mode, domain: Domain, model: HashMap<String, u64>) -> Self {
        Ctx { mode, domain, model, checks: vec![], obs: vec![], desc: vec![], tier_thorough: false, _p: std::marker::PhantomData }
    }

    fn raw_to_s(&self, name: &str, lo: i64, hi: i64) -> S {
        let raw = self.model.get(name).copied();
        match self.domain {
            Domain::Int => {
                let x = raw.map(|r| r as i64).unwrap_or(lo.max(0).min(hi));
                S::lit(x as f64)
            }
            Domain::Mf { eb, sb } => S::lit(decode_mf(raw.unwrap_or(0), eb, sb)),
        }
    }

    fn var(&mut self, name: &str, lo: i64, hi: i64, nonfinite: bool) -> S {
        let v = if self.mode == Mode::Concrete {
            self.raw_to_s(name, lo, hi)
        } else {
            // only `Sym` runs symbolically
            let s = {
                let mut e = eng();
                let t = e.arena.var(name, lo, hi, nonfinite);
                let c = e.eval(t);
                Sym::mk(c, t)
            };
            assert!(!S::NATIVE);
            // safety: S is Sym here
            unsafe { std::mem::transmute_copy::<Sym, S>(&s) }
        };
        self.desc.push(format!("{name}={}", v.conc()));
        v
    }

    /// An integer-valued scalar in lo..=hi (Int domain), or any finite value of the format (Mf).
    pub fn num(&mut self, name: &str, lo: i64, hi: i64) -> S {
        self.var(name, lo, hi, false)
    }

    /// Any value of the format, NaN and infinities included (Mf only).
    pub fn any(&mut self, name: &str) -> S {
        self.var(name, 0, 0, true)
    }

    pub fn choose(&mut self, name: &str, lo: usize, hi: usize) -> usize {
        // the range may differ between paths
        let full = format!("{name}[{lo}-{hi}]");
        let x = if self.mode == Mode::Concrete {
            (self.model.get(&full).copied().unwrap_or(lo as u64) as usize).clamp(lo, hi)
        } else {
            eng().choose(&full, lo, hi)
        };
        self.desc.push(format!("{name}={x}"));
        x
    }

    pub fn assume(&mut self, b: B) {
        let ok = if self.mode == Mode::Concrete { b.c } else { eng().assume(b) };
        if !ok {
            std::panic::panic_any(AssumeFailed);
        }
    }

    pub fn check(&mut self, label: &str, b: B) {
        if b.id == 0 && b.c {
            self.checks.push((String::new(), b));
        } else {
            self.checks.push((label.to_string(), b));
        }
    }

    pub fn fail(&mut self, label: &str) {
        self.check(label, B::k(false))
    }

    /// Values compared between the symbolic run and the native run of the same input.
    pub fn see(&mut self, x: f64) {
        self.obs.push(x)
    }
}

pub fn all(it: impl IntoIterator<Item = B>) -> B {
    it.into_iter().fold(B::k(true), |a, b| a & b)
}
pub fn any(it: impl IntoIterator<Item = B>) -> B {
    it.into_iter().fold(B::k(false), |a, b| a | b)
}
