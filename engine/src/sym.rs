//! The symbolic scalar.
use crate::arena::*;
use crate::engine::*;
use num_traits::{Bounded, Float, FloatConst, FromPrimitive, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::num::FpCategory;
use std::ops::*;
use std::sync::atomic::Ordering::Relaxed;

pub const TAG: u32 = 0x51AB_C0DE;

#[derive(Clone, Copy)]
#[repr(C)]
pub struct Sym {
    pub c: f64,
    pub id: u32,
    pub tag: u32,
}

impl Sym {
    #[inline]
    pub fn k(c: f64) -> Sym {
        Sym { c: rnd(c), id: 0, tag: TAG }
    }
    #[inline]
    pub fn mk(c: f64, id: u32) -> Sym {
        Sym { c, id, tag: TAG }
    }
    /// Report a value that no operation produced (uninitialised or freed memory).
    #[inline]
    pub fn ok(self) -> Sym {
        if self.tag != TAG {
            BAD_TAG.fetch_add(1, Relaxed);
            panic!("read of a scalar that was never written (uninitialised or freed memory)");
        }
        self
    }
    pub fn decide(self, o: Sym, parts: &[u8]) -> usize {
        let (a, b) = (self.ok(), o.ok());
        if a.id == 0 && b.id == 0 {
            let oc = outcome(a.c, b.c);
            return parts.iter().position(|p| p & oc != 0).unwrap();
        }
        eng().decide(a.c, a.id, b.c, b.id, parts)
    }
    /// Split on the exact value; used for operations that have no encoding.
    pub fn concretise(self) -> f64 {
        let s = self.ok();
        if s.id == 0 {
            return s.c;
        }
        let arg = {
            let e = eng();
            let n = e.arena.nodes[s.id as usize];
            if e.int() && n.op == Op::Sqrt {
                Some((e.eval(n.a), n.a))
            } else {
                None
            }
        };
        let t = match arg {
            Some((c, id)) => Sym::mk(c, id),
            None => s,
        };
        if t.c.is_nan() {
            let r = s.is_nan();
            debug_assert!(r);
            return t.c;
        }
        if mf().is_some() {
            // sign of zero matters
            t.is_sign_negative();
        }
        let p = t.decide(Sym::k(t.c), &[E, L | G | U]);
        debug_assert!(p == 0);
        s.c
    }
    fn un(self, f: impl Fn(f64) -> f64) -> Sym {
        Sym::k(f(self.concretise()))
    }
    fn bin(self, o: Sym, f: impl Fn(f64, f64) -> f64) -> Sym {
        let (a, b) = (self.concretise(), o.concretise());
        Sym::k(f(a, b))
    }
    /// Int domain: is the result of this operation exactly representable in the encoding?
    fn fits(e: &Engine, lo: f64, hi: f64, scale: i32) -> bool {
        let f = 2f64.powi(scale);
        let _ = e;
        scale <= 72 && (lo.abs() * f) < 2f64.powi(51) && (hi.abs() * f) < 2f64.powi(51)
    }
    fn arith(self, o: Sym, op: Op) -> Sym {
        let (a, b) = (self.ok(), o.ok());
        let f = |x: f64, y: f64| match op {
            Op::Add => x + y,
            Op::Sub => x - y,
            Op::Mul => x * y,
            Op::Div => x / y,
            Op::Min => Float::min(x, y),
            Op::Max => Float::max(x, y),
            _ => unreachable!(),
        };
        if a.id == 0 && b.id == 0 {
            return Sym::k(f(a.c, b.c));
        }
        let mut e = eng();
        if e.int() {
            // neutral elements keep terms small
            match op {
                Op::Add if a.id == 0 && a.c == 0.0 => return b,
                Op::Add | Op::Sub if b.id == 0 && b.c == 0.0 => return a,
                Op::Mul if (a.id == 0 && a.c == 0.0) || (b.id == 0 && b.c == 0.0) => return Sym::k(0.0),
                Op::Mul if a.id == 0 && a.c == 1.0 => return b,
                Op::Mul | Op::Div if b.id == 0 && b.c == 1.0 => return a,
                Op::Sub if a.id == b.id => return Sym::k(0.0),
                _ => {}
            }
            let ta = e.term(a.c, a.id);
            let tb = e.term(b.c, b.id);
            let (ma, mb) = (e.arena.meta[ta as usize], e.arena.meta[tb as usize]);
            let na = e.arena.nodes[ta as usize];
            if op == Op::Mul && ta == tb && na.op == Op::Sqrt {
                let c = e.eval(na.a);
                return Sym::mk(c, na.a);
            }
            // infinite or huge constants against a bounded term
            if matches!(op, Op::Min | Op::Max) {
                let known = if ma.hi <= mb.lo {
                    Some(L)
                } else if ma.lo >= mb.hi {
                    Some(G)
                } else {
                    None
                };
                if let Some(k) = known {
                    return if (k == L) == (op == Op::Min) { a } else { b };
                }
                if na.op == Op::Sqrt || ma.big || mb.big {
                    drop(e);
                    let p = a.decide(b, &[L, E | G | U]);
                    return if (p == 0) == (op == Op::Min) { a } else { b };
                }
            }
            let ok = !ma.big
                && !mb.big
                && match op {
                    Op::Add => Self::fits(&e, ma.lo + mb.lo, ma.hi + mb.hi, ma.scale.max(mb.scale)),
                    Op::Sub => Self::fits(&e, ma.lo - mb.hi, ma.hi - mb.lo, ma.scale.max(mb.scale)),
                    Op::Mul => {
                        let m = ma.lo.abs().max(ma.hi.abs()) * mb.lo.abs().max(mb.hi.abs());
                        Self::fits(&e, m, m, ma.scale + mb.scale)
                    }
                    Op::Div => {
                        b.id == 0 && b.c != 0.0 && b.c.abs().log2().fract() == 0.0 && {
                            let k = b.c.abs().log2() as i32;
                            let m = ma.lo.abs().max(ma.hi.abs()) / b.c.abs();
                            k.abs() < 30 && Self::fits(&e, m, m, (ma.scale + k).max(0))
                        }
                    }
                    _ => true,
                };
            if !ok {
                let inf = |x: Sym| x.id == 0 && (x.c.is_infinite() || x.c.is_nan());
                if matches!(op, Op::Add | Op::Sub) && (inf(a) || inf(b)) {
                    return Sym::k(f(a.c, b.c));
                }
                drop(e);
                return a.bin(b, f);
            }
            let (x, y) = match op {
                // (x - y)^2 == (y - x)^2
                Op::Mul if ta == tb => {
                    let n = e.arena.nodes[ta as usize];
                    let t = match n.op {
                        Op::Sub if n.a > n.b => e.arena.mk(Op::Sub, n.b, n.a, 0, 0),
                        Op::Neg | Op::Abs => n.a,
                        _ => ta,
                    };
                    (t, t)
                }
                Op::Add | Op::Mul | Op::Min | Op::Max => (ta.min(tb), ta.max(tb)),
                _ => (ta, tb),
            };
            let id = e.arena.mk(op, x, y, 0, 0);
            return Sym::mk(f(a.c, b.c), id);
        }
        let ta = e.term(a.c, a.id);
        let tb = e.term(b.c, b.id);
        let (x, y) = match op {
            Op::Mul if ta == tb => {
                let n = e.arena.nodes[ta as usize];
                let t = match n.op {
                    Op::Sub if n.a > n.b => e.arena.mk(Op::Sub, n.b, n.a, 0, 0),
                    Op::Neg | Op::Abs => n.a,
                    _ => ta,
                };
                (t, t)
            }
            Op::Add | Op::Mul => (ta.min(tb), ta.max(tb)),
            _ => (ta, tb),
        };
        let id = e.arena.mk(op, x, y, 0, 0);
        Sym::mk(rnd(f(a.c, b.c)), id)
    }
    fn is_int_scale0(self) -> bool {
        self.id != 0 && {
            let e = eng();
            e.int() && !e.arena.meta[self.id as usize].big && e.arena.meta[self.id as usize].scale == 0
        }
    }
    fn unary(self, op: Op) -> B {
        let s = self.ok();
        let c = match op {
            Op::IsNan => s.c.is_nan(),
            Op::IsInf => s.c.is_infinite(),
            _ => s.c.is_sign_negative() && !s.c.is_nan(),
        };
        if s.id == 0 {
            return B { c, id: 0 };
        }
        let mut e = eng();
        let m = e.arena.meta[s.id as usize];
        match op {
            Op::IsNan if !m.can_nan || e.int() => return B { c: false, id: 0 },
            Op::IsInf if !m.can_inf || e.int() => return B { c: false, id: 0 },
            Op::IsNeg if m.nonneg && e.int() => return B { c: false, id: 0 },
            _ => {}
        }
        if op == Op::IsNeg && e.int() {
            return e.cmp_b(s.c, s.id, 0.0, 0, L);
        }
        let id = e.arena.mk(op, s.id, 0, 0, 0);
        B { c, id }
    }
    pub fn nan_b(self) -> B {
        self.unary(Op::IsNan)
    }
    pub fn inf_b(self) -> B {
        self.unary(Op::IsInf)
    }
    pub fn neg_b(self) -> B {
        self.unary(Op::IsNeg)
    }
    pub fn cmp_b(self, o: Sym, mask: u8) -> B {
        let (a, b) = (self.ok(), o.ok());
        if a.id == 0 && b.id == 0 {
            return B::k(outcome(a.c, b.c) & mask != 0);
        }
        eng().cmp_b(a.c, a.id, b.c, b.id, mask)
    }
}

/// Called before every comparison made by the code under test, symbolic or not.
fn hook() {
    if !HOOKED.load(std::sync::atomic::Ordering::Relaxed) {
        return;
    }
    let f = *ON_BRANCH.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(f) = f {
        f();
    }
}

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.c)
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.c)
    }
}
impl Default for Sym {
    fn default() -> Self {
        Sym::k(0.0)
    }
}
impl From<f64> for Sym {
    fn from(x: f64) -> Sym {
        Sym::k(x)
    }
}
impl From<f32> for Sym {
    fn from(x: f32) -> Sym {
        Sym::k(x as f64)
    }
}

impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        hook();
        self.decide(*o, &[E, L | G | U]) == 0
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        hook();
        match self.decide(*o, &[L, E, G, U]) {
            0 => Some(Ordering::Less),
            1 => Some(Ordering::Equal),
            2 => Some(Ordering::Greater),
            _ => None,
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        hook();
        self.decide(*o, &[L, E | G | U]) == 0
    }
    fn le(&self, o: &Sym) -> bool {
        hook();
        self.decide(*o, &[L | E, G | U]) == 0
    }
    fn gt(&self, o: &Sym) -> bool {
        hook();
        self.decide(*o, &[G, L | E | U]) == 0
    }
    fn ge(&self, o: &Sym) -> bool {
        hook();
        self.decide(*o, &[G | E, L | U]) == 0
    }
}

macro_rules! binop {
    ($tr:ident $f:ident $as:ident $asf:ident $op:expr) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                self.arith(o, $op)
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $f(self, o: &'a Sym) -> Sym {
                self.arith(*o, $op)
            }
        }
        impl<'a> $tr<Sym> for &'a Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                self.arith(o, $op)
            }
        }
        impl<'a, 'b> $tr<&'b Sym> for &'a Sym {
            type Output = Sym;
            fn $f(self, o: &'b Sym) -> Sym {
                self.arith(*o, $op)
            }
        }
        impl $as for Sym {
            fn $asf(&mut self, o: Sym) {
                *self = self.arith(o, $op)
            }
        }
        impl<'a> $as<&'a Sym> for Sym {
            fn $asf(&mut self, o: &'a Sym) {
                *self = self.arith(*o, $op)
            }
        }
    };
}
binop!(Add add AddAssign add_assign Op::Add);
binop!(Sub sub SubAssign sub_assign Op::Sub);
binop!(Mul mul MulAssign mul_assign Op::Mul);
binop!(Div div DivAssign div_assign Op::Div);

impl Rem for Sym {
    type Output = Sym;
    fn rem(self, o: Sym) -> Sym {
        // values already in [0, o) are unchanged
        self.bin(o, |a, b| a % b)
    }
}
impl RemAssign for Sym {
    fn rem_assign(&mut self, o: Sym) {
        *self = *self % o
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        let s = self.ok();
        if s.id == 0 {
            return Sym::k(-s.c);
        }
        let mut e = eng();
        if e.int() && e.arena.meta[s.id as usize].big {
            drop(e);
            return s.un(|x| -x);
        }
        let n = e.arena.nodes[s.id as usize];
        let id = if n.op == Op::Neg {
            n.a
        } else if e.int() && n.op == Op::Sub {
            e.arena.mk(Op::Sub, n.b, n.a, 0, 0)
        } else {
            e.arena.mk(Op::Neg, s.id, 0, 0, 0)
        };
        let c = if e.int() && s.c == 0.0 { 0.0 } else { -s.c };
        Sym::mk(c, id)
    }
}
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(Sym::k(0.0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(i: I) -> Sym {
        i.fold(Sym::k(0.0), |a, b| a + *b)
    }
}
impl std::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(i: I) -> Sym {
        i.fold(Sym::k(1.0), |a, b| a * b)
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym::k(0.0)
    }
    fn is_zero(&self) -> bool {
        *self == Sym::k(0.0)
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym::k(1.0)
    }
}
impl Num for Sym {
    type FromStrRadixErr = num_traits::ParseFloatError;
    fn from_str_radix(s: &str, r: u32) -> Result<Sym, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(Sym::k)
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        self.concretise().to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.concretise().to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.concretise())
    }
    fn to_f32(&self) -> Option<f32> {
        Some(self.concretise() as f32)
    }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Sym> {
        n.to_f64().map(Sym::k)
    }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> {
        Some(Sym::k(n as f64))
    }
    fn from_u64(n: u64) -> Option<Sym> {
        Some(Sym::k(n as f64))
    }
    fn from_f64(n: f64) -> Option<Sym> {
        Some(Sym::k(n))
    }
}
impl Bounded for Sym {
    fn min_value() -> Sym {
        <Sym as Float>::min_value()
    }
    fn max_value() -> Sym {
        <Sym as Float>::max_value()
    }
}
impl Signed for Sym {
    fn abs(&self) -> Sym {
        Float::abs(*self)
    }
    fn abs_sub(&self, o: &Sym) -> Sym {
        Float::max(*self - *o, Sym::k(0.0))
    }
    fn signum(&self) -> Sym {
        Float::signum(*self)
    }
    fn is_positive(&self) -> bool {
        *self > Sym::k(0.0)
    }
    fn is_negative(&self) -> bool {
        *self < Sym::k(0.0)
    }
}
macro_rules! consts {
    ($($n:ident)*) => { impl FloatConst for Sym { $(fn $n() -> Sym { Sym::k(<f64 as FloatConst>::$n()) })* } };
}
consts!(E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 LN_10 LN_2 LOG10_E LOG2_E PI SQRT_2);

fn max_finite() -> f64 {
    match mf() {
        Some((11, 53)) => f64::MAX,
        Some((eb, sb)) => (2.0 - 2f64.powi(-(sb as i32 - 1))) * 2f64.powi((1 << (eb - 1)) - 1),
        None => f64::MAX,
    }
}

macro_rules! via_f64 {
    ($($n:ident)*) => { $(fn $n(self) -> Sym { self.un(|x| Float::$n(x)) })* };
}
macro_rules! via_f64_2 {
    ($($n:ident)*) => { $(fn $n(self, o: Sym) -> Sym { self.bin(o, |x, y| Float::$n(x, y)) })* };
}
macro_rules! grid {
    ($($n:ident)*) => { $(fn $n(self) -> Sym { if self.is_int_scale0() { self.ok() } else { self.un(|x| Float::$n(x)) } })* };
}

impl Float for Sym {
    fn nan() -> Sym {
        Sym::k(f64::NAN)
    }
    fn infinity() -> Sym {
        Sym::k(f64::INFINITY)
    }
    fn neg_infinity() -> Sym {
        Sym::k(f64::NEG_INFINITY)
    }
    fn neg_zero() -> Sym {
        Sym::k(-0.0)
    }
    fn min_value() -> Sym {
        Sym::k(-max_finite())
    }
    fn max_value() -> Sym {
        Sym::k(max_finite())
    }
    fn min_positive_value() -> Sym {
        Sym::k(match mf() {
            Some((11, 53)) | None => f64::MIN_POSITIVE,
            Some((eb, _)) => 2f64.powi(2 - (1 << (eb - 1))),
        })
    }
    fn epsilon() -> Sym {
        Sym::k(match mf() {
            Some((_, sb)) => 2f64.powi(1 - sb as i32),
            None => f64::EPSILON,
        })
    }
    fn is_nan(self) -> bool {
        self.nan_b().branch()
    }
    fn is_infinite(self) -> bool {
        self.inf_b().branch()
    }
    fn is_finite(self) -> bool {
        !self.nan_b().branch() && !self.inf_b().branch()
    }
    fn is_normal(self) -> bool {
        matches!(self.classify(), FpCategory::Normal)
    }
    fn classify(self) -> FpCategory {
        if Float::is_nan(self) {
            FpCategory::Nan
        } else if Float::is_infinite(self) {
            FpCategory::Infinite
        } else if self == Sym::k(0.0) {
            FpCategory::Zero
        } else if Float::abs(self) < <Sym as Float>::min_positive_value() {
            FpCategory::Subnormal
        } else {
            FpCategory::Normal
        }
    }
    grid!(floor ceil round trunc);
    fn fract(self) -> Sym {
        if self.is_int_scale0() {
            Sym::k(0.0)
        } else {
            self.un(|x| x.fract())
        }
    }
    fn abs(self) -> Sym {
        let s = self.ok();
        if s.id == 0 {
            return Sym::k(s.c.abs());
        }
        let mut e = eng();
        let m = e.arena.meta[s.id as usize];
        if e.int() && m.nonneg {
            return s;
        }
        let id = e.arena.mk(Op::Abs, s.id, 0, 0, 0);
        Sym::mk(s.c.abs(), id)
    }
    fn signum(self) -> Sym {
        if Float::is_nan(self) {
            return Sym::k(f64::NAN);
        }
        Sym::k(if self.neg_b().branch() { -1.0 } else { 1.0 })
    }
    fn is_sign_positive(self) -> bool {
        !self.neg_b().branch()
    }
    fn is_sign_negative(self) -> bool {
        self.neg_b().branch()
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        if mf().is_none() {
            return self * a + b;
        }
        let (x, y, z) = (self.concretise(), a.concretise(), b.concretise());
        Sym::k(x.mul_add(y, z))
    }
    fn recip(self) -> Sym {
        Sym::k(1.0) / self
    }
    fn powi(self, n: i32) -> Sym {
        match n {
            0 => Sym::k(1.0),
            1 => self.ok(),
            2 => self * self,
            n if n > 2 && n < 64 => {
                let h = self.powi(n / 2);
                let s = h * h;
                if n % 2 == 1 {
                    s * self
                } else {
                    s
                }
            }
            n => self.un(|x| x.powi(n)),
        }
    }
    fn powf(self, o: Sym) -> Sym {
        if o.id == 0 && o.c == 2.0 {
            return self * self;
        }
        if o.id == 0 && o.c == 0.5 {
            return Float::sqrt(self);
        }
        self.bin(o, |x, y| x.powf(y))
    }
    fn sqrt(self) -> Sym {
        let s = self.ok();
        if mf().is_some() {
            if s.id == 0 {
                return Sym::k(s.c.sqrt());
            }
            let id = eng().arena.mk(Op::Sqrt, s.id, 0, 0, 0);
            return Sym::mk(rnd(s.c.sqrt()), id);
        }
        if s.id == 0 && (!s.c.is_finite() || s.c < 0.0 || frac_bits(s.c).is_none()) {
            return Sym::k(s.c.sqrt());
        }
        {
            let e = eng();
            if s.id != 0 && !e.arena.meta[s.id as usize].nonneg && e.arena.meta[s.id as usize].lo < 0.0 {
                drop(e);
                if s < Sym::k(0.0) {
                    return Sym::k(f64::NAN);
                }
            }
        }
        let mut e = eng();
        let t = e.term(s.c, s.id);
        if e.arena.nodes[t as usize].op == Op::Sqrt {
            drop(e);
            return s.un(|x| x.sqrt());
        }
        let id = e.arena.mk(Op::Sqrt, t, 0, 0, 0);
        Sym::mk(s.c.max(0.0).sqrt(), id)
    }
    via_f64!(exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh to_degrees to_radians);
    via_f64_2!(log hypot atan2);
    fn max(self, o: Sym) -> Sym {
        self.arith(o, Op::Max)
    }
    fn min(self, o: Sym) -> Sym {
        self.arith(o, Op::Min)
    }
    fn abs_sub(self, o: Sym) -> Sym {
        Float::max(self - o, Sym::k(0.0))
    }
    fn sin_cos(self) -> (Sym, Sym) {
        (Float::sin(self), Float::cos(self))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        Float::integer_decode(self.concretise())
    }
    fn copysign(self, o: Sym) -> Sym {
        if o.neg_b().branch() {
            -Float::abs(self)
        } else {
            Float::abs(self)
        }
    }
}
