//! What literals, constants and conversions of a concrete float become when it names the symbolic
//! scalar (see rustlit.py).
pub use num_traits::Float;
use crate::sym::Sym;

pub trait Lit {
    fn of(x: f64) -> Self;
}
impl Lit for f64 {
    fn of(x: f64) -> f64 {
        x
    }
}
impl Lit for f32 {
    fn of(x: f64) -> f32 {
        x as f32
    }
}
impl Lit for Sym {
    fn of(x: f64) -> Sym {
        Sym::k(x)
    }
}
pub fn lit<T: Lit>(x: f64) -> T {
    T::of(x)
}

pub trait Cast<T> {
    fn to(self) -> T;
}
macro_rules! prim {
    ($($t:ty)*) => { $(
        impl Cast<Sym> for $t { fn to(self) -> Sym { Sym::k(self as f64) } }
        impl Cast<f64> for $t { fn to(self) -> f64 { self as f64 } }
        impl Cast<f32> for $t { fn to(self) -> f32 { self as f32 } }
    )* };
}
prim!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
impl Cast<Sym> for Sym {
    fn to(self) -> Sym {
        self
    }
}
impl Cast<f64> for Sym {
    fn to(self) -> f64 {
        self.concretise()
    }
}
impl Cast<f32> for Sym {
    fn to(self) -> f32 {
        self.concretise() as f32
    }
}
pub fn cast<A: Cast<T>, T>(x: A) -> T {
    x.to()
}

/// The methods that concrete floats have without any trait.
macro_rules! own {
    ($($n:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {
        impl Sym { $(
            #[inline]
            pub fn $n(self, $($a: $t),*) -> $r { Float::$n(self, $($a),*) }
        )* }
    };
}
own! {
    is_nan() -> bool;
    is_infinite() -> bool;
    is_finite() -> bool;
    is_normal() -> bool;
    classify() -> std::num::FpCategory;
    floor() -> Sym;
    ceil() -> Sym;
    round() -> Sym;
    trunc() -> Sym;
    fract() -> Sym;
    abs() -> Sym;
    signum() -> Sym;
    is_sign_positive() -> bool;
    is_sign_negative() -> bool;
    mul_add(a: Sym, b: Sym) -> Sym;
    recip() -> Sym;
    powi(n: i32) -> Sym;
    powf(n: Sym) -> Sym;
    sqrt() -> Sym;
    exp() -> Sym;
    ln() -> Sym;
    hypot(o: Sym) -> Sym;
    max(o: Sym) -> Sym;
    min(o: Sym) -> Sym;
    copysign(o: Sym) -> Sym;
}
impl Sym {
    pub fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        assert!(lo <= hi);
        if self < lo {
            lo
        } else if self > hi {
            hi
        } else {
            self
        }
    }
    pub fn total_cmp(&self, o: &Sym) -> std::cmp::Ordering {
        match self.partial_cmp(o) {
            Some(std::cmp::Ordering::Equal) | None => {
                let key = |x: Sym| (if x.is_nan() { 3 } else { 1 }) * (if x.is_sign_negative() { -1 } else { 1 });
                key(*self).cmp(&key(*o))
            }
            Some(r) => r,
        }
    }
    pub fn rem_euclid(self, o: Sym) -> Sym {
        let r = self % o;
        if r < Sym::k(0.0) {
            r + o.abs()
        } else {
            r
        }
    }
}
