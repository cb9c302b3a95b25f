//! IEEE-754 arithmetic as bit-vector circuits (round to nearest, ties to even), written out as
//! SMT-LIB functions. z3 decides pure bit-vector queries with its incremental SAT solver, which is
//! far faster on our many small queries than its floating-point theory. `check.py setup` has
//! `selftest` compare every circuit with the solver's own floating-point theory.
use std::fmt::Write;

fn bits_for(n: u32) -> u32 {
    32 - n.leading_zeros()
}

/// Width of signed exponents: large enough for sums of two biased exponents and normalisation shifts.
fn we(eb: u32, sb: u32) -> u32 {
    (eb + 3).max(bits_for(4 * sb + 8) + 2)
}

fn c(x: u64, w: u32) -> String {
    if w > 64 {
        format!("(concat (_ bv0 {}) (_ bv{x} 64))", w - 64)
    } else {
        format!("(_ bv{x} {w})")
    }
}

/// Nested lets.
struct Lets {
    s: String,
    n: usize,
}

impl Lets {
    fn new() -> Lets {
        Lets { s: String::new(), n: 0 }
    }
    fn set(&mut self, name: &str, v: String) {
        let _ = write!(self.s, "(let (({name} {v})) ");
        self.n += 1;
    }
    fn done(self, body: &str) -> String {
        format!("{}{body}{}", self.s, ")".repeat(self.n))
    }
}

/// Logical right shift of `x` (width w) by the unsigned amount `d` (width dw), the lost bits or-ed into the lowest bit.
fn shift_jam(l: &mut Lets, pre: &str, x: &str, w: u32, d: &str, dw: u32) -> String {
    let mut cur = x.to_string();
    let stages = bits_for(w);
    for k in 0..stages.min(dw) {
        let sh = 1u32 << k;
        let out = format!("{pre}{k}");
        let moved = if sh >= w {
            format!("(ite (= {cur} {z}) {z} {})", c(1, w), z = c(0, w))
        } else {
            let lost = format!("(ite (= ((_ extract {} 0) {cur}) {}) #b0 #b1)", sh - 1, c(0, sh));
            format!("(bvor (concat (_ bv0 {sh}) ((_ extract {} {sh}) {cur})) (concat (_ bv0 {}) {lost}))", w - 1, w - 1)
        };
        l.set(&out, format!("(ite (= ((_ extract {k} {k}) {d}) #b1) {moved} {cur})"));
        cur = out;
    }
    if dw > stages {
        let out = format!("{pre}h");
        l.set(&out, format!("(ite (= ((_ extract {} {stages}) {d}) {}) {cur} (ite (= {x} {z}) {z} {}))", dw - 1, c(0, dw - stages), c(1, w), z = c(0, w)));
        cur = out;
    }
    cur
}

/// fp.rnd{w}: sign, biased exponent of the top bit, significand of w bits -> packed, rounded.
fn rounder(eb: u32, sb: u32, w: u32) -> String {
    let (e, n, mb) = (we(eb, sb), eb + sb, sb - 1);
    assert!(w >= sb + 2);
    let mut l = Lets::new();
    l.set("neg", format!("(bvslt E {})", c(1, e)));
    l.set("amt", format!("(ite neg (bvsub {} E) {})", c(1, e), c(0, e)));
    let mut cur = shift_jam(&mut l, "r", "S", w, "amt", e);
    l.set("E0", format!("(ite neg {} E)", c(1, e)));
    let mut ex = "E0".to_string();
    for k in (0..bits_for(w)).rev() {
        let sh = 1u32 << k;
        if sh >= w {
            continue;
        }
        let (sx, se) = (format!("n{k}"), format!("e{k}"));
        l.set(&format!("g{k}"), format!("(and (= ((_ extract {} {}) {cur}) {}) (bvsgt {ex} {}))", w - 1, w - sh, c(0, sh), c(sh as u64, e)));
        l.set(&sx, format!("(ite g{k} (concat ((_ extract {} 0) {cur}) (_ bv0 {sh})) {cur})", w - 1 - sh));
        l.set(&se, format!("(ite g{k} (bvsub {ex} {}) {ex})", c(sh as u64, e)));
        (cur, ex) = (sx, se);
    }
    l.set("q", format!("((_ extract {} {}) {cur})", w - 1, w - sb));
    l.set("gb", format!("((_ extract {0} {0}) {cur})", w - sb - 1));
    l.set("st", format!("(not (= ((_ extract {} 0) {cur}) {}))", w - sb - 2, c(0, w - sb - 1)));
    l.set("inc", "(and (= gb #b1) (or st (= ((_ extract 0 0) q) #b1)))".into());
    // exponent field and mantissa in one word, wide enough for any exponent
    let full = e + mb;
    let q = if full > sb { format!("(concat (_ bv0 {}) q)", full - sb) } else { "q".into() };
    l.set("W", format!("(bvadd (concat (bvsub {ex} {}) (_ bv0 {mb})) (bvadd {q} (ite inc {} {})))", c(1, e), c(1, full), c(0, full)));
    let inf = ((1u64 << eb) - 1) << mb;
    l.set("ovf", format!("(bvuge W {})", c(inf, full)));
    l.set("mag", format!("(ite ovf {} ((_ extract {} 0) W))", c(inf, n - 1), n - 2));
    let body = format!("(concat s (ite (= S {}) {} mag))", c(0, w), c(0, n - 1));
    format!("(define-fun rnd{w} ((s (_ BitVec 1)) (E (_ BitVec {e})) (S (_ BitVec {w}))) (_ BitVec {n}) {})\n", l.done(&body))
}

pub fn preamble(eb: u32, sb: u32) -> String {
    let (n, mb, e) = (eb + sb, sb - 1, we(eb, sb));
    let bias = (1u64 << (eb - 1)) - 1;
    let f = format!("(_ BitVec {n})");
    let infm = ((1u64 << eb) - 1) << mb;
    let nan = c(infm | 1 << (mb - 1), n);
    let mut o = String::new();
    let mag = |x: &str| format!("((_ extract {} 0) {x})", n - 2);
    let sgn = |x: &str| format!("((_ extract {0} {0}) {x})", n - 1);
    let _ = write!(o, "(define-fun isnan ((x {f})) Bool (bvugt {} {}))\n", mag("x"), c(infm, n - 1));
    let _ = write!(o, "(define-fun isinf ((x {f})) Bool (= {} {}))\n", mag("x"), c(infm, n - 1));
    let _ = write!(o, "(define-fun iszero ((x {f})) Bool (= {} {}))\n", mag("x"), c(0, n - 1));
    let _ = write!(o, "(define-fun isneg ((x {f})) Bool (and (= {} #b1) (not (isnan x))))\n", sgn("x"));
    let _ = write!(o, "(define-fun fneg ((x {f})) {f} (ite (isnan x) x (bvxor x {})))\n", c(1 << (n - 1), n));
    let _ = write!(o, "(define-fun fabs ((x {f})) {f} (concat #b0 {}))\n", mag("x"));
    let _ = write!(o, "(define-fun feq ((x {f}) (y {f})) Bool (and (not (isnan x)) (not (isnan y)) (or (= x y) (and (iszero x) (iszero y)))))\n");
    let _ = write!(
        o,
        "(define-fun flt ((x {f}) (y {f})) Bool (and (not (isnan x)) (not (isnan y)) (not (and (iszero x) (iszero y))) (ite (= {sx} #b1) (or (= {sy} #b0) (bvult y x)) (and (= {sy} #b0) (bvult x y)))))\n",
        sx = sgn("x"),
        sy = sgn("y")
    );
    let _ = write!(o, "(define-fun fmin ((x {f}) (y {f})) {f} (ite (isnan x) y (ite (isnan y) x (ite (flt y x) y x))))\n");
    let _ = write!(o, "(define-fun fmax ((x {f}) (y {f})) {f} (ite (isnan x) y (ite (isnan y) x (ite (flt x y) y x))))\n");
    // biased exponent (at least 1) and significand with its hidden bit
    let ef = |x: &str| format!("((_ extract {} {mb}) {x})", n - 2);
    let _ = write!(o, "(define-fun uexp ((x {f})) (_ BitVec {e}) (concat (_ bv0 {}) (ite (= {} {}) {} {})))\n", e - eb, ef("x"), c(0, eb), c(1, eb), ef("x"));
    let _ = write!(o, "(define-fun usig ((x {f})) (_ BitVec {sb}) (concat (ite (= {} {}) #b0 #b1) ((_ extract {} 0) x)))\n", ef("x"), c(0, eb), mb - 1);
    let aw = sb + 4;
    o += &rounder(eb, sb, aw);
    let mw = (2 * sb).max(sb + 2);
    if mw != aw {
        o += &rounder(eb, sb, mw);
    }
    // addition
    {
        let mut l = Lets::new();
        l.set("sw", format!("(bvult {} {})", mag("x"), mag("y")));
        l.set("a", "(ite sw y x)".into());
        l.set("b", "(ite sw x y)".into());
        l.set("d", "(bvsub (uexp a) (uexp b))".into());
        l.set("A", "(concat #b0 (usig a) #b000)".into());
        l.set("B0", "(concat #b0 (usig b) #b000)".into());
        let bb = shift_jam(&mut l, "j", "B0", aw, "d", e);
        l.set("sub", format!("(not (= {} {}))", sgn("a"), sgn("b")));
        l.set("S", format!("(ite sub (bvsub A {bb}) (bvadd A {bb}))"));
        l.set("s", format!("(ite (and sub (= S {})) #b0 {})", c(0, aw), sgn("a")));
        l.set("R", format!("(rnd{aw} s (bvadd (uexp a) {}) S)", c(1, e)));
        let body = format!("(ite (or (isnan x) (isnan y) (and (isinf x) (isinf y) sub)) {nan} (ite (isinf a) a R))");
        let _ = write!(o, "(define-fun fadd ((x {f}) (y {f})) {f} {})\n", l.done(&body));
        let _ = write!(o, "(define-fun fsub ((x {f}) (y {f})) {f} (fadd x (fneg y)))\n");
    }
    // multiplication
    {
        let mut l = Lets::new();
        l.set("s", format!("(bvxor {} {})", sgn("x"), sgn("y")));
        let p = format!("(bvmul (concat (_ bv0 {sb}) (usig x)) (concat (_ bv0 {sb}) (usig y)))");
        l.set("P", if mw == 2 * sb { p } else { format!("(concat {p} (_ bv0 {}))", mw - 2 * sb) });
        l.set("R", format!("(rnd{mw} s (bvsub (bvadd (uexp x) (uexp y)) {}) P)", c(bias - 1, e)));
        l.set("bad", "(or (isnan x) (isnan y) (and (isinf x) (iszero y)) (and (isinf y) (iszero x)))".into());
        let body = format!("(ite bad {nan} (ite (or (isinf x) (isinf y)) (concat s {}) R))", c(infm, n - 1));
        let _ = write!(o, "(define-fun fmul ((x {f}) (y {f})) {f} {})\n", l.done(&body));
    }
    // square root, one result bit at a time
    {
        let mut l = Lets::new();
        // normalise the significand completely
        l.set("S", "(usig x)".into());
        l.set("E", "(uexp x)".into());
        let (mut cur, mut ex) = ("S".to_string(), "E".to_string());
        for k in (0..bits_for(sb)).rev() {
            let sh = 1u32 << k;
            if sh >= sb {
                continue;
            }
            l.set(&format!("g{k}"), format!("(= ((_ extract {} {}) {cur}) {})", sb - 1, sb - sh, c(0, sh)));
            l.set(&format!("n{k}"), format!("(ite g{k} (concat ((_ extract {} 0) {cur}) (_ bv0 {sh})) {cur})", sb - 1 - sh));
            l.set(&format!("e{k}"), format!("(ite g{k} (bvsub {ex} {}) {ex})", c(sh as u64, e)));
            (cur, ex) = (format!("n{k}"), format!("e{k}"));
        }
        // value = cur * 2^(ex - bias - mb); make the unbiased exponent even
        l.set("U", format!("(bvsub {ex} {})", c(bias, e)));
        l.set("odd", "(= ((_ extract 0 0) U) #b1)".into());
        // radicand in [1,4) with t = sb+2 result bits after the first: 2 integer bits, 2*(t-1) fraction bits
        let t = sb + 3;
        let rw = 2 * t;
        let pad = rw - 1 - sb - 1;
        // top two bits are the integer part
        l.set("X", format!("(ite odd (concat {cur} (_ bv0 {})) (concat #b0 {cur} (_ bv0 {})))", pad + 2, pad + 1));
        // restoring square root
        let w = t + 2;
        l.set("q0", c(0, w));
        l.set("m0", c(0, w + 2));
        for i in 0..t {
            let top = rw - 1 - 2 * i;
            l.set(&format!("h{i}"), format!("(concat ((_ extract {} 0) m{i}) ((_ extract {top} {}) X))", w - 1, top - 1));
            l.set(&format!("y{i}"), format!("(concat q{i} #b01)"));
            l.set(&format!("k{i}"), format!("(bvuge h{i} y{i})"));
            l.set(&format!("m{}", i + 1), format!("(ite k{i} (bvsub h{i} y{i}) h{i})"));
            l.set(&format!("q{}", i + 1), format!("(concat ((_ extract {} 0) q{i}) (ite k{i} #b1 #b0))", w - 2));
        }
        // t result bits, the top one set
        l.set("Q", format!("((_ extract {} 0) q{t})", t - 1));
        l.set("J", format!("(bvor Q (concat (_ bv0 {}) (ite (= m{t} {}) #b0 #b1)))", t - 1, c(0, w + 2)));
        let jw = aw;
        l.set("J2", format!("(concat J (_ bv0 {}))", jw - t));
        l.set("E2", format!("(bvadd (bvashr (bvsub U (ite odd {} {})) {}) {})", c(1, e), c(0, e), c(1, e), c(bias, e)));
        l.set("R", format!("(rnd{aw} #b0 E2 J2)"));
        let body = format!("(ite (or (isnan x) (and (isneg x) (not (iszero x)))) {nan} (ite (or (iszero x) (isinf x)) x R))");
        let _ = write!(o, "(define-fun fsqrt ((x {f})) {f} {})\n", l.done(&body));
    }
    // division: quotient with enough bits for any significands, remainder as the sticky bit
    {
        let w = 3 * sb + 3;
        o += &rounder(eb, sb, w);
        let mut l = Lets::new();
        l.set("s", format!("(bvxor {} {})", sgn("x"), sgn("y")));
        l.set("N", format!("(concat #b0 (usig x) (_ bv0 {}))", 2 * sb + 2));
        l.set("D", format!("(concat (_ bv0 {}) (usig y))", w - sb));
        l.set("Q", "(bvudiv N D)".into());
        l.set("J", format!("(bvor Q (concat (_ bv0 {}) (ite (= (bvurem N D) {}) #b0 #b1)))", w - 1, c(0, w)));
        // Q = x/y * 2^(2sb+2); its top bit has weight 2^(w-1-(2sb+2)) = 2^sb
        l.set("R", format!("(rnd{w} s (bvadd (bvsub (uexp x) (uexp y)) {}) J)", c(bias + sb as u64, e)));
        l.set("bad", "(or (isnan x) (isnan y) (and (isinf x) (isinf y)) (and (iszero x) (iszero y)))".into());
        let body = format!("(ite bad {nan} (ite (or (isinf x) (iszero y)) (concat s {}) (ite (or (isinf y) (iszero x)) (concat s {}) R)))", c(infm, n - 1), c(0, n - 1));
        let _ = write!(o, "(define-fun fdiv ((x {f}) (y {f})) {f} {})\n", l.done(&body));
    }
    o
}

/// Queries asking the solver whether a circuit ever differs from its floating-point theory.
pub fn selftest(eb: u32, sb: u32) -> String {
    let n = eb + sb;
    let mut o = String::from("(set-logic QF_BVFP)\n");
    o += &preamble(eb, sb);
    let fp = |x: &str| format!("((_ to_fp {eb} {sb}) {x})");
    let _ = write!(o, "(declare-const x (_ BitVec {n}))\n(declare-const y (_ BitVec {n}))\n");
    let mut ask = |differs: String| {
        let _ = write!(o, "(push)\n(assert {differs})\n(check-sat)\n(pop)\n");
    };
    for (mine, theirs) in [
        ("(fadd x y)", "(fp.add RNE X Y)"),
        ("(fsub x y)", "(fp.sub RNE X Y)"),
        ("(fmul x y)", "(fp.mul RNE X Y)"),
        ("(fdiv x y)", "(fp.div RNE X Y)"),
        ("(fsqrt x)", "(fp.sqrt RNE X)"),
        ("(fneg x)", "(fp.neg X)"),
        ("(fabs x)", "(fp.abs X)"),
    ] {
        let t = theirs.replace('X', &fp("x")).replace('Y', &fp("y"));
        ask(format!("(not (= {} {t}))", fp(mine)));
    }
    for (mine, theirs) in [
        ("(flt x y)", "(fp.lt X Y)"),
        ("(feq x y)", "(fp.eq X Y)"),
        ("(isnan x)", "(fp.isNaN X)"),
        ("(isinf x)", "(fp.isInfinite X)"),
        ("(isneg x)", "(fp.isNegative X)"),
    ] {
        let t = theirs.replace('X', &fp("x")).replace('Y', &fp("y"));
        ask(format!("(not (= {mine} {t}))"));
    }
    o
}
