//! What is accepted and what is rejected.
use crate::common::*;
use crate::queries::*;
use fnntw::utils::FnntwError;

fn bad<S: Scalar, const D: usize>(p: &[S; D]) -> B {
    any(p.iter().map(|x| x.b_nan() | x.b_inf()))
}

fn anything<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, name: &str) -> [S; D] {
    std::array::from_fn(|d| ctx.any(&format!("{name}_{d}")))
}

/// The result of validating `ps` (in whatever order): accepted iff all are finite, else the error
/// carries one of the offending points.
fn judge<S: Scalar, R, const D: usize>(ctx: &mut Ctx<S>, what: &str, r: &Result<R, FnntwError<S>>, ps: &[[S; D]]) {
    let some_bad = any(ps.iter().map(bad));
    match r {
        Ok(_) => ctx.check(&format!("{what}: nan or infinity was accepted"), !some_bad),
        Err(FnntwError::InvalidInputData { data_point }) => {
            ctx.check(&format!("{what}: finite values were rejected"), some_bad);
            ctx.check(&format!("{what}: the error does not name an offending point"), {
                if data_point.len() == D {
                    any(ps.iter().map(|p| bad(p) & all((0..D).map(|d| p[d].b_same(data_point[d])))))
                } else {
                    B::k(false)
                }
            });
        }
        Err(_) => ctx.fail(&format!("{what}: wrong error")),
    }
}

/// Building from arbitrary values.
pub fn build_any<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let n = ctx.choose("n", 0, cfg.data.n());
    let data: Vec<[S; D]> = (0..n).map(|i| anything(ctx, &format!("p{i}"))).collect();
    let leaf = ctx.choose("leafsize", cfg.leaf.0, cfg.leaf.1);
    let how = ctx.choose("build", 0, 2);
    let r = match how {
        0 => Tree::<S, D>::new(&data, leaf),
        1 => Tree::<S, D>::new_parallel(&data, leaf, 0),
        _ => Tree::<S, D>::new_parallel(&data, leaf, 2),
    };
    if n == 0 {
        ctx.check("empty data was not rejected as such", B::k(matches!(r, Err(FnntwError::ZeroLengthInputData))));
        return;
    }
    judge(ctx, "build", &r, &data);
    if let Ok(t) = r {
        ctx.check("the data is not the input", B::k(std::ptr::eq(t.get_data().as_ptr(), data.as_ptr()) && t.get_data().len() == n));
    }
}

/// One of many points is arbitrary, the others are fine.
pub fn build_one_any<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let mut data: Vec<[S; D]>;
    if cfg.sizes.is_empty() {
        let n = cfg.data.n();
        data = concrete::<D>(n, 0, 0, 6).into_iter().map(|p| p.map(|x| S::lit(x as f64))).collect();
        let at = ctx.choose("at", 0, n - 1);
        let dim = ctx.choose("dim", 0, D - 1);
        data[at][dim] = ctx.any("x");
    } else {
        let n = cfg.sizes[ctx.choose("size", 0, cfg.sizes.len() - 1)];
        data = concrete::<D>(n, 0, 0, 1000).into_iter().map(|p| p.map(|x| S::lit(x as f64))).collect();
        let at = places(n);
        let at = at[ctx.choose("at", 0, at.len() - 1)];
        let dim = ctx.choose("dim", 0, D - 1);
        if ctx.choose("fine", 0, 1) == 0 {
            let x: S = ctx.any("x");
            ctx.assume(bad(&[x]));
            data[at][dim] = x;
        }
    }
    let leaf = ctx.choose("leafsize", cfg.leaf.0, cfg.leaf.1);
    let r = match cfg.par {
        None => Tree::<S, D>::new(&data, leaf),
        Some((p, _)) => Tree::<S, D>::new_parallel(&data, leaf, p),
    };
    judge(ctx, "build", &r, &data);
}

/// Queries with arbitrary values, through every entry point.
pub fn query_any<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let data: Vec<[S; D]> = concrete::<D>(cfg.data.n(), 0, 0, 3).into_iter().map(|p| p.map(|x| S::lit(x as f64))).collect();
    let mut q: [S; D] = anything(ctx, "q");
    let k = ctx.choose("k", cfg.k.0, cfg.k.1);
    let per = ctx.choose("periodic", 0, if cfg.sizes.is_empty() { 1 } else { 0 });
    if cfg.api == 1 {
        // every nan and infinity; of the finite values only some (arithmetic in wide formats is hard)
        match ctx.choose("finite", 0, if cfg.sizes.is_empty() { 3 } else { 1 }) {
            0 => ctx.assume(bad(&q)),
            i => q = [S::lit([0.0, 1.0, 3.5][i - 1]); D],
        }
    }
    let mut tree = build(ctx, cfg, &data);
    if per == 1 {
        tree = tree.with_boxsize(&[S::lit(4.0); D]).expect("valid box was rejected");
        // inside the box (negative zero counts as outside), or not a number, or infinite
        for d in 0..D {
            ctx.assume(bad(&[q[d]]) | (q[d].b_ge(S::lit(0.0)) & !q[d].b_neg() & q[d].b_le(S::lit(4.0))));
        }
    }
    let entry = ctx.choose("entry", if cfg.sizes.is_empty() { 0 } else { 2 }, if cfg!(all(feature = "parallel", feature = "no-position")) { 4 } else { 1 });
    match entry {
        0 => {
            let r = tree.query_nearest(&q);
            judge(ctx, "nearest", &r, &[q]);
        }
        1 => {
            let r = tree.query_nearest_k(&q, k);
            judge(ctx, "k nearest", &r, &[q]);
        }
        _ => {
            #[cfg(all(feature = "parallel", feature = "no-position"))]
            {
                let (nq, at) = if cfg.sizes.is_empty() {
                    let nq = ctx.choose("queries", 0, cfg.nq);
                    (nq, ctx.choose("at", 0, nq.max(1) - 1))
                } else {
                    let nq = cfg.sizes[ctx.choose("size", 0, cfg.sizes.len() - 1)];
                    let at = places(nq);
                    (nq, at[ctx.choose("at", 0, at.len() - 1)])
                };
                let mut qs: Vec<[S; D]> = vec![[S::lit(1.0); D]; nq];
                if nq > 0 {
                    qs[at] = q;
                }
                let (w, axis) = (k.min(data.len()) * nq, ctx.choose("axis", 0, D));
                let len = |r: &Result<(Vec<S>, Vec<u64>), FnntwError<S>>| r.as_ref().map_or(w, |x| x.0.len());
                match entry {
                    2 => {
                        let r = tree.query_nearest_k_parallel(&qs, k);
                        judge(ctx, "batch", &r, &qs);
                        ctx.check("batch: wrong number of results", B::k(len(&r) == w));
                    }
                    3 => {
                        let r = tree.query_nearest_k_parallel_with(&qs, k);
                        judge(ctx, "batch with buffers", &r, &qs);
                        ctx.check("batch with buffers: wrong number of results", B::k(len(&r) == w));
                    }
                    _ => {
                        let r = tree.query_nearest_k_parallel_axis(&qs, k, axis);
                        if axis >= D {
                            ctx.check("an axis that does not exist was accepted", B::k(matches!(r, Err(FnntwError::InvalidAxis) | Err(FnntwError::InvalidInputData { .. }))));
                        } else {
                            judge(ctx, "axis batch", &r, &qs);
                            if let Ok(r) = &r {
                                ctx.check("axis batch: wrong number of results", B::k(r.0.len() == w && r.1.len() == w));
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Attaching a box to many points, one of which may be anywhere.
pub fn box_one_any<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let n = cfg.sizes[ctx.choose("size", 0, cfg.sizes.len() - 1)];
    let mut data: Vec<[S; D]> = concrete::<D>(n, 0, 1, 9).into_iter().map(|p| p.map(|x| S::lit(x as f64))).collect();
    let at = places(n);
    let at = at[ctx.choose("at", 0, at.len() - 1)];
    let dim = ctx.choose("dim", 0, D - 1);
    let x: S = ctx.any("x");
    ctx.assume(!bad(&[x]));
    match ctx.choose("where", 0, 2) {
        // the least of all, the greatest of all, or in the middle
        0 => ctx.assume(x.b_lt(S::lit(1.0))),
        1 => ctx.assume(x.b_gt(S::lit(9.0))),
        _ => ctx.assume(x.b_eq(S::lit(5.0))),
    }
    data[at][dim] = x;
    attach(ctx, cfg, data);
}

/// Attaching a box.
pub fn box_any<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let n = cfg.data.n();
    let data: Vec<[S; D]> = (0..n).map(|i| point(ctx, &format!("p{i}"), 0, 0)).collect();
    attach(ctx, cfg, data);
}

fn attach<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg, data: Vec<[S; D]>) {
    let n = data.len();
    let l: [S; D] = anything(ctx, "box");
    let tree = build(ctx, cfg, &data);
    let r = tree.with_boxsize(&l);
    let zero = S::lit(0.0);
    // negative zero is a boundary case that may be treated either way
    let negative = any(data.iter().flat_map(|p| p.iter().map(|x| x.b_lt(zero))));
    let signed = any(data.iter().flat_map(|p| p.iter().map(|x| x.b_lt(zero) | x.b_neg())));
    let small = any(data.iter().flat_map(|p| (0..D).map(|d| p[d].b_gt(l[d]))));
    let invalid = any(l.iter().map(|x| x.b_nan() | x.b_inf()));
    match r {
        Ok(t) => {
            ctx.check("negative data was accepted", !negative);
            ctx.check("a box smaller than the data was accepted", !small);
            ctx.check("an infinite or nan box was accepted", !invalid);
            ctx.check("the data changed", B::k(t.get_data().len() == n));
        }
        Err(FnntwError::NegativeDataPeriodicQuery) => ctx.check("reported negative data without any", signed),
        Err(FnntwError::SmallBoxsize) => ctx.check("reported a small box that holds the data", small),
        Err(FnntwError::InvalidBoxsize) => ctx.check("reported an invalid box that is finite", invalid),
        Err(_) => ctx.fail("wrong error"),
    }
}

/// A box that was refused leaves nothing behind, and a second box replaces the first.
#[allow(dead_code)]
pub fn box_twice<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let data = cfg.data.make::<S, D>(ctx);
    let (lo, hi) = cfg.boxsize.expect("box");
    let l1 = point::<S, D>(ctx, "first", lo, hi);
    let l2 = point::<S, D>(ctx, "box", lo, hi);
    for p in &data {
        for d in 0..D {
            ctx.assume(p[d].b_ge(S::lit(0.0)) & p[d].b_le(l1[d]) & p[d].b_le(l2[d]));
        }
    }
    let q = point::<S, D>(ctx, "q", cfg.q.0, cfg.q.1);
    for d in 0..D {
        ctx.assume(q[d].b_ge(S::lit(0.0)) & q[d].b_le(l2[d]));
    }
    let k = ctx.choose("k", cfg.k.0, cfg.k.1);
    let tree = build(ctx, cfg, &data).with_boxsize(&l1).expect("valid box was rejected").with_boxsize(&l2).expect("valid box was rejected");
    let r = tree.query_nearest_k(&q, k).expect("valid query was rejected");
    let ds = image_distances(ctx, false, &data, &q, &l2);
    check_row_periodic(ctx, &row_of(r), &data, &ds, k);
}
