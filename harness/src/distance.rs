//! The public distance functions (distance.rs).
use crate::common::*;
use fnntw::distance::{calc_dist_sq_to_space, new_best, new_best_short, squared_euclidean, squared_euclidean_axis};
use fnntw::point::Point;

/// Distances between two points, and their parts along and across an axis.
pub fn distances<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let (lo, hi) = cfg.data.range();
    let a = point::<S, D>(ctx, "a", lo, hi);
    let b = point::<S, D>(ctx, "b", lo, hi);
    let axis = ctx.choose("axis", 0, D - 1);
    let (na, nb) = (nn(&a), nn(&b));
    let want = d2(&a, &b);
    let along = (a[axis] - b[axis]) * (a[axis] - b[axis]);
    let x = squared_euclidean(&na, &nb);
    ctx.check("the distance of two points is wrong", x.b_eq(want));
    ctx.check("the distance depends on the order of the points", x.b_eq(squared_euclidean(&nb, &na)));
    ctx.check("the distance of a point to itself is not zero", squared_euclidean(&na, &na).b_eq(S::lit(0.0)));
    let (all, ax, non) = squared_euclidean_axis(&na, &nb, axis);
    ctx.check("the distance along the axis is wrong", ax.b_eq(along));
    ctx.check("the distance across the axis is wrong", non.b_eq(want - along));
    ctx.check("the parts do not add up to the distance", all.b_eq(want));
    let (all, ax, non) = squared_euclidean_axis(&na, &nb, D);
    ctx.check("an axis that is none has a part", ax.b_eq(S::lit(0.0)) & all.b_eq(want) & non.b_eq(want));
}

/// The distance to a box is that of the nearest place in it.
pub fn space<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let (lo, hi) = cfg.data.range();
    let q = point::<S, D>(ctx, "q", cfg.q.0, cfg.q.1);
    let l = point::<S, D>(ctx, "lower", lo, hi);
    let u = point::<S, D>(ctx, "upper", lo, hi);
    let p = point::<S, D>(ctx, "p", lo, hi);
    for d in 0..D {
        ctx.assume(l[d].b_le(p[d]) & p[d].b_le(u[d]));
    }
    let x = calc_dist_sq_to_space(&nn(&q), &nn(&l), &nn(&u));
    ctx.check("a place in the box is nearer than the box", x.b_le(d2(&q, &p)));
    let inside = all((0..D).map(|d| l[d].b_le(q[d]) & q[d].b_le(u[d])));
    ctx.check("the distance to the box is zero, or not, by mistake", x.b_eq(S::lit(0.0)).iff(inside));
    // what is nearest to the query in each dimension
    let near: [S; D] = std::array::from_fn(|d| if q[d].b_lt(l[d]).branch() { l[d] } else if q[d].b_gt(u[d]).branch() { u[d] } else { q[d] });
    ctx.check("the distance to the box is not that of its nearest place", x.b_eq(d2(&q, &near)));
}

/// Updating the best candidate so far.
pub fn best<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let n = cfg.data.n();
    let data = cfg.data.make::<S, D>(ctx);
    let q = point::<S, D>(ctx, "q", cfg.q.0, cfg.q.1);
    // the distance so far need not be that of the candidate so far
    let start = ctx.num("best", 0, cfg.k.1 as i64);
    let nq = nn(&q);
    let coords: Vec<[NotNan<S>; D]> = data.iter().map(nn).collect();
    let points: Vec<Point<S, D>> = coords.iter().map(|c| Point::new(c)).collect();
    let ds: Vec<S> = data.iter().map(|p| d2(p, &q)).collect();

    let (mut d, mut c) = (start, &points[0]);
    let (mut short_d, mut short_c) = (start, &coords[0]);
    for i in 1..n {
        let before = d;
        new_best(&nq, &points[i], &mut d, &mut c);
        let won = ds[i].b_lt(before);
        ctx.check("the distance is not the smaller one", (won & d.b_eq(ds[i])) | (!won & d.b_eq(before)));
        if std::ptr::eq(c, &points[i]) {
            ctx.check("a candidate that is not nearer was taken", won);
        } else {
            ctx.check("a nearer candidate was not taken", !won);
        }
        let before = short_d;
        let old = short_c as *const _;
        let took = new_best_short(&nq, &coords[i], &mut short_d, &mut short_c);
        let won = ds[i].b_lt(before);
        ctx.check("short: the distance is not the smaller one", (won & short_d.b_eq(ds[i])) | (!won & short_d.b_eq(before)));
        ctx.check("short: the candidate and the answer differ", B::k(std::ptr::eq(short_c, if took { &coords[i] as *const _ } else { old })));
        ctx.check("short: the answer is wrong", if took { won } else { !won });
    }
}

/// Under rounding: what searching relies on.
pub fn rounded<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let mut finite = |ctx: &mut Ctx<S>, name: &str| -> [S; D] {
        std::array::from_fn(|d| {
            let x: S = ctx.any(&format!("{name}_{d}"));
            ctx.assume(!x.b_nan() & !x.b_inf());
            x
        })
    };
    let p = finite(ctx, "p");
    // (to compare two products of wide unknowns is too hard: then from a list)
    const LIST: [f64; 9] = [f64::MIN, -1e19, -1.5, -1e-23, 0.0, 1e-23, 1.0, 1e19, f64::MAX];
    let known = |ctx: &mut Ctx<S>, name: &str| -> [S; D] {
        let most = S::max_value();
        std::array::from_fn(|d| S::lit(LIST[ctx.choose(&format!("{name}_{d}"), 0, LIST.len() - 1)]).min(most).max(-most))
    };
    let q = if cfg.api == 2 { known(ctx, "q") } else { finite(ctx, "q") };
    let (nq, np) = (nn(&q), nn(&p));
    let x = squared_euclidean(&nq, &np);
    let zero = S::lit(0.0);
    if cfg.api == 0 {
        ctx.check("a distance is not a number", !x.b_nan());
        ctx.check("a distance is negative", x.b_ge(zero));
        ctx.check("the distance depends on the order of the points", x.b_eq(squared_euclidean(&np, &nq)));
        for axis in 0..D {
            let (all, ax, non) = squared_euclidean_axis(&nq, &np, axis);
            ctx.check("a part of the distance is not a number or negative", !all.b_nan() & ax.b_ge(zero) & non.b_ge(zero));
            ctx.check("a part is longer than the distance", ax.b_le(all) & non.b_le(all));
        }
        return;
    }
    let l = if cfg.api == 2 { known(ctx, "lower") } else { finite(ctx, "lower") };
    let u = if cfg.api == 2 { known(ctx, "upper") } else { finite(ctx, "upper") };
    for d in 0..D {
        ctx.assume(l[d].b_le(p[d]) & p[d].b_le(u[d]));
    }
    let y = calc_dist_sq_to_space(&nq, &nn(&l), &nn(&u));
    ctx.check("the distance to a box is not a number or negative", y.b_ge(zero));
    ctx.check("a place in the box is nearer than the box", y.b_le(x));
    let inside = all((0..D).map(|d| l[d].b_le(q[d]) & q[d].b_le(u[d])));
    ctx.check("the distance to the box around a place is not zero", inside.implies(y.b_eq(zero)));
}
