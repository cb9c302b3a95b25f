//! The selection of a median (moms.rs).
use crate::common::*;
use fnntw::point::Point;

/// A slice is split around a middle, each point is in one part, and the parts are in order.
pub fn split<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let data = cfg.data.make::<S, D>(ctx);
    let n = data.len();
    let axis = ctx.choose("axis", 0, D - 1);
    let chunk = match ctx.choose("chunk", 0, cfg.k.1) {
        0 => None,
        c => Some(c),
    };
    let coords: Vec<[NotNan<S>; D]> = data.iter().map(nn).collect();
    let mut points: Vec<Point<S, D>> = coords.iter().map(|c| Point::new(c)).collect();
    let whole = points.as_ptr_range();
    let (l, m, r) = fnntw::moms::moms_seq(&mut points, chunk, axis);
    let at = |p: &Point<S, D>| -> S { unsafe { p.get_unchecked(axis) }.into_inner() };
    let id = |p: &Point<S, D>| -> usize { (unsafe { p.get_unchecked::<'_>(0) } as *const NotNan<S> as usize - coords.as_ptr() as usize) / std::mem::size_of::<[NotNan<S>; D]>() };
    let mut seen = vec![0; n];
    for p in l.iter().chain(std::iter::once(&*m)).chain(r.iter()) {
        seen[id(p)] += 1;
    }
    ctx.check("a point is lost or repeated", B::k(seen.iter().all(|&c| c == 1)));
    ctx.check(
        "the parts are not those of the slice",
        B::k((n == 1 || l.is_empty() || l.as_ptr() == whole.start) && (r.is_empty() || r.as_ptr_range().end == whole.end) && whole.contains(&(m as *const _))),
    );
    let mid = at(m);
    ctx.check("a point of the left part is beyond the middle", all(l.iter().map(|p| at(p).b_le(mid))));
    ctx.check("a point of the right part is ahead of the middle", all(r.iter().map(|p| at(p).b_ge(mid))));
}
