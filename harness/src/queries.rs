//! Nearest-neighbour queries against their definitions.
use crate::common::*;
use crate::scenario;

fn distances<S: Scalar, const D: usize>(data: &[[S; D]], q: &[S; D]) -> Vec<S> {
    data.iter().map(|p| d2(p, q)).collect()
}

/// `query_nearest`: the reported point exists, its distance is the reported one, none is nearer.
pub fn nn1<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let data = cfg.data.make::<S, D>(ctx);
    let q = point::<S, D>(ctx, "q", cfg.q.0, cfg.q.1);
    let tree = build(ctx, cfg, &data);
    let r = tree.query_nearest(&q).expect("valid query was rejected");
    let (dist, idx) = (r.0, r.1);
    if idx >= data.len() as u64 {
        ctx.fail("index out of range");
        return;
    }
    if !dist.sane() {
        ctx.fail("distance never written");
        return;
    }
    let i = idx as usize;
    let ds = distances(&data, &q);
    ctx.check("distance is not that of the reported point", dist.b_eq(reported(ds[i])));
    ctx.check("a nearer point exists", at_most(ds[i], ds.iter().copied()));
    #[cfg(not(feature = "no-position"))]
    {
        for d in 0..D {
            ctx.check("position is not that of the reported point", r.2[d].into_inner().b_eq(data[i][d]));
        }
    }
    ctx.see(dist.conc());
    ctx.see(idx as f64);
}

/// A k-nearest row against the definition, given all squared distances.
pub fn check_row<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, row: &Row<S, D>, data: &[[S; D]], ds: &[S], k: usize) {
    let want = k.min(ds.len());
    if row.d.len() != want {
        ctx.fail("wrong number of neighbours");
        return;
    }
    if row.d.iter().any(|d| !d.sane()) {
        ctx.fail("distance never written");
        return;
    }
    for d in &row.d {
        ctx.see(d.conc());
    }
    for w in row.d.windows(2) {
        ctx.check("distances not ascending", w[0].b_le(w[1]));
    }
    if let Some(ix) = &row.i {
        if ix.len() != want {
            ctx.fail("wrong number of indices");
            return;
        }
        if ix.iter().any(|i| *i >= ds.len() as u64) {
            ctx.fail("index out of range");
            return;
        }
        let mut seen = vec![false; ds.len()];
        for i in ix {
            ctx.see(*i as f64);
            if seen[*i as usize] {
                ctx.fail("a point is reported twice");
                return;
            }
            seen[*i as usize] = true;
        }
        for (d, i) in row.d.iter().zip(ix) {
            ctx.check("distance is not that of the reported point", d.b_eq(reported(ds[*i as usize])));
        }
        if want > 0 {
            let last = ds[ix[want - 1] as usize];
            ctx.check("a nearer point was left out", at_most(last, (0..ds.len()).filter(|j| !seen[*j]).map(|j| ds[j])));
        }
        if let Some(ps) = &row.p {
            if ps.len() != want {
                ctx.fail("wrong number of positions");
                return;
            }
            for (p, i) in ps.iter().zip(ix) {
                for d in 0..D {
                    ctx.check("position is not that of the reported point", p[d].b_eq(data[*i as usize][d]));
                }
            }
        }
    } else {
        same_multiset_prefix(ctx, &row.d, &ds.iter().map(|d| reported(*d)).collect::<Vec<_>>());
    }
}

/// `got` (ascending) are the got.len() smallest of `of`, with multiplicity.
pub fn same_multiset_prefix<S: Scalar>(ctx: &mut Ctx<S>, got: &[S], of: &[S]) {
    use symrt::engine::Cnt;
    for (r, g) in got.iter().enumerate() {
        // fewer than or exactly r values lie below g, and at least r+1 do not exceed it
        let mut less = Cnt::zero();
        let mut le = Cnt::zero();
        for d in of {
            less = less.add(d.b_lt(*g));
            le = le.add(d.b_le(*g));
        }
        ctx.check("a nearer value was left out", less.le(r as u64));
        ctx.check("a reported value is not the distance of any remaining point", le.ge(r as u64 + 1));
        ctx.check("a reported value is nobody's distance", any(of.iter().map(|d| d.b_eq(*g))));
    }
}

pub fn row_of<S: Scalar, const D: usize>(r: fnntw::utils::QueryKResult<'_, S, D>) -> Row<S, D> {
    #[cfg(feature = "no-position")]
    return Row { d: r.0, i: Some(r.1), p: None };
    #[cfg(not(feature = "no-position"))]
    return Row { d: r.0, i: Some(r.1), p: Some(r.2.into_iter().map(|p| p.map(|x| x.into_inner())).collect()) };
}

pub fn knn<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let data = cfg.data.make::<S, D>(ctx);
    let q = point::<S, D>(ctx, "q", cfg.q.0, cfg.q.1);
    let k = ctx.choose("k", cfg.k.0, cfg.k.1);
    let tree = build(ctx, cfg, &data);
    let r = tree.query_nearest_k(&q, k).expect("valid query was rejected");
    let ds = distances(&data, &q);
    check_row(ctx, &row_of(r), &data, &ds, k);
}


/// The 2^D images of the query that a periodic query considers: each coordinate as it is or moved
/// by one box length towards the other side.
pub fn images<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, nearest: bool, q: &[S; D], l: &[S; D]) -> Vec<[S; D]> {
    let mut moved = *q;
    for d in 0..D {
        // in the exact middle both sides are equally far; it makes no difference to the nearest one
        if !nearest {
            // (in a box without extent all images are the query itself)
            ctx.assume(!q[d].b_eq(l[d] / S::lit(2.0)) | l[d].b_eq(S::lit(0.0)));
        }
        let low = q[d].b_lt(l[d] / S::lit(2.0)).branch();
        moved[d] = if low { q[d] + l[d] } else { q[d] - l[d] };
    }
    (0..1usize << D).map(|m| std::array::from_fn(|d| if m >> d & 1 == 1 { moved[d] } else { q[d] })).collect()
}

/// A query inside a box that holds all the data.
pub fn in_box<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg, data: &[[S; D]]) -> [S; D] {
    let (lo, hi) = cfg.boxsize.expect("box");
    let l: [S; D] = std::array::from_fn(|d| num(ctx, &format!("box_{d}"), lo + d as i64 * cfg.oblong, hi + d as i64 * cfg.oblong));
    for p in data {
        for d in 0..D {
            ctx.assume(p[d].b_ge(S::lit(0.0)) & p[d].b_le(l[d]));
        }
    }
    l
}

/// Squared distance of each point to each image, image-major.
pub fn image_distances<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, nearest: bool, data: &[[S; D]], q: &[S; D], l: &[S; D]) -> Vec<S> {
    images(ctx, nearest, q, l).iter().flat_map(|im| data.iter().map(|p| d2(im, p)).collect::<Vec<_>>()).collect()
}

/// Periodic `query_nearest`.
pub fn pnn1<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let data = cfg.data.make::<S, D>(ctx);
    let l = in_box(ctx, cfg, &data);
    let q = point::<S, D>(ctx, "q", cfg.q.0, cfg.q.1);
    for d in 0..D {
        ctx.assume(q[d].b_ge(S::lit(0.0)) & q[d].b_le(l[d]));
    }
    let tree = build(ctx, cfg, &data).with_boxsize(&l).expect("valid box was rejected");
    let r = tree.query_nearest(&q).expect("valid query was rejected");
    let (dist, idx) = (r.0, r.1);
    if idx >= data.len() as u64 {
        ctx.fail("index out of range");
        return;
    }
    if !dist.sane() {
        ctx.fail("distance never written");
        return;
    }
    ctx.see(dist.conc());
    ctx.see(idx as f64);
    let ds = image_distances(ctx, true, &data, &q, &l);
    let n = data.len();
    // the nearest over all images, by comparing with each of them
    let mine = |j: usize| ds.iter().skip(j).step_by(n).copied().collect::<Vec<S>>();
    let own = mine(idx as usize);
    ctx.check("distance is not that of an image of the reported point", any(own.iter().map(|d| dist.b_eq(reported(*d)))));
    ctx.check("a nearer image of a point exists", at_most(dist, ds.iter().map(|d| reported(*d))));
    #[cfg(not(feature = "no-position"))]
    for d in 0..D {
        ctx.check("position is not that of the reported point", r.2[d].into_inner().b_eq(data[idx as usize][d]));
    }
}

/// A periodic k-nearest row: the k smallest distances over all (point, image) pairs.
pub fn check_row_periodic<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, row: &Row<S, D>, data: &[[S; D]], ds: &[S], k: usize) {
    let n = data.len();
    let want = k.min(n);
    if row.d.len() != want {
        ctx.fail("wrong number of neighbours");
        return;
    }
    if row.d.iter().any(|d| !d.sane()) {
        ctx.fail("distance never written");
        return;
    }
    for d in &row.d {
        ctx.see(d.conc());
    }
    for w in row.d.windows(2) {
        ctx.check("distances not ascending", w[0].b_le(w[1]));
    }
    let rs: Vec<S> = ds.iter().map(|d| reported(*d)).collect();
    same_multiset_prefix(ctx, &row.d, &rs);
    if let Some(ix) = &row.i {
        if ix.len() != want {
            ctx.fail("wrong number of indices");
            return;
        }
        if ix.iter().any(|i| *i >= n as u64) {
            ctx.fail("index out of range");
            return;
        }
        for (d, i) in row.d.iter().zip(ix) {
            ctx.check("distance is not that of an image of the reported point", any(rs.iter().skip(*i as usize).step_by(n).map(|x| d.b_eq(*x))));
        }
        // no image is used twice: a point is not reported more often at a distance than it has images there
        for (a, (d, i)) in row.d.iter().zip(ix).enumerate() {
            let same: Vec<usize> = (0..want).filter(|b| *b != a && ix[*b] == *i).collect();
            if !same.is_empty() {
                use symrt::engine::Cnt;
                let mut got = Cnt::zero();
                for b in &same {
                    got = got.add(row.d[*b].b_eq(*d));
                }
                let mut have = Cnt::zero();
                for x in rs.iter().skip(*i as usize).step_by(n) {
                    have = have.add(d.b_eq(*x));
                }
                for c in 1..=same.len() as u64 {
                    ctx.check("an image is reported twice", got.ge(c).implies(have.ge(c + 1)));
                }
            }
        }
        if let Some(ps) = &row.p {
            if ps.len() != want {
                ctx.fail("wrong number of positions");
                return;
            }
            for (p, i) in ps.iter().zip(ix) {
                for d in 0..D {
                    ctx.check("position is not that of the reported point", p[d].b_eq(data[*i as usize][d]));
                }
            }
        }
    }
}

pub fn pknn<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let data = cfg.data.make::<S, D>(ctx);
    let l = in_box(ctx, cfg, &data);
    let q = point::<S, D>(ctx, "q", cfg.q.0, cfg.q.1);
    for d in 0..D {
        ctx.assume(q[d].b_ge(S::lit(0.0)) & q[d].b_le(l[d]));
    }
    let k = ctx.choose("k", cfg.k.0, cfg.k.1);
    let tree = build(ctx, cfg, &data).with_boxsize(&l).expect("valid box was rejected");
    let r = tree.query_nearest_k(&q, k).expect("valid query was rejected");
    let ds = image_distances(ctx, false, &data, &q, &l);
    check_row_periodic(ctx, &row_of(r), &data, &ds, k);
}

/// The squared distances a query is measured against, periodic or not.
pub fn reference<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, data: &[[S; D]], q: &[S; D], l: Option<&[S; D]>) -> Vec<S> {
    match l {
        None => distances(data, q),
        Some(l) => image_distances(ctx, false, data, q, l),
    }
}

#[cfg(all(feature = "parallel", feature = "no-position"))]
fn batch_call<S: Scalar, const D: usize>(tree: &Tree<S, D>, qs: &[[S; D]], k: usize, api: u32) -> Result<(Vec<S>, Vec<u64>), String> {
    match api {
        0 => tree.query_nearest_k_parallel(qs, k).map_err(|e| format!("{e:?}")),
        _ => tree.query_nearest_k_parallel_with(qs, k).map_err(|e| format!("{e:?}")),
    }
}

/// The batch as it is, or with some of the queries in it several times.
pub fn arrange<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg, qs: Vec<[S; D]>) -> Vec<[S; D]> {
    if !cfg.again || qs.is_empty() {
        return qs;
    }
    let last = qs[qs.len() - 1];
    match ctx.choose("again", 0, 6) {
        0 => qs,
        // each twice, or three times, in a row
        n @ (1 | 2) => qs.iter().flat_map(|q| vec![*q; n + 1]).collect(),
        // all of them twice
        3 => [qs.clone(), qs].concat(),
        4 => qs.iter().chain(qs.iter().rev()).copied().collect(),
        // the last one many times, at the end or all over
        5 => [qs, vec![last; 5]].concat(),
        _ => [vec![last; 4], qs.iter().flat_map(|q| [*q, last]).collect()].concat(),
    }
}

/// Batch queries: row j answers query j, whatever the other queries and however they are scheduled.
#[cfg(all(feature = "parallel", feature = "no-position"))]
pub fn batch<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let data = cfg.data.make::<S, D>(ctx);
    let l = cfg.boxsize.map(|_| in_box(ctx, cfg, &data));
    let mut qs: Vec<[S; D]> = vec![];
    // `extra` concrete queries first, then symbolic ones
    let extra = match cfg.sizes.len() {
        0 => cfg.extra as usize,
        n => cfg.sizes[ctx.choose("size", 0, n - 1)],
    };
    for p in concrete::<D>(extra, 7, cfg.q.0, cfg.q.1) {
        qs.push(p.map(lit));
    }
    for j in 0..cfg.nq {
        qs.push(point::<S, D>(ctx, &format!("q{j}"), cfg.q.0, cfg.q.1));
    }
    if let Some(l) = &l {
        for q in &qs {
            for d in 0..D {
                ctx.assume(q[d].b_ge(S::lit(0.0)) & q[d].b_le(l[d]));
            }
        }
    }
    let qs = arrange(ctx, cfg, qs);
    let k = ctx.choose("k", cfg.k.0, cfg.k.1);
    let mut tree = build(ctx, cfg, &data);
    if let Some(l) = &l {
        tree = tree.with_boxsize(l).expect("valid box was rejected");
    }
    let api = if cfg.api == 9 { ctx.choose("api", 0, 1) as u32 } else { cfg.api };
    let run = Cfg { par: None, ..cfg.clone() };
    let (d, i) = exec(ctx, &run, || batch_call(&tree, &qs, k, api)).expect("valid queries were rejected");
    let w = k.min(data.len());
    if d.len() != w * qs.len() || i.len() != w * qs.len() {
        ctx.fail("wrong number of results");
        return;
    }
    for (j, q) in qs.iter().enumerate() {
        let row = Row { d: d[j * w..(j + 1) * w].to_vec(), i: Some(i[j * w..(j + 1) * w].to_vec()), p: None };
        let ds = reference(ctx, &data, q, l.as_ref());
        if l.is_some() {
            check_row_periodic(ctx, &row, &data, &ds, k);
        } else {
            check_row(ctx, &row, &data, &ds, k);
        }
    }
}

/// Axis queries: the k nearest, each distance split into its component along the axis and the rest.
#[cfg(all(feature = "parallel", feature = "no-position"))]
pub fn axis<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let data = cfg.data.make::<S, D>(ctx);
    let l = cfg.boxsize.map(|_| in_box(ctx, cfg, &data));
    let mut qs: Vec<[S; D]> = vec![];
    let extra = match cfg.sizes.len() {
        0 => cfg.extra as usize,
        n => cfg.sizes[ctx.choose("size", 0, n - 1)],
    };
    for p in concrete::<D>(extra, 7, cfg.q.0, cfg.q.1) {
        qs.push(p.map(lit));
    }
    for j in 0..cfg.nq {
        qs.push(point::<S, D>(ctx, &format!("q{j}"), cfg.q.0, cfg.q.1));
    }
    if let Some(l) = &l {
        for q in &qs {
            for d in 0..D {
                ctx.assume(q[d].b_ge(S::lit(0.0)) & q[d].b_le(l[d]));
            }
        }
    }
    let qs = arrange(ctx, cfg, qs);
    let k = ctx.choose("k", cfg.k.0, cfg.k.1);
    let ax = ctx.choose("axis", cfg.axis.0, cfg.axis.1);
    let mut tree = build(ctx, cfg, &data);
    if let Some(l) = &l {
        tree = tree.with_boxsize(l).expect("valid box was rejected");
    }
    let r = exec(ctx, cfg, || tree.query_nearest_k_parallel_axis(&qs, k, ax));
    if ax >= D {
        ctx.check("an axis that does not exist was accepted", B::k(r.is_err()));
        return;
    }
    let r = r.expect("valid queries were rejected");
    let w = k.min(data.len());
    if r.0.len() != w * qs.len() || r.1.len() != w * qs.len() {
        ctx.fail("wrong number of results");
        return;
    }
    #[cfg(not(feature = "no-index"))]
    if r.2.len() != w * qs.len() {
        ctx.fail("wrong number of indices");
        return;
    }
    if r.0.iter().chain(&r.1).any(|x| !x.sane()) {
        ctx.fail("distance never written");
        return;
    }
    for (j, q) in qs.iter().enumerate() {
        let row = j * w..(j + 1) * w;
        #[cfg(not(feature = "no-index"))]
        let ix = Some(&r.2[row.clone()]);
        #[cfg(feature = "no-index")]
        let ix: Option<&[u64]> = None;
        axis_row(ctx, &r.0[row.clone()], &r.1[row], ix, &data, q, l.as_ref(), ax);
    }
}

/// One row of an axis query against the definition: entry m is the decomposition of a neighbour of
/// rank m, and no neighbour is used twice.
#[allow(clippy::too_many_arguments)]
pub fn axis_row<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, along: &[S], rest: &[S], ix: Option<&[u64]>, data: &[[S; D]], q: &[S; D], l: Option<&[S; D]>, ax: usize) {
    use symrt::engine::Cnt;
    let n = data.len();
    let ims = match l {
        None => vec![*q],
        Some(l) => images(ctx, false, q, l),
    };
    // (total, along the axis, the rest) for every (image, point)
    let mut refs: Vec<(S, S, S)> = vec![];
    for im in &ims {
        for p in data {
            let (mut a, mut b) = (S::lit(0.0), S::lit(0.0));
            for d in 0..D {
                let t = (im[d] - p[d]) * (im[d] - p[d]);
                if d == ax {
                    a = a + t;
                } else {
                    b = b + t;
                }
            }
            refs.push((a + b, reported(a), reported(b)));
        }
    }
    let rank: Vec<(Cnt, Cnt)> = refs
        .iter()
        .map(|x| {
            let (mut lt, mut le) = (Cnt::zero(), Cnt::zero());
            for y in &refs {
                lt = lt.add(y.0.b_lt(x.0));
                le = le.add(y.0.b_le(x.0));
            }
            (lt, le)
        })
        .collect();
    let w = along.len();
    for m in 0..w {
        let (a, b) = (along[m], rest[m]);
        ctx.see(a.conc());
        ctx.see(b.conc());
        let mut cand: Vec<usize> = (0..refs.len()).collect();
        if let Some(ix) = ix {
            ctx.see(ix[m] as f64);
            if ix[m] >= n as u64 {
                ctx.fail("index out of range");
                return;
            }
            cand.retain(|c| c % n == ix[m] as usize);
        }
        let hit = any(cand.iter().map(|c| a.b_eq(refs[*c].1) & b.b_eq(refs[*c].2) & rank[*c].0.le(m as u64) & rank[*c].1.ge(m as u64 + 1)));
        ctx.check("a row entry is not the decomposition of the neighbour of that rank", hit);
        // no neighbour twice
        let mut got = Cnt::zero();
        for m2 in 0..w {
            if ix.map_or(false, |ix| ix[m2] != ix[m]) {
                continue;
            }
            got = got.add(along[m2].b_eq(a) & rest[m2].b_eq(b));
        }
        let mut have = Cnt::zero();
        for c in &cand {
            have = have.add(a.b_eq(refs[*c].1) & b.b_eq(refs[*c].2));
        }
        for c in 2..=w as u64 {
            ctx.check("a neighbour is reported twice", got.ge(c).implies(have.ge(c)));
        }
    }
}

/// `x`, computed as the root of its square, up to rounding (a generous bound, to leave room for
/// other ways to compute it).
#[cfg(all(feature = "parallel", feature = "no-position"))]
fn about<S: Scalar>(v: S, x: S) -> B {
    let x = x.abs();
    v.b_ge(x * S::lit(0.75)) & v.b_le(x * S::lit(1.5))
}

/// Axis queries in floating point: whatever the magnitude of one part of a distance, the other
/// part keeps its accuracy; neighbours are the nearest by the sum of the squares.
#[cfg(all(feature = "parallel", feature = "no-position"))]
pub fn axis_float<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    assert!(D == 2);
    let data = cfg.data.make::<S, D>(ctx);
    let q = point::<S, D>(ctx, "q", 0, 0);
    for x in data.iter().chain([&q]).flatten() {
        ctx.assume(!x.b_nan() & !x.b_inf());
    }
    // squares neither overflow nor lose digits to underflow
    let least = S::min_positive_value();
    for p in &data {
        for d in 0..2 {
            let t = (q[d] - p[d]) * (q[d] - p[d]);
            ctx.assume((q[d] - p[d]).b_eq(S::zero()) | (t.b_ge(least) & !t.b_inf()));
        }
    }
    let k = ctx.choose("k", cfg.k.0, cfg.k.1);
    let ax = ctx.choose("axis", 0, 1);
    let tree = build(ctx, cfg, &data);
    let qs = [q];
    let r = tree.query_nearest_k_parallel_axis(&qs, k, ax).expect("valid query was rejected");
    let w = k.min(data.len());
    if r.0.len() != w || r.1.len() != w {
        ctx.fail("wrong number of results");
        return;
    }
    if r.0.iter().chain(&r.1).any(|x| !x.sane()) {
        ctx.fail("distance never written");
        return;
    }
    use symrt::engine::Cnt;
    let ds = distances(&data, &q);
    for m in 0..w {
        ctx.see(r.0[m].conc());
        ctx.see(r.1[m].conc());
        let hit = any((0..data.len()).map(|c| {
            let (mut lt, mut le) = (Cnt::zero(), Cnt::zero());
            for y in &ds {
                lt = lt.add(y.b_lt(ds[c]));
                le = le.add(y.b_le(ds[c]));
            }
            about(r.0[m], q[ax] - data[c][ax]) & about(r.1[m], q[1 - ax] - data[c][1 - ax]) & lt.le(m as u64) & le.ge(m as u64 + 1)
        }));
        ctx.check("a row entry is not the decomposition of the neighbour of that rank", hit);
    }
}

/// Asking again gives the same answer, whatever was asked in between; the data stays as it was.
pub fn again<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let data = cfg.data.make::<S, D>(ctx);
    let copy = data.clone();
    let q = point::<S, D>(ctx, "q", cfg.q.0, cfg.q.1);
    let other = point::<S, D>(ctx, "o", cfg.q.0, cfg.q.1);
    let k = ctx.choose("k", cfg.k.0, cfg.k.1);
    let what = ctx.choose("between", 0, if cfg.extra > 0 { 6 } else { 3 });
    let mut tree = build(ctx, cfg, &data);
    if cfg.boxsize.is_some() {
        let l = in_box(ctx, cfg, &data);
        for d in 0..D {
            for q in [&q, &other] {
                ctx.assume(q[d].b_ge(S::lit(0.0)) & q[d].b_le(l[d]));
            }
        }
        tree = tree.with_boxsize(&l).expect("valid box was rejected");
    }
    let many: Vec<[S; D]> = concrete::<D>(cfg.extra as usize, 0, cfg.q.0, cfg.q.1).into_iter().map(|p| p.map(lit)).collect();
    let size = tree.size();
    let a = tree.query_nearest(&q).expect("valid query was rejected");
    let ak = row_of::<S, D>(tree.query_nearest_k(&q, k).expect("valid query was rejected"));
    match what {
        0 => {
            let _ = tree.query_nearest(&other).is_ok();
        }
        1 => {
            let _ = tree.query_nearest_k(&other, k).is_ok();
        }
        2 => {
            #[cfg(all(feature = "parallel", feature = "no-position"))]
            let _ = (batch_call(&tree, &[other, q], k, 0).is_ok(), batch_call(&tree, &[other, q, other], k, 1).is_ok(), tree.query_nearest_k_parallel_axis(&[other], k, 0).is_ok());
        }
        4 => {
            for q in &many {
                let _ = tree.query_nearest(q).is_ok();
            }
        }
        5 => {
            for q in &many {
                let _ = tree.query_nearest_k(q, k).is_ok();
            }
        }
        6 => {
            #[cfg(all(feature = "parallel", feature = "no-position"))]
            let _ = (batch_call(&tree, &many, k, 0).is_ok(), batch_call(&tree, &many, k, 1).is_ok(), tree.query_nearest_k_parallel_axis(&many, k, 0).is_ok());
        }
        _ => {
            // a rejected query
            let _ = tree.query_nearest_k(&[S::nan(); D], k).is_ok();
            let _ = tree.query_nearest(&[S::infinity(); D]).is_ok();
        }
    }
    let b = tree.query_nearest(&q).expect("valid query was rejected");
    let bk = row_of::<S, D>(tree.query_nearest_k(&q, k).expect("valid query was rejected"));
    ctx.check("the nearest neighbour changed", B::k(a.1 == b.1) & a.0.b_eq(b.0));
    ctx.check("the neighbours changed", B::k(ak.i == bk.i && ak.d.len() == bk.d.len()));
    ctx.check("the distances changed", all(ak.d.iter().zip(&bk.d).map(|(x, y)| x.b_eq(*y))));
    ctx.check("the size changed", B::k(size == tree.size()));
    ctx.check("the data length changed", B::k(tree.get_data().len() == copy.len() && std::ptr::eq(tree.get_data().as_ptr(), data.as_ptr())));
    for (x, y) in tree.get_data().iter().zip(&copy) {
        ctx.check("the data changed", all((0..D).map(|d| x[d].b_eq(y[d]))));
    }
    // the one-neighbour and k-neighbour queries agree
    if k > 0 {
        ctx.check("the first of k neighbours is not the nearest", ak.d[0].b_eq(a.0));
    }
    ctx.see(a.0.conc());
}

/// A tree built in parallel answers like the definition, whatever the interleaving of the build.
/// The queries are the data points and a grid.
pub fn par_build<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let data = cfg.data.make::<S, D>(ctx);
    let n = data.len();
    let tree = build(ctx, cfg, &data);
    // every point once
    let q0 = data[0];
    let ds = distances(&data, &q0);
    check_row(ctx, &row_of(tree.query_nearest_k(&q0, n).expect("valid query was rejected")), &data, &ds, n);
    let (lo, hi) = cfg.data.range();
    let mut qs = data.clone();
    let step = |t: usize| lit::<S>(lo + (hi - lo) * t as i64 / 3);
    for g in 0..4usize.pow(D as u32) {
        qs.push(std::array::from_fn(|d| step(g / 4usize.pow(d as u32) % 4)));
    }
    for q in &qs {
        let r = tree.query_nearest(q).expect("valid query was rejected");
        if r.1 >= n as u64 {
            ctx.fail("index out of range");
            return;
        }
        let ds = distances(&data, q);
        ctx.check("distance is not that of the reported point", r.0.b_eq(reported(ds[r.1 as usize])));
        ctx.check("a nearer point exists", at_most(ds[r.1 as usize], ds.iter().copied()));
        ctx.see(r.0.conc());
    }
}
