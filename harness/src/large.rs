//! Many points, degenerate parameters.
use crate::common::*;
use crate::queries::*;
use std::thread;

/// A data set large enough for the approximate median, some points of it symbolic, concrete queries.
/// Row r of the answer is compared with the definition over all points.
pub fn large<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let data = cfg.data.make::<S, D>(ctx);
    let k = ctx.choose("k", cfg.k.0, cfg.k.1);
    let tree = build(ctx, cfg, &data);
    let (lo, hi) = cfg.q;
    let mut qs: Vec<[S; D]> = concrete::<D>(cfg.extra as usize, 7, lo, hi).into_iter().map(|p| p.map(lit)).collect();
    qs.push(data[1]);
    for q in &qs {
        let r = tree.query_nearest(q).expect("valid query was rejected");
        let ds: Vec<S> = data.iter().map(|p| d2(p, q)).collect();
        if r.1 >= data.len() as u64 {
            ctx.fail("index out of range");
            return;
        }
        ctx.check("distance is not that of the reported point", r.0.b_eq(reported(ds[r.1 as usize])));
        ctx.check("a nearer point exists", at_most(ds[r.1 as usize], ds.iter().copied()));
        let row = row_of(tree.query_nearest_k(q, k).expect("valid query was rejected"));
        check_row(ctx, &row, &data, &ds, k);
    }
}

/// Every point is stored once: asking for all of them returns each once, in order.
pub fn everything<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let data = cfg.data.make::<S, D>(ctx);
    let q = point::<S, D>(ctx, "q", cfg.q.0, cfg.q.1);
    let n = data.len();
    let tree = build(ctx, cfg, &data);
    let k = n + ctx.choose("more", 0, 1) * 3;
    let row = row_of(tree.query_nearest_k(&q, k).expect("valid query was rejected"));
    let ds: Vec<S> = data.iter().map(|p| d2(p, &q)).collect();
    check_row(ctx, &row, &data, &ds, k);
}

/// Run `f` with a stack of the given size; the engine's own needs are on top of it.
pub fn on_stack<R: Send>(bytes: usize, f: impl FnOnce() -> R + Send) -> R {
    thread::scope(|s| match thread::Builder::new().stack_size(bytes).spawn_scoped(s, f).expect("spawn").join() {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    })
}

/// Many visited nodes on a thread with an ordinary stack; concrete queries.
pub fn deep<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let data = cfg.data.make::<S, D>(ctx);
    let k = ctx.choose("k", cfg.k.0, cfg.k.1);
    let leaf = ctx.choose("leafsize", cfg.leaf.0, cfg.leaf.1);
    let q: [S; D] = concrete::<D>(1, 7, cfg.q.0, cfg.q.1)[0].map(lit);
    let r = on_stack(512 << 10, || {
        let tree = Tree::new(&data, leaf).expect("valid data was rejected");
        let r = tree.query_nearest(&q).expect("valid query was rejected");
        ((r.0, r.1), row_of::<S, D>(tree.query_nearest_k(&q, k).expect("valid query was rejected")))
    });
    let ds: Vec<S> = data.iter().map(|p| d2(p, &q)).collect();
    if r.0 .1 >= data.len() as u64 {
        ctx.fail("index out of range");
        return;
    }
    let i = r.0 .1 as usize;
    ctx.check("distance is not that of the reported point", r.0 .0.b_eq(reported(ds[i])));
    ctx.check("a nearer point exists", at_most(ds[i], ds.iter().copied()));
    check_row(ctx, &r.1, &data, &ds, k);
}

/// Any parameters: leafsize 0, more neighbours than points, none, a single point, all points equal.
pub fn degenerate<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let n = ctx.choose("n", 1, cfg.data.n());
    let (lo, hi) = cfg.data.range();
    let same = ctx.choose("equal", 0, 1);
    let mut data: Vec<[S; D]> = vec![];
    for i in 0..n {
        let p = if same == 1 && i > 0 { data[0] } else { point(ctx, &format!("p{i}"), lo, hi) };
        data.push(p);
    }
    let q = point::<S, D>(ctx, "q", cfg.q.0, cfg.q.1);
    let ks = if cfg.boxsize.is_some() { vec![0, 1, n, n + 1, usize::MAX] } else { vec![0, 1, 2, n, n + 1, 1000, 1 << 40, usize::MAX] };
    let k = ks[ctx.choose("k", 0, ks.len() - 1)];
    let boxed = cfg.boxsize.is_some();
    let leaves = if boxed { vec![0, 1, n + 1, usize::MAX] } else { vec![0, 1, 2, n.saturating_sub(1), n, n + 1, 1 << 40, usize::MAX] };
    let leaf = leaves[ctx.choose("leafsize", 0, leaves.len() - 1)];
    let pars = [usize::MAX - 1, 0, 1, 64, usize::MAX];
    let par = pars[ctx.choose("par_split_level", 0, if boxed { 2 } else if n > 3 { 3 } else { pars.len() - 1 })];
    let tree = if par == usize::MAX - 1 { Tree::new(&data, leaf) } else { Tree::new_parallel(&data, leaf, par) }.expect("valid data was rejected");
    let (tree, ds) = if cfg.boxsize.is_some() {
        let l = in_box(ctx, cfg, &data);
        for d in 0..D {
            ctx.assume(q[d].b_ge(S::lit(0.0)) & q[d].b_le(l[d]));
        }
        (tree.with_boxsize(&l).expect("valid box was rejected"), image_distances(ctx, false, &data, &q, &l))
    } else {
        (tree, data.iter().map(|p| d2(p, &q)).collect())
    };
    let check_row = if cfg.boxsize.is_some() { check_row_periodic::<S, D> } else { check_row::<S, D> };
    let r = tree.query_nearest(&q).expect("valid query was rejected");
    if r.1 >= n as u64 {
        ctx.fail("index out of range");
        return;
    }
    ctx.check("distance is not that of the reported point", any(ds.iter().skip(r.1 as usize).step_by(n).map(|d| r.0.b_eq(reported(*d)))));
    ctx.check("a nearer point exists", at_most(r.0, ds.iter().map(|d| reported(*d))));
    let row = row_of(tree.query_nearest_k(&q, k).expect("valid query was rejected"));
    check_row(ctx, &row, &data, &ds, k);
    #[cfg(all(feature = "parallel", feature = "no-position"))]
    {
        let w = k.min(n);
        let nq = if boxed { 1 } else { ctx.choose("queries", 0, 2) };
        let qs = vec![q; nq];
        for with in [false, true] {
            let (d, i) = if with { tree.query_nearest_k_parallel_with(&qs, k) } else { tree.query_nearest_k_parallel(&qs, k) }.expect("valid queries were rejected");
            if d.len() != w * nq || i.len() != w * nq {
                ctx.fail("wrong number of results");
                return;
            }
            for j in 0..nq {
                let row = Row { d: d[j * w..(j + 1) * w].to_vec(), i: Some(i[j * w..(j + 1) * w].to_vec()), p: None };
                check_row(ctx, &row, &data, &ds, k);
            }
        }
        let r = tree.query_nearest_k_parallel_axis(&qs, k, 0).expect("valid queries were rejected");
        ctx.check("wrong number of results", B::k(r.0.len() == w * nq && r.1.len() == w * nq));
    }
}
