//! The Python classes, called as Python calls them.
use crate::common::*;
use crate::queries::*;
use numpy::{object1, object2, read, Element};
use pyo3::{Py, PyAny, PyModule, PyObject, PyResult};
use std::any::TypeId;

/// The module whose class for this precision works on S, and the name of that class.
fn module<S: 'static>(bits: u32) -> (PyModule, &'static str) {
    let m = if TypeId::of::<S>() != TypeId::of::<Sym>() {
        py_native::__py_module()
    } else if bits == 32 {
        py_sym32::__py_module()
    } else {
        py_sym64::__py_module()
    };
    (m, if bits == 32 { "Treef32" } else { "Treef64" })
}

fn int(i: i128) -> PyObject {
    Py::of(PyAny::Int(i))
}
fn array<S: Element, const D: usize>(p: &[[S; D]], column_major: bool) -> PyObject {
    object2(p.len(), D, p.concat(), column_major)
}
fn pair(r: PyObject) -> Option<(PyObject, PyObject)> {
    match &*r.obj {
        PyAny::Tuple(v) if v.len() == 2 => Some((v[0].clone(), v[1].clone())),
        _ => None,
    }
}

/// An optional argument: left out, None, or a number.
fn optional<S: Scalar>(ctx: &mut Ctx<S>, name: &'static str, range: (usize, usize), kw: &mut Vec<(&'static str, PyObject)>) -> Option<usize> {
    // (an empty range: never given a value)
    match ctx.choose(name, 0, range.1 + 2 - range.0) {
        0 => None,
        1 => {
            kw.push((name, Py::of(PyAny::None)));
            None
        }
        v => {
            kw.push((name, int((range.0 + v - 2) as i128)));
            Some(range.0 + v - 2)
        }
    }
}

fn construct<S: Scalar + Element, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg, m: &PyModule, class: &str, data: &[[S; D]], l: Option<&[S; D]>) -> PyResult<PyObject> {
    let leaf = ctx.choose("leafsize", cfg.leaf.0, cfg.leaf.1);
    let mut kw = vec![];
    if let Some(p) = cfg.par {
        optional(ctx, "par_split_level", p, &mut kw);
    }
    if let Some(l) = l {
        kw.push(("boxsize", object1(l.to_vec())));
    }
    // the caller keeps neither the array of points nor that of the box
    m.call(class, None, "__new__", vec![array(data, false), int(leaf as i128)], kw)
}

/// Build, query, look at every row.
pub fn rows<S: Scalar + Element, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let (m, class) = module::<S>(cfg.api);
    let data = cfg.data.make::<S, D>(ctx);
    let l = cfg.boxsize.map(|_| in_box(ctx, cfg, &data));
    let mut qs: Vec<[S; D]> = concrete::<D>(cfg.extra as usize, 7, cfg.q.0, cfg.q.1).into_iter().map(|p| p.map(|x| S::lit(x as f64))).collect();
    for j in 0..cfg.nq {
        qs.push(point::<S, D>(ctx, &format!("q{j}"), cfg.q.0, cfg.q.1));
    }
    if let Some(l) = &l {
        for q in &qs {
            for d in 0..D {
                ctx.assume(q[d].b_ge(S::lit(0.0)) & q[d].b_le(l[d]));
            }
        }
    }
    let qs = arrange(ctx, cfg, qs);
    let tree = construct(ctx, cfg, &m, class, &data, l.as_ref()).expect("valid data was rejected");
    let mut kw = vec![];
    let k = optional(ctx, "k", cfg.k, &mut kw);
    let axis = optional(ctx, "axis", cfg.axis, &mut kw);
    let r = m.call(class, Some(&tree), "query", vec![array(&qs, false)], kw);
    let n = data.len();
    let w = k.unwrap_or(1).min(n);
    if axis.map_or(false, |a| a >= D) {
        ctx.check("an axis that does not exist was accepted", B::k(r.is_err()));
        return;
    }
    let (a, b) = match pair(r.expect("valid query was rejected")) {
        Some(x) => x,
        None => return ctx.fail("the result is not a pair"),
    };
    let flat = axis.is_none() && k.unwrap_or(1) == 1;
    let shape = if flat { vec![qs.len()] } else { vec![qs.len(), w] };
    let (sa, va) = match read::<S>(&a) {
        Some(x) => x,
        None => return ctx.fail("the distances are no array of the tree's precision"),
    };
    if sa != shape {
        return ctx.fail("distances of the wrong shape");
    }
    if va.iter().any(|x| !x.sane()) {
        return ctx.fail("distance never written");
    }
    if let Some(ax) = axis {
        let (sb, vb) = match read::<S>(&b) {
            Some(x) => x,
            None => return ctx.fail("the second part of the distances is no array of the tree's precision"),
        };
        if sb != shape {
            return ctx.fail("distances of the wrong shape");
        }
        if vb.iter().any(|x| !x.sane()) {
            return ctx.fail("distance never written");
        }
        for (j, q) in qs.iter().enumerate() {
            axis_row(ctx, &va[j * w..(j + 1) * w], &vb[j * w..(j + 1) * w], None, &data, q, l.as_ref(), ax);
        }
    } else {
        let (sb, vb) = match read::<u64>(&b) {
            Some(x) => x,
            None => return ctx.fail("the indices are no array of 64-bit integers"),
        };
        if sb != shape {
            return ctx.fail("indices of the wrong shape");
        }
        for (j, q) in qs.iter().enumerate() {
            let ds = reference(ctx, &data, q, l.as_ref());
            let row = Row { d: va[j * w..(j + 1) * w].to_vec(), i: Some(vb[j * w..(j + 1) * w].to_vec()), p: None };
            match l {
                None => check_row(ctx, &row, &data, &ds, w),
                Some(_) => check_row_periodic(ctx, &row, &data, &ds, w),
            }
        }
    }
}

/// Any values at all: refused with an error if one is not finite, or the box does not hold the
/// points, else accepted.
pub fn values<S: Scalar + Element, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let (m, class) = module::<S>(cfg.api);
    // one query that cannot be used among many, if there are sizes
    let free = if cfg.sizes.is_empty() { ctx.choose("which", 0, 2) } else { 2 };
    let any_point = |ctx: &mut Ctx<S>, name: String| -> [S; D] { std::array::from_fn(|d| ctx.any(&format!("{name}_{d}"))) };
    let data: Vec<[S; D]> = (0..cfg.data.n())
        .map(|i| match free {
            0 => any_point(ctx, format!("p{i}")),
            _ => std::array::from_fn(|d| S::lit(((i + d) % 3) as f64 * 0.5)),
        })
        .collect();
    let bad = |p: &[S; D]| any(p.iter().map(|x| x.b_nan() | x.b_inf()));
    let l: Option<[S; D]> = if free == 1 { Some(any_point(ctx, "box".into())) } else { None };
    let tree = construct(ctx, cfg, &m, class, &data, l.as_ref());
    let some_bad = match &l {
        None => any(data.iter().map(bad)),
        // (the points are not negative)
        Some(l) => bad(l) | any(data.iter().flat_map(|p| (0..D).map(|d| !p[d].b_le(l[d])))),
    };
    let tree = match tree {
        Ok(t) => {
            ctx.check("unusable points or box were accepted", !some_bad);
            t
        }
        Err(e) => {
            ctx.check("usable points and box were rejected", some_bad);
            ctx.check("the error is no ValueError", B::k(e.kind == "ValueError"));
            return;
        }
    };
    if free != 2 {
        return;
    }
    let mut qs: Vec<[S; D]> = (0..cfg.nq).map(|j| any_point(ctx, format!("q{j}"))).collect();
    qs.insert(0, [S::lit(0.5); D]);
    if !cfg.sizes.is_empty() {
        let n = cfg.sizes[ctx.choose("size", 0, cfg.sizes.len() - 1)];
        qs = vec![[S::lit(0.5); D]; n];
        let at = places(n);
        let at = at[ctx.choose("at", 0, at.len() - 1)];
        let dim = ctx.choose("dim", 0, D - 1);
        if ctx.choose("fine", 0, 1) == 0 {
            let x: S = ctx.any("x");
            ctx.assume(x.b_nan() | x.b_inf());
            qs[at][dim] = x;
        }
    }
    let mut kw = vec![];
    optional(ctx, "k", cfg.k, &mut kw);
    optional(ctx, "axis", cfg.axis, &mut kw);
    let r = m.call(class, Some(&tree), "query", vec![array(&qs, false)], kw);
    let some_bad = any(qs.iter().map(bad));
    match r {
        Ok(_) => ctx.check("a query that is not finite was accepted", !some_bad),
        Err(e) => {
            ctx.check("finite queries were rejected", some_bad);
            ctx.check("the error is no ValueError", B::k(e.kind == "ValueError"));
        }
    }
}

/// Arguments of odd shapes and types: an error or the right answer, and nothing else.
pub fn shapes<S: Scalar + Element, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    let (m, class) = module::<S>(cfg.api);
    let data: Vec<[S; D]> = cfg.data.make::<S, D>(ctx);
    let leaf = || int(2);
    let what = ctx.choose("what", 0, 11);
    let refused = |ctx: &mut Ctx<S>, r: PyResult<PyObject>| ctx.check("accepted", B::k(r.is_err()));
    let new = |d: PyObject, kw: Vec<(&'static str, PyObject)>| m.call(class, None, "__new__", vec![d, leaf()], kw);
    let q = point::<S, D>(ctx, "q", cfg.q.0, cfg.q.1);
    let k = ctx.choose("k", cfg.k.0, cfg.k.1);
    let mut kw = vec![("k", int(k as i128))];
    let axis = ctx.choose("axis", 0, 1);
    if axis == 1 {
        kw.push(("axis", int(0)));
    }
    match what {
        // no points
        0 => refused(ctx, new(array::<S, D>(&[], false), vec![])),
        // too few, too many columns
        1 => refused(ctx, new(object2(2, 1, vec![q[0]; 2], false), vec![])),
        2 => refused(ctx, new(object2(2, 4, vec![q[0]; 8], false), vec![])),
        // one dimension
        3 => refused(ctx, new(object1(vec![q[0]; 6]), vec![])),
        // numbers of another kind
        4 => refused(ctx, new(object2::<i64>(2, D, vec![1; 2 * D], false), vec![])),
        // a box with too few or too many sides
        5 => refused(ctx, new(array(&data, false), vec![("boxsize", object1(vec![S::lit(100.0); D + 1]))])),
        6 => refused(ctx, new(array(&data, false), vec![("boxsize", object1(vec![S::lit(100.0); D - 1]))])),
        // a negative leaf size
        7 => refused(ctx, m.call(class, None, "__new__", vec![array(&data, false), int(-1)], vec![])),
        _ => {
            let column_major = what == 8;
            let tree = match new(array(&data, column_major), vec![]) {
                Ok(t) => t,
                // such an array may be refused
                Err(_) if column_major => return,
                Err(e) => panic!("valid data was rejected: {e}"),
            };
            match what {
                // points laid out in columns, if that is accepted; queries too
                8 | 9 => {
                    let qs = [q, q.map(|x| x + S::lit(1.0)), q];
                    let r = match m.call(class, Some(&tree), "query", vec![array(&qs, true)], kw) {
                        Ok(r) => r,
                        Err(_) => return,
                    };
                    let (a, b) = pair(r).expect("a pair");
                    let (va, w) = (read::<S>(&a).expect("distances").1, k.min(data.len()));
                    for (j, q) in qs.iter().enumerate() {
                        let at = j * w..(j + 1) * w;
                        if axis == 1 {
                            axis_row(ctx, &va[at.clone()], &read::<S>(&b).expect("distances").1[at], None, &data, q, None, 0);
                        } else {
                            let ds = reference(ctx, &data, q, None);
                            check_row(ctx, &Row { d: va[at.clone()].to_vec(), i: Some(read::<u64>(&b).expect("indices").1[at].to_vec()), p: None }, &data, &ds, w);
                        }
                    }
                }
                // queries of another dimension
                10 => {
                    let r = m.call(class, Some(&tree), "query", vec![object2(D + 1, 5 - D, vec![q[0]; (D + 1) * (5 - D)], false)], kw);
                    refused(ctx, r)
                }
                // no queries
                _ => {
                    let r = m.call(class, Some(&tree), "query", vec![array::<S, D>(&[], false)], kw).expect("an empty batch was rejected");
                    let (a, b) = pair(r).expect("a pair");
                    let none = |o: &PyObject| read::<S>(o).map(|x| x.0).or(read::<u64>(o).map(|x| x.0)).map_or(false, |s| s[0] == 0);
                    ctx.check("an empty batch has results", B::k(none(&a) && none(&b)));
                }
            }
        }
    }
}

/// A tree answers a second query as if it were the first.
pub fn list(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let f = "pyfnntw: Treef32/Treef64::new, query; FNTree::query, query_k, query_k_axis; Tree::new, new_parallel, with_boxsize, query_nearest, query_nearest_k, query_nearest_k_parallel_axis";
    macro_rules! py {
        ($name:expr, $f:ident, $d:literal, $cfg:expr, $cost:expr) => {{
            for bits in [64u32, 32] {
                let cfg: Cfg = Cfg { api: bits, ..$cfg };
                let (c1, c2) = (cfg.clone(), cfg.clone());
                v.push(Scenario {
                    name: format!("f{bits}-{}", $name),
                    domain: Domain::Int,
                    sym: std::sync::Arc::new(move |c: &mut Ctx<Sym>| $f::<Sym, $d>(c, &c1)),
                    n64: if bits == 64 { let c = c2.clone(); Some(std::sync::Arc::new(move |x: &mut Ctx<f64>| $f::<f64, $d>(x, &c))) } else { None },
                    n32: if bits == 32 { let c = c2.clone(); Some(std::sync::Arc::new(move |x: &mut Ctx<f32>| $f::<f32, $d>(x, &c))) } else { None },
                    variants: "*".to_string(),
                    bounds: format!("class Treef{bits}: {}{}", cfg.describe($d), if cfg.axis.1 > 0 { format!("; axis absent, None or {}..={}", cfg.axis.0, cfg.axis.1) } else { String::new() }),
                    funcs: f.to_string(),
                    run_limit: 30,
                    cost: $cost,
                });
            }
        }};
    }
    let e = Data::Sym { n: 0, lo: 0, hi: 0 };
    let _ = &e;
    py!("d2-n2", rows, 2, Cfg::new(Data::Sym { n: 2, lo: -2, hi: 1 }).leaf(1, 2).k(0, 4).axis(0, 2).par(0, 1), 20);
    py!("d2-c5-q2", rows, 2, Cfg::new(Data::Conc { n: 5, gen: 0, lo: -8, hi: 7 }).leaf(1, 2).k(0, 6).axis(0, 2).nq(2), 30);
    py!("d3-c4", rows, 3, Cfg::new(Data::Conc { n: 4, gen: 0, lo: -8, hi: 7 }).leaf(1, 2).k(0, 5).axis(0, 3).par(0, 1), 25);
    py!("d3-c3-q2-e1", rows, 3, Cfg::new(Data::Conc { n: 3, gen: 6, lo: -8, hi: 7 }).leaf(1, 1).k(1, 3).axis(0, 3).nq(2).extra(1), 35);
    py!("p-d2-c3", rows, 2, Cfg::new(Data::Conc { n: 3, gen: 0, lo: 0, hi: 8 }).leaf(1, 2).k(0, 4).axis(0, 2).boxed(8, 8), 40);
    py!("p-d2-c2-oblong", rows, 2, Cfg::new(Data::Conc { n: 2, gen: 0, lo: 0, hi: 4 }).leaf(1, 2).k(1, 2).axis(0, 1).boxed(4, 5).oblong(2), 40);
    py!("p-d3-c2", rows, 3, Cfg::new(Data::Conc { n: 2, gen: 0, lo: 0, hi: 4 }).leaf(1, 1).k(1, 2).axis(0, 2).boxed(4, 4), 50);
    // every combination of arguments, for the queries of a smaller region
    py!("box-d2", rows, 2, Cfg::new(Data::Conc { n: 3, gen: 0, lo: 0, hi: 8 }).leaf(1, 2).q(5, 6).k(0, 4).axis(0, 2).boxed(8, 8).par(0, 1), 10);
    py!("box-d3", rows, 3, Cfg::new(Data::Conc { n: 3, gen: 0, lo: 0, hi: 8 }).leaf(2, 2).q(2, 3).k(0, 4).axis(0, 3).boxed(8, 8).par(0, 1), 20);
    py!("oblong-d3", rows, 3, Cfg::new(Data::Conc { n: 3, gen: 0, lo: 0, hi: 8 }).leaf(1, 1).q(6, 7).k(1, 2).axis(0, 3).boxed(8, 8).oblong(2).par(0, 0), 20);
    py!("wide-d2", rows, 2, Cfg::new(Data::Conc { n: 40, gen: 0, lo: -50, hi: 50 }).leaf(4, 4).q(5, 6).k(15, 17).axis(0, 2).par(0, 1), 10);
    py!("wide-d3", rows, 3, Cfg::new(Data::Conc { n: 20, gen: 0, lo: -50, hi: 50 }).leaf(4, 4).q(5, 6).k(9, 10).axis(0, 3).par(0, 1), 10);
    py!("many-d2", rows, 2, Cfg::new(Data::Conc { n: 3, gen: 0, lo: -8, hi: 7 }).leaf(1, 1).q(-1, 1).k(2, 2).axis(0, 1).nq(1).extra(33_000).par(0, 1), 20);
    py!("many-d3", rows, 3, Cfg::new(Data::Conc { n: 3, gen: 0, lo: -8, hi: 7 }).leaf(1, 1).q(0, 1).k(2, 2).axis(0, 2).nq(1).extra(33_000).par(0, 1), 20);
    py!("large-d2", rows, 2, Cfg::new(Data::Conc { n: 70_000, gen: 0, lo: -2_000, hi: 2_000 }).leaf(1, 1).q(5, 6).k(3, 3).axis(1, 0).par(1, 1), 20);
    py!("large-d3", rows, 3, Cfg::new(Data::Conc { n: 70_000, gen: 0, lo: -500, hi: 500 }).leaf(1, 1).q(5, 6).k(3, 3).axis(1, 0).par(1, 1), 20);
    py!("again-d2", rows, 2, Cfg::new(Data::Conc { n: 5, gen: 0, lo: -8, hi: 7 }).leaf(2, 2).q(-1, 1).k(1, 2).axis(0, 1).nq(1).extra(2).again(), 10);
    py!("again-d3", rows, 3, Cfg::new(Data::Conc { n: 5, gen: 0, lo: -8, hi: 7 }).leaf(2, 2).q(0, 1).k(1, 2).axis(0, 2).nq(1).extra(2).again(), 10);
    py!("shapes-d2", shapes, 2, Cfg::new(Data::Conc { n: 3, gen: 0, lo: -8, hi: 7 }).k(1, 2).q(-2, 1), 5);
    py!("shapes-d3", shapes, 3, Cfg::new(Data::Conc { n: 3, gen: 0, lo: -8, hi: 7 }).k(1, 2).q(-2, 1), 5);
    macro_rules! vals {
        ($name:expr, $d:literal, $cfg:expr, $cost:expr) => {{
            for bits in [64u32, 32] {
                let cfg: Cfg = Cfg { api: bits, ..$cfg };
                let (eb, sb) = if bits == 64 { (11, 53) } else { (8, 24) };
                let (c1, c2) = (cfg.clone(), cfg.clone());
                v.push(Scenario {
                    name: format!("f{bits}-{}", $name),
                    domain: Domain::Mf { eb, sb },
                    sym: std::sync::Arc::new(move |c: &mut Ctx<Sym>| values::<Sym, $d>(c, &c1)),
                    n64: if bits == 64 { let c = c2.clone(); Some(std::sync::Arc::new(move |x: &mut Ctx<f64>| values::<f64, $d>(x, &c))) } else { None },
                    n32: if bits == 32 { let c = c2.clone(); Some(std::sync::Arc::new(move |x: &mut Ctx<f32>| values::<f32, $d>(x, &c))) } else { None },
                    variants: "*".to_string(),
                    bounds: format!("class Treef{bits}: {} points in {}-D and {} queries; any f{bits} values (NaN and infinities included) for the points, or the box, or the queries; k absent, None or {}..={}; axis absent, None or {}..={}{}", cfg.data.n(), $d, cfg.nq, cfg.k.0, cfg.k.1, cfg.axis.0, cfg.axis.1, if cfg.sizes.is_empty() { String::new() } else { format!("; instead one of {:?} queries, one of which is not finite", cfg.sizes) }),
                    funcs: f.to_string(),
                    run_limit: 30,
                    cost: $cost,
                });
            }
        }};
    }
    vals!("values-d2", 2, Cfg::new(Data::Sym { n: 1, lo: 0, hi: 0 }).leaf(1, 1).k(1, 1).axis(0, 0).par(0, 1), 10);
    vals!("values-d3", 3, Cfg::new(Data::Sym { n: 1, lo: 0, hi: 0 }).leaf(1, 1).k(1, 1).axis(0, 0).par(0, 1), 10);
    vals!("values-many-d2", 2, Cfg::new(Data::Sym { n: 1, lo: 0, hi: 0 }).leaf(1, 1).k(1, 1).axis(0, 0).sizes(&[130, 5_000]), 10);
    vals!("values-many-d3", 3, Cfg::new(Data::Sym { n: 1, lo: 0, hi: 0 }).leaf(1, 1).k(1, 2).axis(0, 0).sizes(&[12_000]), 10);
    if thorough {
        py!("d2-n3", rows, 2, Cfg::new(Data::Sym { n: 3, lo: -2, hi: 1 }).leaf(1, 3).k(0, 4).axis(0, 2).par(0, 2), 60);
        py!("d3-c8", rows, 3, Cfg::new(Data::Conc { n: 8, gen: 0, lo: -8, hi: 7 }).leaf(1, 3).k(0, 9).axis(0, 3).par(0, 1), 60);
        py!("p-d3-c3", rows, 3, Cfg::new(Data::Conc { n: 3, gen: 0, lo: 0, hi: 8 }).leaf(1, 2).k(0, 4).axis(0, 3).boxed(8, 8), 70);
        vals!("values-d2-n2", 2, Cfg::new(Data::Sym { n: 2, lo: 0, hi: 0 }).leaf(1, 2).k(1, 2).axis(0, 1).par(0, 1), 70);
    }
    v
}
