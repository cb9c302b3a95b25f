//! The nodes of the tree (they are public).
use crate::common::*;
use fnntw::point::Point;
use fnntw::Node;

/// Every stem holds one point and every leaf at most `leafsize`, all points of the data are in
/// exactly one node, all points below a node lie within its bounds and on their side of its split.
pub fn nodes<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    nodes_of::<S, D>(ctx, cfg, 0);
}

/// The same, and neither child of the root holds fewer than one point in 16.
pub fn balanced<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg) {
    nodes_of::<S, D>(ctx, cfg, 16);
}

fn nodes_of<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, cfg: &Cfg, share: usize) {
    let data = cfg.data.make::<S, D>(ctx);
    let leaf = ctx.choose("leafsize", cfg.leaf.0, cfg.leaf.1);
    let tree = match cfg.par {
        None => Tree::new(&data, leaf).expect("valid data was rejected"),
        Some((a, b)) => {
            let p = ctx.choose("par_split_level", a, b);
            exec(ctx, cfg, || Tree::new_parallel(&data, leaf, p)).expect("valid data was rejected")
        }
    };
    judge_nodes(ctx, &tree, &data, leaf, share);
}

/// What is below a node: the extreme ones of the known coordinates, and the points with others.
struct Below<S, const D: usize> {
    count: usize,
    range: Option<([S; D], [S; D])>,
    others: Vec<[S; D]>,
}

impl<S: Scalar, const D: usize> Below<S, D> {
    fn none() -> Self {
        Below { count: 0, range: None, others: vec![] }
    }
    fn add(&mut self, p: [S; D]) {
        self.count += 1;
        if !p.iter().all(|x| x.known()) {
            self.others.push(p);
        } else {
            self.widen((p, p));
        }
    }
    fn widen(&mut self, r: ([S; D], [S; D])) {
        self.range = Some(match self.range {
            None => r,
            Some((lo, hi)) => (
                std::array::from_fn(|d| if r.0[d].conc() < lo[d].conc() { r.0[d] } else { lo[d] }),
                std::array::from_fn(|d| if r.1[d].conc() > hi[d].conc() { r.1[d] } else { hi[d] }),
            ),
        });
    }
    fn join(&mut self, o: &Below<S, D>) {
        self.count += o.count;
        if let Some(r) = o.range {
            self.widen(r);
        }
        self.others.extend(o.others.iter().copied());
    }
    /// all coordinates `d` are at least / at most `x`
    fn above(&self, d: usize, x: S) -> B {
        all(self.range.iter().map(|r| x.b_le(r.0[d])).chain(self.others.iter().map(|p| x.b_le(p[d]))))
    }
    fn under(&self, d: usize, x: S) -> B {
        all(self.range.iter().map(|r| r.1[d].b_le(x)).chain(self.others.iter().map(|p| p[d].b_le(x))))
    }
}

pub fn judge_nodes<S: Scalar, const D: usize>(ctx: &mut Ctx<S>, tree: &Tree<S, D>, data: &[[S; D]], leaf: usize, share: usize) {
    let n = data.len();
    if tree.size() != tree.nodes.len() + 1 {
        ctx.fail("size is not the number of nodes");
    }
    if tree.nodes.is_empty() {
        // the root is a leaf
        ctx.check("the only leaf holds more points than the leafsize", B::k(n <= leaf));
        return;
    }
    let m = tree.nodes.len();
    let mut seen = vec![false; n];
    let mut refs = vec![0usize; m];
    // where a point of a node is in the data
    let first = data.as_ptr() as usize;
    let size = std::mem::size_of::<[S; D]>();
    let mut place = |ctx: &mut Ctx<S>, p: &Point<S, D>| -> Option<usize> {
        // safety: there are D > 0 coordinates, and the data is alive
        let at = (unsafe { p.get_unchecked(0) } as *const NotNan<S> as usize).wrapping_sub(first);
        if at % size != 0 || at / size >= n || seen[at / size] {
            ctx.fail("a node holds a point that is in another, too, or not of the data");
            return None;
        }
        seen[at / size] = true;
        Some(at / size)
    };
    for (i, node) in tree.nodes.iter().enumerate() {
        if let Node::Stem { left, right, .. } = node {
            for c in [left, right] {
                if *c >= m || *c == i {
                    ctx.fail("a stem refers to a node that does not exist");
                    return;
                }
                refs[*c] += 1;
            }
        }
    }
    let roots: Vec<usize> = (0..m).filter(|i| refs[*i] == 0).collect();
    if roots.len() != 2 || refs.iter().any(|r| *r > 1) {
        ctx.fail("a node is shared or lost");
        return;
    }
    // children before their parents
    let mut order = vec![];
    let mut todo = roots.clone();
    while let Some(i) = todo.pop() {
        order.push(i);
        if let Node::Stem { left, right, .. } = &tree.nodes[i] {
            todo.extend([*left, *right]);
        }
    }
    if order.len() != m {
        ctx.fail("a node is shared or lost");
        return;
    }
    let mut below: Vec<Option<Below<S, D>>> = (0..m).map(|_| None).collect();
    for i in order.into_iter().rev() {
        let mut b = Below::none();
        let (lower, upper) = match &tree.nodes[i] {
            Node::Leaf { points, lower, upper } => {
                ctx.check("a leaf holds more points than the leafsize", B::k(points.len() <= leaf));
                for p in points {
                    let Some(at) = place(ctx, p) else { return };
                    b.add(data[at]);
                }
                (lower, upper)
            }
            Node::Stem { split_dim, point, left, right, lower, upper } => {
                let Some(at) = place(ctx, point) else { return };
                let (l, r) = (below[*left].take().unwrap(), below[*right].take().unwrap());
                ctx.check("a point is on the wrong side of a split", l.under(*split_dim, data[at][*split_dim]) & r.above(*split_dim, data[at][*split_dim]));
                b.add(data[at]);
                b.join(&l);
                b.join(&r);
                (lower, upper)
            }
        };
        for d in 0..D {
            ctx.check("a point lies outside its node", b.above(d, lower[d].into_inner()) & b.under(d, upper[d].into_inner()));
        }
        below[i] = Some(b);
    }
    let (a, b) = (below[roots[0]].take().unwrap(), below[roots[1]].take().unwrap());
    // what is left is the root's
    let rest: Vec<usize> = (0..n).filter(|i| !seen[*i]).collect();
    if a.count + b.count + 1 != n || rest.len() != 1 {
        ctx.fail("the nodes do not hold every point exactly once");
        return;
    }
    let root = data[rest[0]];
    ctx.check(
        "a point is on the wrong side of the first split",
        any((0..D).flat_map(|d| [a.under(d, root[d]) & b.above(d, root[d]), b.under(d, root[d]) & a.above(d, root[d])])),
    );
    if share > 0 {
        ctx.check("a side of the first split is tiny", B::k(a.count.min(b.count) * share >= n));
    }
    ctx.see(m as f64);
}
