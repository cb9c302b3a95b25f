//! Scoped assertions in one SMT solver. Integer problems are first put to a linear solver in
//! which products are fresh variables bounded by valid lemmas (refined on demand); what that
//! cannot settle goes to the exact bit-vector encoding.
use crate::arena::*;
use crate::engine::*;
use crate::solver::*;
use std::collections::HashMap;
use std::rc::Rc;

pub struct Enc {
    pub solver: Solver,
    /// linear integer encoding with abstract products
    pub lin: bool,
    defined: Vec<bool>,
    declared: Vec<bool>,
    deps: HashMap<u32, Rc<(Vec<usize>, Vec<u32>)>>,
    active_vars: Vec<(usize, usize)>,
    active_abs: Vec<(u32, usize)>,
    lemmas: HashMap<u32, Vec<String>>,
    depth: usize,
    /// the path condition as asserted here, one scope each
    pub stack: Vec<Atom>,
    pub refinements: u64,
}

fn n(x: i128) -> String {
    if x < 0 {
        format!("(- {})", -x)
    } else {
        format!("{x}")
    }
}

impl Enc {
    pub fn new(name: &str, timeout_ms: u64, logic: &str, lin: bool) -> Enc {
        Enc {
            solver: Solver::new(name, timeout_ms, logic),
            lin,
            defined: vec![],
            declared: vec![],
            deps: HashMap::new(),
            active_vars: vec![],
            active_abs: vec![],
            lemmas: HashMap::new(),
            depth: 0,
            stack: vec![],
            refinements: 0,
        }
    }

    fn scope(&mut self) {
        self.solver.push();
        self.depth += 1;
    }

    fn unscope(&mut self) {
        self.solver.pop();
        self.depth -= 1;
        let d = self.depth;
        self.active_vars.retain(|r| r.1 <= d);
        self.active_abs.retain(|r| r.1 <= d);
    }

    fn is_abs(&self, id: u32) -> bool {
        if !self.lin {
            return false;
        }
        let e = eng();
        let nd = e.arena.nodes[id as usize];
        nd.op == Op::Mul && !e.arena.linear_product(id) || nd.op == Op::Form && e.arena.form_degree(nd.cst) > 1 && !e.arena.form_hint.contains_key(&(nd.cst as u32))
    }

    /// Variables and abstract products a term depends on.
    fn deps(&mut self, id: u32) -> Rc<(Vec<usize>, Vec<u32>)> {
        if let Some(d) = self.deps.get(&id) {
            return d.clone();
        }
        let mut stack = vec![(id, false)];
        while let Some((t, ready)) = stack.pop() {
            if t == 0 || self.deps.contains_key(&t) {
                continue;
            }
            let (node, ops) = {
                let e = eng();
                (e.arena.nodes[t as usize], e.arena.operands(t))
            };
            if !ready {
                stack.push((t, true));
                for o in ops {
                    stack.push((o, false));
                }
                continue;
            }
            let mut v: Vec<usize> = vec![];
            let mut s: Vec<u32> = vec![];
            match node.op {
                Op::Var => v.push(node.cst as usize),
                Op::ChoiceEq => v.push((node.cst >> 32) as usize),
                Op::Form => {
                    let e = eng();
                    for (mo, _) in &e.arena.forms[node.cst as usize] {
                        v.extend(mo.iter().map(|x| *x as usize));
                    }
                }
                _ => {}
            }
            for o in ops {
                if o != 0 {
                    v.extend(&self.deps[&o].0);
                    s.extend(&self.deps[&o].1);
                }
            }
            if self.is_abs(t) {
                s.push(t);
            }
            v.sort();
            v.dedup();
            s.sort();
            s.dedup();
            self.deps.insert(t, Rc::new((v, s)));
        }
        self.deps[&id].clone()
    }

    fn declare(&mut self, var: usize) {
        if self.declared.len() <= var {
            self.declared.resize(var + 1, false);
        }
        if !self.declared[var] {
            self.declared[var] = true;
            let d = eng().arena.declare_var(var, self.lin).0;
            self.solver.send(&d);
        }
    }

    fn activate_var(&mut self, var: usize) {
        self.declare(var);
        if !self.active_vars.iter().any(|r| r.0 == var) {
            let r = eng().arena.declare_var(var, self.lin).1;
            self.solver.send(&r);
            self.active_vars.push((var, self.depth));
        }
    }

    fn activate(&mut self, id: u32) {
        let d = self.deps(id);
        for v in &d.0 {
            self.activate_var(*v);
        }
        for s in &d.1 {
            if self.active_abs.iter().any(|r| r.0 == *s) {
                continue;
            }
            for l in &self.lemmas[s] {
                self.solver.send(l);
            }
            let sq = |t: u32| {
                let e = eng();
                let nd = e.arena.nodes[t as usize];
                nd.op == Op::Mul && nd.a == nd.b
            };
            if sq(*s) {
                for (o, _) in &self.active_abs {
                    if sq(*o) {
                        self.solver.send(&format!("(assert (= (<= ab{s} ab{o}) (<= t{s} t{o})))\n(assert (= (<= ab{o} ab{s}) (<= t{o} t{s})))\n"));
                    }
                }
            }
            self.active_abs.push((*s, self.depth));
        }
    }

    fn define(&mut self, id: u32) {
        let mut stack = vec![(id, false)];
        while let Some((t, ready)) = stack.pop() {
            if t == 0 {
                continue;
            }
            if self.defined.len() <= t as usize {
                self.defined.resize(t as usize + 1, false);
            }
            if self.defined[t as usize] {
                continue;
            }
            let ops = eng().arena.operands(t);
            if !ready && ops.iter().any(|o| *o != 0) {
                stack.push((t, true));
                for o in ops {
                    stack.push((o, false));
                }
                continue;
            }
            self.defined[t as usize] = true;
            let d = self.deps(t);
            for v in &d.0 {
                self.declare(*v);
            }
            if self.is_abs(t) {
                self.define_abs(t);
                continue;
            }
            let (sort, body) = eng().arena.smt(t, self.lin);
            self.solver.send(&format!("(define-fun t{t} () {sort} {body})\n"));
        }
    }

    fn define_abs(&mut self, t: u32) {
        self.solver.send(&format!("(declare-const t{t} Int)\n"));
        let e = eng();
        let nd = e.arena.nodes[t as usize];
        let m = e.arena.meta[t as usize];
        let f = 2f64.powi(m.scale);
        let mut l = vec![format!("(assert (and (<= {} t{t}) (<= t{t} {})))\n", n((m.lo * f) as i128), n((m.hi * f) as i128))];
        if nd.op == Op::Mul && nd.a == nd.b {
            let ma = e.arena.meta[nd.a as usize];
            let top = (ma.lo.abs().max(ma.hi.abs()) * 2f64.powi(ma.scale)) as i128;
            self.solver.send(&format!("(define-fun ab{t} () Int (ite (< t{a} 0) (- t{a}) t{a}))\n", a = nd.a));
            l.push(format!("(assert (>= t{t} ab{t}))\n(assert (<= t{t} (* {top} ab{t})))\n"));
            let mut k = 1;
            while k < top {
                l.push(format!("(assert (>= t{t} (- (* {} ab{t}) {})))\n", 2 * k + 1, k * (k + 1)));
                k *= 2;
            }
        }
        self.lemmas.insert(t, l);
    }

    pub fn assert_term(&mut self, id: u32, val: bool) {
        self.define(id);
        self.activate(id);
        self.solver.send(&if val { format!("(assert t{id})\n") } else { format!("(assert (not t{id}))\n") });
    }

    pub fn push_atom(&mut self, a: &Atom) {
        self.scope();
        match *a {
            Atom::Cmp { a, b, taken, .. } => {
                let id = eng().arena.mk(Op::Cmp, a, b, 0, taken as u64);
                self.assert_term(id, true);
            }
            Atom::Bool { term, val } => self.assert_term(term, val),
            Atom::Assumed { term } => self.assert_term(term, true),
            Atom::Violated { term } => self.assert_term(term, false),
        }
        self.stack.push(*a);
    }

    pub fn pop_atom(&mut self) {
        self.unscope();
        self.stack.pop();
    }

    /// Make the asserted path condition the given one.
    pub fn sync(&mut self, base: &[Atom]) {
        let mut k = 0;
        while k < base.len() && k < self.stack.len() && base[k] == self.stack[k] {
            k += 1;
        }
        while self.stack.len() > k {
            self.pop_atom();
        }
        for a in &base[k..] {
            self.push_atom(a);
        }
    }

    pub fn push_goals(&mut self, goals: &[u32]) {
        self.scope();
        for g in goals {
            self.define(*g);
            self.activate(*g);
        }
        let s: Vec<String> = goals.iter().map(|g| format!("(not t{g})")).collect();
        self.solver.send(&if s.len() == 1 { format!("(assert {})\n", s[0]) } else { format!("(assert (or {}))\n", s.join(" ")) });
    }

    pub fn pop_goals(&mut self) {
        self.unscope();
    }

    /// Raw values of the variables that matter.
    pub fn model(&mut self) -> HashMap<usize, u64> {
        let vars: Vec<usize> = self.active_vars.iter().map(|v| v.0).collect();
        let names: Vec<String> = vars.iter().map(|v| format!("v{v}")).collect();
        let vals = self.solver.values(&names);
        let e = eng();
        vars.iter().zip(vals).map(|(v, x)| (*v, if self.lin { x } else { e.arena.raw_of_bits(*v, x) })).collect()
    }

    /// Compare the products in the solver's model (already installed in the engine) with the
    /// real ones; state what was wrong as lemmas. False if nothing was wrong.
    pub fn refine(&mut self) -> bool {
        let abs: Vec<u32> = self.active_abs.iter().map(|a| a.0).collect();
        let names: Vec<String> = abs.iter().map(|t| format!("t{t}")).collect();
        let vals = self.solver.values(&names);
        let mut any = false;
        for (t, got) in abs.iter().zip(vals) {
            let (nd, real, a, b, top) = {
                let e = eng();
                let nd = e.arena.nodes[*t as usize];
                let sc = |i: u32| (e.eval(i) * 2f64.powi(e.arena.meta[i as usize].scale)) as i128;
                let real = sc(*t);
                if nd.op == Op::Mul {
                    let ma = e.arena.meta[nd.a as usize];
                    let top = (ma.lo.abs().max(ma.hi.abs()) * 2f64.powi(ma.scale)) as i128;
                    (nd, real, sc(nd.a), sc(nd.b), top)
                } else {
                    (nd, real, 0, 0, 0)
                }
            };
            let got = got as i64 as i128;
            if got == real || nd.op != Op::Mul {
                continue;
            }
            any = true;
            self.refinements += 1;
            let mut l = String::new();
            if nd.a == nd.b {
                let x = a.abs();
                if got < real {
                    for k in [x - 1, x] {
                        l += &format!("(assert (>= t{t} (- (* {} ab{t}) {})))\n", 2 * k + 1, n(k * (k + 1)));
                    }
                } else {
                    l += &format!("(assert (=> (<= ab{t} {x}) (<= t{t} (* {x} ab{t}))))\n(assert (=> (>= ab{t} {x}) (<= t{t} (- (* {} ab{t}) {}))))\n", x + top, x * top);
                }
            } else {
                l += &format!("(assert (=> (and (= t{} {}) (= t{} {})) (= t{t} {})))\n", nd.a, n(a), nd.b, n(b), n(real));
            }
            self.solver.send(&l);
            let v = self.lemmas.get_mut(t).unwrap();
            if v.len() < 60 {
                v.push(l);
            }
        }
        any
    }
}
