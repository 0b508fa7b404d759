//! Random circuits as data, with a model of what they mean.
use crate::engine::grown;
use crate::engine::Src;
use crate::gen::{gen_fe_fast, PF};
use halo::{Backend, Basic, Circuit, Coeff, ConstraintSystem, Field, LinearCombination, SynthesisDriver, SynthesisError, Variable};
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum Step<F: Field> {
    Add(usize),
    Sub(usize),
    AddC(Coeff<F>, usize),
    SubC(Coeff<F>, usize),
    AddL(Expr<F>),
    SubL(Expr<F>),
    AddCL(Coeff<F>, Expr<F>),
    SubCL(Coeff<F>, Expr<F>),
}
/// A linear combination written with the operators of the library. Variables are registers; register 0 is ONE.
#[derive(Clone, Debug)]
pub struct Expr<F: Field> {
    pub start: Option<usize>,
    pub steps: Vec<Step<F>>,
}
impl<F: Field> Expr<F> {
    pub fn empty() -> Self {
        Expr { start: None, steps: vec![] }
    }
    pub fn build(&self, v: &[Variable]) -> LinearCombination<F> {
        let mut l = match self.start {
            None => LinearCombination::zero(),
            Some(i) => LinearCombination::from(v[i]),
        };
        for s in &self.steps {
            l = match s {
                Step::Add(i) => l + v[*i],
                Step::Sub(i) => l - v[*i],
                Step::AddC(c, i) => l + (*c, v[*i]),
                Step::SubC(c, i) => l - (*c, v[*i]),
                Step::AddL(e) => l + &e.build(v),
                Step::SubL(e) => l - &e.build(v),
                Step::AddCL(c, e) => l + (*c, &e.build(v)),
                Step::SubCL(c, e) => l - (*c, &e.build(v)),
            };
        }
        l
    }
    /// (register, coefficient) pairs, unmerged
    pub fn terms(&self) -> Vec<(usize, F)> {
        let mut t = vec![];
        if let Some(i) = self.start {
            t.push((i, F::one()));
        }
        let cv = |c: &Coeff<F>| match c {
            Coeff::Zero => F::zero(),
            Coeff::One => F::one(),
            Coeff::NegativeOne => F::zero() - F::one(),
            Coeff::Full(x) => *x,
        };
        for s in &self.steps {
            match s {
                Step::Add(i) => t.push((*i, F::one())),
                Step::Sub(i) => t.push((*i, F::zero() - F::one())),
                Step::AddC(c, i) => t.push((*i, cv(c))),
                Step::SubC(c, i) => t.push((*i, F::zero() - cv(c))),
                Step::AddL(e) => t.extend(e.terms()),
                Step::SubL(e) => t.extend(e.terms().into_iter().map(|(v, x)| (v, F::zero() - x))),
                Step::AddCL(c, e) => t.extend(e.terms().into_iter().map(|(v, x)| (v, x * cv(c)))),
                Step::SubCL(c, e) => t.extend(e.terms().into_iter().map(|(v, x)| (v, F::zero() - x * cv(c)))),
            }
        }
        t
    }
    pub fn value(&self, w: &[F]) -> F {
        let mut a = F::zero();
        for (v, c) in self.terms() {
            a += w[v] * c;
        }
        a
    }
}

#[derive(Clone, Debug)]
pub enum Op<F: Field> {
    Alloc(F),
    Input(F),
    Mul(F, F, F),
    Zero(Expr<F>),
    Ns(Vec<Op<F>>),
}

#[derive(Clone, Debug)]
pub struct Prog<F: Field> {
    pub ops: Vec<Op<F>>,
    pub witness: bool,
    /// the value function with this number (in program order) returns this error
    pub fail: Option<(usize, SynthesisError)>,
    /// variables of the registers, as handed out during the last synthesis
    pub vars: RefCell<Vec<Variable>>,
}

pub struct Model<F: Field> {
    /// register values, register 0 is ONE
    pub vals: Vec<F>,
    pub gates: Vec<(usize, usize, usize)>,
    /// terms, and the number of the input (0 is ONE) if the constraint exposes one
    pub lcs: Vec<(Vec<(usize, F)>, Option<usize>)>,
    /// registers of the inputs
    pub inputs: Vec<usize>,
    pub closures: usize,
}

impl<F: Field> Prog<F> {
    pub fn new(ops: Vec<Op<F>>) -> Self {
        Prog { ops, witness: true, fail: None, vars: RefCell::new(vec![]) }
    }
    pub fn blank(&self) -> Self {
        Prog { witness: false, fail: None, ..self.clone() }
    }
    fn value<T>(&self, i: usize, v: T) -> Result<T, SynthesisError> {
        if let Some((j, e)) = self.fail {
            if i == j {
                return Err(e);
            }
        }
        if self.witness {
            Ok(v)
        } else {
            Err(SynthesisError::AssignmentMissing)
        }
    }
    fn go<CS: ConstraintSystem<F>>(&self, cs: &mut CS, ops: &[Op<F>], n: &mut usize, ns: &mut usize) -> Result<(), SynthesisError> {
        for op in ops {
            match op {
                Op::Alloc(v) => {
                    let i = *n;
                    *n += 1;
                    let x = cs.alloc(|| format!("a{}", i), || self.value(i, *v))?;
                    self.vars.borrow_mut().push(x);
                }
                Op::Input(v) => {
                    let i = *n;
                    *n += 1;
                    let x = cs.alloc_input(|| format!("i{}", i), || self.value(i, *v))?;
                    self.vars.borrow_mut().push(x);
                }
                Op::Mul(a, b, c) => {
                    let i = *n;
                    *n += 1;
                    let (x, y, z) = cs.multiply(|| format!("m{}", i), || self.value(i, (*a, *b, *c)))?;
                    self.vars.borrow_mut().extend([x, y, z]);
                }
                Op::Zero(e) => {
                    let l = e.build(&self.vars.borrow());
                    cs.enforce_zero(l);
                }
                Op::Ns(inner) => {
                    let j = *ns;
                    *ns += 1;
                    if j % 2 == 0 {
                        let mut sub = cs.namespace(|| format!("n{}", j));
                        self.go(&mut sub, inner, n, ns)?;
                    } else {
                        // through a mutable reference
                        let mut r = &mut *cs;
                        let mut sub = ConstraintSystem::namespace(&mut r, || format!("n{}", j));
                        self.go(&mut sub, inner, n, ns)?;
                    }
                }
            }
        }
        Ok(())
    }
    pub fn model(&self) -> Model<F> {
        let mut m = Model {
            vals: vec![F::one()],
            gates: vec![],
            lcs: vec![(vec![(0, F::one())], Some(0))],
            inputs: vec![0],
            closures: 0,
        };
        fn go<F: Field>(m: &mut Model<F>, ops: &[Op<F>]) {
            for op in ops {
                match op {
                    Op::Alloc(v) => {
                        m.vals.push(*v);
                        m.closures += 1;
                    }
                    Op::Input(v) => {
                        m.closures += 1;
                        let r = m.vals.len();
                        m.vals.push(*v);
                        m.lcs.push((vec![(r, F::one())], Some(m.inputs.len())));
                        m.inputs.push(r);
                    }
                    Op::Mul(a, b, c) => {
                        m.closures += 1;
                        let r = m.vals.len();
                        m.vals.extend([*a, *b, *c]);
                        m.gates.push((r, r + 1, r + 2));
                    }
                    Op::Zero(e) => m.lcs.push((e.terms(), None)),
                    Op::Ns(i) => go(m, i),
                }
            }
        }
        go(&mut m, &self.ops);
        m
    }
    /// values of the public inputs as the circuit assigns them
    pub fn inputs(&self) -> Vec<F> {
        let m = self.model();
        m.inputs[1..].iter().map(|r| m.vals[*r]).collect()
    }
    pub fn record(&self) -> Wires<F> {
        let mut w = Wires::default();
        Basic::synthesize(&mut w, self).expect("synthesis");
        w
    }
    pub fn describe(&self) -> String {
        fn go<F: PFmt>(ops: &[Op<F>], o: &mut String) {
            for op in ops {
                match op {
                    Op::Alloc(v) => *o += &format!("alloc({:?}); ", v),
                    Op::Input(v) => *o += &format!("input({:?}); ", v),
                    Op::Mul(a, b, c) => *o += &format!("mul({:?}, {:?}, {:?}); ", a, b, c),
                    Op::Zero(e) => *o += &format!("zero({}); ", e.terms().iter().map(|(v, c)| format!("{:?}*r{}", c, v)).collect::<Vec<_>>().join(" + ")),
                    Op::Ns(i) => {
                        *o += "{ ";
                        go(i, o);
                        *o += "} ";
                    }
                }
            }
        }
        trait PFmt: Field {}
        impl<F: Field> PFmt for F {}
        let mut o = String::new();
        go(&self.ops, &mut o);
        short(&o)
    }
}
/// shorten long hexadecimal literals
pub fn short(s: &str) -> String {
    let mut o = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '0' && i + 66 <= b.len() && b[i + 1] == 'x' && b[i + 2..i + 66].iter().all(|c| c.is_ascii_hexdigit()) {
            let h: String = b[i + 2..i + 66].iter().collect();
            let t = h.trim_start_matches('0');
            if t.len() <= 12 {
                o += &format!("0x{}", if t.is_empty() { "0" } else { t });
            } else {
                o += &format!("0x{}..{}", &t[..6], &t[t.len() - 4..]);
            }
            i += 66;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

impl<F: Field> Circuit<F> for Prog<F> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        {
            let mut v = self.vars.borrow_mut();
            v.clear();
            v.push(CS::ONE);
        }
        self.go(cs, &self.ops, &mut 0, &mut 0)
    }
}

impl<F: Field> Model<F> {
    pub fn gate_bad(&self, i: usize) -> bool {
        let (a, b, c) = self.gates[i];
        self.vals[a] * self.vals[b] != self.vals[c]
    }
    pub fn lhs(&self, i: usize) -> F {
        let mut a = F::zero();
        for (v, c) in &self.lcs[i].0 {
            a += self.vals[*v] * *c;
        }
        a
    }
    pub fn rhs(&self, i: usize, inputs: &[F]) -> F {
        match self.lcs[i].1 {
            None => F::zero(),
            Some(0) => F::one(),
            Some(j) => inputs[j - 1],
        }
    }
    /// do all gates and constraints hold for these inputs?
    pub fn holds(&self, inputs: &[F]) -> bool {
        inputs.len() + 1 == self.inputs.len()
            && (0..self.gates.len()).all(|i| !self.gate_bad(i))
            && (0..self.lcs.len()).all(|i| self.lhs(i) == self.rhs(i, inputs))
    }
}

// ---------------------------------------------------------------- recording backend

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum W {
    A(usize),
    B(usize),
    C(usize),
}
pub fn wire(v: Variable) -> W {
    match v {
        Variable::A(i) => W::A(i),
        Variable::B(i) => W::B(i),
        Variable::C(i) => W::C(i),
    }
}
/// What a backend is told about a circuit.
#[derive(Clone, Default, Debug)]
pub struct Wires<F: Field> {
    pub n: usize,
    pub lcs: Vec<Vec<(W, F)>>,
    pub ks: Vec<(usize, Option<F>)>,
    pub val: std::collections::HashMap<W, F>,
    pub depth: i64,
    /// ask for values
    pub witness: bool,
}
impl<F: Field> Wires<F> {
    pub fn with_witness() -> Self {
        Wires { witness: true, ..Default::default() }
    }
    pub fn get(&self, w: W) -> F {
        self.val.get(&w).copied().unwrap_or(F::zero())
    }
    /// s(x, y) by definition, for gate bound n
    pub fn s_eval(&self, n: usize, x: F, y: F) -> F {
        let xi = x.invert().unwrap();
        let mut acc = F::zero();
        let mut yq = F::one();
        let pw = |b: F, e: usize| b.pow(&[e as u64, 0, 0, 0]);
        for lc in &self.lcs {
            yq = yq * y;
            for (w, c) in lc {
                let xp = match w {
                    W::A(i) => pw(xi, *i),
                    W::B(i) => pw(x, *i),
                    W::C(i) => pw(x, *i + n),
                };
                acc += yq * *c * xp;
            }
        }
        acc
    }
    /// coefficients of X^n s(X, y): index n + e for X^e
    pub fn sx(&self, n: usize, y: F) -> Vec<F> {
        let mut v = vec![F::zero(); 3 * n + 1];
        let mut yq = F::one();
        for lc in &self.lcs {
            yq = yq * y;
            for (w, c) in lc {
                let i = match w {
                    W::A(i) => n - i,
                    W::B(i) => n + i,
                    W::C(i) => n + i + n,
                };
                v[i] += yq * *c;
            }
        }
        v
    }
    /// coefficients of s(x, Y)
    pub fn sy(&self, n: usize, x: F) -> Vec<F> {
        let xi = x.invert().unwrap();
        let pw = |b: F, e: usize| b.pow(&[e as u64, 0, 0, 0]);
        let mut v = vec![F::zero()];
        for lc in &self.lcs {
            let mut a = F::zero();
            for (w, c) in lc {
                a += *c
                    * match w {
                        W::A(i) => pw(xi, *i),
                        W::B(i) => pw(x, *i),
                        W::C(i) => pw(x, *i + n),
                    };
            }
            v.push(a);
        }
        v
    }
    /// coefficients of k(Y) for these public inputs (without the leading one)
    pub fn ky(&self, inputs: &[F]) -> Vec<F> {
        let mut v = vec![F::zero(); self.lcs.len() + 1];
        for (j, (q, _)) in self.ks.iter().enumerate() {
            v[*q] = if j == 0 { F::one() } else { inputs[j - 1] };
        }
        v
    }
}
impl<'a, F: Field> Backend<F> for &'a mut Wires<F> {
    type LinearConstraintIndex = usize;
    fn get_var(&self, var: Variable) -> Option<F> {
        self.val.get(&wire(var)).copied()
    }
    fn set_var<FF, A, AR>(&mut self, _a: Option<A>, var: Variable, value: FF) -> Result<(), SynthesisError>
    where
        FF: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if self.witness {
            let v = value()?;
            assert!(self.val.insert(wire(var), v).is_none(), "a wire is set twice");
        }
        Ok(())
    }
    fn new_multiplication_gate<A, AR>(&mut self, _a: Option<A>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.n += 1;
    }
    fn new_linear_constraint<A, AR>(&mut self, _a: A) -> usize
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.lcs.push(vec![]);
        self.lcs.len()
    }
    fn insert_coefficient(&mut self, var: Variable, coeff: Coeff<F>, y: &usize) {
        let c = match coeff {
            Coeff::Zero => F::zero(),
            Coeff::One => F::one(),
            Coeff::NegativeOne => F::zero() - F::one(),
            Coeff::Full(x) => x,
        };
        self.lcs[*y - 1].push((wire(var), c));
    }
    fn get_for_q(&self, q: usize) -> usize {
        q
    }
    fn new_k_power(&mut self, index: usize, value: Option<F>) -> Result<(), SynthesisError> {
        self.ks.push((index, value));
        Ok(())
    }
    fn push_namespace<NR, N>(&mut self, _n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.depth += 1;
    }
    fn pop_namespace(&mut self, _g: Option<String>) {
        self.depth -= 1;
        assert!(self.depth >= 0, "unbalanced namespaces");
    }
}

// ---------------------------------------------------------------- generation

pub fn gen_coeff<F: PF>(s: &mut Src) -> Coeff<F> {
    match s.below(6) {
        0 => Coeff::One,
        1 => Coeff::NegativeOne,
        2 => Coeff::Zero,
        _ => Coeff::Full(gen_fe_fast(s)),
    }
}
fn gen_reg(s: &mut Src, n: usize) -> usize {
    match s.below(4) {
        0 => 0,
        1 => n - 1 - s.below(n.min(3)),
        _ => s.below(n),
    }
}
pub fn gen_expr<F: PF>(s: &mut Src, n: usize, depth: usize) -> Expr<F> {
    let start = if s.bool() { Some(gen_reg(s, n)) } else { None };
    let mut steps = vec![];
    for _ in 0..s.below(5) {
        let k = if depth == 0 { s.below(4) } else { s.below(8) };
        steps.push(match k {
            0 => Step::Add(gen_reg(s, n)),
            1 => Step::Sub(gen_reg(s, n)),
            2 => Step::AddC(gen_coeff(s), gen_reg(s, n)),
            3 => Step::SubC(gen_coeff(s), gen_reg(s, n)),
            4 => Step::AddL(gen_expr(s, n, depth - 1)),
            5 => Step::SubL(gen_expr(s, n, depth - 1)),
            6 => Step::AddCL(gen_coeff(s), gen_expr(s, n, depth - 1)),
            _ => Step::SubCL(gen_coeff(s), gen_expr(s, n, depth - 1)),
        });
    }
    Expr { start, steps }
}
struct G<F: PF> {
    w: Vec<F>,
}
fn gen_v<F: PF>(s: &mut Src, w: &[F]) -> F {
    match s.below(4) {
        0 => w[s.below(w.len())],
        _ => gen_fe_fast(s),
    }
}
fn gen_ops<F: PF>(s: &mut Src, g: &mut G<F>, len: usize, depth: usize, out: &mut Vec<Op<F>>) {
    for _ in 0..len {
        match s.weighted(&[3, 3, 4, 5, if depth > 0 { 2 } else { 0 }]) {
            0 => {
                let v = gen_v(s, &g.w);
                g.w.push(v);
                out.push(Op::Alloc(v));
            }
            1 => {
                let v = gen_v(s, &g.w);
                g.w.push(v);
                out.push(Op::Input(v));
            }
            2 => {
                // sometimes fed by existing registers, linked by constraints
                let n = g.w.len();
                let (ra, rb) = (gen_reg(s, n), gen_reg(s, n));
                let linked = s.bool();
                let (a, b) = if linked { (g.w[ra], g.w[rb]) } else { (gen_v(s, &g.w), gen_v(s, &g.w)) };
                out.push(Op::Mul(a, b, a * b));
                g.w.extend([a, b, a * b]);
                if linked {
                    out.push(Op::Zero(Expr { start: Some(n), steps: vec![Step::Sub(ra)] }));
                    out.push(Op::Zero(Expr { start: Some(n + 1), steps: vec![Step::Sub(rb)] }));
                }
            }
            3 => {
                let mut e = gen_expr::<F>(s, g.w.len(), 2);
                let v = e.value(&g.w);
                if !bool::from(v.is_zero()) {
                    // balance it
                    match s.below(4) {
                        0 => e.steps.push(Step::SubC(Coeff::Full(v), 0)),
                        1 => {
                            out.push(Op::Alloc(v));
                            g.w.push(v);
                            e.steps.push(Step::Sub(g.w.len() - 1));
                        }
                        2 => {
                            out.push(Op::Input(-v));
                            g.w.push(-v);
                            e.steps.push(Step::AddC(Coeff::One, g.w.len() - 1));
                        }
                        _ => {
                            let r = gen_reg(s, g.w.len());
                            let x = g.w[r];
                            if bool::from(x.is_zero()) {
                                e.steps.push(Step::AddC(Coeff::Full(-v), 0));
                            } else {
                                e.steps.push(Step::SubCL(Coeff::Full(v * x.invert().unwrap()), Expr { start: Some(r), steps: vec![] }));
                            }
                        }
                    }
                }
                out.push(Op::Zero(e));
            }
            _ => {
                let mut inner = vec![];
                let l = s.below(4);
                gen_ops(s, g, l, depth - 1, &mut inner);
                out.push(Op::Ns(inner));
            }
        }
    }
}
/// A satisfied program of about len operations.
pub fn gen_prog<F: PF>(s: &mut Src, len: usize) -> Prog<F> {
    let mut g = G { w: vec![F::one()] };
    let mut ops = vec![];
    gen_ops(s, &mut g, len, 2, &mut ops);
    Prog::new(ops)
}
/// A satisfied program of hundreds of operations, or a smaller one with many inputs, gates or terms.
pub fn gen_large<F: PF>(s: &mut Src, max: usize) -> (Prog<F>, &'static str) {
    let len = s.range(max / 8, max);
    let kind = s.below(5);
    let tape = grown(s.u64(), 300 * max + 4000);
    let s = &mut Src::new(&tape);
    let mut g = G { w: vec![F::one()] };
    let mut ops = vec![];
    let before = if kind == 0 { len } else { s.below(20) };
    gen_ops(s, &mut g, before, 2, &mut ops);
    match kind {
        1 => {
            for _ in 0..len {
                let v = gen_v(s, &g.w);
                g.w.push(v);
                ops.push(Op::Input(v));
            }
        }
        2 => {
            for _ in 0..len {
                let (a, b) = (gen_v(s, &g.w), gen_v(s, &g.w));
                g.w.extend([a, b, a * b]);
                ops.push(Op::Mul(a, b, a * b));
            }
        }
        3 => {
            // one constraint over everything
            for _ in 0..s.below(len) {
                let v = gen_v(s, &g.w);
                g.w.push(v);
                ops.push(Op::Alloc(v));
            }
            let n = g.w.len();
            let mut e = Expr { start: Some(s.below(n)), steps: vec![] };
            for _ in 0..len {
                e.steps.push(match s.below(3) {
                    0 => Step::Add(s.below(n)),
                    1 => Step::Sub(s.below(n)),
                    _ => Step::AddC(gen_coeff(s), s.below(n)),
                });
            }
            let v = e.value(&g.w);
            e.steps.push(Step::SubC(Coeff::Full(v), 0));
            ops.push(Op::Zero(e));
        }
        4 => {
            // many short constraints
            for _ in 0..len {
                let r = s.below(g.w.len());
                let c = gen_coeff::<F>(s);
                let mut e = Expr { start: None, steps: vec![Step::AddC(c, r)] };
                let v = e.value(&g.w);
                e.steps.push(Step::SubC(Coeff::Full(v), 0));
                ops.push(Op::Zero(e));
            }
        }
        _ => {}
    }
    let after = s.below(20);
    gen_ops(s, &mut g, after, 2, &mut ops);
    (Prog::new(ops), ["mixed", "inputs", "gates", "one constraint", "constraints"][kind])
}
/// Drop operations from the end until at most n gates and q constraints are used.
pub fn trim<F: PF>(p: &mut Prog<F>, n: usize, q: usize) {
    loop {
        let w = p.record();
        if w.n <= n && w.lcs.len() <= q {
            return;
        }
        p.ops.pop();
    }
}
/// Add gates and constraints until exactly n gates and q constraints are used.
pub fn fill<F: PF>(s: &mut Src, p: &mut Prog<F>, n: usize, q: usize) {
    loop {
        let w = p.record();
        let regs = p.model().vals.len();
        if w.n < n {
            let a = gen_fe_fast::<F>(s);
            let b = gen_fe_fast::<F>(s);
            p.ops.push(Op::Mul(a, b, a * b));
        } else if w.lcs.len() < q {
            let r = s.below(regs);
            let m = p.model();
            p.ops.push(Op::Zero(if s.bool() { Expr::empty() } else { Expr { start: Some(r), steps: vec![Step::SubC(Coeff::Full(m.vals[r]), 0)] } }));
        } else {
            return;
        }
    }
}

/// Visit every operation that is not a namespace, in program order.
pub fn leaves_mut<F: Field>(ops: &mut [Op<F>], f: &mut dyn FnMut(&mut Op<F>)) {
    for op in ops.iter_mut() {
        match op {
            Op::Ns(i) => leaves_mut(i, f),
            o => f(o),
        }
    }
}
fn nonzero<F: PF>(s: &mut Src) -> F {
    let d: F = gen_fe_fast(s);
    if bool::from(d.is_zero()) {
        F::one()
    } else {
        d
    }
}
/// Break something in a satisfied program: a value of a gate, an allocated value, or a constraint. Returns what.
pub fn perturb<F: PF>(s: &mut Src, p: &mut Prog<F>) -> &'static str {
    let mut kinds: Vec<(usize, u8)> = vec![];
    let mut i = 0;
    leaves_mut(&mut p.ops, &mut |o| {
        match o {
            Op::Mul(..) => kinds.extend([(i, 0), (i, 1), (i, 2)]),
            Op::Zero(..) => kinds.extend([(i, 3), (i, 4)]),
            Op::Alloc(..) => kinds.push((i, 5)),
            Op::Input(..) => kinds.push((i, 6)),
            _ => {}
        }
        i += 1;
    });
    if kinds.is_empty() {
        return "none";
    }
    let (at, kind) = kinds[s.below(kinds.len())];
    let d: F = nonzero(s);
    let c = nonzero(s);
    let reg = s.u16() as usize;
    let regs = p.model().vals.len();
    let mut i = 0;
    let mut seen = 1usize;
    leaves_mut(&mut p.ops, &mut |o| {
        if i == at {
            match (o as &mut Op<F>, kind) {
                (Op::Mul(a, _, _), 0) => *a += d,
                (Op::Mul(_, b, _), 1) => *b += d,
                (Op::Mul(_, _, c), 2) => *c += d,
                (Op::Zero(e), 3) => e.steps.push(Step::AddC(Coeff::Full(d), 0)),
                (Op::Zero(e), _) => e.steps.push(Step::AddC(if c == F::one() { Coeff::One } else { Coeff::Full(c) }, reg % seen.min(regs))),
                (Op::Alloc(v), _) | (Op::Input(v), _) => *v += d,
                _ => {}
            }
        }
        match o {
            Op::Mul(..) => seen += 3,
            Op::Alloc(..) | Op::Input(..) => seen += 1,
            _ => {}
        }
        i += 1;
    });
    ["gate-a", "gate-b", "gate-c", "constraint-constant", "constraint-term", "alloc", "input"][kind as usize]
}

// ---------------------------------------------------------------- one false element

/// Terms that add up to zero, or to something else, in every form the library offers.
fn gen_piece<F: PF>(s: &mut Src, w: &[F], zero: bool) -> Expr<F> {
    let n = w.len();
    let (a, b) = (gen_reg(s, n), gen_reg(s, n));
    let c = gen_coeff::<F>(s);
    let r = |start, steps| Expr { start, steps };
    if zero {
        match s.below(7) {
            0 => Expr::empty(),
            1 => r(Some(a), vec![Step::Sub(a)]),
            2 => r(None, vec![Step::AddC(c, a), Step::SubC(c, a)]),
            3 => r(Some(a), vec![Step::SubC(Coeff::Full(w[a]), 0)]),
            4 => r(None, vec![Step::AddC(Coeff::Zero, a)]),
            5 => r(None, vec![Step::AddC(Coeff::Full(F::zero()), a)]),
            _ => r(None, vec![Step::AddCL(c, r(Some(a), vec![Step::Sub(b)])), Step::SubCL(c, r(None, vec![Step::Add(a), Step::Sub(b)]))]),
        }
    } else {
        match s.below(5) {
            0 => r(Some(a), vec![]),
            1 => r(None, vec![Step::AddC(c, a)]),
            2 => r(Some(a), vec![Step::Sub(b)]),
            3 => r(None, vec![Step::Sub(a), Step::AddC(Coeff::Full(nonzero(s)), 0)]),
            _ => r(None, vec![Step::AddC(c, a), Step::SubC(c, b)]),
        }
    }
}
fn gen_joint<F: PF>(s: &mut Src, e: &mut Expr<F>, piece: Expr<F>) {
    match s.below(5) {
        0 => {
            if let Some(a) = piece.start {
                e.steps.push(Step::Add(a));
            }
            e.steps.extend(piece.steps);
        }
        1 => e.steps.push(Step::AddL(piece)),
        2 => e.steps.push(Step::SubL(piece)),
        3 => e.steps.push(Step::AddCL(gen_coeff(s), piece)),
        _ => e.steps.push(Step::SubCL(gen_coeff(s), piece)),
    }
}
/// A program of plain allocations, inputs and true gates, without constraints but those of the inputs, and one element
/// that is false. Nothing else in it could be upset by what makes the false element pass.
pub fn gen_one_false<F: PF>(s: &mut Src) -> (Prog<F>, &'static str) {
    let total = s.below(9);
    gen_one_false_of(s, total)
}
pub fn gen_one_false_of<F: PF>(s: &mut Src, total: usize) -> (Prog<F>, &'static str) {
    let mut ops: Vec<Op<F>> = vec![];
    let mut w = vec![F::one()];
    let at = if s.chance(1, 3) { total } else { s.below(total + 1) };
    let mut what = "";
    for i in 0..=total {
        if i == at {
            let v = gen_v(s, &w);
            match s.weighted(&[6, 2, 1, 1]) {
                0 => {
                    let mut e = Expr::empty();
                    let wrong = s.below(3);
                    for j in 0..3 {
                        if j == wrong || s.bool() {
                            let piece = gen_piece(s, &w, j != wrong);
                            gen_joint(s, &mut e, piece);
                        }
                    }
                    ops.push(Op::Zero(e));
                    what = "constraint";
                }
                1 => {
                    let (a, b) = (gen_v(s, &w), gen_v(s, &w));
                    let (a, b) = s.pick(&[(a, b), (F::zero(), b), (a, F::zero()), (F::one(), b), (a, a)]);
                    let d: F = nonzero(s);
                    let (a, b, c) = s.pick(&[(a, b, a * b + d), (a, b, F::zero()), (a, b, a), (a, b, F::zero() - a * b), (a, b, a * b + F::one())]);
                    ops.push(Op::Mul(a, b, c));
                    w.extend([a, b, c]);
                    what = "gate";
                }
                2 => {
                    let (r, d) = (gen_reg(s, w.len()), nonzero::<F>(s));
                    w.push(w[r] + d);
                    ops.push(Op::Input(w[r] + d));
                    ops.push(Op::Zero(Expr { start: Some(w.len() - 1), steps: vec![Step::Sub(r)] }));
                    what = "input link";
                }
                _ => {
                    let (a, b) = (gen_v(s, &w), v);
                    let n = w.len();
                    let r = gen_reg(s, n);
                    ops.push(Op::Mul(a, b, a * b));
                    w.extend([a, b, a * b]);
                    ops.push(Op::Zero(Expr { start: Some(n + s.below(3)), steps: vec![Step::Sub(r)] }));
                    what = "gate link";
                }
            }
        }
        if i < total {
            match s.below(3) {
                0 => {
                    let v = gen_v(s, &w);
                    w.push(v);
                    ops.push(Op::Alloc(v));
                }
                1 => {
                    let v = gen_v(s, &w);
                    w.push(v);
                    ops.push(Op::Input(v));
                }
                _ => {
                    let (a, b) = (gen_v(s, &w), gen_v(s, &w));
                    w.extend([a, b, a * b]);
                    ops.push(Op::Mul(a, b, a * b));
                }
            }
        }
    }
    if s.chance(1, 3) {
        let from = s.below(ops.len());
        let inner = ops.split_off(from);
        ops.push(Op::Ns(inner));
    }
    (Prog::new(ops), what)
}
/// Add true gates until n are used.
pub fn fill_gates<F: PF>(s: &mut Src, p: &mut Prog<F>, n: usize) {
    while p.record().n < n {
        let a = gen_fe_fast::<F>(s);
        let b = gen_fe_fast::<F>(s);
        p.ops.push(Op::Mul(a, b, a * b));
    }
}
impl<F: PF> Prog<F> {
    /// The program without its constraints and with true gates.
    pub fn map_zero_out(&self) -> Self {
        let mut p = self.clone();
        leaves_mut(&mut p.ops, &mut |o| match o {
            Op::Zero(e) => *e = Expr::empty(),
            Op::Mul(a, b, c) => *c = *a * *b,
            _ => {}
        });
        p
    }
}
