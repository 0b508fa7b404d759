//! C20 circuit polynomials, C21 satisfaction check, C22 shape, C31 errors
use halo::dev::*;
use halo::*;
use hv::cs::Rec;
use hv::ensure;
use hv::gen::*;
use hv::gprog::{self, GProg};
use hv::params::params;
use hv::proto::dummy_proof;
use hv::prog::*;
use hv::sponge::Sponge;
use hv::*;
use std::collections::HashSet;

fn pick_k(n: usize, q: usize, extra: usize) -> usize {
    let mut k = 4;
    while n >= (1 << k) / 4 || q >= (1 << k) {
        k += 1;
    }
    k + extra
}
fn nz<F: PF>(s: &mut Src) -> F {
    let x: F = gen_fe(s);
    if bool::from(x.is_zero()) {
        F::from_u64(3)
    } else {
        x
    }
}
fn merged<F: PF>(t: impl Iterator<Item = (W, F)>) -> Vec<(W, F)> {
    let mut v: Vec<(W, F)> = vec![];
    for (w, c) in t {
        if let Some(x) = v.iter_mut().find(|x| x.0 == w) {
            x.1 += c;
        } else {
            v.push((w, c));
        }
    }
    v.retain(|x| !bool::from(x.1.is_zero()));
    v.sort_by_key(|x| match x.0 {
        W::A(i) => (i, 0),
        W::B(i) => (i, 1),
        W::C(i) => (i, 2),
    });
    v
}
/// Does the recorded circuit mean what the program says?
fn check_wiring<F: PF>(p: &Prog<F>, w: &Wires<F>) -> Res {
    let m = p.model();
    let vars: Vec<W> = p.vars.borrow().iter().map(|v| wire(*v)).collect();
    ensure!(vars.len() == m.vals.len(), "wiring/registers", "{} variables, expected {}", vars.len(), m.vals.len());
    let set: HashSet<W> = vars.iter().copied().collect();
    ensure!(set.len() == vars.len(), "wiring/shared", "two variables share a wire: {:?}", vars);
    for v in &vars {
        let i = match v {
            W::A(i) | W::B(i) | W::C(i) => *i,
        };
        ensure!(i >= 1 && i <= w.n, "wiring/range", "wire {:?} of {} gates", v, w.n);
    }
    let mut of_gate = HashSet::new();
    for (a, b, c) in &m.gates {
        match (vars[*a], vars[*b], vars[*c]) {
            (W::A(i), W::B(j), W::C(k)) if i == j && j == k => {
                of_gate.insert(i);
            }
            x => return fail("wiring/gate", format!("a multiplication uses wires {:?}", x)),
        }
    }
    for v in &vars {
        if let W::C(i) = v {
            ensure!(of_gate.contains(i), "wiring/product", "a free variable sits on product wire {:?}", v);
        }
    }
    ensure!(w.lcs.len() == m.lcs.len(), "wiring/constraints", "{} constraints, expected {}", w.lcs.len(), m.lcs.len());
    for (i, (t, _)) in m.lcs.iter().enumerate() {
        let want = merged(t.iter().map(|(r, c)| (vars[*r], *c)));
        let got = merged(w.lcs[i].iter().copied());
        ensure!(want == got, "wiring/constraint", "constraint {}: {} expected {}", i + 1, short(&format!("{:?}", got)), short(&format!("{:?}", want)));
    }
    let want: Vec<usize> = m.lcs.iter().enumerate().filter(|x| x.1 .1.is_some()).map(|x| x.0 + 1).collect();
    let got: Vec<usize> = w.ks.iter().map(|x| x.0).collect();
    ensure!(want == got, "wiring/inputs", "inputs at {:?}, expected {:?}", got, want);
    Ok(())
}
fn absorb_pt<C: PC>(s: &mut Sponge<C::Base>, p: &C) {
    let (x, y) = pt(p).map(|(x, y)| (fe(&x), fe(&y))).unwrap_or((C::Base::zero(), C::Base::zero()));
    s.absorb(x);
    s.absorb(y);
}
fn challenge<C: PC>(s: &mut Sponge<C::Base>) -> C::Scalar {
    let v = val(&s.squeeze());
    fe(&[v[0], v[1] | 1 << 63, 0, 0])
}
fn eval<F: PF>(v: &[F], x: F) -> F {
    let mut a = F::zero();
    for c in v.iter().rev() {
        a = a * x + *c;
    }
    a
}

// ------------------------------------------------------------------ C20

fn c20<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let len = s.range(1, 14);
    let p = gen_prog::<C::Scalar>(s, len);
    c20_of::<C>(s, cx, p)
}
/// hundreds of gates, constraints, inputs or terms
fn c20_large<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let (p, what) = gen_large::<C::Scalar>(s, if thorough() { 3000 } else { 1200 });
    cx.label(what);
    c20_of::<C>(s, cx, p)
}
fn c20_of<C: PC>(s: &mut Src, cx: &mut Cx, p: Prog<C::Scalar>) -> Res {
    cx.sample(|| format!("{}: {}", C::NAME, p.describe()));
    let d = || format!("{} circuit: {}", C::NAME, p.describe());
    let mut w = Wires::with_witness();
    Basic::synthesize(&mut w, &p).expect("synthesis");
    check_wiring(&p, &w).map_err(|f| Fail { msg: format!("{}; {}", f.msg, d()), ..f })?;
    let m = p.model();
    {
        let vars = p.vars.borrow();
        for (r, v) in m.vals.iter().enumerate() {
            ensure!(w.get(wire(vars[r])) == *v, "wiring/value", "register {} has another value; {}", r, d());
        }
        for i in 1..=w.n {
            let (a, b, c) = (w.get(W::A(i)), w.get(W::B(i)), w.get(W::C(i)));
            let user = m.gates.iter().any(|g| wire(vars[g.0]) == W::A(i));
            ensure!(user || a * b == c, "wiring/filler", "gate {} holds only free variables but is not satisfied; {}", i, d());
        }
        for (j, (_, v)) in w.ks.iter().enumerate() {
            ensure!(*v == Some(m.vals[m.inputs[j]]), "wiring/input-value", "input {} is announced as {:?}; {}", j, v, d());
        }
    }
    let q = w.lcs.len();
    let extra = s.weighted(&[6, 1, 1]);
    let k = pick_k(w.n, q, extra);
    let par = params::<C>(k);
    let n = par.n;
    let y: C::Scalar = nz(s);
    let x: C::Scalar = nz(s);
    cx.label(["n+", "n+", "n+"][extra]);
    for pr in [&p, &p.blank()] {
        let sx = par.compute_sx::<_, Basic>(pr, y).expect("sx");
        let want = w.sx(n, y);
        ensure!(sx.len() == want.len(), "sx/length", "{} coefficients of s(X, y), expected {}; {}", sx.len(), want.len(), d());
        for i in 0..sx.len() {
            ensure!(sx[i] == want[i], "sx/coefficient", "coefficient of X^{} in s(X, {:?}) for k = {} is {:?}, expected {:?}; {}", i as i64 - n as i64, y, k, sx[i], want[i], d());
        }
        let sy = par.compute_sy::<_, Basic>(pr, x, n, q).expect("sy");
        let want = w.sy(n, x);
        ensure!(sy.len() == want.len(), "sy/length", "{} coefficients of s(x, Y), expected {}; {}", sy.len(), want.len(), d());
        for i in 0..sy.len() {
            ensure!(sy[i] == want[i], "sy/coefficient", "coefficient of Y^{} in s({:?}, Y) for k = {} is {:?}, expected {:?}; {}", i, x, k, sy[i], want[i], d());
        }
        let s1 = par.compute_opening(&sx, x, false);
        let s2 = par.compute_opening(&sy, y, false);
        let xn = x.pow(&[n as u64, 0, 0, 0]);
        let s0 = w.s_eval(n, x, y);
        ensure!(s1 == s0 * xn && s2 == s0, "s/value", "s(x, y) is {:?} (from s(X, y)) and {:?} (from s(x, Y)), expected {:?}; {}", s1 * xn.invert().unwrap(), s2, s0, d());
        cx.checks += 3;
    }
    if s.chance(1, 6) {
        // the verifier's side
        cx.label("verifier");
        let ins = p.inputs();
        let ky = w.ky(&ins);
        let mut kc = C::zero();
        for (i, c) in ky.iter().enumerate() {
            kc = kc + par.generators[i] * *c;
        }
        let pr = dummy_proof(par);
        let (_, _, def, _) = pr.verify::<_, Basic>(&Leftovers::dummy(par), par, &p.blank(), &ins, None).expect("verify");
        let mut t = Sponge::<C::Base>::new();
        absorb_pt(&mut t, &kc);
        absorb_pt(&mut t, &pr.r_commitment);
        let y_cur = challenge::<C>(&mut t);
        ensure!(def.y_cur == y_cur, "k/commitment", "the verifier's commitment to k(Y) is not that of the expected polynomial; {}", d());
        ensure!(def.ky_opening == eval(&ky, y_cur), "k/opening", "k(y_cur) = {:?}, expected {:?}; {}", def.ky_opening, eval(&ky, y_cur), d());
        // the linear-time check of s(X, y)
        let mut sc = C::zero();
        for (i, c) in w.sx(n, y_cur).iter().enumerate() {
            sc = sc + par.generators[i] * *c;
        }
        let l = Leftovers { s_new_commitment: sc, y_new: y_cur, ..Leftovers::dummy(par) };
        ensure!(l.verify::<_, Basic>(par, &p.blank()).unwrap(), "s/commitment", "the check of s(X, y) refuses the commitment to the expected polynomial; {}", d());
        let bad = Leftovers { s_new_commitment: sc + par.generators[s.below(3 * n + 1)], ..l };
        ensure!(!bad.verify::<_, Basic>(par, &p.blank()).unwrap(), "s/commitment-other", "the check of s(X, y) accepts another polynomial; {}", d());
        cx.checks += 4;
    }
    if q >= 3 && w.n >= 2 && !m.gates.is_empty() {
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------ C21

fn c21<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let len = s.range(1, 12);
    let p = gen_prog::<F>(s, len);
    c21_of(s, cx, p)
}
fn c21_large<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let (p, what) = gen_large::<F>(s, if thorough() { 3000 } else { 1000 });
    cx.label(what);
    c21_of(s, cx, p)
}
fn c21_of<F: PF>(s: &mut Src, cx: &mut Cx, mut p: Prog<F>) -> Res {
    let hits = s.weighted(&[4, 6, 2, 1]);
    for _ in 0..hits {
        let l = perturb(s, &mut p);
        cx.label(l);
    }
    let mut ins = p.inputs();
    match s.below(7) {
        0 if !ins.is_empty() => {
            let i = s.below(ins.len());
            ins[i] += F::one();
            cx.label("input changed");
        }
        1 if ins.len() > 1 => {
            let i = s.below(ins.len());
            let j = s.below(ins.len());
            ins.swap(i, j);
            cx.label("inputs swapped");
        }
        2 => match s.below(3) {
            0 => ins.push(F::from_u64(s.u8() as u64)),
            1 => {
                ins.pop();
            }
            _ => ins.insert(0, F::one()),
        },
        _ => {}
    }
    cx.sample(|| format!("{}: {} inputs {}", F::NAME, p.describe(), short(&format!("{:?}", ins))));
    verdict(&p, &ins, cx)?;
    if hits > 0 || s.bool() {
        cx.nontrivial();
    }
    Ok(())
}
fn verdict<F: PF>(p: &Prog<F>, ins: &[F], cx: &mut Cx) -> Res {
    let m = p.model();
    let d = || format!("{} circuit: {} inputs {}", F::NAME, p.describe(), short(&format!("{:?}", ins)));
    let got = is_satisfied::<_, _, Basic>(p, ins);
    let want = m.holds(ins);
    cx.checks += 1;
    cx.label(if want { "satisfied" } else { "violated" });
    match got {
        Ok(true) => ensure!(want, "accepts", "a violated circuit is reported satisfied; {}", d()),
        Ok(false) => return fail("false", format!("Ok(false) names no violated constraint; {}", d())),
        Err(e) => {
            ensure!(!want, "rejects", "a satisfied circuit is reported as {}; {}", short(&format!("{:?}", e)), d());
            let named = match &e {
                SatisfactionError::InputLength(g, x) => {
                    ins.len() + 1 != m.inputs.len() && *g == ins.len() && *x == m.inputs.len() - 1
                }
                _ if ins.len() + 1 != m.inputs.len() => false,
                SatisfactionError::Multiplication(_, a, b, c) => {
                    *a * *b != *c && m.gates.iter().any(|g| (m.vals[g.0], m.vals[g.1], m.vals[g.2]) == (*a, *b, *c))
                }
                SatisfactionError::Linear(_, l, r) => {
                    l != r && (0..m.lcs.len()).any(|i| m.lhs(i) == *l && m.rhs(i, ins) == *r)
                }
                SatisfactionError::Synthesis(_) => false,
            };
            ensure!(named, "names", "the error {} names no violated constraint; {}", short(&format!("{:?}", e)), d());
        }
    }
    Ok(())
}
/// A single false element that nothing else depends on.
fn c21_one<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let (p, what) = gen_one_false::<F>(s);
    cx.label(what);
    cx.sample(|| format!("{}: {}", F::NAME, p.describe()));
    verdict(&p, &p.inputs(), cx)?;
    cx.nontrivial();
    Ok(())
}
fn c21_one_large<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let total = s.range(50, 1000);
    let tape = grown(s.u64(), 100 * total + 1000);
    let (p, what) = gen_one_false_of::<F>(&mut Src::new(&tape), total);
    cx.label(what);
    cx.sample(|| format!("{}: {}", F::NAME, p.describe()));
    verdict(&p, &p.inputs(), cx)?;
    cx.nontrivial();
    Ok(())
}
/// The same verdict as a proof.
fn c21_proof<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let len = s.range(1, 6);
    let mut p = gen_prog::<C::Scalar>(s, len);
    trim(&mut p, 7, 31);
    if s.bool() {
        perturb(s, &mut p);
    }
    let mut ins = p.inputs();
    if !ins.is_empty() && s.chance(1, 4) {
        let i = s.below(ins.len());
        ins[i] += C::Scalar::one();
    }
    let w = p.record();
    let par = params::<C>(pick_k(w.n, w.lcs.len(), 0));
    cx.sample(|| format!("{}: {}", C::NAME, p.describe()));
    let dev = matches!(is_satisfied::<_, _, Basic>(&p, &ins), Ok(true));
    let old = Leftovers::dummy(par);
    let proof = guarded(|| {
        let (proof, _) = Proof::new::<_, Basic>(par, &p, &old).ok()?;
        let (ok, l, def, _) = proof.verify::<_, Basic>(&old, par, &p.blank(), &ins, None).ok()?;
        Some(ok && def.verify(par.k) && l.verify::<_, Basic>(par, &p.blank()).ok()?)
    });
    let accepted = matches!(proof, Ok(Some(true)));
    cx.checks += 1;
    cx.label(if dev { "satisfied" } else { "violated" });
    ensure!(dev == accepted, "disagrees", "the satisfaction check says {}, a proof says {}; {} circuit: {}", dev, accepted, C::NAME, p.describe());
    cx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ C22

fn c22<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let len = s.range(1, 16);
    let ops = gprog::gen_gprog::<C>(s, len);
    cx.sample(|| format!("{}: {}", C::NAME, gprog::describe(&ops)));
    let d = || format!("{} composition: {}", C::NAME, gprog::describe(&ops));
    let (blank, eb, complete) = gprog::parity::<C>(&ops, cx)?;
    let done = complete.len();
    if done == 2 {
        cx.label("two witnesses");
    }
    if eb.is_ok() {
        // the tools report that shape
        let none = GProg::<C> { ops: ops.clone(), set: None };
        for set in [None, Some(0), Some(1)] {
            let c = GProg::<C> { ops: ops.clone(), set };
            let counts = constraint_count::<_, _, Basic>(&c).map_err(|e| Fail { sig: "count/error".into(), msg: format!("{:?}; {}", e, d()) })?;
            let root = &counts[""].0;
            ensure!(
                root.mult_constraints == blank.gates.len()
                    && root.allocations == blank.vals.len() - 3 * blank.gates.len()
                    && root.total_lcs == blank.lcs.len() + 1 + blank.inputs.len(),
                "count/totals", "counts {} for {} gates, {} variables, {} constraints and {} inputs; {}", root, blank.gates.len(), blank.vals.len(), blank.lcs.len(), blank.inputs.len(), d()
            );
            let mut w = Wires::default();
            Basic::synthesize(&mut w, &c).map_err(|e| Fail { sig: "blank/error".into(), msg: format!("{:?}; {}", e, d()) })?;
            ensure!(w.n == root.total_mults && w.lcs.len() == root.total_lcs, "count/backend", "counts {} for {} gates and {} constraints; {}", root, w.n, w.lcs.len(), d());
            ensure!(w.depth == 0, "namespaces", "unbalanced; {}", d());
            cx.checks += 2;
        }
        let det = guarded(|| determinism_check(&none));
        ensure!(matches!(det, Ok(Err(_))) || blank.vals.len() == 1, "determinism/no-witness", "without a witness: {:?}; {}", det, d());
        for set in 0..2 {
            let det = guarded(|| determinism_check(&GProg::<C> { ops: ops.clone(), set: Some(set) }));
            let want = complete.contains(&set);
            match det {
                Ok(Ok(())) => ensure!(want, "determinism/accepts", "accepted though the witness cannot be synthesised; {}", d()),
                Ok(Err(_)) => ensure!(!want, "determinism/error", "an error for a good witness; {}", d()),
                Err(m) => return fail("determinism/panic", format!("{}; {}", m, d())),
            }
            cx.checks += 1;
        }
    }
    if done >= 1 && ops.len() > 4 {
        cx.nontrivial();
    }
    Ok(())
}
/// Per-namespace counts of random circuits, and circuits whose shape depends on the witness.
struct Shifty<'a, F: PF> {
    p: &'a Prog<F>,
    q: &'a Prog<F>,
}
impl<'a, F: PF> Circuit<F> for Shifty<'a, F> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut known = false;
        cs.alloc(
            || "probe",
            || {
                known = true;
                Ok(F::one())
            },
        )?;
        if known {
            self.q.synthesize(cs)
        } else {
            self.p.synthesize(cs)
        }
    }
}
fn counts_of<F: PF>(ops: &[Op<F>], path: &str, ns: &mut usize, out: &mut Vec<(String, [usize; 3])>) -> [usize; 3] {
    let mut c = [0, 0, 0];
    for o in ops {
        match o {
            Op::Alloc(_) => c[0] += 1,
            Op::Input(_) => {
                c[0] += 1;
                c[2] += 1
            }
            Op::Mul(..) => c[1] += 1,
            Op::Zero(_) => c[2] += 1,
            Op::Ns(i) => {
                let name = if path.is_empty() { format!("n{}", ns) } else { format!("{}/n{}", path, ns) };
                *ns += 1;
                let x = counts_of(i, &name, ns, out);
                out.push((name, x));
                for j in 0..3 {
                    c[j] += x[j];
                }
            }
        }
    }
    c
}
fn c22_tools<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let len = s.range(1, 14);
    let p = gen_prog::<F>(s, len);
    c22_tools_of(s, cx, p)
}
fn c22_tools_large<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let (p, what) = gen_large::<F>(s, if thorough() { 3000 } else { 1000 });
    cx.label(what);
    c22_tools_of(s, cx, p)
}
fn c22_tools_of<F: PF>(s: &mut Src, cx: &mut Cx, p: Prog<F>) -> Res {
    cx.sample(|| format!("{}: {}", F::NAME, p.describe()));
    let mut want = vec![];
    let mut root = counts_of(&p.ops, "", &mut 0, &mut want);
    root[0] += 1;
    root[2] += 1;
    want.push((String::new(), root));
    for c in [&p, &p.blank()] {
        let got = constraint_count::<_, _, Basic>(c).expect("count");
        ensure!(got.len() == want.len(), "paths", "{} namespaces counted, expected {}; {}", got.len(), want.len(), p.describe());
        for (path, w) in &want {
            let g = match got.get(path) {
                Some(g) => &g.0,
                None => return fail("paths", format!("no count for {:?}; {}", path, p.describe())),
            };
            ensure!([g.allocations, g.mult_constraints, g.total_lcs] == *w, "namespace", "{:?} counts {}, expected {:?}; {}", path, g, w, p.describe());
            cx.checks += 1;
        }
        ensure!(got[""].0.total_mults == c.record().n, "gates", "{} gates counted; {}", got[""].0, p.describe());
    }
    ensure!(matches!(guarded(|| determinism_check(&p)), Ok(Ok(()))), "determinism/rejects", "{}", p.describe());
    // a circuit that changes when its witness is known
    let mut q = p.clone();
    let kind = s.below(5);
    let regs = q.model().vals.len();
    match kind {
        0 => q.ops.push(Op::Alloc(F::one())),
        1 => q.ops.push(Op::Mul(F::one(), F::one(), F::one())),
        2 => q.ops.push(Op::Zero(Expr::empty())),
        3 => {
            // another term or coefficient in one constraint
            let mut n = 0;
            leaves_mut(&mut q.ops, &mut |o| n += matches!(o, Op::Zero(_)) as usize);
            if n == 0 {
                q.ops.push(Op::Input(F::one()));
            } else {
                let at = s.below(n);
                let mut i = 0;
                leaves_mut(&mut q.ops, &mut |o| {
                    if let Op::Zero(e) = o {
                        if i == at {
                            e.steps.push(Step::AddC(Coeff::Full(F::from_u64(2)), 0));
                        }
                        i += 1;
                    }
                });
            }
        }
        _ => {
            // another variable
            let a = s.below(regs);
            let b = (a + 1 + s.below(regs.max(2) - 1)) % regs;
            let mut pp = p.clone();
            pp.ops.push(Op::Zero(Expr { start: Some(a), steps: vec![] }));
            q.ops.push(Op::Zero(Expr { start: Some(b), steps: vec![] }));
            if a != b {
                let r = guarded(|| determinism_check(&Shifty { p: &pp, q: &q }));
                ensure!(!matches!(r, Ok(Ok(()))), "determinism/variable", "accepted though a constraint uses another variable; {}", p.describe());
            }
        }
    }
    if kind < 4 {
        // more with a witness than without, and the other way round
        let r = guarded(|| determinism_check(&Shifty { p: &p, q: &q }));
        ensure!(!matches!(r, Ok(Ok(()))), "determinism/accepts", "accepted though the shape depends on the witness (kind {}); {}", kind, p.describe());
        let r = guarded(|| determinism_check(&Shifty { p: &q, q: &p }));
        ensure!(!matches!(r, Ok(Ok(()))), "determinism/shorter", "accepted though the circuit loses something (kind {}) when its witness is known; {}", kind, p.describe());
    }
    cx.checks += 1;
    if want.len() > 1 {
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------ C31

const ERRS: [SynthesisError; 4] = [SynthesisError::AssignmentMissing, SynthesisError::DivisionByZero, SynthesisError::Unsatisfiable, SynthesisError::Violation];

fn c31<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let len = s.range(1, 8);
    let mut p = gen_prog::<C::Scalar>(s, len);
    trim(&mut p, 15, 63);
    let closures = p.model().closures;
    let w = p.record();
    let par = params::<C>(pick_k(w.n, w.lcs.len(), 0));
    let ins = p.inputs();
    let old = Leftovers::dummy(par);
    cx.sample(|| format!("{}: {}", C::NAME, p.describe()));
    let d = |c: &Prog<C::Scalar>| format!("{} circuit: {}, failing {:?}", C::NAME, p.describe(), c.fail);
    // value functions that fail, everywhere
    let mut bad: Vec<Prog<C::Scalar>> = (0..closures).map(|i| Prog { fail: Some((i, ERRS[(i + closures) % 4])), ..p.clone() }).collect();
    if closures > 0 {
        bad.push(p.blank());
        bad.push(Prog { fail: Some((s.below(closures), s.pick(&ERRS))), ..p.clone() });
        cx.nontrivial();
    }
    for c in &bad {
        let r = guarded(|| is_satisfied::<_, _, Basic>(c, &ins));
        ensure!(matches!(r, Ok(Err(SatisfactionError::Synthesis(_)))), "is_satisfied", "{}; {}", short(&format!("{:?}", r)), d(c));
        let r = guarded(|| Proof::new::<_, Basic>(par, c, &old).map(|_| ()));
        ensure!(matches!(r, Ok(Err(_))), "Proof::new", "{:?}; {}", r, d(c));
        let r = guarded(|| determinism_check(c));
        ensure!(matches!(r, Ok(Err(_))), "determinism_check", "{:?}; {}", r, d(c));
        let mut rec = Rec::new(true);
        ensure!(c.synthesize(&mut rec).is_err(), "synthesize", "{}", d(c));
        // these do not need a witness
        let y = C::Scalar::from_u64(5);
        let r = guarded(|| (par.compute_sx::<_, Basic>(c, y).ok() == par.compute_sx::<_, Basic>(&p, y).ok(), constraint_count::<_, _, Basic>(c).map(|x| x[""].0.total_lcs)));
        ensure!(r == Ok((true, Ok(w.lcs.len()))), "witness-free", "{:?}; {}", r, d(c));
        cx.checks += 5;
    }
    // a wrong number of inputs
    let mut more = ins.clone();
    more.push(C::Scalar::zero());
    let mut wrong = vec![more];
    if !ins.is_empty() {
        wrong.push(ins[1..].to_vec());
        wrong.push(ins[..ins.len() - 1].to_vec());
    }
    let proof = if s.chance(1, 8) { Some(Proof::new::<_, Basic>(par, &p, &old).expect("a true statement").0) } else { None };
    for x in &wrong {
        let r = guarded(|| is_satisfied::<_, _, Basic>(&p, x));
        ensure!(r == Ok(Err(SatisfactionError::InputLength(x.len(), ins.len()))), "input-length", "{} inputs for {}: {}", x.len(), ins.len(), short(&format!("{:?}", r)));
        let dp = proof.clone().unwrap_or(dummy_proof(par));
        let r = guarded(|| dp.verify::<_, Basic>(&old, par, &p.blank(), x, None).map(|v| v.0));
        ensure!(!matches!(r, Ok(Ok(true))), "verify/input-length", "accepted with {} inputs for {}; {}", x.len(), ins.len(), p.describe());
        cx.checks += 2;
    }
    Ok(())
}

/// A circuit whose synthesis itself stops with an error after some operations.
struct Abort<'a, F: PF>(&'a Prog<F>, SynthesisError);
impl<'a, F: PF> Circuit<F> for Abort<'a, F> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        self.0.synthesize(cs)?;
        Err(self.1)
    }
}
fn c31_abort<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let len = s.range(0, 6);
    let mut p = gen_prog::<C::Scalar>(s, len);
    trim(&mut p, 7, 31);
    let e = s.pick(&ERRS);
    let c = Abort(&p, e);
    let w = p.record();
    let par = params::<C>(pick_k(w.n, w.lcs.len(), 0));
    let ins = p.inputs();
    let old = Leftovers::dummy(par);
    let (x, y) = (C::Scalar::from_u64(7), C::Scalar::from_u64(5));
    cx.sample(|| format!("{}: {} then {:?}", C::NAME, p.describe(), e));
    let pr = dummy_proof(par);
    let r: Vec<(&str, bool)> = vec![
        ("is_satisfied", matches!(guarded(|| is_satisfied::<_, _, Basic>(&c, &ins)), Ok(Err(SatisfactionError::Synthesis(_))))),
        ("Proof::new", matches!(guarded(|| Proof::new::<_, Basic>(par, &c, &old).map(|_| ())), Ok(Err(_)))),
        ("Proof::verify", matches!(guarded(|| pr.verify::<_, Basic>(&old, par, &c, &ins, None).map(|_| ())), Ok(Err(_)))),
        ("Leftovers::verify", matches!(guarded(|| old.verify::<_, Basic>(par, &c)), Ok(Err(_)))),
        ("compute_sx", matches!(guarded(|| par.compute_sx::<_, Basic>(&c, y)), Ok(Err(_)))),
        ("compute_sy", matches!(guarded(|| par.compute_sy::<_, Basic>(&c, x, par.n, w.lcs.len())), Ok(Err(_)))),
        ("constraint_count", matches!(guarded(|| constraint_count::<_, _, Basic>(&c).map(|_| ())), Ok(Err(_)))),
        ("determinism_check", matches!(guarded(|| determinism_check(&c)), Ok(Err(_)))),
    ];
    for (n, ok) in r {
        ensure!(ok, format!("abort/{}", n), "{} gives no error for a circuit that stops with {:?}; {}", n, e, p.describe());
        cx.checks += 1;
    }
    cx.nontrivial();
    Ok(())
}
/// Gadget compositions in which a value function fails or an operation is undefined.
fn c31_gadgets<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let len = s.range(1, 8);
    let ops = gprog::gen_gprog::<C>(s, len);
    let c = GProg::<C> { ops: ops.clone(), set: Some(0) };
    cx.sample(|| format!("{}: {}", C::NAME, gprog::describe(&ops)));
    let d = || format!("{} composition: {}", C::NAME, gprog::describe(&ops));
    let mut rec = Rec::new(true);
    let e = c.synthesize(&mut rec);
    let ins: Vec<C::Base> = rec.inputs.iter().map(|i| rec.vals[*i].unwrap()).collect();
    let dev = guarded(|| is_satisfied::<_, _, Basic>(&c, &ins));
    if e.is_err() {
        cx.label("undefined");
        ensure!(matches!(dev, Ok(Err(_))), "gadget/undefined", "synthesis fails with {:?}, but is_satisfied gives {}; {}", e, short(&format!("{:?}", dev)), d());
        cx.nontrivial();
    } else {
        let sat = rec.satisfied().is_none();
        ensure!(matches!(dev, Ok(Ok(true))) == sat, "gadget/verdict", "recorded assignment satisfied: {}, is_satisfied gives {}; {}", sat, short(&format!("{:?}", dev)), d());
    }
    let blank = GProg::<C> { ops: ops.clone(), set: None };
    let r = guarded(|| is_satisfied::<_, _, Basic>(&blank, &ins));
    ensure!(matches!(r, Ok(Err(SatisfactionError::Synthesis(_)))), "gadget/blank", "{}; {}", short(&format!("{:?}", r)), d());
    // every value function in turn, or a sample of them
    let n = rec.closures;
    let tries: Vec<usize> = if n <= 40 { (0..n).collect() } else { (0..40).map(|_| s.below(n)).collect() };
    for i in tries {
        let mut r = Rec::new(true);
        r.fail_at = Some(i);
        let e = guarded(|| c.synthesize(&mut r));
        ensure!(matches!(e, Ok(Err(_))), "gadget/swallowed", "value function {} fails, synthesis gives {:?}; {}", i, e, d());
        cx.checks += 1;
    }
    cx.nontrivial();
    Ok(())
}
/// Operations with undefined operands, one at a time.
#[derive(Clone)]
struct Undef<C: PC> {
    kind: usize,
    v: C::Base,
    p: big::Pt,
    q: big::Pt,
}
impl<C: PC> Circuit<C::Base> for Undef<C> {
    fn synthesize<CS: ConstraintSystem<C::Base>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        match self.kind {
            0 => AllocatedNum::alloc(cs.namespace(|| "x"), || Ok(self.v))?.invert(cs.namespace(|| "op")).map(|_| ()),
            1 => AllocatedNum::alloc(cs.namespace(|| "x"), || Ok(self.v))?.sqrt(cs.namespace(|| "op")).map(|_| ()),
            2 => {
                let (x, y) = self.p.unwrap();
                let p = C::from_xy_unchecked(fe(&x), fe::<C::Base>(&y) + self.v);
                CurvePoint::witness(cs.namespace(|| "p"), || Ok(p)).map(|_| ())
            }
            _ => {
                let p = CurvePoint::<C>::witness(cs.namespace(|| "p"), || Ok(mk(&self.p)))?;
                let q = CurvePoint::<C>::witness(cs.namespace(|| "q"), || Ok(mk(&self.q)))?;
                match self.kind {
                    3 => p.add_incomplete(cs.namespace(|| "op"), &q).map(|_| ()),
                    4 => p.double_and_add_incomplete(cs.namespace(|| "op"), &q).map(|_| ()),
                    _ => {
                        let b = AllocatedBit::alloc(cs.namespace(|| "b"), || Ok(true))?;
                        p.add_conditionally_incomplete(cs.namespace(|| "op"), &q, &b.into()).map(|_| ())
                    }
                }
            }
        }
    }
}
fn c31_undefined<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let kind = s.below(6);
    let names = ["invert", "sqrt", "off-curve point", "add_incomplete", "double_and_add_incomplete", "add_conditionally_incomplete"];
    cx.label(names[kind]);
    let rc = C::rc();
    let mut p = hv::points::gen_ref::<C>(s);
    if p.is_none() {
        p = hv::points::pool::<C>()[0];
    }
    let q = match (kind, s.below(2)) {
        (3, 0) | (5, 0) => p,
        (4, 0) => rc.neg(&rc.add(&p, &p)),
        _ => rc.neg(&p),
    };
    let mut v: C::Base = gen_fe(s);
    match kind {
        0 => v = C::Base::zero(),
        1 => {
            if bool::from(v.is_zero()) || bool::from(v.sqrt().is_some()) {
                v = v * v * C::Base::ALPHA;
                // ALPHA generates the 2-power roots of unity, hence is not a square
                if bool::from(v.is_zero()) {
                    v = C::Base::ALPHA;
                }
            }
        }
        2 => {
            if bool::from(v.is_zero()) {
                v = C::Base::one();
            }
            if rc.on_curve(&p.map(|(x, y)| (x, rc.m.add(&y, &val(&v))))) {
                v = C::Base::one();
            }
        }
        _ => {}
    }
    let c = Undef::<C> { kind, v, p, q };
    cx.sample(|| format!("{} {} v = {:?} p = {:?} q = {:?}", C::NAME, names[kind], v, p, q));
    let r = guarded(|| is_satisfied::<_, _, Basic>(&c, &[]));
    ensure!(matches!(r, Ok(Err(_))), format!("undefined/{}", names[kind]), "{} {} v = {:?}, p = {:?}, q = {:?}: {}", C::NAME, names[kind], v, p, q, short(&format!("{:?}", r)));
    cx.checks += 1;
    cx.nontrivial();
    Ok(())
}

fn part(name: &'static str, tape: usize, quick: u64, thorough: u64, case: CaseFn) -> Part {
    Part { name, tape, quick, thorough, case }
}
fn main() {
    hv::main(vec![
        Spec {
            id: "C20",
            rule: "at least 3 linear constraints, 2 gates and one multiplication",
            assumptions: &["s(X, Y) and k(Y) are as documented in src/proofs.rs: constraint q is weighted by Y^q; wires a, b, c of gate i by X^-i, X^i, X^(i+n)"],
            parts: vec![
                part("Ec0", 3000, 700, 30000, c20::<Ec0>),
                part("Ec1", 3000, 700, 30000, c20::<Ec1>),
                part("large-Ec0", 400, 40, 3000, c20_large::<Ec0>),
                part("large-Ec1", 400, 40, 3000, c20_large::<Ec1>),
            ],
        },
        Spec {
            id: "C21",
            rule: "a circuit with something perturbed, or (half of the others) a satisfied one",
            assumptions: &[],
            parts: vec![
                part("Fp", 3000, 8000, 600000, c21::<Fp>),
                part("Fq", 3000, 8000, 600000, c21::<Fq>),
                part("one-Fp", 1500, 6000, 400000, c21_one::<Fp>),
                part("one-Fq", 1500, 6000, 400000, c21_one::<Fq>),
                part("large-Fp", 600, 60, 10000, c21_large::<Fp>),
                part("large-Fq", 600, 60, 10000, c21_large::<Fq>),
                part("one-large-Fp", 40, 100, 10000, c21_one_large::<Fp>),
                part("one-large-Fq", 40, 100, 10000, c21_one_large::<Fq>),
                part("proof-Ec0", 2000, 100, 2000, c21_proof::<Ec0>),
                part("proof-Ec1", 2000, 100, 2000, c21_proof::<Ec1>),
            ],
        },
        Spec {
            id: "C22",
            rule: "at least one witness synthesises completely; for the tools: a circuit with namespaces",
            assumptions: &[],
            parts: vec![
                part("gadgets-Ec0", 6000, 600, 20000, c22::<Ec0>),
                part("gadgets-Ec1", 6000, 600, 20000, c22::<Ec1>),
                part("tools-Fp", 3000, 1500, 60000, c22_tools::<Fp>),
                part("tools-Fq", 3000, 1500, 60000, c22_tools::<Fq>),
                part("tools-large-Fp", 400, 40, 5000, c22_tools_large::<Fp>),
                part("tools-large-Fq", 400, 40, 5000, c22_tools_large::<Fq>),
            ],
        },
        Spec {
            id: "C31",
            rule: "an error is injected or an operation is undefined",
            assumptions: &[],
            parts: vec![
                part("circuits-Ec0", 3000, 250, 4000, c31::<Ec0>),
                part("circuits-Ec1", 3000, 250, 4000, c31::<Ec1>),
                part("abort-Ec0", 3000, 250, 3000, c31_abort::<Ec0>),
                part("abort-Ec1", 3000, 250, 3000, c31_abort::<Ec1>),
                part("gadgets-Ec0", 6000, 250, 5000, c31_gadgets::<Ec0>),
                part("gadgets-Ec1", 6000, 250, 5000, c31_gadgets::<Ec1>),
                part("undefined-Ec0", 400, 2000, 20000, c31_undefined::<Ec0>),
                part("undefined-Ec1", 400, 2000, 20000, c31_undefined::<Ec1>),
            ],
        },
    ]);
}
