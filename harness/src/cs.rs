//! A recording constraint system, and an adversarial search for other satisfying assignments.
use crate::engine::Src;
use crate::gen::{gen_fe_fast, PF};
use halo::{ConstraintSystem, Field, LinearCombination, SynthesisError, Variable};

pub fn vid(v: Variable) -> usize {
    match v {
        Variable::A(i) => i - 1,
        _ => panic!("foreign variable"),
    }
}

/// Records every gate, linear constraint and value. All variables are Variable::A(id + 1); id 0 is ONE.
#[derive(Clone)]
pub struct Rec<F: Field> {
    pub vals: Vec<Option<F>>,
    pub gates: Vec<(usize, usize, usize)>,
    pub lcs: Vec<Vec<(usize, F)>>,
    pub inputs: Vec<usize>,
    /// call the witness closures
    pub witness: bool,
    pub depth: usize,
    /// fail the n-th witness closure (counting from 0)
    pub fail_at: Option<usize>,
    pub closures: usize,
}

impl<F: Field> Rec<F> {
    pub fn new(witness: bool) -> Self {
        Rec {
            vals: vec![if witness { Some(F::one()) } else { None }],
            gates: vec![],
            lcs: vec![],
            inputs: vec![],
            witness,
            depth: 0,
            fail_at: None,
            closures: 0,
        }
    }
    fn run<T>(&mut self, f: impl FnOnce() -> Result<T, SynthesisError>) -> Result<Option<T>, SynthesisError> {
        if !self.witness {
            return Ok(None);
        }
        let i = self.closures;
        self.closures += 1;
        if self.fail_at == Some(i) {
            return Err(SynthesisError::Violation);
        }
        f().map(Some)
    }
    pub fn assignment(&self) -> Vec<F> {
        self.vals.iter().map(|v| v.expect("value")).collect()
    }
    pub fn violated(&self, w: &[F]) -> Option<String> {
        if w[0] != F::one() {
            return Some("ONE is not one".into());
        }
        for (i, (a, b, c)) in self.gates.iter().enumerate() {
            if w[*a] * w[*b] != w[*c] {
                return Some(format!("gate {}", i));
            }
        }
        for (i, lc) in self.lcs.iter().enumerate() {
            let mut acc = F::zero();
            for (v, c) in lc {
                acc += w[*v] * *c;
            }
            if !bool::from(acc.is_zero()) {
                return Some(format!("linear constraint {}", i));
            }
        }
        None
    }
    pub fn satisfied(&self) -> Option<String> {
        self.violated(&self.assignment())
    }
    pub fn shape_differs<'a>(&self, o: &Rec<F>) -> Option<String> {
        if self.vals.len() != o.vals.len() {
            return Some(format!("{} against {} variables", self.vals.len(), o.vals.len()));
        }
        if self.gates != o.gates {
            return Some("gates differ".into());
        }
        if self.lcs.len() != o.lcs.len() {
            return Some(format!("{} against {} linear constraints", self.lcs.len(), o.lcs.len()));
        }
        for i in 0..self.lcs.len() {
            if self.lcs[i] != o.lcs[i] {
                return Some(format!("linear constraint {} differs", i));
            }
        }
        if self.inputs != o.inputs {
            return Some("inputs differ".into());
        }
        None
    }
}

pub fn lc_terms<F: Field>(lc: &LinearCombination<F>) -> Vec<(usize, F)> {
    lc.as_ref().iter().map(|(v, c)| (vid(*v), c.value())).collect()
}
pub fn lc_val<F: Field>(t: &[(usize, F)], w: &[F]) -> F {
    let mut a = F::zero();
    for (v, c) in t {
        a += w[*v] * *c;
    }
    a
}

impl<FF: Field> ConstraintSystem<FF> for Rec<FF> {
    type Root = Self;
    const ONE: Variable = Variable::A(1);

    fn alloc<F, A, AR>(&mut self, _a: A, value: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<FF, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = self.run(value)?;
        self.vals.push(v);
        Ok(Variable::A(self.vals.len()))
    }
    fn alloc_input<F, A, AR>(&mut self, a: A, value: F) -> Result<Variable, SynthesisError>
    where
        F: FnOnce() -> Result<FF, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = self.alloc(a, value)?;
        self.inputs.push(vid(v));
        Ok(v)
    }
    fn enforce_zero(&mut self, lc: LinearCombination<FF>) {
        self.lcs.push(lc_terms(&lc));
    }
    fn multiply<F, A, AR>(&mut self, _a: A, values: F) -> Result<(Variable, Variable, Variable), SynthesisError>
    where
        F: FnOnce() -> Result<(FF, FF, FF), SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = self.run(values)?;
        let n = self.vals.len();
        match v {
            Some((a, b, c)) => self.vals.extend([Some(a), Some(b), Some(c)]),
            None => self.vals.extend([None, None, None]),
        }
        self.gates.push((n, n + 1, n + 2));
        Ok((Variable::A(n + 1), Variable::A(n + 2), Variable::A(n + 3)))
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        let _ = n().into();
        self.depth += 1;
    }
    fn pop_namespace(&mut self, _g: Option<String>) {
        self.depth -= 1;
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
}

// ---------------------------------------------------------------- search for other assignments

#[derive(Clone, Copy)]
enum V<F> {
    Known(F),
    /// alpha * root + beta
    Aff(u32, F, F),
}

#[derive(Clone)]
struct State<F: Field> {
    v: Vec<V<F>>,
    members: Vec<Vec<u32>>,
    domain: Vec<Option<(F, F)>>,
    queue: Vec<u32>,
    queued: Vec<bool>,
}

pub struct Adv<F: Field> {
    n: usize,
    gates: Vec<(usize, usize, usize)>,
    lcs: Vec<Vec<(usize, F)>>,
    occ: Vec<Vec<u32>>,
    honest: Vec<F>,
    /// for the last gate of a chain x^2, x^4, x^5: the variable of x
    fives: Vec<usize>,
}

struct Conflict;

impl<F: PF> Adv<F> {
    pub fn new(rec: &Rec<F>) -> Self {
        let n = rec.vals.len();
        let mut occ = vec![vec![]; n];
        let mut lcs = vec![];
        let mut pos: Vec<usize> = vec![usize::MAX; n];
        for lc in &rec.lcs {
            let mut t: Vec<(usize, F)> = vec![];
            for (v, c) in lc {
                if pos[*v] != usize::MAX {
                    t[pos[*v]].1 += *c;
                } else {
                    pos[*v] = t.len();
                    t.push((*v, *c));
                }
            }
            for (v, _) in &t {
                pos[*v] = usize::MAX;
            }
            t.retain(|x| !bool::from(x.1.is_zero()));
            for (v, _) in &t {
                occ[*v].push(lcs.len() as u32);
            }
            lcs.push(t);
        }
        for (i, (a, b, c)) in rec.gates.iter().enumerate() {
            for v in [a, b, c] {
                occ[*v].push((lcs.len() + i) as u32);
            }
        }
        Adv { n, gates: rec.gates.clone(), lcs, occ, honest: rec.assignment(), fives: vec![usize::MAX; rec.gates.len()] }
    }

    /// Also take fifth roots, which are unique in both fields.
    pub fn with_fifth_roots(mut self) -> Self {
        let st = match self.base(&[]) {
            Some(s) => s,
            None => return self,
        };
        let same = |x: usize, y: usize| match (st.v[x], st.v[y]) {
            (V::Aff(r, a, b), V::Aff(q, c, d)) => r == q && a == c && b == d,
            _ => false,
        };
        let class = |x: usize| match st.v[x] {
            V::Aff(r, ..) => Some(r),
            _ => None,
        };
        let mut squares: std::collections::HashMap<u32, Vec<usize>> = Default::default();
        for (i, (a, b, c)) in self.gates.iter().enumerate() {
            if same(*a, *b) {
                if let Some(r) = class(*c) {
                    squares.entry(r).or_default().push(i);
                }
            }
        }
        // the gate that squares something into the value of v
        let root = |v: usize| class(v).and_then(|r| squares.get(&r)).map(|l| l.iter().copied().filter(|i| same(self.gates[*i].2, v)).collect::<Vec<_>>()).unwrap_or_default();
        let mut fives = self.fives.clone();
        for (i, (a, b, _)) in self.gates.iter().enumerate() {
            for (x4, x) in [(*a, *b), (*b, *a)] {
                for g4 in root(x4) {
                    for g2 in root(self.gates[g4].0) {
                        if same(self.gates[g2].0, x) {
                            fives[i] = x;
                        }
                    }
                }
            }
        }
        self.fives = fives;
        self
    }

    fn start(&self) -> State<F> {
        let m = self.lcs.len() + self.gates.len();
        State {
            v: (0..self.n).map(|i| V::Aff(i as u32, F::one(), F::zero())).collect(),
            members: (0..self.n).map(|i| vec![i as u32]).collect(),
            domain: vec![None; self.n],
            queue: (0..m as u32).collect(),
            queued: vec![true; m],
        }
    }
    fn push(&self, st: &mut State<F>, v: usize) {
        for c in &self.occ[v] {
            if !st.queued[*c as usize] {
                st.queued[*c as usize] = true;
                st.queue.push(*c);
            }
        }
    }
    fn inv(x: F) -> F {
        if x == F::one() || x == -F::one() {
            x
        } else {
            x.invert().unwrap()
        }
    }
    fn set_root(&self, st: &mut State<F>, r: usize, val: F) -> Result<(), Conflict> {
        if let Some((a, b)) = st.domain[r] {
            if val != a && val != b {
                return Err(Conflict);
            }
        }
        let ms = std::mem::take(&mut st.members[r]);
        for m in ms {
            if let V::Aff(_, al, be) = st.v[m as usize] {
                st.v[m as usize] = V::Known(al * val + be);
            }
            self.push(st, m as usize);
        }
        Ok(())
    }
    fn set(&self, st: &mut State<F>, v: usize, val: F) -> Result<(), Conflict> {
        match st.v[v] {
            V::Known(k) => {
                if k == val {
                    Ok(())
                } else {
                    Err(Conflict)
                }
            }
            V::Aff(r, al, be) => self.set_root(st, r as usize, (val - be) * Self::inv(al)),
        }
    }
    fn set_domain(&self, st: &mut State<F>, r: usize, d: (F, F)) -> Result<(), Conflict> {
        if d.0 == d.1 {
            return self.set_root(st, r, d.0);
        }
        match st.domain[r] {
            None => {
                st.domain[r] = Some(d);
                Ok(())
            }
            Some((a, b)) => {
                let ina = a == d.0 || a == d.1;
                let inb = b == d.0 || b == d.1;
                match (ina, inb) {
                    (true, true) => Ok(()),
                    (true, false) => self.set_root(st, r, a),
                    (false, true) => self.set_root(st, r, b),
                    (false, false) => Err(Conflict),
                }
            }
        }
    }
    /// sum of c_i * v_i + k = 0
    fn linear(&self, st: &mut State<F>, terms: &[(usize, F)], k: F) -> Result<(), Conflict> {
        let mut s = k;
        let mut roots: [(u32, F); 2] = [(u32::MAX, F::zero()); 2];
        let mut nr = 0;
        for (v, c) in terms {
            match st.v[*v] {
                V::Known(x) => s += *c * x,
                V::Aff(r, al, be) => {
                    s += *c * be;
                    let co = *c * al;
                    let mut done = false;
                    for q in roots.iter_mut().take(nr) {
                        if q.0 == r {
                            q.1 += co;
                            done = true;
                        }
                    }
                    if !done {
                        if nr == 2 {
                            // forget a cancelled root
                            if bool::from(roots[0].1.is_zero()) {
                                roots[0] = (r, co);
                                continue;
                            }
                            if bool::from(roots[1].1.is_zero()) {
                                roots[1] = (r, co);
                                continue;
                            }
                            return Ok(());
                        }
                        roots[nr] = (r, co);
                        nr += 1;
                    }
                }
            }
        }
        let mut live: Vec<(usize, F)> = vec![];
        for q in roots.iter().take(nr) {
            if !bool::from(q.1.is_zero()) {
                live.push((q.0 as usize, q.1));
            }
        }
        match live.len() {
            0 => {
                if bool::from(s.is_zero()) {
                    Ok(())
                } else {
                    Err(Conflict)
                }
            }
            1 => self.set_root(st, live[0].0, -s * Self::inv(live[0].1)),
            _ => {
                // keep the larger class as the root
                let (mut a, mut b) = (live[0], live[1]);
                if st.members[a.0].len() > st.members[b.0].len() {
                    std::mem::swap(&mut a, &mut b);
                }
                // a.0 = -(b.1/a.1) b.0 - s/a.1
                let ia = Self::inv(a.1);
                let al = -(b.1 * ia);
                let be = -(s * ia);
                let ms = std::mem::take(&mut st.members[a.0]);
                for m in &ms {
                    if let V::Aff(_, x, y) = st.v[*m as usize] {
                        st.v[*m as usize] = V::Aff(b.0 as u32, x * al, x * be + y);
                    }
                    self.push(st, *m as usize);
                }
                st.members[b.0].extend(ms);
                if let Some((d0, d1)) = st.domain[a.0] {
                    let ial = Self::inv(al);
                    self.set_domain(st, b.0, ((d0 - be) * ial, (d1 - be) * ial))?;
                }
                Ok(())
            }
        }
    }
    fn propagate(&self, st: &mut State<F>) -> Result<(), Conflict> {
        while let Some(c) = st.queue.pop() {
            let c = c as usize;
            st.queued[c] = false;
            if c < self.lcs.len() {
                self.linear(st, &self.lcs[c], F::zero())?;
                continue;
            }
            let (a, b, o) = self.gates[c - self.lcs.len()];
            match (st.v[a], st.v[b]) {
                (V::Aff(..), V::Aff(..)) if self.fives[c - self.lcs.len()] != usize::MAX && matches!(st.v[o], V::Known(_)) => {
                    if let V::Known(z) = st.v[o] {
                        self.set(st, self.fives[c - self.lcs.len()], crate::sponge::root5(z))?
                    }
                }
                (V::Known(x), V::Known(y)) => self.set(st, o, x * y)?,
                (V::Known(x), _) => self.linear(st, &[(b, x), (o, -F::one())], F::zero())?,
                (_, V::Known(y)) => self.linear(st, &[(a, y), (o, -F::one())], F::zero())?,
                (V::Aff(r, a1, b1), V::Aff(r2, a2, b2)) if r == r2 => {
                    let (a3, b3) = match st.v[o] {
                        V::Known(z) => (F::zero(), z),
                        V::Aff(r3, a3, b3) if r3 == r => (a3, b3),
                        _ => continue,
                    };
                    // (a1 r + b1)(a2 r + b2) = a3 r + b3
                    let qa = a1 * a2;
                    let qb = a1 * b2 + a2 * b1 - a3;
                    let qc = b1 * b2 - b3;
                    let r = r as usize;
                    let eval = |x: F| (qa * x + qb) * x + qc;
                    let ia = Self::inv(qa);
                    let h = self.honest[r];
                    let (x0, x1) = if bool::from(qc.is_zero()) {
                        (F::zero(), -(qb * ia))
                    } else if bool::from(eval(h).is_zero()) {
                        (h, -(qb * ia) - h)
                    } else {
                        let four = F::from_u64(4);
                        let d = (qb * qb - four * qa * qc).sqrt();
                        if bool::from(d.is_none()) {
                            return Err(Conflict);
                        }
                        let d = d.unwrap();
                        let half = Self::inv(qa + qa);
                        ((d - qb) * half, (-d - qb) * half)
                    };
                    self.set_domain(st, r, (x0, x1))?;
                }
                _ => {}
            }
        }
        Ok(())
    }

    fn unknown_roots(&self, st: &State<F>) -> (Vec<usize>, Vec<usize>) {
        let mut fin = vec![];
        let mut inf = vec![];
        for i in 0..self.n {
            if let V::Aff(r, _, _) = st.v[i] {
                if r as usize == i {
                    if st.domain[i].is_some() {
                        fin.push(i);
                    } else {
                        inf.push(i);
                    }
                }
            }
        }
        (fin, inf)
    }

    /// What follows from fixing these variables alone; None if they cannot be fixed.
    fn base(&self, fixed: &[(usize, F)]) -> Option<State<F>> {
        let mut st = self.start();
        self.set(&mut st, 0, F::one()).ok()?;
        for (v, x) in fixed {
            self.set(&mut st, *v, *x).ok()?;
        }
        self.propagate(&mut st).ok()?;
        Some(st)
    }

    /// How many variables (classes) are not determined by propagation from the fixed ones.
    pub fn undetermined(&self, fixed: &[(usize, F)]) -> Option<usize> {
        self.base(fixed).map(|st| {
            let (a, b) = self.unknown_roots(&st);
            a.len() + b.len()
        })
    }

    /// Complete a state: honest values wherever possible, with some deviations; None when it gets stuck.
    fn complete(&self, s: &mut Src, st: State<F>, stray: bool, max_backtracks: usize) -> Option<Vec<F>> {
        let mut st = st;
        let mut stack: Vec<(State<F>, usize, F)> = vec![];
        let mut backtracks = 0;
        let every = 1 + self.n / 150;
        let mut decisions = 0usize;
        let mut strays = 0;
        // order in which undetermined variables are decided; rebuilt lazily
        let mut cursor_fin = 0usize;
        let mut cursor_inf = 0usize;
        let start = if self.n > 0 { s.below(self.n) } else { 0 };
        let forward = s.bool();
        loop {
            let ok = self.propagate(&mut st).is_ok();
            if !ok {
                backtracks += 1;
                if backtracks > max_backtracks {
                    return None;
                }
                let (o, r, alt) = stack.pop()?;
                st = o;
                cursor_fin = 0;
                cursor_inf = 0;
                if self.set_root(&mut st, r, alt).is_err() {
                    st.queue.clear();
                    st.queued.iter_mut().for_each(|q| *q = false);
                    // force another backtrack
                    backtracks += 1;
                    let (o, r, alt) = stack.pop()?;
                    st = o;
                    if self.set_root(&mut st, r, alt).is_err() {
                        return None;
                    }
                }
                continue;
            }
            // next undecided variable: finite domains first
            let at = |k: usize| if forward { (start + k) % self.n } else { (start + self.n - k) % self.n };
            let mut pick = None;
            while cursor_fin < self.n {
                let i = at(cursor_fin);
                if let V::Aff(r, _, _) = st.v[i] {
                    if st.domain[r as usize].is_some() {
                        pick = Some(r as usize);
                        break;
                    }
                }
                cursor_fin += 1;
            }
            if pick.is_none() {
                // a domain may have appeared behind the cursor
                for i in 0..self.n {
                    if let V::Aff(r, _, _) = st.v[i] {
                        if st.domain[r as usize].is_some() {
                            pick = Some(r as usize);
                            break;
                        }
                    }
                }
            }
            if pick.is_none() {
                while cursor_inf < self.n {
                    let i = at(cursor_inf);
                    if let V::Aff(r, _, _) = st.v[i] {
                        pick = Some(r as usize);
                        break;
                    }
                    cursor_inf += 1;
                }
            }
            let r = match pick {
                Some(r) => r,
                None => {
                    // cursors are exhausted, everything is known
                    let mut w = vec![];
                    for i in 0..self.n {
                        match st.v[i] {
                            V::Known(x) => w.push(x),
                            _ => return None,
                        }
                    }
                    return Some(w);
                }
            };
            let h = self.honest[r];
            let (first, alt) = match st.domain[r] {
                Some((a, b)) => {
                    let (mut p, mut q) = if b == h { (b, a) } else { (a, b) };
                    if stray && strays < 3 && s.chance(1, 8) {
                        strays += 1;
                        std::mem::swap(&mut p, &mut q);
                    }
                    (p, Some(q))
                }
                None => {
                    if stray && strays < 3 && s.chance(1, 8) {
                        strays += 1;
                        (perturb(s, h), None)
                    } else {
                        (h, None)
                    }
                }
            };
            if let Some(a) = alt {
                if stack.len() > 8 {
                    stack.remove(0);
                }
                // copies are dear on large systems: keep one decision in a few
                decisions += 1;
                if max_backtracks > 0 && decisions % every == 0 {
                    stack.push((st.clone(), r, a));
                }
            }
            if self.set_root(&mut st, r, first).is_err() {
                return None;
            }
        }
    }

    /// Look for a satisfying assignment that agrees with `fixed` and that `judge` objects to.
    /// `targets` are variables worth changing first (outputs). Returns the objection.
    pub fn search(
        &self,
        s: &mut Src,
        rec: &Rec<F>,
        fixed: &[(usize, F)],
        targets: &[usize],
        attempts: usize,
        stats: &mut Stats,
        mut judge: impl FnMut(&[F]) -> Option<String>,
    ) -> Option<String> {
        let base = match self.base(fixed) {
            Some(b) => b,
            None => return None,
        };
        let (fin, inf) = self.unknown_roots(&base);
        let open: Vec<usize> = (0..self.n).filter(|i| matches!(base.v[*i], V::Aff(..))).collect();
        stats.open += open.len() as u64;
        if open.is_empty() {
            // the fixed variables determine everything by unit steps
            stats.determined += 1;
            let w: Vec<F> = base.v.iter().map(|v| if let V::Known(x) = v { *x } else { unreachable!() }).collect();
            if rec.violated(&w).is_none() {
                stats.completed += 1;
                return judge(&w);
            }
            return None;
        }
        let topen: Vec<usize> = targets.iter().copied().filter(|t| matches!(base.v[*t], V::Aff(..))).collect();
        for _ in 0..attempts {
            stats.attempts += 1;
            let mut st = base.clone();
            let mode = s.below(8);
            let mut ok = true;
            let changes = 1 + if s.chance(1, 4) { s.below(3) } else { 0 };
            for _ in 0..changes {
                let v = match mode {
                    0..=2 if !topen.is_empty() => topen[s.below(topen.len())],
                    3 if !fin.is_empty() => fin[s.below(fin.len())],
                    4 if !inf.is_empty() => inf[s.below(inf.len())],
                    5 => continue,
                    _ => open[s.below(open.len())],
                };
                let r = match st.v[v] {
                    V::Aff(r, _, _) => r as usize,
                    V::Known(_) => continue,
                };
                let x = match st.domain[r] {
                    Some((a, b)) => {
                        let alt = if a == self.honest[r] { b } else { a };
                        ok &= self.set_root(&mut st, r, alt).is_ok();
                        ok &= ok && self.propagate(&mut st).is_ok();
                        if !ok {
                            break;
                        }
                        continue;
                    }
                    None => perturb(s, self.honest[v]),
                };
                ok &= self.set(&mut st, v, x).is_ok();
                ok &= ok && self.propagate(&mut st).is_ok();
                if !ok {
                    break;
                }
            }
            if !ok {
                stats.refused += 1;
                continue;
            }
            let bt = s.pick(&[0usize, 4, 16]);
            if let Some(w) = self.complete(s, st, mode >= 5, bt) {
                if rec.violated(&w).is_none() {
                    stats.completed += 1;
                    if w != self.honest {
                        stats.different += 1;
                    }
                    if let Some(m) = judge(&w) {
                        return Some(m);
                    }
                }
            } else {
                stats.refused += 1;
            }
        }
        None
    }
}

#[derive(Default, Debug)]
pub struct Stats {
    pub attempts: u64,
    pub refused: u64,
    pub completed: u64,
    pub different: u64,
    pub determined: u64,
    pub open: u64,
}

pub fn perturb<F: PF>(s: &mut Src, h: F) -> F {
    match s.below(10) {
        0 => h + F::one(),
        1 => h - F::one(),
        2 => F::one() - h,
        3 => -h,
        4 => F::zero(),
        5 => h + h,
        6 => F::from_u64(2),
        7 => h * F::BETA,
        _ => gen_fe_fast(s),
    }
}
