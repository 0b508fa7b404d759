//! An independent prover for the protocol, which can lie in chosen places while staying consistent everywhere else.
use crate::gen::*;
use crate::prog::{Wires, W};
use crate::sponge::Sponge;
use halo::*;

pub fn absorb_pt<C: PC>(s: &mut Sponge<C::Base>, p: &C) {
    let (x, y) = pt(p).map(|(x, y)| (fe(&x), fe(&y))).unwrap_or((C::Base::zero(), C::Base::zero()));
    s.absorb(x);
    s.absorb(y);
}
pub fn absorb_sc<C: PC>(s: &mut Sponge<C::Base>, v: &C::Scalar) {
    absorb_pt::<C>(s, &(C::one() * *v));
}
pub fn challenge<C: PC>(s: &mut Sponge<C::Base>) -> C::Scalar {
    let v = val(&s.squeeze());
    fe(&[v[0], v[1] | 1 << 63, 0, 0])
}
pub fn eval<F: PF>(v: &[F], x: F) -> F {
    let mut a = F::zero();
    for c in v.iter().rev() {
        a = a * x + *c;
    }
    a
}
pub fn pw<F: PF>(x: F, e: usize) -> F {
    x.pow(&[e as u64, 0, 0, 0])
}
pub fn inv<F: PF>(x: F) -> F {
    x.invert().unwrap()
}
/// The scalar denoted by a packed challenge.
pub fn expand<F: PF>(v: F) -> F {
    let b = val(&v);
    let bit = |i: usize| b[i / 64] >> (i % 64) & 1 == 1;
    let mut acc = F::from_u64(3);
    for i in 1..64 {
        acc = acc + acc;
        acc = if bit(2 * i) { acc - F::one() } else { acc + F::one() };
        if bit(2 * i + 1) {
            acc = acc * F::BETA;
        }
    }
    acc
}
/// The product of two polynomials.
pub fn mul<F: PF>(a: &[F], b: &[F]) -> Vec<F> {
    let part = |a: &[F]| {
        let mut t = vec![F::zero(); a.len() + b.len() - 1];
        for i in 0..a.len() {
            if !bool::from(a[i].is_zero()) {
                for j in 0..b.len() {
                    t[i + j] += a[i] * b[j];
                }
            }
        }
        t
    };
    if a.len() < 1024 {
        return part(a);
    }
    let part = &part;
    let c = a.len() / 16 + 1;
    let mut t = vec![F::zero(); a.len() + b.len() - 1];
    std::thread::scope(|sc| {
        let h: Vec<_> = a.chunks(c).map(|a| sc.spawn(move || part(a))).collect();
        for (i, h) in h.into_iter().enumerate() {
            for (j, v) in h.join().unwrap().into_iter().enumerate() {
                t[i * c + j] += v;
            }
        }
    });
    t
}
pub fn commit<C: PC>(gens: &[C], v: &[C::Scalar]) -> C {
    let l = gens.len().min(v.len());
    if l >= 1024 {
        return std::thread::scope(|sc| {
            let h: Vec<_> = gens[..l].chunks(l / 8 + 1).zip(v.chunks(l / 8 + 1)).map(|(g, v)| sc.spawn(move || commit_seq(g, v))).collect();
            h.into_iter().fold(C::zero(), |a, h| a + h.join().unwrap())
        });
    }
    commit_seq(gens, v)
}
fn commit_seq<C: PC>(gens: &[C], v: &[C::Scalar]) -> C {
    let mut a = C::zero();
    for (g, c) in gens.iter().zip(v) {
        if !bool::from(c.is_zero()) {
            a = a + *g * *c;
        }
    }
    a
}
/// b = fold of (1, x, x^2, ...) by explicit halving
pub fn fold_powers<F: PF>(x: F, ch: &[F]) -> F {
    let mut v = vec![F::one()];
    for _ in 1..1usize << ch.len() {
        let l = *v.last().unwrap();
        v.push(l * x);
    }
    fold(v, ch)
}
pub fn fold<F: PF>(mut v: Vec<F>, ch: &[F]) -> F {
    for c in ch {
        let ci = inv(*c);
        let l = v.len() / 2;
        for i in 0..l {
            v[i] = v[i] * ci + v[i + l] * *c;
        }
        v.truncate(l);
    }
    v[0]
}
/// The weight of each generator in the folded one.
pub fn weights<F: PF>(ch: &[F]) -> Vec<F> {
    let k = ch.len();
    let ci: Vec<F> = ch.iter().map(|c| inv(*c)).collect();
    (0..1usize << k)
        .map(|i| {
            let mut a = F::one();
            for j in 0..k {
                a = a * if i >> (k - 1 - j) & 1 == 1 { ch[j] } else { ci[j] };
            }
            a
        })
        .collect()
}
pub fn roots<F: PF>(packed: &[F]) -> Option<Vec<F>> {
    packed
        .iter()
        .map(|c| {
            let r = expand(*c).sqrt();
            if bool::from(r.is_some()) {
                Some(r.unwrap())
            } else {
                None
            }
        })
        .collect()
}
/// Are these leftovers what they should be for the recorded circuit?
pub fn leftovers_valid<C: PC>(par: &Params<C>, w: &Wires<C::Scalar>, l: &Leftovers<C>) -> bool {
    let ch = roots(&l.challenges_sq_packed_new).expect("roots");
    commit(&par.generators, &weights(&ch)) == l.g_new && commit(&par.generators, &w.sx(par.n, l.y_new)) == l.s_new_commitment
}
/// Both sides of the relation the deferred data must satisfy.
#[derive(Clone)]
pub struct Rel<F> {
    pub x: F,
    pub y: F,
    pub n: usize,
}
impl<F: PF> Rel<F> {
    fn thing(&self) -> F {
        let mut a = F::zero();
        let (u, v) = (self.x * self.y, self.x * inv(self.y));
        let (mut cu, mut cv) = (u, v);
        for _ in 0..self.n {
            a += cu;
            a += cv;
            cu = cu * u;
            cv = cv * v;
        }
        a * pw(self.x, self.n)
    }
    fn k1(&self) -> F {
        inv(pw(self.x, 3 * self.n - 1))
    }
    fn k2(&self) -> F {
        inv(pw(self.x * self.y, 3 * self.n - 1))
    }
    fn ks(&self) -> F {
        inv(pw(self.x, self.n)) * pw(self.y, self.n)
    }
    pub fn rhs(&self, tp: F, tn: F) -> F {
        tp * self.x + tn * inv(pw(self.x, 4 * self.n))
    }
    /// lhs = (s*ks - thing + rxy*k2) * rx*k1 - ky*y^n
    pub fn lhs(&self, s: F, rx: F, rxy: F, ky: F) -> F {
        (s * self.ks() - self.thing() + rxy * self.k2()) * (rx * self.k1()) - ky * pw(self.y, self.n)
    }
    fn prod(&self, tp: F, tn: F, ky: F) -> F {
        self.rhs(tp, tn) + ky * pw(self.y, self.n)
    }
    pub fn solve_rx(&self, s: F, rxy: F, tp: F, tn: F, ky: F) -> F {
        self.prod(tp, tn, ky) * inv((s * self.ks() - self.thing() + rxy * self.k2()) * self.k1())
    }
    pub fn solve_rxy(&self, s: F, rx: F, tp: F, tn: F, ky: F) -> F {
        (self.prod(tp, tn, ky) * inv(rx * self.k1()) - s * self.ks() + self.thing()) * inv(self.k2())
    }
    pub fn solve_s(&self, rx: F, rxy: F, tp: F, tn: F, ky: F) -> F {
        (self.prod(tp, tn, ky) * inv(rx * self.k1()) - rxy * self.k2() + self.thing()) * inv(self.ks())
    }
    pub fn solve_tp(&self, s: F, rx: F, rxy: F, tn: F, ky: F) -> F {
        (self.lhs(s, rx, rxy, ky) - tn * inv(pw(self.x, 4 * self.n))) * inv(self.x)
    }
    pub fn solve_tn(&self, s: F, rx: F, rxy: F, tp: F, ky: F) -> F {
        (self.lhs(s, rx, rxy, ky) - tp * self.x) * pw(self.x, 4 * self.n)
    }
}

/// Where the opening argument lies.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IpaLie {
    None,
    /// (round, instance)
    L(usize, usize),
    R(usize, usize),
    SmallL(usize, usize),
    SmallR(usize, usize),
    A(usize),
    G,
    /// final g and a chosen to satisfy both equations of this instance, whatever was claimed
    GFor(usize),
    /// use another coefficient vector for this instance than the committed one
    Poly(usize),
    /// the evaluation is negated: the last check on it fails in the sign only
    NegB(usize),
    /// ... and so is the final coefficient: the check on the commitment fails in the sign only
    NegP(usize),
}
pub struct Instance<C: PC> {
    pub commitment: C,
    pub opening: C::Scalar,
    pub point: C::Scalar,
    /// full length, already placed
    pub poly: Vec<C::Scalar>,
}
pub struct Opened<C: PC> {
    pub ip: MultiPolynomialOpening<C>,
    pub packed: Vec<C::Scalar>,
    pub fork: Vec<u8>,
    /// the evaluations to be shown at the end
    pub v: Vec<C::Scalar>,
}
#[allow(non_snake_case)]
pub fn ipa<C: PC>(t: &mut Sponge<C::Base>, inst: &[Instance<C>], gens: &[C], k: usize, lie: IpaLie, delta: C::Scalar) -> Opened<C> {
    let mut g = gens[..1 << k].to_vec();
    let mut a: Vec<Vec<C::Scalar>> = inst.iter().map(|i| i.poly.clone()).collect();
    let mut b: Vec<Vec<C::Scalar>> = inst
        .iter()
        .map(|i| {
            let mut v = vec![C::Scalar::one()];
            for _ in 1..1usize << k {
                let l = *v.last().unwrap();
                v.push(l * i.point);
            }
            v
        })
        .collect();
    let mut p: Vec<C> = inst.iter().map(|i| i.commitment).collect();
    let mut v: Vec<C::Scalar> = inst.iter().map(|i| i.opening).collect();
    if let IpaLie::Poly(j) = lie {
        a[j][0] += delta;
    }
    if let IpaLie::NegB(j) | IpaLie::NegP(j) = lie {
        for x in &mut b[j] {
            *x = C::Scalar::zero() - *x;
        }
    }
    let ip = |a: &[C::Scalar], b: &[C::Scalar]| {
        let mut s = C::Scalar::zero();
        for (x, y) in a.iter().zip(b) {
            s += *x * *y;
        }
        s
    };
    let mut rounds = vec![];
    let mut packed = vec![];
    let mut fork = vec![];
    for i in 0..k {
        let l = 1usize << (k - 1 - i);
        let mut rd = InnerProductRound { L: vec![], R: vec![], l: vec![], r: vec![] };
        for j in 0..inst.len() {
            let mut L = commit(&g[l..], &a[j][..l]);
            let mut R = commit(&g[..l], &a[j][l..]);
            let mut sl = ip(&a[j][..l], &b[j][l..]);
            let mut sr = ip(&a[j][l..], &b[j][..l]);
            match lie {
                IpaLie::L(ri, ji) if (ri, ji) == (i, j) => L = L + gens[0] * delta,
                IpaLie::R(ri, ji) if (ri, ji) == (i, j) => R = R + gens[0] * delta,
                IpaLie::SmallL(ri, ji) if (ri, ji) == (i, j) => sl += delta,
                IpaLie::SmallR(ri, ji) if (ri, ji) == (i, j) => sr += delta,
                _ => {}
            }
            absorb_pt::<C>(t, &L);
            absorb_pt::<C>(t, &R);
            absorb_sc::<C>(t, &sl);
            absorb_sc::<C>(t, &sr);
            rd.L.push(L);
            rd.R.push(R);
            rd.l.push(sl);
            rd.r.push(sr);
        }
        let mut f = C::Base::zero();
        let mut tried = 0u8;
        let ch = loop {
            let mut t2 = t.clone();
            t2.absorb(f);
            let pk = challenge::<C>(&mut t2);
            let r = expand(pk).sqrt();
            if bool::from(r.is_some()) {
                *t = t2;
                packed.push(pk);
                break r.unwrap();
            }
            f += C::Base::one();
            tried += 1;
        };
        fork.push(tried);
        let ci = inv(ch);
        for j in 0..inst.len() {
            for x in 0..l {
                a[j][x] = a[j][x] * ch + a[j][x + l] * ci;
                b[j][x] = b[j][x] * ci + b[j][x + l] * ch;
            }
            a[j].truncate(l);
            b[j].truncate(l);
            p[j] = p[j] + rd.L[j] * (ch * ch) + rd.R[j] * (ci * ci);
            v[j] += rd.l[j] * (ch * ch) + rd.r[j] * (ci * ci);
        }
        let (lo, hi) = g.split_at_mut(l);
        let c = if l >= 512 { l / 8 } else { l };
        std::thread::scope(|sc| {
            for (lo, hi) in lo.chunks_mut(c).zip(hi.chunks(c)) {
                let mut f = move || {
                    for (a, b) in lo.iter_mut().zip(hi) {
                        *a = *a * ci + *b * ch;
                    }
                };
                if l >= 512 {
                    sc.spawn(f);
                } else {
                    f();
                }
            }
        });
        g.truncate(l);
        rounds.push(rd);
    }
    let mut fa: Vec<C::Scalar> = a.iter().map(|a| a[0]).collect();
    let mut fg = g[0];
    match lie {
        IpaLie::A(j) => fa[j] += delta,
        IpaLie::NegP(j) => fa[j] = C::Scalar::zero() - fa[j],
        IpaLie::G => fg = fg + gens[0] * delta,
        IpaLie::GFor(j) => {
            fa[j] = v[j] * inv(b[j][0]);
            fg = p[j] * inv(fa[j]);
        }
        _ => {}
    }
    Opened { ip: MultiPolynomialOpening { rounds, a: fa, g: fg }, packed, fork, v }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lie {
    None,
    /// one claimed evaluation is chosen to satisfy the final relation
    TPos,
    TNeg,
    Rx,
    Rxy,
    SxCur,
    /// s(X, y_cur) is replaced by a polynomial the assignment satisfies
    SCur,
    /// ... and c by one agreeing with it at y_cur and with the circuit at y_old
    SCurC,
    /// ... and the claimed s(x, y_new) agrees with c
    SCurCNew,
    /// ... and so does the committed s(X, y_new)
    SCurCNewS,
    /// ... c agrees with everything but y_old
    COld,
    /// ... where the claim agrees with c
    COldClaim,
    /// ... c is the circuit's, its evaluation at y_cur is claimed falsely
    QClaim,
    /// claimed evaluations off by a constant, nothing compensated
    OffSxOld,
    OffSxNew,
    OffRx,
    OffRxy,
    OffSxCur,
    OffTPos,
    OffTNeg,
    /// commitments off by a constant, their polynomials as they should be
    OffR,
    OffC,
    OffSCur,
    OffSNew,
    OffTPosC,
    OffTNegC,
    /// r(xy) with the other sign
    NegRxy,
    /// two claims in the combined opening lie so that they would cancel if z were 1
    Cancel,
    /// what the verifier computes itself, off by a constant
    OffKy,
    OffGx,
    /// k(y) is claimed to be what the assignment has it
    KySolve,
    /// the old g is the commitment to another polynomial, opened correctly
    GOther,
}
/// Lies about what the verifier of a proof computes and the circuit is told.
pub const TOLD: &[Lie] = &[Lie::OffKy, Lie::OffGx, Lie::KySolve, Lie::GOther];
pub const LIES: &[Lie] = &[
    Lie::None,
    Lie::TPos,
    Lie::TNeg,
    Lie::Rx,
    Lie::Rxy,
    Lie::SxCur,
    Lie::SCur,
    Lie::SCurC,
    Lie::SCurCNew,
    Lie::SCurCNewS,
    Lie::COld,
    Lie::COldClaim,
    Lie::QClaim,
];
pub const OFFS: &[Lie] = &[
    Lie::OffSxOld,
    Lie::OffSxNew,
    Lie::OffRx,
    Lie::OffRxy,
    Lie::OffSxCur,
    Lie::OffTPos,
    Lie::OffTNeg,
    Lie::OffR,
    Lie::OffC,
    Lie::OffSCur,
    Lie::OffSNew,
    Lie::OffTPosC,
    Lie::OffTNegC,
    Lie::Cancel,
];

pub struct Out<C: PC> {
    pub proof: Proof<C>,
    pub leftovers: Leftovers<C>,
    /// does the relation between the claimed evaluations hold (so that the opening argument must catch the lie)?
    pub relation: bool,
    /// what this prover has the next step believe
    pub deferred: Deferred<C::Scalar>,
    pub fork: Vec<u8>,
    /// the evaluations shown at the end of the opening argument
    pub v: Vec<C::Scalar>,
}

/// Prove for the recorded circuit and assignment, against these public inputs, with k(Y) committed as given.
pub fn prove<C: PC>(par: &Params<C>, w: &Wires<C::Scalar>, inputs: &[C::Scalar], old: &Leftovers<C>, kc: Option<C>, lie: Lie, il: IpaLie, delta: C::Scalar) -> Option<Out<C>> {
    let n = par.n;
    let gens = &par.generators;
    let one = C::Scalar::one();
    let zero = C::Scalar::zero();
    let right = |v: &[C::Scalar]| commit(&gens[par.d - v.len()..], v);
    let mut t = Sponge::<C::Base>::new();
    let y_old = old.y_new;
    let sx_old = w.sx(n, y_old);
    let ch_old = roots(&old.challenges_sq_packed_new)?;
    let mut g_old = weights(&ch_old);
    let mut g_old_com = old.g_new;
    if lie == Lie::GOther {
        g_old[0] += delta;
        g_old_com = g_old_com + gens[0] * delta;
    }
    let ky = w.ky(inputs);
    let k_com = kc.unwrap_or_else(|| commit(gens, &ky));
    absorb_pt::<C>(&mut t, &k_com);
    // r
    let mut rx = vec![zero; 3 * n + 1];
    for i in 1..=n {
        rx[2 * n + i] = w.get(W::A(i));
        rx[2 * n - i] = w.get(W::B(i));
        rx[n - i] = w.get(W::C(i));
    }
    let mut r_com = right(&rx);
    if lie == Lie::OffR {
        r_com = r_com + gens[0] * delta;
    }
    absorb_pt::<C>(&mut t, &r_com);
    let y = challenge::<C>(&mut t);
    let yi = inv(y);
    // r(X, y) has X^{e} weighted by y^e, e from -2n to n
    let mut rxy = rx.clone();
    for i in 0..rxy.len() {
        rxy[i] = rxy[i] * if i >= 2 * n { pw(y, i - 2 * n) } else { pw(yi, 2 * n - i) };
    }
    let build_t = |sx: &[C::Scalar]| {
        // r' = r(X, y) + s'(X, y), exponents -2n .. 2n
        let mut rp = rxy.clone();
        rp.resize(4 * n + 1, zero);
        let yn = pw(y, n);
        for e in 0..3 * n + 1 {
            rp[n + e] += sx[e] * yn;
        }
        for i in 1..=n {
            rp[3 * n + i] -= pw(y, i) + pw(yi, i);
        }
        mul(&rx, &rp)
    };
    let mut sx_cur = w.sx(n, y);
    let mut ky_at = eval(&ky, y);
    let fake = matches!(lie, Lie::SCur | Lie::SCurC | Lie::SCurCNew | Lie::SCurCNewS | Lie::COld | Lie::COldClaim | Lie::QClaim);
    if fake {
        let tx = build_t(&sx_cur);
        let gap = ky_at * pw(y, n) - tx[4 * n];
        // coefficient e of sx_cur meets coefficient 3n - e of rx in the constant term
        let e = (0..3 * n + 1).find(|e| !bool::from(rx[3 * n - e].is_zero()))?;
        sx_cur[e] += gap * inv(rx[3 * n - e] * pw(y, n));
    }
    let mut s_cur_com = commit(gens, &sx_cur);
    if lie == Lie::OffSCur {
        s_cur_com = s_cur_com + gens[0] * delta;
    }
    absorb_pt::<C>(&mut t, &s_cur_com);
    let tx = build_t(&sx_cur);
    let t_pos = tx[4 * n + 1..].to_vec();
    let t_neg = tx[..4 * n].to_vec();
    let mut tp_com = commit(gens, &t_pos);
    let mut tn_com = commit(gens, &t_neg);
    if lie == Lie::OffTPosC {
        tp_com = tp_com + gens[0] * delta;
    }
    if lie == Lie::OffTNegC {
        tn_com = tn_com + gens[0] * delta;
    }
    absorb_pt::<C>(&mut t, &tp_com);
    absorb_pt::<C>(&mut t, &tn_com);
    let x = challenge::<C>(&mut t);
    let mut sy = w.sy(n, x);
    for c in &mut sy {
        *c = *c * pw(x, n);
    }
    let s_cur_at = eval(&sx_cur, x);
    if fake && lie != Lie::SCur && lie != Lie::QClaim {
        let gap = s_cur_at - eval(&sy, y);
        if matches!(lie, Lie::COld | Lie::COldClaim) {
            sy[0] += gap;
        } else {
            let e = gap * inv(y - y_old);
            sy[0] -= e * y_old;
            sy[1] += e;
        }
    }
    let mut c_com = commit(gens, &sy);
    if lie == Lie::OffC {
        c_com = c_com + gens[0] * delta;
    }
    absorb_pt::<C>(&mut t, &c_com);
    let y_new = challenge::<C>(&mut t);
    let mut sx_new = w.sx(n, y_new);
    if matches!(lie, Lie::SCurCNewS | Lie::COld | Lie::COldClaim) {
        let gap = eval(&sy, y_new) - eval(&sx_new, x);
        sx_new[0] += gap;
    }
    let mut s_new_com = commit(gens, &sx_new);
    if lie == Lie::OffSNew {
        s_new_com = s_new_com + gens[0] * delta;
    }
    absorb_pt::<C>(&mut t, &s_new_com);
    let top = |v: C::Scalar, at: C::Scalar| v * pw(at, par.d - (3 * n + 1));
    let mut rx_at = top(eval(&rx, x), x);
    let mut rxy_at = top(eval(&rx, x * y), x * y);
    let mut s_old_at = eval(&sx_old, x);
    let mut s_cur_at = s_cur_at;
    let mut tp_at = eval(&t_pos, x);
    let mut tn_at = eval(&t_neg, x);
    let mut s_new_at = eval(&sx_new, x);
    let rel = Rel { x, y, n };
    match lie {
        Lie::TPos => tp_at = rel.solve_tp(s_cur_at, rx_at, rxy_at, tn_at, ky_at),
        Lie::TNeg => tn_at = rel.solve_tn(s_cur_at, rx_at, rxy_at, tp_at, ky_at),
        Lie::Rx => rx_at = rel.solve_rx(s_cur_at, rxy_at, tp_at, tn_at, ky_at),
        Lie::Rxy => rxy_at = rel.solve_rxy(s_cur_at, rx_at, tp_at, tn_at, ky_at),
        Lie::SxCur => s_cur_at = rel.solve_s(rx_at, rxy_at, tp_at, tn_at, ky_at),
        Lie::SCurCNew => s_new_at = eval(&sy, y_new),
        Lie::COldClaim => s_old_at = eval(&sy, y_old),
        Lie::OffSxOld => s_old_at += delta,
        Lie::OffSxNew => s_new_at += delta,
        Lie::OffRx => rx_at += delta,
        Lie::OffRxy => rxy_at += delta,
        Lie::OffSxCur => s_cur_at += delta,
        Lie::NegRxy => rxy_at = zero - rxy_at,
        Lie::OffTPos => tp_at += delta,
        Lie::OffTNeg => tn_at += delta,
        Lie::Cancel => {
            s_old_at += delta;
            s_new_at -= delta;
        }
        _ => {}
    }
    match lie {
        Lie::OffKy => ky_at += delta,
        Lie::KySolve => ky_at = tx[4 * n] * inv(pw(y, n)),
        _ => {}
    }
    let mut g_old_at = eval(&g_old, x);
    if lie == Lie::OffGx {
        g_old_at += delta;
    }
    for v in [ky_at, rx_at, rxy_at, s_old_at, s_cur_at, tp_at, tn_at, s_new_at, g_old_at] {
        absorb_sc::<C>(&mut t, &v);
    }
    let z = expand(challenge::<C>(&mut t));
    let place = |v: &[C::Scalar], right: bool| {
        let mut o = vec![zero; par.d];
        let at = if right { par.d - v.len() } else { 0 };
        o[at..at + v.len()].copy_from_slice(v);
        o
    };
    let mut p_com = C::zero();
    let mut p_at = zero;
    let mut p = vec![zero; par.d];
    for (com, at, poly) in [
        (r_com, rx_at, place(&rx, true)),
        (old.s_new_commitment, s_old_at, place(&sx_old, false)),
        (s_cur_com, s_cur_at, place(&sx_cur, false)),
        (tp_com, tp_at, place(&t_pos, false)),
        (tn_com, tn_at, place(&t_neg, false)),
        (s_new_com, s_new_at, place(&sx_new, false)),
        (g_old_com, g_old_at, place(&g_old, false)),
    ] {
        p_com = p_com * z + com;
        p_at = p_at * z + at;
        for i in 0..par.d {
            p[i] = p[i] * z + poly[i];
        }
    }
    let mut q = place(&sy, false);
    for (i, c) in ky.iter().enumerate() {
        q[i] += *c * z;
    }
    let inst = [
        Instance { commitment: p_com, opening: p_at, point: x, poly: p },
        Instance { commitment: r_com, opening: rxy_at, point: x * y, poly: place(&rx, true) },
        Instance { commitment: c_com, opening: s_old_at, point: y_old, poly: place(&sy, false) },
        Instance { commitment: c_com + k_com * z, opening: s_cur_at + ky_at * z, point: y, poly: q },
        Instance { commitment: c_com, opening: s_new_at, point: y_new, poly: place(&sy, false) },
    ];
    let _ = one;
    let Opened { ip, packed, fork, v } = ipa(&mut t, &inst, gens, par.k, il, delta);
    let ch_new = roots(&packed)?;
    let relation = rel.lhs(s_cur_at, rx_at, rxy_at, ky_at) == rel.rhs(tp_at, tn_at);
    let leftovers = Leftovers { s_new_commitment: s_new_com, y_new, g_new: ip.g, challenges_sq_packed_new: packed.clone() };
    let deferred = Deferred {
        x,
        y_old,
        y_cur: y,
        y_new,
        ky_opening: ky_at,
        tx_positive_opening: tp_at,
        tx_negative_opening: tn_at,
        sx_cur_opening: s_cur_at,
        rx_opening: rx_at,
        rxy_opening: rxy_at,
        challenges_sq_packed_old: old.challenges_sq_packed_new.clone(),
        gx_old_opening: g_old_at,
        challenges_sq_packed_new: packed,
        b_x: fold_powers(x, &ch_new),
        b_xy: fold_powers(x * y, &ch_new),
        b_y_old: fold_powers(y_old, &ch_new),
        b_y_cur: fold_powers(y, &ch_new),
        b_y_new: fold_powers(y_new, &ch_new),
    };
    Some(Out {
        proof: Proof {
            r_commitment: r_com,
            s_cur_commitment: s_cur_com,
            t_positive_commitment: tp_com,
            t_negative_commitment: tn_com,
            c_commitment: c_com,
            s_new_commitment: s_new_com,
            rx_opening: rx_at,
            rxy_opening: rxy_at,
            sx_old_opening: s_old_at,
            sx_cur_opening: s_cur_at,
            tx_positive_opening: tp_at,
            tx_negative_opening: tn_at,
            sx_new_opening: s_new_at,
            inner_product: ip,
        },
        leftovers,
        relation,
        deferred,
        fork,
        v,
    })
}

/// Every point and scalar of a proof.
pub fn flat<C: PC>(p: &Proof<C>) -> (Vec<C>, Vec<C::Scalar>) {
    let mut pts = vec![p.r_commitment, p.s_cur_commitment, p.t_positive_commitment, p.t_negative_commitment, p.c_commitment, p.s_new_commitment, p.inner_product.g];
    let mut scs = vec![p.rx_opening, p.rxy_opening, p.sx_old_opening, p.sx_cur_opening, p.tx_positive_opening, p.tx_negative_opening, p.sx_new_opening];
    scs.extend(p.inner_product.a.iter());
    for r in &p.inner_product.rounds {
        pts.extend(r.L.iter());
        pts.extend(r.R.iter());
        scs.extend(r.l.iter());
        scs.extend(r.r.iter());
    }
    (pts, scs)
}
pub fn unflat<C: PC>(base: &Proof<C>, pts: &[C], scs: &[C::Scalar]) -> Proof<C> {
    let mut p = base.clone();
    let mut pi = pts.iter();
    let mut si = scs.iter();
    let mut np = || *pi.next().unwrap();
    let mut ns = || *si.next().unwrap();
    p.r_commitment = np();
    p.s_cur_commitment = np();
    p.t_positive_commitment = np();
    p.t_negative_commitment = np();
    p.c_commitment = np();
    p.s_new_commitment = np();
    p.inner_product.g = np();
    p.rx_opening = ns();
    p.rxy_opening = ns();
    p.sx_old_opening = ns();
    p.sx_cur_opening = ns();
    p.tx_positive_opening = ns();
    p.tx_negative_opening = ns();
    p.sx_new_opening = ns();
    for a in &mut p.inner_product.a {
        *a = ns();
    }
    for r in &mut p.inner_product.rounds {
        for x in r.L.iter_mut().chain(r.R.iter_mut()) {
            *x = np();
        }
        for x in r.l.iter_mut().chain(r.r.iter_mut()) {
            *x = ns();
        }
    }
    p
}

/// Well-formed and proving nothing.
pub fn dummy_proof<C: PC>(p: &Params<C>) -> Proof<C> {
    let c = C::one();
    let o = C::Scalar::one();
    Proof {
        r_commitment: c,
        s_cur_commitment: c,
        t_positive_commitment: c,
        t_negative_commitment: c,
        c_commitment: c,
        s_new_commitment: c,
        rx_opening: o,
        rxy_opening: o,
        sx_old_opening: o,
        sx_cur_opening: o,
        tx_positive_opening: o,
        tx_negative_opening: o,
        sx_new_opening: o,
        inner_product: MultiPolynomialOpening::dummy(p),
    }
}
