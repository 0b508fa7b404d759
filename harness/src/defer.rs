//! Valid and altered deferred data, challenges, scalars and points.
use crate::engine::Src;
use crate::gen::*;
use crate::proto::*;
use halo::*;

type Sc<C> = <C as Curve>::Scalar;

pub fn nzf<F: PF>(s: &mut Src) -> F {
    let v: F = gen_fe_fast(s);
    if bool::from(v.is_zero()) {
        F::one()
    } else {
        v
    }
}
pub fn rand_pt<C: PC>(s: &mut Src, par: &Params<C>) -> C {
    par.generators[s.below(par.d)] * nzf::<Sc<C>>(s)
}
/// A packed challenge whose scalar is a square.
pub fn packed<F: PF>(s: &mut Src) -> F {
    let mut v = match s.weighted(&[4, 1, 1, 1]) {
        0 => s.u128() | 1 << 127,
        1 => s.u128(),
        2 => 12,
        _ => u128::MAX - s.u8() as u128,
    };
    loop {
        let f = F::from_u128(v);
        if bool::from(expand(f).sqrt().is_some()) && !bool::from(expand(f).is_zero()) {
            return f;
        }
        v = v.wrapping_add(4);
    }
}
pub fn challenge_like<F: PF>(s: &mut Src) -> F {
    match s.weighted(&[3, 1, 1]) {
        0 => F::from_u128(s.u128() | 1 << 127),
        1 => F::from_u128(s.u128()),
        _ => nzf(s),
    }
}
pub fn alter_pt<C: PC>(s: &mut Src, par: &Params<C>, p: C, others: &[C]) -> C {
    loop {
        let q = match s.below(6) {
            0 => p + par.generators[s.below(par.d)],
            1 => C::zero() - p,
            2 => others[s.below(others.len())],
            3 => C::zero(),
            4 => p * C::Scalar::BETA,
            _ => rand_pt(s, par),
        };
        if q != p {
            return q;
        }
        if s.exhausted() {
            return p + par.generators[0];
        }
    }
}
pub fn alter_sc<F: PF>(s: &mut Src, v: F, others: &[F]) -> F {
    let q = match s.below(5) {
        0 => v + F::one(),
        1 => F::zero() - v,
        2 => others[s.below(others.len())],
        3 => F::zero(),
        _ => rand_fe(s),
    };
    if q != v {
        q
    } else {
        v + F::one()
    }
}
pub fn alter_packed<F: PF>(s: &mut Src, v: F) -> F {
    loop {
        let q = packed::<F>(s);
        if expand(q) != expand(v) {
            return q;
        }
        if s.exhausted() {
            let mut x = 12u128;
            loop {
                x += 4;
                let q = F::from_u128(x);
                if expand(q) != expand(v) && bool::from(expand(q).sqrt().is_some()) {
                    return q;
                }
            }
        }
    }
}
pub fn gen_deferred<F: PF>(s: &mut Src, k: usize) -> Deferred<F> {
    gen_deferred_of(s, k, false)
}
/// short: only points of 128 bits, as they are encoded
pub fn gen_deferred_of<F: PF>(s: &mut Src, k: usize, short: bool) -> Deferred<F> {
    let challenge_like = |s: &mut Src| if short { F::from_u128(s.u128() | (s.bool() as u128) << 127) } else { challenge_like(s) };
    let x: F = challenge_like(s);
    let y: F = challenge_like(s);
    let (x, y) = (if bool::from(x.is_zero()) { F::one() } else { x }, if bool::from(y.is_zero()) { F::one() } else { y });
    let y_old: F = challenge_like(s);
    let y_new: F = challenge_like(s);
    let old: Vec<F> = (0..k).map(|_| packed(s)).collect();
    let new: Vec<F> = (0..k).map(|_| packed(s)).collect();
    // points at which one of the folded power vectors vanishes
    let root = |v: &[F]| -inv(expand(*v.last().unwrap()));
    let (mut x, mut y, mut y_old, mut y_new) = (x, y, y_old, y_new);
    if !short && s.chance(1, 3) {
        match s.below(6) {
            0 => x = root(&new),
            1 => x = root(&old),
            2 => y = root(&new),
            3 => y_old = root(&new),
            4 => y_new = root(&new),
            _ => y = root(&new) * inv(x),
        }
    }
    let mut d = Deferred {
        x,
        y_old,
        y_cur: y,
        y_new,
        ky_opening: gen_fe_fast(s),
        tx_positive_opening: gen_fe_fast(s),
        tx_negative_opening: gen_fe_fast(s),
        sx_cur_opening: gen_fe_fast(s),
        rx_opening: nzf(s),
        rxy_opening: gen_fe_fast(s),
        challenges_sq_packed_old: old,
        gx_old_opening: F::zero(),
        challenges_sq_packed_new: new,
        b_x: F::zero(),
        b_xy: F::zero(),
        b_y_old: F::zero(),
        b_y_cur: F::zero(),
        b_y_new: F::zero(),
    };
    derive(&mut d);
    solve(s, &mut d, k);
    d
}
pub fn derive<F: PF>(d: &mut Deferred<F>) {
    let old = roots(&d.challenges_sq_packed_old).unwrap();
    let new = roots(&d.challenges_sq_packed_new).unwrap();
    d.gx_old_opening = fold_powers(d.x, &old);
    d.b_x = fold_powers(d.x, &new);
    d.b_xy = fold_powers(d.x * d.y_cur, &new);
    d.b_y_old = fold_powers(d.y_old, &new);
    d.b_y_cur = fold_powers(d.y_cur, &new);
    d.b_y_new = fold_powers(d.y_new, &new);
}
pub fn solve<F: PF>(s: &mut Src, d: &mut Deferred<F>, k: usize) {
    let r = Rel { x: d.x, y: d.y_cur, n: (1 << k) / 4 };
    let (sx, rx, rxy, tp, tn, ky) = (d.sx_cur_opening, d.rx_opening, d.rxy_opening, d.tx_positive_opening, d.tx_negative_opening, d.ky_opening);
    if bool::from(rx.is_zero()) {
        d.tx_positive_opening = r.solve_tp(sx, rx, rxy, tn, ky);
        return;
    }
    match s.below(4) {
        0 => d.tx_positive_opening = r.solve_tp(sx, rx, rxy, tn, ky),
        1 => d.tx_negative_opening = r.solve_tn(sx, rx, rxy, tp, ky),
        2 => d.sx_cur_opening = r.solve_s(rx, rxy, tp, tn, ky),
        _ => d.rxy_opening = r.solve_rxy(sx, rx, tp, tn, ky),
    }
}
pub fn deferred_valid<F: PF>(d: &Deferred<F>, k: usize) -> bool {
    let r = Rel { x: d.x, y: d.y_cur, n: (1 << k) / 4 };
    let mut e = d.clone();
    derive(&mut e);
    r.lhs(d.sx_cur_opening, d.rx_opening, d.rxy_opening, d.ky_opening) == r.rhs(d.tx_positive_opening, d.tx_negative_opening)
        && e.gx_old_opening == d.gx_old_opening
        && e.b_x == d.b_x
        && e.b_xy == d.b_xy
        && e.b_y_old == d.b_y_old
        && e.b_y_cur == d.b_y_cur
        && e.b_y_new == d.b_y_new
}
/// the scalar fields of deferred data
pub fn slots<F: Field>(d: &mut Deferred<F>) -> Vec<(&'static str, &mut F)> {
    vec![
        ("x", &mut d.x),
        ("y_old", &mut d.y_old),
        ("y_cur", &mut d.y_cur),
        ("y_new", &mut d.y_new),
        ("ky", &mut d.ky_opening),
        ("t+", &mut d.tx_positive_opening),
        ("t-", &mut d.tx_negative_opening),
        ("s_cur", &mut d.sx_cur_opening),
        ("rx", &mut d.rx_opening),
        ("rxy", &mut d.rxy_opening),
        ("gx_old", &mut d.gx_old_opening),
        ("b_x", &mut d.b_x),
        ("b_xy", &mut d.b_xy),
        ("b_y_old", &mut d.b_y_old),
        ("b_y_cur", &mut d.b_y_cur),
        ("b_y_new", &mut d.b_y_new),
    ]
}
pub fn show<F: PF>(d: &Deferred<F>) -> String {
    let mut e = d.clone();
    let mut o = String::new();
    for (n, v) in slots(&mut e) {
        o += &format!("{} = {:?}, ", n, v);
    }
    o + &format!("old challenges {:?}, new challenges {:?}", d.challenges_sq_packed_old, d.challenges_sq_packed_new)
}
/// The deferred data encoded in these bytes, scalars reduced.
pub fn parse_deferred<F: PF>(b: &[u8], k: usize) -> Deferred<F> {
    let mut at = 0;
    let mut take = |n: usize| {
        let mut w = [0u8; 64];
        w[..n].copy_from_slice(&b[at..at + n]);
        at += n;
        F::wide(&w)
    };
    let (x, y_old, y_cur, y_new) = (take(16), take(16), take(16), take(16));
    let (ky_opening, tx_positive_opening, tx_negative_opening) = (take(32), take(32), take(32));
    let (sx_cur_opening, rx_opening, rxy_opening) = (take(32), take(32), take(32));
    let challenges_sq_packed_old = (0..k).map(|_| take(16)).collect();
    let gx_old_opening = take(32);
    let challenges_sq_packed_new = (0..k).map(|_| take(16)).collect();
    let (b_x, b_xy, b_y_old, b_y_cur, b_y_new) = (take(32), take(32), take(32), take(32), take(32));
    Deferred {
        x, y_old, y_cur, y_new, ky_opening, tx_positive_opening, tx_negative_opening, sx_cur_opening, rx_opening, rxy_opening,
        challenges_sq_packed_old, gx_old_opening, challenges_sq_packed_new, b_x, b_xy, b_y_old, b_y_cur, b_y_new,
    }
}
