//! Glue between the code under test and the reference arithmetic, and value generators.
use crate::big::{self, Pt, RefCurve, M, U};
use crate::engine::Src;
use halo::{Curve, Ec0, Ec1, Field, Fp, Fq};

pub trait PF: Field {
    const NAME: &'static str;
    fn m() -> M;
    fn raw(v: U) -> Self;
    fn wide(b: &[u8; 64]) -> Self;
    fn from_u64_conv(v: u64) -> Self;
    fn dbl(&self) -> Self;
    fn into_bytes(&self) -> [u8; 32];
}
macro_rules! pf {
    ($t:ident, $m:expr, $n:expr) => {
        impl PF for $t {
            const NAME: &'static str = $n;
            fn m() -> M {
                M($m)
            }
            fn raw(v: U) -> Self {
                $t::from_raw(v)
            }
            fn wide(b: &[u8; 64]) -> Self {
                $t::from_bytes_wide(b)
            }
            fn from_u64_conv(v: u64) -> Self {
                $t::from(v)
            }
            fn dbl(&self) -> Self {
                self.double()
            }
            fn into_bytes(&self) -> [u8; 32] {
                <[u8; 32]>::from(self)
            }
        }
    };
}
pf!(Fp, big::P, "Fp");
pf!(Fq, big::Q, "Fq");

pub trait PC: Curve<Base: PF, Scalar: PF> {
    const NAME: &'static str;
    fn rc() -> RefCurve;
}
impl PC for Ec0 {
    const NAME: &'static str = "Ec0";
    fn rc() -> RefCurve {
        RefCurve { m: M(big::Q), b: big::u(5), n: big::P }
    }
}
impl PC for Ec1 {
    const NAME: &'static str = "Ec1";
    fn rc() -> RefCurve {
        RefCurve { m: M(big::P), b: big::u(7), n: big::Q }
    }
}

pub fn val<F: Field>(f: &F) -> U {
    big::from_le(&f.to_bytes())
}
/// build an element from a canonical integer, through the decoder
pub fn fe<F: PF>(v: &U) -> F {
    F::from_bytes(&big::to_le(v)).unwrap()
}
pub fn pt<C: PC>(p: &C) -> Pt {
    let xy = p.get_xy();
    if bool::from(xy.is_some()) {
        let (x, y) = xy.unwrap();
        Some((val(&x), val(&y)))
    } else {
        None
    }
}
/// build a point from reference coordinates
pub fn mk<C: PC>(p: &Pt) -> C {
    match p {
        None => C::zero(),
        Some((x, y)) => C::from_xy_unchecked(fe(x), fe(y)),
    }
}

// ------------------------------------------------------------------ integers

pub fn gen_limb(s: &mut Src, m: u64) -> u64 {
    match s.below(14) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - 1,
        4 => 1 << 63,
        5 => (1 << 63) - 1,
        6 => m,
        7 => m.wrapping_sub(1),
        8 => m.wrapping_add(1),
        9 => 1 << s.below(64),
        10 => (1u64 << s.below(64)).wrapping_sub(1),
        11 => !((1u64 << s.below(64)).wrapping_sub(1)),
        _ => s.u64(),
    }
}
/// any 256-bit integer, biased to limb patterns around m
pub fn gen_u256(s: &mut Src, m: &U) -> U {
    match s.below(8) {
        0 => big::u(s.below(20) as u64),
        1 => big::sub(m, &big::u(s.below(20) as u64)).0,
        2 => {
            // around a multiple of m
            let mut a = *m;
            for _ in 0..s.below(2) {
                a = big::add(&a, m).0;
            }
            let d = big::u(s.below(1 << 16) as u64);
            if s.bool() {
                big::add(&a, &d).0
            } else {
                big::sub(&a, &d).0
            }
        }
        3 => {
            // 2^k +- small
            let k = s.below(256);
            let mut a = [0u64; 4];
            a[k / 64] = 1 << (k % 64);
            let d = big::u(s.below(4) as u64);
            if s.bool() {
                big::add(&a, &d).0
            } else {
                big::sub(&a, &d).0
            }
        }
        4 | 5 => {
            let mut a = [0u64; 4];
            for i in 0..4 {
                a[i] = gen_limb(s, m[i]);
            }
            a
        }
        6 => {
            let hi = [u64::MAX; 4];
            big::sub(&hi, &big::u(s.below(20) as u64)).0
        }
        _ => [s.u64(), s.u64(), s.u64(), s.u64()],
    }
}

/// A field element as a canonical integer; covers small, near-modulus, limb-edge (canonical and Montgomery
/// form), powers of two, roots of unity, and uniform values.
pub fn gen_val<F: PF>(s: &mut Src) -> U {
    let m = F::m();
    match s.weighted(&[3, 3, 3, 4, 1, 2, 2, 3]) {
        0 => big::u(s.below(17) as u64),
        1 => big::sub(&m.0, &big::u(1 + s.below(17) as u64)).0,
        2 => m.red(&gen_u256(s, &m.0)),
        3 => {
            // internal (Montgomery) limb pattern: value = L / 2^256
            let l = m.red(&gen_u256(s, &m.0));
            m.mul(&l, &rinv(&m))
        }
        4 => {
            // special constants
            match s.below(6) {
                0 => val(&F::BETA),
                1 => val(&(F::BETA * F::BETA)),
                2 => m.inv(&big::u(2)).unwrap(),
                3 => m.neg(&m.inv(&big::u(2)).unwrap()),
                4 => val(&F::ALPHA),
                _ => rinv(&m),
            }
        }
        5 => {
            let mut x = val(&F::ALPHA);
            for _ in 0..s.below(33) {
                x = m.sq(&x);
            }
            x
        }
        6 => big::u(s.u64()),
        _ => m.red(&[s.u64(), s.u64(), s.u64(), s.u64()]),
    }
}
pub fn rinv(m: &M) -> U {
    // (2^256 mod m)^-1, cached per modulus
    static A: std::sync::OnceLock<(U, U)> = std::sync::OnceLock::new();
    let calc = |m: &M| {
        let r = big::rem(&[0, 0, 0, 0, 1, 0, 0, 0], &m.0);
        m.inv(&r).unwrap()
    };
    let c = A.get_or_init(|| (calc(&M(big::P)), calc(&M(big::Q))));
    if m.0 == big::P {
        c.0
    } else {
        c.1
    }
}
pub fn gen_fe<F: PF>(s: &mut Src) -> F {
    fe(&gen_val::<F>(s))
}
/// cheap: uniform or small
pub fn gen_fe_fast<F: PF>(s: &mut Src) -> F {
    match s.below(6) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from_u64(s.u8() as u64),
        4 => -F::from_u64(s.u8() as u64),
        _ => rand_fe(s),
    }
}
pub fn rand_fe<F: PF>(s: &mut Src) -> F {
    let mut b = [0u8; 64];
    b[..8].copy_from_slice(&s.u64().to_le_bytes());
    b[8..16].copy_from_slice(&s.u64().to_le_bytes());
    b[16..24].copy_from_slice(&s.u64().to_le_bytes());
    b[24..32].copy_from_slice(&s.u64().to_le_bytes());
    F::wide(&b)
}
/// an operand that gives a chosen sum, difference or product with an existing one
pub fn towards<F: PF>(s: &mut Src, a: &U) -> U {
    let m = F::m();
    let t = gen_val::<F>(s);
    match s.below(8) {
        0 => m.inv(a).map(|i| m.mul(&t, &i)).unwrap_or(t),
        1 | 2 => m.sub(&t, a),
        3 | 4 => m.sub(a, &t),
        _ => m.add(a, &t),
    }
}
/// related to an existing value: same, negated, inverse, complement, neighbour
pub fn related<F: PF>(s: &mut Src, a: &U) -> U {
    let m = F::m();
    match s.below(8) {
        0 => *a,
        1 => m.neg(a),
        2 => m.inv(a).unwrap_or(*a),
        3 => m.sub(&big::u(1), a),
        4 => m.add(a, &big::u(1)),
        5 => m.sub(a, &big::u(1)),
        6 => m.mul(a, &val(&F::BETA)),
        _ => m.add(a, a),
    }
}
