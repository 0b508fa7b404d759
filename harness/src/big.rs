//! Independent reference arithmetic: 256-bit integers, prime fields and short Weierstrass curves (affine).
use std::cmp::Ordering;

pub type U = [u64; 4];
pub type W = [u64; 8];

pub const P: U = [0x99fffe7d00000001, 0x81be9c1a32012482, 0xbac2a757742b3930, 0x5c5e464a35c12769];
pub const Q: U = [0x19fffe7d00000001, 0x1b849d0f18018604, 0xbac2a757742b3931, 0x5c5e464a35c12769];

pub fn cmp(a: &[u64], b: &[u64]) -> Ordering {
    for i in (0..a.len()).rev() {
        match a[i].cmp(&b[i]) {
            Ordering::Equal => {}
            o => return o,
        }
    }
    Ordering::Equal
}
pub fn lt(a: &U, b: &U) -> bool {
    cmp(a, b) == Ordering::Less
}
pub fn is_zero(a: &U) -> bool {
    a.iter().all(|x| *x == 0)
}
pub fn u(v: u64) -> U {
    [v, 0, 0, 0]
}
/// a + b, with carry out
pub fn add(a: &U, b: &U) -> (U, bool) {
    let mut r = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
/// a - b modulo 2^256, with borrow out
pub fn sub(a: &U, b: &U) -> (U, bool) {
    let mut r = [0u64; 4];
    let mut borrow = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(borrow as u64);
        r[i] = x;
        borrow = b1 | b2;
    }
    (r, borrow)
}
pub fn mul(a: &U, b: &U) -> W {
    let mut r = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += a[i] as u128 * b[j] as u128 + r[i + j] as u128;
            r[i + j] = c as u64;
            c >>= 64;
        }
        r[i + 4] = c as u64;
    }
    r
}
pub fn bit(a: &[u64], i: usize) -> bool {
    (a[i / 64] >> (i % 64)) & 1 == 1
}
pub fn shr1(a: &U) -> U {
    let mut r = [0; 4];
    for i in 0..4 {
        r[i] = (a[i] >> 1) | if i < 3 { a[i + 1] << 63 } else { 0 };
    }
    r
}
/// remainder of a little-endian integer by m (m < 2^255), by long division
pub fn rem(a: &[u64], m: &U) -> U {
    let mut r: U = [0; 4];
    let mut top = a.len() * 64;
    while top > 0 && a[(top - 1) / 64] == 0 {
        top -= 64;
    }
    for i in (0..top).rev() {
        // r = 2r + bit; r < m < 2^255 so 2r+1 < 2^256
        for k in (1..4).rev() {
            r[k] = (r[k] << 1) | (r[k - 1] >> 63);
        }
        r[0] = (r[0] << 1) | bit(a, i) as u64;
        if !lt(&r, m) {
            r = sub(&r, m).0;
        }
    }
    r
}
pub fn to_le(a: &U) -> [u8; 32] {
    let mut r = [0u8; 32];
    for i in 0..4 {
        r[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    r
}
pub fn from_le(b: &[u8; 32]) -> U {
    let mut r = [0u64; 4];
    for i in 0..4 {
        let mut t = [0u8; 8];
        t.copy_from_slice(&b[8 * i..8 * i + 8]);
        r[i] = u64::from_le_bytes(t);
    }
    r
}
pub fn hex(a: &U) -> String {
    format!("0x{:016x}{:016x}{:016x}{:016x}", a[3], a[2], a[1], a[0])
}

/// A prime field, elements are canonical integers.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct M(pub U);

impl M {
    pub fn red(&self, a: &U) -> U {
        rem(a, &self.0)
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        let s = add(a, b).0; // < 2^256 since both < 2^255
        if lt(&s, &self.0) {
            s
        } else {
            sub(&s, &self.0).0
        }
    }
    pub fn neg(&self, a: &U) -> U {
        if is_zero(a) {
            *a
        } else {
            sub(&self.0, a).0
        }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        self.add(a, &self.neg(b))
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        rem(&mul(a, b), &self.0)
    }
    pub fn sq(&self, a: &U) -> U {
        self.mul(a, a)
    }
    pub fn pow(&self, a: &U, e: &[u64]) -> U {
        let mut r = self.red(&u(1));
        for i in (0..e.len() * 64).rev() {
            r = self.sq(&r);
            if bit(e, i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    /// inverse of a non-zero element by the binary extended Euclidean algorithm
    pub fn inv(&self, a: &U) -> Option<U> {
        if is_zero(a) {
            return None;
        }
        let m = self.0;
        let half = |x: &U| -> U {
            if x[0] & 1 == 0 {
                shr1(x)
            } else {
                shr1(&add(x, &m).0) // x + m < 2^256
            }
        };
        let (mut x, mut y) = (*a, m);
        let (mut cx, mut cy) = (u(1), u(0));
        while x != u(1) && y != u(1) {
            while x[0] & 1 == 0 {
                x = shr1(&x);
                cx = half(&cx);
            }
            while y[0] & 1 == 0 {
                y = shr1(&y);
                cy = half(&cy);
            }
            if lt(&x, &y) {
                y = sub(&y, &x).0;
                cy = self.sub(&cy, &cx);
            } else {
                x = sub(&x, &y).0;
                cx = self.sub(&cx, &cy);
            }
        }
        Some(if x == u(1) { cx } else { cy })
    }
    /// Euler's criterion
    pub fn is_square(&self, a: &U) -> bool {
        if is_zero(a) {
            return true;
        }
        let e = shr1(&sub(&self.0, &u(1)).0);
        self.pow(a, &e) == u(1)
    }
}

pub type Pt = Option<(U, U)>;

/// y^2 = x^3 + b over M, prime order n
#[derive(Clone, Copy, Debug)]
pub struct RefCurve {
    pub m: M,
    pub b: U,
    pub n: U,
}

impl RefCurve {
    pub fn on_curve(&self, p: &Pt) -> bool {
        match p {
            None => true,
            Some((x, y)) => self.m.sq(y) == self.m.add(&self.m.mul(&self.m.sq(x), x), &self.b),
        }
    }
    pub fn neg(&self, p: &Pt) -> Pt {
        p.map(|(x, y)| (x, self.m.neg(&y)))
    }
    pub fn add(&self, p: &Pt, q: &Pt) -> Pt {
        let m = &self.m;
        let ((x1, y1), (x2, y2)) = match (p, q) {
            (None, _) => return *q,
            (_, None) => return *p,
            (Some(a), Some(b)) => (*a, *b),
        };
        let lambda = if x1 == x2 {
            if is_zero(&m.add(&y1, &y2)) {
                return None;
            }
            let xx = m.sq(&x1);
            let num = m.add(&m.add(&xx, &xx), &xx);
            m.mul(&num, &m.inv(&m.add(&y1, &y1)).unwrap())
        } else {
            m.mul(&m.sub(&y2, &y1), &m.inv(&m.sub(&x2, &x1)).unwrap())
        };
        let x3 = m.sub(&m.sub(&m.sq(&lambda), &x1), &x2);
        let y3 = m.sub(&m.mul(&lambda, &m.sub(&x1, &x3)), &y1);
        Some((x3, y3))
    }
    pub fn sub(&self, p: &Pt, q: &Pt) -> Pt {
        self.add(p, &self.neg(q))
    }
    pub fn mul(&self, p: &Pt, k: &U) -> Pt {
        let mut r = None;
        for i in (0..256).rev() {
            if r.is_some() {
                r = self.add(&r, &r);
            }
            if bit(k, i) {
                r = self.add(&r, p);
            }
        }
        r
    }
}
