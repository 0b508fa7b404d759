//! C03 group law, C04 scalar multiplication, C05 point encodings
use halo::*;
use hv::big::{self, Pt};
use hv::ensure;
use hv::gen::*;
use hv::points::*;
use hv::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

fn show(p: &Pt) -> String {
    match p {
        None => "O".into(),
        Some((x, y)) => format!("({},{})", big::hex(x), big::hex(y)),
    }
}

fn check_point<C: PC>(p: &C, r: &Pt, what: &str) -> Res {
    let rc = C::rc();
    debug_assert!(rc.on_curve(r));
    let got = pt(p);
    ensure!(got == *r, "group-law", "{} {}: got {} want {}", C::NAME, what, show(&got), show(r));
    ensure!(bool::from(p.is_zero()) == r.is_none(), "is-zero", "{} {}: is_zero={} for {}", C::NAME, what, bool::from(p.is_zero()), show(r));
    ensure!(p.is_on_curve(), "on-curve", "{} {}: is_on_curve false for {}", C::NAME, what, show(r));
    let (x, y, z) = p.get_xyz();
    match r {
        None => ensure!(bool::from(z.is_zero()), "xyz", "{} {}: identity with z != 0", C::NAME, what),
        Some((rx, ry)) => {
            let (rx, ry): (C::Base, C::Base) = (fe(rx), fe(ry));
            ensure!(!bool::from(z.is_zero()) && rx * z == x && ry * z == y, "xyz", "{} {}: projective coordinates do not denote {}", C::NAME, what, show(r));
        }
    }
    Ok(())
}

fn check_eq<C: PC>(a: &C, ra: &Pt, b: &C, rb: &Pt) -> Res {
    let want = ra == rb;
    ensure!((a == b) == want, "equality", "{}: ({} == {}) = {}", C::NAME, show(ra), show(rb), a == b);
    ensure!((a != b) != want, "equality", "{}: ({} != {}) = {}", C::NAME, show(ra), show(rb), a != b);
    ensure!(bool::from(a.ct_eq(b)) == want, "equality", "{}: ct_eq({}, {}) wrong", C::NAME, show(ra), show(rb));
    Ok(())
}

fn history<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    const R: usize = 4;
    let rc = C::rc();
    let mut regs: Vec<(C, Pt)> = vec![];
    for _ in 0..R {
        let r = gen_ref::<C>(s);
        regs.push((mk(&r), r));
    }
    let n = s.range(1, 24);
    let mut log = vec![];
    for _ in 0..n {
        let d = s.below(R);
        let i = s.below(R);
        let j = s.below(R);
        let (a, ra) = regs[i];
        let (b, rb) = regs[j];
        if ra.is_some() && rb.is_some() {
            if ra == rb {
                cx.label("equal operands");
            } else if ra == rc.neg(&rb) {
                cx.label("opposite operands");
            }
        } else {
            cx.label("identity operand");
        }
        let op = s.below(16);
        log.push((op, d, i, j));
        let (v, r, what): (C, Pt, &str) = match op {
            0 | 1 => (a + b, rc.add(&ra, &rb), "a+b"),
            2 => (a + &b, rc.add(&ra, &rb), "a+&b"),
            3 => (a - b, rc.sub(&ra, &rb), "a-b"),
            4 => (a - &b, rc.sub(&ra, &rb), "a-&b"),
            5 => (-a, rc.neg(&ra), "-a"),
            6 => (a.double(), rc.add(&ra, &ra), "double"),
            7 => {
                let mut t = a;
                t += b;
                (t, rc.add(&ra, &rb), "+=")
            }
            8 => {
                let mut t = a;
                t += &b;
                (t, rc.add(&ra, &rb), "+=&")
            }
            9 => {
                let mut t = a;
                t -= b;
                (t, rc.sub(&ra, &rb), "-=")
            }
            10 => {
                let mut t = a;
                t -= &b;
                (t, rc.sub(&ra, &rb), "-=&")
            }
            11 => {
                let c = s.bool();
                (C::conditional_select(&a, &b, Choice::from(c as u8)), if c { rb } else { ra }, "select")
            }
            12 => match s.below(4) {
                0 => (C::zero(), None, "zero"),
                1 => (C::default(), None, "default"),
                2 => (C::one(), pool::<C>()[0], "one"),
                _ => {
                    let r = gen_ref::<C>(s);
                    (gen_rep(s, &r), r, "load")
                }
            },
            13 => {
                // same point, other representation
                (gen_rep(s, &ra), ra, "rep")
            }
            14 => (a - a + b, rb, "a-a+b"),
            _ => {
                let r = ra.map(|(x, y)| (rc.m.mul(&x, &val(&C::Base::BETA)), y));
                (mk(&r), r, "endo image")
            }
        };
        check_point(&v, &r, what)?;
        cx.checks += 4;
        regs[d] = (v, r);
        for k in 0..R {
            check_eq(&regs[d].0, &regs[d].1, &regs[k].0, &regs[k].1)?;
            check_eq(&regs[k].0, &regs[k].1, &regs[d].0, &regs[d].1)?;
            cx.checks += 2;
        }
    }
    cx.nontrivial();
    cx.sample(|| format!("{} start {} ops (op,dst,a,b) {:?}", C::NAME, show(&regs[0].1), log));
    Ok(())
}

fn pairs<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    // dense coverage of related operand pairs in random representations
    let rc = C::rc();
    let ra = gen_ref::<C>(s);
    let rb = match s.below(6) {
        0 => ra,
        1 => rc.neg(&ra),
        2 => None,
        3 => ra.map(|(x, y)| (rc.m.mul(&x, &val(&C::Base::BETA)), y)),
        4 => rc.add(&ra, &ra),
        _ => gen_ref::<C>(s),
    };
    let a: C = gen_rep(s, &ra);
    let b: C = gen_rep(s, &rb);
    cx.nontrivial();
    cx.sample(|| format!("{} a={} b={}", C::NAME, show(&ra), show(&rb)));
    check_point(&a, &ra, "a")?;
    check_point(&b, &rb, "b")?;
    check_eq(&a, &ra, &b, &rb)?;
    check_eq(&b, &rb, &a, &ra)?;
    check_point(&(a + b), &rc.add(&ra, &rb), "a+b")?;
    check_point(&(b + a), &rc.add(&ra, &rb), "b+a")?;
    check_point(&(a - b), &rc.sub(&ra, &rb), "a-b")?;
    check_point(&(b - a), &rc.sub(&rb, &ra), "b-a")?;
    check_point(&a.double(), &rc.add(&ra, &ra), "double")?;
    check_point(&(-a), &rc.neg(&ra), "-a")?;
    check_point(&C::conditional_select(&a, &b, Choice::from(0)), &ra, "select 0")?;
    check_point(&C::conditional_select(&a, &b, Choice::from(1)), &rb, "select 1")?;
    cx.checks += 12;
    // off-curve coordinates are reported as such
    if let Some((x, y)) = ra {
        let y2 = rc.m.add(&y, &big::u(1 + s.below(5) as u64));
        let q = Some((x, y2));
        if !rc.on_curve(&q) {
            cx.checks += 1;
            let p: C = mk(&q);
            ensure!(!p.is_on_curve(), "on-curve", "{}: is_on_curve true for {}", C::NAME, show(&q));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

fn gen_scalar<C: PC>(s: &mut Src) -> big::U {
    gen_val::<C::Scalar>(s)
}
/// scalars whose encodings have long runs and byte/limb boundary structure
fn gen_scalar2<C: PC>(s: &mut Src) -> big::U {
    let m = C::Scalar::m();
    match s.below(3) {
        0 => gen_scalar::<C>(s),
        1 => {
            let mut a = [0u64; 4];
            for i in 0..4 {
                a[i] = gen_limb(s, m.0[i]);
            }
            m.red(&a)
        }
        _ => {
            let mut b = [0u8; 32];
            for x in b.iter_mut() {
                *x = s.pick(&[0u8, 0, 0xff, 0x80, 1, 0x7f, 0xfe]);
            }
            m.red(&big::from_le(&b))
        }
    }
}

fn mul_ref<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let rc = C::rc();
    let k = gen_scalar2::<C>(s);
    let ks: C::Scalar = fe(&k);
    cx.nontrivial();
    let (p, r, want) = if s.chance(1, 4) {
        let r = gen_ref::<C>(s);
        let want = rc.mul(&r, &k);
        (gen_rep::<C>(s, &r), r, want)
    } else {
        let r = pool::<C>()[0];
        (gen_rep::<C>(s, &r), r, ref_mul_g::<C>(&k))
    };
    cx.sample(|| format!("{} {} * {}", C::NAME, big::hex(&k), show(&r)));
    if r.is_none() {
        cx.label("identity base");
    }
    cx.checks += 4;
    check_point(&(p * ks), &want, "p*k")?;
    check_point(&(p * &ks), &want, "p*&k")?;
    let mut t = p;
    t *= ks;
    check_point(&t, &want, "*=")?;
    let mut t = p;
    t *= &ks;
    check_point(&t, &want, "*=&")
}

fn mul_laws<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let rc = C::rc();
    let a = gen_scalar2::<C>(s);
    let b = match s.below(4) {
        0 => related::<C::Scalar>(s, &a),
        _ => gen_scalar2::<C>(s),
    };
    let sm = C::Scalar::m();
    let r = gen_ref::<C>(s);
    let p: C = gen_rep(s, &r);
    let (fa, fb): (C::Scalar, C::Scalar) = (fe(&a), fe(&b));
    let sum: C::Scalar = fe(&sm.add(&a, &b));
    let prod: C::Scalar = fe(&sm.mul(&a, &b));
    cx.nontrivial();
    cx.sample(|| format!("{} a={} b={} P={}", C::NAME, big::hex(&a), big::hex(&b), show(&r)));
    let want = pt(&(p * fa + p * fb));
    check_point(&(p * sum), &want, "(a+b)P = aP+bP")?;
    let want = pt(&((p * fb) * fa));
    check_point(&(p * prod), &want, "(ab)P = a(bP)")?;
    // the group order annihilates
    let m1: C::Scalar = fe(&sm.neg(&big::u(1)));
    check_point(&(p * m1 + p), &None, "(n-1)P+P")?;
    check_point(&(p * m1), &rc.neg(&r), "(n-1)P")?;
    check_point(&(p * C::Scalar::zero()), &None, "0P")?;
    check_point(&(p * C::Scalar::one()), &r, "1P")?;
    check_point(&(C::zero() * fa), &None, "kO")?;
    // endomorphism
    let e = r.map(|(x, y)| (rc.m.mul(&x, &val(&C::BETA_BASE)), y));
    check_point(&(p * C::BETA_SCALAR), &e, "beta P")?;
    let q = p + mk::<C>(&pool::<C>()[s.below(256)]);
    let rq = pt(&q);
    let want = pt(&(p * fa + q * fa));
    check_point(&((p + q) * fa), &want, "a(P+Q)")?;
    let e = rq.map(|(x, y)| (rc.m.mul(&x, &val(&C::BETA_BASE)), y));
    check_point(&(q * C::BETA_SCALAR), &e, "beta Q")?;
    cx.checks += 10;
    Ok(())
}

// ---------------------------------------------------------------- C05

fn decode_oracle<C: PC>(b: &[u8; 32]) -> Option<Pt> {
    let rc = C::rc();
    let flag = b[31] >> 7 == 1;
    let mut t = *b;
    t[31] &= 0x7f;
    let x = big::from_le(&t);
    if !big::lt(&x, &rc.m.0) {
        return None;
    }
    if big::is_zero(&x) && !flag {
        return Some(None);
    }
    let rhs = rc.m.add(&rc.m.mul(&rc.m.sq(&x), &x), &rc.b);
    if rc.m.is_square(&rhs) {
        // y itself is recovered by the caller from the decoded point
        Some(Some((x, rhs)))
    } else {
        None
    }
}

fn enc_bytes<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let rc = C::rc();
    let mut b = [0u8; 32];
    match s.below(8) {
        0 | 1 => {
            b = big::to_le(&rc.m.red(&gen_u256(s, &rc.m.0)));
            b[31] |= (s.bool() as u8) << 7;
        }
        2 => {
            b = big::to_le(&gen_u256(s, &rc.m.0));
        }
        3 => {
            // valid encoding, bits flipped
            b = encode_ref::<C>(&gen_ref::<C>(s));
            for _ in 0..s.below(3) {
                b[s.below(32)] ^= 1 << s.below(8);
            }
        }
        4 => {
            // coordinate plus modulus, when it fits below the sign bit
            let r = gen_ref::<C>(s).map(|p| p.0).unwrap_or(big::u(0));
            let (v, _) = big::add(&r, &rc.m.0);
            if v[3] >> 63 == 0 {
                b = big::to_le(&v);
            } else {
                let small = big::u(s.below(200) as u64);
                b = big::to_le(&big::add(&small, &rc.m.0).0);
            }
            b[31] |= (s.bool() as u8) << 7;
        }
        5 => {
            b = big::to_le(&big::u(s.below(300) as u64));
            b[31] |= (s.bool() as u8) << 7;
        }
        6 => {
            let v = big::sub(&rc.m.0, &big::u(1 + s.below(300) as u64)).0;
            b = big::to_le(&v);
            b[31] |= (s.bool() as u8) << 7;
        }
        _ => {
            b = s.bytes();
        }
    }
    cx.nontrivial();
    cx.checks += 2;
    cx.sample(|| format!("{} {:02x?}", C::NAME, b));
    let want = decode_oracle::<C>(&b);
    let got = C::from_bytes(&b);
    let some = bool::from(got.is_some());
    ensure!(some == want.is_some(), "decode-accept", "{}: decoding {:02x?} accepted={} oracle={}", C::NAME, b, some, want.is_some());
    if some {
        cx.label("valid encoding");
        let p = got.unwrap();
        match want.unwrap() {
            None => check_point(&p, &None, "decoded identity")?,
            Some((x, rhs)) => {
                let g = pt(&p);
                ensure!(g.is_some(), "decode-value", "{}: {:02x?} decoded to the identity", C::NAME, b);
                let (gx, gy) = g.unwrap();
                ensure!(gx == x && rc.m.sq(&gy) == rhs && (gy[0] & 1) as u8 == b[31] >> 7, "decode-value", "{}: {:02x?} decoded to {}", C::NAME, b, show(&g));
            }
        }
        ensure!(p.to_bytes() == b, "re-encode", "{}: {:02x?} re-encodes to {:02x?}", C::NAME, b, p.to_bytes());
        ensure!(p.is_on_curve(), "on-curve", "{}: decoded point off curve", C::NAME);
    } else {
        cx.label("invalid encoding");
    }
    Ok(())
}
fn encode_ref<C: PC>(p: &Pt) -> [u8; 32] {
    match p {
        None => [0; 32],
        Some((x, y)) => {
            let mut b = big::to_le(x);
            b[31] |= ((y[0] & 1) as u8) << 7;
            b
        }
    }
}
fn enc_point<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let r = gen_ref::<C>(s);
    let p: C = gen_rep(s, &r);
    cx.nontrivial();
    cx.checks += 4;
    cx.sample(|| format!("{} {}", C::NAME, show(&r)));
    let b = p.to_bytes();
    ensure!(b == encode_ref::<C>(&r), "encode", "{}: {} encoded as {:02x?}", C::NAME, show(&r), b);
    let d = C::from_bytes(&b);
    ensure!(bool::from(d.is_some()), "roundtrip", "{}: encoding of {} refused", C::NAME, show(&r));
    check_point(&d.unwrap(), &r, "roundtrip")?;
    // coordinates
    let xy = p.get_xy();
    ensure!(bool::from(xy.is_some()) == r.is_some(), "get-xy", "{}: get_xy presence wrong for {}", C::NAME, show(&r));
    let (x, y) = if bool::from(xy.is_some()) { xy.unwrap() } else { (C::Base::zero(), C::Base::zero()) };
    let q = C::from_xy(x, y);
    ensure!(bool::from(q.is_some()), "from-xy", "{}: own coordinates refused for {}", C::NAME, show(&r));
    check_point(&q.unwrap(), &r, "from_xy")
}
fn coords<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let rc = C::rc();
    let base = gen_ref::<C>(s).unwrap_or((big::u(0), big::u(0)));
    let (x, y) = match s.below(9) {
        0 => base,
        1 => (base.0, rc.m.neg(&base.1)),
        2 => (base.0, rc.m.add(&base.1, &big::u(1 + s.below(3) as u64))),
        3 => (rc.m.add(&base.0, &big::u(1 + s.below(3) as u64)), base.1),
        4 => (base.1, base.0),
        5 => (big::u(0), gen_val::<C::Base>(s)),
        6 => (gen_val::<C::Base>(s), big::u(0)),
        7 => (rc.m.mul(&base.0, &val(&C::Base::BETA)), base.1),
        _ => (gen_val::<C::Base>(s), gen_val::<C::Base>(s)),
    };
    cx.nontrivial();
    cx.checks += 2;
    cx.sample(|| format!("{} x={} y={}", C::NAME, big::hex(&x), big::hex(&y)));
    let on = rc.on_curve(&Some((x, y)));
    let idp = big::is_zero(&x) && big::is_zero(&y);
    cx.label(if on { "on curve" } else if idp { "reserved pair" } else { "off curve" });
    let p = C::from_xy(fe(&x), fe(&y));
    ensure!(bool::from(p.is_some()) == (on || idp), "from-xy", "{}: from_xy({},{}) accepted={}", C::NAME, big::hex(&x), big::hex(&y), bool::from(p.is_some()));
    if on {
        check_point(&p.unwrap(), &Some((x, y)), "from_xy")?;
    } else if idp {
        check_point(&p.unwrap(), &None, "from_xy(0,0)")?;
    }
    let q: C = C::from_xy_unchecked(fe(&x), fe(&y));
    ensure!(q.is_on_curve() == on, "on-curve", "{}: is_on_curve({},{})={}", C::NAME, big::hex(&x), big::hex(&y), q.is_on_curve());
    Ok(())
}

macro_rules! both {
    ($n:ident, $g:ident) => {
        fn $n(s: &mut Src, cx: &mut Cx) -> Res {
            if s.bool() {
                $g::<Ec1>(s, cx)
            } else {
                $g::<Ec0>(s, cx)
            }
        }
    };
}
both!(c03_hist, history);
both!(c03_pairs, pairs);
both!(c04_ref, mul_ref);
both!(c04_laws, mul_laws);
both!(c05_bytes, enc_bytes);
both!(c05_point, enc_point);
both!(c05_coords, coords);

fn c03_const(_s: &mut Src, cx: &mut Cx) -> Res {
    fn one<C: PC>() -> Res {
        let rc = C::rc();
        let g = pt(&C::one());
        ensure!(g.is_some() && rc.on_curve(&g), "constants", "{}: generator not on the curve", C::NAME);
        ensure!(val(&C::b()) == rc.b, "constants", "{}: b() wrong", C::NAME);
        check_point(&C::zero(), &None, "zero()")?;
        // prime order
        let ng = rc.mul(&g, &rc.n);
        ensure!(ng.is_none(), "constants", "{}: order wrong", C::NAME);
        let bs = val(&C::BETA_SCALAR);
        let sm = C::Scalar::m();
        ensure!(sm.mul(&sm.sq(&bs), &bs) == big::u(1) && bs != big::u(1), "constants", "{}: BETA_SCALAR not a cube root", C::NAME);
        check_point(&C::default(), &None, "default()")?;
        let g1 = C::one();
        check_point(&(C::default() + g1), &g, "default()+G")?;
        check_point(&(g1 + C::default()), &g, "G+default()")?;
        check_point(&C::default().double(), &None, "2*default()")
    }
    cx.nontrivial();
    cx.checks += 20;
    one::<Ec0>()?;
    one::<Ec1>()
}

fn main() {
    hv::main(vec![
        Spec {
            id: "C03",
            rule: "Histories are 1-24 operations (add, subtract, negate, double, in-place forms, select, reload in another representation, identity, default) on 4 registers holding pool points 2^iG, sums, endomorphism images and the identity; pairs are related (equal, opposite, identity, endomorphism image, double) in random projective representations. Each result and each equality is compared with the affine law over schoolbook integers. Every case is non-trivial.",
            assumptions: &["src/big.rs affine group law is correct", "field encodings (C01, C02)"],
            parts: vec![
                Part { name: "constants", tape: 1, quick: 1, thorough: 1, case: c03_const },
                Part { name: "pairs", tape: 120, quick: 120000, thorough: 3_000_000, case: c03_pairs },
                Part { name: "histories", tape: 500, quick: 80000, thorough: 2_000_000, case: c03_hist },
            ],
        },
        Spec {
            id: "C04",
            rule: "Scalars are 0, 1, order-1, single-bit, limb- and byte-run patterns and uniform; points are pool points, sums, endomorphism images and the identity in random representations. Products are compared with affine reference multiples, and the module laws and endomorphism relation are checked. Every case is non-trivial.",
            assumptions: &["src/big.rs affine group law is correct"],
            parts: vec![
                Part { name: "reference", tape: 160, quick: 12_000, thorough: 400_000, case: c04_ref },
                Part { name: "laws", tape: 220, quick: 15_000, thorough: 600_000, case: c04_laws },
            ],
        },
        Spec {
            id: "C05",
            rule: "Byte strings are canonical x with either sign, integers around multiples of the prime, bit-flipped valid encodings, x plus modulus, small and near-modulus x, and uniform; coordinate pairs are on-curve, negated, perturbed, swapped, with a zero coordinate, and uniform. Acceptance is compared with an Euler-criterion oracle. Every case is non-trivial.",
            assumptions: &["src/big.rs is correct"],
            parts: vec![
                Part { name: "bytes", tape: 120, quick: 120000, thorough: 2_000_000, case: c05_bytes },
                Part { name: "points", tape: 60, quick: 100_000, thorough: 4_000_000, case: c05_point },
                Part { name: "coordinates", tape: 120, quick: 200_000, thorough: 8_000_000, case: c05_coords },
            ],
        },
    ]);
}
