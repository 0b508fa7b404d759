//! C01, C02: prime field arithmetic and encodings against schoolbook integers.
use halo::{Field, Fp, Fq};
use hv::big::{self, U};
use hv::gen::*;
use hv::*;
use subtle::{ConditionallySelectable, ConstantTimeEq};

fn same<F: PF>(cx: &mut Cx, op: &str, got: &F, want: &U, ctx: impl Fn() -> String) -> Res {
    cx.checks += 1;
    let g = val(got);
    ensure!(g == *want, format!("{}-{}", F::NAME, op), "{} {}: got {} want {} for {}", F::NAME, op, big::hex(&g), big::hex(want), ctx());
    // a correct value must also compare equal to an independently built one
    let w: F = fe(want);
    ensure!(*got == w && bool::from(got.ct_eq(&w)), format!("{}-{}-eq", F::NAME, op), "{} {}: value {} not equal to itself for {}", F::NAME, op, big::hex(&g), ctx());
    Ok(())
}

fn binops<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let m = F::m();
    let a = gen_val::<F>(s);
    let b = match s.below(8) {
        0 | 1 => related::<F>(s, &a),
        2 => towards::<F>(s, &a),
        _ => gen_val::<F>(s),
    };
    let (x, y): (F, F) = (fe(&a), fe(&b));
    cx.nontrivial();
    cx.sample(|| format!("{} a={} b={}", F::NAME, big::hex(&a), big::hex(&b)));
    let d = || format!("a={} b={}", big::hex(&a), big::hex(&b));
    same(cx, "add", &(x + y), &m.add(&a, &b), d)?;
    same(cx, "add-ref", &(x + &y), &m.add(&a, &b), d)?;
    same(cx, "sub", &(x - y), &m.sub(&a, &b), d)?;
    same(cx, "sub-ref", &(x - &y), &m.sub(&a, &b), d)?;
    let p = m.mul(&a, &b);
    same(cx, "mul", &(x * y), &p, d)?;
    same(cx, "mul-ref", &(x * &y), &p, d)?;
    same(cx, "neg", &(-x), &m.neg(&a), d)?;
    same(cx, "square", &x.square(), &m.sq(&a), d)?;
    same(cx, "double", &x.dbl(), &m.add(&a, &a), d)?;
    let mut t = x;
    t += y;
    same(cx, "add-assign", &t, &m.add(&a, &b), d)?;
    t = x;
    t += &y;
    same(cx, "add-assign-ref", &t, &m.add(&a, &b), d)?;
    t = x;
    t -= y;
    same(cx, "sub-assign", &t, &m.sub(&a, &b), d)?;
    t = x;
    t -= &y;
    same(cx, "sub-assign-ref", &t, &m.sub(&a, &b), d)?;
    t = x;
    t *= y;
    same(cx, "mul-assign", &t, &p, d)?;
    t = x;
    t *= &y;
    same(cx, "mul-assign-ref", &t, &p, d)?;
    ensure!((x == y) == (a == b), "eq", "{} == disagrees for {}", F::NAME, d());
    ensure!(bool::from(x.ct_eq(&y)) == (a == b), "ct_eq", "{} ct_eq disagrees for {}", F::NAME, d());
    ensure!(bool::from(x.is_zero()) == big::is_zero(&a), "is_zero", "{} is_zero disagrees for {}", F::NAME, d());
    ensure!(bool::from((x - y).is_zero()) == (a == b), "is_zero", "{} is_zero(a-b) disagrees for {}", F::NAME, d());
    same(cx, "select", &F::conditional_select(&x, &y, 0.into()), &a, d)?;
    same(cx, "select", &F::conditional_select(&x, &y, 1.into()), &b, d)?;
    let i = x.invert();
    match m.inv(&a) {
        None => ensure!(bool::from(i.is_none()), "invert", "{} zero has an inverse", F::NAME),
        Some(v) => {
            ensure!(bool::from(i.is_some()), "invert", "{} no inverse of {}", F::NAME, big::hex(&a));
            same(cx, "invert", &i.unwrap(), &v, d)?;
        }
    }
    Ok(())
}

fn conversions<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let m = F::m();
    let r = gen_u256(s, &m.0);
    cx.nontrivial();
    cx.sample(|| format!("{} raw={}", F::NAME, big::hex(&r)));
    same(cx, "from_raw", &F::raw(r), &m.red(&r), || big::hex(&r))?;
    let hi = gen_u256(s, &m.0);
    let mut w = [0u8; 64];
    w[..32].copy_from_slice(&big::to_le(&r));
    w[32..].copy_from_slice(&big::to_le(&hi));
    let full = [r[0], r[1], r[2], r[3], hi[0], hi[1], hi[2], hi[3]];
    same(cx, "from_bytes_wide", &F::wide(&w), &big::rem(&full, &m.0), || format!("{:?}", full))?;
    let v = gen_limb(s, m.0[0]);
    let v2 = gen_limb(s, m.0[1]);
    same(cx, "from_u64", &F::from_u64(v), &big::u(v), || format!("{}", v))?;
    same(cx, "From<u64>", &F::from_u64_conv(v), &big::u(v), || format!("{}", v))?;
    same(cx, "from_u128", &F::from_u128(v as u128 | (v2 as u128) << 64), &[v, v2, 0, 0], || format!("{} {}", v, v2))?;
    same(cx, "from_bool", &F::from(true), &big::u(1), || "true".into())?;
    same(cx, "from_bool", &F::from(false), &big::u(0), || "false".into())?;
    same(cx, "zero", &F::zero(), &big::u(0), || "0".into())?;
    same(cx, "one", &F::one(), &big::u(1), || "1".into())?;
    same(cx, "default", &F::default(), &big::u(0), || "default".into())?;
    Ok(())
}

fn powers<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let m = F::m();
    let a = gen_val::<F>(s);
    let e = if s.below(3) == 0 { big::u(s.u8() as u64) } else { gen_u256(s, &m.0) };
    let x: F = fe(&a);
    cx.nontrivial();
    cx.sample(|| format!("{} {}^{}", F::NAME, big::hex(&a), big::hex(&e)));
    let want = m.pow(&a, &e);
    let d = || format!("a={} e={}", big::hex(&a), big::hex(&e));
    same(cx, "pow", &x.pow(&e), &want, d)?;
    same(cx, "pow_vartime", &x.pow_vartime(&e), &want, d)?;
    Ok(())
}

fn batch<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    if s.chance(1, 150) {
        cx.label("long batch");
        let n = 20 + s.below(600);
        let tape = grown(s.u64(), 100 * n);
        return batch_of::<F>(&mut Src::new(&tape), cx, n);
    }
    let n = s.below(20);
    batch_of::<F>(s, cx, n)
}
fn batch_of<F: PF>(s: &mut Src, cx: &mut Cx, n: usize) -> Res {
    let m = F::m();
    let vals: Vec<U> = (0..n).map(|_| if s.below(5) == 0 { big::u(0) } else { gen_val::<F>(s) }).collect();
    let mut v: Vec<F> = vals.iter().map(|x| fe(x)).collect();
    cx.sample(|| format!("{} batch {:?}", F::NAME, vals.iter().map(big::hex).collect::<Vec<_>>()));
    if vals.iter().any(|v| big::is_zero(v)) && n > 1 {
        cx.label("batch-with-zero");
    }
    if n > 0 {
        cx.nontrivial();
    }
    let all = F::batch_invert(&mut v);
    let mut prod = big::u(1);
    for (i, a) in vals.iter().enumerate() {
        let want = m.inv(a).unwrap_or(big::u(0));
        if !big::is_zero(&want) {
            prod = m.mul(&prod, &want);
        }
        same(cx, "batch_invert", &v[i], &want, || format!("index {} of {:?}", i, vals))?;
    }
    same(cx, "batch_invert-product", &all, &prod, || format!("{:?}", vals))?;
    Ok(())
}

/// random programs over a register file: results feed later operations
fn program<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let m = F::m();
    let mut r: Vec<U> = (0..4).map(|_| gen_val::<F>(s)).collect();
    let mut x: Vec<F> = r.iter().map(|v| fe(v)).collect();
    let n = s.range(1, 30);
    let mut trace = vec![];
    cx.nontrivial();
    for _ in 0..n {
        let (i, j, k) = (s.below(4), s.below(4), s.below(4));
        let op = s.below(12);
        trace.push((op, i, j, k));
        let d = || format!("program {:?}", trace);
        match op {
            0 => {
                x[k] = x[i] + x[j];
                r[k] = m.add(&r[i], &r[j]);
            }
            1 => {
                x[k] = x[i] - x[j];
                r[k] = m.sub(&r[i], &r[j]);
            }
            2 | 3 => {
                x[k] = x[i] * x[j];
                r[k] = m.mul(&r[i], &r[j]);
            }
            4 => {
                x[k] = x[i].square();
                r[k] = m.sq(&r[i]);
            }
            5 => {
                x[k] = -x[i];
                r[k] = m.neg(&r[i]);
            }
            6 => {
                x[k] = x[i].dbl();
                r[k] = m.add(&r[i], &r[i]);
            }
            7 => {
                let t = x[j];
                x[i] += t;
                r[i] = m.add(&r[i], &r[j]);
            }
            8 => {
                let t = x[j];
                x[i] -= t;
                r[i] = m.sub(&r[i], &r[j]);
            }
            9 => {
                let t = x[j];
                x[i] *= t;
                r[i] = m.mul(&r[i], &r[j]);
            }
            10 => {
                let c = s.bool();
                x[k] = F::conditional_select(&x[i], &x[j], (c as u8).into());
                r[k] = if c { r[j] } else { r[i] };
            }
            _ => {
                if let Some(v) = m.inv(&r[i]) {
                    x[k] = x[i].invert().unwrap();
                    r[k] = v;
                }
            }
        }
        for q in 0..4 {
            same(cx, "program", &x[q], &r[q], d)?;
            for w in 0..q {
                ensure!((x[q] == x[w]) == (r[q] == r[w]), "program-eq", "{} equality wrong after {}", F::NAME, d());
            }
        }
    }
    cx.sample(|| format!("{} program {:?}", F::NAME, trace));
    Ok(())
}

fn constants<F: PF>(_s: &mut Src, cx: &mut Cx) -> Res {
    let m = F::m();
    let one = big::u(1);
    let pm1 = big::sub(&m.0, &one).0;
    cx.nontrivial();
    cx.checks += 6;
    let a = val(&F::ALPHA);
    let mut t = a;
    for _ in 0..F::S - 1 {
        t = m.sq(&t);
    }
    ensure!(t == pm1, "alpha", "{}: ALPHA^(2^(S-1)) != -1", F::NAME);
    ensure!(F::S as u64 == pm1[0].trailing_zeros() as u64, "s", "{}: S is not the 2-adicity", F::NAME);
    let b = val(&F::BETA);
    ensure!(b != one && m.mul(&m.sq(&b), &b) == one, "beta", "{}: BETA is not of order 3", F::NAME);
    let prod = big::mul(&F::RESCUE_INVALPHA, &big::u(F::RESCUE_ALPHA));
    ensure!(big::rem(&prod, &pm1) == one, "rescue-alpha", "{}: alpha * invalpha != 1 mod p-1", F::NAME);
    ensure!(F::NUM_BITS == 255 && F::CAPACITY == 254, "bits", "{}: NUM_BITS/CAPACITY", F::NAME);
    Ok(())
}

fn c01_bin(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        binops::<Fq>(s, cx)
    } else {
        binops::<Fp>(s, cx)
    }
}
fn c01_conv(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        conversions::<Fq>(s, cx)
    } else {
        conversions::<Fp>(s, cx)
    }
}
fn c01_pow(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        powers::<Fq>(s, cx)
    } else {
        powers::<Fp>(s, cx)
    }
}
fn c01_batch(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        batch::<Fq>(s, cx)
    } else {
        batch::<Fp>(s, cx)
    }
}
fn c01_prog(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        program::<Fq>(s, cx)
    } else {
        program::<Fp>(s, cx)
    }
}
fn c01_const(s: &mut Src, cx: &mut Cx) -> Res {
    constants::<Fp>(s, cx)?;
    constants::<Fq>(s, cx)
}

// ------------------------------------------------------------------------------- C02

fn encoding<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let m = F::m();
    let v = gen_u256(s, &m.0);
    let bytes = big::to_le(&v);
    cx.nontrivial();
    cx.sample(|| format!("{} decode {}", F::NAME, big::hex(&v)));
    cx.label(if big::lt(&v, &m.0) { "canonical" } else { "non-canonical" });
    cx.checks += 4;
    let r = F::from_bytes(&bytes);
    ensure!(
        bool::from(r.is_some()) == big::lt(&v, &m.0),
        "decode-accept",
        "{}: decoding {} gives is_some={}",
        F::NAME,
        big::hex(&v),
        bool::from(r.is_some())
    );
    if bool::from(r.is_some()) {
        let x = r.unwrap();
        ensure!(x.to_bytes() == bytes, "decode-roundtrip", "{}: {} re-encodes as {:?}", F::NAME, big::hex(&v), x.to_bytes());
        ensure!(x == F::raw(v), "decode-value", "{}: decoded {} is another element", F::NAME, big::hex(&v));
    }
    // encode -> decode for a value reached by arithmetic
    let a = gen_val::<F>(s);
    let b = gen_val::<F>(s);
    let y = fe::<F>(&a) * fe::<F>(&b) - fe::<F>(&b);
    let want = m.sub(&m.mul(&a, &b), &b);
    let e = y.to_bytes();
    ensure!(e == big::to_le(&want), "encode", "{}: encoding of {} is {:?}", F::NAME, big::hex(&want), e);
    ensure!(y.into_bytes() == e, "encode-into", "{}: Into<[u8;32]> differs", F::NAME);
    ensure!(F::from_bytes(&e).unwrap() == y, "encode-roundtrip", "{}: {} does not round-trip", F::NAME, big::hex(&want));
    ensure!(
        y.get_lower_128() == want[0] as u128 | (want[1] as u128) << 64,
        "lower128",
        "{}: get_lower_128 of {} = {:x}",
        F::NAME,
        big::hex(&want),
        y.get_lower_128()
    );
    let x: F = fe(&a);
    ensure!(x.get_lower_128() == a[0] as u128 | (a[1] as u128) << 64, "lower128", "{}: get_lower_128 of {}", F::NAME, big::hex(&a));
    ensure!(format!("{:?}", x) == big::hex(&a), "debug", "{}: Debug of {} prints {:?}", F::NAME, big::hex(&a), x);
    Ok(())
}

fn sqrt<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let m = F::m();
    cx.nontrivial();
    // r = alpha^(2^j * odd) * t^(2^32) covers every 2-adic order; plus arbitrary values
    let r = match s.below(4) {
        0 => gen_val::<F>(s),
        1 => big::u(s.below(5) as u64),
        _ => {
            let mut al = val(&F::ALPHA);
            let e = s.u32() as u64 | 1;
            al = m.pow(&al, &[e]);
            for _ in 0..s.below(33) {
                al = m.sq(&al);
            }
            let mut t = gen_val::<F>(s);
            if big::is_zero(&t) {
                t = big::u(1);
            }
            if s.bool() {
                for _ in 0..32 {
                    t = m.sq(&t);
                }
            }
            m.mul(&al, &t)
        }
    };
    let sq = m.sq(&r);
    cx.sample(|| format!("{} root {}", F::NAME, big::hex(&r)));
    cx.checks += 2;
    let x: F = fe(&sq);
    let got = x.sqrt();
    ensure!(bool::from(got.is_some()), "sqrt-missing", "{}: square {} of {} has no root", F::NAME, big::hex(&sq), big::hex(&r));
    let g = val(&got.unwrap());
    ensure!(g == r || g == m.neg(&r), "sqrt-wrong", "{}: sqrt({}) = {}", F::NAME, big::hex(&sq), big::hex(&g));
    // 7 generates the multiplicative group of Fp; take the root of unity (a non-residue) in both fields
    if !big::is_zero(&r) {
        let nr = m.mul(&sq, &val(&F::ALPHA));
        let y: F = fe(&nr);
        ensure!(bool::from(y.sqrt().is_none()), "sqrt-nonresidue", "{}: non-residue {} has a root", F::NAME, big::hex(&nr));
    }
    Ok(())
}
fn euler<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let m = F::m();
    let a = gen_val::<F>(s);
    cx.nontrivial();
    cx.checks += 1;
    cx.sample(|| format!("{} {}", F::NAME, big::hex(&a)));
    let x: F = fe(&a);
    let r = x.sqrt();
    let sq = m.is_square(&a);
    cx.label(if sq { "square" } else { "non-square" });
    ensure!(bool::from(r.is_some()) == sq, "sqrt-euler", "{}: sqrt({}).is_some()={} but Euler says {}", F::NAME, big::hex(&a), bool::from(r.is_some()), sq);
    if sq {
        let g = val(&r.unwrap());
        ensure!(m.sq(&g) == a, "sqrt-wrong", "{}: sqrt({}) = {}", F::NAME, big::hex(&a), big::hex(&g));
    }
    Ok(())
}

fn c02_enc(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        encoding::<Fq>(s, cx)
    } else {
        encoding::<Fp>(s, cx)
    }
}
fn c02_sqrt(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        sqrt::<Fq>(s, cx)
    } else {
        sqrt::<Fp>(s, cx)
    }
}
fn c02_euler(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        euler::<Fq>(s, cx)
    } else {
        euler::<Fp>(s, cx)
    }
}

fn main() {
    hv::main(vec![
        Spec {
            id: "C01",
            rule: "Operands are integers below the prime drawn from small, near-modulus, limb-edge (canonical and Montgomery form), power-of-two, root-of-unity and uniform classes, the second sometimes related to the first (equal, negated, inverse, neighbour); programs are 1-30 operations on 4 registers. Every result is compared with schoolbook big-integer arithmetic. Every case with at least one operation is non-trivial.",
            assumptions: &["src/big.rs (schoolbook integers, long division, binary Euclid) is correct", "values enter and leave through from_bytes/to_bytes, checked by C02"],
            parts: vec![
                Part { name: "constants", tape: 1, quick: 1, thorough: 1, case: c01_const },
                Part { name: "binops", tape: 220, quick: 1_500_000, thorough: 40_000_000, case: c01_bin },
                Part { name: "conversions", tape: 200, quick: 1_000_000, thorough: 20_000_000, case: c01_conv },
                Part { name: "powers", tape: 200, quick: 20_000, thorough: 500_000, case: c01_pow },
                Part { name: "batch", tape: 1200, quick: 20_000, thorough: 1_000_000, case: c01_batch },
                Part { name: "programs", tape: 600, quick: 300_000, thorough: 8_000_000, case: c01_prog },
            ],
        },
        Spec {
            id: "C02",
            rule: "Byte strings are integers near multiples of the prime, limb patterns, 2^k neighbours, top-of-range and uniform; square-root inputs are squares of values of every 2-adic order, their products with a non-residue, and arbitrary values judged by Euler's criterion. Every case is non-trivial.",
            assumptions: &["src/big.rs is correct"],
            parts: vec![
                Part { name: "encodings", tape: 260, quick: 1_500_000, thorough: 40_000_000, case: c02_enc },
                Part { name: "squares", tape: 200, quick: 60_000, thorough: 2_000_000, case: c02_sqrt },
                Part { name: "euler", tape: 100, quick: 20_000, thorough: 600_000, case: c02_euler },
            ],
        },
    ]);
}
