//! C18 point gadgets compute the right point, C19 and admit no other, C09 endomorphism challenges
use halo::*;
use hv::big::{self, Pt, U};
use hv::cs::*;
use hv::ensure;
use hv::gen::*;
use hv::points::*;
use hv::*;

type R<C> = Rec<<C as Curve>::Base>;

const OPS: [&str; 15] = [
    "witness", "conditional_neg", "conditional_endo", "add_incomplete", "add", "add_conditionally",
    "add_conditionally_incomplete", "double", "double_and_add_incomplete", "multiply", "multiply_endo",
    "multiply_inv_endo", "multiply_fast", "multiply_inv", "multiply_inv_fast",
];

/// A point with the given reference value inside the constraint system, in one of several forms.
fn operand<C: PC>(s: &mut Src, cs: &mut R<C>, p: &Pt, log: &mut String) -> CurvePoint<C> {
    match s.below(6) {
        0 => {
            *log += "const ";
            match p {
                None => CurvePoint::identity(),
                Some((x, y)) => CurvePoint::constant(fe(x), fe(y)),
            }
        }
        1 => {
            // allocated coordinates, constant flag
            *log += "constflag ";
            let (x, y) = p.map(|(x, y)| (fe(&x), fe(&y))).unwrap_or((C::Base::zero(), C::Base::zero()));
            let x = AllocatedNum::alloc(cs.namespace(|| "x"), || Ok(x)).unwrap();
            let y = AllocatedNum::alloc(cs.namespace(|| "y"), || Ok(y)).unwrap();
            CurvePoint::verif_from_parts(x.into(), y.into(), Boolean::constant(p.is_none()))
        }
        2 => {
            // a negated flag and a negated coordinate, as intermediate points have them
            *log += "notflag ";
            let (x, y) = p.map(|(x, y)| (fe::<C::Base>(&x), fe::<C::Base>(&y))).unwrap_or((C::Base::zero(), C::Base::zero()));
            let x = AllocatedNum::alloc(cs.namespace(|| "x"), || Ok(x)).unwrap();
            let y = AllocatedNum::alloc(cs.namespace(|| "y"), || Ok(-y)).unwrap();
            let f = AllocatedBit::alloc(cs.namespace(|| "f"), || Ok(p.is_some())).unwrap();
            CurvePoint::verif_from_parts(x.into(), -Num::from(y), Boolean::from(f).not())
        }
        3 => {
            // the result of an earlier gadget
            *log += "derived ";
            let rc = C::rc();
            let q = rc.neg(p);
            let w = CurvePoint::<C>::witness(cs.namespace(|| "w"), || Ok(mk::<C>(&q))).unwrap();
            w.conditional_neg(cs.namespace(|| "n"), &Boolean::constant(true)).unwrap()
        }
        _ => {
            *log += "witness ";
            let v = gen_rep::<C>(s, p);
            CurvePoint::witness(cs.namespace(|| "w"), || Ok(v)).unwrap()
        }
    }
}

fn condition<F: PF>(s: &mut Src, cs: &mut Rec<F>) -> (Boolean, bool) {
    let b = s.bool();
    match s.below(4) {
        0 => (Boolean::constant(b), b),
        1 => (Boolean::from(AllocatedBit::alloc(cs, || Ok(!b)).unwrap()).not(), b),
        _ => (AllocatedBit::alloc(cs, || Ok(b)).unwrap().into(), b),
    }
}

fn bits<F: PF>(cs: &mut Rec<F>, b: &[bool]) -> Vec<AllocatedBit> {
    b.iter().map(|x| AllocatedBit::alloc(cs.namespace(|| "bit"), || Ok(*x)).unwrap()).collect()
}
fn scalar_of(b: &[bool], n: &U) -> U {
    let mut v = [0u64; 8];
    for (i, x) in b.iter().enumerate() {
        if *x {
            v[i / 64] |= 1 << (i % 64);
        }
    }
    big::rem(&v, n)
}
fn gen_bits(s: &mut Src, n: usize) -> Vec<bool> {
    match s.below(5) {
        0 => vec![false; n],
        1 => vec![true; n],
        2 => {
            let k = s.below(n);
            (0..n).map(|i| i == k).collect()
        }
        _ => {
            let mut v = vec![];
            while v.len() < n {
                let b = s.u8();
                for i in 0..8 {
                    v.push(b >> i & 1 == 1);
                }
            }
            v.truncate(n);
            v
        }
    }
}
fn bits_str(b: &[bool]) -> String {
    b.iter().map(|x| if *x { '1' } else { '0' }).collect()
}

/// Is the running multiple of multiply_fast ever in an excluded relation with the base?
fn fast_ok(b: &[bool], n: &U) -> bool {
    if !b[b.len() - 1] {
        return false;
    }
    if b.len() == 1 {
        return true;
    }
    let m = big::M(*n);
    let one = big::u(1);
    let neg = m.neg(&one);
    let two = big::u(2);
    let mut acc = big::u(3);
    for bit in b[1..b.len() - 1].iter().rev() {
        if acc == one || acc == neg {
            return false;
        }
        let q = if *bit { one } else { neg };
        // P + Q = -P
        let sum = m.add(&acc, &q);
        if m.add(&sum, &acc) == big::u(0) || sum == acc {
            return false;
        }
        acc = m.add(&m.mul(&acc, &two), &q);
    }
    acc != one && acc != neg
}

fn num_terms<F: PF>(n: &Num<F>) -> (F, Vec<(usize, F)>) {
    match n {
        Num::Constant(c) => (c.value(), vec![]),
        Num::Allocated(c, a) => (F::zero(), vec![(vid(a.get_variable()), c.value())]),
    }
}
fn num_at<F: PF>(n: &Num<F>, w: &[F]) -> F {
    let (k, t) = num_terms(n);
    k + lc_val(&t, w)
}
fn bool_at<F: PF>(b: &Boolean, w: &[F]) -> F {
    match b {
        Boolean::Constant(c) => {
            if *c {
                F::one()
            } else {
                F::zero()
            }
        }
        Boolean::Is(a) => w[vid(a.get_variable())],
        Boolean::Not(a) => F::one() - w[vid(a.get_variable())],
    }
}
/// What a point result denotes under an assignment, or why it denotes nothing.
fn denotes<C: PC>(p: &CurvePoint<C>, w: &[C::Base]) -> Result<Pt, String> {
    let (x, y, f) = p.verif_parts();
    let (x, y, f) = (num_at(&x, w), num_at(&y, w), bool_at(&f, w));
    if f == C::Base::one() {
        if bool::from(x.is_zero()) && bool::from(y.is_zero()) {
            Ok(None)
        } else {
            Err(format!("identity flag with coordinates ({:?}, {:?})", x, y))
        }
    } else if bool::from(f.is_zero()) {
        Ok(Some((val(&x), val(&y))))
    } else {
        Err(format!("identity flag {:?}", f))
    }
}

struct Built<C: PC> {
    cs: R<C>,
    pre: usize,
    out: CurvePoint<C>,
    want: Pt,
    /// both operands of an incomplete operation are the identity: the result is not bound, by documentation
    loose: bool,
    log: String,
}

fn second<C: PC>(s: &mut Src, p: &Pt) -> Pt {
    let rc = C::rc();
    match s.below(8) {
        0 => *p,
        1 => rc.neg(p),
        2 => None,
        3 => p.map(|(x, y)| (rc.m.mul(&x, &val(&C::Base::BETA)), y)),
        4 => rc.neg(&p.map(|(x, y)| (rc.m.mul(&x, &val(&C::Base::BETA)), y))),
        5 => {
            let d = rc.add(p, p);
            if s.bool() {
                d
            } else {
                rc.neg(&d)
            }
        }
        _ => gen_ref::<C>(s),
    }
}

/// Build one operation on operands inside its documented domain; None when the drawn operands are outside it.
fn build<C: PC>(s: &mut Src, op: usize, long: bool) -> Result<Option<Built<C>>, Fail> {
    let rc = C::rc();
    let mut cs: R<C> = Rec::new(true);
    let mut log = format!("{} {} ", C::NAME, OPS[op]);
    let p = gen_ref::<C>(s);
    let name = OPS[op];
    let mut loose = false;
    let honest = |r: Result<CurvePoint<C>, SynthesisError>, log: &str| match r {
        Ok(o) => Ok(o),
        Err(e) => fail(format!("{}/error", name), format!("{}: error {:?}", log, e)),
    };
    let (pre, out, want);
    let show = |p: &Pt| match p {
        None => "O".to_string(),
        Some((x, _)) => format!("x={}", &big::hex(x)[..12]),
    };
    log += &show(&p);
    log += " ";
    match op {
        0 => {
            pre = cs.vals.len();
            let v = gen_rep::<C>(s, &p);
            out = honest(CurvePoint::witness(cs.namespace(|| "op"), || Ok(v)), &log)?;
            want = p;
        }
        1 | 2 => {
            let a = operand::<C>(s, &mut cs, &p, &mut log);
            let (c, b) = condition(s, &mut cs);
            log += &format!("cond {} ", b);
            pre = cs.vals.len();
            if op == 1 {
                out = honest(a.conditional_neg(cs.namespace(|| "op"), &c), &log)?;
                want = if b { rc.neg(&p) } else { p };
            } else {
                out = honest(a.conditional_endo(cs.namespace(|| "op"), &c), &log)?;
                want = if b { p.map(|(x, y)| (rc.m.mul(&x, &val(&C::Base::BETA)), y)) } else { p };
            }
        }
        3 | 4 | 5 | 6 | 8 => {
            let q = second::<C>(s, &p);
            log += &show(&q);
            log += " ";
            let distinct = p.is_some() && q.is_some() && p != q && p != rc.neg(&q);
            match op {
                3 | 8 => {
                    if p.is_none() && q.is_none() {
                        loose = true;
                    } else if !distinct {
                        return Ok(None);
                    }
                    if op == 8 && q == rc.neg(&rc.add(&p, &p)) && p.is_some() {
                        return Ok(None);
                    }
                }
                6 if !distinct => return Ok(None),
                _ => {}
            }
            let a = operand::<C>(s, &mut cs, &p, &mut log);
            let b = operand::<C>(s, &mut cs, &q, &mut log);
            let sum = rc.add(&p, &q);
            match op {
                3 => {
                    pre = cs.vals.len();
                    out = honest(a.add_incomplete(cs.namespace(|| "op"), &b), &log)?;
                    want = sum;
                }
                4 => {
                    pre = cs.vals.len();
                    out = honest(a.add(cs.namespace(|| "op"), &b), &log)?;
                    want = sum;
                }
                8 => {
                    pre = cs.vals.len();
                    out = honest(a.double_and_add_incomplete(cs.namespace(|| "op"), &b), &log)?;
                    want = rc.add(&sum, &p);
                }
                _ => {
                    let (c, v) = condition(s, &mut cs);
                    log += &format!("cond {} ", v);
                    pre = cs.vals.len();
                    out = if op == 5 {
                        honest(a.add_conditionally(cs.namespace(|| "op"), &b, &c), &log)?
                    } else {
                        honest(a.add_conditionally_incomplete(cs.namespace(|| "op"), &b, &c), &log)?
                    };
                    want = if v { sum } else { p };
                }
            }
        }
        7 => {
            let a = operand::<C>(s, &mut cs, &p, &mut log);
            pre = cs.vals.len();
            out = honest(a.double(cs.namespace(|| "op")), &log)?;
            want = rc.add(&p, &p);
        }
        10 | 11 => {
            let b = gen_bits(s, 128);
            log += &bits_str(&b);
            let a = operand::<C>(s, &mut cs, &p, &mut log);
            let bs = bits(&mut cs, &b);
            pre = cs.vals.len();
            let k = endo_scalar::<C>(&b);
            if op == 10 {
                out = honest(a.multiply_endo(cs.namespace(|| "op"), &bs), &log)?;
                want = rc.mul(&p, &k);
            } else {
                out = honest(a.multiply_inv_endo(cs.namespace(|| "op"), &bs), &log)?;
                let m = big::M(rc.n);
                want = rc.mul(&p, &m.inv(&k).unwrap());
            }
        }
        _ => {
            let n = if long && s.chance(1, 4) { s.pick(&[255usize, 256]) } else { 1 + s.below(8) };
            let mut b = gen_bits(s, n);
            if long && n >= 255 && s.bool() {
                // around the group order
                let d = big::u(s.below(6) as u64);
                let v = if s.bool() { big::add(&rc.n, &d).0 } else { big::sub(&rc.n, &d).0 };
                b = (0..n).map(|i| big::bit(&v, i)).collect();
            }
            if op == 12 || op == 14 {
                *b.last_mut().unwrap() = true;
                if !fast_ok(&b, &rc.n) {
                    return Ok(None);
                }
            }
            log += &bits_str(&b);
            let k = scalar_of(&b, &rc.n);
            if op >= 13 && big::is_zero(&k) {
                return Ok(None);
            }
            let a = operand::<C>(s, &mut cs, &p, &mut log);
            let bs = bits(&mut cs, &b);
            pre = cs.vals.len();
            let m = big::M(rc.n);
            let op_cs = cs.namespace(|| "op");
            let r = match op {
                9 => a.multiply(op_cs, &bs),
                12 => a.multiply_fast(op_cs, &bs),
                13 => a.multiply_inv(op_cs, &bs),
                _ => a.multiply_inv_fast(op_cs, &bs),
            };
            out = honest(r, &log)?;
            want = if op >= 13 { rc.mul(&p, &m.inv(&k).unwrap()) } else { rc.mul(&p, &k) };
        }
    }
    Ok(Some(Built { cs, pre, out, want, loose, log }))
}

/// the challenge scalar by the documented digit expansion, over integers modulo the group order
fn endo_scalar<C: PC>(b: &[bool]) -> U {
    let m = big::M(C::rc().n);
    let beta = val(&C::Scalar::BETA);
    let mut acc = big::u(3);
    for i in 1..64 {
        acc = m.add(&acc, &acc);
        acc = if b[2 * i] { m.sub(&acc, &big::u(1)) } else { m.add(&acc, &big::u(1)) };
        if b[2 * i + 1] {
            acc = m.mul(&acc, &beta);
        }
    }
    acc
}

fn honest_checks<C: PC>(b: &Built<C>, op: usize, cx: &mut Cx) -> Res {
    let name = OPS[op];
    if let Some(e) = b.cs.satisfied() {
        return fail(format!("{}/honest", name), format!("{}: the honest assignment violates {}", b.log, e));
    }
    let w = b.cs.assignment();
    match denotes(&b.out, &w) {
        Ok(p) => ensure!(p == b.want, format!("{}/value", name), "{}: result {:?}, expected {:?}", b.log, p, b.want),
        Err(e) => return fail(format!("{}/value", name), format!("{}: {}", b.log, e)),
    }
    // the values carried by the result are those of its variables
    let (x, y, f) = b.out.verif_parts();
    ensure!(
        x.value() == Some(num_at(&x, &w)) && y.value() == Some(num_at(&y, &w)),
        format!("{}/carried", name),
        "{}: carried coordinates differ from the variables",
        b.log
    );
    let fv = f.get_value().map(|v| if v { C::Base::one() } else { C::Base::zero() });
    ensure!(fv == Some(bool_at(&f, &w)), format!("{}/carried", name), "{}: carried flag differs from the variable", b.log);
    cx.checks += 3;
    cx.nontrivial();
    Ok(())
}

fn value_case<C: PC>(s: &mut Src, cx: &mut Cx, ops: &[usize], long: bool) -> Res {
    let op = s.pick(ops);
    match build::<C>(s, op, long)? {
        None => {
            cx.label("outside domain");
            Ok(())
        }
        Some(b) => {
            honest_checks(&b, op, cx)?;
            cx.label(OPS[op]);
            if b.want.is_none() {
                cx.label("identity result");
            }
            cx.sample(|| b.log.clone());
            Ok(())
        }
    }
}
fn forge_case<C: PC>(s: &mut Src, cx: &mut Cx, ops: &[usize], attempts: usize) -> Res {
    let op = s.pick(ops);
    let b = match build::<C>(s, op, false)? {
        None => {
            cx.label("outside domain");
            return Ok(());
        }
        Some(b) => b,
    };
    if b.cs.satisfied().is_some() {
        cx.label("honest assignment unsatisfied");
        return Ok(());
    }
    if b.loose {
        cx.label("unbound by documentation");
        return Ok(());
    }
    let adv = Adv::new(&b.cs);
    let fixed: Vec<_> = (1..b.pre).map(|i| (i, b.cs.vals[i].unwrap())).collect();
    let (x, y, f) = b.out.verif_parts();
    let mut targets: Vec<usize> = num_terms(&x).1.iter().chain(num_terms(&y).1.iter()).map(|t| t.0).collect();
    match f {
        Boolean::Is(a) | Boolean::Not(a) => targets.push(vid(a.get_variable())),
        _ => {}
    }
    let mut st = Stats::default();
    let rc = C::rc();
    let found = adv.search(s, &b.cs, &fixed, &targets, attempts, &mut st, |w| match denotes(&b.out, w) {
        Err(e) => Some(e),
        Ok(p) => {
            if op == 0 {
                // any point may be witnessed, but it has to be one
                if p.is_none() || rc.on_curve(&p) {
                    None
                } else {
                    Some("a point off the curve".to_string())
                }
            } else if p == b.want {
                None
            } else {
                Some(format!("result {:?}, expected {:?}", p, b.want))
            }
        }
    });
    cx.checks += st.attempts + 1;
    if let Some(m) = found {
        return fail(format!("{}/forged", OPS[op]), format!("{}: a satisfying assignment gives {}", b.log, m));
    }
    cx.nontrivial();
    cx.label(OPS[op]);
    if st.different > 0 {
        cx.label("other satisfying assignments found, same result");
    }
    if st.determined > 0 {
        cx.label("fully determined by unit steps");
    }
    cx.sample(|| format!("{} stats {:?}", b.log, st));
    Ok(())
}

const SHORT: [usize; 15] = [0, 1, 2, 3, 4, 4, 4, 5, 6, 7, 8, 9, 12, 13, 14];
fn c18_0(s: &mut Src, cx: &mut Cx) -> Res {
    value_case::<Ec0>(s, cx, &SHORT, true)
}
fn c18_1(s: &mut Src, cx: &mut Cx) -> Res {
    value_case::<Ec1>(s, cx, &SHORT, true)
}
fn c18_e(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        value_case::<Ec1>(s, cx, &[10, 11], true)
    } else {
        value_case::<Ec0>(s, cx, &[10, 11], true)
    }
}
const SIMPLE: [usize; 12] = [0, 0, 1, 2, 3, 4, 4, 4, 5, 6, 7, 8];
fn c19_0(s: &mut Src, cx: &mut Cx) -> Res {
    forge_case::<Ec0>(s, cx, &SIMPLE, 40)
}
fn c19_1(s: &mut Src, cx: &mut Cx) -> Res {
    forge_case::<Ec1>(s, cx, &SIMPLE, 40)
}
fn c19_m(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        forge_case::<Ec1>(s, cx, &[9, 12, 13, 14], 30)
    } else {
        forge_case::<Ec0>(s, cx, &[9, 12, 13, 14], 30)
    }
}
fn c19_e(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        forge_case::<Ec1>(s, cx, &[10, 11], 12)
    } else {
        forge_case::<Ec0>(s, cx, &[10, 11], 12)
    }
}

// ------------------------------------------------------------------ C09

fn challenge_scalar<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let b = gen_bits(s, 128);
    let mut v = [0u64; 4];
    for i in 0..128 {
        if b[i] {
            v[i / 64] |= 1 << (i % 64);
        }
    }
    let want = endo_scalar::<C>(&b);
    let want: C::Scalar = fe(&want);
    // any element of either field with the same low 128 bits
    let mut hi = v;
    let m = C::Scalar::m();
    match s.below(3) {
        0 => {}
        1 => {
            hi[2] = s.u64();
            hi[3] = s.u64() & ((1 << 61) - 1);
        }
        _ => {
            hi[2] = s.u64();
        }
    }
    let x: C::Scalar = fe(&m.red(&hi));
    let got: C::Scalar = get_challenge_scalar(x);
    ensure!(got == want, "scalar", "{} scalar of {} is {:?}, expected {:?}", C::NAME, big::hex(&hi), got, want);
    cx.checks += 1;
    cx.nontrivial();
    cx.sample(|| format!("{} {} -> {:?}", C::NAME, big::hex(&hi), got));
    Ok(())
}
fn c09_0(s: &mut Src, cx: &mut Cx) -> Res {
    challenge_scalar::<Ec0>(s, cx)?;
    challenge_scalar::<Ec1>(s, cx)
}

fn main() {
    hv::main(vec![
        Spec {
            id: "C18",
            rule: "a case is non-trivial when the operation ran on operands inside its documented domain",
            assumptions: &["the group law of the reference (affine, big integers) is the specification"],
            parts: vec![
                Part { name: "ec0", tape: 400, quick: 16000, thorough: 200000, case: c18_0 },
                Part { name: "ec1", tape: 400, quick: 16000, thorough: 200000, case: c18_1 },
                Part { name: "endo", tape: 400, quick: 1800, thorough: 20000, case: c18_e },
                Part { name: "view-Ec0", tape: 2400, quick: 3000, thorough: 30000, case: |s, cx| hv::gprog::view::<Ec0>(s, cx, &[6, 35, 36, 37, 38, 39, 40, 41, 42]) },
                Part { name: "view-Ec1", tape: 2400, quick: 3000, thorough: 30000, case: |s, cx| hv::gprog::view::<Ec1>(s, cx, &[6, 35, 36, 37, 38, 39, 40, 41, 42]) },
            ],
        },
        Spec {
            id: "C19",
            rule: "a case is non-trivial when the operation ran on operands inside its documented domain and a search for other satisfying assignments was made",
            assumptions: &["operands, their flags and bits are held fixed; other assignments are searched for by changing undetermined variables and propagating the constraints"],
            parts: vec![
                Part { name: "ec0", tape: 2000, quick: 24000, thorough: 300000, case: c19_0 },
                Part { name: "ec1", tape: 2000, quick: 24000, thorough: 300000, case: c19_1 },
                Part { name: "mul", tape: 2400, quick: 4800, thorough: 60000, case: c19_m },
                Part { name: "endo", tape: 1200, quick: 1200, thorough: 12000, case: c19_e },
                Part { name: "view-Ec0", tape: 2400, quick: 1200, thorough: 8000, case: |s, cx| hv::gprog::view::<Ec0>(s, cx, &[6, 35, 36, 37, 38, 39, 40, 41, 42, 43, 46, 47, 44, 45]) },
                Part { name: "view-Ec1", tape: 2400, quick: 1200, thorough: 8000, case: |s, cx| hv::gprog::view::<Ec1>(s, cx, &[6, 35, 36, 37, 38, 39, 40, 41, 42, 43, 46, 47, 44, 45]) },
            ],
        },
        Spec {
            id: "C09",
            rule: "every case evaluates one challenge; circuit cases are non-trivial when the gadget ran",
            assumptions: &["the digit expansion is the one documented in the property"],
            parts: vec![
                Part { name: "scalar", tape: 64, quick: 24000, thorough: 300000, case: c09_0 },
                Part { name: "gadget", tape: 400, quick: 3600, thorough: 20000, case: c18_e },
                Part { name: "binding", tape: 1200, quick: 1600, thorough: 12000, case: c19_e },
            ],
        },
    ]);
}
