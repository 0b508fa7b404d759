//! C11 Rescue gadget, C13 booleans, C14 machine integers, C15 SHA-256, C16 numbers, C17 bit decomposition
use halo::rescue::Rescue;
use halo::*;
use hv::big::{self};
use hv::cs::*;
use hv::ensure;
use hv::gen::*;
use hv::sha as model;
use hv::*;

fn bit_at<F: PF>(b: &AllocatedBit, w: &[F]) -> F {
    w[vid(b.get_variable())]
}
fn bool_at<F: PF>(b: &Boolean, w: &[F]) -> F {
    match b {
        Boolean::Constant(c) => F::from_u64(*c as u64),
        Boolean::Is(a) => bit_at(a, w),
        Boolean::Not(a) => F::one() - bit_at(a, w),
    }
}
fn bool_val<F: PF>(b: &Boolean, w: &[F]) -> Result<bool, String> {
    let v = bool_at(b, w);
    if v == F::one() {
        Ok(true)
    } else if bool::from(v.is_zero()) {
        Ok(false)
    } else {
        Err(format!("a bit of value {:?}", v))
    }
}
fn bool_var(b: &Boolean) -> Option<usize> {
    match b {
        Boolean::Constant(_) => None,
        Boolean::Is(a) | Boolean::Not(a) => Some(vid(a.get_variable())),
    }
}
fn fixed_upto<F: PF>(cs: &Rec<F>, pre: usize) -> Vec<(usize, F)> {
    (1..pre).map(|i| (i, cs.vals[i].unwrap())).collect()
}
fn abit<F: PF>(cs: &mut Rec<F>, v: bool) -> AllocatedBit {
    AllocatedBit::alloc(cs.namespace(|| "bit"), || Ok(v)).unwrap()
}

// ------------------------------------------------------------------ C13

/// An allocated bit of the given value, in one of several origins.
fn gen_abit<F: PF>(s: &mut Src, cs: &mut Rec<F>, v: bool, prev: &[(AllocatedBit, bool)], log: &mut String) -> AllocatedBit {
    match s.below(9) {
        0 if v => {
            *log += "one ";
            AllocatedBit::one(cs)
        }
        1 => {
            *log += "input ";
            let b = AllocatedBit::alloc_input_unchecked(cs.namespace(|| "in"), || Ok(v)).unwrap();
            b.check(cs.namespace(|| "check")).unwrap();
            b
        }
        2 => {
            *log += "xor-made ";
            let x = s.bool();
            let a = abit(cs, x);
            let b = abit(cs, x ^ v);
            AllocatedBit::xor(cs.namespace(|| "x"), &a, &b).unwrap()
        }
        3 => {
            *log += "and-made ";
            let x = if v { true } else { s.bool() };
            let y = if v { true } else { !x };
            let a = abit(cs, x);
            let b = abit(cs, y);
            AllocatedBit::and(cs.namespace(|| "x"), &a, &b).unwrap()
        }
        4 | 5 if prev.iter().any(|p| p.1 == v) => {
            *log += "same ";
            let c: Vec<_> = prev.iter().filter(|p| p.1 == v).collect();
            c[s.below(c.len())].0.clone()
        }
        _ => {
            *log += "alloc ";
            abit(cs, v)
        }
    }
}
fn gen_boolean<F: PF>(s: &mut Src, cs: &mut Rec<F>, prev: &mut Vec<(AllocatedBit, bool)>, log: &mut String) -> (Boolean, bool) {
    let v = s.bool();
    let b = match s.below(8) {
        0 => {
            *log += "const ";
            Boolean::constant(v)
        }
        1..=3 => {
            *log += "not-";
            let a = gen_abit(s, cs, !v, prev, log);
            prev.push((a.clone(), !v));
            Boolean::from(a).not()
        }
        4 => {
            // Boolean derived from Boolean gadgets
            *log += "derived ";
            let x = s.bool();
            let y = s.bool();
            let a = Boolean::from(abit(cs, x));
            let b = Boolean::from(abit(cs, y)).not();
            let r = Boolean::xor(cs.namespace(|| "x"), &a, &b).unwrap();
            if (x ^ !y) == v {
                r
            } else {
                r.not()
            }
        }
        _ => {
            let a = gen_abit(s, cs, v, prev, log);
            prev.push((a.clone(), v));
            Boolean::from(a)
        }
    };
    *log += &format!("= {}; ", v as u8);
    (b, v)
}

fn c13<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let mut cs = Rec::<F>::new(true);
    let mut prev = vec![];
    let mut log = String::new();
    let op = s.below(14);
    const N: [&str; 14] = ["xor", "and", "ch", "maj", "enforce_equal", "bit.xor", "bit.and", "bit.and_not", "bit.nor", "alloc", "alloc_input", "lc", "into_num", "not"];
    let name = N[op];
    log += name;
    log += ": ";
    let attempts = 24;
    cx.label(name);
    let check_out = |s: &mut Src, cx: &mut Cx, cs: &Rec<F>, pre: usize, out: &Boolean, want: bool, log: &str| -> Res {
        ensure!(out.get_value() == Some(want), format!("{}/value", name), "{} {}: reported value {:?}, expected {}", F::NAME, log, out.get_value(), want);
        let w = cs.assignment();
        ensure!(bool_val(out, &w) == Ok(want), format!("{}/assigned", name), "{} {}: assigned value {:?}, expected {}", F::NAME, log, bool_val(out, &w), want);
        if let Some(v) = cs.satisfied() {
            return fail(format!("{}/unsatisfied", name), format!("{} {}: honest assignment violates {}", F::NAME, log, v));
        }
        let adv = Adv::new(cs);
        let mut st = Stats::default();
        let targets: Vec<usize> = bool_var(out).into_iter().collect();
        let f = fixed_upto(cs, pre);
        if let Some(m) = adv.search(s, cs, &f, &targets, attempts, &mut st, |w| match bool_val(out, w) {
            Ok(x) if x == want => None,
            r => Some(format!("{:?}", r)),
        }) {
            return fail(format!("{}/forged", name), format!("{} {}: another assignment gives {}, expected {}", F::NAME, log, m, want));
        }
        cx.checks += 2 + st.attempts;
        Ok(())
    };
    match op {
        0..=4 | 11 | 13 => {
            let (a, va) = gen_boolean(s, &mut cs, &mut prev, &mut log);
            let (b, vb) = gen_boolean(s, &mut cs, &mut prev, &mut log);
            let (c, vc) = if op == 2 || op == 3 { gen_boolean(s, &mut cs, &mut prev, &mut log) } else { (a.clone(), va) };
            let pre = cs.vals.len();
            match op {
                0 => {
                    let r = Boolean::xor(cs.namespace(|| "op"), &a, &b).unwrap();
                    check_out(s, cx, &cs, pre, &r, va ^ vb, &log)?;
                }
                1 => {
                    let r = Boolean::and(cs.namespace(|| "op"), &a, &b).unwrap();
                    check_out(s, cx, &cs, pre, &r, va & vb, &log)?;
                }
                2 => {
                    let r = Boolean::sha256_ch(cs.namespace(|| "op"), &a, &b, &c).unwrap();
                    check_out(s, cx, &cs, pre, &r, if va { vb } else { vc }, &log)?;
                }
                3 => {
                    let r = Boolean::sha256_maj(cs.namespace(|| "op"), &a, &b, &c).unwrap();
                    check_out(s, cx, &cs, pre, &r, (va as u8 + vb as u8 + vc as u8) >= 2, &log)?;
                }
                13 => {
                    let r = a.not();
                    check_out(s, cx, &cs, pre, &r, !va, &log)?;
                    ensure!(a.is_constant() == r.is_constant(), "not/constant", "{}", log);
                }
                4 => {
                    let r = Boolean::enforce_equal(cs.namespace(|| "op"), &a, &b);
                    if a.is_constant() && b.is_constant() {
                        ensure!(r.is_ok() == (va == vb), "enforce_equal/constants", "{}: {:?}", log, r);
                    } else {
                        ensure!(r.is_ok(), "enforce_equal/error", "{}: {:?}", log, r);
                    }
                    if r.is_ok() {
                        let sat = cs.satisfied().is_none();
                        ensure!(sat == (va == vb), "enforce_equal/verdict", "{} {}: satisfied {}", F::NAME, log, sat);
                    }
                    cx.checks += 1;
                }
                _ => {
                    let co = match s.below(4) {
                        0 => Coeff::Zero,
                        1 => Coeff::One,
                        2 => Coeff::NegativeOne,
                        _ => Coeff::Full(gen_fe_fast(s)),
                    };
                    let w = cs.assignment();
                    let t = lc_terms(&a.lc(Variable::A(1), co));
                    let want = if va { co.value() } else { F::zero() };
                    ensure!(lc_val(&t, &w) == want, "lc", "{} {} times {:?}: {:?}, expected {:?}", F::NAME, log, co, lc_val(&t, &w), want);
                    cx.checks += 1;
                }
            }
        }
        5..=8 => {
            let (va, vb) = (s.bool(), s.bool());
            let a = gen_abit(s, &mut cs, va, &prev, &mut log);
            prev.push((a.clone(), va));
            let b = gen_abit(s, &mut cs, vb, &prev, &mut log);
            log += &format!("({}, {})", va, vb);
            let pre = cs.vals.len();
            let (r, want) = match op {
                5 => (AllocatedBit::xor(cs.namespace(|| "op"), &a, &b), va ^ vb),
                6 => (AllocatedBit::and(cs.namespace(|| "op"), &a, &b), va & vb),
                7 => (AllocatedBit::and_not(cs.namespace(|| "op"), &a, &b), va & !vb),
                _ => (AllocatedBit::nor(cs.namespace(|| "op"), &a, &b), !va & !vb),
            };
            let r = r.unwrap();
            ensure!(r.get_value() == Some(want), format!("{}/value", name), "{} {}: {:?}", F::NAME, log, r.get_value());
            check_out(s, cx, &cs, pre, &Boolean::from(r), want, &log)?;
        }
        9 | 10 => {
            let v = s.bool();
            let b = if op == 9 {
                abit(&mut cs, v)
            } else {
                let b = AllocatedBit::alloc_input_unchecked(cs.namespace(|| "in"), || Ok(v)).unwrap();
                b.check(cs.namespace(|| "check")).unwrap();
                b
            };
            ensure!(b.get_value() == Some(v), "alloc/value", "{}", log);
            ensure!(bit_at(&b, &cs.assignment()) == F::from_u64(v as u64), "alloc/assigned", "{}", log);
            ensure!(cs.satisfied().is_none(), "alloc/unsatisfied", "{} {}", log, v);
            // either bit may be chosen, nothing else
            let adv = Adv::new(&cs);
            let mut st = Stats::default();
            let out = Boolean::from(b.clone());
            let mut seen = [false; 2];
            let t = [vid(b.get_variable())];
            if let Some(m) = adv.search(s, &cs, &[], &t, 40, &mut st, |w| match bool_val(&out, w) {
                Ok(x) => {
                    seen[x as usize] = true;
                    None
                }
                Err(m) => Some(m),
            }) {
                return fail("alloc/forged", format!("{} {}", log, m));
            }
            // an explicit non-bit
            let x: F = perturb(s, F::from_u64(2));
            if x != F::one() && !bool::from(x.is_zero()) {
                let w: Vec<F> = (0..cs.vals.len()).map(|i| if i == 0 { F::one() } else { x }).collect();
                ensure!(cs.violated(&w).is_some(), "alloc/nonbit", "{} accepts {:?}", log, x);
            }
            cx.checks += 2 + st.attempts;
        }
        _ => {
            let v = s.bool();
            let b = gen_abit(s, &mut cs, v, &prev, &mut log);
            let n: AllocatedNum<F> = b.clone().into();
            ensure!(n.get_value() == Some(F::from_u64(v as u64)), "into_num/value", "{} {}: {:?}", log, v, n.get_value());
            ensure!(vid(n.get_variable()) == vid(b.get_variable()), "into_num/variable", "{}", log);
            cx.checks += 1;
        }
    }
    cx.nontrivial();
    cx.sample(|| format!("{} {}", F::NAME, log));
    Ok(())
}

// ------------------------------------------------------------------ C14

fn gen_u32(s: &mut Src) -> u32 {
    match s.below(6) {
        0 => s.below(4) as u32,
        1 => u32::MAX - s.below(4) as u32,
        2 => 1u32 << s.below(32),
        3 => (1u32 << s.below(32)).wrapping_sub(1),
        _ => s.u32(),
    }
}
fn gen_u64v(s: &mut Src) -> u64 {
    match s.below(6) {
        0 => s.below(4) as u64,
        1 => u64::MAX - s.below(4) as u64,
        2 => 1u64 << s.below(64),
        3 => (1u64 << s.below(64)).wrapping_sub(1),
        _ => s.u64(),
    }
}
/// n booleans of a given value (bit i of v), in mixed forms
fn mixed_bits<F: PF>(s: &mut Src, cs: &mut Rec<F>, n: usize, bit: impl Fn(usize) -> bool) -> Vec<Boolean> {
    let mode = s.below(5);
    (0..n)
        .map(|i| {
            let v = bit(i);
            let k = if mode < 4 { mode } else { s.below(4) };
            match k {
                0 => Boolean::constant(v),
                1 => Boolean::from(abit(cs, !v)).not(),
                _ => Boolean::from(abit(cs, v)),
            }
        })
        .collect()
}
fn bits_num<F: PF>(b: &[Boolean], w: &[F]) -> Result<u64, String> {
    let mut v = 0;
    for (i, x) in b.iter().enumerate() {
        if bool_val(x, w)? {
            v |= 1 << i;
        }
    }
    Ok(v)
}

fn c14_32<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let mut cs = Rec::<F>::new(true);
    let mut log = String::new();
    let mut regs: Vec<(UInt32, u32)> = vec![];
    for _ in 0..2 + s.below(3) {
        let v = gen_u32(s);
        let u = match s.below(4) {
            0 => {
                log += &format!("const {:x}; ", v);
                UInt32::constant(v)
            }
            1 => {
                log += &format!("alloc {:x}; ", v);
                UInt32::alloc(cs.namespace(|| "u"), Some(v)).unwrap()
            }
            2 => {
                log += &format!("bits {:x}; ", v);
                let b = mixed_bits(s, &mut cs, 32, |i| v >> i & 1 == 1);
                UInt32::from_bits(&b)
            }
            _ => {
                log += &format!("bits_be {:x}; ", v);
                let b = mixed_bits(s, &mut cs, 32, |i| v >> (31 - i) & 1 == 1);
                UInt32::from_bits_be(&b)
            }
        };
        regs.push((u, v));
    }
    let pre = cs.vals.len();
    for _ in 0..1 + s.below(4) {
        let i = s.below(regs.len());
        let j = s.below(regs.len());
        let k = s.below(regs.len());
        let (a, b, c) = (regs[i].clone(), regs[j].clone(), regs[k].clone());
        let r = match s.below(8) {
            0 => {
                let by = s.below(32) + if s.chance(1, 6) { 32 } else { 0 };
                log += &format!("rotr r{} {}; ", i, by);
                cx.label("rotr");
                (a.0.rotr(by), a.1.rotate_right(by as u32 % 32))
            }
            1 => {
                let by = s.below(32);
                log += &format!("shr r{} {}; ", i, by);
                cx.label("shr");
                (a.0.shr(by), a.1 >> by)
            }
            2 => {
                log += &format!("ch r{} r{} r{}; ", i, j, k);
                cx.label("ch");
                (UInt32::sha256_ch(cs.namespace(|| "ch"), &a.0, &b.0, &c.0).unwrap(), (a.1 & b.1) | (!a.1 & c.1))
            }
            3 => {
                log += &format!("maj r{} r{} r{}; ", i, j, k);
                cx.label("maj");
                (UInt32::sha256_maj(cs.namespace(|| "maj"), &a.0, &b.0, &c.0).unwrap(), (a.1 & b.1) | (a.1 & c.1) | (b.1 & c.1))
            }
            4 => {
                log += &format!("xor r{} r{}; ", i, j);
                cx.label("xor");
                (a.0.xor(cs.namespace(|| "xor"), &b.0).unwrap(), a.1 ^ b.1)
            }
            5 => {
                // through bits and back
                log += &format!("reread r{}; ", i);
                cx.label("reread");
                if s.bool() {
                    (UInt32::from_bits(&a.0.clone().into_bits()), a.1)
                } else {
                    (UInt32::from_bits_be(&a.0.clone().into_bits_be()), a.1)
                }
            }
            _ => {
                let n = 2 + s.below(9);
                let ix: Vec<usize> = (0..n).map(|_| s.below(regs.len())).collect();
                log += &format!("addmany {:?}; ", ix);
                cx.label("addmany");
                let ops: Vec<UInt32> = ix.iter().map(|i| regs[*i].0.clone()).collect();
                let want = ix.iter().fold(0u32, |a, i| a.wrapping_add(regs[*i].1));
                (UInt32::addmany(cs.namespace(|| "add"), &ops).unwrap(), want)
            }
        };
        regs.push(r);
    }
    let w = cs.assignment();
    for (i, (u, v)) in regs.iter().enumerate() {
        let bits = u.clone().into_bits();
        let be = u.clone().into_bits_be();
        ensure!(bits.len() == 32 && be.len() == 32, "u32/len", "{} r{}", log, i);
        for k in 0..32 {
            let e = v >> k & 1 == 1;
            ensure!(bits[k].get_value() == Some(e), "u32/value", "{} {} r{} bit {} reports {:?}", F::NAME, log, i, k, bits[k].get_value());
            ensure!(bool_val(&bits[k], &w) == Ok(e), "u32/assigned", "{} {} r{} bit {} assigned {:?}", F::NAME, log, i, k, bool_val(&bits[k], &w));
            ensure!(bool_val(&be[31 - k], &w) == Ok(e), "u32/be", "{} {} r{} bit {}", F::NAME, log, i, k);
        }
    }
    if let Some(v) = cs.satisfied() {
        return fail("u32/unsatisfied", format!("{} {}: honest assignment violates {}", F::NAME, log, v));
    }
    if cs.vals.len() > pre {
        cx.label("binding searched");
        let adv = Adv::new(&cs);
        let mut st = Stats::default();
        let targets: Vec<usize> = regs.iter().flat_map(|r| r.0.clone().into_bits()).filter_map(|b| bool_var(&b)).filter(|v| *v >= pre).collect();
        let lists: Vec<(Vec<Boolean>, u32)> = regs.iter().map(|r| (r.0.clone().into_bits(), r.1)).collect();
        let f = fixed_upto(&cs, pre);
        let at = 16;
        if let Some(m) = adv.search(s, &cs, &f, &targets, at, &mut st, |w| {
            lists.iter().enumerate().find_map(|(i, (b, v))| match bits_num(b, w) {
                Ok(x) if x == *v as u64 => None,
                r => Some(format!("r{} = {:x?}, expected {:x}", i, r, v)),
            })
        }) {
            return fail("u32/forged", format!("{} {}: another assignment gives {}", F::NAME, log, m));
        }
        cx.checks += st.attempts;
    }
    cx.checks += regs.len() as u64;
    cx.nontrivial();
    cx.sample(|| format!("{} {}", F::NAME, log));
    Ok(())
}

fn c14_64<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let mut cs = Rec::<F>::new(true);
    let mut log = String::new();
    let mut regs: Vec<(UInt64, u64)> = vec![];
    for _ in 0..2 + s.below(3) {
        let v = gen_u64v(s);
        let u = match s.below(3) {
            0 => {
                log += &format!("const {:x}; ", v);
                UInt64::constant(v)
            }
            1 => {
                log += &format!("alloc {:x}; ", v);
                UInt64::alloc(cs.namespace(|| "u"), Some(v)).unwrap()
            }
            _ => {
                log += &format!("bits {:x}; ", v);
                let b = mixed_bits(s, &mut cs, 64, |i| v >> i & 1 == 1);
                UInt64::from_bits(&b)
            }
        };
        regs.push((u, v));
    }
    let pre = cs.vals.len();
    for _ in 0..1 + s.below(2) {
        let ix: Vec<usize> = (0..4).map(|_| s.below(regs.len())).collect();
        log += &format!("mul_acc2 {:?}; ", ix);
        let o: Vec<_> = ix.iter().map(|i| regs[*i].clone()).collect();
        let (lo, hi) = o[0].0.mul_acc2(cs.namespace(|| "m"), &o[1].0, &o[2].0, &o[3].0).unwrap();
        let want = o[0].1 as u128 * o[1].1 as u128 + o[2].1 as u128 + o[3].1 as u128;
        if want >> 127 == 1 {
            cx.label("result uses the top bit");
        }
        regs.push((lo, want as u64));
        regs.push((hi, (want >> 64) as u64));
    }
    if s.bool() {
        let i = s.below(regs.len());
        let r = (UInt64::from_bits(&regs[i].0.clone().into_bits()), regs[i].1);
        regs.push(r);
    }
    let w = cs.assignment();
    for (i, (u, v)) in regs.iter().enumerate() {
        let bits = u.clone().into_bits();
        ensure!(bits.len() == 64, "u64/len", "{} r{}", log, i);
        for k in 0..64 {
            let e = v >> k & 1 == 1;
            ensure!(bits[k].get_value() == Some(e), "u64/value", "{} {} r{} bit {} reports {:?}", F::NAME, log, i, k, bits[k].get_value());
            ensure!(bool_val(&bits[k], &w) == Ok(e), "u64/assigned", "{} {} r{} bit {}", F::NAME, log, i, k);
        }
        let t = lc_terms(&u.lc::<F, Rec<F>>());
        ensure!(lc_val(&t, &w) == F::from_u64(*v), "u64/lc", "{} {} r{} lc {:?}", F::NAME, log, i, lc_val(&t, &w));
    }
    if let Some(v) = cs.satisfied() {
        return fail("u64/unsatisfied", format!("{} {}: honest assignment violates {}", F::NAME, log, v));
    }
    let adv = Adv::new(&cs);
    let mut st = Stats::default();
    let targets: Vec<usize> = regs.iter().flat_map(|r| r.0.clone().into_bits()).filter_map(|b| bool_var(&b)).filter(|v| *v >= pre).collect();
    let lists: Vec<(Vec<Boolean>, u64)> = regs.iter().map(|r| (r.0.clone().into_bits(), r.1)).collect();
    let f = fixed_upto(&cs, pre);
    if let Some(m) = adv.search(s, &cs, &f, &targets, 12, &mut st, |w| {
        lists.iter().enumerate().find_map(|(i, (b, v))| match bits_num(b, w) {
            Ok(x) if x == *v => None,
            r => Some(format!("r{} = {:x?}, expected {:x}", i, r, v)),
        })
    }) {
        return fail("u64/forged", format!("{} {}: another assignment gives {}", F::NAME, log, m));
    }
    cx.checks += st.attempts + regs.len() as u64;
    cx.nontrivial();
    cx.sample(|| format!("{} {}", F::NAME, log));
    Ok(())
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Copy)]
enum K {
    Const,
    Alloc,
    Not,
}
fn sha_build<F: PF>(witness: bool, kinds: &[K], msg: &[bool], raw: bool) -> Result<(Rec<F>, usize, Vec<Boolean>), SynthesisError> {
    let mut cs = Rec::<F>::new(witness);
    let mut bits = vec![];
    for (k, v) in kinds.iter().zip(msg.iter()) {
        let al = |cs: &mut Rec<F>, v: bool| AllocatedBit::alloc(cs.namespace(|| "bit"), || if witness { Ok(v) } else { Err(SynthesisError::AssignmentMissing) });
        bits.push(match k {
            K::Const => Boolean::constant(*v),
            K::Alloc => al(&mut cs, *v)?.into(),
            K::Not => Boolean::from(al(&mut cs, !*v)?).not(),
        });
    }
    let pre = cs.vals.len();
    let out = if raw { sha256::sha256_block_no_padding(cs.namespace(|| "sha"), &bits)? } else { sha256::sha256(cs.namespace(|| "sha"), &bits)? };
    Ok((cs, pre, out))
}

fn c15<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let raw = s.chance(1, 5);
    let len = if raw {
        64
    } else {
        match s.below(6) {
            0 => s.below(4),
            1 => 54 + s.below(4),
            2 => 62 + s.below(4),
            3 => 118 + s.below(4),
            4 => 64 * s.below(3),
            _ => s.below(130),
        }
    };
    let msg: Vec<u8> = match s.below(5) {
        0 => vec![0; len],
        1 => vec![0xff; len],
        _ => (0..len).map(|_| s.u8()).collect(),
    };
    let bits: Vec<bool> = msg.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)).collect();
    let mode = s.weighted(&[1, 4, 2, 2, 2]);
    let kinds: Vec<K> = match mode {
        0 => vec![K::Const; bits.len()],
        1 => vec![K::Alloc; bits.len()],
        2 => vec![K::Not; bits.len()],
        3 => (0..bits.len()).map(|_| [K::Const, K::Alloc, K::Not][s.below(3)]).collect(),
        _ => {
            // whole stretches of constants, as padded or templated messages have
            let cut = s.below(bits.len() + 1);
            let first = s.bool();
            (0..bits.len()).map(|i| if (i < cut) == first { K::Const } else { K::Alloc }).collect()
        }
    };
    let want = if raw {
        let mut h = model::iv();
        model::compress(&mut h, &msg);
        model::out(&h)
    } else {
        model::sha256(&msg)
    };
    let desc = || format!("{} {} bytes{}, mode {}, {:02x?}", F::NAME, len, if raw { " (raw block)" } else { "" }, mode, msg);
    let (cs, pre, out) = match sha_build::<F>(true, &kinds, &bits, raw) {
        Ok(x) => x,
        Err(e) => return fail("error", format!("{}: {:?}", desc(), e)),
    };
    ensure!(out.len() == 256, "len", "{} digest bits", out.len());
    let w = cs.assignment();
    for i in 0..256 {
        ensure!(out[i].get_value() == Some(want[i]), "value", "{}: digest bit {} reports {:?}, expected {}", desc(), i, out[i].get_value(), want[i]);
        ensure!(bool_val(&out[i], &w) == Ok(want[i]), "assigned", "{}: digest bit {} is {:?}, expected {}", desc(), i, bool_val(&out[i], &w), want[i]);
    }
    if let Some(v) = cs.violated(&w) {
        return fail("unsatisfied", format!("{}: honest assignment violates {}", desc(), v));
    }
    // another message of the same form, and no message at all
    let other: Vec<bool> = bits.iter().zip(kinds.iter()).map(|(b, k)| if let K::Const = k { *b } else { *b ^ s.bool() }).collect();
    match sha_build::<F>(true, &kinds, &other, raw) {
        Ok((cs2, _, _)) => {
            if let Some(d) = cs.shape_differs(&cs2) {
                return fail("shape", format!("{}: constraints depend on the message: {}", desc(), d));
            }
        }
        Err(e) => return fail("error", format!("{}: {:?}", desc(), e)),
    }
    match sha_build::<F>(false, &kinds, &bits, raw) {
        Ok((cs2, _, _)) => {
            if let Some(d) = cs.shape_differs(&cs2) {
                return fail("shape", format!("{}: constraints differ without a message: {}", desc(), d));
            }
        }
        Err(e) => return fail("error", format!("{} without a message: {:?}", desc(), e)),
    }
    cx.checks += 4;
    if s.chance(1, 6) && cs.vals.len() > pre {
        let adv = Adv::new(&cs);
        let mut st = Stats::default();
        let targets: Vec<usize> = out.iter().filter_map(bool_var).collect();
        let f = fixed_upto(&cs, pre);
        if let Some(m) = adv.search(s, &cs, &f, &targets, 3, &mut st, |w| {
            (0..256).find_map(|i| match bool_val(&out[i], w) {
                Ok(x) if x == want[i] => None,
                r => Some(format!("digest bit {} = {:?}", i, r)),
            })
        }) {
            return fail("forged", format!("{}: another assignment gives {}", desc(), m));
        }
        cx.checks += st.attempts;
        cx.label("binding searched");
    }
    if mode != 0 {
        cx.nontrivial();
    }
    cx.label(match len {
        0 => "empty",
        1..=55 => "one block",
        56..=64 => "padding boundary",
        _ => "several blocks",
    });
    cx.sample(desc);
    Ok(())
}

/// Long messages, whose length takes up more bytes of the padding: constant bits but for a few, one of them late
fn c15_long<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let len = match s.below(3) {
        // around the lengths at which the bit length carries into another byte
        0 => 32 * s.range(4, 40) as usize - s.below(10),
        1 => 8192 - 5 + s.below(10),
        _ => {
            let top = if s.chance(1, 20) { 70000 } else { 9500 };
            s.range(130, top) as usize
        }
    };
    let fill = s.u64();
    let msg: Vec<u8> = (0..len).map(|i| (fill.wrapping_mul(i as u64 * 2 + 1) >> 40) as u8).collect();
    let bits: Vec<bool> = msg.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)).collect();
    let mut kinds = vec![K::Const; bits.len()];
    for _ in 0..s.below(4) {
        let tail = bits.len() - 1 - s.below(600);
        kinds[tail] = if s.bool() { K::Alloc } else { K::Not };
    }
    let desc = || format!("{} {} bytes filled from {:x}", F::NAME, len, fill);
    let (cs, _, out) = match sha_build::<F>(true, &kinds, &bits, false) {
        Ok(x) => x,
        Err(e) => return fail("error", format!("{}: {:?}", desc(), e)),
    };
    ensure!(cs.satisfied().is_none(), "long/satisfied", "{:?}; {}", cs.satisfied(), desc());
    let want: Vec<F> = model::sha256(&msg).iter().map(|b| F::from_u64(*b as u64)).collect();
    let w = cs.assignment();
    let got: Vec<F> = out.iter().map(|b| bool_at(b, &w)).collect();
    ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a == b), "long/digest", "{}", desc());
    cx.checks += 1;
    cx.label(if len >= 8192 { "from 8192 bytes" } else { "below 8192 bytes" });
    cx.sample(desc);
    cx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ C16

fn gen_coeff<F: PF>(s: &mut Src) -> Coeff<F> {
    match s.below(6) {
        0 => Coeff::Zero,
        1 => Coeff::One,
        2 => Coeff::NegativeOne,
        3 => Coeff::from(gen_fe::<F>(s)),
        _ => Coeff::Full(gen_fe_fast(s)),
    }
}

fn c16<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let mut cs = Rec::<F>::new(true);
    let mut log = String::new();
    // every expression with the value it must have; nums carry allocated numbers
    let mut an: Vec<(AllocatedNum<F>, F)> = vec![(AllocatedNum::one(&mut cs), F::one())];
    let mut nums: Vec<(Num<F>, F)> = vec![];
    let mut comb: Vec<(Combination<F>, F)> = vec![(Combination::zero(), F::zero())];
    let mut roots: Vec<(AllocatedNum<F>, F)> = vec![];
    for _ in 0..1 + s.below(3) {
        let v: F = if s.bool() { gen_fe(s) } else { gen_fe_fast(s) };
        let a = if s.chance(1, 4) {
            AllocatedNum::alloc_input(cs.namespace(|| "in"), || Ok(v)).unwrap()
        } else {
            AllocatedNum::alloc(cs.namespace(|| "n"), || Ok(v)).unwrap()
        };
        log += &format!("a{}={:?}; ", an.len(), v);
        an.push((a, v));
    }
    if s.chance(1, 4) {
        let b = s.bool();
        let a = abit(&mut cs, b);
        an.push((a.into(), F::from_u64(b as u64)));
    }
    let pre = cs.vals.len();
    let steps = 2 + s.below(10);
    let mut allocating = false;
    for _ in 0..steps {
        let i = s.below(an.len());
        let j = s.below(an.len());
        let (a, va) = an[i].clone();
        let (b, vb) = an[j].clone();
        let ci = s.below(comb.len());
        let cj = s.below(comb.len());
        let (c, vc) = comb[ci].clone();
        let (d, vd) = comb[cj].clone();
        let co = gen_coeff::<F>(s);
        let k: F = if s.chance(1, 3) { F::zero() } else { gen_fe_fast(s) };
        let num = |s: &mut Src, nums: &Vec<(Num<F>, F)>| -> (Num<F>, F) {
            if nums.is_empty() || s.chance(1, 4) {
                (a.into(), va)
            } else {
                nums[s.below(nums.len())].clone()
            }
        };
        if s.chance(1, 60) {
            // a combination of many terms
            let n = 20 + s.below(300);
            let tape = grown(s.u64(), 60 * n);
            let s = &mut Src::new(&tape);
            let (mut c, mut v) = (c.clone(), vc);
            for _ in 0..n {
                let (x, vx) = an[s.below(an.len())].clone();
                let co = gen_coeff::<F>(s);
                match s.below(4) {
                    0 => {
                        c = c + x;
                        v += vx;
                    }
                    1 => {
                        c = c + (co, x);
                        v += co.value() * vx;
                    }
                    2 => {
                        c = c - x;
                        v = v - vx;
                    }
                    _ => {
                        let (m, vm) = num(s, &nums);
                        c = c + (co, m);
                        v += co.value() * vm;
                    }
                }
            }
            log += &format!("{} terms onto c{}; ", n, ci);
            cx.label("many terms");
            comb.push((c, v));
        }
        let op = s.below(28);
        log += &format!("op{}(a{},a{},c{},c{}); ", op, i, j, ci, cj);
        match op {
            0 => nums.push((Num::constant(k), k)),
            1 => nums.push((Num::Constant(co), co.value())),
            2 => nums.push((Num::from((co, a)), co.value() * va)),
            3 => {
                let (n, v) = num(s, &nums);
                nums.push((Num::from((co, n)), co.value() * v))
            }
            4 => {
                let (n, v) = num(s, &nums);
                nums.push((n.scale(k), v * k))
            }
            5 => {
                let (n, v) = num(s, &nums);
                nums.push((-n, -v))
            }
            6 => comb.push((Combination::from(a), va)),
            7 => {
                let (n, v) = num(s, &nums);
                comb.push((Combination::from(n), v))
            }
            8 => comb.push((c + a, vc + va)),
            9 => {
                let (n, v) = num(s, &nums);
                comb.push((c + n, vc + v))
            }
            10 => comb.push((c + (co, a), vc + co.value() * va)),
            11 => {
                let (n, v) = num(s, &nums);
                comb.push((c + (co, n), vc + co.value() * v))
            }
            12 => comb.push((c + d, vc + vd)),
            13 => comb.push((c - a, vc - va)),
            14 => {
                let mut c = c;
                c += a;
                comb.push((c, vc + va))
            }
            15 => {
                let (n, v) = num(s, &nums);
                let mut c = c;
                c += n;
                comb.push((c, vc + v))
            }
            16 => comb.push((c.scale(k), vc * k)),
            17 => {
                allocating = true;
                let n = c.evaluate(cs.namespace(|| "eval")).unwrap();
                nums.push((n, vc));
            }
            18 => {
                allocating = true;
                an.push((c.mul(cs.namespace(|| "mul"), &d).unwrap(), vc * vd));
            }
            19 => {
                allocating = true;
                an.push((c.square(cs.namespace(|| "sq")).unwrap(), vc * vc));
            }
            20 => {
                allocating = true;
                let n = c.rescue_alpha(cs.namespace(|| "alpha")).unwrap();
                nums.push((n, vc * vc * vc * vc * vc));
            }
            21 => {
                allocating = true;
                let n = c.rescue_invalpha(cs.namespace(|| "inv")).unwrap();
                nums.push((n, hv::sponge::root5(vc)));
            }
            22 => {
                allocating = true;
                an.push((a.mul(cs.namespace(|| "amul"), &b).unwrap(), va * vb));
            }
            23 => {
                allocating = true;
                if bool::from(va.is_zero()) {
                    let mut cs2 = cs.clone();
                    let r = a.invert(cs2.namespace(|| "inv"));
                    ensure!(matches!(r, Err(SynthesisError::Unsatisfiable)), "invert/zero", "{} inverting zero gave {:?}", F::NAME, r);
                    cx.label("inverse of zero refused");
                } else {
                    let r = a.invert(cs.namespace(|| "inv")).unwrap();
                    an.push((r, va.invert().unwrap()));
                }
            }
            24 => {
                allocating = true;
                let sq = s.bool();
                if sq || bool::from(va.sqrt().is_some()) {
                    let (x, vx) = if sq {
                        let x = a.mul(cs.namespace(|| "sq"), &a).unwrap();
                        an.push((x, va * va));
                        (x, va * va)
                    } else {
                        (a, va)
                    };
                    let r = x.sqrt(cs.namespace(|| "sqrt")).unwrap();
                    let v = r.get_value().unwrap();
                    ensure!(v * v == vx, "sqrt/value", "{} root of {:?} is {:?}", F::NAME, vx, v);
                    roots.push((r, vx));
                    cx.label("square root");
                } else {
                    let mut cs2 = cs.clone();
                    let r = a.sqrt(cs2.namespace(|| "sqrt"));
                    ensure!(matches!(r, Err(SynthesisError::Unsatisfiable)), "sqrt/nonsquare", "{} root of non-square {:?} gave {:?}", F::NAME, va, r);
                    cx.label("root of a non-square refused");
                }
            }
            25 => {
                allocating = true;
                let inputs_before = cs.inputs.len();
                let r = a.inputize(cs.namespace(|| "input")).unwrap();
                ensure!(cs.inputs.len() == inputs_before + 1, "inputize", "not made an input");
                let iv = cs.vals[*cs.inputs.last().unwrap()];
                ensure!(iv == Some(va), "inputize/value", "{} {}: input {:?}, expected {:?}", F::NAME, log, iv, va);
                an.push((r, va));
            }
            26 => {
                // a fresh value and its square: the value is free, the square bound to it
                let v: F = gen_fe_fast(s);
                let (x, y) = AllocatedNum::alloc_and_square(cs.namespace(|| "as"), || Ok(v)).unwrap();
                ensure!(x.get_value() == Some(v) && y.get_value() == Some(v * v), "alloc_and_square/value", "{:?} {:?}", x.get_value(), y.get_value());
                // y is checked as the square of whatever x is: x is a root of y
                let w = cs.assignment();
                ensure!(w[vid(x.get_variable())] == v && w[vid(y.get_variable())] == v * v, "alloc_and_square/assigned", "{} {:?}", F::NAME, v);
                let adv = Adv::new(&cs);
                let mut st = Stats::default();
                let f = fixed_upto(&cs, vid(x.get_variable()));
                let t = [vid(y.get_variable())];
                if let Some(m) = adv.search(s, &cs, &f, &t, 8, &mut st, |w| {
                    let (p, q) = (w[vid(x.get_variable())], w[vid(y.get_variable())]);
                    if p * p == q {
                        None
                    } else {
                        Some(format!("{:?} with square {:?}", p, q))
                    }
                }) {
                    return fail("alloc_and_square/forged", m);
                }
                cx.checks += st.attempts;
                // keep later values determined
                cs.enforce_zero(x.lc() - &LinearCombination::zero() - (Coeff::Full(v), <Rec<F> as ConstraintSystem<F>>::ONE));
                an.push((x, v));
                an.push((y, v * v));
            }
            _ => {
                // the raw S-boxes on allocated numbers
                allocating = true;
                if s.bool() {
                    let r = AllocatedNum::rescue_alpha(cs.namespace(|| "alpha"), &c).unwrap();
                    an.push((r, vc * vc * vc * vc * vc));
                } else {
                    let r = AllocatedNum::rescue_invalpha(cs.namespace(|| "inv"), &c).unwrap();
                    an.push((r, hv::sponge::root5(vc)));
                }
            }
        }
    }
    let w = cs.assignment();
    let mut outs: Vec<(String, Vec<(usize, F)>, F)> = vec![];
    for (i, (a, v)) in an.iter().enumerate() {
        ensure!(a.get_value() == Some(*v), "num/value", "{} {} a{} reports {:?}, expected {:?}", F::NAME, log, i, a.get_value(), v);
        outs.push((format!("a{}", i), lc_terms(&a.lc()), *v));
    }
    for (i, (n, v)) in nums.iter().enumerate() {
        ensure!(n.value() == Some(*v), "num/value", "{} {} n{} reports {:?}, expected {:?}", F::NAME, log, i, n.value(), v);
        ensure!(n.is_constant() == matches!(n, Num::Constant(_)), "num/constant", "{}", log);
        outs.push((format!("n{}", i), lc_terms(&n.lc(&mut cs)), *v));
    }
    for (i, (c, v)) in comb.iter().enumerate() {
        ensure!(c.get_value() == Some(*v), "combination/value", "{} {} c{} reports {:?}, expected {:?}", F::NAME, log, i, c.get_value(), v);
        outs.push((format!("c{}", i), lc_terms(&c.lc(&mut cs)), *v));
    }
    for (n, t, v) in &outs {
        ensure!(lc_val(t, &w) == *v, "assigned", "{} {} {} is {:?}, expected {:?}", F::NAME, log, n, lc_val(t, &w), v);
    }
    if let Some(v) = cs.satisfied() {
        return fail("unsatisfied", format!("{} {}: honest assignment violates {}", F::NAME, log, v));
    }
    cx.checks += outs.len() as u64;
    if allocating && cs.vals.len() > pre {
        let adv = Adv::new(&cs);
        let mut st = Stats::default();
        let f = fixed_upto(&cs, pre);
        let mut targets: Vec<usize> = outs.iter().flat_map(|o| o.1.iter().map(|t| t.0)).filter(|v| *v >= pre).collect();
        targets.sort();
        targets.dedup();
        if let Some(m) = adv.search(s, &cs, &f, &targets, 20, &mut st, |w| {
            outs.iter()
                .find_map(|(n, t, v)| if lc_val(t, w) == *v { None } else { Some(format!("{} = {:?}, expected {:?}", n, lc_val(t, w), v)) })
                .or_else(|| {
                    roots.iter().find_map(|(r, v)| {
                        let x = w[vid(r.get_variable())];
                        if x * x == *v {
                            None
                        } else {
                            Some(format!("root {:?} of {:?}", x, v))
                        }
                    })
                })
        }) {
            return fail("forged", format!("{} {}: another assignment gives {}", F::NAME, log, m));
        }
        cx.checks += st.attempts;
        cx.nontrivial();
        if st.determined > 0 {
            cx.label("fully determined by unit steps");
        }
    } else {
        cx.label("expressions only");
    }
    cx.sample(|| format!("{} {}", F::NAME, log));
    Ok(())
}

// ------------------------------------------------------------------ C17

fn c17<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let mut cs = Rec::<F>::new(true);
    let base: F = match s.below(6) {
        0 => F::from_u64(s.below(3) as u64),
        1 => -F::from_u64(s.below(3) as u64),
        2 => {
            // around 2^k and p - 2^k
            let x: F = fe(&{
                let mut v = [0u64; 4];
                let k = s.below(255);
                v[k / 64] = 1 << (k % 64);
                F::m().red(&v)
            });
            let x = x + F::from_u64(s.below(3) as u64) - F::one();
            if s.bool() {
                x
            } else {
                -x
            }
        }
        _ => gen_fe(s),
    };
    let kind = s.below(4);
    let co = gen_coeff::<F>(s);
    let (num, v): (Num<F>, F) = match kind {
        0 => (Num::constant(base), base),
        1 => {
            let a = AllocatedNum::alloc(cs.namespace(|| "n"), || Ok(base)).unwrap();
            (Num::from((co, a)), co.value() * base)
        }
        _ => (AllocatedNum::alloc(cs.namespace(|| "n"), || Ok(base)).unwrap().into(), base),
    };
    let pre = cs.vals.len();
    let bits = unpack_fe(cs.namespace(|| "unpack"), &num).unwrap();
    let iv = hv::gen::val(&v);
    ensure!(bits.len() >= 255, "len", "{} bits", bits.len());
    let w = cs.assignment();
    for (i, b) in bits.iter().enumerate() {
        let e = i < 256 && big::bit(&iv, i);
        ensure!(b.get_value() == Some(e), "value", "{} {:?} bit {} reports {:?}", F::NAME, v, i, b.get_value());
        ensure!(bit_at(b, &w) == F::from_u64(e as u64), "assigned", "{} {:?} bit {} is {:?}", F::NAME, v, i, bit_at(b, &w));
    }
    if let Some(m) = cs.satisfied() {
        return fail("unsatisfied", format!("{} unpacking {:?}: honest assignment violates {}", F::NAME, v, m));
    }
    let adv = Adv::new(&cs);
    let f = fixed_upto(&cs, pre);
    let mut st = Stats::default();
    let targets: Vec<usize> = bits.iter().map(|b| vid(b.get_variable())).collect();
    let judge = |w: &[F]| {
        bits.iter().enumerate().find_map(|(i, b)| {
            if bit_at(b, w) == F::from_u64((i < 256 && big::bit(&iv, i)) as u64) {
                None
            } else {
                Some(format!("bit {} is {:?}", i, bit_at(b, w)))
            }
        })
    };
    // the integers congruent to the value are the only other candidates made of bits
    let mut t = iv;
    for k in 1..4 {
        let (n, c) = big::add(&t, &F::m().0);
        if c {
            break;
        }
        t = n;
        if bits.len() < 256 && big::bit(&t, 255) {
            break;
        }
        let mut fx = f.clone();
        for (i, b) in bits.iter().enumerate() {
            fx.push((vid(b.get_variable()), F::from_u64(big::bit(&t, i) as u64)));
        }
        if let Some(m) = adv.search(s, &cs, &fx, &[], 2, &mut st, judge) {
            return fail("noncanonical", format!("{} {:?}: the bits of the value plus {} times the modulus are accepted: {}", F::NAME, v, k, m));
        }
        cx.label("congruent integer tried");
        cx.checks += 1;
    }
    if let Some(m) = adv.search(s, &cs, &f, &targets, 6, &mut st, judge) {
        return fail("forged", format!("{} {:?}: {}", F::NAME, v, m));
    }
    cx.checks += st.attempts + 1;
    cx.nontrivial();
    cx.sample(|| format!("{} kind {} {:?} {:?}", F::NAME, kind, v, st));
    Ok(())
}

// ------------------------------------------------------------------ C11

fn c11<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let n = 2 + s.below(8);
    c11_of::<F>(s, cx, n, 3)
}
fn c11_long<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let (n, p) = (10 + s.below(40), 4 + s.below(9));
    let tape = grown(s.u64(), 30000);
    c11_of::<F>(&mut Src::new(&tape), cx, n, p)
}
fn c11_of<F: PF>(s: &mut Src, cx: &mut Cx, mut n_ops: usize, max_perms: usize) -> Res {
    let mut cs = Rec::<F>::new(true);
    let mut log = String::new();
    let mut pool: Vec<(AllocatedNum<F>, F)> = vec![];
    for _ in 0..1 + s.below(3) {
        let v: F = gen_fe(s);
        pool.push((AllocatedNum::alloc(cs.namespace(|| "n"), || Ok(v)).unwrap(), v));
    }
    let pre = cs.vals.len();
    let mut g = RescueGadget::new(cs.namespace(|| "new")).unwrap();
    let mut native = Rescue::<F>::default();
    let mut model = hv::sponge::Sponge::<F>::new();
    let mut outs: Vec<(AllocatedNum<F>, F)> = vec![];
    let mut absorbed = 0;
    let mut perms = 0;
    while n_ops > 0 && perms < max_perms {
        n_ops -= 1;
        if s.chance(3, 5) {
            let n = match s.below(5) {
                0 => 12 + s.below(3),
                1 => 1,
                _ => 1 + s.below(5),
            };
            log += &format!("absorb x{} ", n);
            for _ in 0..n {
                let (a, v) = if !outs.is_empty() && s.chance(1, 4) { outs[s.below(outs.len())] } else { pool[s.below(pool.len())] };
                let co = gen_coeff::<F>(s);
                let (num, val): (Num<F>, F) = match s.below(4) {
                    0 => {
                        let k: F = gen_fe_fast(s);
                        (Num::constant(k), k)
                    }
                    1 => (Num::from((co, a)), co.value() * v),
                    2 => (-Num::from(a), -v),
                    _ => (a.into(), v),
                };
                g.absorb(cs.namespace(|| "absorb"), num).unwrap();
                native.absorb(val);
                model.absorb(val);
            }
            absorbed += n;
            perms += n / 12;
        } else {
            let n = match s.below(6) {
                0 => 12 + s.below(2),
                1 | 2 => 2,
                _ => 1,
            };
            log += &format!("squeeze x{} ", n);
            perms += 1 + n / 12;
            for _ in 0..n {
                let o = g.squeeze(cs.namespace(|| "squeeze")).unwrap();
                let v = native.squeeze();
                let m = model.squeeze();
                ensure!(o.get_value() == Some(v), "value", "{} after [{}]: circuit squeezes {:?}, native {:?}", F::NAME, log, o.get_value(), v);
                ensure!(v == m, "native", "{} after [{}]: native {:?}, model {:?}", F::NAME, log, v, m);
                outs.push((o, v));
                cx.checks += 1;
            }
        }
    }
    let o = g.squeeze(cs.namespace(|| "last")).unwrap();
    let v = native.squeeze();
    ensure!(o.get_value() == Some(v), "value", "{} after [{}]: final squeeze {:?}, native {:?}", F::NAME, log, o.get_value(), v);
    outs.push((o, v));
    let w = cs.assignment();
    for (i, (o, v)) in outs.iter().enumerate() {
        ensure!(w[vid(o.get_variable())] == *v, "assigned", "{} [{}] output {}", F::NAME, log, i);
    }
    if let Some(m) = cs.violated(&w) {
        return fail("unsatisfied", format!("{} [{}]: honest assignment violates {}", F::NAME, log, m));
    }
    let adv = Adv::new(&cs).with_fifth_roots();
    let mut st = Stats::default();
    let f = fixed_upto(&cs, pre);
    let targets: Vec<usize> = outs.iter().map(|o| vid(o.0.get_variable())).collect();
    if let Some(m) = adv.search(s, &cs, &f, &targets, 10, &mut st, |w| {
        outs.iter().enumerate().find_map(|(i, (o, v))| {
            let x = w[vid(o.get_variable())];
            if x == *v {
                None
            } else {
                Some(format!("output {} = {:?}, expected {:?}", i, x, v))
            }
        })
    }) {
        return fail("forged", format!("{} [{}]: another assignment gives {}", F::NAME, log, m));
    }
    cx.checks += st.attempts;
    if absorbed > 0 {
        cx.nontrivial();
    }
    if absorbed > 12 {
        cx.label("crossed a block");
    }
    if st.determined > 0 {
        cx.label("fully determined by unit steps");
    }
    cx.sample(|| format!("{} {} {:?}", F::NAME, log, st));
    Ok(())
}

const ADV: &str = "operands are held fixed; other assignments are searched for by changing undetermined variables and propagating the constraints, so forgeries that need many simultaneous changes may be missed";

fn main() {
    hv::main(vec![
        Spec {
            id: "C11",
            rule: "at least one element absorbed before the last squeeze",
            assumptions: &["the native sponge and an independent model must agree with the circuit", ADV],
            parts: vec![
                Part { name: "Fp", tape: 1600, quick: 320, thorough: 6000, case: c11::<Fp> },
                Part { name: "Fq", tape: 1600, quick: 320, thorough: 6000, case: c11::<Fq> },
                Part { name: "long-Fp", tape: 40, quick: 24, thorough: 1000, case: c11_long::<Fp> },
                Part { name: "long-Fq", tape: 40, quick: 24, thorough: 1000, case: c11_long::<Fq> },
                Part { name: "view-Ec0", tape: 2400, quick: 300, thorough: 4000, case: |s, cx| hv::gprog::view::<Ec0>(s, cx, &[34, 18, 19]) },
                Part { name: "view-Ec1", tape: 2400, quick: 300, thorough: 4000, case: |s, cx| hv::gprog::view::<Ec1>(s, cx, &[34, 18, 19]) },
            ],
        },
        Spec {
            id: "C13",
            rule: "one gadget applied to operands of drawn kinds and values, value, satisfaction and binding checked",
            assumptions: &[ADV],
            parts: vec![
                Part { name: "Fp", tape: 600, quick: 200000, thorough: 1000000, case: c13::<Fp> },
                Part { name: "Fq", tape: 600, quick: 200000, thorough: 1000000, case: c13::<Fq> },
                Part { name: "view-Ec0", tape: 2400, quick: 15000, thorough: 60000, case: |s, cx| hv::gprog::view::<Ec0>(s, cx, &[3, 4, 21, 22, 23, 24, 25, 26, 27, 28]) },
                Part { name: "view-Ec1", tape: 2400, quick: 15000, thorough: 60000, case: |s, cx| hv::gprog::view::<Ec1>(s, cx, &[3, 4, 21, 22, 23, 24, 25, 26, 27, 28]) },
            ],
        },
        Spec {
            id: "C14",
            rule: "a program of machine-integer gadgets over mixed operands, every register compared with machine arithmetic",
            assumptions: &[ADV, "shift amounts below 32 (the gadget documents the remainder)"],
            parts: vec![
                Part { name: "u32-Fp", tape: 900, quick: 5000, thorough: 100000, case: c14_32::<Fp> },
                Part { name: "u32-Fq", tape: 900, quick: 5000, thorough: 100000, case: c14_32::<Fq> },
                Part { name: "u64-Fp", tape: 900, quick: 3000, thorough: 60000, case: c14_64::<Fp> },
                Part { name: "u64-Fq", tape: 900, quick: 3000, thorough: 60000, case: c14_64::<Fq> },
                Part { name: "view-Ec0", tape: 2400, quick: 1600, thorough: 20000, case: |s, cx| hv::gprog::view::<Ec0>(s, cx, &[29, 30, 31, 32, 33, 51, 51]) },
                Part { name: "view-Ec1", tape: 2400, quick: 1600, thorough: 20000, case: |s, cx| hv::gprog::view::<Ec1>(s, cx, &[29, 30, 31, 32, 33, 51, 51]) },
            ],
        },
        Spec {
            id: "C15",
            rule: "at least one message bit is allocated (not a constant); every long message",
            assumptions: &["the model derives its round constants and initial state from the primes"],
            parts: vec![
                Part { name: "Fp", tape: 600, quick: 160, thorough: 6000, case: c15::<Fp> },
                Part { name: "Fq", tape: 600, quick: 160, thorough: 6000, case: c15::<Fq> },
                Part { name: "long-Fp", tape: 60, quick: 40, thorough: 3000, case: c15_long::<Fp> },
                Part { name: "long-Fq", tape: 60, quick: 40, thorough: 3000, case: c15_long::<Fq> },
            ],
        },
        Spec {
            id: "C16",
            rule: "at least one allocating operation applied, its result searched for other satisfying values",
            assumptions: &[ADV, "either sign of a square root is accepted"],
            parts: vec![
                Part { name: "Fp", tape: 900, quick: 160000, thorough: 1000000, case: c16::<Fp> },
                Part { name: "Fq", tape: 900, quick: 160000, thorough: 1000000, case: c16::<Fq> },
                Part { name: "view-Ec0", tape: 2400, quick: 12000, thorough: 60000, case: |s, cx| hv::gprog::view::<Ec0>(s, cx, &[11, 12, 13, 14, 15, 16, 17, 18, 19]) },
                Part { name: "view-Ec1", tape: 2400, quick: 12000, thorough: 60000, case: |s, cx| hv::gprog::view::<Ec1>(s, cx, &[11, 12, 13, 14, 15, 16, 17, 18, 19]) },
            ],
        },
        Spec {
            id: "C17",
            rule: "one number decomposed; its bits, and the bits of every congruent integer that fits, tried",
            assumptions: &[ADV],
            parts: vec![
                Part { name: "Fp", tape: 300, quick: 2400, thorough: 40000, case: c17::<Fp> },
                Part { name: "Fq", tape: 300, quick: 2400, thorough: 40000, case: c17::<Fq> },
                Part { name: "view-Ec0", tape: 2400, quick: 500, thorough: 6000, case: |s, cx| hv::gprog::view::<Ec0>(s, cx, &[20]) },
                Part { name: "view-Ec1", tape: 2400, quick: 500, thorough: 6000, case: |s, cx| hv::gprog::view::<Ec1>(s, cx, &[20]) },
            ],
        },
    ]);
}
