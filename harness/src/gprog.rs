//! Random compositions of gadgets as data, synthesised with one of two witnesses or with none.
use crate::big::Pt;
use crate::cs::Rec;
use crate::engine::*;
use crate::gen::*;
use crate::points::gen_ref;
use halo::*;

pub const KINDS: usize = 52;
pub const NAMES: [&str; KINDS] = [
    "num", "num_input", "num_const", "bit", "bit_input", "bit_const", "point", "point_const", "point_identity",
    "u32", "u32_const", "num_mul", "num_square", "num_invert", "num_sqrt", "num_inputize", "comb_evaluate",
    "comb_mul", "rescue_alpha", "rescue_invalpha", "unpack", "xor", "and", "not", "ch", "maj", "enforce_equal",
    "abit_and_not", "abit_nor", "u32_xor", "u32_addmany", "u32_maj", "u32_ch", "u32_rot", "sponge",
    "p_neg", "p_endo", "p_add_inc", "p_add", "p_add_cond", "p_add_cond_inc", "p_double", "p_dbladd",
    "p_mul", "p_mul_endo", "p_mul_inv_endo", "p_mul_fast", "p_mul_inv", "p_xy",
    "u64", "u64_const", "u64_mul_acc2",
];

#[derive(Clone, Debug)]
pub struct GOp<F: Field> {
    pub kind: usize,
    pub sel: [usize; 4],
    pub num: [F; 2],
    pub bit: [bool; 2],
    pub point: [Pt; 2],
    pub word: [u32; 2],
    pub k: F,
}

pub struct GProg<C: PC> {
    pub ops: Vec<GOp<C::Base>>,
    /// which of the two witnesses, or none
    pub set: Option<usize>,
}

pub fn gen_gop<C: PC>(s: &mut Src, kind: usize) -> GOp<C::Base> {
    let n0: C::Base = match s.below(3) {
        0 => {
            let x: C::Base = gen_fe_fast(s);
            x * x
        }
        _ => gen_fe_fast(s),
    };
    let p0 = gen_ref::<C>(s);
    let rc = C::rc();
    GOp {
        kind,
        sel: [s.u8() as usize, s.u8() as usize, s.u8() as usize, s.u8() as usize],
        num: [n0, if s.bool() { n0 * n0 } else { gen_fe_fast(s) }],
        bit: [s.bool(), s.bool()],
        point: [
            p0,
            match s.below(4) {
                0 => None,
                1 => rc.neg(&p0),
                _ => gen_ref::<C>(s),
            },
        ],
        word: [s.u32(), if s.bool() { u32::MAX } else { s.u32() }],
        k: gen_fe_fast(s),
    }
}
/// heavy gadgets are drawn rarely
pub fn gen_gprog<C: PC>(s: &mut Src, len: usize) -> Vec<GOp<C::Base>> {
    let mut ops = vec![];
    for k in [0, 3, 6] {
        ops.push(gen_gop::<C>(s, k));
    }
    let mut budget = 6000usize;
    for _ in 0..len {
        let kind = s.below(KINDS);
        let cost = match kind {
            20 => 600,
            34 => 900,
            43 | 46 | 47 => 1200,
            44 | 45 => 500,
            30 => 100,
            51 => 300,
            _ => 10,
        };
        if cost > budget {
            continue;
        }
        budget -= cost;
        ops.push(gen_gop::<C>(s, kind));
    }
    ops
}

#[derive(Default)]
struct Pools<C: Curve> {
    anums: Vec<AllocatedNum<C::Base>>,
    nums: Vec<Num<C::Base>>,
    abits: Vec<AllocatedBit>,
    bits: Vec<Boolean>,
    points: Vec<CurvePoint<C>>,
    words: Vec<UInt32>,
    longs: Vec<UInt64>,
}
fn at<T: Clone>(v: &[T], i: usize) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(v[i % v.len()].clone())
    }
}

impl<C: PC> GProg<C> {
    fn val<T>(&self, v: &[T; 2]) -> Result<T, SynthesisError>
    where
        T: Clone,
    {
        self.set.map(|i| v[i].clone()).ok_or(SynthesisError::AssignmentMissing)
    }
    fn step<CS: ConstraintSystem<C::Base>>(&self, mut cs: CS, o: &GOp<C::Base>, p: &mut Pools<C>) -> Option<Result<(), SynthesisError>> {
        // None: an operand pool is empty, nothing to do
        let [i, j, k, l] = o.sel;
        macro_rules! t {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(e) => return Some(Err(e)),
                }
            };
        }
        match o.kind {
            0 => p.anums.push(t!(AllocatedNum::alloc(&mut cs, || self.val(&o.num)))),
            1 => p.anums.push(t!(AllocatedNum::alloc_input(&mut cs, || self.val(&o.num)))),
            2 => p.nums.push(Num::constant(o.k)),
            3 => p.abits.push(t!(AllocatedBit::alloc(&mut cs, || self.val(&o.bit)))),
            4 => {
                let b = t!(AllocatedBit::alloc_input_unchecked(cs.namespace(|| "in"), || self.val(&o.bit)));
                t!(b.check(cs.namespace(|| "check")));
                p.abits.push(b);
            }
            5 => p.bits.push(Boolean::constant(o.bit[0])),
            6 => {
                let v = self.val(&o.point).map(|r| mk::<C>(&r));
                p.points.push(t!(CurvePoint::witness(&mut cs, || v)));
            }
            7 => {
                if let Some((x, y)) = o.point[0] {
                    p.points.push(CurvePoint::constant(fe(&x), fe(&y)));
                }
            }
            8 => p.points.push(CurvePoint::identity()),
            9 => p.words.push(t!(UInt32::alloc(&mut cs, self.val(&o.word).ok()))),
            10 => p.words.push(UInt32::constant(o.word[0])),
            11 => {
                let r = t!(at(&p.anums, i)?.mul(&mut cs, &at(&p.anums, j)?));
                p.anums.push(r);
            }
            12 => {
                let (a, b) = t!(AllocatedNum::alloc_and_square(&mut cs, || self.val(&o.num)));
                p.anums.extend([a, b]);
            }
            13 => {
                let r = t!(at(&p.anums, i)?.invert(&mut cs));
                p.anums.push(r);
            }
            14 => {
                let r = t!(at(&p.anums, i)?.sqrt(&mut cs));
                p.anums.push(r);
            }
            15 => {
                let r = t!(at(&p.anums, i)?.inputize(&mut cs));
                p.anums.push(r);
            }
            16 => {
                let c = self.comb(p, o)?;
                let r = t!(c.evaluate(&mut cs));
                p.nums.push(r);
            }
            17 => {
                let c = self.comb(p, o)?;
                let r = t!(if k % 2 == 0 { c.mul(&mut cs, &Combination::from(at(&p.anums, l)?)) } else { c.square(&mut cs) });
                p.anums.push(r);
            }
            18 => {
                let c = self.comb(p, o)?;
                let r = t!(c.rescue_alpha(&mut cs));
                p.nums.push(r);
            }
            19 => {
                let c = self.comb(p, o)?;
                let r = t!(c.rescue_invalpha(&mut cs));
                p.nums.push(r);
            }
            20 => {
                let n = self.num(p, i)?;
                let r = t!(unpack_fe(&mut cs, &n));
                p.abits.extend(r.into_iter().step_by(37));
            }
            21 => {
                let r = t!(Boolean::xor(&mut cs, &self.boolean(p, i)?, &self.boolean(p, j)?));
                p.bits.push(r);
            }
            22 => {
                let r = t!(Boolean::and(&mut cs, &self.boolean(p, i)?, &self.boolean(p, j)?));
                p.bits.push(r);
            }
            23 => {
                let r = self.boolean(p, i)?.not();
                p.bits.push(r);
            }
            24 => {
                let r = t!(Boolean::sha256_ch(&mut cs, &self.boolean(p, i)?, &self.boolean(p, j)?, &self.boolean(p, k)?));
                p.bits.push(r);
            }
            25 => {
                let r = t!(Boolean::sha256_maj(&mut cs, &self.boolean(p, i)?, &self.boolean(p, j)?, &self.boolean(p, k)?));
                p.bits.push(r);
            }
            26 => {
                let (a, b) = (self.boolean(p, i)?, self.boolean(p, j)?);
                if !(a.is_constant() && b.is_constant()) {
                    t!(Boolean::enforce_equal(&mut cs, &a, &b));
                }
            }
            27 => {
                let r = t!(AllocatedBit::and_not(&mut cs, &at(&p.abits, i)?, &at(&p.abits, j)?));
                p.abits.push(r);
            }
            28 => {
                let r = t!(AllocatedBit::nor(&mut cs, &at(&p.abits, i)?, &at(&p.abits, j)?));
                p.abits.push(r);
            }
            29 => {
                let r = t!(at(&p.words, i)?.xor(&mut cs, &at(&p.words, j)?));
                p.words.push(r);
            }
            30 => {
                let v: Vec<UInt32> = (0..2 + l % 4).map(|x| at(&p.words, i + x * j)).collect::<Option<_>>()?;
                let r = t!(UInt32::addmany(&mut cs, &v));
                p.words.push(r);
            }
            31 => {
                let r = t!(UInt32::sha256_maj(&mut cs, &at(&p.words, i)?, &at(&p.words, j)?, &at(&p.words, k)?));
                p.words.push(r);
            }
            32 => {
                let r = t!(UInt32::sha256_ch(&mut cs, &at(&p.words, i)?, &at(&p.words, j)?, &at(&p.words, k)?));
                p.words.push(r);
            }
            33 => {
                let w = at(&p.words, i)?;
                p.words.push(if l % 2 == 0 { w.rotr(j % 32) } else { w.shr(j % 32) });
                p.bits.extend(w.into_bits().into_iter().step_by(11));
            }
            34 => {
                let mut g = t!(RescueGadget::new(cs.namespace(|| "new")));
                for x in 0..1 + j % 14 {
                    let n = self.num(p, i + x)?;
                    t!(g.absorb(cs.namespace(|| format!("absorb {}", x)), n));
                }
                for x in 0..1 + k % 2 {
                    let r = t!(g.squeeze(cs.namespace(|| format!("squeeze {}", x))));
                    p.anums.push(r);
                }
            }
            49 => p.longs.push(t!(UInt64::alloc(&mut cs, self.val(&o.word).ok().map(|w| (w as u64) << 32 | !w.rotate_left(7) as u64)))),
            50 => p.longs.push(UInt64::constant((o.word[0] as u64) << 32 | o.word[1] as u64)),
            51 => {
                let (lo, hi) = t!(at(&p.longs, i)?.mul_acc2(&mut cs, &at(&p.longs, j)?, &at(&p.longs, k)?, &at(&p.longs, l)?));
                p.bits.extend(hi.clone().into_bits().into_iter().step_by(23));
                p.longs.extend([lo, hi]);
            }
            48 => {
                let (x, y) = at(&p.points, i)?.get_xy();
                p.nums.extend([x, y]);
            }
            _ => {
                let a = at(&p.points, i)?;
                let b = at(&p.points, j)?;
                let c = self.boolean(p, k)?;
                let mut bits: Vec<AllocatedBit> = vec![];
                let nbits = match o.kind {
                    43 | 46 | 47 => 1 + l % 6,
                    44 | 45 => 128,
                    _ => 0,
                };
                for x in 0..nbits {
                    bits.push(at(&p.abits, k + x * (1 + j % 3))?);
                }
                if o.kind == 46 {
                    // the top bit of multiply_fast's scalar must be set
                    bits.push(AllocatedBit::one(&mut cs));
                }
                let r = match o.kind {
                    35 => a.conditional_neg(&mut cs, &c),
                    36 => a.conditional_endo(&mut cs, &c),
                    37 => a.add_incomplete(&mut cs, &b),
                    38 => a.add(&mut cs, &b),
                    39 => a.add_conditionally(&mut cs, &b, &c),
                    40 => a.add_conditionally_incomplete(&mut cs, &b, &c),
                    41 => a.double(&mut cs),
                    42 => a.double_and_add_incomplete(&mut cs, &b),
                    43 => a.multiply(&mut cs, &bits),
                    44 => a.multiply_endo(&mut cs, &bits),
                    45 => a.multiply_inv_endo(&mut cs, &bits),
                    46 => a.multiply_fast(&mut cs, &bits),
                    _ => a.multiply_inv(&mut cs, &bits),
                };
                let r = t!(r);
                if matches!(o.kind, 37 | 40 | 42 | 46) {
                    // may have been used outside of its domain; its coordinates are still numbers
                    let (x, y) = r.get_xy();
                    p.nums.extend([x, y]);
                } else {
                    p.points.push(r);
                }
            }
        }
        Some(Ok(()))
    }
    fn num(&self, p: &Pools<C>, i: usize) -> Option<Num<C::Base>> {
        let n = p.anums.len() + p.nums.len();
        if n == 0 {
            return None;
        }
        let i = i % n;
        Some(if i < p.anums.len() { p.anums[i].into() } else { p.nums[i - p.anums.len()] })
    }
    fn boolean(&self, p: &Pools<C>, i: usize) -> Option<Boolean> {
        let n = p.abits.len() + p.bits.len();
        if n == 0 {
            return None;
        }
        let i = i % n;
        Some(if i < p.abits.len() { p.abits[i].clone().into() } else { p.bits[i - p.abits.len()].clone() })
    }
    fn comb(&self, p: &Pools<C>, o: &GOp<C::Base>) -> Option<Combination<C::Base>> {
        let mut c = Combination::from(self.num(p, o.sel[0])?);
        for x in 0..o.sel[1] % 4 {
            let n = self.num(p, o.sel[2] + 7 * x)?;
            c = match x % 3 {
                0 => c + n,
                1 => c + (Coeff::Full(o.k), n),
                _ => c + Combination::from(n).scale(-o.k),
            };
        }
        Some(c)
    }
}
impl<C: PC> Circuit<C::Base> for GProg<C> {
    fn synthesize<CS: ConstraintSystem<C::Base>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut p = Pools { anums: vec![], nums: vec![], abits: vec![], bits: vec![], points: vec![], words: vec![], longs: vec![] };
        for (n, o) in self.ops.iter().enumerate() {
            if let Some(r) = self.step(cs.namespace(|| format!("op {}", n)), o, &mut p) {
                r?;
            }
        }
        Ok(())
    }
}
pub fn describe<F: Field>(ops: &[GOp<F>]) -> String {
    ops.iter().map(|o| format!("{}{:?}", NAMES[o.kind], &o.sel[..])).collect::<Vec<_>>().join(", ")
}

// ------------------------------------------------------------------ the same shape for every witness

fn shape<C: PC>(ops: &[GOp<C::Base>], set: Option<usize>, call: bool) -> (Result<(), SynthesisError>, Rec<C::Base>) {
    let mut r = Rec::new(call);
    let e = GProg::<C> { ops: ops.to_vec(), set }.synthesize(&mut r);
    (e, r)
}
fn prefix<F: PF>(short: &Rec<F>, long: &Rec<F>) -> Option<String> {
    if short.vals.len() > long.vals.len() {
        return Some(format!("{} variables against {}", short.vals.len(), long.vals.len()));
    }
    if short.gates.len() > long.gates.len() || short.gates[..] != long.gates[..short.gates.len()] {
        return Some("gates differ".into());
    }
    if short.lcs.len() > long.lcs.len() {
        return Some("more constraints".into());
    }
    for i in 0..short.lcs.len() {
        if short.lcs[i] != long.lcs[i] {
            return Some(format!("constraint {} differs", i));
        }
    }
    if short.inputs.len() > long.inputs.len() || short.inputs[..] != long.inputs[..short.inputs.len()] {
        return Some("inputs differ".into());
    }
    None
}
/// The shape with each witness and without one; returns the shape without, and which witnesses can be synthesised.
pub fn parity<C: PC>(ops: &[GOp<C::Base>], cx: &mut Cx) -> Result<(Rec<C::Base>, Result<(), SynthesisError>, Vec<usize>), Fail> {
    let d = || format!("{} composition: {}", C::NAME, describe(ops));
    let (eb, blank) = shape::<C>(ops, None, false);
    let mut complete = vec![];
    for set in 0..2 {
        let (e, r) = shape::<C>(ops, Some(set), true);
        cx.checks += 1;
        match (e, eb) {
            (Ok(()), Ok(())) => {
                if let Some(x) = r.shape_differs(&blank) {
                    return fail("shape/witness", format!("with witness {} against none: {}; {}", set, x, d()));
                }
                complete.push(set);
            }
            (Ok(()), Err(b)) => return fail("shape/blank-error", format!("no witness gives {:?}, a witness synthesises; {}", b, d())),
            (Err(_), _) => {
                // the witness is not one; what was synthesised before must agree
                if let Some(x) = prefix(&r, &blank) {
                    return fail("shape/prefix", format!("with witness {} against none: {}; {}", set, x, d()));
                }
                cx.label("undefined operation");
            }
        }
        // values known, but not asked for
        let (e, r) = shape::<C>(ops, Some(set), false);
        if e.is_ok() && eb.is_ok() {
            if let Some(x) = r.shape_differs(&blank) {
                return fail("shape/unasked", format!("witness {} never asked for: {}; {}", set, x, d()));
            }
        }
        ensure!(e.is_ok() == eb.is_ok(), "shape/unasked-error", "{:?} against {:?}; {}", e, eb, d());
    }
    Ok((blank, eb, complete))
}
/// What the verifier synthesises, with no witness, must be the constraints that bind the prover: the analysis of a
/// gadget's constraints under a witness carries over only then.
pub fn view<C: PC>(s: &mut Src, cx: &mut Cx, kinds: &[usize]) -> Res {
    let mut ops: Vec<GOp<C::Base>> = [0, 3, 6, 9, 49].iter().map(|k| gen_gop::<C>(s, *k)).collect();
    for _ in 0..1 + s.below(3) {
        let k = s.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 49, 50]);
        ops.push(gen_gop::<C>(s, k));
    }
    for _ in 0..1 + s.below(3) {
        let k = kinds[s.below(kinds.len())];
        ops.push(gen_gop::<C>(s, k));
    }
    cx.sample(|| format!("{}: {}", C::NAME, describe(&ops)));
    let (_, eb, complete) = parity::<C>(&ops, cx)?;
    ensure!(eb.is_ok(), "view/error", "synthesis without a witness gives {:?}; {} composition: {}", eb, C::NAME, describe(&ops));
    if !complete.is_empty() {
        cx.label("verifier's view");
        cx.nontrivial();
    }
    Ok(())
}
