//! C29 honest recursive steps, C30 altered recursive steps
use halo::dev::*;
use halo::*;
use hv::cs::Rec;
use hv::defer::*;
use hv::ensure;
use hv::gen::*;
use hv::params::params;
use hv::prog::{short, Wires};
use hv::proto::*;
use hv::repair::*;
use hv::*;
use std::collections::HashSet;

fn bits_of(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect()
}
fn bytes_of(b: &[bool]) -> Vec<u8> {
    b.chunks(8).map(|c| c.iter().enumerate().map(|(i, b)| (*b as u8) << i).sum()).collect()
}
fn flip(b: &[u8], i: usize) -> Vec<u8> {
    let mut b = b.to_vec();
    b[i / 8] ^= 1 << (i % 8);
    b
}

/// A stand-in for the circuit of the previous step: the first of the recursive public inputs, and some gates.
#[derive(Clone)]
struct Standin<F: Field> {
    bits: Vec<bool>,
    gates: Vec<(F, F)>,
}
impl<F: PF> Circuit<F> for Standin<F> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        for b in &self.bits {
            cs.alloc_input(|| "bit", || Ok(F::from_u64(*b as u64)))?;
        }
        for (a, b) in &self.gates {
            cs.multiply(|| "gate", || Ok((*a, *b, *a * *b)))?;
        }
        Ok(())
    }
}

/// An application: the new payload is the old one changed at the given bits.
#[derive(Clone)]
struct App {
    base: Vec<bool>,
    flip: Vec<bool>,
}
impl App {
    fn next(&self, old: &[u8]) -> Vec<u8> {
        bytes_of(&bits_of(old).iter().zip(&self.flip).map(|(a, b)| a ^ b).collect::<Vec<_>>())
    }
}
impl<F: Field> RecursiveCircuit<F> for App {
    fn base_payload(&self) -> Vec<bool> {
        self.base.clone()
    }
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS, old: &[AllocatedBit], new: &[AllocatedBit]) -> Result<(), SynthesisError> {
        assert!(old.len() == self.flip.len() && new.len() == self.flip.len());
        for (i, f) in self.flip.iter().enumerate() {
            let (o, n) = (old[i].get_variable(), new[i].get_variable());
            if *f {
                cs.enforce_zero(LinearCombination::from(o) + n - CS::ONE);
            } else {
                cs.enforce_zero(LinearCombination::from(o) - n);
            }
        }
        Ok(())
    }
}

/// A previous step, over E2.
struct Prev<E1: Curve, E2: Curve> {
    k: usize,
    /// how many of the public inputs the stand-in has
    ins: usize,
    payload: Vec<u8>,
    old1: Leftovers<E2>,
    old2: Leftovers<E1>,
    deferred: Deferred<E1::Scalar>,
    gates: Vec<(E2::Scalar, E2::Scalar)>,
    proof: Proof<E2>,
}
impl<E1: PC, E2: PC> Clone for Prev<E1, E2> {
    fn clone(&self) -> Self {
        Prev {
            k: self.k,
            ins: self.ins,
            payload: self.payload.clone(),
            old1: self.old1.clone(),
            old2: self.old2.clone(),
            deferred: self.deferred.clone(),
            gates: self.gates.clone(),
            proof: self.proof.clone(),
        }
    }
}
/// What the native verifier makes of it.
struct Seen<E2: Curve> {
    ok: bool,
    new: Leftovers<E2>,
    deferred: Deferred<E2::Scalar>,
    fork: Vec<u8>,
}
impl<E2: PC> Clone for Seen<E2> {
    fn clone(&self) -> Self {
        Seen { ok: self.ok, new: self.new.clone(), deferred: self.deferred.clone(), fork: self.fork.clone() }
    }
}
fn kc_of<C: PC>(par: &Params<C>, bits: &[bool]) -> C {
    let mut kc = par.generators[1];
    for (b, g) in bits.iter().zip(&par.generators[2..]) {
        if *b {
            kc = kc + *g;
        }
    }
    kc
}
impl<E1: PC, E2: PC> Prev<E1, E2> {
    fn public(&self) -> Vec<bool> {
        let mut b = self.payload.clone();
        b.extend(self.old1.to_bytes());
        b.extend(self.old2.to_bytes());
        b.extend(self.deferred.to_bytes());
        bits_of(&b)
    }
    fn standin(&self) -> Standin<E2::Scalar> {
        let mut bits = self.public();
        bits.truncate(self.ins);
        Standin { bits, gates: self.gates.clone() }
    }
    fn seen(&self) -> Result<Seen<E2>, String> {
        let par = params::<E2>(self.k);
        let c = self.standin();
        let ins: Vec<E2::Scalar> = c.bits.iter().map(|b| E2::Scalar::from_u64(*b as u64)).collect();
        let kc = kc_of(par, &self.public());
        let r = guarded(|| self.proof.verify::<_, Basic>(&self.old1, par, &c, &ins, Some(kc)))?;
        let (ok, new, deferred, fork) = r.map_err(|e| format!("{:?}", e))?;
        Ok(Seen { ok, new, deferred, fork })
    }
    fn recursive(&self) -> RecursiveProof<E2, E1> {
        RecursiveProof::verif_new(self.proof.clone(), self.old1.clone(), self.old2.clone(), self.deferred.clone(), self.payload.clone())
    }
}

/// Sizes of a step small enough for the previous proof to be cheap. The commitment to the public inputs then covers
/// the first 2^k - 2 of them only, all payload bits, of which the stand-in has room for the first.
struct Small {
    k: usize,
    ins: usize,
    bytes: usize,
    gates: usize,
}
fn small(s: &mut Src) -> Small {
    let k = 4 + s.weighted(&[4, 3, 1]);
    let room = (1 << k) / 4 - 1;
    let gates = s.below(room);
    Small { k, ins: 2 * (room - gates) - 1, bytes: ((1 << k) - 2 + 7) / 8, gates }
}
fn wide(s: &mut Src) -> Small {
    Small { k: 15, ins: usize::MAX, bytes: s.below(40), gates: s.below(200) }
}
fn payload(s: &mut Src, z: &Small) -> Vec<u8> {
    let mut p: Vec<u8> = (0..z.bytes).map(|_| s.u8()).collect();
    for i in z.ins.min(8 * z.bytes)..8 * z.bytes {
        if i + 2 < 1 << z.k {
            p[i / 8] &= !(1 << (i % 8));
        }
    }
    p
}
fn gates_of<F: PF>(s: &mut Src, n: usize) -> Vec<(F, F)> {
    (0..n).map(|_| (gen_fe_fast(s), gen_fe_fast(s))).collect()
}
fn wires_of<F: PF>(c: &Standin<F>) -> Wires<F> {
    let mut w = Wires::with_witness();
    Basic::synthesize(&mut w, c).expect("synthesis");
    w
}
/// An honest previous step. With an earlier one behind it, or the starting leftovers.
fn honest<E1: PC, E2: PC>(s: &mut Src, cx: &mut Cx, z: &Small) -> Prev<E1, E2> {
    let par = params::<E2>(z.k);
    let d = if s.chance(1, 4) { Deferred::dummy(z.k) } else { gen_deferred_of::<E1::Scalar>(s, z.k, true) };
    let mut old2: Leftovers<E1> = Leftovers::dummy(params::<E1>(z.k));
    if s.bool() {
        // the circuit does not look into these
        let p1 = params::<E1>(z.k);
        old2.y_new = E1::Scalar::from_u128(s.u128());
        old2.g_new = p1.generators[s.below(p1.d)];
        old2.s_new_commitment = p1.generators[s.below(p1.d)];
        for c in &mut old2.challenges_sq_packed_new {
            *c = packed(s);
        }
    }
    let mut p = Prev {
        k: z.k,
        ins: z.ins,
        payload: payload(s, z),
        old1: Leftovers::dummy(par),
        old2,
        deferred: d,
        gates: gates_of(s, z.gates),
        proof: hv::proto::dummy_proof(par),
    };
    if z.k < 10 && s.bool() {
        cx.label("with an earlier proof");
        let (q, l) = Proof::new::<_, Basic>(par, &p.standin(), &p.old1).expect("proof");
        p.proof = q;
        let v = p.seen().expect("verify");
        p.old1 = v.new;
        let _ = l;
        p.payload = payload(s, z);
    }
    p.proof = Proof::new::<_, Basic>(par, &p.standin(), &p.old1).expect("proof").0;
    p
}

/// Everything the circuit of the next step is given.
struct Given<'a, E1: Curve, E2: Curve> {
    k: usize,
    base: Option<bool>,
    app: &'a App,
    prev: Option<&'a RecursiveProof<E2, E1>>,
    payload: &'a [u8],
    fork: Option<&'a [u8]>,
    old2: Option<Leftovers<E1>>,
    new: Option<Leftovers<E2>>,
    deferred: Option<Deferred<E2::Scalar>>,
}
type Syn<F> = (Result<(), SynthesisError>, Rec<F>);
fn synth<E1: PC, E2: PC + Curve<Base = <E1 as Curve>::Scalar>>(g: Given<E1, E2>, witness: bool) -> Syn<E1::Scalar> {
    let par = params::<E2>(g.k);
    let c = verif_circuit::<E1, E2, App>(par, g.base, g.app, g.prev, g.payload, g.fork, g.old2, g.new, g.deferred);
    let mut r = Rec::new(witness);
    let e = guarded(|| c.synthesize(&mut r)).unwrap_or(Err(SynthesisError::Violation));
    (e, r)
}
fn next<E1: PC, E2: PC + Curve<Base = <E1 as Curve>::Scalar>>(p: &Prev<E1, E2>, v: &Seen<E2>, app: &App, payload: &[u8]) -> Syn<E1::Scalar> {
    let rp = p.recursive();
    synth(
        Given {
            k: p.k,
            base: Some(false),
            app,
            prev: Some(&rp),
            payload,
            fork: Some(&v.fork),
            old2: Some(p.old2.clone()),
            new: Some(v.new.clone()),
            deferred: Some(v.deferred.clone()),
        },
        true,
    )
}
fn gen_app(s: &mut Src, bytes: usize) -> App {
    let all = s.chance(1, 3);
    App { base: (0..8 * bytes).map(|_| s.bool()).collect(), flip: (0..8 * bytes).map(|_| !all && s.bool()).collect() }
}
/// An application whose base payload is not the given one: else the step would pass for a base case, which may have
/// any leftovers and deferred data.
fn gen_app_not_base(s: &mut Src, payload: &[u8]) -> App {
    let mut a = gen_app(s, payload.len());
    for i in 0..2 {
        a.base[i] = payload[0] >> i & 1 == 0;
    }
    a
}
fn layout<E1: PC, E2: PC>(payload: &[u8], old2: &Leftovers<E1>, new: &Leftovers<E2>, d: &Deferred<E2::Scalar>) -> Vec<bool> {
    let mut b = payload.to_vec();
    b.extend(old2.to_bytes());
    b.extend(new.to_bytes());
    b.extend(d.to_bytes());
    bits_of(&b)
}
fn inputs_are<F: PF>(r: &Rec<F>, want: &[bool]) -> Option<String> {
    if r.inputs.len() != want.len() {
        return Some(format!("{} public inputs, expected {}", r.inputs.len(), want.len()));
    }
    for (i, v) in r.inputs.iter().enumerate() {
        if r.vals[*v] != Some(F::from_u64(want[i] as u64)) {
            return Some(format!("public input {} is {:?}, expected {}", i, r.vals[*v], want[i]));
        }
    }
    None
}
/// the circuit as the verifier sees it
fn blank<E1: PC, E2: PC + Curve<Base = <E1 as Curve>::Scalar>>(k: usize, app: &App, payload: &[u8]) -> Syn<E1::Scalar> {
    synth(Given::<E1, E2> { k, base: None, app, prev: None, payload, fork: None, old2: None, new: None, deferred: None }, false)
}

// ------------------------------------------------------------------ C29

fn honest_circuit<E1: PC, E2: PC + Curve<Base = <E1 as Curve>::Scalar>>(s: &mut Src, cx: &mut Cx, z: Small) -> Res {
    let p = honest::<E1, E2>(s, cx, &z);
    let par = params::<E2>(z.k);
    let app = gen_app(s, z.bytes);
    let new_payload = app.next(&p.payload);
    let d = || format!("step on {} after {}, k = {}, payload {:02x?} -> {:02x?}", E1::NAME, E2::NAME, z.k, p.payload, new_payload);
    cx.sample(d);
    let v = match p.seen() {
        Ok(v) => v,
        Err(e) => return fail("step/native", format!("{}; {}", e, d())),
    };
    ensure!(v.ok, "step/native", "the previous proof does not verify; {}", d());
    ensure!(v.deferred.verify(z.k), "step/deferred", "its deferred data does not; {}", d());
    ensure!(v.new.verify::<_, Basic>(par, &p.standin()).unwrap(), "step/leftovers", "its leftovers do not; {}", d());
    let (e, r) = next(&p, &v, &app, &new_payload);
    ensure!(e.is_ok(), "step/synthesis", "{:?}; {}", e, d());
    if let Some(x) = r.satisfied() {
        return fail("step/unsatisfied", format!("honest step violates {}; {}", x, d()));
    }
    if let Some(x) = inputs_are(&r, &layout(&new_payload, &p.old2, &v.new, &v.deferred)) {
        return fail("step/inputs", format!("{}; {}", x, d()));
    }
    cx.checks += 5;
    if s.chance(1, 3) || z.k > 10 {
        let (e, b) = blank::<E1, E2>(z.k, &app, &new_payload);
        ensure!(e.is_ok(), "step/blank", "the verifier's synthesis gives {:?}; {}", e, d());
        if let Some(x) = r.shape_differs(&b) {
            return fail("step/shape", format!("the verifier sees another circuit: {}; {}", x, d()));
        }
        cx.label("compared with the verifier's circuit");
        cx.checks += 1;
    }
    cx.nontrivial();
    Ok(())
}
fn c29_step<E1: PC, E2: PC + Curve<Base = <E1 as Curve>::Scalar>>(s: &mut Src, cx: &mut Cx) -> Res {
    let z = small(s);
    honest_circuit::<E1, E2>(s, cx, z)
}
fn c29_wide(s: &mut Src, cx: &mut Cx) -> Res {
    let z = wide(s);
    if s.bool() {
        honest_circuit::<Ec0, Ec1>(s, cx, z)
    } else {
        honest_circuit::<Ec1, Ec0>(s, cx, z)
    }
}
macro_rules! c29_base {
    ($f:ident, $e1:ty, $e2:ty) => {
        fn $f(s: &mut Src, cx: &mut Cx) -> Res {
            let k = 4 + s.below(3);
            let bytes = s.below(9);
            let app = gen_app(s, bytes);
            let old = bytes_of(&app.base);
            let new_payload = app.next(&old);
            let (p1, p2) = (params::<$e1>(k), params::<$e2>(k));
            let d = || format!("base case on {}, k = {}, payload {:02x?} -> {:02x?}", <$e1>::NAME, k, old, new_payload);
            cx.sample(d);
            let (l1, l2, df) = (Leftovers::dummy(p1), Leftovers::dummy(p2), Deferred::dummy(k));
            let g = Given::<$e1, $e2> { k, base: Some(true), app: &app, prev: None, payload: &new_payload, fork: Some(&vec![0; k]), old2: Some(l1.clone()), new: Some(l2.clone()), deferred: Some(df.clone()) };
            let (e, r) = synth(g, true);
            ensure!(e.is_ok(), "base/synthesis", "{:?}; {}", e, d());
            if let Some(x) = r.satisfied() {
                return fail("base/unsatisfied", format!("violates {}; {}", x, d()));
            }
            if let Some(x) = inputs_are(&r, &layout(&new_payload, &l1, &l2, &df)) {
                return fail("base/inputs", format!("{}; {}", x, d()));
            }
            cx.checks += 2;
            if s.bool() {
                let dev = guarded(|| recursive_is_satisfied::<$e1, $e2, App, Basic>(p1, p2, None, &app, &new_payload));
                ensure!(matches!(dev, Ok(Ok(true))), "base/dev", "the development check gives {:?}; {}", dev, d());
                // a payload that breaks the application's rule
                if bytes > 0 {
                    let bad = flip(&new_payload, s.below(8 * bytes));
                    let dev = guarded(|| recursive_is_satisfied::<$e1, $e2, App, Basic>(p1, p2, None, &app, &bad));
                    ensure!(!matches!(dev, Ok(Ok(true))), "base/dev-rule", "the development check accepts payload {:02x?}; {}", bad, d());
                }
                cx.label("development check");
                cx.checks += 2;
            } else {
                let (e, b) = blank::<$e1, $e2>(k, &app, &new_payload);
                ensure!(e.is_ok(), "base/blank", "the verifier's synthesis gives {:?}; {}", e, d());
                if let Some(x) = r.shape_differs(&b) {
                    return fail("base/shape", format!("the verifier sees another circuit: {}; {}", x, d()));
                }
                cx.label("compared with the verifier's circuit");
                cx.checks += 1;
            }
            cx.nontrivial();
            Ok(())
        }
    };
}
c29_base!(c29_base_0, Ec0, Ec1);
c29_base!(c29_base_1, Ec1, Ec0);

// ------------------------------------------------------------------ C30

/// Look for another assignment with the same frozen variables that satisfies everything.
fn repaired<F: PF>(s: &mut Src, fix: &Repair<F>, w: &mut [F], frozen: &HashSet<usize>, bad: &[u32], tries: usize) -> bool {
    let mut rng = Rng(s.u64());
    for t in 0..tries {
        let (chance, limit) = [(16, 200000), (12, 3000), (8, 400), (4, 60)][if t == 0 { 0 } else { 1 + t % 3 }];
        if fix.attempt(&mut rng, w, frozen, bad, chance, limit) {
            return true;
        }
    }
    false
}
fn alter_left<C: PC>(s: &mut Src, par: &Params<C>, l: &Leftovers<C>) -> (Leftovers<C>, &'static str) {
    let mut b = l.clone();
    let what = match s.below(4) {
        0 => {
            b.s_new_commitment = alter_pt(s, par, l.s_new_commitment, &par.generators);
            "s_new"
        }
        1 => {
            b.g_new = alter_pt(s, par, l.g_new, &par.generators);
            "g_new"
        }
        2 => {
            b.y_new = C::Scalar::from_u128(val_128(&l.y_new) ^ 1 << s.below(128));
            "y_new"
        }
        _ => {
            let i = s.below(par.k);
            b.challenges_sq_packed_new[i] = alter_packed(s, l.challenges_sq_packed_new[i]);
            "challenge"
        }
    };
    (b, what)
}
fn val_128<F: PF>(v: &F) -> u128 {
    let b = val(v);
    b[0] as u128 | (b[1] as u128) << 64
}
/// How many of the deferred fields are encoded in how many bits, in order.
fn fields(k: usize) -> Vec<usize> {
    let mut v = vec![128; 4];
    v.extend(vec![256; 6]);
    v.extend(vec![128; k]);
    v.push(256);
    v.extend(vec![128; k]);
    v.extend(vec![256; 5]);
    v
}
fn field_bit(s: &mut Src, k: usize) -> usize {
    let f = fields(k);
    let i = s.below(f.len());
    let b = match s.below(4) {
        0 => s.pick(&[0, f[i] - 1, f[i] - 2, f[i] - 6, 127, 1]),
        _ => s.below(f[i]),
    };
    f[..i].iter().sum::<usize>() + b
}

fn c30_alter<E1: PC, E2: PC + Curve<Base = <E1 as Curve>::Scalar>>(s: &mut Src, cx: &mut Cx) -> Res {
    let z = small(s);
    let k = z.k;
    let par = params::<E2>(k);
    let p = honest::<E1, E2>(s, cx, &z);
    let mut app = gen_app_not_base(s, &p.payload);
    let new_payload = app.next(&p.payload);
    let d = || format!("step on {} after {}, k = {}, payload {:02x?} -> {:02x?}", E1::NAME, E2::NAME, k, p.payload, new_payload);
    let v = p.seen().map_err(|e| Fail { sig: "step/native".into(), msg: e })?;
    ensure!(v.ok, "step/native", "the previous proof does not verify; {}", d());
    let kind = s.weighted(&[5, 5, 3, 3, 2, 3, 2, 5]);
    let (mut q, mut u, mut pay) = (p.clone(), v.clone(), new_payload.clone());
    let bound = 8 * z.bytes.min(((1usize << k) - 2) / 8);
    let what: String;
    // the native verdict, when the circuit is only told what the native verifier derives
    let mut want = false;
    // may the violation be repaired by other values of what is frozen only because it is public?
    let mut repair = true;
    match kind {
        0 => {
            // an altered proof, and what the native verifier derives from it
            let (mut pts, mut scs) = flat(&p.proof);
            if s.bool() {
                let i = if s.bool() { s.below(7) } else { s.below(pts.len()) };
                let o = pts.clone();
                pts[i] = alter_pt(s, par, pts[i], &o);
                what = format!("point {} of the proof", i);
            } else {
                let i = if s.bool() { s.below(12) } else { s.below(scs.len()) };
                let o = scs.clone();
                scs[i] = alter_sc(s, scs[i], &o);
                what = format!("scalar {} of the proof", i);
            }
            q.proof = unflat(&p.proof, &pts, &scs);
            match q.seen() {
                Ok(x) => u = x,
                Err(_) => return Ok(()),
            }
            want = u.ok;
        }
        1 => {
            // a dishonest prover
            let c = p.standin();
            let w = wires_of(&c);
            if s.bool() {
                if let Some(x) = other_payload(s, &p) {
                    q.payload = x;
                    pay = app.next(&q.payload);
                    cx.label("false statement");
                }
            }
            let ins: Vec<E2::Scalar> = q.standin().bits.iter().map(|b| E2::Scalar::from_u64(*b as u64)).collect();
            let (i, j) = (s.below(k), s.below(5));
            let (lie, il) = match s.below(4) {
                0 => (LIES[s.below(LIES.len())], IpaLie::None),
                1 => (OFFS[s.below(OFFS.len())], IpaLie::None),
                2 => (Lie::NegRxy, if s.bool() { IpaLie::NegB(1) } else { IpaLie::NegP(1) }),
                _ => (Lie::None, [IpaLie::L(i, j), IpaLie::R(i, j), IpaLie::SmallL(i, j), IpaLie::SmallR(i, j), IpaLie::A(j), IpaLie::G, IpaLie::Poly(j)][s.below(7)]),
            };
            let delta = nzf(s);
            let kc = kc_of(par, &q.public());
            let o = match guarded(|| prove(par, &w, &ins, &p.old1, Some(kc), lie, il, delta)) {
                Ok(Some(o)) => o,
                _ => return Ok(()),
            };
            q.proof = o.proof;
            u = q.seen().map_err(|e| Fail { sig: "lie/native".into(), msg: format!("{}; {}", e, d()) })?;
            want = u.ok;
            what = format!("{:?} {:?}", lie, il);
        }
        2 => {
            // other leftovers claimed of the same proof
            let (l, n) = alter_left(s, par, &v.new);
            u.new = l;
            what = format!("new leftovers ({})", n);
        }
        3 => {
            let bytes = flip(&v.deferred.to_bytes(), field_bit(s, k));
            let e = parse_deferred::<E2::Scalar>(&bytes, k);
            if e.to_bytes() != bytes {
                return Ok(());
            }
            u.deferred = e;
            what = "new deferred data".into();
            // what the old leftovers say is bound by the public inputs of a proof of full size only
            repair = false;
        }
        4 => {
            // the old leftovers the proof is checked against
            let (l, n) = alter_left(s, par, &p.old1);
            q.old1 = l;
            repair = false;
            what = format!("old leftovers ({})", n);
        }
        5 => {
            // payloads
            if bound == 0 {
                return Ok(());
            }
            let i = s.below(bound);
            if s.bool() {
                q.payload = flip(&p.payload, i);
                if s.bool() {
                    pay = app.next(&q.payload);
                }
                what = "old payload".into();
            } else {
                pay = flip(&new_payload, i);
                what = "new payload".into();
            }
        }
        7 => return c30_told(s, cx, &p, &app, &new_payload),
        _ => {
            let i = s.below(k);
            u.fork[i] = u.fork[i].wrapping_add(1 + s.u8() % 3);
            repair = false;
            what = "fork value".into();
        }
    }
    cx.sample(|| format!("{}: altered {}", d(), what));
    if q.payload != p.payload && kind == 1 {
        for i in 0..2 {
            app.base[i] = q.payload[0] >> i & 1 == 0;
        }
    }
    let (e, r) = next(&q, &u, &app, &pay);
    cx.checks += 1;
    cx.nontrivial();
    if e.is_err() {
        ensure!(!want, "alter/synthesis", "accepted natively, synthesis gives {:?}; altered {}; {}", e, what, d());
        cx.label("not synthesised");
        return Ok(());
    }
    let mut w = r.assignment();
    let fix = Repair::new(&r);
    let bad = fix.violated(&w);
    ensure!(bad.is_empty() == want, if want { "alter/refused" } else { "alter/accepted" }, "{} constraints violated, native verdict {}; altered {}; {}", bad.len(), want, what, d());
    cx.label(if want { "opening argument holds" } else { "refused" });
    if !want && repair {
        let frozen: HashSet<usize> = r.inputs.iter().copied().collect();
        if repaired(s, &fix, &mut w, &frozen, &bad, 8) {
            return fail("alter/repaired", format!("altered {}: another assignment satisfies the circuit; {}", what, d()));
        }
        cx.checks += 8;
    }
    Ok(())
}

/// Another payload, that the assignment for this one does not satisfy.
fn other_payload<E1: PC, E2: PC>(s: &mut Src, p: &Prev<E1, E2>) -> Option<Vec<u8>> {
    let n = p.standin().bits.len().min(8 * p.payload.len());
    if n == 0 {
        return None;
    }
    let mut q = p.payload.clone();
    for _ in 0..1 + s.below(3) {
        q = flip(&q, s.below(n));
    }
    if q == p.payload {
        q = flip(&q, 0);
    }
    Some(q)
}
/// A prover that has the next step believe what it likes about what the native verifier would compute for itself: the
/// circuit refuses it, or else the deferred data does not verify.
fn c30_told<E1: PC, E2: PC + Curve<Base = <E1 as Curve>::Scalar>>(s: &mut Src, cx: &mut Cx, p: &Prev<E1, E2>, app: &App, new_payload: &[u8]) -> Res {
    let k = p.k;
    let par = params::<E2>(k);
    let mut q = p.clone();
    let mut lie = TOLD[s.below(TOLD.len())];
    let mut il = IpaLie::None;
    let mut fit = None;
    let delta = nzf(s);
    match s.below(4) {
        0 => lie = Lie::None,
        1 => {
            // an opening is false, and the evaluation of the folded powers is what makes it pass
            let i = s.below(5);
            fit = Some(i);
            lie = match (i, s.below(3)) {
                (_, 0) => {
                    il = IpaLie::SmallL(s.below(k), i);
                    Lie::None
                }
                (0, 1) => Lie::TPos,
                (0, _) => Lie::OffGx,
                (1, _) => Lie::Rxy,
                (2, _) => Lie::COld,
                (3, 1) => Lie::QClaim,
                (3, _) => Lie::KySolve,
                (_, _) => Lie::SCurC,
            };
        }
        _ => {}
    }
    let mut wrong = lie != Lie::None || il != IpaLie::None;
    if lie == Lie::KySolve || LIES[1..].contains(&lie) {
        match other_payload(s, p) {
            Some(x) => q.payload = x,
            None => return Ok(()),
        }
    }
    let w = wires_of(&p.standin());
    let ins: Vec<E2::Scalar> = q.standin().bits.iter().map(|b| E2::Scalar::from_u64(*b as u64)).collect();
    let kc = kc_of(par, &q.public());
    let o = match guarded(|| prove(par, &w, &ins, &q.old1, Some(kc), lie, il, delta)) {
        Ok(Some(o)) => o,
        _ => return Ok(()),
    };
    q.proof = o.proof;
    if lie == Lie::GOther {
        q.old1.g_new = q.old1.g_new + par.generators[0] * delta;
    }
    let mut df = o.deferred;
    if let Some(i) = fit {
        let a = q.proof.inner_product.a[i];
        if bool::from(a.is_zero()) {
            return Ok(());
        }
        let b = o.v[i] * inv(a);
        let slot = [&mut df.b_x, &mut df.b_xy, &mut df.b_y_old, &mut df.b_y_cur, &mut df.b_y_new].into_iter().nth(i).unwrap();
        wrong = wrong || *slot != b;
        *slot = b;
    }
    let d = || format!("step on {} after {}, k = {}, payload {:02x?}, prover {:?} {:?}{}", E1::NAME, E2::NAME, k, q.payload, lie, il, if fit.is_some() { " with the evaluation it takes" } else { "" });
    cx.sample(d);
    let u = Seen { ok: false, new: o.leftovers, deferred: df, fork: o.fork };
    let new_payload = if q.payload == p.payload { new_payload.to_vec() } else { app.next(&q.payload) };
    let mut a2 = app.clone();
    for i in 0..2 {
        a2.base[i] = q.payload[0] >> i & 1 == 0;
    }
    let (e, r) = next(&q, &u, &a2, &new_payload);
    let sat = e.is_ok() && r.satisfied().is_none();
    let def = guarded(|| u.deferred.verify(k)) == Ok(true);
    cx.checks += 1;
    cx.nontrivial();
    if wrong {
        cx.label(if sat { "told: left to the deferred data" } else if def { "told: refused by the circuit only" } else { "told: refused by both" });
        ensure!(!(sat && def), "told/accepted", "circuit satisfied, deferred data verifies; {}", d());
        if fit.is_none() && lie != Lie::GOther {
            ensure!(!sat, "told/opening", "the circuit is satisfied by a false opening; {}", d());
            let mut w = r.assignment();
            let fix = Repair::new(&r);
            let bad = fix.violated(&w);
            let frozen: HashSet<usize> = r.inputs.iter().copied().collect();
            if e.is_ok() && def && repaired(s, &fix, &mut w, &frozen, &bad, 8) {
                return fail("told/repaired", format!("another assignment satisfies the circuit; {}", d()));
            }
            cx.checks += 8;
        }
    } else {
        cx.label("told the truth");
        ensure!(sat && def, "told/refused", "circuit satisfied: {}, deferred data: {}; {}", sat, def, d());
    }
    Ok(())
}

/// The base case, with deferred data and a payload of any kind.
fn c30_base<E1: PC, E2: PC + Curve<Base = <E1 as Curve>::Scalar>>(s: &mut Src, cx: &mut Cx) -> Res {
    let k = 4 + s.weighted(&[4, 2, 1]);
    let bytes = s.below(5);
    let app = gen_app(s, bytes);
    let base = bytes_of(&app.base);
    let (p1, p2) = (params::<E1>(k), params::<E2>(k));
    let good = gen_deferred_of::<E1::Scalar>(s, k, true);
    let mut df = good.clone();
    let mut pay = base.clone();
    let mut negated = false;
    let what = match s.weighted(&[1, 5, 2, 2, 2]) {
        0 => "nothing",
        1 => {
            let bits = flip(&good.to_bytes(), field_bit(s, k));
            df = parse_deferred(&bits, k);
            "a bit of the deferred data"
        }
        2 => {
            let i = s.below(16);
            let mut sl = slots(&mut df);
            let x = alter_sc(s, *sl[i].1, &[E1::Scalar::one()]);
            *sl[i].1 = if i < 4 { E1::Scalar::from_u128(val_128(&x) | 1) } else { x };
            if s.bool() {
                derive(&mut df);
            }
            if s.bool() {
                solve(s, &mut df, k);
            }
            "a field of the deferred data"
        }
        3 if bytes > 0 => {
            pay = flip(&base, s.below(8 * bytes));
            "the old payload"
        }
        _ => {
            // evaluations with the other sign
            negated = true;
            let neg = |x: &mut E1::Scalar| *x = E1::Scalar::zero() - *x;
            let which = s.range(1, 3);
            if which & 1 == 1 {
                neg(&mut df.gx_old_opening);
            }
            if which & 2 == 2 {
                neg(&mut df.b_x);
                neg(&mut df.b_xy);
                neg(&mut df.b_y_old);
                neg(&mut df.b_y_cur);
                neg(&mut df.b_y_new);
            }
            "the sign of evaluations"
        }
    };
    let d = || format!("base case on {}, k = {}, altered {}: old payload {:02x?}, declared {:02x?}, deferred {}", E1::NAME, k, what, pay, base, short(&show(&df)));
    cx.sample(d);
    if bool::from(df.x.is_zero()) || bool::from(df.y_cur.is_zero()) {
        return Ok(());
    }
    let valid = match guarded(|| df.verify(k)) {
        Ok(v) => v,
        Err(_) => false,
    };
    ensure!(what != "nothing" || valid, "base/native", "valid deferred data refused; {}", d());
    let want = valid && pay == base;
    let new_payload = app.next(&pay);
    let rp = RecursiveProof::verif_new(hv::proto::dummy_proof(p2), Leftovers::dummy(p2), Leftovers::dummy(p1), df.clone(), pay.clone());
    let g = Given::<E1, E2> { k, base: Some(true), app: &app, prev: Some(&rp), payload: &new_payload, fork: Some(&vec![0; k]), old2: Some(Leftovers::dummy(p1)), new: Some(Leftovers::dummy(p2)), deferred: Some(Deferred::dummy(k)) };
    let (e, r) = synth(g, true);
    cx.nontrivial();
    cx.checks += 1;
    if e.is_err() {
        ensure!(!want, "base/synthesis", "{:?}; {}", e, d());
        cx.label("not synthesised");
        return Ok(());
    }
    let mut w = r.assignment();
    let fix = Repair::new(&r);
    let bad = fix.violated(&w);
    ensure!(bad.is_empty() == want, if want { "base/refused" } else { "base/accepted" }, "{} constraints violated; {}", bad.len(), d());
    cx.label(if want { "satisfied" } else { "refused" });
    if !want {
        let mut frozen: HashSet<usize> = r.inputs.iter().copied().collect();
        let from = r.inputs.iter().max().copied().unwrap_or(0) + 1;
        if pay == base {
            match locate(&w, &bits_of(&df.to_bytes()), from) {
                Some(v) => frozen.extend(v),
                None => {
                    cx.label("deferred bits not found");
                    return Ok(());
                }
            }
        }
        if negated {
            // the square roots of the challenges with the other sign
            let mut x: Vec<usize> = vec![];
            for (on, ch) in [(df.gx_old_opening != good.gx_old_opening, &df.challenges_sq_packed_old), (df.b_x != good.b_x, &df.challenges_sq_packed_new)] {
                if on {
                    let c = roots(ch).unwrap();
                    let i = (0..k).find(|i| c.iter().filter(|x| **x == c[*i]).count() == 1).unwrap_or(0);
                    let set = [c[i], inv(c[i])];
                    let mut hit: Vec<usize> = (from..w.len()).filter(|v| set.contains(&w[*v]) || set.contains(&(E1::Scalar::zero() - w[*v]))).collect();
                    x.append(&mut hit);
                }
            }
            for v in &x {
                w[*v] = E1::Scalar::zero() - w[*v];
            }
            let bad2 = fix.violated(&w);
            let mut f2 = frozen.clone();
            f2.extend(x.iter().copied());
            let mut rng = Rng(1);
            if fix.attempt(&mut rng, &mut w, &f2, &bad2, 16, usize::MAX) {
                return fail("root-sign", format!("negated evaluations are accepted with negated square roots of the challenges; {}", d()));
            }
            for v in &x {
                w[*v] = E1::Scalar::zero() - w[*v];
            }
        }
        if repaired(s, &fix, &mut w, &frozen, &bad, 12) {
            return fail("base/repaired", format!("another assignment satisfies the circuit; {}", d()));
        }
        cx.checks += 12;
    }
    Ok(())
}

/// The base case with an old payload that differs from the declared one in one bit, every bit in turn.
fn c30_payload<E1: PC, E2: PC + Curve<Base = <E1 as Curve>::Scalar>>(s: &mut Src, cx: &mut Cx) -> Res {
    let k = 4;
    let bytes = s.range(1, 4);
    let app = gen_app(s, bytes);
    let base = bytes_of(&app.base);
    let (p1, p2) = (params::<E1>(k), params::<E2>(k));
    let df = if s.bool() { Deferred::dummy(k) } else { gen_deferred_of::<E1::Scalar>(s, k, true) };
    let d = || format!("base case on {}, declared payload {:02x?}, deferred {}", E1::NAME, base, short(&show(&df)));
    cx.sample(d);
    for i in 0..=8 * bytes {
        let pay = if i == 8 * bytes { base.clone() } else { flip(&base, i) };
        let new_payload = app.next(&pay);
        let rp = RecursiveProof::verif_new(hv::proto::dummy_proof(p2), Leftovers::dummy(p2), Leftovers::dummy(p1), df.clone(), pay.clone());
        let g = Given::<E1, E2> { k, base: Some(true), app: &app, prev: Some(&rp), payload: &new_payload, fork: Some(&vec![0; k]), old2: Some(Leftovers::dummy(p1)), new: Some(Leftovers::dummy(p2)), deferred: Some(Deferred::dummy(k)) };
        let (e, r) = synth(g, true);
        let bad = e.is_err() || r.satisfied().is_some();
        ensure!(bad == (pay != base), "base/payload", "old payload {:02x?}: {}; {}", pay, if bad { "refused" } else { "satisfied" }, d());
        cx.checks += 1;
    }
    cx.nontrivial();
    Ok(())
}

/// From a satisfied step: flip one bit at a time of what is public or was public before, and repair.
fn flips<E1: PC, E2: PC + Curve<Base = <E1 as Curve>::Scalar>>(s: &mut Src, cx: &mut Cx, z: Small, count: usize) -> Res {
    let k = z.k;
    let full = k > 10;
    let p = honest::<E1, E2>(s, cx, &z);
    let app = gen_app_not_base(s, &p.payload);
    let new_payload = app.next(&p.payload);
    let d = || format!("step on {} after {}, k = {}, payload {:02x?} -> {:02x?}", E1::NAME, E2::NAME, k, p.payload, new_payload);
    cx.sample(d);
    let v = p.seen().map_err(|e| Fail { sig: "step/native".into(), msg: e })?;
    let (e, r) = next(&p, &v, &app, &new_payload);
    ensure!(e.is_ok() && r.satisfied().is_none(), "step", "honest step: {:?}; {}", e, d());
    let public = layout(&new_payload, &p.old2, &v.new, &v.deferred);
    if let Some(x) = inputs_are(&r, &public) {
        return fail("step/inputs", format!("{}; {}", x, d()));
    }
    let fix = Repair::new(&r);
    let mut w = r.assignment();
    let from = r.inputs.iter().max().copied().unwrap_or(0) + 1;
    let inputs: HashSet<usize> = r.inputs.iter().copied().collect();
    let left = 8 * p.old2.to_bytes().len();
    let pb = 8 * new_payload.len();
    let old1 = locate(&w, &bits_of(&p.old1.to_bytes()), from);
    let oldd = locate(&w, &bits_of(&p.deferred.to_bytes()), from);
    if old1.is_none() || oldd.is_none() {
        cx.label("previous inputs not found");
    }
    // in a small step the commitment to the previous public inputs covers the payload only
    let mut frozen = inputs.clone();
    if !full {
        frozen.extend(old1.iter().flatten().copied());
        frozen.extend(oldd.iter().flatten().copied());
    }
    let zero = E1::Scalar::zero();
    let one = E1::Scalar::one();
    // every bit, with a short attempt
    let fb: usize = fields(k).iter().sum();
    let mut all: Vec<(usize, String)> = vec![];
    for (from, n, name) in [(pb, if full { left } else { 0 }, "leftovers (same curve)"), (pb + left, left, "leftovers (other curve)"), (pb + 2 * left, if !full && old1.is_none() { 0 } else { fb }, "deferred")] {
        all.extend((0..n).map(|i| (r.inputs[from + i], format!("{} bit {}", name, i))));
    }
    all.extend(old1.iter().flatten().enumerate().map(|(i, v)| (*v, format!("old leftovers bit {}", i))));
    if full {
        all.extend(oldd.iter().flatten().enumerate().map(|(i, v)| (*v, format!("old deferred bit {}", i))));
    }
    let mut rng = Rng(s.u64());
    let mut f = frozen.clone();
    for (at, what) in all {
        let fresh = f.insert(at);
        let old = w[at];
        w[at] = if old == zero { one } else { zero };
        let bad = fix.around(&w, &[at]);
        ensure!(!bad.is_empty(), "flip/free", "{} occurs in no constraint; {}", what, d());
        if fix.attempt(&mut rng, &mut w, &f, &bad, 16, 40) {
            return fail("flip/unlinked", format!("{} flipped: another assignment satisfies the circuit; {}", what, d()));
        }
        w[at] = old;
        if fresh {
            f.remove(&at);
        }
        cx.checks += 1;
    }
    for _ in 0..count {
        let group = s.weighted(&[1, if full { 2 } else { 0 }, 3, 4, 2, 3]);
        let (at, what): (usize, String) = match group {
            0 => {
                let n = if full { pb } else { pb.min((1 << k) - 2) };
                if n == 0 {
                    continue;
                }
                let i = s.below(n);
                (r.inputs[i], format!("payload bit {}", i))
            }
            1 => {
                let i = s.below(left);
                (r.inputs[pb + i], format!("leftovers (same curve) bit {}", i))
            }
            2 => {
                let i = s.below(left);
                (r.inputs[pb + left + i], format!("leftovers (other curve) bit {}", i))
            }
            3 => {
                if !full && old1.is_none() {
                    continue;
                }
                let i = field_bit(s, k);
                (r.inputs[pb + 2 * left + i], format!("deferred bit {}", i))
            }
            4 => {
                let i = s.below(left);
                match &old1 {
                    Some(v) => (v[i], format!("old leftovers bit {}", i)),
                    None => continue,
                }
            }
            _ => {
                let i = field_bit(s, k);
                match &oldd {
                    Some(v) => {
                        if !full {
                            let b = flip(&p.deferred.to_bytes(), i);
                            let e = parse_deferred::<E1::Scalar>(&b, k);
                            if guarded(|| e.verify(k)) == Ok(true) {
                                continue;
                            }
                        }
                        (v[i], format!("old deferred bit {}", i))
                    }
                    None => continue,
                }
            }
        };
        let mut f = frozen.clone();
        f.insert(at);
        w[at] = if w[at] == zero { one } else { zero };
        let bad = fix.around(&w, &[at]);
        ensure!(!bad.is_empty(), "flip/free", "{} occurs in no constraint; {}", what, d());
        if repaired(s, &fix, &mut w, &f, &bad, 6) {
            return fail("flip/repaired", format!("{} flipped: another assignment satisfies the circuit; {}", what, d()));
        }
        w[at] = if w[at] == zero { one } else { zero };
        cx.checks += 6;
    }
    cx.nontrivial();
    Ok(())
}
fn c30_flips<E1: PC, E2: PC + Curve<Base = <E1 as Curve>::Scalar>>(s: &mut Src, cx: &mut Cx) -> Res {
    let z = small(s);
    flips::<E1, E2>(s, cx, z, 60)
}
fn c30_wide(s: &mut Src, cx: &mut Cx) -> Res {
    let mut z = wide(s);
    z.bytes = z.bytes.max(1);
    if s.bool() {
        flips::<Ec0, Ec1>(s, cx, z, 150)
    } else {
        flips::<Ec1, Ec0>(s, cx, z, 150)
    }
}

fn main() {
    const SMALL: &str = "previous steps are proofs of a stand-in circuit with the recursive layout of public inputs: of the first 2^k - 2 of them for k = 4..6, of all for k = 15";
    hv::main(vec![
        Spec {
            id: "C29",
            rule: "an honest base case or an honest step after a natively accepted proof, synthesised, every constraint and public input checked",
            assumptions: &[SMALL],
            parts: vec![
                Part { name: "base-Ec0", tape: 400, quick: 12, thorough: 600, case: c29_base_0 },
                Part { name: "base-Ec1", tape: 400, quick: 12, thorough: 600, case: c29_base_1 },
                Part { name: "step-Ec0", tape: 3000, quick: 20, thorough: 1500, case: c29_step::<Ec0, Ec1> },
                Part { name: "step-Ec1", tape: 3000, quick: 20, thorough: 1500, case: c29_step::<Ec1, Ec0> },
                Part { name: "full", tape: 9000, quick: 2, thorough: 60, case: c29_wide },
            ],
        },
        Spec {
            id: "C30",
            rule: "one alteration (or a batch of bit flips) of a natively accepted step, synthesised and evaluated, then a search for another assignment with the same public data",
            assumptions: &[SMALL, "the search for other assignments repairs violated constraints one variable at a time; assignments that need coordinated changes may be missed"],
            parts: vec![
                Part { name: "alter-Ec0", tape: 3000, quick: 54, thorough: 2500, case: c30_alter::<Ec0, Ec1> },
                Part { name: "alter-Ec1", tape: 3000, quick: 54, thorough: 2500, case: c30_alter::<Ec1, Ec0> },
                Part { name: "base-Ec0", tape: 3000, quick: 30, thorough: 2500, case: c30_base::<Ec0, Ec1> },
                Part { name: "base-Ec1", tape: 3000, quick: 30, thorough: 2500, case: c30_base::<Ec1, Ec0> },
                Part { name: "payload-Ec0", tape: 3000, quick: 4, thorough: 200, case: c30_payload::<Ec0, Ec1> },
                Part { name: "payload-Ec1", tape: 3000, quick: 4, thorough: 200, case: c30_payload::<Ec1, Ec0> },
                Part { name: "flips-Ec0", tape: 6000, quick: 9, thorough: 600, case: c30_flips::<Ec0, Ec1> },
                Part { name: "flips-Ec1", tape: 6000, quick: 9, thorough: 600, case: c30_flips::<Ec1, Ec0> },
                Part { name: "full", tape: 9000, quick: 2, thorough: 60, case: c30_wide },
            ],
        },
    ]);
}
