//! C34 chains of recursive proofs, created and verified by the public interface. The verification circuit ends after its
//! public inputs (a hook), else no proof of it could be made here; C29 and C30 cover what it goes on to check.
use halo::dev::*;
use halo::*;
use hv::defer::*;
use hv::ensure;
use hv::gen::*;
use hv::params::params;
use hv::prog::Wires;
use hv::proto::*;
use hv::*;
use std::sync::atomic::Ordering::SeqCst;

/// Size of the parameters: 15, enough for the public inputs, or 22, for the whole circuit.
static SIZE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(15);
fn size() -> usize {
    SIZE.load(SeqCst)
}

/// An application: the new payload is the old one changed at the given bits.
#[derive(Clone)]
struct App {
    base: Vec<u8>,
    flip: Vec<u8>,
}
impl App {
    fn next(&self, old: &[u8]) -> Vec<u8> {
        old.iter().zip(&self.flip).map(|(a, b)| a ^ b).collect()
    }
}
impl<F: Field> RecursiveCircuit<F> for App {
    fn base_payload(&self) -> Vec<bool> {
        bits_of(&self.base)
    }
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS, old: &[AllocatedBit], new: &[AllocatedBit]) -> Result<(), SynthesisError> {
        for (i, f) in bits_of(&self.flip).iter().enumerate() {
            let (o, n) = (old[i].get_variable(), new[i].get_variable());
            if *f {
                cs.enforce_zero(LinearCombination::from(o) + n - CS::ONE);
            } else {
                cs.enforce_zero(LinearCombination::from(o) - n);
            }
        }
        Ok(())
    }
}
fn bits_of(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect()
}
fn bytes<F: PF>(v: &F, n: usize) -> Vec<u8> {
    let b = val(v);
    (0..n).map(|i| (b[i / 8] >> (8 * (i % 8))) as u8).collect()
}
fn pt_bytes<C: PC>(p: &C) -> Vec<u8> {
    let mut o = vec![];
    match pt(p) {
        Some((x, y)) => {
            o.extend(bytes(&fe::<C::Base>(&x), 32));
            o.extend(bytes(&fe::<C::Base>(&y), 32));
        }
        None => o.extend(vec![0; 64]),
    }
    o
}
/// The encodings the public inputs consist of, by the field layout.
fn left_bytes<C: PC>(l: &Leftovers<C>) -> Vec<u8> {
    let mut o = pt_bytes(&l.s_new_commitment);
    o.extend(bytes(&l.y_new, 16));
    o.extend(pt_bytes(&l.g_new));
    for c in &l.challenges_sq_packed_new {
        o.extend(bytes(c, 16));
    }
    o
}
fn def_bytes<F: PF>(d: &Deferred<F>) -> Vec<u8> {
    let mut o = vec![];
    for v in [&d.x, &d.y_old, &d.y_cur, &d.y_new] {
        o.extend(bytes(v, 16));
    }
    for v in [&d.ky_opening, &d.tx_positive_opening, &d.tx_negative_opening, &d.sx_cur_opening, &d.rx_opening, &d.rxy_opening] {
        o.extend(bytes(v, 32));
    }
    for v in &d.challenges_sq_packed_old {
        o.extend(bytes(v, 16));
    }
    o.extend(bytes(&d.gx_old_opening, 32));
    for v in &d.challenges_sq_packed_new {
        o.extend(bytes(v, 16));
    }
    for v in [&d.b_x, &d.b_xy, &d.b_y_old, &d.b_y_cur, &d.b_y_new] {
        o.extend(bytes(v, 32));
    }
    o
}

/// The parts of a recursive proof.
struct Parts<E1: Curve, E2: Curve> {
    proof: Proof<E1>,
    old1: Leftovers<E1>,
    old2: Leftovers<E2>,
    deferred: Deferred<E2::Scalar>,
    payload: Vec<u8>,
}
impl<E1: PC, E2: PC> Clone for Parts<E1, E2> {
    fn clone(&self) -> Self {
        Parts { proof: self.proof.clone(), old1: self.old1.clone(), old2: self.old2.clone(), deferred: self.deferred.clone(), payload: self.payload.clone() }
    }
}
macro_rules! pair {
    ($(#[$m:meta])* fn $f:ident ( $($a:tt)* ) -> $r:ty $b:block) => {
        $(#[$m])*
        fn $f<E1, E2>($($a)*) -> $r
        where
            E1: PC + Curve<Base = <E2 as Curve>::Scalar>,
            E2: PC + Curve<Base = <E1 as Curve>::Scalar>,
        $b
    };
}
impl<E1: PC, E2: PC> Parts<E1, E2> {
    fn of(r: &RecursiveProof<E1, E2>) -> Self {
        let (p, a, b, d, w) = r.verif_parts();
        Parts { proof: p.clone(), old1: a.clone(), old2: b.clone(), deferred: d.clone(), payload: w.to_vec() }
    }
    fn whole(&self) -> RecursiveProof<E1, E2> {
        RecursiveProof::verif_new(self.proof.clone(), self.old1.clone(), self.old2.clone(), self.deferred.clone(), self.payload.clone())
    }
    fn public(&self) -> Vec<bool> {
        let mut b = self.payload.clone();
        b.extend(left_bytes(&self.old1));
        b.extend(left_bytes(&self.old2));
        b.extend(def_bytes(&self.deferred));
        bits_of(&b)
    }
}
fn same_left<C: PC>(a: &Leftovers<C>, b: &Leftovers<C>) -> bool {
    a.s_new_commitment == b.s_new_commitment && a.y_new == b.y_new && a.g_new == b.g_new && a.challenges_sq_packed_new == b.challenges_sq_packed_new
}
fn same_def<F: PF>(a: &Deferred<F>, b: &Deferred<F>) -> bool {
    let (mut a, mut b) = (a.clone(), b.clone());
    a.challenges_sq_packed_old == b.challenges_sq_packed_old
        && a.challenges_sq_packed_new == b.challenges_sq_packed_new
        && slots(&mut a).iter().zip(slots(&mut b).iter()).all(|(x, y)| *x.1 == *y.1)
}
pair! {
    /// the verdict of the interface; an error or panic is a refusal
    fn accepted(p: &Parts<E1, E2>, app: &App) -> Result<bool, String> {
        match guarded(|| p.whole().verify(params::<E1>(size()), params::<E2>(size()), app)) {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(format!("{:?}", e)),
            Err(e) => Err(e),
        }
    }
}
struct Seen<C: PC> {
    ok: bool,
    new: Leftovers<C>,
    deferred: Deferred<C::Scalar>,
}
pair! {
    /// what the verifier of single proofs makes of the inner proof
    fn seen(p: &Parts<E1, E2>, app: &App) -> Result<Seen<E1>, String> {
        let par = params::<E1>(size());
        let c = verif_circuit::<E1, E2, App>(params::<E2>(size()), None, app, None, &p.payload, None, None, None, None);
        let bits = p.public();
        let ins: Vec<E1::Scalar> = bits.iter().map(|b| E1::Scalar::from_u64(*b as u64)).collect();
        let mut kc = par.generators[1];
        for (b, g) in bits.iter().zip(&par.generators[2..]) {
            if *b {
                kc = kc + *g;
            }
        }
        let (ok, new, deferred, _) = guarded(|| p.proof.verify::<_, Basic>(&p.old1, par, &c, &ins, Some(kc)))?.map_err(|e| format!("{:?}", e))?;
        Ok(Seen { ok, new, deferred })
    }
}
fn gen_app(s: &mut Src) -> App {
    let n = match s.weighted(&[1, 4, 1]) {
        0 => 0,
        1 => 1 + s.below(40),
        _ => 64 + s.below(280),
    };
    let some = s.u8();
    App { base: (0..n).map(|_| s.u8()).collect(), flip: (0..n).map(|i| if n > 40 && i > 8 { some } else { s.u8() }).collect() }
}
fn alter_left<C: PC>(s: &mut Src, par: &Params<C>, l: &mut Leftovers<C>) -> String {
    match s.below(4) {
        0 => l.s_new_commitment = alter_pt(s, par, l.s_new_commitment, &par.generators),
        1 => l.g_new = alter_pt(s, par, l.g_new, &par.generators),
        2 => {
            let b = val(&l.y_new);
            l.y_new = C::Scalar::from_u128((b[0] as u128 | (b[1] as u128) << 64) ^ 1 << s.below(128));
        }
        _ => {
            let i = s.below(par.k);
            l.challenges_sq_packed_new[i] = alter_packed(s, l.challenges_sq_packed_new[i]);
            return format!("challenge {}", i);
        }
    }
    "a field".into()
}
fn alter_def<F: PF>(s: &mut Src, d: &mut Deferred<F>) -> String {
    match s.below(5) {
        0 => {
            let i = s.below(size());
            if s.bool() {
                d.challenges_sq_packed_old[i] = alter_packed(s, d.challenges_sq_packed_old[i]);
            } else {
                d.challenges_sq_packed_new[i] = alter_packed(s, d.challenges_sq_packed_new[i]);
            }
            if s.bool() {
                derive(d);
            }
            "a packed challenge".into()
        }
        _ => {
            let i = s.below(16);
            let mut sl = slots(d);
            let name = sl[i].0;
            let x = alter_sc(s, *sl[i].1, &[F::one()]);
            *sl[i].1 = if i < 4 { F::from_u128((val(&x)[0] as u128) << 1 | 1) } else { x };
            name.into()
        }
    }
}

pair! {
    /// One more step, and what must be true of it.
    fn step(cx: &mut Cx, old: Option<(&RecursiveProof<E2, E1>, &Seen<E2>)>, app: &App, payload: &[u8], len: usize) -> Result<(RecursiveProof<E1, E2>, Seen<E1>), Fail> {
        let (p1, p2) = (params::<E1>(size()), params::<E2>(size()));
        let d = || format!("step {} on {}, payload {:02x?}", len, E1::NAME, payload);
        let r = match guarded(|| RecursiveProof::<E1, E2>::create_proof(p1, p2, old.map(|o| o.0), app, payload)) {
            Ok(Ok(r)) => r,
            x => {
                let e = match x {
                    Ok(Err(e)) => format!("{:?}", e),
                    Err(e) => e,
                    _ => String::new(),
                };
                return Err(Fail { sig: "create".into(), msg: format!("no proof: {}; {}", e, d()) });
            }
        };
        let p = Parts::of(&r);
        let bad = |sig: &str, what: &str| Err(Fail { sig: sig.into(), msg: format!("{}; {}", what, d()) });
        if p.payload != payload {
            return bad("payload", "the proof carries another payload");
        }
        let (want1, want2, wantd) = match old {
            None => (Leftovers::dummy(p1), Leftovers::dummy(p2), Deferred::dummy(size())),
            Some((o, v)) => (Parts::of(o).old2, v.new.clone(), v.deferred.clone()),
        };
        if !same_left(&p.old1, &want1) {
            return bad("old1", "the leftovers to prove against are not those the previous proof carries");
        }
        if !same_left(&p.old2, &want2) {
            return bad("old2", "the leftovers carried are not those of the previous proof");
        }
        if !same_def(&p.deferred, &wantd) {
            return bad("deferred", "the deferred data carried is not that of the previous proof");
        }
        let v = match seen(&p, app) {
            Ok(v) => v,
            Err(e) => return bad("inner", &e),
        };
        if !v.ok {
            return bad("inner", "the inner proof does not verify");
        }
        match accepted(&p, app) {
            Ok(true) => {}
            x => return bad("refused", &format!("an honest chain is refused ({:?})", x)),
        }
        cx.checks += 6;
        Ok((r, v))
    }
}
pair! {
    fn chain_from(s: &mut Src, cx: &mut Cx, old: Option<(&RecursiveProof<E2, E1>, &Seen<E2>)>, app: &App, payload: Vec<u8>, len: usize, left: usize) -> Res {
        let payload = app.next(&payload);
        let (r, v) = step::<E1, E2>(cx, old, app, &payload, len)?;
        if left > 0 {
            return chain_from::<E2, E1>(s, cx, Some((&r, &v)), app, payload, len + 1, left - 1);
        }
        cx.nontrivial();
        cx.label(["", "one step", "two steps", "three steps", "four steps"][len.min(4)]);
        let p = Parts::of(&r);
        for _ in 0..6 {
            let mut q = p.clone();
            let what = match s.below(6) {
                0 | 1 => {
                    let (mut pts, mut scs) = flat(&p.proof);
                    if s.bool() {
                        let i = if s.bool() { s.below(7) } else { s.below(pts.len()) };
                        let o = pts.clone();
                        pts[i] = alter_pt(s, params::<E1>(size()), pts[i], &o);
                        q.proof = unflat(&p.proof, &pts, &scs);
                        format!("point {} of the proof", i)
                    } else {
                        let i = if s.bool() { s.below(12) } else { s.below(scs.len()) };
                        let o = scs.clone();
                        scs[i] = alter_sc(s, scs[i], &o);
                        q.proof = unflat(&p.proof, &pts, &scs);
                        format!("scalar {} of the proof", i)
                    }
                }
                2 if !p.payload.is_empty() => {
                    let i = match s.below(3) {
                        0 => 8 * p.payload.len() - 1 - s.below(8),
                        _ => s.below(8 * p.payload.len()),
                    };
                    q.payload[i / 8] ^= 1 << (i % 8);
                    format!("payload bit {}", i)
                }
                2 | 3 => format!("leftovers proved against: {}", alter_left(s, params::<E1>(size()), &mut q.old1)),
                4 => format!("leftovers carried: {}", alter_left(s, params::<E2>(size()), &mut q.old2)),
                _ => format!("deferred data: {}", alter_def(s, &mut q.deferred)),
            };
            if q.public() == p.public() && flat(&q.proof) == flat(&p.proof) {
                continue;
            }
            if accepted(&q, app) == Ok(true) {
                return fail("altered", format!("accepted although altered ({}); chain of {} ending on {}, payload {:02x?}", what, len, E1::NAME, payload));
            }
            cx.checks += 1;
        }
        Ok(())
    }
}
/// Two steps of the whole circuit, at the size the examples use.
fn c34_full<const FIRST: bool>(s: &mut Src, cx: &mut Cx) -> Res {
    VERIF_PUBLIC_ONLY.store(false, SeqCst);
    SIZE.store(22, SeqCst);
    let app = gen_app(s);
    cx.sample(|| format!("whole circuit, two steps from {}, base payload {:02x?}", if FIRST { "Ec0" } else { "Ec1" }, app.base));
    let r = if FIRST {
        chain_from::<Ec0, Ec1>(s, cx, None, &app, app.base.clone(), 1, 1)
    } else {
        chain_from::<Ec1, Ec0>(s, cx, None, &app, app.base.clone(), 1, 1)
    };
    SIZE.store(15, SeqCst);
    r
}
fn c34_chain<const FIRST: bool>(s: &mut Src, cx: &mut Cx) -> Res {
    VERIF_PUBLIC_ONLY.store(true, SeqCst);
    let app = gen_app(s);
    let len = 1 + s.weighted(&[1, 3, 3, 1]);
    cx.sample(|| format!("chain of {} from {}, base payload {:02x?}", len, if FIRST { "Ec0" } else { "Ec1" }, app.base));
    if FIRST {
        chain_from::<Ec0, Ec1>(s, cx, None, &app, app.base.clone(), 1, len - 1)
    } else {
        chain_from::<Ec1, Ec0>(s, cx, None, &app, app.base.clone(), 1, len - 1)
    }
}

pair! {
    /// A step whose inner proof is good while what it carries along may not be.
    fn carried(s: &mut Src, cx: &mut Cx, deferred: bool) -> Res {
        let (p1, p2) = (params::<E1>(size()), params::<E2>(size()));
        let app = gen_app(s);
        let payload = app.next(&app.base);
        let mut d = if s.chance(1, 4) { Deferred::dummy(size()) } else { gen_deferred_of::<E2::Scalar>(s, size(), true) };
        let mut l2 = Leftovers::dummy(p2);
        let what = match if s.chance(1, 10) { 0 } else if deferred { 1 } else { 2 + s.below(2) } {
            0 => "nothing".to_string(),
            1 => {
                let good = d.clone();
                let w = alter_def(s, &mut d);
                if def_bytes(&good) == def_bytes(&d) {
                    return Ok(());
                }
                if s.chance(1, 4) && !w.starts_with("b_") && !w.starts_with("gx") && !w.starts_with("a packed") {
                    derive(&mut d);
                }
                format!("deferred data: {}", w)
            }
            2 => {
                l2.s_new_commitment = alter_pt(s, p2, l2.s_new_commitment, &p2.generators);
                "s_new carried".into()
            }
            _ => {
                if s.bool() {
                    l2.g_new = alter_pt(s, p2, l2.g_new, &p2.generators);
                } else {
                    let i = s.below(size());
                    l2.challenges_sq_packed_new[i] = alter_packed(s, l2.challenges_sq_packed_new[i]);
                }
                "g_new carried".into()
            }
        };
        let want = deferred_valid(&d, size()) && (what == "nothing" || what.starts_with("deferred"));
        let desc = || format!("step on {} carrying {} ({})", E1::NAME, what, if want { "good" } else { "bad" });
        cx.sample(desc);
        let old1 = Leftovers::dummy(p1);
        let c = verif_circuit::<E1, E2, App>(p2, Some(true), &app, None, &payload, None, Some(old1.clone()), Some(l2.clone()), Some(d.clone()));
        let (proof, _) = match guarded(|| Proof::new::<_, Basic>(p1, &c, &old1)) {
            Ok(Ok(x)) => x,
            _ => return fail("carried/create", format!("no proof; {}", desc())),
        };
        let p = Parts { proof, old1, old2: l2, deferred: d, payload: payload.clone() };
        let v = accepted(&p, &app);
        cx.nontrivial();
        cx.checks += 1;
        ensure!((v == Ok(true)) == want, "carried", "verdict {:?}; {}", v, desc());
        cx.label(if want { "carries good data" } else { "carries bad data" });
        Ok(())
    }
}
fn c34_carried<const DEFERRED: bool>(s: &mut Src, cx: &mut Cx) -> Res {
    VERIF_PUBLIC_ONLY.store(true, SeqCst);
    if s.bool() {
        carried::<Ec0, Ec1>(s, cx, DEFERRED)
    } else {
        carried::<Ec1, Ec0>(s, cx, DEFERRED)
    }
}

pair! {
    /// A step by a dishonest prover: the inner proof shows public inputs the assignment does not have.
    fn lied(s: &mut Src, cx: &mut Cx, lie: Lie) -> Res {
        let (p1, p2) = (params::<E1>(size()), params::<E2>(size()));
        let mut app = gen_app(s);
        if app.base.is_empty() {
            app = App { base: vec![s.u8()], flip: vec![s.u8()] };
        }
        let payload = app.next(&app.base);
        let (old1, l2, d) = (Leftovers::dummy(p1), Leftovers::dummy(p2), Deferred::dummy(size()));
        let truth = s.chance(1, 30);
        let lie = if truth { Lie::None } else { lie };
        let desc = || format!("step on {} by a dishonest prover ({:?}, {} statement)", E1::NAME, lie, if truth { "true" } else { "false" });
        cx.sample(desc);
        let c = verif_circuit::<E1, E2, App>(p2, Some(true), &app, None, &payload, None, Some(old1.clone()), Some(l2.clone()), Some(d.clone()));
        let mut w = Wires::with_witness();
        Basic::synthesize(&mut w, &c).expect("synthesis");
        let mut p = Parts { proof: hv::proto::dummy_proof(p1), old1, old2: l2, deferred: d, payload: payload.clone() };
        let mut bits = p.public();
        if !truth {
            let i = s.below(8 * p.payload.len());
            p.payload[i / 8] ^= 1 << (i % 8);
            bits = p.public();
        }
        let ins: Vec<E1::Scalar> = bits.iter().map(|b| E1::Scalar::from_u64(*b as u64)).collect();
        let o = prove(p1, &w, &ins, &p.old1, None, lie, IpaLie::None, E1::Scalar::one()).expect("own prover");
        p.proof = o.proof;
        let v = accepted(&p, &app);
        cx.nontrivial();
        cx.checks += 1;
        ensure!((v == Ok(true)) == truth, "lied", "verdict {:?}; {}", v, desc());
        let sn = seen(&p, &app).map_err(|e| Fail { sig: "lied".into(), msg: e })?;
        ensure!(sn.ok, "lied/opening", "the opening argument does not hold; {}", desc());
        cx.checks += 1;
        Ok(())
    }
}
fn c34_lied<const LEFT: bool>(s: &mut Src, cx: &mut Cx) -> Res {
    VERIF_PUBLIC_ONLY.store(true, SeqCst);
    let lie = if LEFT { Lie::SCurCNewS } else { Lie::None };
    if s.bool() {
        lied::<Ec0, Ec1>(s, cx, lie)
    } else {
        lied::<Ec1, Ec0>(s, cx, lie)
    }
}

fn main() {
    const HOOK: &str = "the verification circuit ends once its public inputs are allocated (hook), so that a proof of it fits into k = 15; what the circuit checks is C29 and C30";
    hv::main(vec![Spec {
        id: "C34",
        rule: "a chain of steps created by the interface and verified after every step, then altered; or one step carrying bad data, or by a dishonest prover",
        assumptions: &[HOOK],
        parts: vec![
            Part { name: "full-Ec0", tape: 3000, quick: 0, thorough: 1, case: c34_full::<true> },
            Part { name: "full-Ec1", tape: 3000, quick: 0, thorough: 1, case: c34_full::<false> },
            Part { name: "chain-Ec0", tape: 3000, quick: 2, thorough: 150, case: c34_chain::<true> },
            Part { name: "chain-Ec1", tape: 3000, quick: 2, thorough: 150, case: c34_chain::<false> },
            Part { name: "carried-deferred", tape: 3000, quick: 5, thorough: 200, case: c34_carried::<true> },
            Part { name: "carried-leftovers", tape: 3000, quick: 3, thorough: 100, case: c34_carried::<false> },
            Part { name: "lied-relation", tape: 3000, quick: 1, thorough: 50, case: c34_lied::<false> },
            Part { name: "lied-leftovers", tape: 3000, quick: 1, thorough: 50, case: c34_lied::<true> },
        ],
    }]);
}
