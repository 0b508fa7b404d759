//! C23 openings, C24 completeness, C25 alterations, C26 false statements, C27 deferred checks, C28 encodings, C33 transcript
use halo::*;
use hv::defer::*;
use hv::ensure;
use hv::gen::*;
use hv::params::params;
use hv::prog::*;
use hv::proto::*;
use hv::sponge::Sponge;
use hv::*;

type Sc<C> = <C as Curve>::Scalar;

/// Leftovers that are valid for the recorded circuit without any proof behind them.
fn valid_leftovers<C: PC>(s: &mut Src, par: &Params<C>, w: &Wires<Sc<C>>) -> Leftovers<C> {
    let y = match s.weighted(&[4, 1, 1]) {
        0 => challenge_like(s),
        1 => C::Scalar::zero(),
        _ => C::Scalar::one(),
    };
    let ch: Vec<Sc<C>> = (0..par.k).map(|_| packed(s)).collect();
    Leftovers {
        s_new_commitment: commit(&par.generators, &w.sx(par.n, y)),
        y_new: y,
        g_new: commit(&par.generators, &weights(&roots(&ch).unwrap())),
        challenges_sq_packed_new: ch,
    }
}
fn old_leftovers<C: PC>(s: &mut Src, cx: &mut Cx, par: &Params<C>, w: &Wires<Sc<C>>) -> Leftovers<C> {
    if s.chance(1, 3) {
        cx.label("dummy leftovers");
        Leftovers::dummy(par)
    } else {
        valid_leftovers(s, par, w)
    }
}
/// (proof, deferred, leftovers) verdicts; a panic counts as a refusal
fn verdict<C: PC>(proof: &Proof<C>, old: &Leftovers<C>, par: &Params<C>, circ: &Prog<Sc<C>>, ins: &[Sc<C>], kc: Option<C>) -> [bool; 3] {
    guarded(|| match proof.verify::<_, Basic>(old, par, circ, ins, kc) {
        Ok((ok, l, d, _)) => [ok, ok && d.verify(par.k), ok && l.verify::<_, Basic>(par, circ).unwrap_or(false)],
        Err(_) => [false; 3],
    })
    .unwrap_or([false; 3])
}
fn accepted(v: [bool; 3]) -> bool {
    v.iter().all(|x| *x)
}
fn small_prog<F: PF>(s: &mut Src, cx: &mut Cx) -> (Prog<F>, usize) {
    let len = s.range(0, 8);
    let mut p = gen_prog::<F>(s, len);
    let k = s.weighted(&[5, 3, 1]) + 4;
    let (n, q) = ((1 << k) / 4 - 1, (1 << k) - 1);
    trim(&mut p, n, q);
    if s.chance(1, 4) {
        cx.label("exactly full");
        fill(s, &mut p, n, q);
    }
    (p, k)
}
fn wires<F: PF>(p: &Prog<F>) -> Wires<F> {
    let mut w = Wires::with_witness();
    Basic::synthesize(&mut w, p).expect("synthesis");
    w
}

// ------------------------------------------------------------------ C23

struct Claim<C: PC> {
    poly: Vec<Sc<C>>,
    right: bool,
    point: Sc<C>,
    commitment: C,
    opening: Sc<C>,
}
fn gen_poly<F: PF>(s: &mut Src, len: usize) -> Vec<F> {
    match s.weighted(&[6, 1, 1, 1]) {
        0 if len > 64 => {
            let tape = grown(s.u64(), 40 * len);
            let s = &mut Src::new(&tape);
            (0..len).map(|_| gen_fe_fast(s)).collect()
        }
        0 => (0..len).map(|_| gen_fe_fast(s)).collect(),
        1 => vec![F::zero(); len],
        2 => vec![gen_fe_fast(s); len],
        _ => {
            let mut v = vec![F::zero(); len];
            if len > 0 {
                let i = s.below(len);
                v[i] = nzf(s);
            }
            v
        }
    }
}
fn gen_claims<C: PC>(s: &mut Src, par: &Params<C>) -> Result<Vec<Claim<C>>, Fail> {
    // not 3: with 24 absorbed elements the value that is varied to get a square challenge sits in the first slot of a
    // block, which the sponge ignores (finding C12 slot0), and the search for a square never ends
    let m = s.pick(&[1usize, 1, 2, 4, 5, 5]);
    let mut v: Vec<Claim<C>> = vec![];
    for _ in 0..m {
        let len = match s.weighted(&[3, 3, 1]) {
            0 => par.d,
            1 => s.range(1, par.d),
            _ => 3 * par.n + 1,
        };
        let poly: Vec<Sc<C>> = if !v.is_empty() && s.chance(1, 3) { v[s.below(v.len())].poly.clone() } else { gen_poly(s, len) };
        let right = s.bool();
        let point: Sc<C> = match s.weighted(&[5, 1, 1]) {
            0 => gen_fe_fast(s),
            1 => C::Scalar::zero(),
            _ => C::Scalar::one(),
        };
        let at = if right { par.d - poly.len() } else { 0 };
        let want = commit(&par.generators[at..], &poly);
        let commitment = par.commit(&poly, right);
        ensure!(commitment == want, "commit", "{}: commitment to {} coefficients (right edge {}) differs from their combination of the generators", C::NAME, poly.len(), right);
        let opening = par.compute_opening(&poly, point, right);
        let w = eval(&poly, point) * pw(point, at);
        ensure!(opening == w, "evaluation", "{}: value of a polynomial with {} coefficients (right edge {}) at {:?} is {:?}, expected {:?}", C::NAME, poly.len(), right, point, opening, w);
        v.push(Claim { poly, right, point, commitment, opening });
    }
    Ok(v)
}
/// verdict of the opening argument, with the linear-time check of the folded generator
fn open_ok<C: PC>(o: &MultiPolynomialOpening<C>, claims: &[(C, Sc<C>, Sc<C>, bool)], par: &Params<C>, pre: &[C::Base]) -> (bool, bool, Vec<Sc<C>>) {
    let r = guarded(|| {
        let mut t = halo::rescue::Rescue::<C::Base>::new();
        for x in pre {
            t.absorb(*x);
        }
        let inst: Vec<_> = claims.iter().map(|c| PolynomialOpening::verif_new(c.0, c.1, c.2, c.3)).collect();
        let (ok, ch, g, _) = o.verify_proof(&mut t, &inst, par.k);
        let rt = roots(&ch).expect("challenges are squares");
        (ok, g == commit(&par.generators, &weights(&rt)) && g == o.g, ch)
    });
    r.unwrap_or((false, false, vec![]))
}
fn c23<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.weighted(&[4, 2, 1]) + 4;
    c23_of::<C>(s, cx, k)
}
fn c23_wide<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.range(7, if thorough() { 11 } else { 9 });
    c23_of::<C>(s, cx, k)
}
fn c23_of<C: PC>(s: &mut Src, cx: &mut Cx, k: usize) -> Res {
    let par = params::<C>(k);
    let claims = gen_claims::<C>(s, par)?;
    let pre: Vec<C::Base> = (0..s.below(3)).map(|_| gen_fe_fast(s)).collect();
    let d = || format!("{} k = {}, {} claims of lengths {:?}", C::NAME, k, claims.len(), claims.iter().map(|c| c.poly.len()).collect::<Vec<_>>());
    cx.sample(d);
    let list: Vec<_> = claims.iter().map(|c| (c.commitment, c.opening, c.point, c.right)).collect();
    // the prover under test
    let mut t = halo::rescue::Rescue::<C::Base>::new();
    for x in &pre {
        t.absorb(*x);
    }
    let inst: Vec<_> = claims.iter().map(|c| (PolynomialOpening::verif_new(c.commitment, c.opening, c.point, c.right), &c.poly[..])).collect();
    let (o, ch, g) = MultiPolynomialOpening::new_proof(&mut t, &inst, &par.generators, k);
    let (ok, fold, vch) = open_ok(&o, &list, par, &pre);
    ensure!(ok && fold, "complete", "a true opening is refused ({}, folded generator {}); {}", ok, fold, d());
    ensure!(ch == vch && g == o.g, "agree", "prover and verifier derive different challenges or generators; {}", d());
    cx.checks += 3;
    // an independent prover
    let mk = |lie: IpaLie, delta: Sc<C>, list: &[(C, Sc<C>, Sc<C>, bool)]| {
        let mut t = Sponge::<C::Base>::new();
        for x in &pre {
            t.absorb(*x);
        }
        let inst: Vec<Instance<C>> = claims
            .iter()
            .zip(list)
            .map(|(c, l)| {
                let mut poly = vec![C::Scalar::zero(); par.d];
                let at = if c.right { par.d - c.poly.len() } else { 0 };
                poly[at..at + c.poly.len()].copy_from_slice(&c.poly);
                Instance { commitment: l.0, opening: l.1, point: l.2, poly }
            })
            .collect();
        ipa(&mut t, &inst, &par.generators, k, lie, delta).ip
    };
    let delta: Sc<C> = nzf(s);
    if s.chance(1, 4) {
        let h = mk(IpaLie::None, delta, &list);
        let (ok, fold, _) = open_ok(&h, &list, par, &pre);
        ensure!(ok && fold, "complete/independent", "an opening by an independent prover is refused ({}, folded generator {}); {}", ok, fold, d());
    }
    // lies that leave everything else consistent
    let m = claims.len();
    let (j, i) = (s.below(m), s.below(k));
    for _ in 0..2 {
        let mut l2 = list.clone();
        let (lie, what) = match s.below(13) {
            0 => (IpaLie::L(i, j), "L"),
            1 => (IpaLie::R(i, j), "R"),
            2 => (IpaLie::SmallL(i, j), "l"),
            3 => (IpaLie::SmallR(i, j), "r"),
            4 => (IpaLie::A(j), "a"),
            5 => (IpaLie::G, "g"),
            6 => (IpaLie::Poly(j), "polynomial"),
            7 => {
                l2[j].1 += delta;
                (IpaLie::None, "evaluation")
            }
            8 => {
                l2[j].2 += delta;
                (IpaLie::None, "point")
            }
            9 => {
                l2[j].0 = l2[j].0 + par.generators[s.below(par.d)] * delta;
                (IpaLie::None, "commitment")
            }
            10 | 11 if !bool::from(l2[j].1.is_zero()) => {
                l2[j].1 = C::Scalar::zero() - l2[j].1;
                (if s.bool() { IpaLie::NegB(j) } else { IpaLie::NegP(j) }, "sign")
            }
            _ => {
                l2[j].1 += delta;
                (IpaLie::GFor(j), "evaluation with a matching generator")
            }
        };
        cx.label(what);
        if what == "point" {
            // a constant polynomial has the same value everywhere
            let c = &claims[j];
            let at = if c.right { par.d - c.poly.len() } else { 0 };
            if eval(&c.poly, l2[j].2) * pw(l2[j].2, at) == l2[j].1 {
                continue;
            }
        }
        let o = match guarded(|| mk(lie, delta, &l2)) {
            Ok(o) => o,
            Err(_) => continue,
        };
        if what == "evaluation with a matching generator" && m == 1 {
            let (ok, fold, _) = open_ok(&o, &l2, par, &pre);
            ensure!(!fold, "binding/fold", "a generator chosen to fit a false evaluation passes the fold check; {}", d());
            let _ = ok;
        }
        if what == "g" && claims.iter().all(|c| c.poly.iter().all(|x| bool::from(x.is_zero()))) {
            // all-zero polynomials say nothing about the generator; the fold check does
            let (_, fold, _) = open_ok(&o, &l2, par, &pre);
            ensure!(!fold, "binding/fold", "a wrong generator passes the fold check; {}", d());
        }
        let (ok, fold, _) = open_ok(&o, &l2, par, &pre);
        ensure!(!(ok && fold), format!("binding/{}", what), "a false {} (claim {}, round {}, off by {:?}) is accepted; {}", what, j, i, delta, d());
        cx.checks += 1;
    }
    // altered components of the honest opening
    let mut o2 = o.clone();
    let q = rand_pt(s, par);
    let what = match s.below(6) {
        0 => {
            o2.rounds[i].L[j] = o2.rounds[i].L[j] + q;
            "L"
        }
        1 => {
            o2.rounds[i].R[j] = o2.rounds[i].R[j] + q;
            "R"
        }
        2 => {
            o2.rounds[i].l[j] += delta;
            "l"
        }
        3 => {
            o2.rounds[i].r[j] += delta;
            "r"
        }
        4 => {
            o2.a[j] += delta;
            "a"
        }
        _ => {
            o2.g = o2.g + q;
            "g"
        }
    };
    let (ok, fold, _) = open_ok(&o2, &list, par, &pre);
    ensure!(!(ok && fold), format!("altered/{}", what), "an opening with {} altered (claim {}, round {}) is accepted; {}", what, j, i, d());
    cx.checks += 1;
    if claims.iter().any(|c| c.poly.iter().filter(|x| !bool::from(x.is_zero())).count() > 1) {
        cx.nontrivial();
    }
    Ok(())
}
fn c23_linear<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.range(4, 7);
    let par = params::<C>(k);
    let len = s.range(1, par.d);
    let right = s.bool();
    let (a, b): (Vec<Sc<C>>, Vec<Sc<C>>) = (gen_poly(s, len), gen_poly(s, len));
    let (x, y): (Sc<C>, Sc<C>) = (gen_fe_fast(s), gen_fe_fast(s));
    let c: Vec<Sc<C>> = a.iter().zip(&b).map(|(p, q)| *p * x + *q * y).collect();
    cx.sample(|| format!("{} k = {}, {} coefficients, right edge {}", C::NAME, k, len, right));
    let cpus = s.pick(&[1usize, 2, 3, 5, 8, 13, 32]);
    let (ca, cb, cc) = with_cpus(cpus, || (par.commit(&a, right), par.commit(&b, right), par.commit(&c, right)));
    ensure!(cc == ca * x + cb * y, "linear", "{} commitment is not linear: {} coefficients, right edge {}, {} processors", C::NAME, len, right, cpus);
    let at: Sc<C> = gen_fe_fast(s);
    let o = |v: &[Sc<C>]| par.compute_opening(v, at, right);
    ensure!(o(&c) == o(&a) * x + o(&b) * y, "linear/evaluation", "{} evaluation is not linear: {} coefficients, right edge {}", C::NAME, len, right);
    cx.checks += 2;
    cx.nontrivial();
    Ok(())
}
fn c23_params<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.range(4, if thorough() { 10 } else { 8 });
    let cpus = s.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 11, 16, 31, 64, 100]);
    cx.sample(|| format!("{} k = {}, {} processors", C::NAME, k, cpus));
    let p: Params<C> = with_cpus(cpus, || Params::new(k));
    let d = 1usize << k;
    ensure!(p.k == k && p.d == d && p.n == d / 4 && p.generators.len() == d && p.generators_xy.len() == d, "params/size", "{} k = {}: k {} d {} n {} {} generators", C::NAME, k, p.k, p.d, p.n, p.generators.len());
    ensure!(p.g == C::one(), "params/g", "{} base point differs", C::NAME);
    let rc = C::rc();
    let mut seen = std::collections::HashSet::new();
    for (i, g) in p.generators.iter().enumerate() {
        let q = pt(g);
        ensure!(q.is_some() && rc.on_curve(&q), "params/point", "{} k = {}, {} processors: generator {} is {:?}", C::NAME, k, cpus, i, q);
        let q = q.unwrap();
        ensure!((val(&p.generators_xy[i].0), val(&p.generators_xy[i].1)) == q, "params/xy", "{} k = {}, {} processors: coordinates of generator {} differ", C::NAME, k, cpus, i);
        ensure!(seen.insert(q.0), "params/distinct", "{} k = {}, {} processors: generator {} repeats another up to sign", C::NAME, k, cpus, i);
        cx.checks += 3;
    }
    cx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ C24

fn same_proof<C: PC>(a: &Proof<C>, b: &Proof<C>) -> bool {
    flat(a) == flat(b)
}
/// every component of a proof, as points and scalars
const PT_NAMES: [&str; 7] = ["r commitment", "s(X, y_cur) commitment", "t+ commitment", "t- commitment", "c commitment", "s(X, y_new) commitment", "folded generator"];
const SC_NAMES: [&str; 7] = ["r(x)", "r(xy)", "s(x, y_old)", "s(x, y_cur)", "t+(x)", "t-(x)", "s(x, y_new)"];

/// Another satisfying assignment of the same circuit is hard to make in general; change free variables only.
fn c24<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let (p, k) = small_prog::<Sc<C>>(s, cx);
    c24_of::<C>(s, cx, p, k)
}
/// The smallest parameters that fit, or the next ones.
fn fit<F: PF>(s: &mut Src, p: &Prog<F>) -> usize {
    let w = p.record();
    (4..).find(|k| w.n < (1 << k) / 4 && w.lcs.len() < 1 << k).unwrap() + s.chance(1, 6) as usize
}
fn c24_large<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let (p, what) = gen_large::<Sc<C>>(s, if thorough() { 2000 } else { 500 });
    cx.label(what);
    let k = fit(s, &p);
    c24_of::<C>(s, cx, p, k)
}
fn c24_of<C: PC>(s: &mut Src, cx: &mut Cx, p: Prog<Sc<C>>, k: usize) -> Res {
    let par = params::<C>(k);
    let w = wires(&p);
    let ins = p.inputs();
    let d = || format!("{} k = {} circuit: {}", C::NAME, k, p.describe());
    cx.sample(d);
    let mut old = old_leftovers(s, cx, par, &w);
    let steps = s.weighted(&[3, 2, 1]) + 1;
    for step in 0..steps {
        let cpus = s.pick(&[1usize, 2, 3, 8, 13]);
        let r = with_cpus(cpus, || guarded(|| Proof::new::<_, Basic>(par, &p, &old)));
        let (proof, l) = match r {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return fail("prove", format!("proving a true statement fails with {:?}; {}", e, d())),
            Err(e) => return fail("prove", format!("proving a true statement panics: {}; {}", e, d())),
        };
        let cpus2 = s.pick(&[1usize, 2, 8]);
        let blank = p.blank();
        let r = with_cpus(cpus2, || guarded(|| proof.verify::<_, Basic>(&old, par, &blank, &ins, None)));
        let (ok, l2, def, _) = match r {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return fail("verify", format!("verifying a true statement fails with {:?}; {}", e, d())),
            Err(e) => return fail("verify", format!("verifying a true statement panics: {}; {}", e, d())),
        };
        ensure!(ok, "refused", "a proof of a true statement is refused at step {} of a chain; {}", step, d());
        ensure!(def.verify(k), "deferred", "the deferred data of a true proof does not verify (step {}); {}", step, d());
        ensure!(l2.verify::<_, Basic>(par, &blank).unwrap(), "leftovers", "the leftovers of a true proof do not verify (step {}); {}", step, d());
        ensure!(l == l2, "leftovers/differ", "prover and verifier have different leftovers (step {}); {}", step, d());
        ensure!(leftovers_valid(par, &w, &l), "leftovers/wrong", "the leftovers are not what the circuit and challenges determine (step {}); {}", step, d());
        cx.checks += 5;
        if step == 0 && s.chance(1, 3) {
            // with the commitment to the inputs supplied by the caller
            let kc = commit(&par.generators, &w.ky(&ins));
            ensure!(accepted(verdict(&proof, &old, par, &blank, &ins, Some(kc))), "k/supplied", "a true proof is refused when the commitment to the inputs is supplied; {}", d());
        }
        if s.chance(1, 4) {
            let cpus3 = s.pick(&[1usize, 4, 7]);
            let (again, _) = with_cpus(cpus3, || Proof::new::<_, Basic>(par, &p, &old)).expect("prove");
            ensure!(same_proof(&proof, &again), "processors", "the proof differs between {} and {} processors; {}", cpus, cpus3, d());
            cx.checks += 1;
        }
        if s.chance(1, 4) {
            let o = prove(par, &w, &ins, &old, None, Lie::None, IpaLie::None, C::Scalar::one()).expect("own prover");
            let v = verdict(&o.proof, &old, par, &blank, &ins, None);
            ensure!(accepted(v), "independent", "a proof by an independent prover is refused (proof, deferred, leftovers: {:?}); {}", v, d());
            cx.checks += 1;
        }
        old = l2;
    }
    cx.label(["1 step", "2 steps", "3 steps"][steps - 1]);
    if w.n > 1 {
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------ C25

fn c25<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let (p, k) = small_prog::<Sc<C>>(s, cx);
    c25_of::<C>(s, cx, p, k)
}
fn c25_large<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let (p, what) = gen_large::<Sc<C>>(s, if thorough() { 2000 } else { 400 });
    cx.label(what);
    let k = fit(s, &p);
    c25_of::<C>(s, cx, p, k)
}
fn c25_of<C: PC>(s: &mut Src, cx: &mut Cx, p: Prog<Sc<C>>, k: usize) -> Res {
    let par = params::<C>(k);
    let w = wires(&p);
    let ins = p.inputs();
    let blank = p.blank();
    let d = || format!("{} k = {} circuit: {}", C::NAME, k, p.describe());
    cx.sample(d);
    let old = old_leftovers(s, cx, par, &w);
    let (proof, _) = Proof::new::<_, Basic>(par, &p, &old).expect("prove");
    let v = verdict(&proof, &old, par, &blank, &ins, None);
    ensure!(accepted(v), "start", "a true proof is refused: {:?}; {}", v, d());
    let (pts, scs) = flat(&proof);
    let refuse = |what: String, pr: &Proof<C>, old: &Leftovers<C>, circ: &Prog<Sc<C>>, ins: &[Sc<C>], kc: Option<C>| -> Res {
        ensure!(!accepted(verdict(pr, old, par, circ, ins, kc)), format!("accepted/{}", what), "accepted although the {} was altered; {}", what, d());
        Ok(())
    };
    // proof components
    for _ in 0..3 {
        let (mut a, mut b) = (pts.clone(), scs.clone());
        let what = if s.bool() {
            let i = if s.bool() { s.below(7) } else { s.below(a.len()) };
            a[i] = alter_pt(s, par, a[i], &pts);
            if i < 7 {
                PT_NAMES[i].to_string()
            } else {
                format!("{} of round {} claim {}", if (i - 7) % 10 < 5 { "L" } else { "R" }, (i - 7) / 10, (i - 7) % 5)
            }
        } else {
            let i = if s.bool() { s.below(12) } else { s.below(b.len()) };
            b[i] = alter_sc(s, b[i], &scs);
            if i < 7 {
                SC_NAMES[i].to_string()
            } else if i < 12 {
                format!("final a of claim {}", i - 7)
            } else {
                format!("{} of round {} claim {}", if (i - 12) % 10 < 5 { "l" } else { "r" }, (i - 12) / 10, (i - 12) % 5)
            }
        };
        refuse(what, &unflat(&proof, &a, &b), &old, &blank, &ins, None)?;
        cx.checks += 1;
    }
    // dishonest but otherwise consistent provers with a true statement
    {
        let delta = nzf(s);
        let rxy_zero = bool::from(proof.rxy_opening.is_zero());
        let (lie, il) = if s.chance(1, 8) && !rxy_zero {
            (Lie::NegRxy, if s.bool() { IpaLie::NegB(1) } else { IpaLie::NegP(1) })
        } else if s.bool() {
            (OFFS[s.below(OFFS.len())], IpaLie::None)
        } else {
            let (j, i) = (s.below(5), s.below(k));
            (Lie::None, [IpaLie::L(i, j), IpaLie::R(i, j), IpaLie::SmallL(i, j), IpaLie::SmallR(i, j), IpaLie::A(j), IpaLie::G, IpaLie::Poly(j)][s.below(7)])
        };
        let o = prove(par, &w, &ins, &old, None, lie, il, delta).expect("own prover");
        // adding a multiple of the unused commitment position is a change of polynomial, hence refused as well
        refuse(format!("{:?} {:?} (consistently)", lie, il), &o.proof, &old, &blank, &ins, None)?;
        cx.checks += 1;
    }
    // everything around the proof
    match s.below(7) {
        0 if !ins.is_empty() => {
            let mut i2 = ins.clone();
            let i = s.below(ins.len());
            i2[i] = alter_sc(s, i2[i], &ins);
            refuse("public input".into(), &proof, &old, &blank, &i2, None)?;
            cx.label("input");
            let kc = commit(&par.generators, &w.ky(&ins));
            refuse("public input, with the right commitment supplied,".into(), &proof, &old, &blank, &i2, Some(kc))?;
        }
        1 => {
            let kc = commit(&par.generators, &w.ky(&ins));
            let q = alter_pt(s, par, kc, &pts);
            refuse("supplied commitment to the inputs".into(), &proof, &old, &blank, &ins, Some(q))?;
            // the same by a prover that follows it
            let o = prove(par, &w, &ins, &old, Some(q), Lie::None, IpaLie::None, C::Scalar::one()).expect("own prover");
            refuse("supplied commitment to the inputs (consistently)".into(), &o.proof, &old, &blank, &ins, Some(q))?;
            cx.label("k commitment");
        }
        2 => {
            let mut p2 = p.clone();
            let what = perturb(s, &mut p2);
            if what.starts_with("constraint") {
                let w2 = wires(&p2);
                if w2.sx(par.n, C::Scalar::from_u64(7)) != w.sx(par.n, C::Scalar::from_u64(7)) {
                    cx.label("circuit");
                    refuse("circuit".into(), &proof, &old, &p2.blank(), &ins, None)?;
                }
            }
        }
        3 => {
            let mut o2 = old.clone();
            let what = match s.below(4) {
                0 => {
                    o2.s_new_commitment = alter_pt(s, par, old.s_new_commitment, &pts);
                    "s commitment of the prior leftovers"
                }
                1 => {
                    o2.g_new = alter_pt(s, par, old.g_new, &pts);
                    "generator of the prior leftovers"
                }
                2 => {
                    o2.y_new = alter_sc(s, old.y_new, &scs);
                    "y of the prior leftovers"
                }
                _ => {
                    let i = s.below(k);
                    o2.challenges_sq_packed_new[i] = alter_packed(s, old.challenges_sq_packed_new[i]);
                    "challenge of the prior leftovers"
                }
            };
            cx.label("prior leftovers");
            refuse(what.into(), &proof, &o2, &blank, &ins, None)?;
            // a prover that was given those leftovers
            if !leftovers_valid(par, &w, &o2) {
                let o = prove(par, &w, &ins, &o2, None, Lie::None, IpaLie::None, C::Scalar::one()).expect("own prover");
                refuse(format!("{} (consistently)", what), &o.proof, &o2, &blank, &ins, None)?;
            }
        }
        5 => {
            // the shape of the opening argument
            let mut q = proof.clone();
            let ip = &mut q.inner_product;
            let i = s.below(k);
            let what = match s.below(6) {
                0 => {
                    ip.rounds.remove(i);
                    "a round missing"
                }
                1 => {
                    let r = ip.rounds[i].clone();
                    ip.rounds.insert(s.below(k + 1), r);
                    "a round too many"
                }
                2 => {
                    let j = (i + 1 + s.below(k - 1)) % k;
                    ip.rounds.swap(i, j);
                    "two rounds exchanged"
                }
                3 => {
                    ip.a.pop();
                    "a final coefficient missing"
                }
                4 => {
                    ip.rounds.clear();
                    "no rounds"
                }
                _ => {
                    let r = &mut ip.rounds[i];
                    match s.below(4) {
                        0 => drop(r.L.pop()),
                        1 => drop(r.R.pop()),
                        2 => drop(r.l.pop()),
                        _ => drop(r.r.pop()),
                    }
                    "a message of a round missing"
                }
            };
            if flat(&q) != (pts.clone(), scs.clone()) {
                cx.label("shape");
                refuse(format!("opening argument ({})", what), &q, &old, &blank, &ins, None)?;
            }
        }
        4 => {
            let o2 = valid_leftovers(s, par, &w);
            if o2 != old {
                cx.label("other valid leftovers");
                refuse("prior leftovers (for other valid ones)".into(), &proof, &o2, &blank, &ins, None)?;
            }
        }
        _ => {
            // components of another valid proof of the same circuit
            let o2 = valid_leftovers(s, par, &w);
            let (other, _) = Proof::new::<_, Basic>(par, &p, &o2).expect("prove");
            let (pa, sa) = flat(&other);
            let (mut a, mut b) = (pts.clone(), scs.clone());
            let cut = s.below(a.len() + b.len());
            let mut changed = false;
            for i in 0..a.len() + b.len() {
                if i == cut || (i > cut && s.chance(1, 8)) {
                    if i < a.len() {
                        changed |= a[i] != pa[i];
                        a[i] = pa[i];
                    } else {
                        changed |= b[i - a.len()] != sa[i - a.len()];
                        b[i - a.len()] = sa[i - a.len()];
                    }
                }
            }
            let mix = (a, b);
            if changed && mix != (pa, sa) {
                cx.label("mixed proofs");
                refuse("mixture of two proofs".into(), &unflat(&proof, &mix.0, &mix.1), &old, &blank, &ins, None)?;
            }
        }
    }
    cx.checks += 1;
    cx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ C26

fn c26<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let (mut p, k) = small_prog::<Sc<C>>(s, cx);
    let par = params::<C>(k);
    let what = if s.chance(5, 6) { perturb(s, &mut p) } else { "nothing" };
    let mut ins = p.inputs();
    if !ins.is_empty() && s.chance(1, 4) {
        let i = s.below(ins.len());
        ins[i] = alter_sc(s, ins[i], &[Sc::<C>::from_u64(2)]);
    }
    let m = p.model();
    let d = || format!("{} k = {}, false in {}, circuit: {}", C::NAME, k, what, p.describe());
    cx.sample(d);
    if m.holds(&ins) {
        cx.label("still true");
        return Ok(());
    }
    cx.label(what);
    let w = wires(&p);
    let blank = p.blank();
    let old = old_leftovers(s, cx, par, &w);
    // the prover under test
    if let Ok(Ok((proof, _))) = guarded(|| Proof::new::<_, Basic>(par, &p, &old)) {
        let v = verdict(&proof, &old, par, &blank, &ins, None);
        ensure!(!accepted(v), "accepted/prover", "a false statement has an accepted proof; {}", d());
    }
    cx.checks += 1;
    // provers that go on regardless
    for _ in 0..2 {
        let lie = LIES[s.below(LIES.len())];
        let Ok(Some(o)) = guarded(|| prove(par, &w, &ins, &old, None, lie, IpaLie::None, C::Scalar::one())) else {
            cx.label("lie impossible");
            continue;
        };
        if lie != Lie::None {
            ensure!(o.relation, "harness", "lie {:?} does not satisfy the relation; {}", lie, d());
        }
        let v = verdict(&o.proof, &old, par, &blank, &ins, None);
        ensure!(!accepted(v), format!("accepted/{:?}", lie), "a false statement has an accepted proof (lie: {:?}); {}", lie, d());
        if lie == Lie::SCurCNewS {
            ensure!(v[0] && v[1], "harness", "lie {:?} is refused too early ({:?}); {}", lie, v, d());
        }
        cx.checks += 1;
    }
    cx.nontrivial();
    Ok(())
}

/// Statements in which a single element is false and nothing depends on it.
fn c26_one<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let (p, what) = gen_one_false::<Sc<C>>(s);
    c26_one_of::<C>(s, cx, p, what)
}
fn c26_one_large<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let total = s.range(40, if thorough() { 1500 } else { 400 });
    let tape = grown(s.u64(), 100 * total + 1000);
    let (p, what) = gen_one_false_of::<Sc<C>>(&mut Src::new(&tape), total);
    c26_one_of::<C>(s, cx, p, what)
}
fn c26_one_of<C: PC>(s: &mut Src, cx: &mut Cx, mut p: Prog<Sc<C>>, what: &'static str) -> Res {
    let w = wires(&p);
    let k = (4..).find(|k| w.n < (1 << k) / 4 && w.lcs.len() < 1 << k).unwrap();
    if s.chance(1, 6) {
        let n = (1 << k) / 4 - 1 - s.below(3);
        fill_gates(s, &mut p, n);
    }
    let par = params::<C>(k);
    let mut ins = p.inputs();
    let mut what = what;
    if !ins.is_empty() && s.chance(1, 8) {
        // the right circuit with another input
        p = p.map_zero_out();
        let i = s.below(ins.len());
        ins[i] = alter_sc(s, ins[i], &[Sc::<C>::from_u64(2)]);
        what = "input";
    }
    if p.model().holds(&ins) {
        return Ok(());
    }
    let d = || format!("{} k = {}, false {}, circuit: {}", C::NAME, k, what, p.describe());
    cx.sample(d);
    cx.label(what);
    let blank = p.blank();
    let old = Leftovers::dummy(par);
    if let Ok(Ok((proof, _))) = guarded(|| Proof::new::<_, Basic>(par, &p, &old)) {
        let v = verdict(&proof, &old, par, &blank, &ins, None);
        ensure!(!accepted(v), "accepted/one", "a false statement has an accepted proof; {}", d());
    }
    cx.checks += 1;
    cx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ C27

fn c27_left<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let (p, k) = small_prog::<Sc<C>>(s, cx);
    c27_left_of::<C>(s, cx, p, k)
}
fn c27_left_large<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let (p, what) = gen_large::<Sc<C>>(s, if thorough() { 2000 } else { 500 });
    cx.label(what);
    let k = fit(s, &p);
    c27_left_of::<C>(s, cx, p, k)
}
fn c27_left_of<C: PC>(s: &mut Src, cx: &mut Cx, p: Prog<Sc<C>>, k: usize) -> Res {
    let par = params::<C>(k);
    let w = wires(&p);
    let d = || format!("{} k = {} circuit: {}", C::NAME, k, p.describe());
    cx.sample(d);
    let blank = p.blank();
    let check = |l: &Leftovers<C>| guarded(|| l.verify::<_, Basic>(par, &blank).unwrap());
    let cpus = s.pick(&[1usize, 3, 8]);
    let dummy = with_cpus(cpus, || Leftovers::dummy(par));
    ensure!(check(&dummy) == Ok(true) && leftovers_valid(par, &w, &dummy), "dummy", "the starting leftovers do not verify; {}", d());
    let l = valid_leftovers(s, par, &w);
    let r = check(&l);
    ensure!(r == Ok(true), "valid", "valid leftovers {:?}: {:?}; {}", l, r, d());
    cx.checks += 2;
    for _ in 0..3 {
        let mut b = l.clone();
        match s.below(6) {
            0 => b.s_new_commitment = alter_pt(s, par, l.s_new_commitment, &par.generators),
            1 => b.g_new = alter_pt(s, par, l.g_new, &par.generators),
            2 => b.y_new = alter_sc(s, l.y_new, &l.challenges_sq_packed_new),
            3 => {
                let i = s.below(k);
                b.challenges_sq_packed_new[i] = alter_packed(s, l.challenges_sq_packed_new[i]);
            }
            4 => {
                let (i, j) = (s.below(k), s.below(k));
                b.challenges_sq_packed_new.swap(i, j);
            }
            _ => b.g_new = b.g_new + b.s_new_commitment,
        }
        let want = leftovers_valid(par, &w, &b);
        let got = check(&b);
        ensure!(got == Ok(want), if want { "refused" } else { "accepted" }, "leftovers {:?}: {:?}, expected {}; {}", b, got, want, d());
        cx.label(if want { "unchanged in meaning" } else { "invalid" });
        cx.checks += 1;
    }
    cx.nontrivial();
    Ok(())
}
fn c27_def<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.range(2, if thorough() { 10 } else { 7 });
    c27_def_of::<F>(s, cx, k)
}
/// up to the size of the real circuit
fn c27_def_wide<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.range(8, 22);
    c27_def_of::<F>(s, cx, k)
}
fn c27_def_of<F: PF>(s: &mut Src, cx: &mut Cx, k: usize) -> Res {
    let dm = Deferred::<F>::dummy(k);
    ensure!(guarded(|| dm.verify(k)) == Ok(true) && deferred_valid(&dm, k), "deferred/dummy", "the starting deferred data does not verify for k = {}", k);
    let d = gen_deferred::<F>(s, k);
    cx.sample(|| format!("k = {}: {}", k, short(&show(&d))));
    let check = |d: &Deferred<F>| guarded(|| d.verify(k));
    let r = check(&d);
    ensure!(r == Ok(true), "deferred/valid", "valid deferred data for k = {} gives {:?}: {}", k, r, show(&d));
    cx.checks += 2;
    for _ in 0..4 {
        let mut e = d.clone();
        let mut what = "challenges";
        match s.weighted(&[6, 1, 1, 2]) {
            0 => {
                let o: Vec<F> = slots(&mut d.clone()).into_iter().map(|x| *x.1).collect();
                let i = s.below(16);
                let mut sl = slots(&mut e);
                what = sl[i].0;
                let v = alter_sc(s, *sl[i].1, &o);
                *sl[i].1 = v;
                if (i == 0 || i == 2) && bool::from(v.is_zero()) {
                    *slots(&mut e)[i].1 = F::from_u64(5);
                }
            }
            1 => {
                let i = s.below(k);
                e.challenges_sq_packed_old[i] = alter_packed(s, e.challenges_sq_packed_old[i]);
            }
            2 => {
                let i = s.below(k);
                e.challenges_sq_packed_new[i] = alter_packed(s, e.challenges_sq_packed_new[i]);
            }
            _ => {
                // change something and make up for it
                let i = s.below(10);
                let mut sl = slots(&mut e);
                what = sl[i].0;
                let v = alter_sc(s, *sl[i].1, &[F::from_u64(3)]);
                *sl[i].1 = if bool::from(v.is_zero()) { F::from_u64(5) } else { v };
                if s.bool() {
                    derive(&mut e);
                }
                if s.chance(3, 4) {
                    solve(s, &mut e, k);
                }
            }
        }
        let want = deferred_valid(&e, k);
        let got = check(&e);
        ensure!(got == Ok(want), format!("deferred/{}", what), "deferred data for k = {} with {} altered: {:?}, expected {}: {}", k, what, got, want, show(&e));
        cx.label(if want { "consistent" } else { "inconsistent" });
        cx.checks += 1;
    }
    cx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ C28

fn le<F: PF>(v: &F) -> Vec<u8> {
    val(v).iter().flat_map(|l| l.to_le_bytes()).collect()
}
fn c28<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.range(1, 24);
    let p16 = |s: &mut Src| -> Sc<C> {
        Sc::<C>::from_u128(match s.below(4) {
            0 => 0,
            1 => u128::MAX,
            2 => 1u128 << s.below(128),
            _ => s.u128(),
        })
    };
    let point = |s: &mut Src| -> C {
        let r = hv::points::gen_ref::<C>(s);
        hv::points::gen_rep::<C>(s, &r)
    };
    let l = Leftovers { s_new_commitment: point(s), y_new: p16(s), g_new: point(s), challenges_sq_packed_new: (0..k).map(|_| p16(s)).collect() };
    let enc_pt = |p: &C| -> Vec<u8> {
        match pt(p) {
            None => vec![0; 64],
            Some((x, y)) => x.iter().chain(y.iter()).flat_map(|l| l.to_le_bytes()).collect(),
        }
    };
    let enc_l = |l: &Leftovers<C>| {
        let mut v = enc_pt(&l.s_new_commitment);
        v.extend(&le(&l.y_new)[..16]);
        v.extend(enc_pt(&l.g_new));
        for c in &l.challenges_sq_packed_new {
            v.extend(&le(c)[..16]);
        }
        v
    };
    cx.sample(|| format!("{} k = {} {}", C::NAME, k, short(&format!("{:?}", l))));
    let got = l.to_bytes();
    let want = enc_l(&l);
    ensure!(got.len() == 144 + 16 * k, "leftovers/length", "{} bytes for k = {}", got.len(), k);
    if let Some(i) = (0..want.len()).find(|i| got[*i] != want[*i]) {
        return fail("leftovers/bytes", format!("{} k = {}: byte {} of {:?} is {}, expected {}", C::NAME, k, i, l, got[i], want[i]));
    }
    let mut l2 = l.clone();
    match s.below(4) {
        0 => l2.s_new_commitment = point(s),
        1 => l2.g_new = point(s),
        2 => l2.y_new = p16(s),
        _ => {
            let i = s.below(k);
            l2.challenges_sq_packed_new[i] = p16(s);
        }
    }
    ensure!((l2 == l) == (l2.to_bytes() == got), "leftovers/injective", "{} k = {}: {:?} and {:?} encode alike or equal ones do not", C::NAME, k, l, l2);
    // deferred data
    let mut d = Deferred::<Sc<C>>::dummy(k);
    for (i, (_, v)) in slots(&mut d).into_iter().enumerate() {
        *v = if i < 4 { p16(s) } else { gen_fe(s) };
    }
    for c in d.challenges_sq_packed_old.iter_mut().chain(d.challenges_sq_packed_new.iter_mut()) {
        *c = p16(s);
    }
    let enc_d = |d: &Deferred<Sc<C>>| {
        let mut v = vec![];
        for x in [d.x, d.y_old, d.y_cur, d.y_new] {
            v.extend(&le(&x)[..16]);
        }
        for x in [d.ky_opening, d.tx_positive_opening, d.tx_negative_opening, d.sx_cur_opening, d.rx_opening, d.rxy_opening] {
            v.extend(le(&x));
        }
        for x in &d.challenges_sq_packed_old {
            v.extend(&le(x)[..16]);
        }
        v.extend(le(&d.gx_old_opening));
        for x in &d.challenges_sq_packed_new {
            v.extend(&le(x)[..16]);
        }
        for x in [d.b_x, d.b_xy, d.b_y_old, d.b_y_cur, d.b_y_new] {
            v.extend(le(&x));
        }
        v
    };
    let got = d.to_bytes();
    let want = enc_d(&d);
    ensure!(got.len() == 12 * 32 + (4 + 2 * k) * 16, "deferred/length", "{} bytes for k = {}", got.len(), k);
    if let Some(i) = (0..want.len()).find(|i| got[*i] != want[*i]) {
        return fail("deferred/bytes", format!("k = {}: byte {} of {} is {}, expected {}", k, i, show(&d), got[i], want[i]));
    }
    let mut e = d.clone();
    let i = s.below(18);
    let changed = if i < 16 {
        let v = if i < 4 { p16(s) } else { gen_fe(s) };
        let mut sl = slots(&mut e);
        let c = *sl[i].1 != v;
        *sl[i].1 = v;
        c
    } else {
        let j = s.below(k);
        let v = p16(s);
        let r = if i == 16 { &mut e.challenges_sq_packed_old[j] } else { &mut e.challenges_sq_packed_new[j] };
        let c = *r != v;
        *r = v;
        c
    };
    ensure!(changed == (e.to_bytes() != got), "deferred/injective", "k = {}: {} and {} encode alike or equal ones do not", k, show(&d), show(&e));
    cx.checks += 6;
    cx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ C33

fn c33<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.weighted(&[4, 1]) + 4;
    let len = s.range(0, 5);
    let p = gen_prog::<Sc<C>>(s, len);
    c33_of::<C>(s, cx, p, k)
}
fn c33_large<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let (p, what) = gen_large::<Sc<C>>(s, if thorough() { 2000 } else { 400 });
    cx.label(what);
    let k = s.range(7, if thorough() { 10 } else { 9 });
    c33_of::<C>(s, cx, p, k)
}
fn c33_of<C: PC>(s: &mut Src, cx: &mut Cx, mut p: Prog<Sc<C>>, k: usize) -> Res {
    let par = params::<C>(k);
    trim(&mut p, par.n - 2, par.d - 2);
    let v = gen_fe_fast(s);
    p.ops.push(Op::Input(v));
    let w = p.record();
    if w.n >= par.n || w.lcs.len() >= par.d {
        cx.label("skipped");
        return Ok(());
    }
    let blank = p.blank();
    let ins = p.inputs();
    // the messages need not make sense
    let mut base = Proof {
        r_commitment: C::one(),
        s_cur_commitment: C::one(),
        t_positive_commitment: C::one(),
        t_negative_commitment: C::one(),
        c_commitment: C::one(),
        s_new_commitment: C::one(),
        rx_opening: C::Scalar::one(),
        rxy_opening: C::Scalar::one(),
        sx_old_opening: C::Scalar::one(),
        sx_cur_opening: C::Scalar::one(),
        tx_positive_opening: C::Scalar::one(),
        tx_negative_opening: C::Scalar::one(),
        sx_new_opening: C::Scalar::one(),
        inner_product: MultiPolynomialOpening::dummy(par),
    };
    let (mut pts, mut scs) = flat(&base);
    for x in &mut pts {
        *x = par.generators[s.below(par.d)];
        if s.bool() {
            *x = *x + par.generators[s.below(par.d)];
        }
    }
    for x in &mut scs {
        *x = nzf(s);
    }
    base = unflat(&base, &pts, &scs);
    let old = valid_leftovers(s, par, &w);
    let run = |p: &Proof<C>, old: &Leftovers<C>, ins: &[Sc<C>], kc: Option<C>| -> Vec<Sc<C>> {
        let (_, l, d, _) = p.verify::<_, Basic>(old, par, &blank, ins, kc).expect("verify");
        let mut v = vec![d.y_cur, d.x, d.y_new];
        v.extend(l.challenges_sq_packed_new.iter());
        v
    };
    let a = run(&base, &old, &ins, None);
    cx.sample(|| format!("{} k = {} circuit: {}", C::NAME, k, p.describe()));
    for i in 0..a.len() {
        ensure!(val(&a[i])[1] >> 63 == 1 && val(&a[i])[2] == 0 && val(&a[i])[3] == 0, "range", "challenge {} is {:?}", i, a[i]);
        for j in 0..i {
            ensure!(a[i] != a[j], "repeated", "challenges {} and {} are both {:?}", i, j, a[i]);
        }
    }
    for _ in 0..2 {
        let mut i2 = ins.clone();
        let mut o2 = old.clone();
        let mut kc = None;
        let (mut p2, mut s2) = (pts.clone(), scs.clone());
        // (first challenge that must differ, name)
        let (from, what) = match s.weighted(&[1, 1, 6, 5, 6, 6, 1]) {
            0 => {
                let i = s.below(ins.len());
                i2[i] += C::Scalar::one();
                (0, "public input".to_string())
            }
            1 => {
                kc = Some(rand_pt(s, par));
                (0, "commitment to the inputs".into())
            }
            2 => {
                let i = s.below(6);
                p2[i] = p2[i] + par.generators[s.below(par.d)];
                ([0, 1, 1, 1, 2, 3][i], PT_NAMES[i].into())
            }
            3 => {
                let i = s.below(7);
                s2[i] += nzf::<Sc<C>>(s);
                (3, SC_NAMES[i].into())
            }
            4 => {
                let i = 7 + s.below(p2.len() - 7);
                p2[i] = p2[i] + par.generators[s.below(par.d)];
                (3 + (i - 7) / 10, format!("{} of a round", if (i - 7) % 10 < 5 { "L" } else { "R" }))
            }
            5 => {
                let i = 12 + s.below(s2.len() - 12);
                s2[i] += nzf::<Sc<C>>(s);
                (3 + (i - 12) / 10, format!("{} of a round", if (i - 12) % 10 < 5 { "l" } else { "r" }))
            }
            _ => {
                let i = s.below(k);
                o2.challenges_sq_packed_new[i] = alter_packed(s, old.challenges_sq_packed_new[i]);
                (3, "prior challenges".into())
            }
        };
        let b = run(&unflat(&base, &p2, &s2), &o2, &i2, kc);
        for i in from..a.len() {
            ensure!(a[i] != b[i], format!("independent/{}", what), "{} k = {}: challenge {} (of y_cur, x, y_new, rounds) does not depend on the {}; circuit: {}", C::NAME, k, i, what, p.describe());
            cx.checks += 1;
        }
    }
    cx.nontrivial();
    Ok(())
}

fn part(name: &'static str, tape: usize, quick: u64, thorough: u64, case: CaseFn) -> Part {
    Part { name, tape, quick, thorough, case }
}
fn main() {
    hv::main(vec![
        Spec {
            id: "C23",
            rule: "a polynomial with at least two non-zero coefficients",
            assumptions: &["discrete logarithms between the generators are unknown"],
            parts: vec![
                part("open-Ec0", 6000, 60, 6000, c23::<Ec0>),
                part("open-Ec1", 6000, 60, 6000, c23::<Ec1>),
                part("wide-Ec0", 1000, 8, 600, c23_wide::<Ec0>),
                part("wide-Ec1", 1000, 8, 600, c23_wide::<Ec1>),
                part("linear-Ec0", 12000, 80, 6000, c23_linear::<Ec0>),
                part("linear-Ec1", 12000, 80, 6000, c23_linear::<Ec1>),
                part("params-Ec0", 40, 30, 1000, c23_params::<Ec0>),
                part("params-Ec1", 40, 30, 1000, c23_params::<Ec1>),
            ],
        },
        Spec {
            id: "C24",
            rule: "a circuit with a gate besides the constant one",
            assumptions: &[],
            parts: vec![part("Ec0", 4000, 50, 6000, c24::<Ec0>), part("Ec1", 4000, 50, 6000, c24::<Ec1>),
                part("large-Ec0", 400, 8, 800, c24_large::<Ec0>), part("large-Ec1", 400, 8, 800, c24_large::<Ec1>)],
        },
        Spec {
            id: "C25",
            rule: "at least one alteration was tried",
            assumptions: &["discrete logarithms between the generators are unknown"],
            parts: vec![part("Ec0", 5000, 60, 6000, c25::<Ec0>), part("Ec1", 5000, 60, 6000, c25::<Ec1>),
                part("large-Ec0", 1500, 6, 600, c25_large::<Ec0>), part("large-Ec1", 1500, 6, 600, c25_large::<Ec1>)],
        },
        Spec {
            id: "C26",
            rule: "the statement is false",
            assumptions: &["discrete logarithms between the generators are unknown"],
            parts: vec![part("Ec0", 4000, 60, 6000, c26::<Ec0>), part("Ec1", 4000, 60, 6000, c26::<Ec1>),
                part("one-Ec0", 1500, 800, 150000, c26_one::<Ec0>), part("one-Ec1", 1500, 800, 150000, c26_one::<Ec1>),
                part("one-large-Ec0", 200, 16, 1500, c26_one_large::<Ec0>), part("one-large-Ec1", 200, 16, 1500, c26_one_large::<Ec1>)],
        },
        Spec {
            id: "C27",
            rule: "alterations were compared with the recomputed verdict",
            assumptions: &[],
            parts: vec![
                part("leftovers-Ec0", 4000, 60, 6000, c27_left::<Ec0>),
                part("leftovers-Ec1", 4000, 60, 6000, c27_left::<Ec1>),
                part("deferred-Fp", 2500, 600, 60000, c27_def::<Fp>),
                part("deferred-Fq", 2500, 600, 60000, c27_def::<Fq>),
                part("deferred-wide-Fp", 5000, 30, 3000, c27_def_wide::<Fp>),
                part("deferred-wide-Fq", 5000, 30, 3000, c27_def_wide::<Fq>),
                part("leftovers-large-Ec0", 1500, 6, 600, c27_left_large::<Ec0>),
                part("leftovers-large-Ec1", 1500, 6, 600, c27_left_large::<Ec1>),
            ],
        },
        Spec {
            id: "C28",
            rule: "every generated state",
            assumptions: &[],
            parts: vec![part("Ec0", 3500, 30000, 400000, c28::<Ec0>), part("Ec1", 3500, 30000, 400000, c28::<Ec1>)],
        },
        Spec {
            id: "C33",
            rule: "a message was altered",
            assumptions: &[],
            parts: vec![part("Ec0", 6000, 150, 6000, c33::<Ec0>), part("Ec1", 6000, 150, 6000, c33::<Ec1>),
                part("large-Ec0", 2000, 16, 600, c33_large::<Ec0>), part("large-Ec1", 2000, 16, 600, c33_large::<Ec1>)],
        },
    ]);
}
