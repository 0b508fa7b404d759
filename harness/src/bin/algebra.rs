//! C06 multiexp, C07 polynomial multiplication, C08 folding helpers, C35 fresh parameters
use halo::*;
use hv::big;
use hv::ensure;
use hv::gen::*;
use hv::points::*;
use hv::*;
use std::sync::OnceLock;

/// Points with known logarithms (base G), in mixed representations.
fn table<C: PC>() -> &'static (Vec<big::U>, Vec<C>) {
    fn build<C: PC>() -> (Vec<big::U>, Vec<C>) {
        let p = pool::<C>();
        let m = C::Scalar::m();
        let mut logs = vec![big::u(0), big::u(1), m.neg(&big::u(1))];
        let mut pts: Vec<C> = vec![C::zero(), C::one(), -C::one()];
        for i in 0..250usize {
            for d in [1usize, 2, 5, 19] {
                let j = (i * 7 + d) % 250;
                let two = |k: usize| {
                    let mut a = [0u64; 4];
                    a[k / 64] = 1 << (k % 64);
                    a
                };
                logs.push(m.add(&two(i), &two(j)));
                pts.push(mk::<C>(&p[i]) + mk::<C>(&p[j]));
            }
        }
        (logs, pts)
    }
    static A: OnceLock<(Vec<big::U>, Vec<Ec0>)> = OnceLock::new();
    static B: OnceLock<(Vec<big::U>, Vec<Ec1>)> = OnceLock::new();
    // both instantiations are only ever built for their own type
    let any: &'static dyn std::any::Any = if C::NAME == "Ec0" { A.get_or_init(build::<Ec0>) } else { B.get_or_init(build::<Ec1>) };
    any.downcast_ref().unwrap()
}

fn gen_cpus(s: &mut Src) -> usize {
    match s.weighted(&[6, 3, 1]) {
        0 => 1 + s.below(8),
        1 => s.pick(&[1usize, 2, 3, 4, 6, 8, 12, 16]),
        _ => 9 + s.below(120),
    }
}

fn gen_len(s: &mut Src, cpus: usize) -> usize {
    match s.weighted(&[4, 4, 4, 3, 1]) {
        0 => s.below(12),
        1 => s.below(80),
        // around the switch to chunks and whole multiples of the processor count
        2 => (cpus * (1 + s.below(4)) + s.below(3)).saturating_sub(1),
        // per-chunk sizes around the window thresholds
        3 => {
            let per = s.pick(&[32usize, 55, 149]);
            let l = per * cpus.min(8) + s.below(3 * cpus.min(8));
            (l - cpus.min(8)).min(1300)
        }
        _ => s.below(700),
    }
}

fn me<C: PC>(s: &mut Src, cx: &mut Cx, big_len: bool) -> Res {
    let cpus = gen_cpus(s);
    let n = if big_len {
        let per = s.pick(&[404usize, 1097, 2981]);
        let c = cpus.min(4);
        per * c + s.below(200) - 100
    } else {
        gen_len(s, cpus)
    };
    me_with::<C>(s, cx, cpus, n)
}
fn me_with<C: PC>(s: &mut Src, cx: &mut Cx, cpus: usize, n: usize) -> Res {
    let sm = C::Scalar::m();
    let (logs, pts) = table::<C>();
    let mut ks = vec![];
    let mut idx = vec![];
    // a small tape still gives varied long lists: values derive from a per-case mixer
    let mode = s.below(6);
    let mut seed = s.u64() | 1;
    let mut next = || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed.wrapping_mul(0x2545F4914F6CDD1D)
    };
    let fixed: big::U = gen_val::<C::Scalar>(s);
    let fixed2: big::U = gen_val::<C::Scalar>(s);
    let fi = s.below(pts.len());
    for i in 0..n {
        let r = [next(), next(), next(), next()];
        let k = match mode {
            0 => sm.red(&r),
            1 => match r[3] % 4 {
                0 => big::u(0),
                1 => fixed,
                2 => sm.neg(&big::u(1)),
                _ => sm.red(&r),
            },
            2 => {
                if i == n - 1 {
                    fixed
                } else {
                    big::u(0)
                }
            }
            3 => big::u(r[0] % 5),
            4 => {
                if r[0] & 1 == 0 {
                    fixed
                } else {
                    fixed2
                }
            }
            _ => {
                // window-aligned digit patterns
                let mut a = [0u64; 4];
                let run = [0u64, u64::MAX, 0x8080808080808080, 0x0101010101010101, 0x5555555555555555, 0x4924924924924924];
                for k in 0..4 {
                    a[k] = run[(r[k] % 6) as usize];
                }
                sm.red(&a)
            }
        };
        ks.push(k);
        idx.push(match r[2] % 8 {
            0 => 0,
            1 => fi,
            2 => 1 + (r[1] % 2) as usize,
            _ => (r[1] % pts.len() as u64) as usize,
        });
    }
    // a few individually generated entries
    for _ in 0..s.below(4).min(n) {
        let at = s.below(n);
        ks[at] = gen_val::<C::Scalar>(s);
        idx[at] = s.below(pts.len());
    }
    let mut want = big::u(0);
    for (k, i) in ks.iter().zip(idx.iter()) {
        want = sm.add(&want, &sm.mul(k, &logs[*i]));
    }
    let coeffs: Vec<C::Scalar> = ks.iter().map(|k| fe(k)).collect();
    let bases: Vec<C> = idx.iter().map(|i| pts[*i]).collect();
    if n > 0 {
        cx.nontrivial();
    }
    cx.label(if n == 0 {
        "empty"
    } else if n > cpus {
        "chunked"
    } else {
        "direct"
    });
    if n > cpus && n % cpus != 0 {
        cx.label("ragged chunks");
    }
    cx.checks += 1;
    cx.sample(|| format!("{} length {} cpus {} mode {} first scalar {}", C::NAME, n, cpus, mode, ks.first().map(big::hex).unwrap_or_default()));
    let got = with_cpus(cpus, || util_multiexp::<C>(&coeffs, &bases));
    let w = ref_mul_g::<C>(&want);
    ensure!(pt(&got) == w, "multiexp", "{}: multiexp of {} terms on {} cpus (mode {}) is not the sum of the products", C::NAME, n, cpus, mode);
    if n > 0 && n <= 40 && s.chance(1, 4) {
        let mut acc = C::zero();
        for (k, b) in coeffs.iter().zip(bases.iter()) {
            acc += *b * k;
        }
        cx.checks += 1;
        ensure!(acc == got, "multiexp-naive", "{}: multiexp of {} terms on {} cpus differs from the naive sum", C::NAME, n, cpus);
    }
    Ok(())
}
fn util_multiexp<C: PC>(c: &[C::Scalar], b: &[C]) -> C {
    multiexp::<C::Scalar, C>(c, b)
}

// ---------------------------------------------------------------- C07

fn poly<F: PF>(s: &mut Src, n: usize) -> Vec<F> {
    let mode = s.below(5);
    let mut seed = s.u64() | 1;
    let mut next = || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed.wrapping_mul(0x2545F4914F6CDD1D)
    };
    let m = F::m();
    let a: F = gen_fe(s);
    let mut v: Vec<F> = (0..n)
        .map(|i| match mode {
            0 => fe(&m.red(&[next(), next(), next(), next()])),
            1 => {
                if next() % 3 == 0 {
                    fe(&m.red(&[next(), next(), next(), next()]))
                } else {
                    F::zero()
                }
            }
            2 => -F::one(),
            3 => {
                if i == n - 1 {
                    a
                } else {
                    F::zero()
                }
            }
            _ => F::from_u64(next() % 3) * a,
        })
        .collect();
    for _ in 0..s.below(4) {
        let at = s.below(n);
        v[at] = gen_fe(s);
    }
    v
}
fn eval<F: PF>(p: &[F], x: F) -> F {
    p.iter().rev().fold(F::zero(), |a, c| a * x + *c)
}
fn pm<F: PF>(s: &mut Src, cx: &mut Cx, large: bool) -> Res {
    let cpus = gen_cpus(s);
    let (la, lb) = if large {
        (1 + s.below(if thorough() { 1 << 15 } else { 1 << 12 }), 1 + s.below(if thorough() { 1 << 15 } else { 1 << 12 }))
    } else {
        match s.below(6) {
            0 => (1, 1 + s.below(70)),
            1 => (1 + s.below(70), 1),
            2 => {
                // result length around a power of two
                let t = (1usize << (1 + s.below(8))) + s.below(4);
                let la = 1 + s.below(t);
                (la, (t + 1 - la).max(1))
            }
            3 => {
                let l = 1 + s.below(128);
                (l, l)
            }
            4 => (1 + s.below(16), 1 + s.below(16)),
            _ => (1 + s.below(150), 1 + s.below(150)),
        }
    };
    pm_with::<F>(s, cx, cpus, la, lb, large)
}
fn pm_with<F: PF>(s: &mut Src, cx: &mut Cx, cpus: usize, la: usize, lb: usize, large: bool) -> Res {
    let a = poly::<F>(s, la);
    let b = poly::<F>(s, lb);
    cx.nontrivial();
    cx.sample(|| format!("{} lengths {} x {} cpus {}", F::NAME, la, lb, cpus));
    let got = with_cpus(cpus, || multiply_polynomials(a.clone(), b.clone()));
    ensure!(got.len() == la + lb - 1, "length", "{}: {} x {} on {} cpus gave length {}", F::NAME, la, lb, cpus, got.len());
    if (la + lb - 1).next_power_of_two() > cpus.next_power_of_two() {
        cx.label("parallel transform");
    } else {
        cx.label("serial transform");
    }
    cx.checks += 1;
    if !large {
        let mut want = vec![F::zero(); la + lb - 1];
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                want[i + j] += *x * *y;
            }
        }
        for i in 0..want.len() {
            ensure!(want[i] == got[i], "convolution", "{}: {} x {} on {} cpus: coefficient {} wrong", F::NAME, la, lb, cpus, i);
        }
    } else {
        let x: F = rand_fe(s);
        ensure!(eval(&got, x) == eval(&a, x) * eval(&b, x), "evaluation", "{}: {} x {} on {} cpus: product polynomial wrong", F::NAME, la, lb, cpus);
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

fn nonzero<F: PF>(s: &mut Src) -> F {
    let f: F = gen_fe(s);
    if bool::from(f.is_zero()) {
        F::one()
    } else {
        f
    }
}
fn fold<F: PF>(v: &[F], u: F, ui: F) -> Vec<F> {
    let l = v.len() / 2;
    (0..l).map(|i| v[i] * ui + v[i + l] * u).collect()
}
fn folding<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.range(1, 10);
    folding_k::<C>(s, cx, k)
}
fn folding_wide<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let k = s.range(11, if thorough() { 18 } else { 15 });
    folding_k::<C>(s, cx, k)
}
fn folding_k<C: PC>(s: &mut Src, cx: &mut Cx, k: usize) -> Res {
    type S<C> = <C as Curve>::Scalar;
    let n = 1usize << k;
    let cpus = gen_cpus(s);
    let us: Vec<S<C>> = (0..k).map(|_| nonzero(s)).collect();
    let m = S::<C>::m();
    let uis: Vec<S<C>> = us.iter().map(|u| fe(&m.inv(&val(u)).unwrap())).collect();
    let sq: Vec<S<C>> = us.iter().map(|u| *u * *u).collect();
    let allinv = uis.iter().fold(S::<C>::one(), |a, b| a * *b);
    let x: S<C> = gen_fe(s);
    cx.nontrivial();
    cx.label(if k == 1 { "one round" } else { "several rounds" });
    cx.sample(|| format!("{} k={} cpus={} x={} u0={}", C::NAME, k, cpus, big::hex(&val(&x)), big::hex(&val(&us[0]))));

    // powers of x
    let mut v = vec![];
    let mut c = S::<C>::one();
    for _ in 0..n {
        v.push(c);
        c *= x;
    }
    for i in 0..k {
        v = fold(&v, us[i], uis[i]);
    }
    cx.checks += 2;
    ensure!(compute_b(x, &us, &uis) == v[0], "compute_b", "{}: k={} compute_b differs from halving the powers of x", C::NAME, k);

    // coefficient of each entry: fold a vector of arbitrary values
    let p = poly::<S<C>>(s, n);
    let mut w = p.clone();
    for i in 0..k {
        w = fold(&w, us[i], uis[i]);
    }
    let co = compute_g_coeffs_for_inner_product(&sq, allinv);
    ensure!(co.len() == n, "g-coeffs", "{}: {} coefficients for k={}", C::NAME, co.len(), k);
    let mut acc = S::<C>::zero();
    for i in 0..n {
        acc += co[i] * p[i];
    }
    ensure!(acc == w[0], "g-coeffs", "{}: k={} coefficients do not reproduce the folded value", C::NAME, k);
    // each single coefficient against the product formula
    let at = s.below(n);
    let mut c = S::<C>::one();
    for j in 0..k {
        // round j splits on bit k-1-j
        c *= if (at >> (k - 1 - j)) & 1 == 1 { us[j] } else { uis[j] };
    }
    cx.checks += 2;
    ensure!(co[at] == c, "g-coeffs", "{}: k={} coefficient {} wrong", C::NAME, k, at);
    let q = poly::<S<C>>(s, n);
    let ip = compute_inner_product(&p, &q);
    let mut acc = S::<C>::zero();
    for i in 0..n {
        acc = acc + p[i] * q[i];
    }
    ensure!(ip == acc, "inner-product", "{}: inner product of {} entries wrong", C::NAME, n);

    // generators folded in place; logs are known so the reference works on scalars
    if k <= 6 || k <= 13 && s.chance(1, 8) {
        cx.label("generators");
        let (logs, pts) = table::<C>();
        let off = s.below(pts.len());
        let stride = 1 + s.below(50);
        let ids: Vec<usize> = (0..n).map(|i| (off + i * stride) % pts.len()).collect();
        let mut g: Vec<C> = ids.iter().map(|i| pts[*i]).collect();
        let mut gl: Vec<S<C>> = ids.iter().map(|i| fe(&logs[*i])).collect();
        let closed = with_cpus(cpus, || compute_g_for_inner_product::<S<C>, C>(&g, &sq, allinv));
        for i in 0..k {
            with_cpus(cpus, || parallel_generator_collapse(&mut g, us[i], uis[i]));
            let l = g.len() / 2;
            g.truncate(l);
            gl = fold(&gl, us[i], uis[i]);
            // compare one entry per round with its logarithm
            let j = s.below(l);
            cx.checks += 1;
            ensure!(pt(&g[j]) == ref_mul_g::<C>(&val(&gl[j])), "collapse", "{}: k={} cpus={} round {} entry {} wrong", C::NAME, k, cpus, i, j);
        }
        cx.checks += 2;
        ensure!(pt(&g[0]) == ref_mul_g::<C>(&val(&gl[0])), "collapse", "{}: k={} folded generator wrong", C::NAME, k);
        ensure!(closed == g[0] && pt(&closed) == ref_mul_g::<C>(&val(&gl[0])), "g-closed", "{}: k={} cpus={} closed form differs from folding", C::NAME, k, cpus);
    }
    Ok(())
}
/// every entry of one folding step, at sizes where work is split between processors
fn collapse<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    type S<C> = <C as Curve>::Scalar;
    let cpus = gen_cpus(s);
    let l = match s.below(3) {
        0 => 1 + s.below(20),
        1 => (cpus.min(12) * cpus.min(12) + s.below(6)).saturating_sub(2).max(1),
        _ => 1 + s.below(200),
    };
    let (logs, pts) = table::<C>();
    let off = s.below(pts.len());
    let ids: Vec<usize> = (0..2 * l).map(|i| (off + i * 3) % pts.len()).collect();
    let mut g: Vec<C> = ids.iter().map(|i| pts[*i]).collect();
    let u: S<C> = nonzero(s);
    let ui: S<C> = fe(&S::<C>::m().inv(&val(&u)).unwrap());
    cx.nontrivial();
    cx.sample(|| format!("{} {} generators cpus {} u={}", C::NAME, 2 * l, cpus, big::hex(&val(&u))));
    if l / cpus >= cpus {
        cx.label("split work");
    }
    let before = g.clone();
    with_cpus(cpus, || parallel_generator_collapse(&mut g, u, ui));
    // naive halving on the points, and a sampled entry against logarithms
    for i in 0..l {
        cx.checks += 1;
        ensure!(g[i] == before[i] * ui + before[i + l] * u, "collapse", "{}: entry {} of {} wrong on {} cpus", C::NAME, i, l, cpus);
    }
    let j = s.below(l);
    let lo: S<C> = fe(&logs[ids[j]]);
    let hi: S<C> = fe(&logs[ids[j + l]]);
    ensure!(pt(&g[j]) == ref_mul_g::<C>(&val(&(lo * ui + hi * u))), "collapse", "{}: entry {} wrong", C::NAME, j);
    Ok(())
}

fn c06_small(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        me::<Ec1>(s, cx, false)
    } else {
        me::<Ec0>(s, cx, false)
    }
}
fn c06_large(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        me::<Ec1>(s, cx, true)
    } else {
        me::<Ec0>(s, cx, true)
    }
}
/// windows of 10 bits and more
fn c06_huge(s: &mut Src, cx: &mut Cx) -> Res {
    let per = s.pick(&[8103usize, 22026, 22026, 59874]);
    let n = per + s.below(400) - 200;
    let cpus = s.pick(&[1, 1, 2, 3]);
    let n = n * cpus + s.below(cpus);
    if s.bool() {
        me_with::<Ec1>(s, cx, cpus, n)
    } else {
        me_with::<Ec0>(s, cx, cpus, n)
    }
}
/// every length up to 100 on every processor count up to 16, in turn
fn c06_grid(s: &mut Src, cx: &mut Cx) -> Res {
    let n = s.below(100);
    let cpus = 1 + s.below(16);
    if s.bool() {
        me_with::<Ec1>(s, cx, cpus, n)
    } else {
        me_with::<Ec0>(s, cx, cpus, n)
    }
}
fn c07_small(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        pm::<Fq>(s, cx, false)
    } else {
        pm::<Fp>(s, cx, false)
    }
}
fn c07_large(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        pm::<Fq>(s, cx, true)
    } else {
        pm::<Fp>(s, cx, true)
    }
}
fn pm_huge<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let cpus = gen_cpus(s);
    let t = (1usize << (13 + s.below(if thorough() { 8 } else { 6 }))) + s.below(5);
    let la = if s.chance(1, 4) { 1 + s.below(8) } else { 1 + s.below(t) };
    pm_with::<F>(s, cx, cpus, la, (t - 2).saturating_sub(la).max(1), true)
}
fn c07_huge(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        pm_huge::<Fq>(s, cx)
    } else {
        pm_huge::<Fp>(s, cx)
    }
}
fn c08(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        folding::<Ec1>(s, cx)
    } else {
        folding::<Ec0>(s, cx)
    }
}
fn c08_wide(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        folding_wide::<Ec1>(s, cx)
    } else {
        folding_wide::<Ec0>(s, cx)
    }
}
fn c08_collapse(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        collapse::<Ec1>(s, cx)
    } else {
        collapse::<Ec0>(s, cx)
    }
}

// ------------------------------------------------------------------ C35

fn fresh<C: PC>(s: &mut Src, cx: &mut Cx) -> Res {
    let k = 4 + s.weighted(&[4, 4, 4, 3, 3, 2, 1]);
    let cpus = gen_cpus(s);
    let d = || format!("{} parameters, k = {}, {} processors", C::NAME, k, cpus);
    cx.sample(d);
    let p = guarded(|| with_cpus(cpus, || Params::<C>::new(k)));
    let p = match p {
        Ok(p) => p,
        Err(e) => return fail("panic", format!("{}; {}", e, d())),
    };
    let size = 1usize << k;
    ensure!(p.k == k && p.d == size && p.n == size / 4, "sizes", "k = {}, d = {}, n = {}; {}", p.k, p.d, p.n, d());
    ensure!(p.generators.len() == size && p.generators_xy.len() == size, "length", "{} generators, {} coordinate pairs; {}", p.generators.len(), p.generators_xy.len(), d());
    ensure!(p.g == C::one(), "g", "g is not the base point; {}", d());
    let rc = C::rc();
    let mut seen: std::collections::HashMap<big::U, String> = std::collections::HashMap::new();
    let mut add = |x: C::Base, name: String| -> Option<(String, String)> {
        // the same for a point, its opposite and its images under the endomorphism
        let c = val(&(x * x * x));
        seen.insert(c, name.clone()).map(|o| (o, name))
    };
    let mut clash = None;
    let mut m = C::one();
    for j in 1..20 {
        clash = clash.or(add(m.get_xy().unwrap().0, format!("{} times the base point", j)));
        m = m + C::one();
    }
    let mut bits = [[0usize; 2]; 255];
    for i in 0..size {
        let Some((x, y)) = pt(&p.generators[i]) else {
            return fail("identity", format!("generator {} is the identity; {}", i, d()));
        };
        ensure!(rc.on_curve(&Some((x, y))), "curve", "generator {} is not on the curve; {}", i, d());
        let (tx, ty) = p.generators_xy[i];
        ensure!(val(&tx) == x && val(&ty) == y, "coordinates", "the coordinates listed for generator {} are not its own; {}", i, d());
        clash = clash.or(add(tx, format!("generator {}", i)));
        if i > 0 {
            for (q, name) in [(p.generators[i] - p.generators[i - 1], "minus"), (p.generators[i] + p.generators[i - 1], "plus")] {
                if let Some((x, _)) = pt(&q) {
                    clash = clash.or(add(fe(&x), format!("generator {} {} generator {}", i, name, i - 1)));
                }
            }
        }
        for (b, c) in bits.iter_mut().enumerate().take(254) {
            c[(x[b / 64] >> (b % 64) & 1) as usize] += 1;
        }
        bits[254][(y[0] & 1) as usize] += 1;
    }
    if let Some((a, b)) = clash {
        return fail("related", format!("{} and {} are equal up to sign and endomorphism; {}", a, b, d()));
    }
    if size >= 128 {
        for (b, c) in bits.iter().enumerate() {
            ensure!(c[0] > 0 && c[1] > 0, "biased", "{} is the same in all {} generators; {}", if b == 254 { "the sign of y".into() } else { format!("bit {} of x", b) }, size, d());
        }
        cx.label("bits vary");
    }
    cx.label(if cpus > size { "more processors than generators" } else if size % cpus > 0 { "uneven share" } else { "even share" });
    cx.checks += 4 * size as u64;
    cx.nontrivial();
    Ok(())
}
fn c35(s: &mut Src, cx: &mut Cx) -> Res {
    if s.bool() {
        fresh::<Ec1>(s, cx)
    } else {
        fresh::<Ec0>(s, cx)
    }
}

fn main() {
    hv::main(vec![
        Spec {
            id: "C06",
            rule: "Lengths are 0-12, 0-80, around multiples of the processor count, around per-processor window thresholds (32, e^4, e^5; large part e^6, e^7, e^8; huge part e^9, e^10, e^11 per processor) and a length x processor grid; processor counts 1-8 and simulated 9-128; scalars uniform, sparse, constant, small and window-run patterns; points have known logarithms, with repeats, opposites and the identity. The result is compared with the reference multiple of the generator. Non-empty inputs are non-trivial.",
            assumptions: &["src/big.rs affine group law is correct", "processor counts above the machine's are simulated by the num_cpus stand-in"],
            parts: vec![
                Part { name: "grid", tape: 400, quick: 3_000, thorough: 60_000, case: c06_grid },
                Part { name: "lengths", tape: 400, quick: 2_500, thorough: 80_000, case: c06_small },
                Part { name: "large", tape: 400, quick: 80, thorough: 3_000, case: c06_large },
                Part { name: "huge", tape: 400, quick: 40, thorough: 600, case: c06_huge },
            ],
        },
        Spec {
            id: "C07",
            rule: "Length pairs are 1xN, Nx1, result length around powers of two, equal, small and up to 150; large ones up to 4096 (32768 thorough), huge ones with results up to 2^18 (2^20 thorough); coefficients uniform, sparse, all -1, single top term, small multiples; processor counts 1-128. Small products are compared with schoolbook convolution, large ones at a generated evaluation point. Every case is non-trivial.",
            assumptions: &["field arithmetic (C01)", "evaluation at one 255-bit point distinguishes polynomials of degree < 2^16"],
            parts: vec![
                Part { name: "convolution", tape: 400, quick: 6_000, thorough: 200_000, case: c07_small },
                Part { name: "large", tape: 400, quick: 400, thorough: 6_000, case: c07_large },
                Part { name: "huge", tape: 400, quick: 80, thorough: 1_500, case: c07_huge },
            ],
        },
        Spec {
            id: "C08",
            rule: "1-10 (part wide: 11-15) non-zero challenges (including 1, -1, small and uniform), evaluation points including 0 and 1, coefficient vectors sparse or dense, generators with known logarithms in random representations, processor counts 1-128. Each helper is compared with explicit halving. Every case is non-trivial.",
            assumptions: &["field arithmetic (C01), group law (C03)"],
            parts: vec![
                Part { name: "folding", tape: 900, quick: 2_500, thorough: 60_000, case: c08 },
                Part { name: "wide", tape: 900, quick: 80, thorough: 3_000, case: c08_wide },
                Part { name: "collapse", tape: 100, quick: 800, thorough: 20_000, case: c08_collapse },
            ],
        },
        Spec {
            id: "C35",
            rule: "Sizes 2^4 to 2^10 and processor counts 1-128, both curves; every generator, its listed coordinates, and sums and differences of neighbours are examined. Every case is non-trivial.",
            assumptions: &["processor counts above the machine's are simulated by the num_cpus stand-in", "random generators are related with negligible probability"],
            parts: vec![Part { name: "fresh", tape: 60, quick: 800, thorough: 20_000, case: c35 }],
        },
    ]);
}
