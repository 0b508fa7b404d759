//! C10 the sponge against a model, C12 influence of every absorbed element
use halo::rescue::Rescue;
use halo::*;
use hv::ensure;
use hv::gen::*;
use hv::sponge::*;
use hv::*;
use std::sync::OnceLock;

fn fresh<F: PF>(s: &mut Src) -> Rescue<F> {
    match s.below(8) {
        0 => Rescue::default(),
        1 => Rescue::new(),
        _ => {
            static A: OnceLock<Rescue<Fp>> = OnceLock::new();
            static B: OnceLock<Rescue<Fq>> = OnceLock::new();
            let any: &dyn std::any::Any = if F::NAME == "Fp" { A.get_or_init(Rescue::new) } else { B.get_or_init(Rescue::new) };
            any.downcast_ref::<Rescue<F>>().unwrap().clone()
        }
    }
}
fn run_len(s: &mut Src) -> usize {
    match s.weighted(&[20, 12, 4, 1]) {
        0 => 1 + s.below(5),
        1 => s.pick(&[11usize, 12, 13]),
        2 => s.pick(&[23usize, 24, 25, 26]),
        _ => 27 + s.below(600),
    }
}

fn elems<F: PF>(s: &mut Src, n: usize) -> Vec<F> {
    if n > 38 {
        let tape = grown(s.u64(), 80 * n);
        return elems_of(&mut Src::new(&tape), n);
    }
    elems_of(s, n)
}
fn elems_of<F: PF>(s: &mut Src, n: usize) -> Vec<F> {
    (0..n).map(|_| if s.bool() { gen_fe(s) } else { gen_fe_fast(s) }).collect()
}
fn history<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let mut regs: Vec<(Rescue<F>, Sponge<F>)> = vec![(fresh(s), Sponge::new())];
    let steps = 2 + s.below(6);
    let mut log = String::new();
    let mut squeezed = 0;
    let mut cloned = false;
    let mut absorbs = 0;
    for _ in 0..steps {
        let i = s.below(regs.len());
        match s.weighted(&[5, 5, 1, 1]) {
            0 => {
                let n = run_len(s);
                log += &format!("r{}:absorb*{} ", i, n);
                absorbs += n;
                for x in elems::<F>(s, n) {
                    regs[i].0.absorb(x);
                    regs[i].1.absorb(x);
                }
            }
            1 => {
                let n = run_len(s);
                log += &format!("r{}:squeeze*{} ", i, n);
                for k in 0..n {
                    let a = regs[i].0.squeeze();
                    let b = regs[i].1.squeeze();
                    squeezed += 1;
                    ensure!(a == b, "value", "{} after [{}] squeeze {} of sponge {} gave {:?}, model {:?}", F::NAME, log, k, i, a, b);
                    cx.checks += 1;
                }
            }
            2 => {
                log += &format!("r{}:clone ", i);
                cloned = true;
                if regs.len() < 3 {
                    let c = (regs[i].0.clone(), regs[i].1.clone());
                    regs.push(c);
                }
            }
            _ => {
                log += "new ";
                if regs.len() < 3 {
                    let r = fresh(s);
                    regs.push((r, Sponge::new()));
                }
            }
        }
    }
    // every sponge must still agree at the end
    for (i, r) in regs.iter_mut().enumerate() {
        let (a, b) = (r.0.squeeze(), r.1.squeeze());
        squeezed += 1;
        ensure!(a == b, "value", "{} after [{}] final squeeze of sponge {} gave {:?}, model {:?}", F::NAME, log, i, a, b);
    }
    if squeezed > 1 && (absorbs > 12 || cloned || squeezed > 12) {
        cx.nontrivial();
    }
    if cloned {
        cx.label("cloned");
    }
    if absorbs > 12 {
        cx.label("crossed a block while absorbing");
    }
    if squeezed > 12 {
        cx.label("crossed a block while squeezing");
    }
    cx.sample(|| format!("{} {}", F::NAME, log));
    Ok(())
}

/// Two histories of equal shape differing in some elements.
fn influence<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let n = match s.weighted(&[15, 10, 5, 1]) {
        0 => 1 + s.below(12),
        1 => 12 + s.below(13),
        2 => 25 + s.below(13),
        _ => 38 + s.below(600),
    };

    // squeezes between absorbs, before and after the difference
    let mut xs: Vec<F> = elems(s, n);
    let gap = if s.chance(1, 3) { Some((s.below(n + 1), 1 + s.below(14))) } else { None };
    let mut ys = xs.clone();
    let kind = s.weighted(&[6, 2, 2, 1]);
    let at;
    // position within its block: the blocks restart after a squeeze
    let slot = |i: usize| match gap {
        Some((g, _)) if i >= g => (i - g) % RATE,
        _ => i % RATE,
    };
    match kind {
        0 | 1 => {
            at = s.below(n);
            let v = hv::gen::val(&xs[at]);
            ys[at] = if kind == 0 { fe::<F>(&related::<F>(s, &v)) } else { gen_fe(s) };
        }
        2 if n > 1 => {
            // swap two elements
            at = s.below(n);
            let j = s.below(n);
            ys.swap(at, j);
        }
        _ => {
            // replaced from one position on
            at = s.below(n);
            for y in ys[at..].iter_mut() {
                *y = gen_fe_fast(s);
            }
        }
    }
    if xs == ys {
        let i = at;
        ys[i] = ys[i] + F::one();
        std::mem::swap(&mut xs, &mut ys);
    }
    let diff: Vec<usize> = (0..n).filter(|i| xs[*i] != ys[*i]).collect();
    let take = 1 + s.below(3);
    let run = |v: &[F], s: &mut Src| {
        let mut r = fresh::<F>(s);
        for (i, x) in v.iter().enumerate() {
            if let Some((g, k)) = gap {
                if g == i {
                    for _ in 0..k {
                        r.squeeze();
                    }
                }
            }
            r.absorb(*x);
        }
        if let Some((g, k)) = gap {
            if g == v.len() {
                for _ in 0..k {
                    r.squeeze();
                }
            }
        }
        (0..take).map(|_| r.squeeze()).collect::<Vec<F>>()
    };
    let a = run(&xs, s);
    let b = run(&ys, s);
    cx.nontrivial();
    cx.label(if diff.len() == 1 { "one element differs" } else { "several elements differ" });
    cx.sample(|| format!("{} {} elements, gap {:?}, differing at {:?} (slots {:?})", F::NAME, n, gap, diff, diff.iter().map(|i| slot(*i)).collect::<Vec<_>>()));
    // a gap at the end ends the absorbing phase: its squeezes see the difference too, so nothing changes
    let only0 = diff.iter().all(|i| slot(*i) == 0);
    if only0 {
        cx.label("difference confined to slot 0");
    }
    for k in 0..take {
        ensure!(a[k] != b[k], if only0 { "slot0" } else { "collision" },
            "{}: two histories of {} elements (gap {:?}) differing at positions {:?} squeeze the same element {}", F::NAME, n, gap, diff, k);
        cx.checks += 1;
    }
    Ok(())
}

/// Differences built so that a rank-one linear layer cancels them.
fn compensated<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let xs: Vec<F> = (0..RATE).map(|_| rand_fe(s)).collect();
    let i = 1 + s.below(RATE - 1);
    let mut j = 1 + s.below(RATE - 1);
    if i == j {
        j = 1 + (j % (RATE - 1));
    }
    // the first S-box input is x + 1; keep i * root(x_i + 1) + j * root(x_j + 1) unchanged
    let f = |k: usize| F::from_u64(k as u64);
    let t = f(i) * root5(xs[i] + F::one()) + f(j) * root5(xs[j] + F::one());
    let mut ys = xs.clone();
    ys[i] = rand_fe(s);
    if ys[i] == xs[i] {
        ys[i] += F::one();
    }
    let rest = (t - f(i) * root5(ys[i] + F::one())) * f(j).invert().unwrap();
    ys[j] = fifth(rest) - F::one();
    let run = |v: &[F], s: &mut Src| {
        let mut r = fresh::<F>(s);
        for x in v {
            r.absorb(*x);
        }
        r.squeeze()
    };
    let (a, b) = (run(&xs, s), run(&ys, s));
    cx.nontrivial();
    cx.sample(|| format!("{} compensated pair at slots {} and {}", F::NAME, i, j));
    ensure!(a != b, "compensated", "{}: elements at slots {} and {} changed together, keeping {}*x^(1/5)+{}*y^(1/5): same output", F::NAME, i, j, i, j);
    Ok(())
}

fn main() {
    hv::main(vec![
        Spec {
            id: "C10",
            rule: "at least two elements squeezed, and a block boundary crossed or a sponge cloned",
            assumptions: &["the model takes the round constants, linear layer and padding as documented in src/rescue.rs", "field arithmetic is the crate's own (C01)"],
            parts: vec![
                Part { name: "history-Fp", tape: 6000, quick: 2400, thorough: 60000, case: history::<Fp> },
                Part { name: "history-Fq", tape: 6000, quick: 2400, thorough: 60000, case: history::<Fq> },
            ],
        },
        Spec {
            id: "C12",
            rule: "the two histories differ",
            assumptions: &["an accidental collision of random elements has negligible probability"],
            parts: vec![
                Part { name: "influence-Fp", tape: 1600, quick: 5000, thorough: 100000, case: influence::<Fp> },
                Part { name: "influence-Fq", tape: 1600, quick: 5000, thorough: 100000, case: influence::<Fq> },
                Part { name: "compensated-Fp", tape: 600, quick: 100, thorough: 2000, case: compensated::<Fp> },
                Part { name: "compensated-Fq", tape: 600, quick: 100, thorough: 2000, case: compensated::<Fq> },
            ],
        },
    ])
}
