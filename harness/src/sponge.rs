//! Independent model of the Rescue permutation and sponge (parameters as documented in src/rescue.rs).
use crate::big;
use crate::gen::PF;
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

pub const M: usize = 13;
pub const RATE: usize = 12;
const HALF: usize = 20;

/// exponent of the fifth root: (k(p-1)+1)/5 for the k that divides
pub fn fifth_root_exp(p: &big::U) -> big::U {
    let pm1 = big::sub(p, &big::u(1)).0;
    let mut q = [0u64; 4];
    let mut r = 0u128;
    for i in (0..4).rev() {
        let c = (r << 64) | pm1[i] as u128;
        q[i] = (c / 5) as u64;
        r = c % 5;
    }
    for k in 1..5u64 {
        if (k * r as u64 + 1) % 5 == 0 {
            let mut e = big::u((k * r as u64 + 1) / 5);
            for _ in 0..k {
                e = big::add(&e, &q).0;
            }
            return e;
        }
    }
    panic!("no fifth root exponent")
}
pub fn pow<F: PF>(x: F, e: &big::U) -> F {
    let mut acc = F::one();
    for i in (0..256).rev() {
        acc = acc * acc;
        if big::bit(e, i) {
            acc = acc * x;
        }
    }
    acc
}
pub fn fifth<F: PF>(x: F) -> F {
    let y = x * x;
    y * y * x
}
pub fn root5<F: PF>(x: F) -> F {
    static E: OnceLock<[big::U; 2]> = OnceLock::new();
    let e = E.get_or_init(|| [fifth_root_exp(&big::P), fifth_root_exp(&big::Q)]);
    pow(x, if F::NAME == "Fp" { &e[0] } else { &e[1] })
}

fn half_round<F: PF>(st: &[F; M], r: usize) -> [F; M] {
    let mut w = [F::zero(); M];
    for j in 0..M {
        w[j] = if r % 2 == 0 { root5(st[j]) } else { fifth(st[j]) };
    }
    // row i of the linear layer is (i+1) times the row (0, 1, .., 12)
    let mut t = F::zero();
    let mut k = F::zero();
    for x in w.iter() {
        t += k * *x;
        k += F::one();
    }
    let mut out = [F::zero(); M];
    let mut acc = F::zero();
    for o in out.iter_mut() {
        acc += t;
        *o = acc;
    }
    out
}

fn keys<F: PF>() -> Vec<[F; M]> {
    let mut st = [F::one(); M];
    let mut ks = vec![st];
    for r in 0..HALF {
        st = half_round(&st, r);
        for x in st.iter_mut() {
            *x += F::one();
        }
        ks.push(st);
    }
    ks
}
fn cached<F: PF>() -> &'static Vec<[F; M]> {
    static K: OnceLock<Mutex<HashMap<&'static str, usize>>> = OnceLock::new();
    let mut m = K.get_or_init(|| Mutex::new(HashMap::new())).lock().unwrap();
    let a = *m.entry(F::NAME).or_insert_with(|| Box::leak(Box::new(keys::<F>())) as *const Vec<[F; M]> as usize);
    // one entry per field name, never freed
    unsafe { &*(a as *const Vec<[F; M]>) }
}
pub fn permute<F: PF>(st: &mut [F; M]) {
    let ks = cached::<F>();
    for i in 0..M {
        st[i] += ks[0][i];
    }
    for r in 0..HALF {
        *st = half_round(st, r);
        for i in 0..M {
            st[i] += ks[r + 1][i];
        }
    }
}

/// The sponge as a history: what is pending, and how much of the rate has been handed out.
#[derive(Clone)]
pub struct Sponge<F: PF> {
    pub st: [F; M],
    pending: Vec<F>,
    /// None: absorbing; Some(n): n elements of the current output already taken
    out: Option<usize>,
}
impl<F: PF> Sponge<F> {
    pub fn new() -> Self {
        Sponge { st: [F::zero(); M], pending: vec![], out: None }
    }
    fn flush(&mut self) {
        for i in 0..RATE {
            self.st[i] += self.pending.get(i).copied().unwrap_or(F::one());
        }
        self.pending.clear();
        permute(&mut self.st);
    }
    pub fn absorb(&mut self, x: F) {
        if self.out.is_none() && self.pending.len() == RATE {
            self.flush();
        }
        self.out = None;
        self.pending.push(x);
    }
    pub fn squeeze(&mut self) -> F {
        if self.out == Some(RATE) {
            self.out = None;
        }
        let n = match self.out {
            Some(n) => n,
            None => {
                self.flush();
                0
            }
        };
        self.out = Some(n + 1);
        self.st[n]
    }
}
