//! Deterministic parameters of every small size.
use crate::gen::*;
use halo::{Field, Params};
use std::any::Any;
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

/// Generators derived from a fixed stream of bytes; no known relation between them.
pub fn params<C: PC>(k: usize) -> &'static Params<C> {
    static P: OnceLock<Mutex<HashMap<(&'static str, usize), &'static (dyn Any + Send + Sync)>>> = OnceLock::new();
    let m = P.get_or_init(|| Mutex::new(HashMap::new()));
    if let Some(p) = m.lock().unwrap().get(&(C::NAME, k)) {
        return p.downcast_ref().unwrap();
    }
    let p: &'static Params<C> = Box::leak(Box::new(make(k)));
    m.lock().unwrap().entry((C::NAME, k)).or_insert(p).downcast_ref().unwrap()
}
fn make<C: PC>(k: usize) -> Params<C> {
    let d = 1usize << k;
    let gen = |i: usize| -> C {
        let mut x = (i as u64) << 8 | 0x5a | (k as u64) << 56;
        loop {
            let mut b = [0u8; 32];
            for c in b.chunks_mut(8) {
                x = x.wrapping_add(0x9E3779B97F4A7C15);
                let mut z = x;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
            }
            b[31] &= 0xbf;
            let p = C::from_bytes(&b);
            if bool::from(p.is_some()) {
                return p.unwrap();
            }
        }
    };
    let generators: Vec<C> = if d >= 1024 {
        let mut v = vec![C::zero(); d];
        std::thread::scope(|sc| {
            for (j, c) in v.chunks_mut(d / 8).enumerate() {
                sc.spawn(move || {
                    for (i, g) in c.iter_mut().enumerate() {
                        *g = gen(j * (d / 8) + i);
                    }
                });
            }
        });
        v
    } else {
        (0..d).map(gen).collect()
    };
    let generators_xy = generators
        .iter()
        .map(|g| {
            let (x, y, z) = g.get_xyz();
            if z == C::Base::one() {
                (x, y)
            } else {
                let (x, y) = g.get_xy().unwrap();
                (x, y)
            }
        })
        .collect();
    let _ = C::Base::one();
    Params { g: C::one(), d, n: d / 4, k, generators, generators_xy }
}
