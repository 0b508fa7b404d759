//! Points with an independent affine reference value, in many internal representations.
use crate::big::{self, Pt};
use crate::engine::Src;
use crate::gen::*;
use std::sync::OnceLock;

/// 2^i * G for i < 256 by the reference arithmetic
pub fn pool<C: PC>() -> &'static Vec<Pt> {
    static A: OnceLock<(Vec<Pt>, Vec<Pt>)> = OnceLock::new();
    let build = |rc: big::RefCurve, g: Pt| {
        let mut v = vec![g];
        for i in 0..255 {
            let n = rc.add(&v[i], &v[i]);
            v.push(n);
        }
        v
    };
    let a = A.get_or_init(|| {
        let g0 = pt(&<halo::Ec0 as halo::Curve>::one());
        let g1 = pt(&<halo::Ec1 as halo::Curve>::one());
        (build(halo::Ec0::rc(), g0), build(halo::Ec1::rc(), g1))
    });
    if C::NAME == "Ec0" {
        &a.0
    } else {
        &a.1
    }
}

/// k * G by the reference
pub fn ref_mul_g<C: PC>(k: &big::U) -> Pt {
    let rc = C::rc();
    let p = pool::<C>();
    let mut r = None;
    for i in 0..256 {
        if big::bit(k, i) {
            r = rc.add(&r, &p[i]);
        }
    }
    r
}

/// some reference point (affine); about 1 in 10 the identity
pub fn gen_ref<C: PC>(s: &mut Src) -> Pt {
    let rc = C::rc();
    let p = pool::<C>();
    match s.weighted(&[2, 3, 3, 4, 2]) {
        0 => None,
        1 => p[s.below(4)],
        2 => p[s.below(256)],
        3 => rc.add(&p[s.below(256)], &p[s.below(256)]),
        _ => {
            let q = rc.add(&p[s.below(256)], &p[s.below(8)]);
            let q = if s.bool() { rc.neg(&q) } else { q };
            // endomorphism image
            q.map(|(x, y)| (rc.m.mul(&x, &val(&C::Base::BETA)), y))
        }
    }
}
use halo::Field;

/// the same point in one of several internal representations
pub fn gen_rep<C: PC>(s: &mut Src, p: &Pt) -> C {
    let a: C = mk(p);
    match s.below(7) {
        0 => a,
        1 => {
            let t = mk::<C>(&pool::<C>()[s.below(256)]);
            (a + t) - t
        }
        2 => {
            let t = mk::<C>(&pool::<C>()[s.below(256)]);
            (t - a) * (-C::Scalar::one()) + t
        }
        3 => a + C::zero(),
        4 => a.double() - a,
        5 => -(-a),
        _ => C::from_bytes(&a.to_bytes()).unwrap(),
    }
}
