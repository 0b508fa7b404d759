//! An independent SHA-256, its constants derived from the primes rather than copied.
fn primes(n: usize) -> Vec<u64> {
    let mut v = vec![];
    let mut c = 2u64;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}
/// floor(frac(p^(1/k)) * 2^32)
fn frac(p: u64, k: u32) -> u32 {
    // largest r with r^k <= p * 2^(32k)
    let fits = |r: u64| -> bool {
        // compare r^k with p << 32k in 192-bit arithmetic
        let mut x = [r, 0, 0];
        for _ in 1..k {
            let mut c: u128 = 0;
            for l in x.iter_mut() {
                let t = *l as u128 * r as u128 + c;
                *l = t as u64;
                c = t >> 64;
            }
        }
        let mut y = [0u64; 3];
        let sh = 32 * k as usize;
        let t = (p as u128) << (sh % 64);
        y[sh / 64] = t as u64;
        if sh / 64 + 1 < 3 {
            y[sh / 64 + 1] = (t >> 64) as u64;
        }
        (x[2], x[1], x[0]) <= (y[2], y[1], y[0])
    };
    let mut r = 0u64;
    for b in (0..40).rev() {
        if fits(r | 1 << b) {
            r |= 1 << b;
        }
    }
    r as u32
}
pub fn compress(h: &mut [u32; 8], block: &[u8]) {
    let ps = primes(64);
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = u32::from_be_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    for i in 16..64 {
        let a = w[i - 15];
        let b = w[i - 2];
        let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
        let s1 = b.rotate_right(17) ^ b.rotate_right(19) ^ (b >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(frac(ps[i], 3)).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}
pub fn iv() -> [u32; 8] {
    let ps = primes(8);
    let mut h = [0u32; 8];
    for i in 0..8 {
        h[i] = frac(ps[i], 2);
    }
    h
}
pub fn out(h: &[u32; 8]) -> Vec<bool> {
    h.iter().flat_map(|x| (0..32).rev().map(move |i| x >> i & 1 == 1)).collect()
}
pub fn sha256(m: &[u8]) -> Vec<bool> {
    let mut p = m.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 {
        p.push(0);
    }
    p.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    let mut h = iv();
    for b in p.chunks(64) {
        compress(&mut h, b);
    }
    out(&h)
}

pub fn digest(m: &[u8]) -> [u8; 32] {
    let b = sha256(m);
    let mut o = [0; 32];
    for i in 0..256 {
        o[i / 8] |= (b[i] as u8) << (7 - i % 8);
    }
    o
}
