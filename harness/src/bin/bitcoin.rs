//! C32 the Bitcoin header circuit of examples/bitcoin.rs
#![no_main]
#![allow(dead_code, deprecated)]
// at the root, since the example loads macros; its main function is not called
include!("/repo/examples/bitcoin.rs");

mod check {
use halo::*;
use hv::cs::Rec;
use hv::ensure;
use hv::gen::*;
use hv::sha::digest as sha;
use hv::*;

fn bits_of(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect()
}
fn sha256d(b: &[u8]) -> [u8; 32] {
    sha(&sha(b))
}

/// Little-endian 256-bit integers, enough of them for targets and work.
type N = [u64; 4];
fn add(a: N, b: N) -> N {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    r
}
/// floor(2^256 / d) for d > 1, bit by bit
fn inverse(d: N) -> N {
    let lt = |a: &[u64; 5], b: &[u64; 5]| a.iter().rev().lt(b.iter().rev());
    let d5 = [d[0], d[1], d[2], d[3], 0];
    let (mut rem, mut q) = ([0u64; 5], [0u64; 4]);
    rem[0] = 1;
    for i in 0..257 {
        // rem holds the leading i + 1 bits of 2^256, reduced
        if i > 0 {
            for j in (0..5).rev() {
                rem[j] = rem[j] << 1 | if j > 0 { rem[j - 1] >> 63 } else { 0 };
            }
            for j in (0..4).rev() {
                q[j] = q[j] << 1 | if j > 0 { q[j - 1] >> 63 } else { 0 };
            }
        }
        if !lt(&rem, &d5) {
            let mut b = 0i128;
            for j in 0..5 {
                b += rem[j] as i128 - d5[j] as i128;
                rem[j] = b as u64;
                b >>= 64;
            }
            q[0] |= 1;
        }
    }
    q
}
fn bytes(n: N) -> Vec<u8> {
    n.iter().flat_map(|l| l.to_le_bytes()).collect()
}
fn from_bytes(b: &[u8]) -> N {
    let mut n = [0; 4];
    for i in 0..4 {
        n[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    n
}

struct Step {
    height: u32,
    work: N,
    old: Vec<u8>,
    new: Vec<u8>,
}
impl Step {
    fn payload(height: u32, work: N, header: &[u8]) -> Vec<u8> {
        let mut v = height.to_le_bytes().to_vec();
        v.extend(bytes(work));
        v.extend(header);
        v
    }
    fn old(&self) -> Vec<u8> {
        Step::payload(self.height, self.work, &self.old)
    }
}
fn minus_one<F: PF>() -> [u8; 32] {
    (-F::one()).to_bytes()
}
/// The 256-bit value with the bits of every byte in the opposite order
fn reversed(n: N) -> N {
    let mut b = bytes(n);
    for x in b.iter_mut() {
        *x = x.reverse_bits();
    }
    from_bytes(&b)
}
/// nBits, little-endian, with the target it stands for; if asked for, one whose bytes read the same in both directions
fn nbits(s: &mut Src, palindrome: bool) -> ([u8; 4], N) {
    let size = match s.weighted(&[3, 1, 1]) {
        0 => s.range(4, 31),
        1 => 4,
        _ => 31,
    };
    let m: u32 = match s.below(6) {
        0 => 1,
        1 => 0x7fffff,
        2 => 0xffff,
        3 => 1 << s.below(23),
        _ => (s.u64() as u32 & 0x7fffff).max(1),
    };
    let m = if palindrome {
        let fold = |b: u32| b & 15 | ((b & 15) as u8).reverse_bits() as u32;
        let m = fold(m >> 16 & !1) << 16 | fold(m >> 8) << 8 | fold(m);
        if m == 0 { 0x81 } else { m }
    } else {
        m
    };
    let mut t = [0u8; 32];
    for i in 0..3 {
        t[size - 3 + i] = (m >> (8 * i)) as u8;
    }
    ([m as u8, (m >> 8) as u8, (m >> 16) as u8, size as u8], from_bytes(&t))
}
fn synth<F: PF>(old: &[u8], new: &[u8]) -> (Result<(), SynthesisError>, Rec<F>) {
    let c = crate::BitcoinHeaderCircuit;
    let mut r = Rec::<F>::new(true);
    let run = |r: &mut Rec<F>| -> Result<(), SynthesisError> {
        let mut alloc = |bits: Vec<bool>| -> Result<Vec<AllocatedBit>, SynthesisError> { bits.into_iter().map(|b| AllocatedBit::alloc(&mut *r, || Ok(b))).collect() };
        let o = alloc(bits_of(old))?;
        let n = alloc(bits_of(new))?;
        RecursiveCircuit::<F>::synthesize(&c, r, &o, &n)
    };
    let e = guarded(|| run(&mut r)).unwrap_or(Err(SynthesisError::Violation));
    (e, r)
}
fn case<F: PF>(s: &mut Src, cx: &mut Cx) -> Res {
    let base = s.chance(1, 6);
    let mut st = if base {
        let b = RecursiveCircuit::<F>::base_payload(&crate::BitcoinHeaderCircuit);
        let b: Vec<u8> = b.chunks(8).map(|c| c.iter().enumerate().map(|(i, b)| (*b as u8) << i).sum()).collect();
        ensure!(b.len() == 116, "base/length", "base payload has {} bytes", b.len());
        Step { height: u32::from_le_bytes(b[..4].try_into().unwrap()), work: from_bytes(&b[4..36]), old: b[36..].to_vec(), new: vec![] }
    } else {
        let height = match s.below(4) {
            0 => 0,
            1 => u32::MAX - 1,
            _ => s.u64() as u32 & 0x7fffffff,
        };
        let mut work = [s.u64(), s.u64(), s.u64(), if s.bool() { s.u64() >> 4 } else { 0 }];
        if s.bool() {
            work[s.below(3)] = u64::MAX;
        }
        Step { height, work, old: (0..80).map(|_| s.u8()).collect(), new: vec![] }
    };
    st.new = (0..80).map(|_| s.u8()).collect();
    st.new[4..36].copy_from_slice(&sha256d(&st.old));
    let kind = s.weighted(&[4, 1, 1, 1, 1, 1, 1, 1, 1]);
    // (see known_findings.txt: other targets are refused, so they would hide what else is wrong)
    let palindrome = kind != 0 || s.chance(3, 4);
    let (nb, target) = nbits(s, palindrome);
    st.new[72..76].copy_from_slice(&nb);
    let bw = inverse(add(target, [1, 0, 0, 0]));
    let (mut height, mut work) = (st.height.wrapping_add(1), add(st.work, bw));
    let mut want = false;
    let what = match kind {
        0 => {
            want = true;
            "nothing"
        }
        1 => {
            height = match s.below(3) {
                0 => st.height,
                1 => st.height.wrapping_add(2),
                _ => height ^ 1 << s.below(32),
            };
            "the height"
        }
        2 => {
            let i = s.below(256);
            st.new[4 + i / 8] ^= 1 << (i % 8);
            "the previous hash"
        }
        3 => {
            let i = s.below(256);
            work[i / 64] ^= 1 << (i % 64);
            "the chain work"
        }
        4 => {
            st.new[74] |= 0x80;
            "the sign of the target"
        }
        5 => {
            let i = s.below(640);
            st.old[i / 8] ^= 1 << (i % 8);
            "the previous header"
        }
        6 => {
            // a multiple of the modulus more work
            let p = from_bytes(&minus_one::<F>());
            let n = s.range(1, 3);
            for _ in 0..n {
                work = add(add(work, p), [1, 0, 0, 0]);
            }
            "the chain work, by a multiple of the modulus"
        }
        7 => {
            // the exponents the circuit rules out; the work is that of the same size modulo 32
            let e = match s.below(3) {
                0 => s.below(4),
                1 => 32 + s.below(3),
                _ => 32 * s.range(1, 7) + (nb[3] & 31) as usize,
            };
            st.new[75] = e as u8;
            "the exponent of the target"
        }
        _ => {
            st.new[72..75].copy_from_slice(&[0; 3]);
            if s.bool() {
                work = add(st.work, [0, 0, 0, if s.bool() { 1 } else { 1 << 61 }]);
            }
            "the target, to zero"
        }
    };
    let (old, new) = (st.old(), Step::payload(height, work, &st.new));
    let d = || format!("old {:02x?} new {:02x?}, altered {}, nbits {:02x?}", old, new, what, nb);
    cx.sample(d);
    let (e, r) = synth::<F>(&old, &new);
    if want && e.is_ok() && r.satisfied().is_some() {
        // Refused: is it because the value of the target, and only that, was taken with the bits of each byte reversed?
        let mut w = r.assignment();
        let f = |n: N| n.iter().rev().fold(F::zero(), |a, l| a * F::from_u64(1 << 32) * F::from_u64(1 << 32) + F::from_u64(*l));
        let off: Vec<_> = r.gates.iter().filter(|g| w[g.0] * w[g.1] != w[g.2]).collect();
        if let [g] = off[..] {
            if w[g.0] * w[g.1] == f(target) && w[g.2] == f(reversed(target)) {
                w[g.2] = f(target);
                let rest = r.violated(&w);
                ensure!(rest.is_some(), "reversed-target", "refused, but satisfied once the target has its bits in order; {}", d());
            }
        }
    }
    if want {
        ensure!(e.is_ok(), "synthesis", "{:?}; {}", e, d());
    }
    let bad = if e.is_ok() { r.satisfied() } else { Some(format!("{:?}", e)) };
    if want {
        ensure!(bad.is_none(), "refused", "{:?}; {}", bad, d());
    } else {
        ensure!(bad.is_some(), if kind == 6 { "work-modulo-field" } else { "accepted" }, "{}", d());
    }
    cx.label(what);
    cx.checks += 1;
    cx.nontrivial();
    Ok(())
}

#[export_name = "main"]
pub extern "C" fn start(_argc: i32, _argv: *const *const u8) -> i32 {
    hv::main(vec![Spec {
        id: "C32",
        rule: "every generated step: a pair of payloads, valid or broken in one place",
        assumptions: &["an honest prover: the example leaves the range checks of hash and remainder and the start of its power loop as TODOs, so a malicious prover is out of its scope"],
        parts: vec![
            Part { name: "Fp", tape: 400, quick: 500, thorough: 6000, case: case::<Fp> },
            Part { name: "Fq", tape: 400, quick: 500, thorough: 6000, case: case::<Fq> },
        ],
    }]);
    0
}
}
