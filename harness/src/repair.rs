//! Local repair: starting from an assignment that violates some constraints, change other variables until nothing is
//! violated. Success is a satisfying assignment, found without knowing what the circuit means.
use crate::cs::Rec;
use crate::gen::PF;
use std::cmp::Reverse;
use std::collections::{BinaryHeap, HashSet};

pub struct Repair<'a, F: PF> {
    rec: &'a Rec<F>,
    start: Vec<u32>,
    occ: Vec<u32>,
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

impl<'a, F: PF> Repair<'a, F> {
    pub fn new(rec: &'a Rec<F>) -> Self {
        let n = rec.vals.len();
        let mut count = vec![0u32; n + 1];
        let each = |f: &mut dyn FnMut(usize, u32)| {
            for (i, (a, b, c)) in rec.gates.iter().enumerate() {
                f(*a, i as u32);
                f(*b, i as u32);
                f(*c, i as u32);
            }
            let g = rec.gates.len() as u32;
            for (i, l) in rec.lcs.iter().enumerate() {
                for (v, _) in l {
                    f(*v, g + i as u32);
                }
            }
        };
        // ONE never changes
        each(&mut |v, _| {
            if v != 0 {
                count[v + 1] += 1
            }
        });
        for i in 0..n {
            count[i + 1] += count[i];
        }
        let start = count.clone();
        let mut occ = vec![0u32; start[n] as usize];
        let mut at = start.clone();
        each(&mut |v, c| {
            if v != 0 {
                occ[at[v] as usize] = c;
                at[v] += 1;
            }
        });
        Repair { rec, start, occ }
    }
    pub fn holds(&self, c: u32, w: &[F]) -> bool {
        let g = self.rec.gates.len();
        let c = c as usize;
        if c < g {
            let (x, y, z) = self.rec.gates[c];
            w[x] * w[y] == w[z]
        } else {
            let mut a = F::zero();
            for (v, k) in &self.rec.lcs[c - g] {
                a += w[*v] * *k;
            }
            bool::from(a.is_zero())
        }
    }
    pub fn violated(&self, w: &[F]) -> Vec<u32> {
        (0..(self.rec.gates.len() + self.rec.lcs.len()) as u32).filter(|c| !self.holds(*c, w)).collect()
    }
    /// the violated constraints among those of the given variables
    pub fn around(&self, w: &[F], vars: &[usize]) -> Vec<u32> {
        let mut v: Vec<u32> = vars.iter().flat_map(|v| self.of(*v).iter().copied()).filter(|c| !self.holds(*c, w)).collect();
        v.sort();
        v.dedup();
        v
    }
    fn of(&self, v: usize) -> &[u32] {
        &self.occ[self.start[v] as usize..self.start[v + 1] as usize]
    }
    fn key(&self, c: u32) -> usize {
        let g = self.rec.gates.len();
        if (c as usize) < g {
            let (x, y, z) = self.rec.gates[c as usize];
            x.max(y).max(z)
        } else {
            self.rec.lcs[c as usize - g].iter().map(|t| t.0).max().unwrap_or(0)
        }
    }
    fn solve(&self, c: u32, v: usize, w: &[F]) -> Option<F> {
        let g = self.rec.gates.len();
        if (c as usize) < g {
            let (x, y, z) = self.rec.gates[c as usize];
            let div = |p: F, q: F| if bool::from(q.is_zero()) { None } else { Some(p * q.invert().unwrap()) };
            if v == z && v != x && v != y {
                Some(w[x] * w[y])
            } else if v == x && v != y && v != z {
                div(w[z], w[y])
            } else if v == y && v != x && v != z {
                div(w[z], w[x])
            } else {
                None
            }
        } else {
            let (mut k, mut rest) = (F::zero(), F::zero());
            for (u, q) in &self.rec.lcs[c as usize - g] {
                if *u == v {
                    k += *q;
                } else {
                    rest += w[*u] * *q;
                }
            }
            if bool::from(k.is_zero()) {
                None
            } else {
                Some((F::zero() - rest) * k.invert().unwrap())
            }
        }
    }
    /// One attempt; the assignment is put back when it fails. `chance`: how often (in 16ths) the newest variable of a
    /// violated constraint is the one that gives way.
    pub fn attempt(&self, rng: &mut Rng, w: &mut [F], frozen: &HashSet<usize>, bad: &[u32], chance: usize, limit: usize) -> bool {
        let mut undo: Vec<(usize, F)> = vec![];
        let mut pinned: HashSet<usize> = HashSet::new();
        let mut heap: BinaryHeap<Reverse<(usize, u32)>> = bad.iter().map(|c| Reverse((self.key(*c), *c))).collect();
        let mut good = true;
        while let Some(Reverse((_, c))) = heap.pop() {
            if self.holds(c, w) {
                continue;
            }
            let g = self.rec.gates.len();
            let mut cand: Vec<usize> = if (c as usize) < g {
                let (x, y, z) = self.rec.gates[c as usize];
                vec![x, y, z]
            } else {
                self.rec.lcs[c as usize - g].iter().map(|t| t.0).collect()
            };
            cand.retain(|v| *v != 0 && !frozen.contains(v) && !pinned.contains(v));
            cand.sort();
            cand.dedup();
            let mut done = false;
            while !cand.is_empty() {
                let i = if rng.below(16) < chance { cand.len() - 1 } else { rng.below(cand.len()) };
                let v = cand.remove(i);
                if let Some(x) = self.solve(c, v, w) {
                    undo.push((v, w[v]));
                    w[v] = x;
                    pinned.insert(v);
                    for d in self.of(v) {
                        if !self.holds(*d, w) {
                            heap.push(Reverse((self.key(*d), *d)));
                        }
                    }
                    done = true;
                    break;
                }
            }
            if !done || undo.len() > limit {
                good = false;
                break;
            }
        }
        if !good {
            for (v, x) in undo.into_iter().rev() {
                w[v] = x;
            }
        }
        good
    }
}

/// Consecutive variables (at a fixed distance of each other) that hold these bits, the first such place from `from` on.
pub fn locate<F: PF>(w: &[F], bits: &[bool], from: usize) -> Option<Vec<usize>> {
    let (zero, one) = (F::zero(), F::one());
    let cls: Vec<u8> = w.iter().map(|v| if *v == zero { 0 } else if *v == one { 1 } else { 2 }).collect();
    for stride in 1..=6 {
        let span = (bits.len() - 1) * stride;
        for at in from..w.len().saturating_sub(span) {
            if bits.iter().enumerate().all(|(i, b)| cls[at + i * stride] == *b as u8) {
                return Some((0..bits.len()).map(|i| at + i * stride).collect());
            }
        }
    }
    None
}
