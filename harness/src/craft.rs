//! Crafted secret keys and ciphertexts that put chosen values on the
//! intermediate polynomials of decapsulation, and mutations of genuine ones.

use crate::gen;
use crate::prng::Prng;
use refntru::{Params, Sk, P};

/// A decapsulation problem with everything chosen except the last field of the
/// key, so that any blinding polynomial can be produced cheaply.
pub struct Bench {
    pub p: Params,
    pub f: P,
    pub f3: P,
    /// received polynomial, canonical modulo q, sum zero
    pub c: P,
    pub ct: Vec<u8>,
    /// message the ciphertext decrypts to
    pub m: P,
    /// inverse of c - lift(m) modulo (q, Phi)
    pub binv: P,
    pub what: &'static str,
}

pub fn monomial(p: &Params, j: usize, neg: bool) -> P {
    let mut f = vec![0u32; p.n];
    f[j] = if neg { 2 } else { 1 };
    f
}

fn rotate(p: &Params, a: &[u32], by: usize) -> P {
    // a * x^by modulo x^n - 1
    let n = p.n;
    let mut r = vec![0; n];
    for i in 0..n {
        r[(i + by) % n] = a[i];
    }
    r
}

/// How the coefficients of c*f are chosen.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Spread {
    /// the message itself, no multiples of 3 added (as small as possible)
    Small,
    /// anywhere in [-q/2, q/2)
    Full,
    /// hugging -q/2, q/2-1 and 0
    Edge,
}

/// Build a problem whose decrypted message is `m` (n-1 trits), for f = ±x^j.
pub fn bench(rng: &mut Prng, p: &Params, m: &[u32], spread: Spread) -> Option<Bench> {
    let n = p.n;
    let j = rng.below(n - 1); // x^(n-1) is not representable in the key
    let neg = rng.chance(2);
    let f = monomial(p, j, neg);
    let f3 = p.inv_s3(&f)?;
    let mut mm: P = m.to_vec();
    mm.push(0);
    // m*f modulo (3, x^n-1), a representative; any multiple of Phi may be added
    let mut want = rotate(p, &mm, j);
    if neg {
        want = want.iter().map(|c| (3 - c) % 3).collect();
    }
    for _attempt in 0..60 {
        let aq = match received(rng, p, &want, spread) {
            Some(a) => a,
            None if spread == Spread::Small => return bench(rng, p, m, Spread::Full),
            None => continue,
        };
        // c = a * f^-1 = ±x^(n-j)
        let mut c = rotate(p, &aq, n - j);
        if neg {
            c = c.iter().map(|x| (p.q() - x) % p.q()).collect();
        }
        // the representative of c modulo x^n-1 is fixed by c(1)=0
        let ct = p.pack_sq(&c);
        if p.unpack_rq0(&ct) != c {
            return None;
        }
        if let Some(binv) = unblind(p, &c, &mm) {
            return Some(Bench { p: *p, f, f3, c, ct, m: mm, binv, what: "crafted" });
        }
    }
    None
}

/// A problem whose last product modulo 3 adds up to large numbers: all but
/// about one in `thin` coefficients of the second part of the key are 2.
pub fn dense(rng: &mut Prng, p: &Params, thin: usize, spread: Spread) -> Option<Bench> {
    let n = p.n;
    let (mut f3, mut mf, mut m): (P, P, P);
    if p.is_hps() {
        m = message(rng, p, p.weight() / 2, p.weight() / 2);
        m.push(0);
        // a one in front turns the zeros of the other factor into twos
        let i = m.iter().position(|c| *c == 1)?;
        m.swap(i, n - 2);
        f3 = vec![2; n];
        if rng.chance(2) {
            f3.iter_mut().for_each(|c| if rng.below(thin) == 0 { *c = rng.below(3) as u32 });
        }
        f3[n - 1] = 0;
        mf = p.mul_s3(&m, &p.inv_s3(&f3)?);
    } else {
        f3 = (0..n).map(|i| if i + 1 == n { 0 } else if rng.below(thin) == 0 { rng.below(3) as u32 } else { 2 }).collect();
        if rng.chance(4) {
            f3.iter_mut().for_each(|c| *c = *c * 2 % 3);
        }
        // the factors are alike, so that the numbers in the sums are large together
        mf = (0..n).map(|i| f3[n - 1 - i]).collect();
        (mf[0], mf[n - 1]) = (2, 0);
        m = p.mul_s3(&mf, &f3);
    }
    for _attempt in 0..20 {
        let Some(c) = received(rng, p, &mf, spread) else { continue };
        let ct = p.pack_sq(&c);
        if let Some(binv) = unblind(p, &c, &m) {
            return Some(Bench { p: *p, f: monomial(p, 0, false), f3, c, ct, m, binv, what: "dense" });
        }
    }
    None
}

/// The inverse of c - lift(m).
fn unblind(p: &Params, c: &[u32], m: &[u32]) -> Option<P> {
    let b: P = c.iter().zip(p.lift(m)).map(|(x, y)| (x + p.q() - y) % p.q()).collect();
    p.inv_sq(&b)
}

/// Coefficients modulo q with sum zero that centre to `want` modulo (3, Phi).
fn received(rng: &mut Prng, p: &Params, want: &[u32], spread: Spread) -> Option<P> {
    let n = p.n;
    let q = p.q() as i64;
    let half = q / 2;
    let add = rng.below(3) as u32;
    let mut a: Vec<i64> = (0..n)
        .map(|i| {
            let r = ((want[i] + add) % 3) as i64;
            let base = if r == 2 { -1 } else { r };
            match spread {
                Spread::Small => base,
                Spread::Full => {
                    let lo = (-half - base + 2).div_euclid(3);
                    let hi = (half - 1 - base).div_euclid(3);
                    base + 3 * rng.range(lo, hi)
                }
                Spread::Edge => {
                    let lo = (-half - base + 2).div_euclid(3);
                    let hi = (half - 1 - base).div_euclid(3);
                    let k = match rng.below(6) {
                        0 | 1 => lo,
                        2 | 3 => hi,
                        4 => 0,
                        _ => *rng.pick(&[lo + 1, hi - 1]),
                    };
                    base + 3 * k
                }
            }
        })
        .collect();
    // c(1) must vanish modulo q, so a(1) must: repair with multiples of 3
    let mut s: i64 = a.iter().sum::<i64>().rem_euclid(q);
    // shift one coefficient by a multiple of three and, if needed, use wrap-around
    let mut guard = 0;
    while s != 0 && guard < 4000 {
        guard += 1;
        let i = rng.below(n);
        // move a[i] by d = -s (mod q) if that keeps the residue class mod 3
        let mut d = -s;
        let mut done = false;
        for _ in 0..3 {
            if d.rem_euclid(3) == 0 && a[i] + d >= -half && a[i] + d < half {
                a[i] += d;
                done = true;
                break;
            }
            d += q;
        }
        if done {
            s = a.iter().sum::<i64>().rem_euclid(q);
        } else if spread == Spread::Small {
            break;
        } else {
            // change another coefficient to alter s
            let k = rng.below(n);
            let r = a[k].rem_euclid(3);
            let lo = (-half - r + 2).div_euclid(3);
            let hi = (half - 1 - r).div_euclid(3);
            a[k] = r + 3 * if spread == Spread::Edge { *rng.pick(&[lo, hi]) } else { rng.range(lo, hi) };
            s = a.iter().sum::<i64>().rem_euclid(q);
        }
    }
    if s != 0 {
        return None;
    }
    Some(a.iter().map(|x| x.rem_euclid(q) as u32).collect())
}

impl Bench {
    /// Secret key under which the ciphertext yields blinding value `rq`
    /// (modulo q, last coefficient 0).
    pub fn key(&self, rq: &[u32], prf: &[u8]) -> Vec<u8> {
        let hinv = self.p.mul_sq(rq, &self.binv);
        let mut pr = [0u8; 32];
        pr.copy_from_slice(prf);
        self.p.build_sk(&Sk { f: self.f.clone(), f3: self.f3.clone(), hinv, prf: pr })
    }
}

/// Message with ps ones and ms twos at random places.
pub fn message(rng: &mut Prng, p: &Params, ps: usize, ms: usize) -> Vec<u32> {
    let mut t = vec![0u32; p.n - 1];
    for (i, x) in t.iter_mut().enumerate() {
        *x = if i < ps {
            1
        } else if i < ps + ms {
            2
        } else {
            0
        };
    }
    rng.shuffle(&mut t);
    t
}

/// (ones, twos) of messages around and far from the admissible weight.
pub fn weights(rng: &mut Prng, p: &Params, sel: u64) -> (usize, usize) {
    let h = (p.weight() / 2) as i64;
    let n1 = (p.n - 1) as i64;
    let near: [(i64, i64); 24] = [
        (0, 0), (1, -1), (-1, 1), (1, 1), (-1, -1), (1, 0), (0, 1), (-1, 0), (0, -1), (2, -2), (-2, 2), (2, 2),
        (-2, -2), (2, 0), (0, 2), (-2, 0), (0, -2), (4, -4), (-4, 4), (8, 8), (-8, -8), (16, -16), (64, -64), (-64, -64),
    ];
    let sub = sel / 8;
    let (a, b) = match sel % 8 {
        0 | 1 => {
            let (x, y) = near[(sub * 2 + sel % 8) as usize % near.len()];
            (h + x, h + y)
        }
        2 | 3 => {
            // every pair of small errors
            let k = (sub * 2 + sel % 2) as i64 % 169;
            (h + k / 13 - 6, h + k % 13 - 6)
        }
        4 => {
            // errors that cancel in some sum of multiples of the counts
            let top = 1 << rng.below(6);
            let k = 1 + rng.below(top) as i64;
            let k = if rng.chance(2) { -k } else { k };
            (h + k * (1 + rng.below(8) as i64), h - k * (1 + rng.below(8) as i64))
        }
        5 | 6 => {
            // one bit flipped in either count
            let e = 1i64 << rng.below(9);
            match rng.below(3) {
                0 => (h ^ e, h),
                1 => (h, h ^ e),
                _ => (h ^ e, h ^ e),
            }
        }
        _ => {
            let a = rng.range(0, n1);
            (a, rng.range(0, n1 - a))
        }
    };
    let a = a.clamp(0, n1);
    let b = b.clamp(0, n1 - a);
    (a as usize, b as usize)
}

/// Blinding polynomials modulo q around the admissible set.
pub fn blinding(rng: &mut Prng, p: &Params, sel: u64) -> (P, &'static str) {
    let n = p.n;
    let q = p.q();
    let sub = (sel / 8) as usize;
    let tern = |rng: &mut Prng| -> P {
        let (t, _) = gen::trits(rng, n - 1, rng.clone().u64() % (14 * 900));
        let mut r: P = t.iter().map(|c| if *c == 2 { q - 1 } else { *c }).collect();
        r.push(0);
        r
    };
    let mut r = tern(rng);
    match sel % 8 {
        0 | 1 => (r, "r-admissible"),
        2 => {
            // exactly one coefficient out of range, every position in turn
            r[sub % (n - 1)] = *rng.pick(&[2, q - 2, 3, q - 3, q / 2, 4, 5, q - 4, q - 5]);
            (r, "r-one-off-by-little")
        }
        3 => {
            // every value in turn at a random position
            r[rng.below(n - 1)] = sub as u32 % q;
            (r, "r-one-arbitrary-value")
        }
        4 => {
            r[rng.below(n - 1)] = 1 << rng.below(p.logq);
            (r, "r-one-power-of-two")
        }
        5 => {
            let k = 2 + rng.below(4);
            for _ in 0..k {
                r[rng.below(n - 1)] = *rng.pick(&[2, q - 2, 3, q - 3, q / 2]);
            }
            (r, "r-several-off")
        }
        6 => {
            r[*rng.pick(&[0, 1, n - 2, n - 3, n / 2])] = rng.below(q as usize) as u32;
            (r, "r-edge-position")
        }
        _ => {
            let r: P = (0..n).map(|i| if i + 1 == n { 0 } else { rng.below(q as usize) as u32 }).collect();
            (r, "r-random")
        }
    }
}

/// The ciphertext from which a key with f(1) = 0 recovers (r, m), also when
/// the coefficients of m do not add up to zero.
pub fn any_weight(p: &Params, h: &[u32], r: &[u32], m: &[u32]) -> Vec<u8> {
    let c: P = p.mul_q(r, h).iter().zip(p.lift(m)).map(|(a, b)| (a + b) % p.q()).collect();
    p.pack_sq(&p.sum_zero_rep(&c))
}

/// Small corruptions of a genuine ciphertext.
pub fn mutate_ct(rng: &mut Prng, p: &Params, ct: &[u8], sel: u64) -> (Vec<u8>, &'static str) {
    let q = p.q();
    let mut v = ct.to_vec();
    let sub = (sel / 12) as usize;
    let add = |v: &[u8], i: usize, d: u32| -> Vec<u8> {
        let mut a = p.unpack_sq(v);
        a[i] = (a[i] + d) % q;
        let mut o = p.pack_sq(&a);
        // keep whatever was in the unused bits
        let used = (p.n - 1) * p.logq;
        for pos in used..8 * o.len() {
            o[pos / 8] |= v[pos / 8] & (1 << (pos % 8));
        }
        o
    };
    match sel % 12 {
        0 => {
            // every bit in turn
            let b = sub % (8 * v.len());
            v[b / 8] ^= 1 << (b % 8);
            (v, "ct-bit-flip")
        }
        1 => {
            let used = (p.n - 1) * p.logq;
            let spare = 8 * v.len() - used;
            if spare > 0 {
                let l = v.len() - 1;
                let pat = 1 + (sub % ((1 << spare) - 1).max(1)) as u8;
                v[l] |= pat << (8 - spare);
                (v, "ct-padding-bits")
            } else {
                v[0] ^= 1;
                (v, "ct-bit-flip")
            }
        }
        2 => (add(&v, sub % (p.n - 1), *rng.pick(&[1, q - 1])), "ct-coefficient-off-by-one"),
        3 => (add(&v, sub % (p.n - 1), *rng.pick(&[3, q - 3])), "ct-coefficient-off-by-three"),
        4 => (add(&v, sub % (p.n - 1), q / 2), "ct-coefficient-off-by-half-q"),
        5 => {
            let i = rng.below(p.n - 1);
            let j = rng.below(p.n - 1);
            let d = 1 + rng.below(q as usize - 1) as u32;
            let w = add(&v, i, d);
            (add(&w, j, q - d), "ct-two-coefficients-balanced")
        }
        6 => {
            let i = rng.below(v.len());
            v[i] = rng.u8();
            (v, "ct-one-byte")
        }
        7 => {
            let i = rng.below(v.len());
            let n = 1 + rng.below(16);
            for x in v.iter_mut().skip(i).take(n) {
                *x = rng.u8();
            }
            (v, "ct-burst")
        }
        8 => (rng.bytes(ct.len()), "ct-random"),
        9 => (vec![*rng.pick(&[0u8, 0xff, 0x55, 0xaa, 0x80, 1]); ct.len()], "ct-constant"),
        10 => {
            // rotated or negated polynomial
            let c = p.unpack_rq0(&v);
            let c: P = if rng.chance(2) {
                rotate(p, &c, 1 + rng.below(p.n - 1))
            } else {
                c.iter().map(|x| (q - x) % q).collect()
            };
            (p.pack_sq(&c), "ct-rotated-or-negated")
        }
        _ => {
            let i = rng.below(v.len());
            v[i..].fill(0);
            (v, "ct-zero-tail")
        }
    }
}

/// Corruptions of a secret key.
pub fn mutate_sk(rng: &mut Prng, p: &Params, sk: &[u8], sel: u64) -> (Vec<u8>, &'static str) {
    let s3 = p.s3_bytes();
    let mut v = sk.to_vec();
    let sub = (sel / 9) as usize;
    match sel % 9 {
        0 => {
            v[sub % sk.len()] ^= 1 << rng.below(8);
            (v, "sk-bit-flip")
        }
        1 => {
            // ternary bytes outside the canonical range
            for _ in 0..1 + rng.below(4) {
                v[rng.below(2 * s3)] = 243 + rng.below(13) as u8;
            }
            (v, "sk-ternary-byte-out-of-range")
        }
        2 => {
            // every byte value in the ternary fields
            v[rng.below(2 * s3)] = sub as u8;
            (v, "sk-ternary-byte")
        }
        3 => {
            // the last byte of a ternary field holds fewer digits
            let at = if sub % 2 == 0 { s3 - 1 } else { 2 * s3 - 1 };
            v[at] = (sub / 2) as u8;
            (v, "sk-ternary-tail")
        }
        4 => {
            rng.fill(&mut v[..s3]);
            (v, "sk-random-f")
        }
        5 => {
            rng.fill(&mut v[s3..2 * s3]);
            (v, "sk-random-f-inverse")
        }
        6 => {
            let e = v.len() - 32;
            rng.fill(&mut v[2 * s3..e]);
            (v, "sk-random-h-inverse")
        }
        7 => (rng.bytes(sk.len()), "sk-random"),
        _ => (vec![*rng.pick(&[0u8, 0xff, 0x80, 242, 243, 1]); sk.len()], "sk-constant"),
    }
}

/// Randomness for encapsulation that aligns message and blinding polynomial
/// with the key, so that one coefficient of the decryption sum is as large as
/// the parameter set allows.
pub fn worst_case_rm(rng: &mut Prng, p: &Params, f: &[u32], g: &[u32]) -> (Vec<u8>, &'static str) {
    let n = p.n;
    let at = rng.below(n);
    let sign: i32 = if rng.chance(2) { 1 } else { -1 };
    // sum_i u_i v_(at-i): want u_i to have the sign of v_(at-i)
    let align = |v: &dyn Fn(usize) -> i32, i: usize| -> i32 { sign * v((at + n - i) % n) };
    let gv = |i: usize| -> i32 {
        if p.is_hps() {
            gen::centred(g[i])
        } else {
            gen::centred(g[(i + n - 1) % n]) - gen::centred(g[i])
        }
    };
    let fv = |i: usize| -> i32 {
        if p.is_hps() {
            gen::centred(f[i])
        } else {
            gen::centred(f[(i + n - 1) % n]) - gen::centred(f[i])
        }
    };
    let tri = |x: i32| -> u32 {
        match x.signum() {
            1 => 1,
            -1 => 2,
            _ => 0,
        }
    };
    let mut r: Vec<u32> = (0..n - 1).map(|i| tri(align(&gv, i))).collect();
    // leave a few coefficients to chance
    for _ in 0..rng.below(4) {
        let i = rng.below(n - 1);
        r[i] = rng.below(3) as u32;
    }
    let mut out = gen::bytes_of(rng, &r);
    if p.is_hps() {
        let w = p.weight();
        let mut idx: Vec<usize> = (0..n - 1).collect();
        rng.shuffle(&mut idx);
        idx.sort_by_key(|i| -align(&fv, *i));
        let mut m = vec![0u32; n - 1];
        for i in idx.iter().take(w / 2) {
            m[*i] = 1;
        }
        for i in idx.iter().rev().take(w / 2) {
            m[*i] = 2;
        }
        out.extend(gen::ft_for(rng, p, &m));
    } else {
        // lift(m) = (x-1) v for a free ternary v
        let mut v: P = (0..n - 1).map(|i| tri(align(&fv, i))).collect();
        v.push(0);
        let mut m = vec![0u32; n];
        for i in 0..n {
            m[i] = (v[(i + n - 1) % n] + 3 - v[i]) % 3;
        }
        let m = p.red_s3(&m);
        out.extend(gen::bytes_of(rng, &m[..n - 1]));
    }
    (out, "aligned-with-key")
}
