//! The KEM itself. Polynomials are `Vec<u32>` of n coefficients; modulo q they
//! are canonical in 0..q, modulo 3 canonical in {0,1,2} (2 stands for -1).

use crate::euclid::{inv2, inv3};
use crate::sha3::sha3_256;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Family {
    Hps,
    Hrss,
}

#[derive(Clone, Copy, Debug)]
pub struct Params {
    pub name: &'static str,
    pub family: Family,
    pub n: usize,
    pub logq: usize,
}

pub const HPS2048509: Params = Params { name: "ntruhps2048509", family: Family::Hps, n: 509, logq: 11 };
pub const HPS2048677: Params = Params { name: "ntruhps2048677", family: Family::Hps, n: 677, logq: 11 };
pub const HPS4096821: Params = Params { name: "ntruhps4096821", family: Family::Hps, n: 821, logq: 12 };
pub const HRSS701: Params = Params { name: "ntruhrss701", family: Family::Hrss, n: 701, logq: 13 };

pub type P = Vec<u32>;

/// Everything decapsulation computes, for classification by the monitors.
#[derive(Clone, Debug)]
pub struct Dec {
    pub key: [u8; 32],
    pub accepted: bool,
    pub pad_ok: bool,
    pub m_ok: bool,
    pub r_ok: bool,
    pub r: P,
    pub m: P,
}

/// A secret key opened into its parts.
#[derive(Clone, Debug)]
pub struct Sk {
    pub f: P,
    pub f3: P,
    pub hinv: P,
    pub prf: [u8; 32],
}

#[derive(Clone, Debug)]
pub struct Keys {
    pub f: P,
    pub g: P,
    pub f3: P,
    pub h: P,
    pub hinv: P,
    pub pk: Vec<u8>,
    pub sk: Vec<u8>,
}

impl Params {
    pub fn all() -> [Params; 4] {
        [HPS2048509, HPS2048677, HPS4096821, HRSS701]
    }
    pub fn q(&self) -> u32 {
        1 << self.logq
    }
    pub fn is_hps(&self) -> bool {
        self.family == Family::Hps
    }
    /// weight of fixed-type polynomials: q/8 - 2
    pub fn weight(&self) -> usize {
        self.q() as usize / 8 - 2
    }
    pub fn iid_bytes(&self) -> usize {
        self.n - 1
    }
    pub fn ft_bytes(&self) -> usize {
        (30 * (self.n - 1) + 7) / 8
    }
    pub fn fg_bytes(&self) -> usize {
        match self.family {
            Family::Hps => self.iid_bytes() + self.ft_bytes(),
            Family::Hrss => 2 * self.iid_bytes(),
        }
    }
    pub fn rm_bytes(&self) -> usize {
        self.fg_bytes()
    }
    pub fn s3_bytes(&self) -> usize {
        (self.n - 1 + 4) / 5
    }
    pub fn sq_bytes(&self) -> usize {
        ((self.n - 1) * self.logq + 7) / 8
    }
    pub fn pk_bytes(&self) -> usize {
        self.sq_bytes()
    }
    pub fn ct_bytes(&self) -> usize {
        self.sq_bytes()
    }
    pub fn sk_bytes(&self) -> usize {
        2 * self.s3_bytes() + self.sq_bytes() + 32
    }

    // ---- ring arithmetic ----------------------------------------------

    /// Product modulo x^n - 1; integer coefficients modulo 2^32.
    pub fn mul_raw(&self, a: &[u32], b: &[u32]) -> P {
        let n = self.n;
        assert!(a.len() == n && b.len() == n);
        let mut acc = vec![0u32; 2 * n];
        for i in 0..n {
            let x = a[i];
            if x == 0 {
                continue;
            }
            for (o, y) in acc[i..i + n].iter_mut().zip(b.iter()) {
                *o = o.wrapping_add(x.wrapping_mul(*y));
            }
        }
        (0..n).map(|i| acc[i].wrapping_add(acc[i + n])).collect()
    }
    pub fn mul_q(&self, a: &[u32], b: &[u32]) -> P {
        let q = self.q();
        self.mul_raw(a, b).into_iter().map(|c| c % q).collect()
    }
    /// Product modulo (q, Phi_n): degree < n-1, last coefficient 0.
    pub fn mul_sq(&self, a: &[u32], b: &[u32]) -> P {
        self.red_sq(&self.mul_q(a, b))
    }
    pub fn red_sq(&self, a: &[u32]) -> P {
        let q = self.q();
        let t = a[self.n - 1] % q;
        a.iter().map(|c| (c % q + q - t) % q).collect()
    }
    pub fn mul_s3(&self, a: &[u32], b: &[u32]) -> P {
        // coefficients 0..2 on both sides: sums stay below 4n
        let a: P = a.iter().map(|c| c % 3).collect();
        let b: P = b.iter().map(|c| c % 3).collect();
        self.red_s3(&self.mul_raw(&a, &b))
    }
    pub fn red_s3(&self, a: &[u32]) -> P {
        let t = a[self.n - 1] % 3;
        a.iter().map(|c| (c % 3 + 3 - t) % 3).collect()
    }
    /// {0,1,2} -> {0,1,q-1}
    pub fn z3_to_zq(&self, a: &[u32]) -> P {
        a.iter().map(|c| if *c == 2 { self.q() - 1 } else { *c }).collect()
    }
    pub fn eval1(&self, a: &[u32]) -> u32 {
        (a.iter().map(|c| *c as u64).sum::<u64>() % self.q() as u64) as u32
    }
    /// Centered representative in [-q/2, q/2).
    pub fn center(&self, c: u32) -> i32 {
        let q = self.q() as i32;
        let c = (c % self.q()) as i32;
        if c >= q / 2 {
            c - q
        } else {
            c
        }
    }
    /// Inverse modulo (q, Phi_n), None when not invertible.
    pub fn inv_sq(&self, a: &[u32]) -> Option<P> {
        let q = self.q();
        let a = self.red_sq(a);
        let mut v = inv2(&a, self.n)?;
        v.push(0);
        for _ in 0..4 {
            // v <- v (2 - a v), doubling the 2-adic precision
            let av = self.mul_sq(&a, &v);
            let mut t: P = av.iter().map(|c| (q - c) % q).collect();
            t[0] = (t[0] + 2) % q;
            v = self.mul_sq(&v, &t);
        }
        let one = self.mul_sq(&a, &v);
        assert!(one[0] == 1 && one[1..].iter().all(|c| *c == 0), "model: inverse is wrong");
        Some(v)
    }
    /// Inverse modulo (3, Phi_n).
    pub fn inv_s3(&self, a: &[u32]) -> Option<P> {
        let mut v = inv3(a, self.n)?;
        v.push(0);
        let one = self.mul_s3(a, &v);
        assert!(one[0] == 1 && one[1..].iter().all(|c| *c == 0), "model: inverse mod 3 is wrong");
        Some(v)
    }
    /// Lift the residue class modulo Phi_n to the one modulo x^n-1 that
    /// vanishes at 1.
    pub fn sum_zero_rep(&self, a: &[u32]) -> P {
        let q = self.q() as u64;
        let a = self.red_sq(a);
        let s = self.eval1(&a) as u64;
        // a - (s/n) Phi_n
        let n = self.n as u64 % q;
        let mut ninv = 1u64;
        for _ in 0..5 {
            ninv = ninv * (2 + q * q - (n * ninv) % q) % q;
        }
        assert!(n * ninv % q == 1);
        let t = s * ninv % q;
        a.iter().map(|c| ((*c as u64 + q - t) % q) as u32).collect()
    }

    // ---- encodings ------------------------------------------------------

    pub fn pack_sq(&self, a: &[u32]) -> Vec<u8> {
        let mut out = vec![0u8; self.sq_bytes()];
        for i in 0..self.n - 1 {
            let c = a[i] % self.q();
            for b in 0..self.logq {
                if (c >> b) & 1 == 1 {
                    let pos = i * self.logq + b;
                    out[pos / 8] |= 1 << (pos % 8);
                }
            }
        }
        out
    }
    pub fn unpack_sq(&self, bytes: &[u8]) -> P {
        let mut a = vec![0u32; self.n];
        for i in 0..self.n - 1 {
            for b in 0..self.logq {
                let pos = i * self.logq + b;
                a[i] |= (((bytes[pos / 8] >> (pos % 8)) & 1) as u32) << b;
            }
        }
        a
    }
    pub fn unpack_rq0(&self, bytes: &[u8]) -> P {
        let mut a = self.unpack_sq(bytes);
        let s = self.eval1(&a);
        a[self.n - 1] = (self.q() - s) % self.q();
        a
    }
    pub fn pad_ok(&self, bytes: &[u8]) -> bool {
        let used = (self.n - 1) * self.logq;
        (used..8 * self.sq_bytes()).all(|p| (bytes[p / 8] >> (p % 8)) & 1 == 0)
    }
    pub fn pack_s3(&self, a: &[u32]) -> Vec<u8> {
        a[..self.n - 1]
            .chunks(5)
            .map(|ch| ch.iter().rev().fold(0u32, |acc, c| 3 * acc + c) as u8)
            .collect()
    }
    pub fn unpack_s3(&self, bytes: &[u8]) -> P {
        let mut a = vec![0u32; self.n];
        for i in 0..self.n - 1 {
            let b = bytes[i / 5] as u32;
            a[i] = (b / 3u32.pow((i % 5) as u32)) % 3;
        }
        a
    }

    // ---- sampling -------------------------------------------------------

    pub fn iid(&self, bytes: &[u8]) -> P {
        let mut a: P = bytes[..self.n - 1].iter().map(|b| (*b % 3) as u32).collect();
        a.push(0);
        a
    }
    /// <x r, r> over the integers with 2 read as -1.
    pub fn correlation(&self, a: &[u32]) -> i32 {
        let v = |c: u32| if c == 2 { -1 } else { c as i32 };
        (0..self.n - 1).map(|i| v(a[i]) * v(a[i + 1])).sum()
    }
    pub fn iid_plus(&self, bytes: &[u8]) -> P {
        let mut a = self.iid(bytes);
        if self.correlation(&a) < 0 {
            for i in (0..self.n).step_by(2) {
                a[i] = (3 - a[i]) % 3;
            }
        }
        a
    }
    pub fn fixed_type(&self, bytes: &[u8]) -> P {
        let w = self.weight();
        let mut keys: Vec<i32> = (0..self.n - 1)
            .map(|i| {
                let mut v = 0u32;
                for b in 0..30 {
                    let pos = 30 * i + b;
                    v |= (((bytes[pos / 8] >> (pos % 8)) & 1) as u32) << (2 + b);
                }
                if i < w / 2 {
                    v |= 1;
                } else if i < w {
                    v |= 2;
                }
                v as i32
            })
            .collect();
        keys.sort();
        let mut a: P = keys.iter().map(|k| (*k & 3) as u32).collect();
        a.push(0);
        a
    }
    pub fn sample_fg(&self, u: &[u8]) -> (P, P) {
        let (a, b) = u.split_at(self.iid_bytes());
        match self.family {
            Family::Hps => (self.iid(a), self.fixed_type(b)),
            Family::Hrss => (self.iid_plus(a), self.iid_plus(b)),
        }
    }
    pub fn sample_rm(&self, u: &[u8]) -> (P, P) {
        let (a, b) = u.split_at(self.iid_bytes());
        match self.family {
            Family::Hps => (self.iid(a), self.fixed_type(b)),
            Family::Hrss => (self.iid(a), self.iid(b)),
        }
    }
    pub fn m_in_space(&self, m: &[u32]) -> bool {
        match self.family {
            Family::Hps => {
                let p = m.iter().filter(|c| **c == 1).count();
                let q = m.iter().filter(|c| **c == 2).count();
                p == self.weight() / 2 && q == self.weight() / 2
            }
            Family::Hrss => true,
        }
    }

    /// Lift of a ternary polynomial (degree < n-1) to R/q.
    pub fn lift(&self, m: &[u32]) -> P {
        match self.family {
            Family::Hps => self.z3_to_zq(m),
            Family::Hrss => {
                let n = self.n;
                let q = self.q();
                // v = m / (x-1) mod (3, Phi_n), then (x-1) * v with v in {-1,0,1}
                let mut xm1 = vec![0u32; n];
                xm1[0] = 2;
                xm1[1] = 1;
                static CACHE: std::sync::OnceLock<P> = std::sync::OnceLock::new();
                let inv = CACHE.get_or_init(|| self.inv_s3(&xm1).unwrap());
                let v = self.z3_to_zq(&self.mul_s3(m, inv));
                let mut r = vec![0u32; n];
                for i in 0..n {
                    // (x-1) v : r_i = v_(i-1) - v_i
                    let prev = v[(i + n - 1) % n];
                    r[i] = (prev + q - v[i]) % q;
                }
                r
            }
        }
    }

    /// "3 g" for HPS, "3 (x-1) g" for HRSS, modulo q.
    pub fn big_g(&self, g: &[u32]) -> P {
        let n = self.n;
        let q = self.q();
        let g = self.z3_to_zq(g);
        (0..n)
            .map(|i| match self.family {
                Family::Hps => 3 * g[i] % q,
                Family::Hrss => 3 * ((g[(i + n - 1) % n] + q - g[i]) % q) % q,
            })
            .collect()
    }

    // ---- the KEM --------------------------------------------------------

    /// Key pair from sampling randomness and PRF key. None when f or g is not
    /// invertible (the all-zero polynomial), where the scheme is undefined.
    pub fn keypair(&self, seed: &[u8], prf: &[u8; 32]) -> Option<Keys> {
        let (f, g) = self.sample_fg(seed);
        self.keypair_from(&f, &g, prf)
    }
    pub fn keypair_from(&self, f: &[u32], g: &[u32], prf: &[u8; 32]) -> Option<Keys> {
        let f3 = self.inv_s3(f)?;
        let fq = self.z3_to_zq(f);
        let gq = self.big_g(g);
        let finv = self.inv_sq(&fq)?;
        let ginv = self.inv_sq(&gq)?;
        let h = self.sum_zero_rep(&self.mul_q(&gq, &finv));
        let hinv = self.mul_sq(&fq, &ginv);
        let pk = self.pack_sq(&h);
        let mut sk = self.pack_s3(f);
        sk.extend(self.pack_s3(&f3));
        sk.extend(self.pack_sq(&hinv));
        sk.extend_from_slice(prf);
        Some(Keys { f: f.to_vec(), g: g.to_vec(), f3, h, hinv, pk, sk })
    }

    /// Encrypt (r, m), both ternary, with public polynomial h.
    pub fn enc_rm(&self, h: &[u32], r: &[u32], m: &[u32]) -> Vec<u8> {
        self.enc_raw(h, &self.z3_to_zq(r), m)
    }
    /// Same with r given modulo q (may be outside the valid space).
    pub fn enc_raw(&self, h: &[u32], rq: &[u32], m: &[u32]) -> Vec<u8> {
        let q = self.q();
        let rh = self.mul_q(rq, h);
        let l = self.lift(m);
        let c: P = rh.iter().zip(l.iter()).map(|(a, b)| (a + b) % q).collect();
        self.pack_sq(&c)
    }
    pub fn shared(&self, r: &[u32], m: &[u32]) -> [u8; 32] {
        let mut b = self.pack_s3(r);
        b.extend(self.pack_s3(m));
        sha3_256(&b)
    }
    /// (ciphertext, shared key) from public key bytes and randomness.
    pub fn encaps(&self, pk: &[u8], seed: &[u8]) -> (Vec<u8>, [u8; 32]) {
        let (r, m) = self.sample_rm(seed);
        let h = self.unpack_rq0(pk);
        (self.enc_rm(&h, &r, &m), self.shared(&r, &m))
    }

    pub fn open_sk(&self, sk: &[u8]) -> Sk {
        let a = self.s3_bytes();
        let b = self.sq_bytes();
        let mut prf = [0u8; 32];
        prf.copy_from_slice(&sk[2 * a + b..2 * a + b + 32]);
        Sk {
            f: self.unpack_s3(&sk[..a]),
            f3: self.unpack_s3(&sk[a..2 * a]),
            hinv: self.unpack_sq(&sk[2 * a..2 * a + b]),
            prf,
        }
    }
    pub fn build_sk(&self, s: &Sk) -> Vec<u8> {
        let mut v = self.pack_s3(&s.f);
        v.extend(self.pack_s3(&s.f3));
        v.extend(self.pack_sq(&s.hinv));
        v.extend_from_slice(&s.prf);
        v
    }
    pub fn reject_key(&self, prf: &[u8], ct: &[u8]) -> [u8; 32] {
        let mut b = prf.to_vec();
        b.extend_from_slice(ct);
        sha3_256(&b)
    }
    pub fn decaps(&self, sk: &[u8], ct: &[u8]) -> Dec {
        let q = self.q();
        let s = self.open_sk(sk);
        let c = self.unpack_rq0(ct);
        let a = self.mul_q(&c, &self.z3_to_zq(&s.f));
        let a3: P = a.iter().map(|x| self.center(*x).rem_euclid(3) as u32).collect();
        let m = self.mul_s3(&a3, &s.f3);
        let l = self.lift(&m);
        let b: P = c.iter().zip(l.iter()).map(|(x, y)| (x + q - y) % q).collect();
        let rq = self.mul_sq(&b, &s.hinv);
        let r_ok = rq.iter().all(|x| *x <= 1 || *x == q - 1);
        let m_ok = self.m_in_space(&m);
        let pad_ok = self.pad_ok(ct);
        let accepted = r_ok && m_ok && pad_ok;
        let r: P = rq.iter().map(|x| if *x == q - 1 { 2 } else { *x }).collect();
        let key = if accepted { self.shared(&r, &m) } else { self.reject_key(&s.prf, ct) };
        Dec { key, accepted, pad_ok, m_ok, r_ok, r, m }
    }
}
