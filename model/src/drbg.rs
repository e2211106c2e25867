//! NIST KAT generator: CTR_DRBG with AES-256, no derivation function, no
//! personalisation, no additional input (SP 800-90A, 10.2.1).

use crate::aes::Aes256;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Drbg {
    pub key: [u8; 32],
    pub v: [u8; 16],
    pub requests: i32,
}

fn incr(v: &mut [u8; 16]) {
    // big-endian increment modulo 2^128
    for i in (0..16).rev() {
        if v[i] == 0xff {
            v[i] = 0;
        } else {
            v[i] += 1;
            break;
        }
    }
}

impl Drbg {
    /// Zero key, zero counter: the state before any seeding.
    pub fn zero() -> Drbg {
        Drbg { key: [0; 32], v: [0; 16], requests: 0 }
    }

    pub fn seeded(seed: &[u8; 48]) -> Drbg {
        let mut d = Drbg::zero();
        d.reseed(seed);
        d
    }

    pub fn reseed(&mut self, seed: &[u8; 48]) {
        self.key = [0; 32];
        self.v = [0; 16];
        self.update(Some(seed));
        self.requests = 1;
    }

    fn update(&mut self, data: Option<&[u8; 48]>) {
        let aes = Aes256::new(&self.key);
        let mut t = [0u8; 48];
        for i in 0..3 {
            incr(&mut self.v);
            t[16 * i..16 * i + 16].copy_from_slice(&aes.encrypt(&self.v));
        }
        if let Some(d) = data {
            for i in 0..48 {
                t[i] ^= d[i];
            }
        }
        self.key.copy_from_slice(&t[..32]);
        self.v.copy_from_slice(&t[32..]);
    }

    pub fn fill(&mut self, x: &mut [u8]) {
        let aes = Aes256::new(&self.key);
        let mut done = 0;
        while done < x.len() {
            incr(&mut self.v);
            let b = aes.encrypt(&self.v);
            let k = (x.len() - done).min(16);
            x[done..done + k].copy_from_slice(&b[..k]);
            done += k;
        }
        self.update(None);
        self.requests = self.requests.wrapping_add(1);
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        self.fill(&mut v);
        v
    }
}
