//! Workloads, generators and oracles shared by the monitors.

pub mod corpus;
pub mod craft;
pub mod gen;
pub mod imp;
pub mod judge;
pub mod prng;
pub mod report;
pub mod vg;

pub use refntru::{Params, Sk, P};

/// The parameter set this build asked the library for.
pub fn params() -> Params {
    if cfg!(feature = "v677") {
        refntru::HPS2048677
    } else if cfg!(feature = "v821") {
        refntru::HPS4096821
    } else if cfg!(feature = "v701") {
        refntru::HRSS701
    } else {
        refntru::HPS2048509
    }
}

/// Do the exposed array lengths fit the parameter set?
pub fn sizes_fit(p: &Params) -> bool {
    use ntrust_native::*;
    CRYPTO_PUBLICKEYBYTES == p.pk_bytes()
        && CRYPTO_SECRETKEYBYTES == p.sk_bytes()
        && CRYPTO_CIPHERTEXTBYTES == p.ct_bytes()
        && CRYPTO_BYTES == 32
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in p.iter() {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff51;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

/// "first difference at byte i: got .. want .." for violation messages
pub fn diff(got: &[u8], want: &[u8]) -> String {
    if got.len() != want.len() {
        return format!("length {} instead of {}", got.len(), want.len());
    }
    let n = got.iter().zip(want).filter(|(a, b)| a != b).count();
    for i in 0..got.len() {
        if got[i] != want[i] {
            return format!("{} bytes differ, first at {}: got {:02x}, expected {:02x}", n, i, got[i], want[i]);
        }
    }
    "equal".into()
}
