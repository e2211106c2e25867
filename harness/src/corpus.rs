//! Inputs found by the search in ../steer, one per line: operation and fields.

use crate::imp;
use crate::judge::{is_zero, keys_wrong, same_state};
use crate::prng::Prng;
use ntrust_native::{AesState, RNGState};
use refntru::drbg::Drbg;
use refntru::Params;

pub enum Item {
    /// random bytes of a key generation
    Key(Vec<u8>),
    /// public key, random bytes
    Enc(Vec<u8>, Vec<u8>),
    /// ciphertext, secret key
    Dec(Vec<u8>, Vec<u8>),
    /// key, counter block and request counter; lengths of requests; seed
    Rng(Vec<u8>, Vec<usize>, [u8; 48]),
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("corpus: digits")).collect()
}

pub fn read(file: &str) -> Vec<Item> {
    let text = std::fs::read_to_string(file).expect("corpus: file");
    text.lines()
        .map(|l| {
            let f: Vec<&str> = l.split(' ').collect();
            let x: Vec<Vec<u8>> = f[1..].iter().map(|s| unhex(s)).collect();
            match f[0] {
                "key" => Item::Key(x[0].clone()),
                "enc" => Item::Enc(x[0].clone(), x[1].clone()),
                "dec" => Item::Dec(x[0].clone(), x[1].clone()),
                "rng" => Item::Rng(x[0].clone(), lengths(&x[1]), x[2].as_slice().try_into().expect("corpus: seed")),
                _ => panic!("corpus: operation"),
            }
        })
        .collect()
}

/// Up to three request lengths, packed.
pub fn lengths(b: &[u8]) -> Vec<usize> {
    b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap()) as usize % 200_000).collect()
}

/// A generator in the given state, whatever else the type may hold.
pub fn state(key: [u8; 32], v: [u8; 16], count: i32) -> AesState {
    let mut a = AesState::new();
    a.key = key;
    a.v = v;
    a.reseed_counter = count;
    a
}

pub fn state_of(b: &[u8]) -> (AesState, Drbg) {
    let mut a = AesState::new();
    a.key.copy_from_slice(&b[..32]);
    a.v.copy_from_slice(&b[32..48]);
    a.reseed_counter = i32::from_le_bytes(b[48..52].try_into().unwrap());
    let mut m = Drbg::zero();
    m.key = a.key;
    m.v = a.v;
    m.requests = a.reseed_counter;
    (a, m)
}

impl Item {
    pub fn name(&self) -> &'static str {
        match self {
            Item::Key(_) => "key generation",
            Item::Enc(..) => "encapsulation",
            Item::Dec(..) => "decapsulation",
            Item::Rng(..) => "generator",
        }
    }

    pub fn print(&self) -> u64 {
        match self {
            Item::Key(a) => crate::fnv(&[a]),
            Item::Enc(a, b) | Item::Dec(a, b) => crate::fnv(&[a, b]),
            Item::Rng(a, l, c) => crate::fnv(&[a, &l.iter().flat_map(|n| n.to_le_bytes()).collect::<Vec<_>>(), c]),
        }
    }

    /// Compare with the specification; false where it says nothing.
    pub fn conforms(&self, p: &Params) -> Result<bool, String> {
        let fail = |op: &'static str| move |e: imp::Fail| format!("{} {}", op, e);
        match self {
            Item::Key(s) => {
                let (seed, prf) = s.split_at(p.fg_bytes());
                let (f, g) = p.sample_fg(seed);
                if is_zero(&f) || is_zero(&g) {
                    return Ok(false);
                }
                let (pk, sk) = imp::keypair(seed, prf, 0x3c).map_err(fail("key generation"))?;
                if let Some(w) = keys_wrong(p, seed, prf, &pk, &sk) {
                    return Err(format!("key pair differs from the specification: {}", w));
                }
            }
            Item::Enc(pk, rm) => {
                let (ct, k) = imp::enc(pk, rm, 0x3c).map_err(fail("encapsulation"))?;
                let (ect, ek) = p.encaps(pk, rm);
                if ct != ect || k[..] != ek[..] {
                    return Err("encapsulation differs from the specification".into());
                }
            }
            Item::Dec(ct, sk) => {
                let k = imp::dec(ct, sk, 0x3c).map_err(fail("decapsulation"))?;
                if k[..] != p.decaps(sk, ct).key[..] {
                    return Err("decapsulation differs from the specification".into());
                }
            }
            Item::Rng(s, l, seed) => {
                let (mut a, mut m) = state_of(s);
                for n in l {
                    let mut x = vec![0x3c; *n];
                    imp::guard(|| a.randombytes(&mut x)).map_err(fail("request"))?;
                    if x != m.bytes(*n) {
                        return Err("generator differs from AES-256 CTR_DRBG".into());
                    }
                }
                imp::guard(|| Ok(a.randombytes_init(*seed))).map_err(fail("seeding"))?;
                m.reseed(seed);
                if let Some(w) = same_state(&a, &m) {
                    return Err(format!("state after seeding differs from AES-256 CTR_DRBG: {}", w));
                }
            }
        }
        Ok(true)
    }

    /// Only run it; failing is another property's business.
    pub fn run(&self, rng: &mut Prng) {
        let dirt = rng.u32() as u8;
        match self {
            Item::Key(s) => drop(imp::keypair_rng(&mut imp::Script::new(s), dirt)),
            Item::Enc(pk, rm) => drop(imp::enc(pk, rm, dirt)),
            Item::Dec(ct, sk) => drop(imp::dec(ct, sk, dirt)),
            Item::Rng(s, l, seed) => {
                let (mut a, _) = state_of(s);
                for n in l {
                    let mut b = vec![dirt; *n];
                    let _ = imp::guard(|| a.randombytes(&mut b));
                }
                let _ = imp::guard(|| Ok(a.randombytes_init(*seed)));
            }
        }
    }
}
