//! The library under test, called only through its public interface. Output
//! buffers are handed over with arbitrary previous content, all buffers at
//! addresses of any alignment; panics are caught and reported as an outcome of
//! the call.

use ntrust_native::*;
use std::cell::Cell;
use std::error::Error;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Panic(String),
    Error(String),
}

impl fmt::Display for Fail {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Fail::Panic(s) => write!(f, "panicked: {}", s),
            Fail::Error(s) => write!(f, "returned an error: {}", s),
        }
    }
}

#[derive(Debug, PartialEq)]
pub struct SourceFailure(pub u64);
impl fmt::Display for SourceFailure {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "random source failure {}", self.0)
    }
}
impl Error for SourceFailure {}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FailMode {
    Untouched,
    Partial,
    Full,
    /// The source does not return at all.
    Panic,
}

/// A random source that serves given bytes, records every request and can fail.
pub struct Script {
    pub data: Vec<u8>,
    pub pos: usize,
    pub draws: Vec<usize>,
    pub inits: usize,
    pub fail_at: Option<(usize, FailMode, u64)>,
}

impl Script {
    pub fn new(data: &[u8]) -> Script {
        Script { data: data.to_vec(), pos: 0, draws: vec![], inits: 0, fail_at: None }
    }
    fn take(&mut self, x: &mut [u8]) {
        for b in x.iter_mut() {
            // beyond the script: a fixed filler, the request log shows the overdraw
            *b = if self.pos < self.data.len() { self.data[self.pos] } else { 0xa5u8.wrapping_add(self.pos as u8) };
            self.pos += 1;
        }
    }
}

impl RNGState for Script {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        let call = self.draws.len();
        self.draws.push(x.len());
        if let Some((at, mode, tag)) = self.fail_at {
            if at == call {
                let n = match mode {
                    FailMode::Untouched => 0,
                    FailMode::Partial | FailMode::Panic => x.len() / 2,
                    FailMode::Full => x.len(),
                };
                self.take(&mut x[..n]);
                if mode == FailMode::Panic {
                    panic!("random source gives up");
                }
                return Err(Box::new(SourceFailure(tag)));
            }
        }
        self.take(x);
        Ok(())
    }
    fn randombytes_init(&mut self, _: [u8; 48]) {
        self.inits += 1;
    }
}

fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "(no message)".into()
    }
}

thread_local! {
    static TURN: Cell<u64> = const { Cell::new(0) };
}

/// Placement starts over, so that a case can be repeated alone. Returns where
/// it was.
pub fn restart(turn: u64) -> u64 {
    TURN.with(|t| t.replace(turn))
}

/// How far from an aligned address: none for every other buffer.
pub fn offset() -> usize {
    let n = TURN.with(|t| t.replace(t.get() + 1)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    if n >> 63 == 0 {
        0
    } else {
        (n >> 40) as usize % 16
    }
}

/// A buffer that ends where its heap object ends.
pub struct Placed<const N: usize> {
    bytes: Vec<u8>,
    at: usize,
}

impl<const N: usize> Placed<N> {
    pub fn new(content: [u8; N]) -> Placed<N> {
        let at = offset();
        let mut bytes = Vec::with_capacity(at + N);
        bytes.resize(at, 0);
        bytes.extend_from_slice(&content);
        Placed { bytes, at }
    }
}

impl<const N: usize> Deref for Placed<N> {
    type Target = [u8; N];
    fn deref(&self) -> &[u8; N] {
        self.bytes[self.at..].try_into().unwrap()
    }
}

impl<const N: usize> DerefMut for Placed<N> {
    fn deref_mut(&mut self) -> &mut [u8; N] {
        (&mut self.bytes[self.at..]).try_into().unwrap()
    }
}

impl<const N: usize> Clone for Placed<N> {
    fn clone(&self) -> Placed<N> {
        Placed::new(**self)
    }
}

pub fn guard<T>(f: impl FnOnce() -> Result<T, Box<dyn Error>>) -> Result<T, Fail> {
    crate::report::enter();
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::report::leave();
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(Fail::Error(e.to_string())),
        Err(p) => Err(Fail::Panic(msg(p))),
    }
}

pub fn keypair_rng(rng: &mut impl RNGState, dirt: u8) -> Result<(Vec<u8>, Vec<u8>), Fail> {
    let mut pk = Placed::new([dirt; CRYPTO_PUBLICKEYBYTES]);
    let mut sk = Placed::new([!dirt; CRYPTO_SECRETKEYBYTES]);
    guard(|| crypto_kem_keypair(&mut pk, &mut sk, rng))?;
    crate::vg::check_defined(&pk[..]);
    crate::vg::check_defined(&sk[..]);
    Ok((pk.to_vec(), sk.to_vec()))
}

pub fn keypair(seed: &[u8], prf: &[u8], dirt: u8) -> Result<(Vec<u8>, Vec<u8>), Fail> {
    let mut d = seed.to_vec();
    d.extend_from_slice(prf);
    keypair_rng(&mut Script::new(&d), dirt)
}

pub fn enc_rng(pk: &[u8], rng: &mut impl RNGState, dirt: u8) -> Result<(Vec<u8>, Vec<u8>), Fail> {
    let p: Placed<CRYPTO_PUBLICKEYBYTES> = Placed::new(pk.try_into().expect("monitor: public key length"));
    let mut ct = Placed::new([dirt; CRYPTO_CIPHERTEXTBYTES]);
    let mut k = Placed::new([!dirt; CRYPTO_BYTES]);
    guard(|| crypto_kem_enc(&mut ct, &mut k, &p, rng))?;
    crate::vg::check_defined(&ct[..]);
    crate::vg::check_defined(&k[..]);
    Ok((ct.to_vec(), k.to_vec()))
}

pub fn enc(pk: &[u8], seed: &[u8], dirt: u8) -> Result<(Vec<u8>, Vec<u8>), Fail> {
    enc_rng(pk, &mut Script::new(seed), dirt)
}

pub fn dec(ct: &[u8], sk: &[u8], dirt: u8) -> Result<Vec<u8>, Fail> {
    let c: Placed<CRYPTO_CIPHERTEXTBYTES> = Placed::new(ct.try_into().expect("monitor: ciphertext length"));
    let s: Placed<CRYPTO_SECRETKEYBYTES> = Placed::new(sk.try_into().expect("monitor: secret key length"));
    let mut k = Placed::new([dirt; CRYPTO_BYTES]);
    guard(|| crypto_kem_dec(&mut k, &c, &s))?;
    crate::vg::check_defined(&k[..]);
    Ok(k.to_vec())
}
