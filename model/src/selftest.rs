//! The model checks itself against published vectors before any monitor uses
//! it: SHA3-256 and AES-256 standard vectors, the NIST KAT seed stream, and the
//! reference implementation's first known answers for every parameter set.

use crate::aes::Aes256;
use crate::drbg::Drbg;
use crate::kem::*;
use crate::sha3::sha3_256;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn field(text: &str, name: &str) -> Vec<u8> {
    for l in text.lines() {
        let mut it = l.split(' ');
        if it.next() == Some(name) {
            return unhex(it.next().unwrap());
        }
    }
    panic!("model vector {} missing", name)
}

fn vectors(p: &Params) -> &'static str {
    match p.n {
        509 => include_str!("../kat/ntruhps2048509.txt"),
        677 => include_str!("../kat/ntruhps2048677.txt"),
        821 => include_str!("../kat/ntruhps4096821.txt"),
        _ => include_str!("../kat/ntruhrss701.txt"),
    }
}

fn want(cond: bool, what: &str) -> Result<(), String> {
    if cond {
        Ok(())
    } else {
        Err(format!("model self-test failed: {}", what))
    }
}

pub fn primitives() -> Result<(), String> {
    want(
        sha3_256(b"").to_vec() == unhex("a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a"),
        "SHA3-256 of the empty string",
    )?;
    want(
        sha3_256(b"abc").to_vec() == unhex("3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532"),
        "SHA3-256 of abc",
    )?;
    let mut key = [0u8; 32];
    for (i, k) in key.iter_mut().enumerate() {
        *k = i as u8;
    }
    let mut pt = [0u8; 16];
    for (i, k) in pt.iter_mut().enumerate() {
        *k = 0x11 * i as u8;
    }
    want(
        Aes256::new(&key).encrypt(&pt).to_vec() == unhex("8ea2b7ca516745bfeafc49904b496089"),
        "FIPS-197 AES-256 vector",
    )?;
    let mut seed = [0u8; 48];
    for (i, k) in seed.iter_mut().enumerate() {
        *k = i as u8;
    }
    want(
        Drbg::seeded(&seed).bytes(48)
            == unhex("061550234d158c5ec95595fe04ef7a25767f2e24cc2bc479d09d86dc9abcfde7056a8c266f9ef97ed08541dbd2e1ffa1"),
        "first NIST KAT seed",
    )
}

pub fn kem(p: &Params) -> Result<(), String> {
    let t = vectors(p);
    let mut d = Drbg::zero();
    let seed = d.bytes(p.fg_bytes());
    let mut prf = [0u8; 32];
    d.fill(&mut prf);
    let k = p.keypair(&seed, &prf).ok_or("model: no key")?;
    want(k.pk == field(t, "test_keypair_zeroed_rng.pk_ref"), "known public key")?;
    want(k.sk == field(t, "test_keypair_zeroed_rng.sk_ref"), "known secret key")?;
    let mut d = Drbg::zero();
    let (ct, ss) = p.encaps(&vec![0u8; p.pk_bytes()], &d.bytes(p.rm_bytes()));
    want(ct == field(t, "test_enc_kat1.ct_ref"), "known ciphertext")?;
    want(ss.to_vec() == field(t, "test_enc_kat1.ss_ref"), "known shared key")?;
    let dec = p.decaps(&field(t, "test_dec_kat1.sk"), &field(t, "test_dec_kat1.ct"));
    want(dec.key.to_vec() == field(t, "test_dec_kat1.ss_ref"), "known decapsulation")?;
    want(p.sk_bytes() == k.sk.len() && p.pk_bytes() == k.pk.len(), "sizes")
}

pub fn all(p: &Params) -> Result<(), String> {
    primitives()?;
    kem(p)
}
