//! Independent executable model of the round-3 NTRU KEM and of the NIST KAT
//! generator (AES-256 CTR_DRBG), written from the specification text, in plain
//! modular arithmetic, for all four parameter sets at run time.
//!
//! Nothing in here is shared with the code under test: inverses use the
//! extended Euclidean algorithm and two separate Hensel lifts, reductions use
//! `%`, sorting uses the standard library, SHA-3 and AES are local.

pub mod aes;
pub mod drbg;
pub mod euclid;
pub mod kem;
pub mod selftest;
pub mod sha3;

pub use kem::*;
