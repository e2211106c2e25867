//! Secret-taint probe, to be run under valgrind memcheck: secrets are marked
//! undefined, so that any branch or address computed from them is reported.
//!   ct --seed S --start A --count N --out FILE [--corpus FILE]

use monitors::corpus::{self, Item};
use monitors::imp::{Placed, Script};
use monitors::prng::Prng;
use monitors::report::Report;
use monitors::vg::{count_errors, poison, running_on_valgrind, unpoison};
use monitors::{craft, fnv, gen, params};
use ntrust_native::*;
use std::error::Error;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Secret(Script);

impl RNGState for Secret {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn Error>> {
        self.0.randombytes(x)?;
        poison(x);
        Ok(())
    }
    fn randombytes_init(&mut self, _: [u8; 48]) {}
}

/// Runs one operation and reports what memcheck saw during it.
fn watch(rep: &mut Report, op: &str, what: &str, fp: u64, f: impl FnOnce() -> bool) {
    let before = count_errors();
    // a panic is another property's business
    let ok = catch_unwind(AssertUnwindSafe(f)).unwrap_or(false);
    let n = count_errors() - before;
    rep.class(&format!("{} ({})", op, what));
    rep.eval(fp, true);
    if n > 0 {
        rep.violation(format!("{} branched on or addressed memory by a secret ({} reports)", op, n), vec![("case", what.to_string())]);
    } else if !ok {
        rep.class("operation failed");
    } else {
        rep.sample(|| format!("{} ({}): no secret-dependent branch or address", op, what));
    }
}

/// An input found by the search.
fn found(rep: &mut Report, item: &Item) {
    let (w, fp) = ("found by search", item.print());
    let mut pk = Placed::new([0u8; CRYPTO_PUBLICKEYBYTES]);
    let mut sk = Placed::new([0u8; CRYPTO_SECRETKEYBYTES]);
    let mut ct = Placed::new([0u8; CRYPTO_CIPHERTEXTBYTES]);
    let mut k = Placed::new([0u8; CRYPTO_BYTES]);
    match item {
        Item::Key(s) => watch(rep, "key generation", w, fp, || crypto_kem_keypair(&mut pk, &mut sk, &mut Secret(Script::new(s))).is_ok()),
        Item::Enc(p, rm) => {
            pk.copy_from_slice(p);
            watch(rep, "encapsulation", w, fp, || crypto_kem_enc(&mut ct, &mut k, &pk, &mut Secret(Script::new(rm))).is_ok());
        }
        Item::Dec(c, s) => {
            ct.copy_from_slice(c);
            sk.copy_from_slice(s);
            poison(&mut sk[..]);
            watch(rep, "decapsulation", w, fp, || crypto_kem_dec(&mut k, &ct, &sk).is_ok());
        }
        Item::Rng(s, l, e) => {
            let mut st = corpus::state_of(s).0;
            let mut e = *e;
            poison(&mut st.key);
            poison(&mut st.v);
            poison(&mut e);
            for n in l {
                let mut x = vec![0u8; (*n).min(5000)];
                watch(rep, "generator request", w, fp ^ *n as u64, || st.randombytes(&mut x).is_ok());
            }
            watch(rep, "generator seeding", w, fp, || {
                st.randombytes_init(e);
                true
            });
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let num = |k: &str| get(k).map(|x| x.parse::<u64>().expect("ct: number")).unwrap_or(0);
    if !running_on_valgrind() {
        eprintln!("ct: not running under valgrind");
        std::process::exit(3);
    }
    let (seed, start, count) = (num("--seed"), num("--start"), num("--count"));
    let mut rep = Report::new(&get("--out").unwrap_or_default());
    // the taint machinery itself must work here
    let mut probe = vec![1u8; 4];
    poison(&mut probe);
    let before = count_errors();
    if std::hint::black_box(probe[0]) == 1 {
        std::hint::black_box(&probe);
    }
    if count_errors() == before {
        eprintln!("ct: memcheck does not track the taint");
        std::process::exit(3);
    }
    unpoison(&mut probe);
    let p = params();
    let items = get("--corpus").map(|f| corpus::read(&f)).unwrap_or_default();
    for idx in start..start + count {
        rep.begin(idx);
        if !items.is_empty() {
            found(&mut rep, &items[idx as usize]);
            continue;
        }
        let mut rng = Prng::new(seed, "ct", idx);
        let (fg, w) = if idx % 2 == 0 { (rng.bytes(p.fg_bytes()), "uniform".to_string()) } else { gen::fg_seed(&mut rng, &p, idx) };
        let prf = rng.arr::<32>();
        let mut pk = Placed::new([0u8; CRYPTO_PUBLICKEYBYTES]);
        let mut sk = Placed::new([0u8; CRYPTO_SECRETKEYBYTES]);
        let data = [fg.clone(), prf.to_vec()].concat();
        watch(&mut rep, "key generation", &w, fnv(&[&data]), || {
            let r = crypto_kem_keypair(&mut pk, &mut sk, &mut Secret(Script::new(&data))).is_ok();
            unpoison(&mut pk[..]);
            unpoison(&mut sk[..]);
            r
        });
        for t in 0..3u64 {
            let (rm, w) = if t == 0 { (rng.bytes(p.rm_bytes()), "uniform".to_string()) } else { gen::rm_seed(&mut rng, &p, 3 * idx + t) };
            let mut ct = Placed::new([0u8; CRYPTO_CIPHERTEXTBYTES]);
            let mut k = Placed::new([0u8; CRYPTO_BYTES]);
            let upk: Placed<CRYPTO_PUBLICKEYBYTES> =
                if t == 2 { Placed::new(gen::odd_pk(&mut rng, &p, idx).0.as_slice().try_into().unwrap()) } else { pk.clone() };
            watch(&mut rep, "encapsulation", &w, fnv(&[&upk[..], &rm]), || {
                let r = crypto_kem_enc(&mut ct, &mut k, &upk, &mut Secret(Script::new(&rm))).is_ok();
                unpoison(&mut ct[..]);
                unpoison(&mut k[..]);
                r
            });
            let (bad, wb) = craft::mutate_ct(&mut rng, &p, &ct[..], 3 * idx + t);
            for (c, w) in [(ct.to_vec(), "genuine"), (bad, wb)] {
                let c: Placed<CRYPTO_CIPHERTEXTBYTES> = Placed::new(c.as_slice().try_into().unwrap());
                let mut k2 = Placed::new([0u8; CRYPTO_BYTES]);
                let fp = fnv(&[&c[..], &sk[..]]);
                poison(&mut sk[..]);
                watch(&mut rep, "decapsulation", w, fp, || {
                    let r = crypto_kem_dec(&mut k2, &c, &sk).is_ok();
                    unpoison(&mut k2[..]);
                    r
                });
                unpoison(&mut sk[..]);
            }
        }
        // the bundled generator with a secret state, counter around a carry
        let mut s = AesState::new();
        let mut e = rng.arr::<48>();
        let fp = fnv(&[&e]);
        poison(&mut e);
        watch(&mut rep, "generator seeding", "secret seed", fp, || {
            s.randombytes_init(e);
            true
        });
        if idx % 2 == 0 {
            s.v = rng.arr::<16>();
            let j = rng.below(17);
            for x in s.v.iter_mut().skip(16 - j) {
                *x = 0xff;
            }
            poison(&mut s.v);
        }
        for n in [1usize, 16, 47, 100] {
            let mut x = vec![0u8; n];
            watch(&mut rep, "generator request", "secret state", fp ^ n as u64, || s.randombytes(&mut x).is_ok());
        }
        if rep.full() {
            break;
        }
    }
    rep.finish();
    std::process::exit(if rep.violations.is_empty() { 0 } else { 1 });
}
