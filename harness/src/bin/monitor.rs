//! Runs one property's workload and monitor over a range of cases.
//!   monitor PROP --seed S --start A --count N --out FILE [--corpus FILE]

use monitors::corpus::{self, Item};
use monitors::craft::{self, Spread};
use monitors::gen;
use monitors::judge::*;
use monitors::imp::{self, FailMode, Script};
use monitors::prng::Prng;
use monitors::report::{self, Report};
use monitors::{diff, fnv, hex, params};
use ntrust_native::{AesState, RNGState};
use refntru::drbg::Drbg;
use refntru::{Keys, Params};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub struct Ctx {
    p: Params,
    seed: u64,
    label: String,
    rep: Report,
    keys: Option<(u64, Keys)>,
    bench: Option<(u64, Option<craft::Bench>)>,
}

impl Ctx {
    fn prng(&self, idx: u64) -> Prng {
        Prng::new(self.seed, &self.label, idx)
    }
    /// An honest key pair made by the model, shared by a group of cases.
    fn model_keys(&mut self, group: u64) -> Keys {
        if let Some((g, k)) = &self.keys {
            if *g == group {
                return k.clone();
            }
        }
        let mut rng = Prng::new(self.seed, &format!("{}-keys", self.label), group);
        let mut k = None;
        for t in 0.. {
            let sel = if t == 0 { group * 3 + 2 } else { 0 };
            let (seed, _) = gen::fg_seed(&mut rng, &self.p, sel);
            let prf: [u8; 32] = gen::prf(&mut rng).try_into().unwrap();
            k = self.p.keypair(&seed, &prf);
            if k.is_some() {
                break;
            }
        }
        let k = k.unwrap();
        self.keys = Some((group, k.clone()));
        k
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut prop = String::new();
    let (mut seed, mut start, mut count, mut out, mut extra) = (1u64, 0u64, 1u64, String::new(), String::new());
    let mut items = vec![];
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--seed" => seed = args[i + 1].parse().expect("seed"),
            "--start" => start = args[i + 1].parse().expect("start"),
            "--count" => count = args[i + 1].parse().expect("count"),
            "--out" => out = args[i + 1].clone(),
            "--extra" => extra = args[i + 1].clone(),
            "--corpus" => items = corpus::read(&args[i + 1]),
            other => {
                prop = other.to_string();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|info| {
        // quiet for the library under test, loud for the monitor itself
        if !report::in_call() {
            eprintln!("{}", info);
        }
    }));
    let p = params();
    if let Err(e) = if cfg!(miri) || monitors::vg::running_on_valgrind() { Ok(()) } else { refntru::selftest::all(&p) } {
        eprintln!("monitor: {}", e);
        std::process::exit(3);
    }
    let mut cx = Ctx { p, seed, label: prop.clone(), rep: Report::new(&out), keys: None, bench: None };
    if !monitors::sizes_fit(&p) {
        if ["C02", "C03", "C04", "C17", "conform"].contains(&prop.as_str()) {
            cx.rep.evaluations = count;
            cx.rep.violation("key, ciphertext or shared-key length is not that of the parameter set", vec![]);
            cx.rep.finish();
            std::process::exit(1);
        }
        eprintln!("monitor: array lengths do not fit the parameter set");
        std::process::exit(3);
    }
    if prop == "C10-task" {
        return c10_task(&cx, start);
    }
    if prop == "C10" {
        c10(&mut cx, start, count, &extra);
        cx.rep.finish();
        std::process::exit(if cx.rep.violations.is_empty() { 0 } else { 1 });
    }
    if prop == "races" {
        races(&mut cx, start, count);
        cx.rep.finish();
        std::process::exit(if cx.rep.violations.is_empty() { 0 } else { 1 });
    }
    if prop == "history" {
        history(&mut cx, start, count);
        cx.rep.finish();
        std::process::exit(if cx.rep.violations.is_empty() { 0 } else { 1 });
    }
    watchdog(&out);
    for idx in start..start + count {
        cx.rep.begin(idx);
        let errors = monitors::vg::count_errors();
        match prop.as_str() {
            "C12" | "conform" if !items.is_empty() => found(&mut cx, &items[idx as usize]),
            "C01" => c01(&mut cx, idx),
            "C02" => c02(&mut cx, idx),
            "C03" => c03(&mut cx, idx),
            "C04" => c04(&mut cx, idx),
            "C05" => c05(&mut cx, idx),
            "C06" => c06(&mut cx, idx),
            "C07" => c07(&mut cx, idx),
            "C08" => c08(&mut cx, idx),
            "C09" => c09(&mut cx, idx),
            "C11" => any_input(&mut cx, idx),
            "C12" => any_input(&mut cx, idx),
            "C17" => c17(&mut cx, idx),
            "C18" => c18(&mut cx, idx),
            "C21" => c21(&mut cx, idx),
            "conform" => conform(&mut cx, idx),
            other => {
                eprintln!("monitor: unknown property {}", other);
                std::process::exit(3);
            }
        }
        let errors = monitors::vg::count_errors() - errors;
        if errors > 0 {
            cx.rep.violation(format!("memcheck reported {} errors", errors), vec![]);
        }
        if cx.rep.full() {
            break;
        }
    }
    cx.rep.finish();
    std::process::exit(if cx.rep.violations.is_empty() { 0 } else { 1 });
}

/// An input found by the search.
fn found(cx: &mut Ctx, item: &Item) {
    cx.rep.class(&format!("found by search: {}", item.name()));
    let counts = if cx.label == "conform" {
        match item.conforms(&cx.p) {
            Ok(c) => c,
            Err(e) => {
                cx.rep.violation(e, vec![]);
                true
            }
        }
    } else {
        item.run(&mut cx.prng(item.print()));
        true
    };
    if counts {
        cx.rep.eval(item.print(), true);
    }
}

fn dirt(rng: &mut Prng) -> u8 {
    *rng.pick(&[0u8, 0xff, 0xaa, 0x55, 0x01, 0x80, 0xc3])
}

// ---------------------------------------------------------------- C01

fn c01(cx: &mut Ctx, idx: u64) {
    let p = cx.p;
    let mut rng = cx.prng(idx);
    let d = dirt(&mut rng);
    let (pk, sk, fg, seed, what) = if idx % 6 == 5 {
        // the bundled generator drives the whole exchange
        let mut s = AesState::new();
        let e = rng.arr::<48>();
        s.randombytes_init(e);
        match imp::keypair_rng(&mut s, d) {
            Ok((pk, sk)) => (pk, sk, None, e.to_vec(), "bundled-generator".to_string()),
            Err(e2) => {
                cx.rep.violation(format!("key generation {}", e2), vec![("seed", hex(&e))]);
                return;
            }
        }
    } else {
        let (seed, what) = gen::fg_seed(&mut rng, &p, idx);
        let fg = p.sample_fg(&seed);
        if is_zero(&fg.0) || is_zero(&fg.1) {
            cx.rep.class("degenerate-key-skipped");
            return;
        }
        match imp::keypair(&seed, &gen::prf(&mut rng), d) {
            Ok((pk, sk)) => (pk, sk, Some(fg), seed, what),
            Err(e) => {
                cx.rep.violation(format!("key generation {}", e), vec![("seed", hex(&seed))]);
                return;
            }
        }
    };
    cx.rep.class(&format!("key {}", what));
    for t in 0..5u64 {
        let (rm, w) = match (t, &fg) {
            (0, Some((f, g))) | (3, Some((f, g))) => {
                let (a, b) = craft::worst_case_rm(&mut rng, &p, f, g);
                (a, b.to_string())
            }
            (1, _) => (rng.bytes(p.rm_bytes()), "raw-uniform".to_string()),
            _ => gen::rm_seed(&mut rng, &p, idx * 5 + t),
        };
        let (ct, k1) = match imp::enc(&pk, &rm, d) {
            Ok(x) => x,
            Err(e) => {
                cx.rep.violation(format!("encapsulation {}", e), vec![("pk", hex(&pk)), ("randomness", hex(&rm))]);
                return;
            }
        };
        let k2 = match imp::dec(&ct, &sk, !d) {
            Ok(x) => x,
            Err(e) => {
                cx.rep.violation(format!("decapsulation {}", e), vec![("sk", hex(&sk)), ("ct", hex(&ct))]);
                return;
            }
        };
        if t == 0 {
            if let Some((f, g)) = &fg {
                // how close did this exchange come to the q/2 limit?
                let (r, m) = p.sample_rm(&rm);
                let a1 = p.mul_q(&p.z3_to_zq(&r), &p.big_g(g));
                let a2 = p.mul_q(&p.lift(&m), &p.z3_to_zq(f));
                let mx = a1.iter().zip(&a2).map(|(x, y)| p.center((x + y) % p.q()).abs()).max().unwrap();
                let b = mx as u32 * 16 / (p.q() / 2);
                cx.rep.class(&format!("largest sum {:2}/16 of q/2", b));
            }
        }
        cx.rep.class(&format!("enc {}", w));
        cx.rep.eval(fnv(&[&seed, &rm]), true);
        if k1 != k2 {
            cx.rep.violation(
                format!("the two parties disagree ({}; {}): {}", what, w, diff(&k2, &k1)),
                vec![("pk", hex(&pk)), ("sk", hex(&sk)), ("ct", hex(&ct)), ("sender key", hex(&k1)), ("receiver key", hex(&k2)),
                     ("key randomness", hex(&seed)), ("encapsulation randomness", hex(&rm))],
            );
            return;
        }
        cx.rep.sample(|| format!("{} with {}: both keys {}", what, w, hex(&k1[..8])));
    }
}

// ---------------------------------------------------------------- C02, C06

fn c02(cx: &mut Ctx, idx: u64) {
    let p = cx.p;
    let mut rng = cx.prng(idx);
    let d = dirt(&mut rng);
    let use_drbg = idx % 11 == 10;
    let (seed, prf, what, res) = if use_drbg {
        let e = rng.arr::<48>();
        let mut s = AesState::new();
        s.randombytes_init(e);
        let mut m = Drbg::seeded(&e);
        let seed = m.bytes(p.fg_bytes());
        let prf = m.bytes(32);
        (seed, prf, "bundled-generator".to_string(), imp::keypair_rng(&mut s, d))
    } else {
        let (seed, what) = if idx % 3 == 1 { (rng.bytes(p.fg_bytes()), "raw-uniform".into()) } else { gen::fg_seed(&mut rng, &p, idx) };
        let prf = gen::prf(&mut rng);
        let r = imp::keypair(&seed, &prf, d);
        (seed, prf, what, r)
    };
    let (f, g) = p.sample_fg(&seed);
    if is_zero(&f) || is_zero(&g) {
        cx.rep.class("degenerate-skipped");
        return;
    }
    let det = |pk: &[u8], sk: &[u8]| vec![("randomness", hex(&seed)), ("rejection key", hex(&prf)), ("pk", hex(pk)), ("sk", hex(sk))];
    let (pk, sk) = match res {
        Ok(x) => x,
        Err(e) => {
            cx.rep.violation(format!("key generation {} ({})", e, what), det(&[], &[]));
            return;
        }
    };
    cx.rep.class(&what);
    cx.rep.eval(fnv(&[&seed, &prf]), true);
    let wrong = keys_wrong(&p, &seed, &prf, &pk, &sk);
    if idx % 32 == 0 {
        // cross-check of the oracle itself with the full model
        let k = p.keypair(&seed, prf.as_slice().try_into().unwrap()).expect("monitor: model has no key");
        assert_eq!(wrong.is_none(), k.pk == pk && k.sk == sk, "monitor: oracles disagree");
        cx.rep.class("also compared with the full model");
    }
    match wrong {
        Some(w) => cx.rep.violation(format!("key pair differs from the specification ({}): {}", what, w), det(&pk, &sk)),
        None => cx.rep.sample(|| format!("{}: pk {}.. as specified", what, hex(&pk[..8]))),
    }
}

fn c06(cx: &mut Ctx, idx: u64) {
    let p = cx.p;
    let mut rng = cx.prng(idx);
    let d = dirt(&mut rng);
    let (seed, what) = if idx % 3 == 1 { (rng.bytes(p.fg_bytes()), "raw-uniform".into()) } else { gen::fg_seed(&mut rng, &p, idx) };
    let (f, g) = p.sample_fg(&seed);
    if is_zero(&f) || is_zero(&g) {
        cx.rep.class("degenerate-skipped");
        return;
    }
    let prf = gen::prf(&mut rng);
    let (pk, sk) = match imp::keypair(&seed, &prf, d) {
        Ok(x) => x,
        Err(e) => {
            cx.rep.violation(format!("key generation {} ({})", e, what), vec![("randomness", hex(&seed))]);
            return;
        }
    };
    cx.rep.class(&what);
    // only the key bytes are looked at from here on
    cx.rep.eval(fnv(&[&pk, &sk]), true);
    let wrong = relations_wrong(&p, &pk, &sk);
    if !wrong.is_empty() {
        cx.rep.violation(
            format!("key pair violates the scheme's relations ({}): {}", what, wrong.join("; ")),
            vec![("randomness", hex(&seed)), ("pk", hex(&pk)), ("sk", hex(&sk))],
        );
    } else {
        cx.rep.sample(|| format!("{}: all relations hold for pk {}..", what, hex(&pk[..8])));
    }
}

// ---------------------------------------------------------------- C03

fn c03(cx: &mut Ctx, idx: u64) {
    let p = cx.p;
    let mut rng = cx.prng(idx);
    let d = dirt(&mut rng);
    let (pk, w1) = match idx % 4 {
        0 | 1 => (cx.model_keys(idx / 64).pk, "pk-honest"),
        2 => {
            let mut pk = cx.model_keys(idx / 64).pk;
            let l = pk.len() - 1;
            if idx % 8 == 2 {
                pk[l] |= 0xf0 & rng.u8();
                (pk, "pk-honest-padding-touched")
            } else {
                let b = rng.below(8 * pk.len());
                pk[b / 8] ^= 1 << (b % 8);
                (pk, "pk-honest-bit-flip")
            }
        }
        _ => gen::odd_pk(&mut rng, &p, idx / 4),
    };
    let (rm, w2, got) = if idx % 13 == 12 {
        let mut key = rng.arr::<48>();
        if rng.chance(4) {
            key = [0xff; 48];
        }
        let mut s = AesState::new();
        s.randombytes_init(key);
        let rm = Drbg::seeded(&key).bytes(p.rm_bytes());
        let r = imp::enc_rng(&pk, &mut s, d);
        (rm, "bundled-generator".to_string(), r)
    } else {
        let (rm, w2) = if idx % 3 == 0 { (rng.bytes(p.rm_bytes()), "raw-uniform".into()) } else { gen::rm_seed(&mut rng, &p, idx) };
        let r = imp::enc(&pk, &rm, d);
        (rm, w2, r)
    };
    let det = vec![("pk", hex(&pk)), ("randomness", hex(&rm))];
    let (ct, k) = match got {
        Ok(x) => x,
        Err(e) => {
            cx.rep.violation(format!("encapsulation {} ({}, {})", e, w1, w2), det);
            return;
        }
    };
    let (ect, ek) = p.encaps(&pk, &rm);
    cx.rep.class(w1);
    cx.rep.class(&w2);
    cx.rep.eval(fnv(&[&pk, &rm]), true);
    if ct != ect {
        cx.rep.violation(format!("ciphertext differs from the specification ({}, {}): {}", w1, w2, diff(&ct, &ect)), det);
    } else if k != ek {
        cx.rep.violation(format!("shared key differs from the specification ({}, {}): {}", w1, w2, diff(&k, &ek)), det);
    } else {
        cx.rep.sample(|| format!("{}, {}: ct {}.. key {}..", w1, w2, hex(&ct[..8]), hex(&k[..8])));
    }
}

// ---------------------------------------------------------------- C04

/// A problem with chosen intermediate values, shared by a group of cases.
fn with_bench<T>(cx: &mut Ctx, group: u64, f: impl FnOnce(&craft::Bench) -> T) -> Option<T> {
    let hit = matches!(&cx.bench, Some((g, _)) if *g == group);
    if !hit {
        let p = cx.p;
        let mut rng = Prng::new(cx.seed, &format!("{}-bench", cx.label), group);
        let (ps, ms) = if group % 2 == 0 { (p.weight() / 2, p.weight() / 2) } else { craft::weights(&mut rng, &p, group / 2) };
        let m = if p.is_hps() {
            craft::message(&mut rng, &p, ps, ms)
        } else {
            let s = rng.below(14 * 800) as u64;
            gen::trits(&mut rng, p.n - 1, s).0
        };
        let spread = match group % 3 {
            0 => Spread::Full,
            1 => Spread::Edge,
            _ => Spread::Small,
        };
        let thin = *rng.pick(&[3, 5, 10, 100]);
        let full = if group % 5 == 4 { craft::dense(&mut rng, &p, thin, spread) } else { None };
        cx.bench = Some((group, full.or_else(|| craft::bench(&mut rng, &p, &m, spread))));
    }
    cx.bench.as_ref().unwrap().1.as_ref().map(f)
}

/// (sk, ct, label) of a decapsulation case.
fn dec_case(cx: &mut Ctx, idx: u64, rng: &mut Prng) -> Option<(Vec<u8>, Vec<u8>, String)> {
    let p = cx.p;
    let sub = idx / 8;
    match idx % 8 {
        0 => {
            let k = cx.model_keys(idx / 128);
            let (rm, w) = gen::rm_seed(rng, &p, sub);
            Some((k.sk, p.encaps(&k.pk, &rm).0, format!("genuine {}", w)))
        }
        1 | 2 => {
            let k = cx.model_keys(idx / 128);
            let rm = rng.bytes(p.rm_bytes());
            let ct = p.encaps(&k.pk, &rm).0;
            let (c, w) = craft::mutate_ct(rng, &p, &ct, 2 * sub + idx % 8 - 1);
            Some((k.sk, c, w.to_string()))
        }
        3 => {
            let k = cx.model_keys(idx / 128);
            let rm = rng.bytes(p.rm_bytes());
            let ct = p.encaps(&k.pk, &rm).0;
            let (s, w) = craft::mutate_sk(rng, &p, &k.sk, sub);
            Some((s, ct, w.to_string()))
        }
        4 => {
            // inadmissible pairs encrypted under an honest key
            let k = cx.model_keys(idx / 128);
            let (r, w1) = craft::blinding(rng, &p, sub);
            let (ps, ms) = if rng.chance(2) { (p.weight() / 2, p.weight() / 2) } else { craft::weights(rng, &p, sub) };
            let mut m = if p.is_hps() {
                craft::message(rng, &p, ps, ms)
            } else {
                gen::trits(rng, p.n - 1, sub).0
            };
            m.push(0);
            Some((k.sk, p.enc_raw(&k.h, &r, &m), format!("encrypted {}", w1)))
        }
        _ => {
            let (r, w) = craft::blinding(rng, &p, 3 * sub + idx % 8 - 5);
            let prf = gen::prf(rng);
            let pad = rng.chance(12);
            let padbits = rng.u8();
            with_bench(cx, idx / 64, |b| {
                let mut ct = b.ct.clone();
                if pad {
                    let used = (p.n - 1) * p.logq;
                    let l = ct.len() - 1;
                    for pos in used..8 * ct.len() {
                        ct[l] |= padbits & (1 << (pos % 8));
                    }
                }
                (b.key(&r, &prf), ct, format!("{} {}", b.what, w))
            })
        }
    }
}

fn c04(cx: &mut Ctx, idx: u64) {
    let p = cx.p;
    let mut rng = cx.prng(idx);
    let d = dirt(&mut rng);
    let Some((sk, ct, what)) = dec_case(cx, idx, &mut rng) else {
        cx.rep.class("crafting-failed");
        return;
    };
    let e = p.decaps(&sk, &ct);
    let det = vec![("sk", hex(&sk)), ("ct", hex(&ct)), ("expected", hex(&e.key))];
    let verdict = if e.accepted { "accepted" } else { "rejected" };
    cx.rep.class(&what);
    cx.rep.class(verdict);
    cx.rep.eval(fnv(&[&sk, &ct]), true);
    match imp::dec(&ct, &sk, d) {
        Err(x) => cx.rep.violation(format!("decapsulation {} ({})", x, what), det),
        Ok(k) => {
            if k[..] != e.key[..] {
                cx.rep.violation(
                    format!("derived key differs from the specification ({}, must be {}): got {}", what, verdict, hex(&k)),
                    det,
                );
            } else {
                cx.rep.sample(|| format!("{} {}: key {}..", what, verdict, hex(&k[..8])));
            }
        }
    }
}

// ---------------------------------------------------------------- C05

fn c05(cx: &mut Ctx, idx: u64) {
    let p = cx.p;
    let mut rng = cx.prng(idx);
    let d = dirt(&mut rng);
    let sub = idx / 4;
    // honest: the acceptance oracle is re-encryption; crafted: the validity conditions
    let (sk, ct, what, h) = match idx % 4 {
        0 => {
            let k = cx.model_keys(idx / 128);
            let rm = rng.bytes(p.rm_bytes());
            let ct = p.encaps(&k.pk, &rm).0;
            let (c, w) = craft::mutate_ct(&mut rng, &p, &ct, sub);
            (k.sk, c, w.to_string(), Some(k.h))
        }
        1 => {
            let k = cx.model_keys(idx / 128);
            match sub % 4 {
                0 => {
                    let (rm, w) = gen::rm_seed(&mut rng, &p, sub / 4);
                    (k.sk, p.encaps(&k.pk, &rm).0, format!("genuine {}", w), Some(k.h))
                }
                1 => {
                    // someone else's ciphertext
                    let mut o = vec![0u8; p.pk_bytes()];
                    rng.fill(&mut o);
                    let rm = rng.bytes(p.rm_bytes());
                    (k.sk, p.encaps(&o, &rm).0, "ct-of-other-key".into(), Some(k.h))
                }
                _ => {
                    let (r, w1) = craft::blinding(&mut rng, &p, sub / 4);
                    let (ps, ms) = if sub % 4 == 2 { (p.weight() / 2, p.weight() / 2) } else { craft::weights(&mut rng, &p, sub / 4) };
                    let mut m = if p.is_hps() {
                        craft::message(&mut rng, &p, ps, ms)
                    } else {
                        gen::trits(&mut rng, p.n - 1, sub).0
                    };
                    m.push(0);
                    (k.sk, p.enc_raw(&k.h, &r, &m), format!("encrypted {}", w1), Some(k.h))
                }
            }
        }
        _ => {
            let (r, w) = craft::blinding(&mut rng, &p, 2 * sub + idx % 4 - 2);
            let prf = gen::prf(&mut rng);
            let pad = rng.chance(8);
            let padbits = 1 + rng.below(255) as u8;
            let x = with_bench(cx, idx / 32, |b| {
                let mut ct = b.ct.clone();
                let used = (p.n - 1) * p.logq;
                if pad {
                    let l = ct.len() - 1;
                    for pos in used..8 * ct.len() {
                        ct[l] |= padbits & (1 << (pos % 8));
                    }
                }
                (b.key(&r, &prf), ct, format!("{} {}", b.what, w))
            });
            match x {
                Some((sk, ct, w)) => (sk, ct, w, None),
                None => {
                    cx.rep.class("crafting-failed");
                    return;
                }
            }
        }
    };
    let e = p.decaps(&sk, &ct);
    let genuine = match &h {
        // independent of the validity checks: re-encrypt what was recovered
        Some(h) => {
            let tern = e.r.iter().all(|c| *c <= 2);
            let g = tern && p.m_in_space(&e.m) && p.enc_rm(h, &e.r, &e.m) == ct;
            assert_eq!(g, e.accepted, "monitor: re-encryption and validity checks disagree");
            g
        }
        None => e.accepted,
    };
    let why = if genuine {
        "genuine".to_string()
    } else {
        let mut w = vec![];
        if !e.pad_ok {
            w.push("unused bits");
        }
        if !e.m_ok {
            w.push("message");
        }
        if !e.r_ok {
            w.push("blinding");
        }
        format!("invalid by {}", w.join("+"))
    };
    let det = vec![("sk", hex(&sk)), ("ct", hex(&ct))];
    let want = if genuine { p.shared(&e.r, &e.m) } else { p.reject_key(&sk[sk.len() - 32..], &ct) };
    cx.rep.class(&what);
    cx.rep.class(&why);
    cx.rep.eval(fnv(&[&sk, &ct]), !genuine);
    match imp::dec(&ct, &sk, d) {
        Err(x) => cx.rep.violation(format!("decapsulation {} ({}, {})", x, what, why), det),
        Ok(k) => {
            if k[..] != want[..] {
                let got = if !genuine && k[..] == p.shared(&e.r, &e.m)[..] {
                    "accepted".to_string()
                } else if genuine && k[..] == p.reject_key(&sk[sk.len() - 32..], &ct)[..] {
                    "rejected".to_string()
                } else {
                    format!("unexpected key {}", hex(&k))
                };
                cx.rep.violation(format!("{} ciphertext ({}) was {}", why, what, got), det);
            } else {
                cx.rep.sample(|| format!("{} ({}) -> key {}..", what, why, hex(&k[..8])));
            }
        }
    }
}

// ---------------------------------------------------------------- C07

fn c07(cx: &mut Ctx, idx: u64) {
    let p = cx.p;
    let mut rng = cx.prng(idx);
    let d = dirt(&mut rng);
    if idx % 8 == 7 {
        let (seed, what) = gen::fg_seed(&mut rng, &p, idx / 8);
        let (f, g) = p.sample_fg(&seed);
        let prf = rng.bytes(32);
        let (pk, sk) = match imp::keypair(&seed, &prf, d) {
            Ok(x) => x,
            Err(e) => {
                cx.rep.violation(format!("key generation {} ({})", e, what), vec![("randomness", hex(&seed))]);
                return;
            }
        };
        cx.rep.class(&format!("key {}", what));
        cx.rep.eval(fnv(&[&seed]), true);
        let fb = p.pack_s3(&f);
        let det = vec![("randomness", hex(&seed)), ("pk", hex(&pk)), ("sk", hex(&sk))];
        if sk[..fb.len()] != fb[..] {
            let got = p.unpack_s3(&sk[..fb.len()]);
            let at = (0..p.n).find(|i| got[*i] != f[*i]);
            cx.rep.violation(format!("secret polynomial is not the specified sample ({}), first at coefficient {:?}", what, at), det);
            return;
        }
        if !p.is_hps() {
            cx.rep.class(match p.correlation(&p.iid(&seed[..p.iid_bytes()])) {
                0 => "correlation of the raw sample is 0",
                x if x > 0 => "correlation of the raw sample is positive",
                _ => "correlation of the raw sample is negative",
            });
            if p.correlation(&f) < 0 {
                cx.rep.violation("secret polynomial has negative self-correlation".to_string(), det);
                return;
            }
        }
        if is_zero(&f) || is_zero(&g) {
            cx.rep.class("degenerate: only the secret polynomial compared");
            return;
        }
        match short_poly(&p, &p.unpack_rq0(&pk), &f) {
            Ok(x) if x == g => cx.rep.sample(|| format!("key {}: f and g as specified", what)),
            Ok(_) => cx.rep.violation(format!("generator polynomial is not the specified sample ({})", what), det),
            Err(e) => cx.rep.violation(format!("{} ({})", e, what), det),
        }
        return;
    }
    // encapsulation: r and m recovered from the ciphertext with the model's key
    let k = cx.model_keys(idx / 256);
    let (rm, what) = gen::rm_seed(&mut rng, &p, idx - idx / 8);
    let det = vec![("pk", hex(&k.pk)), ("randomness", hex(&rm))];
    let (ct, key) = match imp::enc(&k.pk, &rm, d) {
        Ok(x) => x,
        Err(e) => {
            cx.rep.violation(format!("encapsulation {} ({})", e, what), det);
            return;
        }
    };
    cx.rep.class(&format!("enc {}", what));
    cx.rep.eval(fnv(&[&rm]), true);
    let e = p.decaps(&k.sk, &ct);
    let (r, m) = p.sample_rm(&rm);
    if !e.r_ok || !e.m_ok {
        cx.rep.violation(format!("sampled pair lies outside the sample space ({}; blinding {}, message {})", what, e.r_ok, e.m_ok), det);
    } else if e.r != r {
        let at = (0..p.n).find(|i| e.r[*i] != r[*i]);
        cx.rep.violation(format!("blinding polynomial is not the specified sample ({}), first at coefficient {:?}", what, at), det);
    } else if e.m != m {
        let at = (0..p.n).find(|i| e.m[*i] != m[*i]);
        cx.rep.violation(format!("message polynomial is not the specified sample ({}), first at coefficient {:?}", what, at), det);
    } else if key[..] != p.shared(&r, &m)[..] {
        cx.rep.violation(format!("the shared key is not derived from the sampled pair ({})", what), det);
    } else {
        cx.rep.sample(|| format!("enc {}: r and m as specified", what));
    }
}

// ---------------------------------------------------------------- C08

/// Two states that are equal or differ in a way that is easily overlooked.
fn neighbours(rng: &mut Prng, idx: u64) -> ([u8; 52], [u8; 52], &'static str) {
    let mut a = [0u8; 52];
    match idx / 16 % 4 {
        0 => rng.fill(&mut a),
        1 => a[rng.below(52)] = rng.u8(),
        2 => a.iter_mut().for_each(|x| *x = 0xff),
        _ => {
            rng.fill(&mut a);
            let c: i32 = *rng.pick(&[0, 1, -1, i32::MAX, i32::MIN, 255, 256, 65535, 65536]);
            a[48..].copy_from_slice(&c.to_le_bytes());
        }
    }
    let mut b = a;
    let (i, j) = (rng.below(48), rng.below(48));
    let d = 1 + rng.below(255) as u8;
    let w = match idx % 16 {
        0 => "same",
        1 => {
            // every bit in turn
            let k = (idx / 16) as usize % 416;
            b[k / 8] ^= 1 << (k % 8);
            "one bit"
        }
        2 => {
            b[i] = b[i].wrapping_add(d);
            b[j] = b[j].wrapping_sub(d);
            "differences that add up to zero"
        }
        3 => {
            b[i] ^= d;
            b[j] ^= d;
            "differences that cancel"
        }
        4 => {
            b.swap(i, j);
            "two bytes exchanged"
        }
        5 => {
            b[..32].rotate_left(16);
            "halves of the key exchanged"
        }
        6 => {
            let n = 8 * (1 + rng.below(6));
            b[..48].rotate_left(n);
            "words moved"
        }
        7 => {
            b[..32].reverse();
            "key reversed"
        }
        8 => {
            b[32..48].reverse();
            "counter reversed"
        }
        9 => {
            let k = 48 + rng.below(4);
            b[k] ^= d;
            "request count"
        }
        10 => {
            let c = i32::from_le_bytes(a[48..].try_into().unwrap());
            b[48..].copy_from_slice(&c.wrapping_neg().to_le_bytes());
            "negated request count"
        }
        11 => {
            let k = 32 + rng.below(16);
            b[k] ^= d;
            "counter byte"
        }
        12 => {
            let k = rng.below(32);
            b[k] ^= d;
            "key byte"
        }
        13 => {
            for x in b[..48].iter_mut() {
                *x = !*x;
            }
            "complement"
        }
        14 => {
            for k in 0..16 {
                b.swap(k, k + 32);
            }
            "key and counter exchanged"
        }
        _ => {
            rng.fill(&mut b);
            "unrelated"
        }
    };
    (a, b, w)
}

/// Generators as values: fresh, copied, compared, printed.
fn c21(cx: &mut Ctx, idx: u64) {
    let mut rng = cx.prng(idx);
    let (x, y, w) = neighbours(&mut rng, idx);
    let zero = Drbg::zero();
    let (new, default) = (AesState::new(), AesState::default());
    let mut wrong: Vec<String> = vec![];
    if same_state(&new, &zero).is_some() || same_state(&default, &zero).is_some() {
        wrong.push("a fresh generator is not in the zero state".into());
    }
    let (mut a, _) = corpus::state_of(&x);
    let (mut b, _) = corpus::state_of(&y);
    if idx % 3 == 0 {
        // states that were reached, not only written down
        let n = rng.below(40);
        let mut z = vec![0u8; n];
        let c = a.clone();
        let r = imp::guard(|| {
            a.randombytes(&mut z)?;
            b.randombytes(&mut z)
        });
        if r.is_err() {
            return;
        }
        cx.rep.class("after a request");
        if a == c {
            // the state changes with every request (the key would have to encrypt to itself)
            wrong.push("a generator equals its earlier state".into());
        }
    }
    let key = |s: &AesState| [&s.key[..], &s.v[..], &s.reseed_counter.to_le_bytes()[..]].concat();
    let same = key(&a) == key(&b);
    cx.rep.class(w);
    cx.rep.class(if same { "equal" } else { "different" });
    if (a == b) != same || (b == a) != same || (a != b) == same || (b != a) == same {
        wrong.push(format!("comparison says {} for {} states", if same { "different" } else { "equal" }, if same { "equal" } else { "different" }));
    }
    #[allow(clippy::eq_op)]
    if a != a || !(b == b) {
        wrong.push("a generator differs from itself".into());
    }
    let shown = |s: &AesState| vec![format!("{}", s), format!("{:?}", s), format!("{:#?}", s)];
    for (p, q) in shown(&a).iter().zip(&shown(&b)) {
        if (p == q) != same {
            wrong.push(format!("printed forms {} for {} states", if same { "differ" } else { "agree" }, if same { "equal" } else { "different" }));
        }
    }
    // a copy goes on like the original, and neither notices the other
    let before = key(&a);
    let mut c = if idx % 2 == 0 {
        a.clone()
    } else {
        let mut c = b.clone();
        c.clone_from(&a);
        c
    };
    if key(&c) != before || c != a {
        wrong.push("a copy differs from the original".into());
    }
    let lens: Vec<usize> = (0..3).map(|_| *rng.pick(&[0usize, 1, 16, 32, 48, 100])).collect();
    let reseed = rng.chance(3);
    let s = rng.arr::<48>();
    let draw = |g: &mut AesState| {
        imp::guard(|| {
            let mut all = vec![];
            for (i, n) in lens.iter().enumerate() {
                let mut z = vec![0u8; *n];
                g.randombytes(&mut z)?;
                all.extend(z);
                if reseed && i == 1 {
                    g.randombytes_init(s);
                }
            }
            Ok(all)
        })
    };
    // failing is another property's business
    if let Ok(first) = draw(&mut c) {
        if key(&a) != before {
            wrong.push("using a copy changed the original".into());
        }
        let mid = key(&c);
        if let Ok(second) = draw(&mut a) {
            if first != second {
                wrong.push("a copy and its original produce different bytes".into());
            }
            if key(&c) != mid {
                wrong.push("using the original changed the copy".into());
            }
            if a != c || key(&a) != key(&c) {
                wrong.push("a copy and its original end in different states".into());
            }
        }
    }
    cx.rep.eval(fnv(&[&x, &y, &[(idx % 6) as u8]]), true);
    match wrong.first() {
        Some(e) => cx.rep.violation(e.clone(), vec![("case", w.to_string()), ("first", hex(&x)), ("second", hex(&y))]),
        None => cx.rep.sample(|| format!("{} ({})", w, if same { "equal" } else { "different" })),
    }
}

fn c08(cx: &mut Ctx, idx: u64) {
    let mut rng = cx.prng(idx);
    let mut log: Vec<String> = vec![];
    // the state itself at different alignments, too
    let mut home = vec![AesState::new(); 4];
    let a = &mut home[idx as usize / 2 % 4];
    let mut m = Drbg::zero();
    let fresh = if idx % 2 == 0 { a.clone() } else { AesState::default() };
    if same_state(&fresh, &m).is_some() {
        cx.rep.violation("a fresh generator is not in the zero state", vec![]);
        return;
    }
    let seed_like = |rng: &mut Prng, k: u64| -> [u8; 48] {
        match k % 5 {
            0 => [0; 48],
            1 => [0xff; 48],
            2 => {
                let mut s = [0u8; 48];
                s[rng.below(48)] = 1 << rng.below(8);
                s
            }
            _ => rng.arr::<48>(),
        }
    };
    match idx % 4 {
        0 => {
            let s = seed_like(&mut rng, idx / 4);
            a.randombytes_init(s);
            m.reseed(&s);
            log.push(format!("init {}", hex(&s)));
        }
        1 | 2 => {
            // a counter about to carry out of byte j, every byte in turn
            let j = (idx / 4) as usize % 17;
            let mut v = rng.arr::<16>();
            for x in v.iter_mut().skip(16 - j.min(16)) {
                *x = 0xff;
            }
            if rng.chance(2) {
                // a few steps before the carry
                v[15] = v[15].wrapping_sub(rng.below(6) as u8);
            }
            a.v = v;
            a.key = rng.arr::<32>();
            a.reseed_counter = *rng.pick(&[0, 1, 2, 255, 256, 65535, 65536, i32::MAX - 1, i32::MAX, i32::MIN, -1, 1 << 24]);
            m.v = a.v;
            m.key = a.key;
            m.requests = a.reseed_counter;
            log.push(format!("state key={} v={} count={}", hex(&a.key), hex(&a.v), a.reseed_counter));
        }
        _ => log.push("zero state".into()),
    }
    let steps = 3 + rng.below(if idx % 16 == 3 { 200 } else { 12 });
    for step in 0..steps {
        match rng.below(12) {
            0 => {
                let k = rng.u64();
                let s = seed_like(&mut rng, k);
                a.randombytes_init(s);
                m.reseed(&s);
                log.push(format!("init {}", hex(&s)));
                cx.rep.class("reseed");
            }
            1 => {
                // copies are independent
                let mut b = a.clone();
                if b != *a {
                    cx.rep.violation("a copy does not compare equal", vec![("history", log.join("; "))]);
                    return;
                }
                let mut mb = m.clone();
                let n = rng.below(50);
                let mut x = vec![0u8; n];
                if let Err(e) = imp::guard(|| b.randombytes(&mut x)) {
                    cx.rep.violation(format!("request {}", e), vec![("history", log.join("; "))]);
                    return;
                }
                if x != mb.bytes(n) || same_state(&b, &mb).is_some() {
                    cx.rep.violation("a copy of the generator diverges from the model", vec![("history", log.join("; "))]);
                    return;
                }
                log.push(format!("copy draws {}", n));
                cx.rep.class("copy");
            }
            _ => {
                let n = match rng.below(10) {
                    0 => 0,
                    1 => 16 * rng.below(20),
                    2 => 16 * rng.below(20) + 15,
                    3 => 16 * rng.below(20) + 1,
                    4 => rng.below(64),
                    5 => 48,
                    6 => 32,
                    7 => 16 * 256 + rng.below(40),
                    8 => rng.below(4000),
                    _ => (idx as usize / 3 + step) % 600,
                };
                let n = if idx % 64 == 7 && step == 0 { 16 * 65536 + 8 + rng.below(64) } else { n };
                // exactly the requested bytes may be touched
                let pre = rng.u8();
                let from = 16 + imp::offset();
                let mut x = vec![pre; from + n + 16];
                if let Err(e) = imp::guard(|| a.randombytes(&mut x[from..from + n])) {
                    cx.rep.violation(format!("request of {} bytes {}", n, e), vec![("history", log.join("; "))]);
                    return;
                }
                log.push(format!("draw {}", n));
                let want = m.bytes(n);
                cx.rep.class(match n {
                    0 => "empty request",
                    n if n % 16 == 0 => "whole blocks",
                    _ => "partial last block",
                });
                if x[..from].iter().chain(&x[from + n..]).any(|b| *b != pre) {
                    cx.rep.violation("bytes outside the request were written", vec![("history", log.join("; "))]);
                    return;
                }
                if x[from..from + n] != want[..] {
                    cx.rep.violation(
                        format!("output of a {}-byte request differs from AES-256 CTR_DRBG: {}", n, diff(&x[from..from + n], &want)),
                        vec![("history", log.join("; "))],
                    );
                    return;
                }
            }
        }
        if let Some(w) = same_state(a, &m) {
            cx.rep.violation(format!("state after the request differs from AES-256 CTR_DRBG: {}", w), vec![("history", log.join("; "))]);
            return;
        }
    }
    cx.rep.eval(fnv(&[log.join(";").as_bytes()]), true);
    cx.rep.add("requests", steps as u64);
    cx.rep.sample(|| log.iter().take(6).cloned().collect::<Vec<_>>().join("; "));
}

// ---------------------------------------------------------------- C09

fn c09(cx: &mut Ctx, idx: u64) {
    use ntrust_native::*;
    let p = cx.p;
    let mut rng = cx.prng(idx);
    let d = dirt(&mut rng);
    let keep = rng.clone();
    let modes = [FailMode::Untouched, FailMode::Partial, FailMode::Full];
    // 0: healthy key generation, 1: healthy encapsulation, 2..: faults
    let kind = idx % 6;
    let content = |rng: &mut Prng, n: usize, sel: u64| -> Vec<u8> {
        match sel % 4 {
            0 => vec![(sel / 4) as u8; n],
            1 => (0..n).map(|_| *rng.pick(&gen::EDGE)).collect(),
            _ => rng.bytes(n),
        }
    };
    let sub = idx / 6;
    match kind {
        0 => {
            let want = vec![p.fg_bytes(), 32];
            let data = content(&mut rng, p.fg_bytes() + 32, sub);
            let mut s = Script::new(&data);
            let r = imp::keypair_rng(&mut s, d);
            cx.rep.class("healthy key generation");
            cx.rep.eval(fnv(&[&data, &[0]]), true);
            let det = vec![("bytes served", hex(&data))];
            if let Err(e) = r {
                cx.rep.violation(format!("key generation {} although the source succeeds", e), det);
            } else if s.draws != want {
                cx.rep.violation(format!("key generation requested {:?} bytes instead of {:?}", s.draws, want), det);
            } else if s.inits != 0 {
                cx.rep.violation("key generation reseeded the caller's source", det);
            } else {
                cx.rep.sample(|| format!("key generation drew {:?}", s.draws));
            }
        }
        1 => {
            let want = vec![p.rm_bytes()];
            let k = cx.model_keys(idx / 384);
            let pk = if sub % 3 == 0 { k.pk } else { gen::odd_pk(&mut rng, &p, sub).0 };
            let data = content(&mut rng, p.rm_bytes(), sub);
            let mut s = Script::new(&data);
            let r = imp::enc_rng(&pk, &mut s, d);
            cx.rep.class("healthy encapsulation");
            cx.rep.eval(fnv(&[&data, &pk, &[1]]), true);
            let det = vec![("bytes served", hex(&data)), ("pk", hex(&pk))];
            if let Err(e) = r {
                cx.rep.violation(format!("encapsulation {} although the source succeeds", e), det);
            } else if s.draws != want {
                cx.rep.violation(format!("encapsulation requested {:?} bytes instead of {:?}", s.draws, want), det);
            } else if s.inits != 0 {
                cx.rep.violation("encapsulation reseeded the caller's source", det);
            }
        }
        2 | 3 | 4 => {
            // failing source: request 0 or 1 of key generation, request 0 of encapsulation
            let mode = modes[sub as usize % 3];
            let tag = rng.u64();
            let at = if kind == 3 { 1 } else { 0 };
            let op = if kind == 4 { "encapsulation" } else { "key generation" };
            let data = content(&mut rng, p.fg_bytes() + 32, sub / 3);
            let mut s = Script::new(&data);
            s.fail_at = Some((at, mode, tag));
            let k = cx.model_keys(idx / 384);
            let pk: imp::Placed<CRYPTO_PUBLICKEYBYTES> = imp::Placed::new(k.pk.as_slice().try_into().unwrap());
            let mut b1 = imp::Placed::new([0u8; CRYPTO_CIPHERTEXTBYTES]);
            let mut b2 = imp::Placed::new([0u8; CRYPTO_BYTES]);
            rng.fill(&mut b1[..]);
            rng.fill(&mut b2[..]);
            let (s1, s2) = (b1.clone(), b2.clone());
            let mut out_pk = Box::new([0u8; CRYPTO_PUBLICKEYBYTES]);
            let mut out_sk = Box::new([0u8; CRYPTO_SECRETKEYBYTES]);
            // outcome: None = no error, Some(same) = error, identical to the injected one or not
            let outcome = imp::guard(|| {
                let r = if kind == 4 {
                    crypto_kem_enc(&mut b1, &mut b2, &pk, &mut s)
                } else {
                    crypto_kem_keypair(&mut out_pk, &mut out_sk, &mut s)
                };
                Ok(match r {
                    Ok(()) => None,
                    Err(e) => Some((
                        e.downcast_ref::<imp::SourceFailure>() == Some(&imp::SourceFailure(tag)),
                        e.to_string(),
                    )),
                })
            });
            cx.rep.class(&format!("{} with failing request {} ({:?})", op, at, mode));
            cx.rep.eval(fnv(&[&data, &tag.to_le_bytes(), &[kind as u8]]), true);
            let det = vec![("failing request", at.to_string()), ("mode", format!("{:?}", mode))];
            match outcome {
                Err(e) => cx.rep.violation(format!("{} {} when the source fails", op, e), det),
                Ok(None) => cx.rep.violation(format!("{} reported success although request {} failed", op, at), det),
                Ok(Some((false, e))) => cx.rep.violation(format!("{} returned a different error: {}", op, e), det),
                Ok(Some((true, _))) => {
                    if s.draws.len() != at + 1 {
                        cx.rep.violation(format!("{} kept drawing after the failure: {:?}", op, s.draws), det);
                    } else if kind == 4 && (b1[..] != s1[..] || b2[..] != s2[..]) {
                        cx.rep.violation("failed encapsulation changed its output buffers", det);
                    } else {
                        cx.rep.sample(|| format!("{} fails at request {} ({:?}) and returns the source's error", op, at, mode));
                        // the next call with a healthy source works as if nothing had happened
                        let mut r2 = keep;
                        let data = r2.bytes(p.rm_bytes());
                        match imp::enc(&k.pk, &data, d) {
                            Ok((ct, key)) => {
                                let (ect, ek) = p.encaps(&k.pk, &data);
                                if ct != ect || key[..] != ek[..] {
                                    cx.rep.violation("encapsulation after a failed call gives a different result", vec![]);
                                }
                            }
                            Err(e) => cx.rep.violation(format!("encapsulation after a failed call {}", e), vec![]),
                        }
                    }
                }
            }
        }
        _ => {
            // the bundled generator sees the same accounting: its request count
            let k = cx.model_keys(idx / 384);
            let mut s = AesState::new();
            let e = rng.arr::<48>();
            s.randombytes_init(e);
            let mut m = Drbg::seeded(&e);
            cx.rep.class("bundled generator accounting");
            cx.rep.eval(fnv(&[&e]), true);
            let r = imp::keypair_rng(&mut s, d);
            m.bytes(p.fg_bytes());
            m.bytes(32);
            let det = vec![("seed", hex(&e))];
            if r.is_err() || s.key != m.key || s.v != m.v {
                cx.rep.violation("key generation left the generator in an unexpected state", det);
                return;
            }
            let (ct, _) = match imp::enc_rng(&k.pk, &mut s, d) {
                Ok(x) => x,
                Err(e) => {
                    cx.rep.violation(format!("encapsulation {}", e), det);
                    return;
                }
            };
            m.bytes(p.rm_bytes());
            if s.key != m.key || s.v != m.v {
                cx.rep.violation("encapsulation left the generator in an unexpected state", det);
                return;
            }
            if let Err(e) = imp::dec(&ct, &k.sk, d) {
                cx.rep.violation(format!("decapsulation {}", e), det);
            }
        }
    }
}

// ---------------------------------------------------------------- C10

/// One call with all its inputs, a function of (seed, number).
#[derive(Clone)]
enum Task {
    Key { seed: Vec<u8>, prf: Vec<u8> },
    Enc { pk: Vec<u8>, rm: Vec<u8> },
    Dec { sk: Vec<u8>, ct: Vec<u8> },
    Rng { seed: [u8; 48], lens: Vec<usize> },
}

/// Tasks come in families: a base task and neighbours that differ from it in
/// one byte somewhere, so that anything remembered under part of the inputs
/// shows. `num` selects the family and the member.
fn task(cx: &Ctx, num: u64) -> Task {
    let p = cx.p;
    let fam = num / 32;
    let mem = num % 32;
    let mut fr = Prng::new(cx.seed, "C10-family", fam);
    let mut mr = Prng::new(cx.seed, "C10-member", num);
    let poke = |v: &mut Vec<u8>, mr: &mut Prng, lo: usize, hi: usize| {
        if mem > 0 {
            // neighbours spread over the whole input, first and last byte included
            let span = hi - lo;
            let i = match mem {
                1 => 0,
                2 => span - 1,
                3 => 1,
                4 => span / 2,
                5 => 15.min(span - 1),
                6 => 16.min(span - 1),
                7 => 31.min(span - 1),
                8 => 32.min(span - 1),
                _ => (mem as usize * span / 32 + mr.below(span / 32 + 1)) % span,
            };
            v[lo + i] ^= 1 << mr.below(8);
        }
    };
    match fam % 8 {
        0 => {
            let mut seed = fr.bytes(p.fg_bytes());
            let prf = fr.bytes(32);
            let l = seed.len();
            poke(&mut seed, &mut mr, 0, l);
            Task::Key { seed, prf }
        }
        1 | 2 => {
            let mut pk = fr.bytes(p.pk_bytes());
            let mut rm = fr.bytes(p.rm_bytes());
            let l = pk.len();
            if fam % 8 == 1 {
                poke(&mut pk, &mut mr, 0, l);
            } else {
                let l = rm.len();
                poke(&mut rm, &mut mr, 0, l);
            }
            Task::Enc { pk, rm }
        }
        7 => {
            let seed = fr.arr::<48>();
            let mut lens: Vec<usize> = (0..3).map(|_| fr.below(100)).collect();
            if mem > 0 {
                lens.push(mr.below(200));
            }
            Task::Rng { seed, lens }
        }
        _ => {
            // honest key, genuine ciphertext
            let seed = fr.bytes(p.fg_bytes());
            let prf: [u8; 32] = fr.arr::<32>();
            let k = p.keypair(&seed, &prf).expect("monitor: key");
            let rm = fr.bytes(p.rm_bytes());
            let mut ct = p.encaps(&k.pk, &rm).0;
            let mut sk = k.sk;
            let (l, c) = (sk.len(), ct.len());
            match fam % 8 {
                3 => poke(&mut ct, &mut mr, 0, c),
                4 => poke(&mut sk, &mut mr, 0, l - 32),
                5 => poke(&mut sk, &mut mr, l - 32, l),
                _ => {
                    // same key, fresh genuine ciphertexts
                    if mem > 0 {
                        let rm = mr.bytes(p.rm_bytes());
                        ct = p.encaps(&k.pk, &rm).0;
                    }
                }
            }
            Task::Dec { sk, ct }
        }
    }
}

fn run_task(t: &Task, d: u8) -> Vec<u8> {
    let r = match t {
        Task::Key { seed, prf } => imp::keypair(seed, prf, d).map(|(a, b)| [a, b].concat()),
        Task::Enc { pk, rm } => imp::enc(pk, rm, d).map(|(a, b)| [a, b].concat()),
        Task::Dec { sk, ct } => imp::dec(ct, sk, d),
        Task::Rng { seed, lens } => imp::guard(|| {
            let mut s = AesState::new();
            s.randombytes_init(*seed);
            let mut out = vec![];
            for l in lens {
                let mut x = vec![d; *l];
                s.randombytes(&mut x)?;
                out.extend(x);
            }
            Ok(out)
        }),
    };
    match r {
        Ok(v) => v,
        Err(e) => format!("{}", e).into_bytes(),
    }
}

/// A random source that runs a whole other call of the library each time it is
/// asked for bytes: the tightest interleaving of two calls there is.
struct Nested<'a> {
    inner: Script,
    other: &'a Task,
    results: Vec<Vec<u8>>,
}

impl RNGState for Nested<'_> {
    fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn std::error::Error>> {
        self.results.push(run_task(self.other, 0x3c));
        let r = self.inner.randombytes(x);
        self.results.push(run_task(self.other, 0xc3));
        r
    }
    fn randombytes_init(&mut self, _: [u8; 48]) {}
}

/// (outer result, results of the inner calls), or None if the task draws nothing.
fn run_nested(t: &Task, other: &Task) -> Option<(Vec<u8>, Vec<Vec<u8>>)> {
    let data = match t {
        Task::Key { seed, prf } => [seed.clone(), prf.clone()].concat(),
        Task::Enc { rm, .. } => rm.clone(),
        _ => return None,
    };
    let mut n = Nested { inner: Script::new(&data), other, results: vec![] };
    let r = match t {
        Task::Key { .. } => imp::keypair_rng(&mut n, 0x77),
        Task::Enc { pk, .. } => imp::enc_rng(pk, &mut n, 0x77),
        _ => unreachable!(),
    };
    let out = match r {
        Ok((a, b)) => [a, b].concat(),
        Err(e) => format!("{}", e).into_bytes(),
    };
    Some((out, n.results))
}

fn task_name(t: &Task) -> &'static str {
    match t {
        Task::Key { .. } => "key generation",
        Task::Enc { .. } => "encapsulation",
        Task::Dec { .. } => "decapsulation",
        Task::Rng { .. } => "generator",
    }
}

/// Child process: run a single task as the first and only call of the process.
fn c10_task(cx: &Ctx, num: u64) {
    println!("{}", hex(&run_task(&task(cx, num), 0)));
}

/// Reference results: every task alone in a fresh process.
fn isolated(cx: &Ctx, nums: &[u64]) -> HashMap<u64, Vec<u8>> {
    let exe = std::env::current_exe().expect("monitor: own path");
    let next = AtomicUsize::new(0);
    let out = std::sync::Mutex::new(HashMap::new());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= nums.len() {
                    return;
                }
                let o = std::process::Command::new(&exe)
                    .args(["C10-task", "--seed", &cx.seed.to_string(), "--start", &nums[i].to_string()])
                    .output()
                    .expect("monitor: spawn");
                if !o.status.success() {
                    eprintln!("monitor: isolated task {} ended with {:?}", nums[i], o.status);
                    std::process::exit(3);
                }
                let t = String::from_utf8(o.stdout).unwrap();
                let t = t.trim();
                let v = (0..t.len() / 2).map(|k| u8::from_str_radix(&t[2 * k..2 * k + 2], 16).unwrap()).collect();
                out.lock().unwrap().insert(nums[i], v);
            });
        }
    });
    out.into_inner().unwrap()
}

/// A call that ends early because its random source fails or panics.
fn upset(cx: &mut Ctx, rng: &mut Prng) {
    let p = cx.p;
    let mut s = Script::new(&rng.bytes(p.fg_bytes() + 32));
    let mode = *rng.pick(&[FailMode::Untouched, FailMode::Partial, FailMode::Full, FailMode::Panic]);
    s.fail_at = Some((rng.below(2) as usize, mode, 0));
    if rng.below(2) == 0 {
        let _ = imp::keypair_rng(&mut s, rng.u8());
    } else {
        let _ = imp::enc_rng(&rng.bytes(p.pk_bytes()), &mut s, rng.u8());
    }
    cx.rep.class(if mode == FailMode::Panic { "call with a panicking source in between" } else { "call with a failing source in between" });
}

fn c10(cx: &mut Ctx, start: u64, count: u64, extra: &str) {
    // `count` families from family `start`
    let nums: Vec<u64> = (start * 32..(start + count) * 32).collect();
    let want = isolated(cx, &nums);
    let tasks: HashMap<u64, Task> = nums.iter().map(|n| (*n, task(cx, *n))).collect();
    let rounds: u64 = extra.parse().unwrap_or(4);
    let mut fail: Option<(String, u64)> = None;
    // one thread, several orders, dirty buffers
    for round in 0..rounds {
        let mut rng = Prng::new(cx.seed, "C10-order", start * 1000 + round);
        let mut order = nums.clone();
        match round % 4 {
            0 => {}
            1 => rng.shuffle(&mut order),
            2 => {
                // base, neighbour, base, neighbour, ...
                order = nums.iter().flat_map(|n| [n / 32 * 32, *n]).collect();
            }
            _ => {
                order.reverse();
                order = order.iter().flat_map(|n| [*n, *n]).collect();
            }
        }
        for n in &order {
            let t = &tasks[n];
            if round / 4 % 2 == 1 {
                upset(cx, &mut rng);
            }
            let before = snapshot(t);
            let got = run_task(t, rng.u8());
            cx.rep.class(task_name(t));
            cx.rep.eval(fnv(&[&n.to_le_bytes(), &before.to_le_bytes()]), true);
            if snapshot(t) != before && fail.is_none() {
                fail = Some((format!("{} changed an input passed by shared reference", task_name(t)), *n));
            }
            if got != want[n] && fail.is_none() {
                fail = Some((
                    format!("{} gives a different result after other calls than in a fresh process ({})", task_name(t), diff(&got, &want[n])),
                    *n,
                ));
            }
        }
        if fail.is_some() {
            break;
        }
        cx.rep.class(&format!("round with order {}{}", round % 4, if round / 4 % 2 == 1 { ", failing calls in between" } else { "" }));
    }
    // a call inside another call's random source
    if fail.is_none() {
        let mut rng = Prng::new(cx.seed, "C10-nested", start);
        for n in &nums {
            let o = *rng.pick(&nums);
            if let Some((out, inner)) = run_nested(&tasks[n], &tasks[&o]) {
                cx.rep.class("calls nested in another call");
                cx.rep.evaluations += 1 + inner.len() as u64;
                if out != want[n] {
                    fail = Some((format!("{} gives a different result when {} runs during its random request", task_name(&tasks[n]), task_name(&tasks[&o])), *n));
                } else if inner.iter().any(|x| *x != want[&o]) {
                    fail = Some((format!("{} gives a different result during another call", task_name(&tasks[&o])), o));
                }
            }
        }
    }
    // several threads at once
    if fail.is_none() {
        let bad = std::sync::Mutex::new(None);
        let stop = AtomicBool::new(false);
        let done = AtomicUsize::new(0);
        let seed = cx.seed;
        std::thread::scope(|s| {
            for th in 0..8u64 {
                let (nums, tasks, want, bad, stop, done) = (&nums, &tasks, &want, &bad, &stop, &done);
                s.spawn(move || {
                    let mut rng = Prng::new(seed, "C10-thread", start * 64 + th);
                    let mut order = nums.clone();
                    if th % 2 == 0 {
                        rng.shuffle(&mut order);
                    }
                    for n in order {
                        if stop.load(Ordering::Relaxed) {
                            return;
                        }
                        let got = run_task(&tasks[&n], rng.u8());
                        done.fetch_add(1, Ordering::Relaxed);
                        if got != want[&n] {
                            stop.store(true, Ordering::Relaxed);
                            *bad.lock().unwrap() = Some((
                                format!("{} gives a different result while other threads run ({})", task_name(&tasks[&n]), diff(&got, &want[&n])),
                                n,
                            ));
                        }
                    }
                });
            }
        });
        cx.rep.add("calls with 8 concurrent threads", done.load(Ordering::Relaxed) as u64);
        cx.rep.evaluations += done.load(Ordering::Relaxed) as u64;
        fail = bad.into_inner().unwrap();
    }
    // hammering one call: a long history must not change it
    if fail.is_none() {
        for n in nums.iter().filter(|n| **n % 32 == 0) {
            let t = &tasks[n];
            let reps = 1200;
            for _ in 0..reps {
                let got = run_task(t, 0x5a);
                cx.rep.evaluations += 1;
                if got != want[n] {
                    fail = Some((format!("{} changes its result when repeated", task_name(t)), *n));
                    break;
                }
            }
            cx.rep.add("repetitions of one call", reps);
        }
    }
    cx.rep.sample(|| format!("{} calls of {} families compared with fresh-process results", nums.len(), count));
    if let Some((w, n)) = fail {
        cx.rep.case = start;
        cx.rep.violation(w, vec![("task", n.to_string()), ("isolated result", hex(&want[&n]))]);
    }
}

/// Two calls in turn, very many times in one process: counters of any kind
/// in the library come to pass their limits.
fn history(cx: &mut Ctx, family: u64, calls: u64) {
    let tasks = [task(cx, 32 * family), task(cx, 32 * family + 1)];
    let want = [run_task(&tasks[0], 0), run_task(&tasks[1], 0)];
    let what = task_name(&tasks[0]);
    cx.rep.case = family;
    for t in &tasks {
        cx.rep.eval(snapshot(t), true);
    }
    let mut n = 2;
    while n < calls {
        let i = (n & 1) as usize;
        n += 1;
        if run_task(&tasks[i], n as u8) != want[i] {
            cx.rep.violation(format!("{} changes its result at call {} of one process", what, n), vec![("isolated result", hex(&want[i]))]);
            break;
        }
    }
    cx.rep.evaluations += n - 2;
    cx.rep.add(&format!("{} in one long-lived process", what), n);
    cx.rep.sample(|| format!("{} calls in one process, {}", n, what));
}

fn snapshot(t: &Task) -> u64 {
    match t {
        Task::Key { seed, prf } => fnv(&[seed, prf]),
        Task::Enc { pk, rm } => fnv(&[pk, rm]),
        Task::Dec { sk, ct } => fnv(&[sk, ct]),
        Task::Rng { seed, lens } => fnv(&[seed, format!("{:?}", lens).as_bytes()]),
    }
}

/// Workload for the race detector: all operations from several threads on
/// shared read-only inputs.
fn races(cx: &mut Ctx, start: u64, count: u64) {
    let nums: Vec<u64> = (start * 32..(start + count) * 32).filter(|n| n % 32 < 3).collect();
    let tasks: Vec<Task> = nums.iter().map(|n| task(cx, *n)).collect();
    let done = AtomicUsize::new(0);
    let seed = cx.seed;
    let res: Vec<HashMap<u64, Vec<u8>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4u64)
            .map(|th| {
                let (nums, tasks, done) = (&nums, &tasks, &done);
                s.spawn(move || {
                    let mut rng = Prng::new(seed, "race-thread", th);
                    let mut order: Vec<usize> = (0..nums.len()).collect();
                    rng.shuffle(&mut order);
                    let mut m = HashMap::new();
                    for i in order {
                        m.insert(nums[i], run_task(&tasks[i], rng.u8()));
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                    m
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("monitor: thread")).collect()
    });
    let d = done.load(Ordering::Relaxed) as u64;
    cx.rep.evaluations += d;
    cx.rep.add("calls under the race detector", d);
    for n in &nums {
        cx.rep.distinct.insert(*n);
        if res.iter().any(|m| m[n] != res[0][n]) {
            cx.rep.violation("threads disagree on the result of the same call", vec![("task", n.to_string())]);
        }
    }
}

// ---------------------------------------------------------------- C11, C12

/// Everything the interface accepts, with no oracle but "it completes".
fn any_input(cx: &mut Ctx, idx: u64) {
    let p = cx.p;
    let mut rng = cx.prng(idx);
    let d = dirt(&mut rng);
    let sub = idx / 8;
    let fail = |cx: &mut Ctx, op: &str, what: &str, e: imp::Fail, det: Vec<(&str, String)>| {
        cx.rep.violation(format!("{} {} ({})", op, e, what), det);
    };
    match idx % 8 {
        0 | 1 => {
            let (seed, what) = match idx % 16 {
                0 | 1 => (rng.bytes(p.fg_bytes()), "raw-uniform".to_string()),
                8 => match sub / 2 % 4 {
                    0 => (vec![0; p.fg_bytes()], "all-zero".into()),
                    1 => (vec![0xff; p.fg_bytes()], "all-ones".into()),
                    _ => gen::fg_seed(&mut rng, &p, idx),
                },
                _ => gen::fg_seed(&mut rng, &p, sub),
            };
            let prf = gen::prf(&mut rng);
            cx.rep.class(&format!("key {}", what));
            cx.rep.eval(fnv(&[&seed]), true);
            match imp::keypair(&seed, &prf, d) {
                Err(e) => fail(cx, "key generation", &what, e, vec![("randomness", hex(&seed))]),
                Ok((pk, sk)) => {
                    let rm = rng.bytes(p.rm_bytes());
                    match imp::enc(&pk, &rm, d) {
                        Err(e) => fail(cx, "encapsulation", &what, e, vec![("pk", hex(&pk)), ("randomness", hex(&rm))]),
                        Ok((ct, _)) => {
                            if let Err(e) = imp::dec(&ct, &sk, d) {
                                fail(cx, "decapsulation", &what, e, vec![("sk", hex(&sk)), ("ct", hex(&ct))])
                            }
                        }
                    }
                }
            }
        }
        2 | 3 => {
            let (pk, w1) = gen::odd_pk(&mut rng, &p, sub);
            let (rm, w2) = gen::rm_seed(&mut rng, &p, 2 * sub + idx % 2);
            cx.rep.class(w1);
            cx.rep.class(&w2);
            cx.rep.eval(fnv(&[&pk, &rm]), true);
            if let Err(e) = imp::enc(&pk, &rm, d) {
                fail(cx, "encapsulation", &format!("{}, {}", w1, w2), e, vec![("pk", hex(&pk)), ("randomness", hex(&rm))])
            }
        }
        4 | 5 | 6 => {
            // cheap hostile decapsulations: no honest key needed
            let crafted = match sub % 4 {
                3 => {
                    let (r, w) = craft::blinding(&mut rng, &p, sub / 4);
                    let prf = gen::prf(&mut rng);
                    with_bench(cx, sub / 64, |b| (b.key(&r, &prf), b.ct.clone(), w, b.what))
                }
                _ => None,
            };
            let (sk, w1) = match rng.below(5) {
                0 => (rng.bytes(p.sk_bytes()), "sk-random"),
                1 => (vec![*rng.pick(&gen::EDGE); p.sk_bytes()], "sk-constant"),
                2 => ((0..p.sk_bytes()).map(|_| *rng.pick(&gen::EDGE)).collect(), "sk-edge-bytes"),
                3 => {
                    let s = monitors::Sk {
                        f: { let mut v = gen::trits(&mut rng, p.n - 1, sub).0; v.push(0); v },
                        f3: { let mut v = gen::trits(&mut rng, p.n - 1, sub / 3).0; v.push(0); v },
                        hinv: (0..p.n).map(|_| *rng.pick(&[0, 1, p.q() - 1, p.q() / 2])).collect(),
                        prf: [d; 32],
                    };
                    (p.build_sk(&s), "sk-structured")
                }
                _ => {
                    let base = cx.model_keys(idx / 256).sk;
                    craft::mutate_sk(&mut rng, &p, &base, sub)
                }
            };
            let (ct, w2) = match rng.below(3) {
                0 => gen::odd_pk(&mut rng, &p, sub),
                1 => (rng.bytes(p.ct_bytes()), "ct-random"),
                _ => {
                    let k = cx.model_keys(idx / 256);
                    let rm = rng.bytes(p.rm_bytes());
                    let ct = p.encaps(&k.pk, &rm).0;
                    craft::mutate_ct(&mut rng, &p, &ct, sub)
                }
            };
            let (sk, ct, w1, w2) = match crafted {
                Some((sk, ct, w1, w2)) => (sk, ct, w1, w2),
                None => (sk, ct, w1, w2),
            };
            cx.rep.class(w1);
            cx.rep.class(&format!("dec {}", w2));
            cx.rep.eval(fnv(&[&sk, &ct]), true);
            if let Err(e) = imp::dec(&ct, &sk, d) {
                fail(cx, "decapsulation", &format!("{}, {}", w1, w2), e, vec![("sk", hex(&sk)), ("ct", hex(&ct))])
            }
        }
        _ => {
            let mut s = corpus::state(rng.arr::<32>(), rng.arr::<16>(), rng.u32() as i32);
            if rng.chance(2) {
                let j = rng.below(17);
                for x in s.v.iter_mut().skip(16 - j) {
                    *x = 0xff;
                }
                s.reseed_counter = *rng.pick(&[i32::MAX, i32::MIN, -1, 0, i32::MAX - 1]);
            }
            let shown = format!("key={} v={} count={}", hex(&s.key), hex(&s.v), s.reseed_counter);
            cx.rep.class("generator");
            cx.rep.eval(fnv(&[shown.as_bytes()]), true);
            for t in 0..4 {
                let n = *rng.pick(&[0, 1, 15, 16, 17, 31, 32, 33, 48, 100, 255, 256, 257, 4097]);
                let mut x = vec![0u8; n];
                let r = imp::guard(|| {
                    if t == 3 {
                        s.randombytes_init([d; 48]);
                    }
                    s.randombytes(&mut x)
                });
                if let Err(e) = r {
                    fail(cx, "generator", &format!("request of {}", n), e, vec![("state", shown)]);
                    return;
                }
                monitors::vg::check_defined(&x);
            }
            let _ = imp::guard(|| Ok(format!("{} {:?}", s, s)));
            cx.rep.class("generator printed");
        }
    }
    cx.rep.sample(|| format!("operation kind {} completed", idx % 8));
}

// ---------------------------------------------------------------- C17

fn c17(cx: &mut Ctx, idx: u64) {
    let p = cx.p;
    let mut rng = cx.prng(idx);
    let d = rng.u8() | if idx % 2 == 0 { 0xf0 } else { 0 };
    if idx % 8 == 0 {
        let (seed, what) = gen::fg_seed(&mut rng, &p, idx / 8);
        let prf = gen::prf(&mut rng);
        let (pk, sk) = match imp::keypair(&seed, &prf, d) {
            Ok(x) => x,
            Err(e) => {
                cx.rep.violation(format!("key generation {} ({})", e, what), vec![("randomness", hex(&seed))]);
                return;
            }
        };
        cx.rep.class(&format!("key {}", what));
        cx.rep.eval(fnv(&[&pk, &sk]), true);
        let w = keys_uncanonical(&p, &pk, &sk);
        // whatever was in the buffers must not show
        let (pk2, sk2) = match imp::keypair(&seed, &prf, !d) {
            Ok(x) => x,
            Err(e) => {
                cx.rep.violation(format!("key generation {} ({})", e, what), vec![("randomness", hex(&seed))]);
                return;
            }
        };
        let w = w.or_else(|| if pk != pk2 || sk != sk2 { Some("key bytes depend on the previous buffer content".into()) } else { None });
        match w {
            Some(w) => cx.rep.violation(format!("{} ({})", w, what), vec![("randomness", hex(&seed)), ("pk", hex(&pk)), ("sk", hex(&sk))]),
            None => cx.rep.sample(|| format!("key {}: all fields canonical", what)),
        }
        return;
    }
    let (pk, w1) = if idx % 8 < 3 { (cx.model_keys(idx / 256).pk, "pk-honest") } else { gen::odd_pk(&mut rng, &p, idx / 8 * 5 + idx % 8 - 3) };
    let (rm, w2) = gen::rm_seed(&mut rng, &p, idx);
    let det = vec![("pk", hex(&pk)), ("randomness", hex(&rm)), ("buffer", format!("{:02x}", d))];
    let (ct, k) = match imp::enc(&pk, &rm, d) {
        Ok(x) => x,
        Err(e) => {
            cx.rep.violation(format!("encapsulation {}", e), det);
            return;
        }
    };
    let (ct2, k2) = match imp::enc(&pk, &rm, !d) {
        Ok(x) => x,
        Err(e) => {
            cx.rep.violation(format!("encapsulation {}", e), det);
            return;
        }
    };
    cx.rep.class(w1);
    cx.rep.class(&format!("enc {}", w2));
    cx.rep.eval(fnv(&[&pk, &ct]), true);
    let w = q_field(&p, &ct, "ciphertext")
        .or_else(|| if ct != ct2 || k != k2 { Some("output depends on the previous buffer content".into()) } else { None });
    match w {
        Some(w) => cx.rep.violation(format!("{} ({}, {})", w, w1, w2), det),
        None => cx.rep.sample(|| format!("enc {}, {}: canonical", w1, w2)),
    }
}

// ---------------------------------------------------------------- C18

fn c18(cx: &mut Ctx, idx: u64) {
    let p = cx.p;
    let mut rng = cx.prng(idx);
    let d = dirt(&mut rng);
    if idx % 2 == 0 {
        // encapsulations to one key whose randomness differs in one place
        let k = cx.model_keys(idx / 16);
        let (rm, w) = gen::rm_seed(&mut rng, &p, idx / 2);
        let mut seen: HashMap<(Vec<u32>, Vec<u32>), usize> = HashMap::new();
        let mut outs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        let mut rms: Vec<Vec<u8>> = vec![rm.clone()];
        for t in 0..14usize {
            let mut v = rm.clone();
            let n1 = p.iid_bytes();
            let i = match t {
                0 => 0,
                1 => n1 - 1,
                2 => n1 - 2,
                3 => n1,
                4 => v.len() - 1,
                5 => n1 - 1 - (idx as usize / 2) % 6,
                6 | 7 | 8 => (idx as usize / 2 * 3 + t) % n1,
                _ => rng.below(v.len()),
            };
            v[i] = v[i].wrapping_add(1 + rng.below(2) as u8);
            rms.push(v);
        }
        for r in &rms {
            match imp::enc(&k.pk, r, d) {
                Ok(x) => outs.push(x),
                Err(e) => {
                    cx.rep.violation(format!("encapsulation {}", e), vec![("pk", hex(&k.pk)), ("randomness", hex(r))]);
                    return;
                }
            }
        }
        for (i, r) in rms.iter().enumerate() {
            let rmv = p.sample_rm(r);
            match seen.get(&rmv) {
                Some(j) => {
                    cx.rep.class("same pair");
                    if outs[i] != outs[*j] {
                        cx.rep.violation("the same pair gave different outputs", vec![("randomness", hex(r))]);
                        return;
                    }
                }
                None => {
                    for (j, o) in outs.iter().enumerate().take(i) {
                        let other = p.sample_rm(&rms[j]);
                        if other == rmv {
                            continue;
                        }
                        if o.1 == outs[i].1 || o.0 == outs[i].0 {
                            let what = if o.1 == outs[i].1 { "shared key" } else { "ciphertext" };
                            cx.rep.violation(
                                format!("two different pairs have the same {} ({})", what, w),
                                vec![("pk", hex(&k.pk)), ("randomness 1", hex(&rms[j])), ("randomness 2", hex(r))],
                            );
                            return;
                        }
                        cx.rep.class("different pairs compared");
                    }
                    seen.insert(rmv, i);
                    cx.rep.eval(fnv(&[&k.pk, r]), true);
                }
            }
        }
        cx.rep.sample(|| format!("{}: {} different pairs, all keys and ciphertexts distinct", w, seen.len()));
        return;
    }
    // rejection keys
    let k = cx.model_keys(idx / 16);
    let rm = rng.bytes(p.rm_bytes());
    let good = p.encaps(&k.pk, &rm).0;
    // a rejected base: one bit flipped
    let mut base = good.clone();
    let b = rng.below(8 * base.len() - 8);
    base[b / 8] ^= 1 << (b % 8);
    if idx % 4 == 3 {
        base = rng.bytes(base.len());
    }
    if p.decaps(&k.sk, &base).accepted {
        cx.rep.class("base accepted, skipped");
        return;
    }
    let mut keys: Vec<(Vec<u8>, String)> = vec![];
    let run = |cx: &mut Ctx, ct: &[u8], sk: &[u8]| -> Option<Vec<u8>> {
        match imp::dec(ct, sk, d) {
            Ok(x) => Some(x),
            Err(e) => {
                cx.rep.violation(format!("decapsulation {}", e), vec![("sk", hex(sk)), ("ct", hex(ct))]);
                None
            }
        }
    };
    let Some(k0) = run(cx, &base, &k.sk) else { return };
    keys.push((k0.clone(), "base".into()));
    let Some(kg) = run(cx, &good, &k.sk) else { return };
    keys.push((kg, "accepted".into()));
    let nbits = 8 * base.len();
    let mut used = vec![];
    for t in 0..10usize {
        let bit = match t {
            0 => nbits - 1 - (idx as usize / 2) % 8,
            1 => (idx as usize / 2) % 8,
            _ => (idx as usize / 2 * 8 + t) % nbits,
        };
        if used.contains(&bit) {
            continue;
        }
        used.push(bit);
        let mut c = base.clone();
        c[bit / 8] ^= 1 << (bit % 8);
        if c == good || p.decaps(&k.sk, &c).accepted {
            cx.rep.class("neighbour accepted, skipped");
            continue;
        }
        let Some(x) = run(cx, &c, &k.sk) else { return };
        keys.push((x, format!("ciphertext bit {} flipped", bit)));
        cx.rep.class("ciphertext bit flipped");
    }
    let s3 = p.s3_bytes();
    let l = k.sk.len();
    for t in 0..4usize {
        let bit = (idx as usize / 2 * 4 + t) % 256;
        let mut s = k.sk.clone();
        s[l - 32 + bit / 8] ^= 1 << (bit % 8);
        let Some(x) = run(cx, &base, &s) else { return };
        keys.push((x, format!("rejection key bit {} flipped", bit)));
        cx.rep.class("rejection key bit flipped");
    }
    for i in 0..keys.len() {
        for j in 0..i {
            if keys[i].0 == keys[j].0 {
                cx.rep.violation(
                    format!("same derived key for '{}' and '{}'", keys[j].1, keys[i].1),
                    vec![("sk", hex(&k.sk)), ("ct", hex(&base)), ("genuine ct", hex(&good))],
                );
                return;
            }
        }
    }
    // nothing else in the secret key matters as long as the ciphertext stays rejected
    for _ in 0..3 {
        let mut s = k.sk.clone();
        let i = rng.below(l - 32);
        if i < 2 * s3 {
            s[i] = rng.below(243) as u8;
        } else {
            s[i] ^= 1 << rng.below(8);
        }
        if p.decaps(&s, &base).accepted {
            continue;
        }
        let Some(x) = run(cx, &base, &s) else { return };
        cx.rep.class("other key byte changed");
        if x != k0 {
            cx.rep.violation(format!("rejection key depends on secret key byte {}", i), vec![("sk", hex(&k.sk)), ("ct", hex(&base))]);
            return;
        }
    }
    cx.rep.eval(fnv(&[&k.sk, &base]), true);
    cx.rep.sample(|| format!("{} rejection keys around one ciphertext, all distinct", keys.len()));
}

// ---------------------------------------------------------------- C14 (native part)

/// A cross-section of all operations compared byte for byte with the model.
fn conform(cx: &mut Ctx, idx: u64) {
    match idx % 8 {
        0 => c02(cx, idx / 8),
        1 | 2 => c03(cx, idx / 8 * 2 + idx % 8 - 1),
        7 => c08(cx, idx / 8),
        x => c04(cx, idx / 8 * 4 + x - 3),
    }
}
