//! Transcript cases for interpreters and foreign targets.
//!   portable list SEED COUNT   prints `op:input:...  expected` lines (model only)
//!   portable probe N           the model's answer to the constants probe
//!   portable run CASE...       runs the library on `op:input:...` and prints outputs

use monitors::gen;
use monitors::imp;
use monitors::prng::Prng;
use monitors::{craft, hex, params};
use ntrust_native::{AesState, RNGState};
use refntru::drbg::Drbg;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("portable: hex")).collect()
}

fn list(seed: u64, count: u64) {
    let p = params();
    refntru::selftest::all(&p).expect("portable: model");
    for i in 0..count {
        let mut rng = Prng::new(seed, "portable", i);
        let mut sel = i;
        let (fg, prf) = loop {
            let (s, _) = if i % 2 == 0 { (rng.bytes(p.fg_bytes()), String::new()) } else { gen::fg_seed(&mut rng, &p, sel) };
            sel += 2;
            let prf = rng.arr::<32>();
            if p.keypair(&s, &prf).is_some() {
                break (s, prf);
            }
        };
        let k = p.keypair(&fg, &prf).unwrap();
        println!("key:{}:{}\t{}{}", hex(&fg), hex(&prf), hex(&k.pk), hex(&k.sk));
        let (rm, _) = if i % 2 == 0 { (rng.bytes(p.rm_bytes()), String::new()) } else { gen::rm_seed(&mut rng, &p, i) };
        let (ct, ss) = p.encaps(&k.pk, &rm);
        println!("enc:{}:{}\t{}{}", hex(&k.pk), hex(&rm), hex(&ct), hex(&ss));
        println!("dec:{}:{}\t{}", hex(&ct), hex(&k.sk), hex(&p.decaps(&k.sk, &ct).key));
        let (bad, _) = craft::mutate_ct(&mut rng, &p, &ct, i);
        println!("dec:{}:{}\t{}", hex(&bad), hex(&k.sk), hex(&p.decaps(&k.sk, &bad).key));
        let e = rng.arr::<48>();
        let mut d = Drbg::seeded(&e);
        let mut out = vec![];
        for n in [1usize, 16, 33, 0, 48] {
            out.extend(d.bytes(n));
        }
        println!("rng:{}\t{}", hex(&e), hex(&out));
        let (mut key, mut v) = (rng.arr::<32>(), rng.arr::<16>());
        let j = 1 + rng.below(16);
        for x in v.iter_mut().skip(16 - j) {
            *x = 0xff;
        }
        key[0] ^= i as u8;
        let mut d = Drbg::zero();
        d.key = key;
        d.v = v;
        println!("ctr:{}:{}\t{}", hex(&key), hex(&v), hex(&d.bytes(40)));
    }
}

/// What the constants probe prints when run with the same argument.
fn probe(b: u8) {
    let p = params();
    refntru::selftest::all(&p).expect("portable: model");
    for i in 0..8u8 {
        let mut e = [b; 48];
        e[0] = i;
        let mut d = Drbg::seeded(&e);
        let fg = d.bytes(p.fg_bytes());
        let prf: [u8; 32] = d.bytes(32).try_into().unwrap();
        let k = p.keypair(&fg, &prf).expect("portable: key");
        let (ct, ss) = p.encaps(&k.pk, &d.bytes(p.rm_bytes()));
        println!("run {} {} {} {} {}", hex(&k.pk), hex(&k.sk), hex(&ct), hex(&ss), hex(&ss));
    }
}

fn run(case: &str) -> String {
    let f: Vec<&str> = case.split(':').collect();
    let a: Vec<Vec<u8>> = f[1..].iter().map(|x| unhex(x)).collect();
    let r = match f[0] {
        "key" => imp::keypair(&a[0], &a[1], 0xa5).map(|(x, y)| [x, y].concat()),
        "enc" => imp::enc(&a[0], &a[1], 0xa5).map(|(x, y)| [x, y].concat()),
        "dec" => imp::dec(&a[0], &a[1], 0xa5),
        "rng" => imp::guard(|| {
            let mut s = AesState::new();
            s.randombytes_init(a[0].as_slice().try_into().unwrap());
            let mut out = vec![];
            for n in [1usize, 16, 33, 0, 48] {
                let mut x = vec![0u8; n];
                s.randombytes(&mut x)?;
                out.extend(x);
            }
            Ok(out)
        }),
        "ctr" => imp::guard(|| {
            let mut s = AesState::new();
            s.key = a[0].as_slice().try_into().unwrap();
            s.v = a[1].as_slice().try_into().unwrap();
            let mut x = vec![0u8; 40];
            s.randombytes(&mut x)?;
            Ok(x)
        }),
        other => panic!("portable: unknown operation {}", other),
    };
    match r {
        Ok(v) => hex(&v),
        Err(e) => format!("failed: {}", e),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => list(a[2].parse().unwrap(), a[3].parse().unwrap()),
        Some("probe") => probe(a[2].parse().unwrap()),
        Some("run") => {
            for c in &a[2..] {
                println!("{}", run(c));
            }
        }
        _ => std::process::exit(3),
    }
}
