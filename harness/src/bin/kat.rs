//! Known-answer files as the model prescribes them.
//!   kat SEEDHEX REQUEST RESPONSE

use monitors::params;
use refntru::drbg::Drbg;
use std::fmt::Write;

fn up(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02X}", x)).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: Vec<u8> = (0..48).map(|i| u8::from_str_radix(&a[1][2 * i..2 * i + 2], 16).expect("kat: seed")).collect();
    let p = params();
    refntru::selftest::all(&p).expect("kat: model");
    let mut d = Drbg::seeded(seed.as_slice().try_into().unwrap());
    let mut req = String::new();
    let mut rsp = format!("# {}\n\n", p.name);
    for t in 0..100 {
        let s: [u8; 48] = d.bytes(48).try_into().unwrap();
        write!(req, "count = {}\nseed = {}\npk = \nsk = \nct = \nss = \n\n", t, up(&s)).unwrap();
        let mut r = Drbg::seeded(&s);
        let fg = r.bytes(p.fg_bytes());
        let prf: [u8; 32] = r.bytes(32).try_into().unwrap();
        let k = p.keypair(&fg, &prf).expect("kat: key");
        let (ct, ss) = p.encaps(&k.pk, &r.bytes(p.rm_bytes()));
        assert_eq!(p.decaps(&k.sk, &ct).key, ss, "kat: model");
        write!(rsp, "count = {}\nseed = {}\npk = {}\nsk = {}\nct = {}\nss = {}\n\n", t, up(&s), up(&k.pk), up(&k.sk), up(&ct), up(&ss)).unwrap();
    }
    std::fs::write(&a[2], req).expect("kat: write");
    std::fs::write(&a[3], rsp).expect("kat: write");
}
