use refntru::*;
fn main() {
    for p in Params::all() {
        let t = std::time::Instant::now();
        let r = selftest::all(&p);
        println!("{} {:?} {:?}", p.name, r, t.elapsed());
        let seed: Vec<u8> = (0..p.fg_bytes()).map(|i| (i * i * 7 + i / 3) as u8).collect();
        let t = std::time::Instant::now();
        let k = p.keypair(&seed, &[7; 32]).unwrap();
        println!("  keypair {:?}", t.elapsed());
        let t = std::time::Instant::now();
        let (c, s) = p.encaps(&k.pk, &seed);
        println!("  encaps {:?}", t.elapsed());
        let t = std::time::Instant::now();
        let d = p.decaps(&k.sk, &c);
        println!("  decaps {:?} {} {}", t.elapsed(), d.accepted, d.key == s);
    }
}
