//! Prints what the selected variant exposes, and a transcript of its use.
use ntrust_native::*;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    println!("name {}", CRYPTO_ALGNAME);
    println!("pk {}", CRYPTO_PUBLICKEYBYTES);
    println!("sk {}", CRYPTO_SECRETKEYBYTES);
    println!("ct {}", CRYPTO_CIPHERTEXTBYTES);
    println!("ss {}", CRYPTO_BYTES);
    let seeds: u8 = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    for i in 0..8u8 {
        let mut s = AesState::new();
        let mut e = [seeds; 48];
        e[0] = i;
        s.randombytes_init(e);
        let mut pk = [0u8; CRYPTO_PUBLICKEYBYTES];
        let mut sk = [0u8; CRYPTO_SECRETKEYBYTES];
        let mut ct = [0u8; CRYPTO_CIPHERTEXTBYTES];
        let mut k1 = [0u8; CRYPTO_BYTES];
        let mut k2 = [0u8; CRYPTO_BYTES];
        crypto_kem_keypair(&mut pk, &mut sk, &mut s).expect("key generation");
        crypto_kem_enc(&mut ct, &mut k1, &pk, &mut s).expect("encapsulation");
        crypto_kem_dec(&mut k2, &ct, &sk).expect("decapsulation");
        println!("run {} {} {} {} {}", hex(&pk), hex(&sk), hex(&ct), hex(&k1), hex(&k2));
    }
}
