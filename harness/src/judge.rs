//! Oracles used by more than one monitor.

use crate::{diff, report};
use ntrust_native::AesState;
use refntru::drbg::Drbg;
use refntru::Params;

pub fn is_zero(a: &[u32]) -> bool {
    a.iter().all(|c| *c == 0)
}

pub fn is_one(a: &[u32]) -> bool {
    a[0] == 1 && a[1..].iter().all(|c| *c == 0)
}

/// The key pair bytes the specification prescribes are the unique solution of
/// the relations below, so checking the relations decides byte equality.
pub fn keys_wrong(p: &Params, seed: &[u8], prf: &[u8], pk: &[u8], sk: &[u8]) -> Option<String> {
    let (f, g) = p.sample_fg(seed);
    let s3 = p.s3_bytes();
    let sq = p.sq_bytes();
    if pk.len() != p.pk_bytes() || sk.len() != p.sk_bytes() {
        return Some("wrong key length".into());
    }
    if sk[..s3] != p.pack_s3(&f)[..] {
        return Some(format!("secret polynomial: {}", diff(&sk[..s3], &p.pack_s3(&f))));
    }
    let f3 = p.unpack_s3(&sk[s3..2 * s3]);
    if p.pack_s3(&f3)[..] != sk[s3..2 * s3] {
        return Some("inverse mod 3 is not canonically encoded".into());
    }
    if !is_one(&p.mul_s3(&f, &f3)) {
        return Some("stored inverse mod 3 is not the inverse".into());
    }
    if !p.pad_ok(pk) {
        return Some("unused bits of the public key are set".into());
    }
    let h = p.unpack_rq0(pk);
    if p.red_sq(&p.mul_q(&h, &p.z3_to_zq(&f))) != p.red_sq(&p.big_g(&g)) {
        return Some("public polynomial is not the specified quotient".into());
    }
    let hb = &sk[2 * s3..2 * s3 + sq];
    let hinv = p.unpack_sq(hb);
    if !p.pad_ok(hb) || p.pack_sq(&hinv)[..] != *hb {
        return Some("inverse of the public polynomial is not canonically encoded".into());
    }
    if !is_one(&p.mul_sq(&h, &hinv)) {
        return Some("stored inverse of the public polynomial is not the inverse".into());
    }
    if sk[2 * s3 + sq..] != *prf {
        return Some(format!("rejection key: {}", diff(&sk[2 * s3 + sq..], prf)));
    }
    None
}

/// g recovered from h*f = 3g (HPS) or 3(x-1)g (HRSS), with its admissibility.
pub fn short_poly(p: &Params, h: &[u32], f: &[u32]) -> Result<Vec<u32>, String> {
    let q = p.q();
    let n = p.n;
    // 1/3 modulo 2^k
    let third = (1..q).step_by(2).find(|t| t * 3 % q == 1).unwrap();
    let prod = p.mul_q(h, &p.z3_to_zq(f));
    let t: Vec<i32> = prod.iter().map(|c| p.center(c * third % q)).collect();
    let g: Vec<i32> = if p.is_hps() {
        t
    } else {
        let mut g = vec![0i32; n];
        g[0] = -t[0];
        for i in 1..n {
            g[i] = g[i - 1] - t[i];
        }
        g
    };
    if g.iter().any(|c| c.abs() > 1) || g[n - 1] != 0 {
        return Err("h*f is not three times a ternary polynomial of the right shape".into());
    }
    let g: Vec<u32> = g.iter().map(|c| c.rem_euclid(3) as u32).collect();
    if p.is_hps() {
        if !p.m_in_space(&g) {
            return Err("generator polynomial does not have the prescribed weights".into());
        }
    } else if p.correlation(&g) < 0 {
        return Err("generator polynomial has negative self-correlation".into());
    }
    Ok(g)
}

pub fn same_state(a: &AesState, m: &Drbg) -> Option<String> {
    if a.key != m.key {
        return Some(format!("key: {}", diff(&a.key, &m.key)));
    }
    if a.v != m.v {
        return Some(format!("counter: {}", diff(&a.v, &m.v)));
    }
    if a.reseed_counter != m.requests {
        return Some(format!("request count {} instead of {}", a.reseed_counter, m.requests));
    }
    None
}

/// Relations between the fields of a key pair, from its bytes alone.
pub fn relations_wrong(p: &Params, pk: &[u8], sk: &[u8]) -> Vec<String> {
    let s = p.open_sk(sk);
    let h = p.unpack_rq0(pk);
    let mut wrong = vec![];
    if is_zero(&s.f) {
        wrong.push("secret polynomial is zero".to_string());
    }
    if !is_one(&p.mul_s3(&s.f, &s.f3)) {
        wrong.push("f * f^-1 is not 1 modulo 3".to_string());
    }
    if !is_one(&p.mul_sq(&h, &s.hinv)) {
        wrong.push("h * h^-1 is not 1 modulo q".to_string());
    }
    if p.eval1(&h) != 0 {
        wrong.push("h(1) is not 0".to_string());
    }
    if let Err(e) = short_poly(p, &h, &s.f) {
        wrong.push(e);
    }
    if !p.is_hps() && p.correlation(&s.f) < 0 {
        wrong.push("secret polynomial has negative self-correlation".to_string());
    }
    wrong
}

/// Packed coefficients modulo q: what is not canonical about them?
pub fn q_field(p: &Params, b: &[u8], name: &str) -> Option<String> {
    if !p.pad_ok(b) {
        return Some(format!("{}: unused bits are set (last byte {:02x})", name, b[b.len() - 1]));
    }
    if p.pack_sq(&p.unpack_sq(b))[..] != *b {
        return Some(format!("{}: not reproduced by decoding and encoding", name));
    }
    None
}

/// The same for packed ternary digits.
pub fn t_field(p: &Params, b: &[u8], name: &str) -> Option<String> {
    let tail = (p.n - 1) % 5;
    for (i, x) in b.iter().enumerate() {
        let max = if i + 1 == b.len() && tail != 0 { 3u32.pow(tail as u32) } else { 243 };
        if *x as u32 >= max {
            return Some(format!("{}: byte {} is {} and encodes a digit out of range", name, i, x));
        }
    }
    if p.pack_s3(&p.unpack_s3(b))[..] != *b {
        return Some(format!("{}: not reproduced by decoding and encoding", name));
    }
    None
}

pub fn keys_uncanonical(p: &Params, pk: &[u8], sk: &[u8]) -> Option<String> {
    let s3 = p.s3_bytes();
    let sq = p.sq_bytes();
    q_field(p, pk, "public key")
        .or_else(|| t_field(p, &sk[..s3], "secret polynomial"))
        .or_else(|| t_field(p, &sk[s3..2 * s3], "inverse of the secret polynomial"))
        .or_else(|| q_field(p, &sk[2 * s3..2 * s3 + sq], "inverse of the public polynomial"))
}

/// Bounded progress: one library call that burns more than STALL seconds of CPU
/// time (normally under 0.1 s) is reported as a hang. CPU time, not wall time,
/// so that a loaded machine cannot trigger it.
const STALL_TICKS: u64 = 12000; // 120 s at 100 ticks per second

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() < 14 {
        return 0;
    }
    f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)
}

pub fn watchdog(out: &str) {
    if cfg!(miri) || out.is_empty() {
        return;
    }
    let out = out.to_string();
    std::thread::spawn(move || {
        let mut last = (report::calls(), cpu_ticks());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = report::calls();
            if c != last.0 || !report::in_call() {
                last = (c, cpu_ticks());
            } else if cpu_ticks().saturating_sub(last.1) > STALL_TICKS {
                let _ = std::fs::write(format!("{}.hang", out), "one call used more than 120 s of CPU time\n");
                std::process::exit(70);
            }
        }
    });
}
