//! Hostile input generators. Every generator takes a case number and walks
//! through kinds and positions systematically, using the PRNG for the rest.

use crate::prng::Prng;
use refntru::Params;

pub const EDGE: [u8; 24] = [
    0, 1, 2, 3, 4, 5, 6, 63, 64, 84, 85, 86, 127, 128, 129, 170, 171, 191, 192, 242, 243, 252, 254, 255,
];

pub fn centred(c: u32) -> i32 {
    if c == 2 {
        -1
    } else {
        c as i32
    }
}

/// A byte whose residue modulo 3 is t.
pub fn byte_of(rng: &mut Prng, t: u32) -> u8 {
    let max = (255 - t) / 3;
    match rng.below(4) {
        0 => t as u8,
        1 => (t + 3 * max) as u8,
        _ => (t + 3 * rng.below(max as usize + 1) as u32) as u8,
    }
}

pub fn bytes_of(rng: &mut Prng, trits: &[u32]) -> Vec<u8> {
    trits.iter().map(|t| byte_of(rng, *t)).collect()
}

/// Ternary vectors with structure. Returns (trits, label).
pub fn trits(rng: &mut Prng, len: usize, sel: u64) -> (Vec<u32>, &'static str) {
    let kinds = 14;
    let sub = (sel / kinds) as usize;
    match sel % kinds {
        0 => ((0..len).map(|_| rng.below(3) as u32).collect(), "uniform"),
        1 => {
            // one non-zero coefficient, every position in turn
            let mut v = vec![0; len];
            v[sub % len] = 1 + rng.below(2) as u32;
            (v, "monomial")
        }
        2 => {
            let mut v = vec![0; len];
            for _ in 0..1 + rng.below(6) {
                v[rng.below(len)] = 1 + rng.below(2) as u32;
            }
            (v, "sparse")
        }
        3 => ((0..len).map(|_| 1 + rng.below(2) as u32).collect(), "dense"),
        4 => {
            // constant but for a few positions
            let c = (sub % 3) as u32;
            let mut v = vec![c; len];
            for _ in 0..1 + rng.below(4) {
                v[rng.below(len)] = rng.below(3) as u32;
            }
            (v, "nearly-constant")
        }
        5 => {
            let per = 2 + sub % 7;
            let pat: Vec<u32> = (0..per).map(|_| rng.below(3) as u32).collect();
            ((0..len).map(|i| pat[i % per]).collect(), "periodic")
        }
        6 => {
            let mut v = Vec::with_capacity(len);
            while v.len() < len {
                let c = rng.below(3) as u32;
                for _ in 0..1 + rng.below(64) {
                    v.push(c);
                }
            }
            v.truncate(len);
            (v, "runs")
        }
        7 => {
            // leading zeros of every length
            let z = sub % len;
            ((0..len).map(|i| if i < z { 0 } else { rng.below(3) as u32 }).collect(), "zero-prefix")
        }
        8 => {
            let z = sub % len;
            ((0..len).map(|i| if i + z >= len { 0 } else { rng.below(3) as u32 }).collect(), "zero-suffix")
        }
        9 => {
            // mostly zero with random density
            let d = 2 + rng.below(40);
            ((0..len).map(|_| if rng.chance(d) { 1 + rng.below(2) as u32 } else { 0 }).collect(), "low-density")
        }
        10 => {
            // values from two symbols only
            let a = rng.below(3) as u32;
            let b = rng.below(3) as u32;
            ((0..len).map(|_| if rng.chance(2) { a } else { b }).collect(), "two-symbols")
        }
        11 => {
            // alternating signs: extreme negative self-correlation
            let flips = rng.below(4);
            let mut v: Vec<u32> = (0..len).map(|i| 1 + ((i + sub) % 2) as u32).collect();
            for _ in 0..flips {
                v[rng.below(len)] = rng.below(3) as u32;
            }
            (v, "alternating")
        }
        12 => {
            // self-correlation steered to a small target
            let target = (sub as i64 % 9) as i32 - 4;
            (correlated(rng, len, target), "correlation-near-zero")
        }
        _ => {
            // symmetric or antisymmetric
            let mut v: Vec<u32> = (0..len).map(|_| rng.below(3) as u32).collect();
            for i in 0..len / 2 {
                v[len - 1 - i] = if sub % 2 == 0 { v[i] } else { (3 - v[i]) % 3 };
            }
            (v, "symmetric")
        }
    }
}

/// A random ternary vector with sum v[i]v[i+1] = target.
pub fn correlated(rng: &mut Prng, len: usize, target: i32) -> Vec<u32> {
    let mut v: Vec<u32> = (0..len).map(|_| rng.below(3) as u32).collect();
    let corr = |v: &[u32]| -> i32 { v.windows(2).map(|w| centred(w[0]) * centred(w[1])).sum() };
    let mut s = corr(&v);
    for _ in 0..100000 {
        if s == target {
            break;
        }
        let i = rng.below(len);
        let old = v[i];
        let new = rng.below(3) as u32;
        let nb = (if i > 0 { centred(v[i - 1]) } else { 0 }) + (if i + 1 < len { centred(v[i + 1]) } else { 0 });
        let ns = s + (centred(new) - centred(old)) * nb;
        if (ns - target).abs() <= (s - target).abs() {
            v[i] = new;
            s = ns;
        }
    }
    v
}

/// Random bytes for a uniform ternary polynomial.
pub fn iid_bytes(rng: &mut Prng, len: usize, sel: u64) -> (Vec<u8>, &'static str) {
    match sel % 5 {
        0 => (rng.bytes(len), "raw-uniform"),
        1 => {
            let sub = sel / 5;
            match sub % 3 {
                // every byte value as a constant string
                0 => (vec![(sub / 3) as u8; len], "raw-constant"),
                1 => ((0..len).map(|_| *rng.pick(&EDGE)).collect(), "raw-edge-bytes"),
                _ => ((0..len).map(|i| (i as u64 + sub / 3) as u8).collect(), "raw-counting"),
            }
        }
        _ => {
            let s = 3 * (sel / 5) + sel % 5 - 2;
            let (t, l) = trits(rng, len, s);
            (bytes_of(rng, &t), l)
        }
    }
}

pub fn pack30(keys: &[u32], out_len: usize) -> Vec<u8> {
    let mut out = vec![0u8; out_len];
    for (i, k) in keys.iter().enumerate() {
        for b in 0..30 {
            if (k >> b) & 1 == 1 {
                let pos = 30 * i + b;
                out[pos / 8] |= 1 << (pos % 8);
            }
        }
    }
    out
}

/// Random bytes for a fixed-weight polynomial: 30-bit sort keys.
pub fn ft_bytes(rng: &mut Prng, p: &Params, sel: u64) -> (Vec<u8>, &'static str) {
    let n1 = p.n - 1;
    let kinds = 14;
    let sub = (sel / kinds) as usize;
    const M: u32 = (1 << 30) - 1;
    // sort order is signed: keys with bit 29 set come first
    let (keys, label): (Vec<u32>, &'static str) = match sel % kinds {
        0 | 1 => return (rng.bytes(p.ft_bytes()), "keys-uniform"),
        2 => (vec![*rng.pick(&[0, M, 1 << 29, (1 << 29) - 1, 1, 2, 3]); n1], "keys-all-equal"),
        3 => {
            let k = 2 + rng.below(6);
            let vals: Vec<u32> = (0..k).map(|_| rng.u32() & M).collect();
            ((0..n1).map(|_| *rng.pick(&vals)).collect(), "keys-few-values")
        }
        4 => {
            let mut v: Vec<i32> = (0..n1).map(|_| (rng.u32() & M) as i32).collect();
            v.sort();
            (v.iter().map(|x| (*x as u32 ^ (1 << 29)) & M).collect(), "keys-ascending")
        }
        5 => {
            let mut v: Vec<i32> = (0..n1).map(|_| (rng.u32() & M) as i32).collect();
            v.sort();
            v.reverse();
            (v.iter().map(|x| (*x as u32 ^ (1 << 29)) & M).collect(), "keys-descending")
        }
        6 => {
            let e = [0, 1, M, M - 1, 1 << 29, (1 << 29) - 1, (1 << 29) + 1];
            ((0..n1).map(|_| *rng.pick(&e)).collect(), "keys-extreme")
        }
        7 => {
            let lo = rng.below(29) as u32;
            ((0..n1).map(|_| (rng.u32() & 3) << lo).collect(), "keys-two-bits")
        }
        8 => {
            // ascending but for one element moved away, every position in turn
            let mut v: Vec<u32> = (0..n1 as u32).map(|i| ((i << 20) ^ (1 << 29)) & M).collect();
            let a = sub % n1;
            let b = rng.below(n1);
            v.swap(a, b);
            (v, "keys-one-swap")
        }
        9 => {
            // low entropy around one value: many ties between tag classes
            let base = rng.u32() & M;
            ((0..n1).map(|_| base.wrapping_add(rng.below(4) as u32) & M).collect(), "keys-clustered")
        }
        10 => {
            let t = arrangement(rng, p, sub);
            return (ft_for(rng, p, &t), "keys-for-arrangement");
        }
        11 => {
            let t = random_fixed(rng, p);
            return (ft_for(rng, p, &t), "keys-for-random-arrangement");
        }
        12 => {
            let per = 2 + rng.below(30);
            let vals: Vec<u32> = (0..per).map(|_| rng.u32() & M).collect();
            ((0..n1).map(|i| vals[i % per]).collect(), "keys-periodic")
        }
        _ => return ((0..p.ft_bytes()).map(|_| *rng.pick(&EDGE)).collect(), "keys-edge-bytes"),
    };
    let mut out = pack30(&keys, p.ft_bytes());
    // bits beyond the last key are ignored by the specification
    let used = 30 * n1;
    for pos in used..8 * out.len() {
        if rng.chance(2) {
            out[pos / 8] |= 1 << (pos % 8);
        }
    }
    (out, label)
}

/// A random fixed-weight ternary vector of n-1 coefficients.
pub fn random_fixed(rng: &mut Prng, p: &Params) -> Vec<u32> {
    let w = p.weight();
    let mut t = vec![0u32; p.n - 1];
    for (i, x) in t.iter_mut().enumerate().take(w) {
        *x = if i < w / 2 { 1 } else { 2 };
    }
    rng.shuffle(&mut t);
    t
}

/// Structured fixed-weight vectors.
pub fn arrangement(rng: &mut Prng, p: &Params, sub: usize) -> Vec<u32> {
    let w = p.weight();
    let n1 = p.n - 1;
    let z = n1 - w;
    let mut blocks: Vec<(u32, usize)> = vec![(1, w / 2), (2, w / 2), (0, z)];
    match sub % 5 {
        0 => rng.shuffle(&mut blocks),
        1 => {
            // alternating signs in one block
            let at = rng.below(z + 1);
            let mut t = vec![0; n1];
            for i in 0..w {
                t[at + i] = 1 + (i % 2) as u32;
            }
            return t;
        }
        2 => {
            // zeros spread out, signs in halves
            let mut t = vec![0; n1];
            let mut k = 0;
            for i in 0..n1 {
                if (i + 1) * w / n1 > i * w / n1 {
                    t[i] = if k < w / 2 { 1 } else { 2 };
                    k += 1;
                }
            }
            return t;
        }
        3 => {
            // a cyclic shift of a block arrangement
            let mut t = vec![];
            rng.shuffle(&mut blocks);
            for (v, k) in &blocks {
                t.extend(std::iter::repeat(*v).take(*k));
            }
            let s = rng.below(n1);
            t.rotate_left(s);
            return t;
        }
        _ => {
            // antisymmetric: 1 and 2 mirrored, so most low-degree sums cancel
            let mut t = vec![0; n1];
            let mut pos: Vec<usize> = (0..n1 / 2).collect();
            rng.shuffle(&mut pos);
            for q in pos.iter().take(w / 2) {
                t[*q] = 1;
                t[n1 - 1 - *q] = 2;
            }
            return t;
        }
    }
    let mut t = vec![];
    for (v, k) in &blocks {
        t.extend(std::iter::repeat(*v).take(*k));
    }
    t
}

/// Sort-key bytes that make the fixed-weight sampler produce exactly `target`.
pub fn ft_for(rng: &mut Prng, p: &Params, target: &[u32]) -> Vec<u8> {
    let n1 = p.n - 1;
    let w = p.weight();
    let mut sorted: Vec<i64> = Vec::new();
    while sorted.len() < n1 {
        while sorted.len() < n1 {
            sorted.push(rng.range(-(1 << 29), (1 << 29) - 1));
        }
        sorted.sort();
        sorted.dedup();
    }
    let mut slots: [Vec<usize>; 3] = [(w..n1).collect(), (0..w / 2).collect(), (w / 2..w).collect()];
    for s in slots.iter_mut() {
        rng.shuffle(s);
    }
    let mut keys = vec![0u32; n1];
    for j in 0..n1 {
        let i = slots[target[j] as usize].pop().expect("monitor: arrangement weights");
        keys[i] = (sorted[j] as u32) & ((1 << 30) - 1);
    }
    pack30(&keys, p.ft_bytes())
}

/// Randomness of key generation.
pub fn fg_seed(rng: &mut Prng, p: &Params, sel: u64) -> (Vec<u8>, String) {
    // the two halves walk through their kinds at different speeds
    let (mut a, la) = iid_bytes(rng, p.iid_bytes(), sel);
    if p.is_hps() {
        let s = rng.below(14) as u64 + 14 * (sel / 14);
        let (b, lb) = ft_bytes(rng, p, s);
        a.extend(b);
        (a, format!("{}/{}", la, lb))
    } else {
        let s = rng.below(5) as u64 + 5 * rng.below(14 * 700) as u64;
        let (b, lb) = iid_bytes(rng, p.iid_bytes(), s);
        let swap = sel % 2 == 1;
        if swap {
            let mut b2 = b;
            b2.extend(a);
            (b2, format!("{}/{}", lb, la))
        } else {
            a.extend(b);
            (a, format!("{}/{}", la, lb))
        }
    }
}

/// Randomness of encapsulation.
pub fn rm_seed(rng: &mut Prng, p: &Params, sel: u64) -> (Vec<u8>, String) {
    fg_seed(rng, p, sel)
}

pub fn prf(rng: &mut Prng) -> Vec<u8> {
    match rng.below(6) {
        0 => vec![0; 32],
        1 => vec![0xff; 32],
        2 => {
            let mut v = vec![0; 32];
            v[rng.below(32)] = 1 << rng.below(8);
            v
        }
        _ => rng.bytes(32),
    }
}

/// A random source state often equal to an unstructured one.
pub fn plain_fg(rng: &mut Prng, p: &Params) -> Vec<u8> {
    rng.bytes(p.fg_bytes())
}

/// Byte strings of public key length that need not be honest keys.
pub fn odd_pk(rng: &mut Prng, p: &Params, sel: u64) -> (Vec<u8>, &'static str) {
    let len = p.pk_bytes();
    let q = p.q();
    let sub = (sel / 9) as usize;
    match sel % 9 {
        0 => (rng.bytes(len), "pk-random-bytes"),
        1 => (vec![*rng.pick(&[0u8, 0xff, 0x55, 0xaa, 0x01, 0x80]); len], "pk-constant"),
        2 => {
            // one coefficient, every position in turn
            let mut a = vec![0u32; p.n];
            a[sub % (p.n - 1)] = *rng.pick(&[1, q - 1, q / 2, q / 2 - 1, q / 2 + 1, 2, q - 2]);
            (p.pack_sq(&a), "pk-monomial")
        }
        3 => {
            let e = [0, 1, q - 1, q / 2, q / 2 - 1, q / 2 + 1];
            let a: Vec<u32> = (0..p.n).map(|_| *rng.pick(&e)).collect();
            (p.pack_sq(&a), "pk-extreme-coefficients")
        }
        4 => {
            let mut v = vec![0u8; len];
            v[sub % len] = rng.u8() | 1;
            (v, "pk-one-byte")
        }
        5 => {
            let mut v = rng.bytes(len);
            v[len - 1] |= 0xf0;
            (v, "pk-padding-set")
        }
        6 => ((0..len).map(|_| *rng.pick(&EDGE)).collect(), "pk-edge-bytes"),
        7 => {
            let a: Vec<u32> = (0..p.n).map(|_| q - 1 - rng.below(2) as u32).collect();
            (p.pack_sq(&a), "pk-all-large")
        }
        _ => {
            let mut v = vec![0xffu8; len];
            v[sub % len] = rng.u8() & 0xfe;
            (v, "pk-ones-but-one-byte")
        }
    }
}
