//! Inverses modulo (2, Phi_n) and (3, Phi_n) by the extended Euclidean
//! algorithm; Phi_n = 1 + x + ... + x^(n-1).

/// Inverse of `a` (coefficients taken mod 2, any length <= n) modulo
/// (2, Phi_n), as n-1 coefficients. None when not invertible.
pub fn inv2(a: &[u32], n: usize) -> Option<Vec<u32>> {
    let w = n / 64 + 2;
    let get = |p: &Vec<u64>, i: usize| (p[i / 64] >> (i % 64)) & 1;
    let deg = |p: &Vec<u64>| -> isize {
        for i in (0..p.len()).rev() {
            if p[i] != 0 {
                return (64 * i + 63 - p[i].leading_zeros() as usize) as isize;
            }
        }
        -1
    };
    fn xor_shift(dst: &mut [u64], src: &[u64], s: usize) {
        let (ws, bs) = (s / 64, s % 64);
        for i in (ws..dst.len()).rev() {
            let mut v = src[i - ws] << bs;
            if bs != 0 && i > ws {
                v |= src[i - ws - 1] >> (64 - bs);
            }
            dst[i] ^= v;
        }
    }
    let mut r0 = vec![0u64; w];
    for i in 0..n {
        r0[i / 64] |= 1 << (i % 64);
    }
    // reduce a mod Phi_n: x^(n-1) = 1 + ... + x^(n-2)
    let mut r1 = vec![0u64; w];
    let top = if a.len() == n { a[n - 1] & 1 } else { 0 };
    for i in 0..n - 1 {
        let c = (a.get(i).copied().unwrap_or(0) & 1) ^ top;
        r1[i / 64] |= (c as u64) << (i % 64);
    }
    let mut t0 = vec![0u64; w];
    let mut t1 = vec![0u64; w];
    t1[0] = 1;
    let (mut d0, mut d1) = (deg(&r0), deg(&r1));
    while d1 > 0 {
        // r0 -= x^(d0-d1) r1 until deg r0 < deg r1, then swap
        while d0 >= d1 {
            let s = (d0 - d1) as usize;
            let (rc, tc) = (r1.clone(), t1.clone());
            xor_shift(&mut r0, &rc, s);
            xor_shift(&mut t0, &tc, s);
            d0 = deg(&r0);
        }
        std::mem::swap(&mut r0, &mut r1);
        std::mem::swap(&mut t0, &mut t1);
        std::mem::swap(&mut d0, &mut d1);
    }
    if d1 < 0 {
        return None;
    }
    let tt = get(&t1, n - 1) as u32;
    Some((0..n - 1).map(|i| get(&t1, i) as u32 ^ tt).collect())
}

/// Inverse of `a` (coefficients 0..2) modulo (3, Phi_n).
pub fn inv3(a: &[u32], n: usize) -> Option<Vec<u32>> {
    let deg = |p: &Vec<u8>| -> isize {
        for i in (0..p.len()).rev() {
            if p[i] != 0 {
                return i as isize;
            }
        }
        -1
    };
    let mut r0 = vec![1u8; n];
    let top = if a.len() == n { a[n - 1] % 3 } else { 0 };
    let mut r1: Vec<u8> = (0..n)
        .map(|i| {
            if i == n - 1 {
                0
            } else {
                ((a.get(i).copied().unwrap_or(0) % 3 + 3 - top) % 3) as u8
            }
        })
        .collect();
    let mut t0 = vec![0u8; n + 1];
    let mut t1 = vec![0u8; n + 1];
    t1[0] = 1;
    let (mut d0, mut d1) = (deg(&r0), deg(&r1));
    while d1 > 0 {
        while d0 >= d1 {
            let s = (d0 - d1) as usize;
            // k = lead(r0) / lead(r1); 1/x = x mod 3
            let k = (r0[d0 as usize] * r1[d1 as usize]) % 3;
            let neg = 3 - k;
            for i in 0..=(d1 as usize) {
                r0[i + s] = (r0[i + s] + neg * r1[i]) % 3;
            }
            for i in 0..=(n - s) {
                t0[i + s] = (t0[i + s] + neg * t1[i]) % 3;
            }
            d0 = deg(&r0);
        }
        std::mem::swap(&mut r0, &mut r1);
        std::mem::swap(&mut t0, &mut t1);
        std::mem::swap(&mut d0, &mut d1);
    }
    if d1 < 0 {
        return None;
    }
    let c = r1[0]; // unit; its own inverse
    let tt = t1[n - 1];
    Some((0..n - 1).map(|i| (((t1[i] + 3 - tt) * c) % 3) as u32).collect())
}
