//! SHA3-256 (FIPS 202), straight from the standard.

fn rol(x: u64, n: u32) -> u64 {
    x.rotate_left(n)
}

fn round_constants() -> [u64; 24] {
    // rc(t) LFSR of FIPS 202, algorithm 5
    let mut rcs = [0u64; 24];
    let mut r: u8 = 1;
    for rc in rcs.iter_mut() {
        for j in 0..7u32 {
            let bit = r & 1;
            if bit == 1 {
                *rc |= 1u64 << ((1u32 << j) - 1);
            }
            let carry = r >> 7;
            r <<= 1;
            if carry == 1 {
                r ^= 0x71;
            }
        }
    }
    rcs
}

fn keccak_f(a: &mut [[u64; 5]; 5], rcs: &[u64; 24]) {
    // a[x][y]
    for rc in rcs.iter() {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        // rho and pi
        let mut b = [[0u64; 5]; 5];
        b[0][0] = a[0][0];
        let (mut x, mut y) = (1usize, 0usize);
        let mut rot = [[0u32; 5]; 5];
        for t in 0..24u32 {
            rot[x][y] = ((t + 1) * (t + 2) / 2) % 64;
            let ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
        }
        for x in 0..5 {
            for y in 0..5 {
                b[y][(2 * x + 3 * y) % 5] = rol(a[x][y], rot[x][y]);
            }
        }
        for x in 0..5 {
            for y in 0..5 {
                a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
            }
        }
        a[0][0] ^= rc;
    }
}

pub fn sha3_256(input: &[u8]) -> [u8; 32] {
    const RATE: usize = 136;
    let rcs = round_constants();
    let mut padded = input.to_vec();
    padded.push(0x06);
    while padded.len() % RATE != 0 {
        padded.push(0);
    }
    let last = padded.len() - 1;
    padded[last] |= 0x80;
    let mut a = [[0u64; 5]; 5];
    for block in padded.chunks(RATE) {
        for (i, lane) in block.chunks(8).enumerate() {
            let mut v = [0u8; 8];
            v.copy_from_slice(lane);
            a[i % 5][i / 5] ^= u64::from_le_bytes(v);
        }
        keccak_f(&mut a, &rcs);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&a[i % 5][i / 5].to_le_bytes());
    }
    out
}
