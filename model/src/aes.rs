//! AES-256 encryption of one block (FIPS 197), table generated from the field.

fn xtime(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}

fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}

fn make_sbox() -> [u8; 256] {
    let mut s = [0u8; 256];
    for x in 0..256usize {
        let mut inv = 0u8;
        if x != 0 {
            for y in 1..256usize {
                if gmul(x as u8, y as u8) == 1 {
                    inv = y as u8;
                    break;
                }
            }
        }
        s[x] = inv
            ^ inv.rotate_left(1)
            ^ inv.rotate_left(2)
            ^ inv.rotate_left(3)
            ^ inv.rotate_left(4)
            ^ 0x63;
    }
    s
}

pub fn sbox() -> &'static [u8; 256] {
    static S: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    S.get_or_init(make_sbox)
}

pub struct Aes256 {
    rk: [[u8; 16]; 15],
}

impl Aes256 {
    pub fn new(key: &[u8; 32]) -> Aes256 {
        let sb = sbox();
        let mut w = [[0u8; 4]; 60];
        for i in 0..8 {
            w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
        }
        let mut rcon = 1u8;
        for i in 8..60 {
            let mut t = w[i - 1];
            if i % 8 == 0 {
                t.rotate_left(1);
                for b in t.iter_mut() {
                    *b = sb[*b as usize];
                }
                t[0] ^= rcon;
                rcon = xtime(rcon);
            } else if i % 8 == 4 {
                for b in t.iter_mut() {
                    *b = sb[*b as usize];
                }
            }
            for j in 0..4 {
                w[i][j] = w[i - 8][j] ^ t[j];
            }
        }
        let mut rk = [[0u8; 16]; 15];
        for r in 0..15 {
            for c in 0..4 {
                rk[r][4 * c..4 * c + 4].copy_from_slice(&w[4 * r + c]);
            }
        }
        Aes256 { rk }
    }

    pub fn encrypt(&self, block: &[u8; 16]) -> [u8; 16] {
        let sb = sbox();
        let mut s = *block;
        for i in 0..16 {
            s[i] ^= self.rk[0][i];
        }
        for r in 1..15 {
            for b in s.iter_mut() {
                *b = sb[*b as usize];
            }
            let o = s;
            for c in 0..4 {
                for row in 0..4 {
                    s[4 * c + row] = o[4 * ((c + row) % 4) + row];
                }
            }
            if r != 14 {
                for c in 0..4 {
                    let a = [s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]];
                    let x = [xtime(a[0]), xtime(a[1]), xtime(a[2]), xtime(a[3])];
                    s[4 * c] = x[0] ^ x[1] ^ a[1] ^ a[2] ^ a[3];
                    s[4 * c + 1] = a[0] ^ x[1] ^ x[2] ^ a[2] ^ a[3];
                    s[4 * c + 2] = a[0] ^ a[1] ^ x[2] ^ x[3] ^ a[3];
                    s[4 * c + 3] = x[0] ^ a[0] ^ a[1] ^ a[2] ^ x[3];
                }
            }
            for i in 0..16 {
                s[i] ^= self.rk[r][i];
            }
        }
        s
    }
}
