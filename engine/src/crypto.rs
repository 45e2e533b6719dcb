//! Concrete SHA-256 compression and AES-256, written from the standards.

pub const SHA_IV: [u32; 8] = [
    0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
];
const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98,
    0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786,
    0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8,
    0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13,
    0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819,
    0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a,
    0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7,
    0xc67178f2,
];

pub fn sha256_compress(h: &mut [u32; 8], b: &[u32; 16]) {
    let mut w = [0u32; 64];
    w[..16].copy_from_slice(b);
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(mj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}

pub fn sha256(d: &[u8]) -> [u8; 32] {
    let mut m = d.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&(d.len() as u64 * 8).to_be_bytes());
    let mut h = SHA_IV;
    for c in m.chunks(64) {
        let mut b = [0u32; 16];
        for i in 0..16 {
            b[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        sha256_compress(&mut h, &b);
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

fn xtime(x: u8) -> u8 {
    (x << 1) ^ (if x & 0x80 != 0 { 0x1b } else { 0 })
}
fn gmul(a: u8, b: u8) -> u8 {
    let (mut a, mut b, mut r) = (a, b, 0);
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}

struct Tab {
    s: [u8; 256],
    inv: [u8; 256],
    m: [[u8; 256]; 4], // multiply by 9, 11, 13, 14
}

fn tables() -> &'static Tab {
    use std::sync::OnceLock;
    static T: OnceLock<Tab> = OnceLock::new();
    T.get_or_init(|| {
        let mut s = [0u8; 256];
        let mut inv = [0u8; 256];
        for i in 0..256usize {
            let mut q = 0u8;
            if i != 0 {
                for j in 1..=255u8 {
                    if gmul(i as u8, j) == 1 {
                        q = j;
                        break;
                    }
                }
            }
            let x = q ^ q.rotate_left(1) ^ q.rotate_left(2) ^ q.rotate_left(3) ^ q.rotate_left(4) ^ 0x63;
            s[i] = x;
            inv[x as usize] = i as u8;
        }
        let mut m = [[0u8; 256]; 4];
        for (k, f) in [9u8, 11, 13, 14].iter().enumerate() {
            for i in 0..256 {
                m[k][i] = gmul(i as u8, *f);
            }
        }
        Tab { s, inv, m }
    })
}

fn expand(key: &[u8]) -> [[u8; 16]; 15] {
    let t = tables();
    let mut w = [[0u8; 4]; 60];
    for i in 0..8 {
        w[i].copy_from_slice(&key[i * 4..i * 4 + 4]);
    }
    let mut rc = 1u8;
    for i in 8..60 {
        let mut x = w[i - 1];
        if i % 8 == 0 {
            x = [t.s[x[1] as usize] ^ rc, t.s[x[2] as usize], t.s[x[3] as usize], t.s[x[0] as usize]];
            rc = xtime(rc);
        } else if i % 8 == 4 {
            for b in x.iter_mut() {
                *b = t.s[*b as usize];
            }
        }
        for j in 0..4 {
            w[i][j] = w[i - 8][j] ^ x[j];
        }
    }
    let mut rk = [[0u8; 16]; 15];
    for r in 0..15 {
        for c in 0..4 {
            rk[r][c * 4..c * 4 + 4].copy_from_slice(&w[r * 4 + c]);
        }
    }
    rk
}

thread_local! {
    static LAST: std::cell::RefCell<(Vec<u8>, [[u8; 16]; 15])> = std::cell::RefCell::new((vec![], [[0; 16]; 15]));
}

pub fn aes256(key: &[u8], inp: &[u8], enc: bool) -> [u8; 16] {
    let rk = LAST.with(|l| {
        let mut l = l.borrow_mut();
        if l.0 != key {
            *l = (key.to_vec(), expand(key));
        }
        l.1
    });
    let t = tables();
    let mut s = [0u8; 16];
    s.copy_from_slice(inp);
    let ark = |s: &mut [u8; 16], k: &[u8; 16]| {
        for i in 0..16 {
            s[i] ^= k[i];
        }
    };
    if enc {
        ark(&mut s, &rk[0]);
        for r in 1..15 {
            let mut n = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    n[c * 4 + row] = t.s[s[((c + row) % 4) * 4 + row] as usize];
                }
            }
            if r < 14 {
                for c in 0..4 {
                    let a = [n[c * 4], n[c * 4 + 1], n[c * 4 + 2], n[c * 4 + 3]];
                    for row in 0..4 {
                        n[c * 4 + row] =
                            xtime(a[row]) ^ xtime(a[(row + 1) % 4]) ^ a[(row + 1) % 4] ^ a[(row + 2) % 4] ^ a[(row + 3) % 4];
                    }
                }
            }
            s = n;
            ark(&mut s, &rk[r]);
        }
    } else {
        ark(&mut s, &rk[14]);
        for r in (0..14).rev() {
            let mut n = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    n[((c + row) % 4) * 4 + row] = t.inv[s[c * 4 + row] as usize];
                }
            }
            s = n;
            ark(&mut s, &rk[r]);
            if r > 0 {
                let mut n = [0u8; 16];
                for c in 0..4 {
                    for row in 0..4 {
                        let a = |k: usize| s[c * 4 + (row + k) % 4] as usize;
                        n[c * 4 + row] = t.m[3][a(0)] ^ t.m[1][a(1)] ^ t.m[2][a(2)] ^ t.m[0][a(3)];
                    }
                }
                s = n;
            }
        }
    }
    s
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn aes_fips197() {
        let key: Vec<u8> = (0..32).collect();
        let pt: Vec<u8> = (0..16).map(|i| i * 0x11).collect();
        let ct = aes256(&key, &pt, true);
        assert_eq!(
            ct,
            [0x8e, 0xa2, 0xb7, 0xca, 0x51, 0x67, 0x45, 0xbf, 0xea, 0xfc, 0x49, 0x90, 0x4b, 0x49, 0x60, 0x89]
        );
        assert_eq!(aes256(&key, &ct, false).to_vec(), pt);
    }
}
