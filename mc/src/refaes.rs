//! Own SHA-256, AES-256-CBC and the 7zAES key derivation (FIPS 180-4, FIPS 197, 7-Zip format notes).
use std::collections::HashMap;
use std::sync::Mutex;

pub fn sha256(data: &[u8]) -> [u8; 32] {
    let mut s = Sha::new();
    s.update(data);
    s.finish()
}
pub struct Sha {
    h: [u32; 8],
    buf: Vec<u8>,
    len: u64,
}
fn frac_primes() -> ([u32; 8], [u32; 64]) {
    let mut pr = vec![];
    let mut n = 2u64;
    while pr.len() < 64 {
        if pr.iter().all(|p| n % p != 0) {
            pr.push(n);
        }
        n += 1;
    }
    // fractional bits of roots by integer arithmetic: floor(root(p) * 2^32) mod 2^32
    let isqrt = |p: u64| -> u32 {
        let t = (p as u128) << 64;
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        while lo < hi {
            let m = (lo + hi + 1) / 2;
            if m * m <= t {
                lo = m
            } else {
                hi = m - 1
            }
        }
        lo as u32
    };
    let icbrt = |p: u64| -> u32 {
        let t = (p as u128) << 96;
        let (mut lo, mut hi) = (0u128, 1u128 << 36);
        while lo < hi {
            let m = (lo + hi + 1) / 2;
            if m * m * m <= t {
                lo = m
            } else {
                hi = m - 1
            }
        }
        lo as u32
    };
    let mut a = [0; 8];
    let mut k = [0; 64];
    for i in 0..8 {
        a[i] = isqrt(pr[i]);
    }
    for i in 0..64 {
        k[i] = icbrt(pr[i]);
    }
    (a, k)
}
static CONSTS: std::sync::OnceLock<([u32; 8], [u32; 64])> = std::sync::OnceLock::new();
impl Sha {
    pub fn new() -> Sha {
        Sha { h: CONSTS.get_or_init(frac_primes).0, buf: vec![], len: 0 }
    }
    pub fn update(&mut self, d: &[u8]) {
        self.len += d.len() as u64;
        self.buf.extend_from_slice(d);
        let mut i = 0;
        while self.buf.len() - i >= 64 {
            let blk: [u8; 64] = self.buf[i..i + 64].try_into().unwrap();
            self.block(&blk);
            i += 64;
        }
        self.buf.drain(..i);
    }
    pub fn finish(mut self) -> [u8; 32] {
        let bits = self.len * 8;
        let mut pad = vec![0x80u8];
        while (self.buf.len() + pad.len()) % 64 != 56 {
            pad.push(0);
        }
        pad.extend_from_slice(&bits.to_be_bytes());
        self.update(&pad);
        let mut o = [0; 32];
        for i in 0..8 {
            o[i * 4..i * 4 + 4].copy_from_slice(&self.h[i].to_be_bytes());
        }
        o
    }
    fn block(&mut self, b: &[u8; 64]) {
        let k = &CONSTS.get().unwrap().1;
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(b[i * 4..i * 4 + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = self.h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            self.h[i] = self.h[i].wrapping_add(v[i]);
        }
    }
}

fn xt(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
struct Tables {
    s: [u8; 256],
    inv: [u8; 256],
    mul: [[u8; 256]; 15],
}
static TAB: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
fn tab() -> &'static Tables {
    TAB.get_or_init(|| {
        let mut s = [0u8; 256];
        let mut inv = [0u8; 256];
        for i in 0..=255u8 {
            let mut x = 0;
            if i != 0 {
                for j in 1..=255u8 {
                    if gmul(i, j) == 1 {
                        x = j;
                        break;
                    }
                }
            }
            let v = x ^ x.rotate_left(1) ^ x.rotate_left(2) ^ x.rotate_left(3) ^ x.rotate_left(4) ^ 0x63;
            s[i as usize] = v;
            inv[v as usize] = i;
        }
        let mut mul = [[0u8; 256]; 15];
        for (k, row) in mul.iter_mut().enumerate() {
            for i in 0..=255u8 {
                row[i as usize] = gmul(i, k as u8);
            }
        }
        Tables { s, inv, mul }
    })
}
pub struct Aes256 {
    rk: [[u8; 16]; 15],
}
impl Aes256 {
    pub fn new(key: &[u8; 32]) -> Aes256 {
        let t = tab();
        let mut w = [[0u8; 4]; 60];
        for i in 0..8 {
            w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
        }
        let mut rcon = 1u8;
        for i in 8..60 {
            let mut x = w[i - 1];
            if i % 8 == 0 {
                x = [t.s[x[1] as usize] ^ rcon, t.s[x[2] as usize], t.s[x[3] as usize], t.s[x[0] as usize]];
                rcon = xt(rcon);
            } else if i % 8 == 4 {
                for b in &mut x {
                    *b = t.s[*b as usize];
                }
            }
            for j in 0..4 {
                w[i][j] = w[i - 8][j] ^ x[j];
            }
        }
        let mut rk = [[0u8; 16]; 15];
        for r in 0..15 {
            for c in 0..4 {
                rk[r][4 * c..4 * c + 4].copy_from_slice(&w[4 * r + c]);
            }
        }
        Aes256 { rk }
    }
    pub fn enc(&self, b: &mut [u8; 16]) {
        let t = tab();
        for i in 0..16 {
            b[i] ^= self.rk[0][i];
        }
        for r in 1..15 {
            let mut n = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    n[4 * c + row] = t.s[b[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r < 14 {
                for c in 0..4 {
                    let a: [u8; 4] = n[4 * c..4 * c + 4].try_into().unwrap();
                    for i in 0..4 {
                        n[4 * c + i] = t.mul[2][a[i] as usize] ^ t.mul[3][a[(i + 1) % 4] as usize] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
                    }
                }
            }
            for i in 0..16 {
                b[i] = n[i] ^ self.rk[r][i];
            }
        }
    }
    pub fn dec(&self, b: &mut [u8; 16]) {
        let t = tab();
        for r in (1..15).rev() {
            for i in 0..16 {
                b[i] ^= self.rk[r][i];
            }
            if r < 14 {
                for c in 0..4 {
                    let a: [u8; 4] = b[4 * c..4 * c + 4].try_into().unwrap();
                    for i in 0..4 {
                        b[4 * c + i] = t.mul[14][a[i] as usize]
                            ^ t.mul[11][a[(i + 1) % 4] as usize]
                            ^ t.mul[13][a[(i + 2) % 4] as usize]
                            ^ t.mul[9][a[(i + 3) % 4] as usize];
                    }
                }
            }
            let mut n = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    n[4 * ((c + row) % 4) + row] = t.inv[b[4 * c + row] as usize];
                }
            }
            *b = n;
        }
        for i in 0..16 {
            b[i] ^= self.rk[0][i];
        }
    }
}
/// Password text to the UTF-16LE bytes 7-Zip hashes.
pub fn utf16le(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}
static KEYS: Mutex<Option<HashMap<(Vec<u8>, Vec<u8>, u8), [u8; 32]>>> = Mutex::new(None);
pub fn derive(password: &[u8], salt: &[u8], power: u8) -> [u8; 32] {
    let k = (password.to_vec(), salt.to_vec(), power);
    if let Some(v) = KEYS.lock().unwrap().get_or_insert_with(Default::default).get(&k) {
        return *v;
    }
    let v = if power == 0x3f {
        let mut key = [0u8; 32];
        let mut i = 0;
        for b in salt.iter().chain(password) {
            if i == 32 {
                break;
            }
            key[i] = *b;
            i += 1;
        }
        key
    } else {
        let mut s = Sha::new();
        for r in 0..(1u64 << power) {
            s.update(salt);
            s.update(password);
            s.update(&r.to_le_bytes());
        }
        s.finish()
    };
    KEYS.lock().unwrap().as_mut().unwrap().insert(k, v);
    v
}
/// Coder properties for given salt / iv lengths (0..=16 each)
pub fn properties(salt: &[u8], iv: &[u8], power: u8) -> Vec<u8> {
    let mut b0 = power & 0x3f;
    if !salt.is_empty() {
        b0 |= 0x80;
    }
    if !iv.is_empty() {
        b0 |= 0x40;
    }
    let mut v = vec![b0];
    if b0 & 0xC0 != 0 {
        let s1 = if salt.is_empty() { 0 } else { salt.len() - 1 };
        let i1 = if iv.is_empty() { 0 } else { iv.len() - 1 };
        v.push(((s1 << 4) | i1) as u8);
    }
    v.extend_from_slice(salt);
    v.extend_from_slice(iv);
    v
}
pub fn parse_properties(p: &[u8]) -> Result<(Vec<u8>, [u8; 16], u8), String> {
    let b0 = *p.first().ok_or("no props")?;
    let power = b0 & 0x3f;
    let mut iv = [0u8; 16];
    if b0 & 0xC0 == 0 {
        return Ok((vec![], iv, power));
    }
    let b1 = *p.get(1).ok_or("short props")?;
    let ss = ((b0 >> 7) & 1) as usize + (b1 >> 4) as usize;
    let is = ((b0 >> 6) & 1) as usize + (b1 & 15) as usize;
    if p.len() != 2 + ss + is {
        return Err("AES properties have the wrong length".into());
    }
    iv[..is].copy_from_slice(&p[2 + ss..]);
    Ok((p[2..2 + ss].to_vec(), iv, power))
}
pub fn encrypt(data: &[u8], password: &[u8], salt: &[u8], iv: &[u8], power: u8) -> Vec<u8> {
    let a = Aes256::new(&derive(password, salt, power));
    let mut prev = [0u8; 16];
    prev[..iv.len()].copy_from_slice(iv);
    let mut out = vec![];
    for c in data.chunks(16) {
        let mut b = [0u8; 16];
        b[..c.len()].copy_from_slice(c);
        for i in 0..16 {
            b[i] ^= prev[i];
        }
        a.enc(&mut b);
        out.extend_from_slice(&b);
        prev = b;
    }
    out
}
pub fn decrypt(data: &[u8], password: &[u8], props: &[u8]) -> Result<Vec<u8>, String> {
    let (salt, iv, power) = parse_properties(props)?;
    if data.len() % 16 != 0 {
        return Err("encrypted length not a multiple of 16".into());
    }
    let a = Aes256::new(&derive(password, &salt, power));
    let mut prev = iv;
    let mut out = vec![];
    for c in data.chunks(16) {
        let mut b: [u8; 16] = c.try_into().unwrap();
        a.dec(&mut b);
        for i in 0..16 {
            b[i] ^= prev[i];
        }
        prev = c.try_into().unwrap();
        out.extend_from_slice(&b);
    }
    Ok(out)
}
pub fn selftest() {
    let h = sha256(b"abc");
    assert_eq!(&h[..4], &[0xba, 0x78, 0x16, 0xbf], "sha256");
    let mut k = [0u8; 32];
    for i in 0..32 {
        k[i] = i as u8;
    }
    let mut b = [0u8; 16];
    for i in 0..16 {
        b[i] = (i * 0x11) as u8;
    }
    let o = b;
    let a = Aes256::new(&k);
    a.enc(&mut b);
    assert_eq!(b, [0x8e, 0xa2, 0xb7, 0xca, 0x51, 0x67, 0x45, 0xbf, 0xea, 0xfc, 0x49, 0x90, 0x4b, 0x49, 0x60, 0x89], "aes");
    a.dec(&mut b);
    assert_eq!(b, o);
}
