//! Reference branch converters, delta and BCJ2, byte-oriented, from the LZMA SDK documentation.

pub fn delta_dec(d: &[u8], dist: usize) -> Vec<u8> {
    let mut o = d.to_vec();
    for i in dist..o.len() {
        o[i] = o[i].wrapping_add(o[i - dist]);
    }
    o
}
pub fn delta_enc(d: &[u8], dist: usize) -> Vec<u8> {
    let mut o = d.to_vec();
    for i in dist..d.len() {
        o[i] = d[i].wrapping_sub(d[i - dist]);
    }
    o
}
/// Whole-buffer conversion starting at position 0.
pub fn conv(id: &[u8], d: &[u8], enc: bool) -> Vec<u8> {
    conv_at(id, d, 0, enc)
}
/// Whole-buffer conversion of bytes found at position `base` (after bytes without instructions).
pub fn conv_at(id: &[u8], d: &[u8], base: u64, enc: bool) -> Vec<u8> {
    let base = base as u32;
    let mut v = d.to_vec();
    let n = v.len();
    let apply = |x: u32, ip: u32| if enc { x.wrapping_add(ip) } else { x.wrapping_sub(ip) };
    match id {
        crate::ref7z::ARM => {
            let mut i = 0;
            while i + 4 <= n {
                if v[i + 3] == 0xEB {
                    let src = u32::from_le_bytes([v[i], v[i + 1], v[i + 2], 0]) << 2;
                    let dst = apply(src, (i as u32).wrapping_add(base).wrapping_add(8)) >> 2;
                    v[i..i + 3].copy_from_slice(&dst.to_le_bytes()[..3]);
                }
                i += 4;
            }
        }
        crate::ref7z::ARMT => {
            let mut i = 0;
            while i + 4 <= n {
                if v[i + 1] & 0xF8 == 0xF0 && v[i + 3] & 0xF8 == 0xF8 {
                    let src = (((v[i + 1] as u32 & 7) << 19) | ((v[i] as u32) << 11) | ((v[i + 3] as u32 & 7) << 8) | v[i + 2] as u32) << 1;
                    let dst = apply(src, (i as u32).wrapping_add(base).wrapping_add(4)) >> 1;
                    v[i + 1] = 0xF0 | ((dst >> 19) & 7) as u8;
                    v[i] = (dst >> 11) as u8;
                    v[i + 3] = 0xF8 | ((dst >> 8) & 7) as u8;
                    v[i + 2] = dst as u8;
                    i += 2;
                }
                i += 2;
            }
        }
        crate::ref7z::PPC => {
            let mut i = 0;
            while i + 4 <= n {
                let x = u32::from_be_bytes(v[i..i + 4].try_into().unwrap());
                if x & 0xFC00_0003 == 0x4800_0001 {
                    let dst = apply(x & 0x03FF_FFFC, (i as u32).wrapping_add(base));
                    let y = 0x4800_0001 | (dst & 0x03FF_FFFC);
                    v[i..i + 4].copy_from_slice(&y.to_be_bytes());
                }
                i += 4;
            }
        }
        crate::ref7z::SPARC => {
            let mut i = 0;
            while i + 4 <= n {
                let x = u32::from_be_bytes(v[i..i + 4].try_into().unwrap());
                if x >> 22 == 0x100 || x >> 22 == 0x1FF {
                    let src = x << 2;
                    let dst = apply(src, (i as u32).wrapping_add(base)) >> 2;
                    let y = (((0u32.wrapping_sub((dst >> 22) & 1)) << 22) & 0x3FFF_FFFF) | (dst & 0x3F_FFFF) | 0x4000_0000;
                    v[i..i + 4].copy_from_slice(&y.to_be_bytes());
                }
                i += 4;
            }
        }
        crate::ref7z::X86 => x86(&mut v, base, enc),
        _ => panic!("filter {id:?}"),
    }
    v
}
pub fn dec(id: &[u8], d: &[u8]) -> Vec<u8> {
    conv(id, d, false)
}
/// x86 converter of the SDK in its historic bit-mask form (x86_Convert), whole buffer.
fn x86(v: &mut [u8], base: u32, enc: bool) {
    const ALLOWED: [bool; 8] = [true, true, true, false, true, false, false, false];
    const BITNUM: [u32; 8] = [0, 1, 2, 2, 3, 3, 3, 3];
    let msb = |b: u8| b == 0 || b == 0xFF;
    let n = v.len();
    if n < 5 {
        return;
    }
    let limit = n - 4;
    let mut pos: usize = 0;
    let mut prev_pos: isize = -1; // position of the last E8/E9
    let mut mask: u32 = 0;
    while pos < limit {
        if v[pos] & 0xFE != 0xE8 {
            pos += 1;
            continue;
        }
        let dist = pos as isize - prev_pos;
        prev_pos = pos as isize;
        if dist > 3 {
            mask = 0;
        } else {
            mask = (mask << (dist as u32 - 1)) & 7;
            if mask != 0 {
                let b = v[pos + 4 - BITNUM[mask as usize] as usize];
                if !ALLOWED[mask as usize] || msb(b) {
                    mask = ((mask << 1) & 7) | 1;
                    pos += 1;
                    continue;
                }
            }
        }
        if msb(v[pos + 4]) {
            let mut src = u32::from_le_bytes(v[pos + 1..pos + 5].try_into().unwrap());
            let ip = (pos as u32).wrapping_add(base).wrapping_add(5);
            let dst = loop {
                let d = if enc { ip.wrapping_add(src) } else { src.wrapping_sub(ip) };
                if mask == 0 {
                    break d;
                }
                let index = BITNUM[mask as usize] * 8;
                let b = (d >> (24 - index)) as u8;
                if !msb(b) {
                    break d;
                }
                src = d ^ ((1u32.wrapping_shl(32 - index)).wrapping_sub(1));
            };
            v[pos + 1] = dst as u8;
            v[pos + 2] = (dst >> 8) as u8;
            v[pos + 3] = (dst >> 16) as u8;
            v[pos + 4] = if (dst >> 24) & 1 == 1 { 0xFF } else { 0 };
            pos += 5;
        } else {
            mask = ((mask << 1) & 7) | 1;
            pos += 1;
        }
    }
}

/// BCJ2: per-branch conversion decided by `decide(branch index)`. Returns [main, call, jump, rc].
pub fn bcj2_enc(d: &[u8], mut decide: impl FnMut(usize) -> bool) -> [Vec<u8>; 4] {
    use crate::reflzma::{BitCoder, RangeEnc};
    let (mut main, mut call, mut jump) = (vec![], vec![], vec![]);
    let mut rc = RangeEnc::default();
    let mut p = vec![1024u16; 2 + 256];
    let mut prev = 0u8;
    let mut i = 0;
    let mut k = 0;
    while i < d.len() {
        let b = d[i];
        main.push(b);
        i += 1;
        let is_j = prev == 0x0F && b & 0xF0 == 0x80;
        if b & 0xFE == 0xE8 || is_j {
            let ix = if b == 0xE8 { prev as usize } else if b == 0xE9 { 256 } else { 257 };
            let can = i + 4 <= d.len();
            let conv = can && decide(k);
            k += 1;
            rc.bit(&mut p[ix], conv as u32);
            if conv {
                let rel = u32::from_le_bytes(d[i..i + 4].try_into().unwrap());
                let abs = rel.wrapping_add((i + 4) as u32);
                (if b == 0xE8 { &mut call } else { &mut jump }).extend_from_slice(&abs.to_be_bytes());
                i += 4;
                prev = d[i - 1];
                continue;
            }
        }
        prev = b;
    }
    let r = rc.finish();
    [main, call, jump, r]
}
