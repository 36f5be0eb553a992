//! C06: branch and delta filters are undone exactly.
use super::c21::{check_bytes, same_data, same_listing};
use crate::arch::*;
use crate::explore::Ch;
use crate::gen::*;
use crate::io::Src;
use crate::reffilt;
use crate::ref7z;
use crate::util::*;
use crate::fail;
use std::io::{Read, Seek, SeekFrom};

/// Reads a built archive with reads of `portion` bytes from a source giving at most `max` at once.
pub fn check_src(key: &str, ch: &Ch, b: &Built, portion: usize, max: usize) -> R {
    let mut src = Src::new(&b.bytes);
    src.max = max;
    match read_back(src, b.bytes.len() as u64, password(b.needs_password), portion) {
        Ok((l, seen)) => {
            ch.state(hash_result(&l, &seen));
            same_listing(key, &b.want, &l)?;
            same_data(key, &b.data, &seen)
        }
        Err(e) => fail!(format!("{key}:error"), "a valid archive is refused: {e}"),
    }
}
const ARCHS: [C7; 5] = [C7::X86, C7::Arm, C7::Armt, C7::Ppc, C7::Sparc];
fn name(c: C7) -> &'static str {
    match c {
        C7::X86 => "x86",
        C7::Arm => "arm",
        C7::Armt => "armt",
        C7::Ppc => "ppc",
        C7::Sparc => "sparc",
        _ => "delta",
    }
}
/// Bytes that matter to the converter of each architecture.
fn alphabet(c: C7, wide: bool) -> &'static [u8] {
    match (c, wide) {
        (C7::X86, false) => &[0x00, 0xE8, 0xFF, 0x01],
        (C7::X86, true) => &[0x00, 0xE8, 0xFF, 0x01, 0xE9],
        (C7::Arm, false) => &[0xEB, 0x00, 0xFF],
        (C7::Arm, true) => &[0xEB, 0x00, 0xFF, 0xEA],
        (C7::Armt, false) => &[0xF0, 0xF8, 0x00, 0xFF],
        (C7::Armt, true) => &[0xF0, 0xF8, 0x00, 0xFF, 0xF7],
        (C7::Ppc, false) => &[0x48, 0x01, 0x00],
        (C7::Ppc, true) => &[0x48, 0x01, 0x4B, 0xFF],
        (C7::Sparc, false) => &[0x40, 0x7F, 0x00],
        _ => &[0x40, 0x7F, 0x3F, 0xFF],
    }
}
/// Instruction-dense code of one architecture, `n` bytes.
pub fn code(c: C7, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0u32;
    while v.len() < n {
        let b = (i.wrapping_mul(2654435761) >> 24) as u8;
        match c {
            C7::X86 => match i % 5 {
                0 => v.extend_from_slice(&[0xE8, b, i as u8, 0, 0]),
                1 => v.extend_from_slice(&[0xE9, b, 0xFF, 0xFF, 0xFF, 0xE8]),
                2 => v.extend_from_slice(&[0xE8, 0xE8, 0xE8, 0, 0xE8, 0xFF, 0]),
                3 => v.extend_from_slice(&[0x0F, 0x84, b, 0, 0, 0]),
                _ => v.extend_from_slice(&[b, 0xE8, 0x00, 0xE9, 0xFF]),
            },
            C7::Arm => v.extend_from_slice(&[b, i as u8, (i >> 8) as u8, if i % 3 == 0 { 0xE3 } else { 0xEB }]),
            C7::Armt => match i % 3 {
                0 => v.extend_from_slice(&[b, 0xF0 | (b & 7), i as u8, 0xF8 | (i & 7) as u8]),
                1 => v.extend_from_slice(&[b, 0xF4, b, 0xF5]),
                _ => v.extend_from_slice(&[b, 0x20]),
            },
            C7::Ppc => v.extend_from_slice(&[if i % 4 == 0 { 0x60 } else { 0x48 | (b & 3) }, b, i as u8, (b & 0xFC) | (i % 2) as u8]),
            C7::Sparc => match i % 3 {
                0 => v.extend_from_slice(&[0x40, b & 0x3F, i as u8, b]),
                1 => v.extend_from_slice(&[0x7F, 0xC0 | b, i as u8, b]),
                _ => v.extend_from_slice(&[0x40, 0x80 | b, i as u8, b]),
            },
            _ => v.push(b),
        }
        i += 1;
    }
    v.truncate(n);
    v
}
fn single(c: C7, data: Vec<u8>) -> Built {
    assemble(&Spec::files(vec![folder(&[c], vec![data])]))
}
/// An archive whose packed area is zero bytes apart from a few patches, without holding it in memory.
struct Sparse {
    len: u64,
    pos: u64,
    patches: Vec<(u64, Vec<u8>)>,
}
impl Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let k = (b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        b[..k].fill(0);
        for (p, d) in &self.patches {
            let (a, e) = (self.pos.max(*p), (self.pos + k as u64).min(*p + d.len() as u64));
            if a < e {
                b[(a - self.pos) as usize..(e - self.pos) as usize].copy_from_slice(&d[(a - p) as usize..(e - p) as usize]);
            }
        }
        self.pos += k as u64;
        Ok(k)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.pos = match p {
            SeekFrom::Start(x) => x,
            SeekFrom::Current(d) => (self.pos as i64 + d) as u64,
            SeekFrom::End(d) => (self.len as i64 + d) as u64,
        };
        Ok(self.pos)
    }
}

pub fn run(ctx: &Ctx) {
    // every string over the bytes that matter, at every alignment
    ctx.explore("strings", |ch| {
        let c = *ch.pick(&ARCHS);
        let wide = ch.flag();
        let al = alphabet(c, wide);
        let max = match (al.len(), ctx.quick()) {
            (3, true) => 9,
            (3, false) => 11,
            (4, true) => 8,
            (4, false) => 9,
            (_, true) => 7,
            (_, false) => 8,
        };
        // leading bytes (alignment) and trailing bytes (how far the converter can look ahead)
        let (lead, tail) = *ch.pick(&[(0usize, 0usize), (1, 5), (3, 0), (2, 1)]);
        let n = if lead == 0 { max } else { max - 2 };
        let mut d = vec![0x90u8; lead];
        // all lengths are covered with no tail: a shorter string ends at the choice of "end"
        let n = if lead == 0 && ch.flag() { ch.choose(max) } else { n };
        for _ in 0..n {
            d.push(*ch.pick(al));
        }
        d.extend(vec![0x90; tail]);
        ch.desc(|| format!("{} {d:02x?}", name(c)));
        let b = single(c, d);
        check_bytes(&format!("str:{}", name(c)), ch, &b.bytes, &b.want, &b.data, false)
    });
    // the same strings where the buffer of the reader ends
    ctx.explore("buffer-edges", |ch| {
        let c = *ch.pick(&ARCHS);
        let al = alphabet(c, false);
        let at = *ch.pick(&[4096usize, 8192]) - 8 + ch.choose(10);
        let n = if ctx.quick() { 5 } else { 6 + (al.len() == 3) as usize };
        let mut d = vec![0x90u8; at];
        for _ in 0..n {
            d.push(*ch.pick(al));
        }
        d.extend_from_slice(&[0x90; 6][..if ch.flag() { 6 } else { 0 }]);
        let portion = *ch.pick(&[65536usize, 4096]);
        ch.desc(|| format!("{} at {at} {:02x?} reads of {portion}", name(c), &d[at..]));
        check_src(&format!("edge:{}", name(c)), ch, &single(c, d), portion, usize::MAX)
    });
    // instruction fields at interesting addresses
    ctx.explore("fields", |ch| {
        let c = *ch.pick(&ARCHS);
        let v: &[u8] = &[0, 1, 2, 3, 0x3F, 0x40, 0x7F, 0x80, 0xBF, 0xC0, 0xFC, 0xFE, 0xFF];
        let small: &[u8] = &[0, 1, 0x7F, 0x80, 0xFF];
        let at = *ch.pick(&[0usize, 4, 0x100, 0xFFC, 0x1000, 0xFFF8, 0x10000]);
        let mut d = vec![0u8; at];
        match c {
            C7::X86 => {
                d.push(*ch.pick(&[0xE8, 0xE9]));
                let (a, b, e, f) = (*ch.pick(small), *ch.pick(small), *ch.pick(v), *ch.pick(&[0u8, 0xFF, 1, 0xFE]));
                d.extend_from_slice(&[a, b, e, f]);
            }
            C7::Arm => {
                let (a, b, e) = (*ch.pick(v), *ch.pick(small), *ch.pick(v));
                d.extend_from_slice(&[a, b, e, 0xEB]);
            }
            C7::Armt => {
                let (a, b, e, f) = (*ch.pick(small), 0xF0 | ch.choose(8) as u8, *ch.pick(small), 0xF8 | ch.choose(8) as u8);
                d.extend_from_slice(&[a, b, e, f]);
            }
            C7::Ppc => {
                let (a, b, e, f) = (0x48 | ch.choose(4) as u8, *ch.pick(small), *ch.pick(small), *ch.pick(v));
                d.extend_from_slice(&[a, b, e, f]);
            }
            _ => {
                let (a, b, e, f) = (*ch.pick(&[0x40u8, 0x7F, 0x3F, 0x41]), *ch.pick(v), *ch.pick(small), *ch.pick(small));
                d.extend_from_slice(&[a, b, e, f]);
            }
        }
        d.extend_from_slice(&[0; 8]);
        ch.desc(|| format!("{} at {at:x} {:02x?}", name(c), &d[at..]));
        let b = single(c, d);
        check_bytes(&format!("field:{}", name(c)), ch, &b.bytes, &b.want, &b.data, false)
    });
    // read sizes and arrival of the stored bytes
    ctx.explore("splits", |ch| {
        let cs = [C7::X86, C7::Arm, C7::Armt, C7::Ppc, C7::Sparc, C7::Delta(1), C7::Delta(3), C7::Delta(256)];
        let c = *ch.pick(&cs);
        let len = *ch.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 100, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 4099, 4100, 4101, 8191, 8192, 8193, 8197, 20000]);
        let portion = *ch.pick(&[1usize, 2, 3, 4, 5, 7, 64, 4095, 4096, 4097, 100_000]);
        let max = *ch.pick(&[usize::MAX, 1, 2, 3, 5, 4095, 4096]);
        let comp = ch.choose(2);
        let off = ch.choose(ctx.b(3, 8));
        if len > 5000 && portion < 4 && max < 4 && ctx.quick() {
            return Ok(());
        }
        let data = code(c, len + off)[off..].to_vec();
        let chain: Vec<C7> = if comp == 1 { vec![C7::Lzma2, c] } else { vec![c] };
        ch.desc(|| format!("{chain:?} {len} bytes from {off}, reads of {portion}, source gives {max}"));
        let b = assemble(&Spec::files(vec![folder(&chain, vec![data])]));
        check_src(&format!("split:{}", name(c)), ch, &b, portion, max)
    });
    // deviation-bounded schedules of short reads
    ctx.explore_dev("arrival", Some(ctx.b(2, 3)), |ch| {
        let c = *ch.pick(&ARCHS);
        let data = code(c, *ch.pick(&[13usize, 4099, 8200]));
        let b = single(c, data);
        let mut src = Src::new(&b.bytes);
        src.ch = Some(ch.clone());
        src.cuts = vec![1, 2, 3, 4, 5, 6, 7, 8, 4089, 4090, 4091, 4092, 4093, 4094, 4095];
        src.window = (32, 32 + b.area.len() as u64);
        let portion = *ch.pick(&[65536usize, 1000, 7]);
        match read_back(src, b.bytes.len() as u64, password(false), portion) {
            Ok((l, seen)) => {
                ch.state(hash_result(&l, &seen));
                same_data(&format!("arr:{}", name(c)), &b.data, &seen)
            }
            Err(e) => fail!(format!("arr:{}:error", name(c)), "a valid archive is refused: {e}"),
        }
    });
    // every delta distance
    ctx.explore("delta", |ch| {
        let dist = 1 + ch.choose(256);
        let len = [0usize, 1, dist - 1, dist, dist + 1, 2 * dist, 2 * dist + 1, 255, 256, 257, 511, 513, 4096, 5000][ch.choose(14)];
        let kind = ch.choose(3);
        let data: Vec<u8> = match kind {
            0 => noise(len, dist as u64),
            1 => (0..len).map(|i| (i / dist) as u8).collect(),
            _ => vec![0xFF; len],
        };
        let portion = *ch.pick(&[100_000usize, 1, 3, 255, 256, 257]);
        ch.desc(|| format!("distance {dist}, {len} bytes of kind {kind}, reads of {portion}"));
        let b = assemble(&Spec::files(vec![FolderSpec { fcrc: kind == 0, ..folder(&[deltac(dist)], vec![data]) }]));
        check_src("delta", ch, &b, portion, usize::MAX)
    });
    // files in the same block continue the position of the filter
    ctx.explore("solid", |ch| {
        let cs = [C7::X86, C7::Arm, C7::Armt, C7::Ppc, C7::Sparc, C7::Delta(2)];
        let c = *ch.pick(&cs);
        let lens = [0usize, 1, 2, 3, 4, 5, 6, 9, 4095, 4097];
        let a = *ch.pick(&lens);
        let b = *ch.pick(&lens);
        let all = code(c, a + b + 50);
        let files = vec![all[..a].to_vec(), all[a..a + b].to_vec(), all[a + b..].to_vec()];
        let portion = *ch.pick(&[65536usize, 1, 3, 4096]);
        ch.desc(|| format!("{} files of {a}, {b}, 50 bytes, reads of {portion}", name(c)));
        let bu = assemble(&Spec::files(vec![folder(&[c], files)]));
        check_src(&format!("solid:{}", name(c)), ch, &bu, portion, usize::MAX)
    });
    // addresses beyond the fields of the instructions and beyond 32 bits
    let mut far: Vec<u64> = vec![1 << 22, 1 << 24, 1 << 25, 1 << 26];
    if !ctx.quick() {
        far.extend([1 << 31, 1 << 32]);
    } else {
        far.push(1 << 31);
    }
    ctx.horizon(600);
    ctx.explore("far", |ch| {
        let c = *ch.pick(&ARCHS);
        let base = *ch.pick(&far);
        let near = ch.choose(2);
        // instructions just before and after the limit
        let n = 4096u64;
        let start = base - n / 2;
        let total = base + n + 16;
        let plain = if near == 0 { code(c, n as usize) } else { code(c, n as usize).iter().map(|b| if *b == 1 { 0xFF } else { *b }).collect() };
        let mut plain = plain;
        // no instruction may run into the zero bytes that follow
        plain.resize(plain.len() + 16, 0);
        let n = plain.len() as u64;
        let stored = reffilt::conv_at(id(c), &plain, start, true);
        let mut crc = crc32fast_zeros(start);
        crc.update(&plain);
        crc.update(&vec![0u8; (total - start - n) as usize]);
        let crc = crc.finalize();
        let tmpl = single(c, vec![1]);
        let mut h = tmpl.header.clone();
        {
            let s = h.streams.as_mut().unwrap();
            s.pack.as_mut().unwrap().sizes = Some(vec![total]);
            s.unpack.as_mut().unwrap().folders[0].sizes = vec![total];
            s.sub.as_mut().unwrap().crcs = Some(vec![Some(crc)]);
        }
        let hb = ref7z::ser_header(&h, 0, false).out;
        let src = Sparse {
            len: 32 + total + hb.len() as u64,
            pos: 0,
            patches: vec![(0, ref7z::start_header(total, hb.len() as u64, ref7z::crc32(&hb))), (32 + start, stored), (32 + total, hb)],
        };
        ch.desc(|| format!("{} instructions around {base:x}", name(c)));
        let len = src.len;
        let mut r = match sevenz_rust::SevenZReader::new(src, len, sevenz_rust::Password::empty()) {
            Ok(r) => r,
            Err(e) => fail!("far:open", "{e}"),
        };
        let mut seen = vec![];
        let res = r.for_each_entries(|_, rd| {
            let mut buf = vec![0u8; 1 << 16];
            let mut pos = 0u64;
            loop {
                let k = rd.read(&mut buf)?;
                if k == 0 {
                    break;
                }
                if pos + k as u64 > start {
                    let a = start.saturating_sub(pos) as usize;
                    seen.extend_from_slice(&buf[a..k]);
                }
                pos += k as u64;
            }
            Ok(true)
        });
        let mut want = plain.clone();
        want.resize((total - start) as usize, 0);
        let k = name(c);
        if let Err(e) = res {
            if seen != want {
                let i = seen.iter().zip(&want).position(|(a, b)| a != b);
                fail!(format!("far:{k}"), "instructions around {base:x}: {} of {} bytes, first difference at {i:?}, {e}", seen.len(), want.len());
            }
            fail!(format!("far:{k}:error"), "instructions around {base:x}: {e}");
        }
        if seen != want {
            fail!(format!("far:{k}"), "instructions around {base:x} are not restored");
        }
        ch.state(fnv(&seen) ^ base);
        Ok(())
    });
    ctx.horizon(60);
}
fn deltac(dist: usize) -> C7 {
    // 256 is stored as property 255
    C7::Delta(dist as u16)
}
fn id(c: C7) -> &'static [u8] {
    match c {
        C7::X86 => ref7z::X86,
        C7::Arm => ref7z::ARM,
        C7::Armt => ref7z::ARMT,
        C7::Ppc => ref7z::PPC,
        _ => ref7z::SPARC,
    }
}
/// CRC-32 state after `n` zero bytes.
fn crc32fast_zeros(n: u64) -> crc32fast::Hasher {
    let mut h = crc32fast::Hasher::new();
    let z = vec![0u8; 1 << 20];
    let mut k = n;
    while k > 0 {
        let m = k.min(z.len() as u64) as usize;
        h.update(&z[..m]);
        k -= m as u64;
    }
    h
}
