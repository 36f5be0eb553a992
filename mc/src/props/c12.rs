//! C12: malformed packed data and codec parameters.
use super::c07::{branches, build_bcj2, plain_spec};
use crate::arch::*;
use crate::explore::Ch;
use crate::gen::*;
use crate::io::Src;
use crate::ref7z::*;
use crate::util::*;
use crate::{ensure, fail, refaes, reffilt, reflzma};
use sevenz_rust::lzma::{LZMA2Reader, LZMAReader};
use sevenz_rust::*;
use std::io::Read;

const DICT: usize = 5 << 30;
const ENOUGH: u64 = 1 << 22;

/// Reads to the end and beyond it: never more than declared, and nothing but data and errors.
pub fn endure(key: &str, ch: &Ch, rd: &mut dyn Read, portion: usize, declared: u64) -> R {
    let mut buf = vec![0u8; portion];
    let mut n = 0u64;
    let mut h = 0u64;
    let mut errors = 0u32;
    let mut ends = 0u32;
    if let Ok(k) = rd.read(&mut []) {
        ensure!(k == 0, format!("{key}:empty-read"), "a read into an empty buffer gives {k} bytes");
    }
    while errors + ends < 3 && n < ENOUGH {
        match rd.read(&mut buf) {
            Ok(0) => ends += 1,
            Ok(k) => {
                ensure!(k <= portion, format!("{key}:count"), "a read of {portion} bytes gives {k}");
                h = h.rotate_left(5) ^ fnv(&buf[..k]);
                n += k as u64;
                ensure!(n <= declared, format!("{key}:more"), "{n} bytes delivered, {declared} declared");
            }
            Err(_) => errors += 1,
        }
    }
    ch.state(h ^ n << 8 ^ errors as u64);
    Ok(())
}
/// A block as it is in the file, every part of which can be changed.
#[derive(Clone)]
pub struct Raw {
    pub name: String,
    pub folder: Folder,
    pub packed: Vec<Vec<u8>>,
    /// sizes of the files in the block
    pub files: Vec<u64>,
}
impl Raw {
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.files.len();
        let h = Header {
            props: None,
            streams: Some(Streams {
                pack: Some(Pack { pos: 0, n: self.packed.len() as u64, sizes: Some(self.packed.iter().map(|p| p.len() as u64).collect()), crcs: None }),
                unpack: Some(Unpack { folders: vec![self.folder.clone()], crcs: None }),
                sub: Some(Sub { nums: Some(vec![n as u64]), sizes: Some(self.files[..n - 1].to_vec()), crcs: None }),
            }),
            files: Some(Files { n: n as u64, props: vec![Prop::Names((0..n).map(|i| format!("f{i}").encode_utf16().collect()).collect())] }),
        };
        file(&self.packed.concat(), &ser_header(&h, 0, false).out)
    }
    /// Declares another size of the whole.
    fn declare(&mut self, size: u64) {
        let m = self.folder.main_out().unwrap();
        self.folder.sizes[m] = size;
        self.files = vec![size];
    }
    pub fn chain(name: &str, chain: &[C7], data: &[u8]) -> Raw {
        let (folder, packed, whole) = encode_folder(&crate::gen::folder(chain, vec![data.to_vec()]));
        Raw { name: name.into(), folder, packed: vec![packed], files: vec![whole.len() as u64] }
    }
    fn one(name: &str, id: &[u8], props: Option<Vec<u8>>, packed: Vec<u8>, size: u64) -> Raw {
        Raw { name: name.into(), folder: Folder { coders: vec![Coder::simple(id, props)], bind: vec![], packed: vec![0], sizes: vec![size] }, packed: vec![packed], files: vec![size] }
    }
    fn bcj2(name: &str, subs: [Vec<C7>; 4], n: usize) -> Raw {
        let d = branches(n);
        let s = reffilt::bcj2_enc(&d, |k| k % 5 != 4);
        let mut spec = plain_spec();
        spec.subs = subs;
        let b = build_bcj2(&spec, &[d.clone()], &s);
        let st = b.header.streams.unwrap();
        let mut packed = vec![];
        let mut at = 0;
        for z in st.pack.unwrap().sizes.unwrap() {
            packed.push(b.area[at..at + z as usize].to_vec());
            at += z as usize;
        }
        Raw { name: name.into(), folder: st.unpack.unwrap().folders[0].clone(), packed, files: vec![d.len() as u64] }
    }
}
/// Reads a block in every way the library offers.
fn check(key: &str, ch: &Ch, raw: &Raw, portion: usize) -> R {
    let b = raw.bytes();
    let pw = Password::from(PW);
    let key = format!("{key}:{}", raw.name);
    with_mem_limit(DICT, DICT, || -> R {
        let mut r = match SevenZReader::new(Src::new(&b), b.len() as u64, pw.clone()) {
            Ok(r) => r,
            Err(e) => {
                ch.state(fnv(format!("{e:?}").as_bytes()));
                return Ok(());
            }
        };
        let mut bad: R = Ok(());
        let mut visited = 0;
        let res = r.for_each_entries(|e, rd| {
            visited += 1;
            if bad.is_ok() {
                bad = endure(&key, ch, rd, portion, e.size);
            }
            Ok(true)
        });
        bad?;
        ensure!(visited <= raw.files.len(), format!("{key}:visits"), "{visited} visits of {} entries", raw.files.len());
        ch.state(res.is_ok() as u64);
        Ok(())
    })
}
/// The usual client: reads each entry to its end, stops at the first error.
fn usual(key: &str, raw: &Raw) -> R {
    let b = raw.bytes();
    with_mem_limit(DICT, DICT, || -> R {
        let Ok(mut r) = SevenZReader::new(Src::new(&b), b.len() as u64, Password::from(PW)) else { return Ok(()) };
        let mut over = None;
        let res = r.for_each_entries(|e, rd| {
            let mut d = vec![];
            let res = rd.take(ENOUGH).read_to_end(&mut d);
            if d.len() as u64 > e.size {
                over = Some((d.len(), e.size));
            }
            if res.is_ok() && (d.len() as u64) < e.size.min(ENOUGH) {
                over = Some((d.len(), e.size));
            }
            res?;
            Ok(true)
        });
        let _ = res;
        if let Some((n, m)) = over {
            fail!(format!("{key}:{}:size", raw.name), "{n} bytes are presented as the whole of {m} declared ones");
        }
        Ok(())
    })
}
fn lzma_streams() -> Vec<(String, Vec<u8>, (u32, u32, u32), usize)> {
    let mut v = vec![];
    for (n, d) in [("text", text(90)), ("noise", noise(30, 4)), ("runs", [vec![7u8; 60], text(20), vec![7; 300], noise(5, 2), text(20)].concat())] {
        for (lc, lp, pb) in [(3, 0, 2), (0, 2, 0), (8, 4, 4)] {
            for end in [false, true] {
                v.push((format!("{n}-{lc}{lp}{pb}{}", if end { "-end" } else { "" }), reflzma::lzma_encode_simple(&d, lc, lp, pb, end), (lc, lp, pb), d.len()));
            }
        }
    }
    v
}
pub fn raws() -> Vec<Raw> {
    let t = text(80);
    let mix = [vec![9u8; 50], text(30), noise(20, 8), vec![9; 120]].concat();
    let br = branches(64);
    let mut v = vec![
        Raw::chain("lzma", &[C7::Lzma], &mix),
        Raw::chain("lzma2", &[C7::Lzma2], &mix),
        Raw::chain("bzip2", &[C7::Bzip2], &t),
        Raw::chain("zstd", &[C7::Zstd], &mix),
        Raw::chain("x86", &[C7::Copy, C7::X86], &br),
        Raw::chain("arm", &[C7::Copy, C7::Arm], &br),
        Raw::chain("armt", &[C7::Copy, C7::Armt], &br),
        Raw::chain("ppc", &[C7::Copy, C7::Ppc], &br),
        Raw::chain("sparc", &[C7::Copy, C7::Sparc], &br),
        Raw::chain("delta", &[C7::Copy, C7::Delta(4)], &t[..30]),
        Raw::chain("aes", &[C7::Aes], &t[..40]),
        Raw::chain("aes-lzma", &[C7::Aes, C7::Lzma], &t),
        Raw::chain("aes-lzma2-x86", &[C7::Aes, C7::Lzma2, C7::X86], &br),
        Raw::chain("lzma-x86", &[C7::Lzma, C7::X86], &br),
        Raw::chain("zstd-bzip2", &[C7::Zstd, C7::Bzip2], &t[..20]),
        Raw::bcj2("bcj2", [vec![], vec![], vec![], vec![]], 60),
        Raw::bcj2("bcj2-lzma", [vec![C7::Lzma], vec![C7::Lzma], vec![C7::Lzma2], vec![]], 60),
    ];
    // LZMA2 chunks of every kind
    let mut l2 = vec![];
    reflzma::lzma2_stored(&mut l2, true, b"stored bytes");
    l2.extend_from_slice(&reflzma::lzma2_encode_simple(&mix, 100));
    let end = l2.len() - 1;
    l2.truncate(end);
    reflzma::lzma2_stored(&mut l2, false, b"more");
    reflzma::lzma2_stored(&mut l2, true, b"anew");
    l2.push(0);
    v.push(Raw::one("lzma2-chunks", LZMA2, Some(vec![0]), l2, mix.len() as u64 + 20));
    // several files
    for c in [C7::Lzma, C7::Zstd] {
        let mut r = Raw::chain(&format!("solid-{c:?}"), &[c], &mix);
        r.files = vec![0, 50, 1, mix.len() as u64 - 51];
        v.push(r);
    }
    v
}

pub fn run(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.horizon(60);
    let all = raws();
    ctx.explore("intact", |ch| {
        let r = ch.pick(&all);
        let b = r.bytes();
        match read_back(Src::new(&b), b.len() as u64, Password::from(PW), 4096) {
            Ok((_, s)) => ensure!(s.iter().map(|x| x.1.len() as u64).eq(r.files.iter().copied()), "intact:sizes", "{}: {:?}", r.name, s.iter().map(|x| x.1.len()).collect::<Vec<_>>()),
            Err(e) => fail!("intact:error", "{}: {e}", r.name),
        }
        Ok(())
    });
    // every byte of the packed data given every value
    ctx.explore("bytes", |ch| {
        let mut r = ch.pick(&all).clone();
        let k = ch.choose(r.packed.len());
        let i = ch.choose(r.packed[k].len().max(1));
        let x = 1 + ch.choose(255) as u8;
        let portion = *ch.pick(if q { &[4096usize, 3][..] } else { &[4096usize, 1, 3, 64] });
        if r.packed[k].is_empty() {
            return Ok(());
        }
        r.packed[k][i] ^= x;
        ch.desc(|| format!("{}: byte {i} of stream {k} xored with {x:#x}, reads of {portion}", r.name));
        check("bytes", ch, &r, portion)?;
        usual("bytes", &r)
    });
    // pieces missing, doubled or added; sizes declared wrongly
    ctx.explore("pieces", |ch| {
        let mut r = ch.pick(&all).clone();
        let k = ch.choose(r.packed.len());
        let p = r.packed[k].clone();
        let n = p.len();
        let how = ch.choose(5);
        let i = ch.choose(n + 1);
        match how {
            0 => r.packed[k].truncate(i),
            1 => {
                let m = (1 + ch.choose(3)).min(n - i);
                r.packed[k].drain(i..i + m);
            }
            2 => {
                for _ in 0..1 + ch.choose(2) {
                    r.packed[k].insert(i, *ch.pick(&[0u8, 1, 0x80, 0xFF]));
                }
            }
            3 => {
                let tail = p[i..].to_vec();
                r.packed[k].extend_from_slice(&tail);
            }
            _ => r.packed[k][i..].fill(*ch.pick(&[0u8, 0xFF])),
        }
        let size = r.folder.unpack_size();
        if r.files.len() == 1 {
            let declared = *ch.pick(&[size, size + 1, size.saturating_sub(1), 0, 1, 1 << 20, 1 << 40, u64::MAX >> 1, u64::MAX]);
            r.declare(declared);
        }
        let portion = *ch.pick(&[4096usize, 7]);
        ch.desc(|| format!("{}: change {how} at {i} of stream {k} of {n} bytes, sizes {:?}, reads of {portion}", r.name, r.files));
        check("pieces", ch, &r, portion)?;
        usual("pieces", &r)
    });
    // two bytes at once
    let xs: &[u8] = if q { &[0x80] } else { &[0x01, 0x80, 0xFF] };
    ctx.explore("two-bytes", |ch| {
        let mut r = ch.pick(&all).clone();
        if r.packed.len() > 1 {
            return Ok(());
        }
        let n = r.packed[0].len();
        let i = ch.choose(n - 1);
        let j = i + 1 + ch.choose(n - i - 1);
        r.packed[0][i] ^= *ch.pick(xs);
        r.packed[0][j] ^= *ch.pick(xs);
        ch.desc(|| format!("{}: bytes {i} and {j}", r.name));
        check("two", ch, &r, 4096)
    });
    // all short streams of every codec
    let codecs: Vec<(&str, &[u8], Option<Vec<u8>>, Vec<u8>)> = vec![
        ("lzma", LZMA, Some(vec![0x5D, 0, 0, 1, 0]), vec![]),
        ("lzma-any", LZMA, Some(vec![0x5D, 0, 0, 1, 0]), vec![0]),
        ("lzma2", LZMA2, Some(vec![4]), vec![]),
        ("lzma2-after", LZMA2, Some(vec![4]), vec![1, 0, 0, b'x']),
        ("bzip2", BZIP2, None, vec![]),
        ("bzip2-magic", BZIP2, None, b"BZh1".to_vec()),
        ("bzip2-block", BZIP2, None, b"BZh11AY&SY".to_vec()),
        ("bzip2-end", BZIP2, None, b"BZh1\x17\x72\x45\x38\x50\x90".to_vec()),
        ("zstd", ZSTD, None, vec![]),
        ("zstd-magic", ZSTD, None, vec![0x28, 0xB5, 0x2F, 0xFD]),
        ("zstd-frame", ZSTD, None, vec![0x28, 0xB5, 0x2F, 0xFD, 0x20, 0x05]),
        ("zstd-skip", ZSTD, None, vec![0x50, 0x2A, 0x4D, 0x18]),
        ("x86", X86, None, vec![]),
        ("arm", ARM, None, vec![]),
        ("armt", ARMT, None, vec![]),
        ("ppc", PPC, None, vec![]),
        ("sparc", SPARC, None, vec![]),
        ("delta", DELTA, Some(vec![1]), vec![]),
        ("aes", AES, Some(refaes::properties(b"s", b"0123456789abcdef", 0)), vec![]),
        ("copy", COPY, None, vec![]),
    ];
    ctx.explore("all-of-two-bytes", |ch| {
        let (n, id, props, head) = ch.pick(&codecs).clone();
        let len = ch.choose(3);
        let mut p = head;
        for _ in 0..len {
            p.push(ch.choose(256) as u8);
        }
        let size = *ch.pick(&[5u64, 0, 1 << 16]);
        ch.desc(|| format!("{n}: {p:02x?}, {size} bytes declared"));
        check("two-byte", ch, &Raw::one(n, id, props, p, size), 4096)
    });
    let letters: Vec<u8> = if q { vec![0, 1, 0x80, 0xFF, 0xE8] } else { vec![0, 1, 2, 0x0F, 0x40, 0x80, 0xE8, 0xFF] };
    let depth = ctx.b(7, 8);
    ctx.explore("short-streams", |ch| {
        let (n, id, props, head) = ch.pick(&codecs).clone();
        let len = 3 + ch.choose(depth - 2 - q as usize);
        let mut p = head;
        for _ in 0..len {
            p.push(*ch.pick(&letters));
        }
        ch.desc(|| format!("{n}: {p:02x?}"));
        check("short", ch, &Raw::one(n, id, props, p, 40), 4096)
    });
    // LZMA2 streams put together from chunk headers
    let valid = |lc, lp, pb| -> Vec<u8> { reflzma::lzma_encode_simple(b"aaaaaaaabcaaaa", lc, lp, pb, false) };
    let body = valid(3, 0, 2);
    ctx.explore("lzma2-chunks", |ch| {
        let n = 1 + ch.choose(ctx.b(2, 3));
        let mut p = vec![];
        for _ in 0..n {
            let c = *ch.pick(&[0u8, 1, 2, 3, 0x7F, 0x80, 0x9F, 0xA0, 0xC0, 0xE0, 0xFF]);
            p.push(c);
            if c == 0 {
                continue;
            }
            if c < 0x80 {
                let (len, real) = *ch.pick(&[(0usize, 1usize), (13, 14), (13, 3), (0xFFFF, 20)]);
                p.extend_from_slice(&[(len >> 8) as u8, len as u8]);
                p.extend_from_slice(&noise(real, 3));
            } else {
                let us = *ch.pick(&[13usize, 0, 12, 14, 0xFFFF]);
                let cs = *ch.pick(&[body.len() - 1, 0, 4, 5, body.len(), 0xFFFF]);
                p.extend_from_slice(&[(us >> 8) as u8, us as u8, (cs >> 8) as u8, cs as u8]);
                if c >= 0xC0 {
                    p.push(*ch.pick(&[0x5Du8, 0, 4, 5, 0xE0, 0xE1]));
                }
                p.extend_from_slice(&body);
            }
        }
        if ch.flag() {
            p.push(0);
        }
        let portion = *ch.pick(&[4096usize, 5]);
        ch.desc(|| format!("{p:02x?}, reads of {portion}"));
        with_mem_limit(DICT, DICT, || endure("chunks", ch, &mut LZMA2Reader::new(Src::new(&p), 4096, None), portion, n as u64 * (2 << 20)))?;
        check("chunks", ch, &Raw::one("lzma2", LZMA2, Some(vec![0]), p, 40), portion)
    });
    // what a range decoder starts with, for every property byte
    let codes: &[u8] = if q { &[0, 1, 0x7F, 0x80, 0xFF] } else { &[0, 1, 0x20, 0x40, 0x7F, 0x80, 0xC0, 0xFF] };
    ctx.explore("lzma-codes", |ch| {
        let props = *ch.pick(&[0x5Du8, 0, 4, 8, 36, 44, 180, 224]);
        let mut p = vec![ch.choose(2) as u8];
        for _ in 0..ctx.b(5, 6) {
            p.push(*ch.pick(codes));
        }
        p.extend_from_slice(*ch.pick(&[&[][..], &[0u8; 30], &[0xFFu8; 30], b"some more bytes to decode from"]));
        let size = *ch.pick(&[0u64, 1, 100, u64::MAX >> 1, u64::MAX]);
        ch.desc(|| format!("properties {props}, {p:02x?}, {size} bytes declared"));
        with_mem_limit(DICT, DICT, || match LZMAReader::new_with_props(Src::new(&p), size, props, 4096, None) {
            Ok(mut r) => endure("codes", ch, &mut r, 512, size),
            Err(_) => Ok(()),
        })
    });
    let ls = lzma_streams();
    ctx.explore("lzma-streams", |ch| {
        let (n, s, (lc, lp, pb), len) = ch.pick(&ls);
        let mut s = s.clone();
        let i = ch.choose(s.len());
        let x = if q { *ch.pick(&[1u8, 2, 4, 8, 16, 32, 64, 128, 255, 0x7F, 0x55]) } else { 1 + ch.choose(255) as u8 };
        s[i] ^= x;
        let dict = *ch.pick(&[4096u32, 1]);
        let preset = ch.flag();
        let size = *ch.pick(&[*len as u64, u64::MAX]);
        let portion = *ch.pick(&[1 << 12, 5]);
        ch.desc(|| format!("{n}: byte {i} xored with {x:#x}, size {size}, preset dictionary {preset}, reads of {portion}"));
        with_mem_limit(DICT, DICT, || match LZMAReader::new(Src::new(&s), size, *lc, *lp, *pb, dict, if preset { Some(b"preset dictionary") } else { None }) {
            Ok(mut r) => endure("streams", ch, &mut r, portion, size),
            Err(_) => Ok(()),
        })
    });
    // .lzma headers under a memory limit
    ctx.explore("lzma-files", |ch| {
        let (n, s, (lc, lp, pb), len) = &ls[ch.choose(6)];
        let mut f = vec![reflzma::props_byte(*lc, *lp, *pb)];
        f.extend_from_slice(&4096u32.to_le_bytes());
        f.extend_from_slice(&(if n.ends_with("end") { u64::MAX } else { *len as u64 }).to_le_bytes());
        f.extend_from_slice(s);
        let kb = *ch.pick(&[u32::MAX, 0, 20, 1000, 60_000]);
        match ch.choose(4) {
            0 => {
                let cut = ch.choose(f.len());
                f.truncate(cut);
            }
            1 => {
                let i = ch.choose(13);
                f[i] = ch.choose(256) as u8;
            }
            2 => {
                f[0] = ch.choose(256) as u8;
                let d = *ch.pick(&[0u32, 1, 4095, 4097, 1 << 20, 1 << 30, 0xFFFF_FFF0, 0xFFFF_FFF1, u32::MAX]);
                f[1..5].copy_from_slice(&d.to_le_bytes());
            }
            _ => {
                for i in 5..13 {
                    f[i] = *ch.pick(&[0u8, 0xFF]);
                }
            }
        }
        ch.desc(|| format!("{n}: {:02x?}, at most {kb} KiB", &f[..f.len().min(13)]));
        let limit = if kb == u32::MAX { DICT } else { kb as usize * 1024 + 8192 };
        let size = f.get(5..13).map_or(0, |s| u64::from_le_bytes(s.try_into().unwrap()));
        let r = with_mem_limit(limit, limit, || LZMAReader::new_mem_limit(Src::new(&f), kb, None));
        match r {
            Ok(mut r) => endure("lzma-file", ch, &mut r, 512, size),
            Err(_) => Ok(()),
        }
    });
    // parameters of every codec
    let base: Vec<Raw> = all.iter().filter(|r| r.packed.len() == 1 && r.files.len() == 1).cloned().collect();
    ctx.explore("parameters", |ch| {
        let mut r = ch.pick(&base).clone();
        let c = ch.choose(r.folder.coders.len());
        let co = &mut r.folder.coders[c];
        let is_aes = co.id == AES;
        match ch.choose(4) {
            // any length
            0 => {
                let n = ch.choose(40);
                let x = *ch.pick(&[0u8, 0x5D, 0xFF]);
                co.props = if n == 0 && ch.flag() { None } else { Some(vec![x; n]) };
            }
            // any first byte
            1 => {
                let mut p = co.props.clone().unwrap_or_default();
                let x = ch.choose(256) as u8;
                if p.is_empty() {
                    p.push(x);
                } else {
                    p[0] = x;
                }
                co.props = Some(p);
            }
            // any other byte
            2 => {
                let mut p = co.props.clone().unwrap_or_default();
                let i = 1 + ch.choose(6);
                let x = ch.choose(256) as u8;
                if i < p.len() {
                    p[i] = x;
                }
                co.props = Some(p);
            }
            // shortened or lengthened
            _ => {
                let mut p = co.props.clone().unwrap_or_default();
                let n = ch.choose(p.len() + 3);
                p.resize(n, 1);
                co.props = Some(p);
            }
        }
        if is_aes && matches!(co.props.as_ref().and_then(|p| p.first()), Some(b) if (17..=24).contains(&(b & 63))) {
            // slow, and no different; the powers themselves are tried below
            return Ok(());
        }
        ch.desc(|| format!("{}: coder {c} with {:02x?}", r.name, r.folder.coders[c].props));
        check("parameters", ch, &r, 4096)
    });
    ctx.explore("aes-parameters", |ch| {
        let b0 = ch.choose(256) as u8;
        let b1 = ch.choose(256) as u8;
        let n = ch.choose(ctx.b(5, 9)) * ctx.b(8, 4);
        let p = b0 & 63;
        if (12..=24).contains(&p) && !(b1 == 0 && n == 0) {
            return Ok(());
        }
        if p > 14 && p <= 24 && b0 > 63 {
            return Ok(());
        }
        let mut props = vec![b0, b1];
        props.extend_from_slice(&noise(n, 6));
        ch.desc(|| format!("{props:02x?}"));
        check("aes", ch, &Raw::one("aes", AES, Some(props), noise(32, 7), 32), 4096)
    });
    // sizes between coders
    ctx.explore("inner-sizes", |ch| {
        let mut r = ch.pick(&all).clone();
        let k = ch.choose(r.folder.sizes.len());
        let z = r.folder.sizes[k];
        let x = *ch.pick(&[z.wrapping_sub(1), z + 1, 0, 1, z / 2, 2 * z, 1 << 32, u64::MAX >> 1, u64::MAX]);
        r.folder.sizes[k] = x;
        if Some(k) == r.folder.main_out() && r.files.len() == 1 {
            r.files = vec![x];
        }
        let portion = *ch.pick(&[4096usize, 3]);
        ch.desc(|| format!("{}: size {k} is {x} instead of {z}", r.name));
        check("inner", ch, &r, portion)
    });
    // BCJ2 from arbitrary streams
    ctx.explore("bcj2-streams", |ch| {
        let mut r = Raw::bcj2("bcj2", [vec![], vec![], vec![], vec![]], 8);
        let al: &[u8] = &[0xE8, 0x0F, 0x84, 0x00, 0xE9];
        let n = ch.choose(ctx.b(4, 5));
        let main: Vec<u8> = (0..n).map(|_| *ch.pick(al)).collect();
        let rc: Vec<u8> = match ch.choose(7) {
            0 => vec![],
            1 => vec![0; 4],
            2 => vec![0; 9],
            3 => vec![0, 0xFF, 0xFF, 0xFF, 0xFF],
            4 => vec![0xFF; 12],
            5 => vec![0, 0x80, 0, 0, 0, 0x55, 0xAA],
            _ => vec![1, 2, 3, 4, 5, 6, 7, 8],
        };
        r.packed = vec![main, vec![7; ch.choose(6)], vec![9; ch.choose(6)], rc];
        let size = *ch.pick(&[0u64, 1, 4, 6, 12, 1 << 20]);
        r.declare(size);
        let portion = *ch.pick(&[4096usize, 1, 3]);
        ch.desc(|| format!("{:02x?}, {size} bytes declared, reads of {portion}", r.packed));
        check("bcj2", ch, &r, portion)?;
        usual("bcj2", &r)
    });
}
