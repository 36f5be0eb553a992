//! C07: four-stream x86 (BCJ2) data is reassembled exactly.
use super::c21::{same_data, same_listing};
use crate::arch::*;
use crate::explore::Ch;
use crate::gen::*;
use crate::io::Src;
use crate::ref7z::*;
use crate::reffilt;
use crate::util::*;
use crate::fail;
pub use crate::gen::{build_bcj2, plain_spec, Bcj2Spec};

fn check(key: &str, ch: &Ch, b: &Built, portion: usize, max: usize) -> R {
    ch.state(fnv(&b.bytes) ^ portion as u64);
    let mut src = Src::new(&b.bytes);
    src.max = max;
    match read_back(src, b.bytes.len() as u64, password(b.needs_password), portion) {
        Ok((l, seen)) => {
            ch.state(hash_result(&l, &seen));
            same_listing(key, &b.want, &l)?;
            same_data(key, &b.data, &seen)
        }
        Err(e) => fail!(format!("{key}:error"), "a valid archive is refused: {e}"),
    }
}
/// x86 code with many branches, `n` bytes.
pub fn branches(n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0u32;
    while v.len() < n {
        let b = (i.wrapping_mul(2654435761) >> 24) as u8;
        match i % 7 {
            0 => v.extend_from_slice(&[0xE8, b, i as u8, 0, 0]),
            1 => v.extend_from_slice(&[0x90, 0xE9, b, 0xFF, 0xFF, 0xFF]),
            2 => v.extend_from_slice(&[0x0F, 0x80 | (b & 15), b, i as u8, 0, 0]),
            3 => v.extend_from_slice(&[b, 0x55, 0x0F]),
            4 => v.extend_from_slice(&[0xE8, 0xE8, 0x0F, 0x85, 0xE9]),
            5 => v.extend_from_slice(&[0x0F, 0x0F, 0x8F, 0x0F]),
            _ => v.extend_from_slice(&[0x8B, 0xEC, b]),
        }
        i += 1;
    }
    v.truncate(n);
    v
}

pub fn run(ctx: &Ctx) {
    // all strings of the bytes that matter, all decisions of the encoder
    let maxn = ctx.b(9, 10);
    ctx.explore("strings", |ch| {
        let al: &[u8] = &[0xE8, 0x0F, 0x84, 0x00, 0xE9];
        let wide = ch.flag();
        let n = if wide { ch.choose(maxn - 1) } else { ch.choose(maxn + 1) };
        let d: Vec<u8> = (0..n).map(|_| if wide { *ch.pick(al) } else { *ch.pick(&al[..3]) }).collect();
        let s = reffilt::bcj2_enc(&d, |_| ch.flag());
        let portion = *ch.pick(&[65536usize, 1, 3]);
        ch.desc(|| format!("{d:02x?} main {} call {} jump {} bytes, reads of {portion}", s[0].len(), s[1].len(), s[2].len()));
        check("str", ch, &build_bcj2(&plain_spec(), &[d], &s), portion, usize::MAX)
    });
    // every split of the output around converted addresses
    ctx.explore("read-splits", |ch| {
        let n = *ch.pick(&[5usize, 6, 11, 17, 40, 200]);
        let d = branches(n);
        let mask = ch.choose(4);
        let s = reffilt::bcj2_enc(&d, |k| match mask {
            0 => true,
            1 => k % 2 == 0,
            2 => false,
            _ => k % 3 != 0,
        });
        let b = build_bcj2(&plain_spec(), &[d], &s);
        let portion = 1 + ch.choose(24);
        let max = *ch.pick(&[usize::MAX, 1, 2, 3, 5]);
        ch.desc(|| format!("{n} bytes, decisions {mask}, reads of {portion}, source gives {max}"));
        check("split", ch, &b, portion, max)
    });
    // two different read sizes: one large first read ending anywhere
    ctx.explore("first-read", |ch| {
        let d = branches(120);
        let s = reffilt::bcj2_enc(&d, |k| k % 4 != 3);
        let b = build_bcj2(&plain_spec(), &[d.clone()], &s);
        let a = 1 + ch.choose(119);
        let c = 1 + ch.choose(6);
        let mut r = match sevenz_rust::SevenZReader::new(Src::new(&b.bytes), b.bytes.len() as u64, sevenz_rust::Password::empty()) {
            Ok(r) => r,
            Err(e) => fail!("first:open", "{e}"),
        };
        let mut out = vec![];
        let res = r.for_each_entries(|_, rd| {
            let mut x = vec![0u8; a];
            rd.read_exact(&mut x)?;
            out.extend_from_slice(&x);
            let mut y = vec![0u8; c];
            let k = rd.read(&mut y)?;
            out.extend_from_slice(&y[..k]);
            rd.read_to_end(&mut out)?;
            Ok(true)
        });
        if let Err(e) = res {
            fail!("first:error", "reads of {a}, {c}, rest: {e}");
        }
        if out != d {
            fail!("first:data", "reads of {a}, {c}, rest: different bytes");
        }
        Ok(())
    });
    // how the four streams are coded and laid out
    ctx.explore("codings", |ch| {
        let subs: [&[C7]; 7] = [&[], &[C7::Lzma], &[C7::Lzma2], &[C7::Bzip2], &[C7::Aes], &[C7::Aes, C7::Lzma], &[C7::Copy]];
        let n = *ch.pick(&[0usize, 1, 4, 5, 300, 5000]);
        let d = branches(n);
        let s = reffilt::bcj2_enc(&d, |k| k % 5 != 4);
        let mut spec = plain_spec();
        for k in 0..4 {
            spec.subs[k] = ch.pick(if ctx.quick() && k > 1 { &subs[..3] } else { &subs }).to_vec();
        }
        spec.last = ch.flag();
        let crc = ch.choose(3);
        spec.fcrc = crc != 1;
        spec.scrc = crc != 2;
        let orders = [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2]];
        spec.order = *ch.pick(&orders);
        let two = ch.flag();
        let files = if two { vec![d[..n / 3].to_vec(), d[n / 3..].to_vec()] } else { vec![d] };
        ch.desc(|| format!("{spec:?} {n} bytes in {} files", files.len()));
        check("coding", ch, &build_bcj2(&spec, &files, &s), 1000, usize::MAX)
    });
    // several files and blocks: the block after a BCJ2 one, files ending inside a converted address
    ctx.explore("files", |ch| {
        let d = branches(40);
        let s = reffilt::bcj2_enc(&d, |_| true);
        let a = ch.choose(41);
        let b = a + ch.choose(41 - a);
        let files = vec![d[..a].to_vec(), d[a..b].to_vec(), d[b..].to_vec()];
        let portion = *ch.pick(&[65536usize, 1, 3]);
        ch.desc(|| format!("files end at {a}, {b}, reads of {portion}"));
        check("files", ch, &build_bcj2(&plain_spec(), &files, &s), portion, usize::MAX)
    });
    // stream sizes around the internal buffers (1 << 18 per stream)
    let big = 1usize << 18;
    ctx.explore("buffers", |ch| {
        let delta = *ch.pick(&[-5isize, -4, -3, -1, 0, 1, 3, 4, 5, 9]);
        let n = (big as isize + delta) as usize;
        let kind = ch.choose(4);
        let (d, s) = match kind {
            // long main stream, hardly any branches
            0 => {
                let mut d = vec![0x90u8; n + 40];
                for p in [0, 100, n - 7, n - 2, n + 9, n + 20] {
                    d[p] = 0xE8;
                }
                let s = reffilt::bcj2_enc(&d, |_| true);
                (d, s)
            }
            // long call stream
            1 => {
                let mut d = vec![];
                while d.len() < n / 4 * 5 + 40 {
                    let k = d.len() as u32;
                    d.extend_from_slice(&[0xE8, k as u8, (k >> 8) as u8, 7, 0]);
                }
                let s = reffilt::bcj2_enc(&d, |_| true);
                (d, s)
            }
            // long jump stream
            2 => {
                let mut d = vec![];
                while d.len() < n / 4 * 6 + 40 {
                    let k = d.len() as u32;
                    d.extend_from_slice(&[0x0F, 0x83, k as u8, (k >> 8) as u8, 7, 0]);
                }
                let s = reffilt::bcj2_enc(&d, |_| true);
                (d, s)
            }
            // long range stream: decisions that do not compress
            _ => {
                let mut d = vec![];
                while d.len() < 5 * n {
                    let k = d.len() as u32;
                    d.extend_from_slice(&[0xE9, k as u8, 0x11, 7, 0]);
                }
                let nz = noise(d.len() / 5 + 8, 5);
                let mut d2 = vec![0xE9u8; 8 * n + 9 * 8];
                d2.extend_from_slice(&[0; 5]);
                let _ = d;
                let s = reffilt::bcj2_enc(&d2, |k| nz[(k / 8) % nz.len()] >> (k % 8) & 1 == 1);
                (d2, s)
            }
        };
        let portion = *ch.pick(&[65536usize, big + 3, 4096 * 3 + 1]);
        let max = *ch.pick(&[usize::MAX, 65535, 4097]);
        ch.desc(|| format!("kind {kind}: streams of {:?} bytes, reads of {portion}, source gives {max}", s.iter().map(|x| x.len()).collect::<Vec<_>>()));
        check("buffer", ch, &build_bcj2(&plain_spec(), &[d], &s), portion, max)
    });
    // short reads of the source at any place (each address may arrive in pieces)
    ctx.explore_dev("arrival", Some(ctx.b(3, 4)), |ch| {
        let d = branches(60);
        let s = reffilt::bcj2_enc(&d, |_| true);
        let b = build_bcj2(&plain_spec(), &[d], &s);
        let mut src = Src::new(&b.bytes);
        src.ch = Some(ch.clone());
        src.cuts = vec![1, 2, 3, 5, 6];
        src.window = (32, 32 + b.area.len() as u64);
        let portion = *ch.pick(&[65536usize, 7]);
        match read_back(src, b.bytes.len() as u64, password(false), portion) {
            Ok((l, seen)) => {
                ch.state(hash_result(&l, &seen));
                same_data("arrival", &b.data, &seen)
            }
            Err(e) => fail!("arrival:error", "a valid archive is refused: {e}"),
        }
    });
    // a damaged or shortened stream: an error, or the same data
    ctx.explore("faults", |ch| {
        let n = *ch.pick(&[40usize, 130]);
        let d = branches(n);
        let s = reffilt::bcj2_enc(&d, |k| k % 6 != 5);
        let mut bad = s.clone();
        let k = ch.choose(4);
        let what;
        if ch.flag() {
            let cut = ch.choose(s[k].len());
            bad[k].truncate(cut);
            what = format!("stream {k} cut to {cut} of {}", s[k].len());
        } else {
            let i = ch.choose(s[k].len());
            let x = 1u8 << ch.choose(8);
            bad[k][i] ^= x;
            what = format!("byte {i} of stream {k} xored with {x:#x}");
        }
        let mut spec = plain_spec();
        // no checksum: only the structure of the streams can tell that data is missing
        let crc = ch.choose(3);
        spec.fcrc = crc == 0;
        spec.scrc = crc == 1;
        if ch.flag() {
            spec.subs = [vec![C7::Lzma], vec![C7::Lzma], vec![C7::Lzma], vec![]];
        }
        // (with one checksum for several files only the whole of them shows the damage)
        let files = if ch.flag() { vec![d[..n / 3].to_vec(), d[n / 3..].to_vec()] } else { vec![d.clone()] };
        let b = build_bcj2(&spec, &files, &bad);
        let portion = *ch.pick(&[65536usize, 1, 5]);
        ch.desc(|| format!("{what}, {} files, checksums {crc}, reads of {portion}", files.len()));
        if let Ok((_, seen)) = read_back(Src::new(&b.bytes), b.bytes.len() as u64, password(false), portion) {
            let got = seen.iter().map(|x| &x.1[..]).collect::<Vec<_>>().concat();
            if crc < 2 && got != d {
                fail!("fault:data", "{what}: {} bytes different from the {} stored are presented as complete", got.len(), d.len());
            }
            if got.len() != d.len() {
                fail!("fault:short", "{what}: {} of {} bytes are presented as complete", got.len(), d.len());
            }
        }
        Ok(())
    });
    // addresses beyond 32 bits wrap
    ctx.horizon(100);
    ctx.explore("beyond-4GiB", |ch| {
        let g = crate::huge::GIB4;
        let all = [vec![100, g - 40, g + 33], vec![100, g - 4], vec![g - 5], vec![g - 2], vec![g, g + 5]];
        let calls = ch.pick(&all[..ctx.b(3, 5)]);
        let n = g + *ch.pick(&[100u64, 3 << 18][..ctx.b(1, 2)]);
        ch.desc(|| format!("{n} bytes, calls at {calls:?}"));
        crate::huge::bcj2(ch, n, calls, 1 << 18)
    });
}
