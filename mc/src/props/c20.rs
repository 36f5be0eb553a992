//! C20: written archives conform to the format (strict independent reader).
use super::c01;
use super::c02;
use crate::arch::*;
use crate::explore::Ch;
use crate::io::Sink;
use crate::ref7z::{self, crc32};
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::lzma::LZMA2Options;
use sevenz_rust::*;

pub fn utf16le(p: &str) -> Vec<u8> {
    p.encode_utf16().flat_map(|c| c.to_le_bytes()).collect()
}
pub fn strict(key: &str, ch: &Ch, b: &[u8], want: &[Ent], enc: bool) -> R<ref7z::Strict> {
    let pw = utf16le(PW);
    let s = match ref7z::strict_read(b, if enc { Some(&pw) } else { None }) {
        Ok(s) => s,
        Err(e) => {
            let k: String = e.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
            fail!(format!("{key}:strict:{k}"), "not a valid archive: {e}")
        }
    };
    ch.state(fnv(&s.raw_header));
    ensure!(s.entries.len() == want.len(), format!("{key}:count"), "{} entries recovered, {} added", s.entries.len(), want.len());
    for (e, w) in s.entries.iter().zip(want) {
        let n = String::from_utf16_lossy(&e.info.name);
        ensure!(n == w.name, format!("{key}:name"), "name {n:?}, added {:?}", w.name);
        ensure!(e.data == w.bytes(), format!("{key}:data"), "{n:?}: contents recovered differ ({} bytes, {} added)", e.data.len(), w.len());
        ensure!(e.info.crc.is_some() || w.len() == 0, format!("{key}:nocrc"), "{n:?}: no checksum stored");
        ensure!(e.info.crc.unwrap_or(0) == crc32(w.bytes()), format!("{key}:crc"), "{n:?}: checksum {:?}", e.info.crc);
        ensure!(
            e.info.dir == w.dir && e.info.anti == w.anti && e.info.ctime == w.ctime && e.info.atime == w.atime && e.info.mtime == w.mtime && e.info.attr == w.attr,
            format!("{key}:meta"),
            "{n:?}: metadata recovered {:?}, added {w:?}",
            e.info
        );
    }
    Ok(s)
}
pub fn run(ctx: &Ctx) {
    let al = c01::alphabet();
    let depth = ctx.b(3, 4);
    ctx.explore("histories", |ch| {
        let n = ch.choose(depth + 1);
        let enc_header = ch.flag();
        let ops: Vec<c01::Op> = (0..n).map(|_| ch.pick(&al).clone()).collect();
        ch.desc(|| format!("{enc_header} {ops:?}"));
        let (b, want, enc) = c01::run_history(&ops, Chain::Lzma2, enc_header, "hist", false)?;
        strict("hist", ch, &b, &want, enc)?;
        Ok(())
    });
    let mut sizes = vec![0usize, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 4079, 4080, 4081, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 65537, 70000];
    if !ctx.quick() {
        sizes.extend([131071, 131072, 131073, 262143, 262144, 262145, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, 3 << 20]);
    } else {
        sizes.extend([300000, (1 << 21) + 1]);
    }
    ctx.explore("contents-x-chains", |ch| {
        let c = *ch.pick(CHAINS);
        let n = *ch.pick(&sizes);
        let pat = ch.choose(4);
        let layout = ch.choose(3);
        let d = match pat {
            0 => noise(n, n as u64),
            1 => text(n),
            2 => vec![0; n],
            _ => crc0(&text(n)),
        };
        ch.desc(|| format!("{c:?} {n} bytes pattern {pat} layout {layout}"));
        let ops = match layout {
            0 => vec![c01::Op::Push(Ent::file("a", &d))],
            1 => vec![c01::Op::Push(Ent::file("a", &d)), c01::Op::Push(Ent::none("e")), c01::Op::Push(Ent::file("b", b"bb"))],
            _ => vec![c01::Op::Push(Ent::file("0", b"00")), c01::Op::Solid(vec![Ent::file("a", b"x"), Ent::file("b", &d), Ent::file("c", b"")])],
        };
        let (b, want, enc) = c01::run_history(&ops, c, true, "cont", false)?;
        strict("cont", ch, &b, &want, enc)?;
        Ok(())
    });
    // counts of packed streams, folders, substreams, empty entries across encoding boundaries
    let maxn = ctx.b(20, 40);
    ctx.explore("entry-counts", |ch| {
        let files = *ch.pick(&[0usize, 1, 2, 7, 8, 9, 15, 16, 17, 126, 127, 128, 129, 200]);
        let empties = ch.choose(maxn);
        let kinds = ch.choose(3);
        let mode = ch.choose(3);
        let mut g: Vec<Vec<Ent>> = vec![];
        for i in 0..empties {
            g.push(vec![match (kinds, i % 3) {
                (0, _) => Ent::none(&format!("e{i}")),
                (1, _) => Ent::dir(&format!("d{i}")),
                (_, 0) => Ent::none(&format!("e{i}")),
                (_, 1) => Ent::dir(&format!("d{i}")),
                _ => Ent::anti(&format!("a{i}")),
            }]);
        }
        let v: Vec<Ent> = (0..files).map(|i| Ent::file(&format!("f{i}"), &if i % 5 == 4 { crc0(&text(i)) } else { text(i + 1) })).collect();
        match mode {
            0 => {
                if v.len() > 1 {
                    g.push(v)
                } else {
                    g.extend(v.into_iter().map(|e| vec![e]))
                }
            }
            1 => g.extend(v.chunks(3).map(|c| c.to_vec())),
            _ => {
                if files > 20 && ctx.quick() {
                    g.extend(v.chunks(2).map(|c| c.to_vec()))
                } else {
                    g.extend(v.into_iter().map(|e| vec![e]))
                }
            }
        }
        ch.desc(|| format!("{empties} empty kind {kinds}, {files} files mode {mode}"));
        let b = c02::write_all("counts", Chain::Aes, true, &g)?;
        strict("counts", ch, &b, &g.concat(), true)?;
        Ok(())
    });
    // metadata presence patterns
    ctx.explore("presence-patterns", |ch| {
        let n = 1 + ch.choose(2);
        let mut v = vec![];
        for i in 0..n {
            let mut e = c02::kind(ch.choose(6), &format!("n{i}"));
            c02::stamp(&mut e, ch.choose(16), i);
            v.push(vec![e]);
        }
        ch.desc(|| format!("{v:?}"));
        let b = c02::write_all("pres", Chain::Lzma2, true, &v)?;
        strict("pres", ch, &b, &v.concat(), false)?;
        Ok(())
    });
    ctx.explore("one-differs", |ch| {
        let n = *ch.pick(&[7usize, 8, 9, 15, 16, 17, 24, 25]);
        let base_kind = ch.choose(4);
        let odd_kind = ch.choose(4);
        let base_mask = *ch.pick(&[0usize, 15]);
        let odd_mask = *ch.pick(&[0usize, 1, 2, 4, 8, 15]);
        let p = ch.choose(n);
        let mut v = vec![];
        for i in 0..n {
            let mut e = c02::kind(if i == p { odd_kind } else { base_kind }, &format!("n{i}"));
            c02::stamp(&mut e, if i == p { odd_mask } else { base_mask }, i);
            v.push(vec![e]);
        }
        ch.desc(|| format!("n={n} kind {base_kind} mask {base_mask}, at {p}: kind {odd_kind} mask {odd_mask}"));
        let b = c02::write_all("one", Chain::Lzma2, true, &v)?;
        strict("one", ch, &b, &v.concat(), false)?;
        Ok(())
    });
    // coder properties: dictionary sizes and literal/position bits must allow decoding
    let mut dicts = vec![4096u32, 4097, 5000, 6143, 6144, 6145, 8191, 8192, 8193, 10000, 12288, 12289, 65535, 65536, 65537, 98304, 100000];
    if !ctx.quick() {
        dicts.extend([1 << 17, (1 << 17) + 1, 196608, 196609, 1 << 20, (1 << 20) + 1, 3 << 19, (3 << 19) + 1]);
    }
    let lclppb = [(3u32, 0u32, 2u32), (0, 0, 0), (4, 0, 4), (0, 4, 1), (2, 2, 3), (1, 3, 0), (0, 0, 4)];
    ctx.explore("coder-properties", |ch| {
        let m = if ch.flag() { SevenZMethod::LZMA } else { SevenZMethod::LZMA2 };
        let dict = *ch.pick(&dicts);
        let preset = *ch.pick(&[1u32, 4]);
        let (lc, lp, pb) = *ch.pick(&lclppb);
        let num = ch.flag();
        let mut o = LZMA2Options::with_preset(preset);
        o.dict_size = dict;
        (o.lc, o.lp, o.pb) = (lc, lp, pb);
        if num && ((lc, lp, pb) != (3, 0, 2) || preset != 1) {
            return Ok(());
        }
        // repeats at distances around the dictionary size
        let mut d = noise(dict as usize, 7);
        let blk: Vec<u8> = d[..64].to_vec();
        d.extend_from_slice(&blk);
        let blk2 = d[d.len() - dict as usize + 1..d.len() - dict as usize + 200].to_vec();
        d.extend_from_slice(&blk2);
        d.extend_from_slice(&text(300));
        ch.desc(|| format!("{} dict {dict} preset {preset} lc{lc} lp{lp} pb{pb} num {num}", m.name()));
        let s = Sink::new();
        let r = (|| -> std::result::Result<(), Error> {
            let mut w = SevenZWriter::new(s.clone())?;
            let mo: MethodOptions = if num { dict.into() } else { o.into() };
            w.set_content_methods(vec![SevenZMethodConfiguration::new(m).with_options(mo)]);
            push(&mut w, &Ent::file("a", &d))?;
            w.finish()?;
            Ok(())
        })();
        if let Err(e) = r {
            fail!("props:write", "{e}");
        }
        let b = s.take();
        strict("props", ch, &b, &[Ent::file("a", &d)], false)?;
        match read_bytes(&b, false) {
            Ok((l, seen)) => compare("props", &[Ent::file("a", &d)], &l, &seen),
            Err(e) => fail!("props:read", "{e}"),
        }
    });
    // numbers up to five bytes: positions, sizes and name tables beyond 2^28 need real data of that size
    let big: Vec<u64> = if ctx.quick() { vec![(1 << 21) - 1, 1 << 21, (1 << 28) - 1, 1 << 28] } else { vec![(1 << 28) - 1, 1 << 28, (1u64 << 32) - 1, 1 << 32, (1u64 << 32) + 5] };
    ctx.horizon(ctx.b(60, 1200));
    ctx.explore("large-sizes", |ch| {
        let n = *ch.pick(&big);
        let solid = ch.flag();
        ch.desc(|| format!("entry of {n} zero bytes, solid {solid}"));
        struct Zeros(u64);
        impl std::io::Read for Zeros {
            fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                let k = (b.len() as u64).min(self.0) as usize;
                b[..k].fill(0);
                self.0 -= k as u64;
                Ok(k)
            }
        }
        let s = Sink::new();
        let mut ent = SevenZArchiveEntry::new();
        ent.name = "big".into();
        let mut ent2 = SevenZArchiveEntry::new();
        ent2.name = "small".into();
        let r = (|| -> std::result::Result<(), Error> {
            let mut w = SevenZWriter::new(s.clone())?;
            let mut o = LZMA2Options::with_preset(0);
            o.dict_size = 4096;
            w.set_content_methods(vec![o.into()]);
            if solid {
                w.push_archive_entries(vec![ent, ent2], SeqReader::new(vec![SourceReader::new(Zeros(n)), SourceReader::new(Zeros(7))]))?;
            } else {
                w.push_archive_entry(ent, Some(Zeros(n)))?;
                w.push_archive_entry(ent2, Some(Zeros(7)))?;
            }
            w.finish()?;
            Ok(())
        })();
        if let Err(e) = r {
            fail!("big:write", "{e}");
        }
        let b = s.take();
        ch.state(fnv(&b));
        // header and packed area by the strict parser, without expanding the data
        let h = match ref7z::strict_layout(&b) {
            Ok(h) => h,
            Err(e) => fail!("big:strict", "not a valid archive: {e}"),
        };
        let l = match ref7z::listing(&h) {
            Ok(l) => l,
            Err(e) => fail!("big:listing", "{e}"),
        };
        ensure!(l.len() == 2 && l[0].size == n && l[1].size == 7, "big:size", "sizes recovered {:?}", l.iter().map(|e| e.size).collect::<Vec<_>>());
        // and read back through the library in a streaming fashion
        let mut got = vec![];
        let r = (|| -> std::result::Result<(), Error> {
            let mut r = SevenZReader::new(crate::io::Src::new(&b), b.len() as u64, Password::empty())?;
            let mut buf = vec![0u8; 1 << 20];
            r.for_each_entries(|e, rd| {
                let mut t = 0u64;
                loop {
                    let k = rd.read(&mut buf)?;
                    if k == 0 {
                        break;
                    }
                    if buf[..k].iter().any(|x| *x != 0) {
                        return Err(Error::other("not zero"));
                    }
                    t += k as u64;
                }
                got.push((e.name.clone(), e.size, t));
                Ok(true)
            })
        })();
        if let Err(e) = r {
            fail!("big:read", "{e}");
        }
        ensure!(got == vec![("big".to_string(), n, n), ("small".to_string(), 7, 7)], "big:back", "read back {got:?}");
        Ok(())
    });
}
