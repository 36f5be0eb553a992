//! C10: every damage of every byte of an archive corpus ends in an error or in the original.
use super::c11::cases;
use crate::arch::*;
use crate::explore::Ch;
use crate::gen::*;
use crate::io::{read_portions, Src};
use crate::ref7z::file;
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::*;
use std::io::Read;

pub struct Sample {
    pub name: String,
    pub bytes: Vec<u8>,
    pub enc: bool,
    pub list: Vec<Got>,
    /// contents by position in the visiting order
    pub seen: Vec<(Got, Vec<u8>)>,
    /// every block has a checksum of the whole: damage shows at the latest where the block ends
    pub whole: bool,
}
/// None if the archive does not read undamaged, which is not the subject here.
pub fn sample(name: &str, bytes: Vec<u8>, enc: bool) -> Option<Sample> {
    let (list, seen) = read_bytes(&bytes, enc).ok()?;
    Some(Sample { name: name.into(), bytes, enc, list, seen, whole: false })
}
/// Whether what is read of `e` can be judged: damage is not detectable in contents without a checksum.
fn judged(e: &Got) -> bool {
    e.crc.is_some() || e.size == 0
}
pub fn corpus() -> Vec<Sample> {
    let mut v = vec![];
    let t = |n: usize| text(n);
    let layout = |k: usize| -> Vec<Vec<Ent>> {
        match k {
            0 => vec![vec![Ent::file("hello.txt", &t(40))]],
            1 => vec![vec![Ent::file("a", &t(30)), Ent::file("b", b""), Ent::file("c", &noise(25, 3))], vec![Ent::dir("d")], vec![Ent { mtime: Some(132_000_000_000_000_000), attr: Some(0x20), ..Ent::file("e", &t(12)) }]],
            _ => vec![vec![Ent::file("one", &noise(20, 1))], vec![Ent::none("empty")], vec![Ent::file("two", &t(70))]],
        }
    };
    for c in [Chain::Lzma2, Chain::Lzma, Chain::Aes, Chain::AesLzma2, Chain::AesLzmaLzma2, Chain::Lzma2Aes] {
        for k in 0..3 {
            v.extend(sample(&format!("{c:?}-{k}"), build(c, true, &layout(k)), c.encrypted()));
            if c == Chain::AesLzma2 {
                v.extend(sample(&format!("{c:?}-{k}-open-names"), build(c, false, &layout(k)), true));
            }
        }
    }
    // a header that is worth compressing
    for c in [Chain::Lzma2, Chain::AesLzma2] {
        let many: Vec<Vec<Ent>> = (0..12).map(|i| vec![Ent { mtime: Some(132_000_000_000_000_000 + i), ..Ent::file(&format!("some/directory/file{i}.txt"), &t(5 + i as usize)) }]).collect();
        v.extend(sample(&format!("{c:?}-many"), build(c, true, &many), c.encrypted()));
    }
    for c in cases() {
        if c.name != "gap" {
            v.extend(sample(&format!("foreign-{}", c.name), file(&c.area, &c.ser.out), true));
        }
    }
    for (n, chain) in [
        ("delta", vec![C7::Copy, C7::Delta(3)]),
        ("x86", vec![C7::Copy, C7::X86]),
        ("ppc", vec![C7::Lzma, C7::Ppc]),
        ("arm", vec![C7::Lzma2, C7::Arm]),
        ("armt", vec![C7::Copy, C7::Armt]),
        ("sparc", vec![C7::Copy, C7::Sparc]),
        ("zstd", vec![C7::Zstd]),
        ("bzip2", vec![C7::Bzip2]),
        ("aes-copy", vec![C7::Aes, C7::Copy]),
        ("aes-bzip2", vec![C7::Aes, C7::Bzip2]),
    ] {
        let f = FolderSpec { fcrc: true, pcrc: true, ..folder(&chain, vec![t(30), noise(17, 5), t(1)]) };
        let b = assemble(&Spec::files(vec![f, folder(&[C7::Copy], vec![t(6)])]));
        v.extend(sample(&format!("chain-{n}"), b.bytes, true));
    }
    // contents whose checksum is zero, with each way of giving it
    for (n, fcrc, files) in [("block", true, vec![crc0(b"")]), ("single", false, vec![crc0(b"one")]), ("first", false, vec![crc0(b"a"), t(9)]), ("last", false, vec![t(8), crc0(b"zz")]), ("whole", true, vec![t(8), crc0(&t(8)), crc0(b"")])] {
        for chain in [C7::Copy, C7::Lzma] {
            let f = FolderSpec { fcrc, ..folder(&[chain], files.clone()) };
            let b = assemble(&Spec::files(vec![f]));
            v.extend(sample(&format!("zero-{n}-{chain:?}"), b.bytes, false));
        }
    }
    for c in [Chain::Lzma2, Chain::Aes] {
        v.extend(sample(&format!("{c:?}-zero"), build(c, true, &[vec![Ent::file("a", &crc0(b"first")), Ent::file("b", &t(5))], vec![Ent::file("c", &crc0(b""))]]), c.encrypted()));
    }
    // files without checksums of their own in blocks with a checksum of the whole
    for (k, chain) in [vec![C7::Copy], vec![C7::Lzma], vec![C7::Lzma2, C7::X86], vec![C7::Aes, C7::Copy], vec![C7::Bzip2]].into_iter().enumerate() {
        for last in [t(9), vec![]] {
            let f = FolderSpec { fcrc: true, scrc: false, ..folder(&chain, vec![t(11), noise(7, 5), last.clone()]) };
            let b = assemble(&Spec::files(vec![f.clone(), f]));
            v.extend(sample(&format!("whole-{k}-{}", last.len()), b.bytes, true).map(|s| Sample { whole: true, ..s }));
        }
    }
    {
        let f = FolderSpec { fcrc: true, scrc: false, ..bcj2_block(plain_spec(), 1, vec![crate::props::c07::branches(30), t(5)]) };
        let b = assemble(&Spec::files(vec![f]));
        v.extend(sample("whole-bcj2", b.bytes, false).map(|s| Sample { whole: true, ..s }));
    }
    // several packed streams, and a block behind them
    {
        let mut sp = plain_spec();
        sp.subs = [vec![C7::Lzma], vec![], vec![], vec![]];
        let b = assemble(&Spec::files(vec![bcj2_block(sp, 1, vec![crate::props::c07::branches(30), t(5)]), folder(&[C7::Copy], vec![t(6)])]));
        v.extend(sample("bcj2-then-copy", b.bytes, false));
    }
    v
}
/// Opens damaged bytes and reads everything; an entry that fails does not end the visit.
pub fn look(key: &str, ch: &Ch, s: &Sample, bytes: &[u8], portion: usize) -> R {
    let pw = password(s.enc);
    let mut r = match SevenZReader::new(Src::new(bytes), bytes.len() as u64, pw) {
        Ok(r) => r,
        Err(e) => {
            ch.state(fnv(format!("{e:?}").as_bytes()));
            return Ok(());
        }
    };
    let list: Vec<Got> = r.archive().files.iter().map(got).collect();
    ensure!(list == s.list, format!("{key}:listing"), "{}: a listing that is not the original one is presented: {:?}", s.name, list.iter().map(|g| (&g.name, g.size)).collect::<Vec<_>>());
    for keep_going in [false, true] {
        let mut seen: Vec<(Got, Option<Vec<u8>>)> = vec![];
        let res = r.for_each_entries(|e, rd| {
            let d = if e.size > 1 << 20 { Ok(vec![]) } else { read_portions(rd, portion, e.size as usize + 64) };
            match d {
                Ok(d) => {
                    seen.push((got(e), Some(d)));
                    Ok(true)
                }
                Err(x) => {
                    seen.push((got(e), None));
                    if keep_going {
                        Ok(true)
                    } else {
                        Err(x.into())
                    }
                }
            }
        });
        let mut rest: Vec<&(Got, Vec<u8>)> = s.seen.iter().collect();
        for (g, d) in &seen {
            let Some(i) = rest.iter().position(|x| x.0 == *g) else {
                fail!(format!("{key}:entry"), "{}: entry {:?} is visited, which the original does not have (again)", s.name, g.name)
            };
            let want = rest.remove(i);
            if let Some(d) = d {
                ensure!(!judged(g) || *d == want.1, format!("{key}:contents"), "{}: {:?} is presented with {} bytes that are not its {} original ones", s.name, g.name, d.len(), want.1.len());
            }
        }
        if s.whole && res.is_ok() && seen.iter().all(|x| x.1.is_some()) {
            for (g, d) in &seen {
                ensure!(s.seen.iter().any(|x| x.0 == *g && Some(&x.1) == d.as_ref()), format!("{key}:whole"), "{}: everything is read without an error, {:?} with bytes that are not its original ones", s.name, g.name);
            }
        }
        ensure!(res.is_err() || rest.is_empty(), format!("{key}:missing"), "{}: the visit ends well without {:?}", s.name, rest.iter().map(|x| &x.0.name).collect::<Vec<_>>());
        ch.state(fnv(format!("{:?}{}", seen.iter().map(|x| (&x.0.name, x.1.is_some())).collect::<Vec<_>>(), res.is_ok()).as_bytes()));
    }
    Ok(())
}
/// Reads one entry through the block interface.
fn blocks(key: &str, s: &Sample, bytes: &[u8]) -> R {
    let mut src = Src::new(bytes);
    let pw = password(s.enc);
    let Ok(a) = Archive::read(&mut src, bytes.len() as u64, pw.as_slice()) else { return Ok(()) };
    for k in 0..a.folders.len() {
        let d = BlockDecoder::new(k, &a, pw.as_slice(), &mut src);
        let mut bad = None;
        let _ = d.for_each_entries(&mut |e, rd| {
            let mut d = vec![];
            if rd.take(e.size + 64).read_to_end(&mut d).is_ok() {
                let g = got(e);
                if judged(&g) && !s.seen.iter().any(|x| x.0 == g && x.1 == d) {
                    bad = Some(g.name);
                }
            }
            Ok(true)
        });
        ensure!(bad.is_none(), format!("{key}:block"), "{}: {:?} of block {k} is presented with altered contents", s.name, bad);
    }
    Ok(())
}
pub fn run(ctx: &Ctx) {
    let q = ctx.quick();
    let cp = corpus();
    ctx.note("archives", cp.len());
    ctx.note("bytes", cp.iter().map(|s| s.bytes.len()).sum::<usize>());
    ctx.explore("intact", |ch| {
        let s = ch.pick(&cp);
        ch.desc(|| s.name.clone());
        look("intact", ch, s, &s.bytes, 1 << 16)?;
        blocks("intact", s, &s.bytes)
    });
    // every byte: every flipped bit, some substitutions (all of them when thorough)
    let quick = ctx.quick();
    ctx.explore("bytes", |ch| {
        let s = ch.pick(&cp);
        let at = ch.choose(s.bytes.len());
        let x = if quick { *ch.pick(&[1u8, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x55, 0]) } else { ch.choose(256) as u8 };
        let mut b = s.bytes.clone();
        b[at] = if x == 0 { 0 } else { b[at] ^ x };
        ch.desc(|| format!("{} byte {at} becomes {:#04x}", s.name, b[at]));
        look("bytes", ch, s, &b, 1 << 16)
    });
    // checksums of special values protect like others
    ctx.explore("special-checksums", |ch| {
        let (b, text) = super::c21::special_checksums(ch, false);
        let Some(s) = sample(&text, b.bytes, false) else { fail!("special:intact", "{text}: not readable") };
        let i = ch.choose(s.bytes.len());
        let x = if q { *ch.pick(&[1u8, 0x80]) } else { 1 << ch.choose(8) };
        let mut bad = s.bytes.clone();
        bad[i] ^= x;
        ch.desc(|| format!("{text}: byte {i} xored with {x:#x}"));
        look("special", ch, &s, &bad, 1 << 16)
    });
    ctx.explore("bytes-read-otherwise", |ch| {
        let s = ch.pick(&cp);
        let at = ch.choose(s.bytes.len());
        let x = *ch.pick(&[1u8, 0x80]);
        let how = ch.choose(3);
        let mut b = s.bytes.clone();
        b[at] ^= x;
        ch.desc(|| format!("{} byte {at} becomes {:#04x}, read mode {how}", s.name, b[at]));
        match how {
            0 => look("bytes", ch, s, &b, 1),
            1 => look("bytes", ch, s, &b, 7),
            _ => blocks("bytes", s, &b),
        }
    });
    ctx.explore("cut", |ch| {
        let s = ch.pick(&cp);
        let n = ch.choose(s.bytes.len());
        let front = ch.choose(3);
        let b = match front {
            0 => s.bytes[..n].to_vec(),
            1 => s.bytes[n + 1..].to_vec(),
            // a hole: the file is shortened in the middle
            _ => {
                let mut b = s.bytes.clone();
                b.remove(n);
                b
            }
        };
        ch.desc(|| format!("{} cut at {n} mode {front}", s.name));
        look("cut", ch, s, &b, 1 << 16)
    });
    // runs of bytes overwritten, e.g. a lost block
    ctx.explore("runs", |ch| {
        let s = ch.pick(&cp);
        let n = s.bytes.len();
        let at = ch.choose(n);
        let lens: &[usize] = if quick { &[2, 4, 8, 20, 24, 64] } else { &[2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 28, 32, 48, 64, 128, 512] };
        let len = *ch.pick(lens);
        let fill = ch.choose(3);
        let mut b = s.bytes.clone();
        for (i, x) in b[at..n.min(at + len)].iter_mut().enumerate() {
            *x = match fill {
                0 => 0,
                1 => 0xff,
                _ => *x ^ (17 * i + 1) as u8,
            };
        }
        ch.desc(|| format!("{} bytes {at}+{len} fill {fill}", s.name));
        look("runs", ch, s, &b, 1 << 16)
    });
    // two bytes: swapped neighbours at every distance, double flips near each other
    ctx.explore("pairs", |ch| {
        let s = ch.pick(&cp);
        let n = s.bytes.len();
        let at = ch.choose(n);
        let d = 1 + ch.choose(ctx.b(16, 64));
        if at + d >= n {
            return Ok(());
        }
        let mut b = s.bytes.clone();
        match ch.choose(3) {
            0 => b.swap(at, at + d),
            1 => {
                b[at] ^= 1;
                b[at + d] ^= 1;
            }
            _ => {
                b[at] = b[at].wrapping_add(1);
                b[at + d] = b[at + d].wrapping_sub(1);
            }
        }
        if b == s.bytes {
            return Ok(());
        }
        ch.desc(|| format!("{} bytes {at} and {}", s.name, at + d));
        look("pairs", ch, s, &b, 1 << 16)
    });
    // parts of one archive in another of the same shape, as after mixed up blocks
    ctx.explore("splices", |ch| {
        let i = ch.choose(cp.len());
        let s = &cp[i];
        let o = &cp[(i + 1 + ch.choose(2)) % cp.len()];
        let unit = *ch.pick(&[16usize, 32, 64]);
        let n = s.bytes.len().div_ceil(unit);
        let k = ch.choose(n);
        let to_end = ch.flag();
        let lo = k * unit;
        let hi = if to_end { s.bytes.len() } else { s.bytes.len().min(lo + unit) };
        let mut b = s.bytes.clone();
        for x in lo..hi {
            b[x] = o.bytes.get(x).copied().unwrap_or(0);
        }
        if b[..32] == o.bytes[..32] && lo == 0 {
            return Ok(());
        }
        ch.desc(|| format!("{} bytes {lo}..{hi} come from {}", s.name, o.name));
        look("splices", ch, s, &b, 1 << 16)
    });
    // larger ones: damage reaches contents beyond the buffers of the decoders
    let large: Vec<Sample> = [
        sample("large-lzma2", build(Chain::Lzma2, true, &[vec![Ent::file("n", &noise(70_000, 8)), Ent::file("t", &text(9000))]]), false),
        sample("large-aes", build(Chain::Aes, true, &[vec![Ent::file("n", &noise(9_000, 8))], vec![Ent::file("t", &text(5000))]]), true),
        sample("large-x86", assemble(&Spec::files(vec![folder(&[C7::Copy, C7::X86], vec![noise(9000, 2), text(100)])])).bytes, false),
    ]
    .into_iter()
    .flatten()
    .collect();
    ctx.explore("large", |ch| {
        let s = ch.pick(&large);
        let step = ctx.b(97, 7);
        let at = ch.choose(s.bytes.len() / step) * step;
        let cut = ch.flag();
        let mut b = s.bytes.clone();
        if cut {
            // zero from here to the end of the block, as after a lost write
            let end = ((at / 4096 + 1) * 4096).min(b.len());
            b[at..end].fill(0);
        } else {
            b[at] ^= 0x10;
        }
        ch.desc(|| format!("{} byte {at} run {cut}", s.name));
        look("large", ch, s, &b, 1 << 16)
    });
}
