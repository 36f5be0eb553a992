//! C08: AES-256 encrypted contents follow the 7-Zip scheme and decrypt exactly.
use crate::arch::*;
use crate::explore::Ch;
use crate::gen::*;
use crate::io::{Sink, Src};
use crate::ref7z;
use crate::refaes;
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::*;

fn passwords() -> Vec<Vec<u16>> {
    let mut v: Vec<Vec<u16>> = ["a", "pass", "p\u{e4}ss w\u{f6}rd", "\u{1F511}key", "0123456789abcdef0123456789abcdef", "\u{4e2d}\u{6587}"].iter().map(|s| s.encode_utf16().collect()).collect();
    v.push(std::iter::repeat("x1").take(100).collect::<String>().encode_utf16().collect());
    v.push(vec![0xD800, 0x41]); // not a valid string, but a password all the same
    v.push(vec![0]);
    v.push(vec![0x41, 0, 0x42]);
    v.push((0..70).map(|i| 0x100 + i).collect());
    v
}
fn bytes(p: &[u16]) -> Vec<u8> {
    p.iter().flat_map(|u| u.to_le_bytes()).collect()
}
fn arr(k: usize) -> [u8; 16] {
    let mut a = [0u8; 16];
    for (i, x) in a.iter_mut().enumerate() {
        *x = match k {
            0 => 0,
            1 => 0xFF,
            2 => i as u8 + 1,
            _ => (i as u8).wrapping_mul(0x3B) ^ 0xA7,
        };
    }
    a
}
struct Plan {
    pw: Vec<u16>,
    salt: usize,
    iv: usize,
    power: u8,
    comp: usize,
}
/// Writes with the library and returns the archive.
fn write(key: &str, p: &Plan, data: &[u8], src: impl std::io::Read, sink: Sink) -> Result<Vec<u8>, Fail> {
    let mut w = SevenZWriter::new(sink.clone()).map_err(|e| Fail::new(format!("{key}:new"), e.to_string()))?;
    let a = AesEncoderOptions { password: Password::from(&p.pw[..]), iv: arr(p.iv), salt: arr(p.salt), num_cycles_power: p.power };
    let mut m: Vec<SevenZMethodConfiguration> = vec![a.into()];
    match p.comp {
        1 => m.push(SevenZMethodConfiguration::new(SevenZMethod::LZMA2).with_options(opts(65536).into())),
        2 => m.push(SevenZMethodConfiguration::new(SevenZMethod::LZMA).with_options(opts(65536).into())),
        _ => {}
    }
    w.set_content_methods(m);
    w.set_encrypt_header(p.comp == 3);
    let mut e = SevenZArchiveEntry::new();
    e.name = "a".into();
    w.push_archive_entry(e, Some(src)).map_err(|e| Fail::new(format!("{key}:push"), format!("{} bytes: {e}", data.len())))?;
    w.finish().map_err(|e| Fail::new(format!("{key}:finish"), e.to_string()))?;
    Ok(sink.take())
}
/// Reads a one-file archive with the library and with the independent reader.
fn both(key: &str, ch: &Ch, file: &[u8], pw: &[u16], data: &[u8], portion: usize) -> R {
    ch.state(fnv(file));
    match ref7z::strict_read(file, Some(&bytes(pw))) {
        Ok(s) => {
            let got: Vec<u8> = s.entries.first().map(|e| e.data.clone()).unwrap_or_default();
            ensure!(got == data, format!("{key}:ref"), "{} bytes encrypted, an independent implementation reads {} different ones", data.len(), got.len());
        }
        Err(e) => fail!(format!("{key}:ref-error"), "an independent implementation refuses the archive: {e}"),
    }
    lib(key, file, pw, data, portion, usize::MAX)
}
fn lib(key: &str, file: &[u8], pw: &[u16], data: &[u8], portion: usize, max: usize) -> R {
    match read_back(Src::max(file, max), file.len() as u64, Password::from(pw), portion) {
        Ok((_, seen)) => {
            ensure!(seen.len() == 1 && seen[0].1 == data, format!("{key}:data"), "{} bytes encrypted, {} read back, different", data.len(), seen.first().map(|s| s.1.len()).unwrap_or(0));
            Ok(())
        }
        Err(e) => fail!(format!("{key}:error"), "{} bytes: {e}", data.len()),
    }
}
/// One-file archive encrypted by the independent implementation.
fn foreign(pw: &[u16], salt: &[u8], iv: &[u8], power: u8, props: Option<Vec<u8>>, inner: Option<C7>, data: &[u8]) -> Vec<u8> {
    let chain: Vec<C7> = [C7::Copy].into_iter().chain(inner).collect();
    let b = assemble(&Spec::files(vec![folder(&chain, vec![data.to_vec()])]));
    let mut h = b.header.clone();
    let st = h.streams.as_mut().unwrap();
    let enc = refaes::encrypt(&b.area, &bytes(pw), salt, iv, power);
    st.pack.as_mut().unwrap().sizes = Some(vec![enc.len() as u64]);
    let f = &mut st.unpack.as_mut().unwrap().folders[0];
    let last = f.coders.len() - 1;
    f.coders[last] = ref7z::Coder::simple(ref7z::AES, Some(props.unwrap_or_else(|| refaes::properties(salt, iv, power))));
    f.sizes[last] = b.area.len() as u64;
    ref7z::file(&enc, &ref7z::ser_header(&h, 0, false).out)
}

pub fn run(ctx: &Ctx) {
    refaes::selftest();
    let mut lens: Vec<usize> = (0..=80).collect();
    lens.extend([495, 496, 497, 511, 512, 513, 527, 528, 1023, 1024, 1025, 4080, 4095, 4096, 4097, 4111, 4112, 8192, 8193, 20000]);
    // written here, read here and there
    ctx.explore("written", |ch| {
        let len = *ch.pick(&lens);
        let pws = passwords();
        let v = ch.choose(ctx.b(6, 11));
        let (pw, salt, iv, power) = match v {
            0..=3 => (pws[v].clone(), v, 3 - v, v as u8),
            _ => (pws[v].clone(), v % 4, (v + 1) % 4, 2),
        };
        let comp = ch.choose(4);
        let portion = *ch.pick(&[65536usize, 1, 15, 16, 17]);
        let data = noise(len, 3);
        let p = Plan { pw, salt, iv, power, comp };
        ch.desc(|| format!("{len} bytes, password {:x?}, salt {salt} iv {iv} power {power} setting {comp}, reads of {portion}", p.pw));
        let f = write("w", &p, &data, &data[..], Sink::new())?;
        both("w", ch, &f, &p.pw, &data, portion)
    });
    // every option of the scheme
    ctx.explore("options", |ch| {
        let pws = passwords();
        let pw = ch.pick(&pws).clone();
        let (salt, iv) = (ch.choose(4), ch.choose(4));
        let power = *ch.pick(if ctx.quick() { &[0u8, 1, 2, 5, 8, 10] } else { &[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14] });
        let len = *ch.pick(&[1usize, 16, 33]);
        let p = Plan { pw, salt, iv, power, comp: 0 };
        let data = text(len);
        ch.desc(|| format!("{len} bytes, password {:x?}, salt {salt} iv {iv} power {power}", p.pw));
        let f = write("opt", &p, &data, &data[..], Sink::new())?;
        both("opt", ch, &f, &p.pw, &data, 4096)
    });
    // a password of text is its UTF-16 form, whatever the characters
    ctx.explore("characters", |ch| {
        let n = (ch.choose(0x1100) << 8) + ch.choose(0x100);
        let Some(c) = char::from_u32(n as u32) else { return Ok(()) };
        let (s, at) = match ch.choose(2) {
            0 => (c.to_string(), 0),
            _ => (format!("a{c}b"), 1),
        };
        let units: Vec<u16> = if n < 0x10000 { vec![n as u16] } else { vec![0xD800 + ((n - 0x10000) >> 10) as u16, 0xDC00 + ((n - 0x10000) & 0x3FF) as u16] };
        let want: Vec<u16> = if at == 0 { units } else { [&[0x61][..], &units, &[0x62]].concat() };
        ch.desc(|| format!("password {s:?}"));
        ensure!(Password::from(&s[..]).as_slice() == bytes(&want), "char:units", "the password {s:?} is taken as {:x?}", Password::from(&s[..]).as_slice());
        ensure!(Password::from(&want[..]).as_slice() == bytes(&want), "char:slice", "the password {want:x?} is taken as {:x?}", Password::from(&want[..]).as_slice());
        // (the rest follows from the units; some all the way)
        if n % 97 != 0 {
            return Ok(());
        }
        let data = text(20);
        let f = foreign(&want, &arr(3), &arr(2), 0, None, None, &data);
        match read_back(Src::new(&f), f.len() as u64, Password::from(&s[..]), 4096) {
            Ok((_, seen)) => ensure!(seen.len() == 1 && seen[0].1 == data, "char:data", "password {s:?}: different contents"),
            Err(e) => fail!("char:error", "password {s:?}: {e}"),
        }
        Ok(())
    });
    // key derivation with many rounds, and the mode without hashing
    ctx.explore("rounds", |ch| {
        let power = *ch.pick(if ctx.quick() { &[16u8, 18, 19, 0x3F] } else { &[15u8, 16, 17, 18, 19, 20, 21, 22, 0x3F] });
        let who = ch.choose(2);
        let data = text(100);
        let p = Plan { pw: passwords()[1].clone(), salt: 2, iv: 3, power, comp: 1 };
        ch.desc(|| format!("power {power} written by {}", if who == 0 { "the library" } else { "the other" }));
        if who == 0 {
            let f = write("rounds", &p, &data, &data[..], Sink::new())?;
            both("rounds", ch, &f, &p.pw, &data, 4096)
        } else {
            let f = foreign(&p.pw, &arr(2), &arr(3), power, None, Some(C7::Lzma2), &data);
            both("rounds:foreign", ch, &f, &p.pw, &data, 4096)
        }
    });
    // encrypted by another implementation: all sizes of salt and initialisation vector
    ctx.explore("foreign-properties", |ch| {
        let pws = passwords();
        let s = ch.choose(17);
        let i = ch.choose(17);
        let power = *ch.pick(&[0u8, 1, 4, 0x3F]);
        let pw = ch.pick(&pws).clone();
        let len = *ch.pick(&[1usize, 15, 16, 17, 40]);
        let data = text(len);
        ch.desc(|| format!("salt of {s}, iv of {i} bytes, power {power}, password {pw:x?}, {len} bytes"));
        let f = foreign(&pw, &arr(3)[..s], &arr(2)[..i], power, None, None, &data);
        both("foreign", ch, &f, &pw, &data, 4096)
    });
    // no properties at all: no salt, no vector, a single round
    ctx.explore("foreign-minimal", |ch| {
        let pw = passwords()[ch.choose(6)].clone();
        let data = text(40);
        let f = foreign(&pw, &[], &[], 0, Some(vec![0]), None, &data);
        both("minimal", ch, &f, &pw, &data, 4096)
    });
    // lengths, read sizes, arrival of the encrypted bytes
    ctx.explore("foreign-lengths", |ch| {
        let len = *ch.pick(&lens);
        let portion = *ch.pick(&[65536usize, 1, 2, 7, 15, 16, 17, 511, 512, 513]);
        let max = *ch.pick(&[usize::MAX, 1, 2, 3, 7, 15, 16, 17, 31, 33, 511, 513]);
        let inner = [None, Some(C7::Lzma2), Some(C7::Delta(2))][ch.choose(3)];
        let pw = passwords()[2].clone();
        let data = noise(len, 9);
        ch.desc(|| format!("{len} bytes through {inner:?}, reads of {portion}, source gives {max}"));
        let f = foreign(&pw, b"sa", &arr(3)[..8], 2, None, inner, &data);
        ch.state(fnv(&f));
        lib("lengths", &f, &pw, &data, portion, max)
    });
    // every short read of the source is possible
    ctx.explore_dev("arrival", Some(ctx.b(3, 4)), |ch| {
        let pw = passwords()[2].clone();
        let len = *ch.pick(&[33usize, 64, 530]);
        let data = noise(len, 9);
        let f = foreign(&pw, b"sa", &arr(3)[..8], 2, None, None, &data);
        let mut src = Src::new(&f);
        src.ch = Some(ch.clone());
        src.cuts = vec![1, 2, 3, 4, 5, 8, 11, 14, 15, 16, 17, 20, 31, 32, 33, 48, 511];
        src.window = (32, 32 + (len as u64 + 15) / 16 * 16);
        match read_back(src, f.len() as u64, Password::from(&pw[..]), 65536) {
            Ok((l, seen)) => {
                ch.state(hash_result(&l, &seen));
                ensure!(seen[0].1 == data, "arrival:data", "{len} bytes read back differently");
                Ok(())
            }
            Err(e) => fail!("arrival:error", "{e}"),
        }
    });
    // how the plain bytes reach the encryption: every split of the source's bytes
    ctx.explore("write-splits", |ch| {
        let len = ch.choose(ctx.b(50, 70)) + 1;
        let a = ch.choose(len);
        let b = a + ch.choose(len - a);
        let data = noise(len, 5);
        let p = Plan { pw: passwords()[1].clone(), salt: 2, iv: 3, power: 1, comp: 0 };
        ch.desc(|| format!("{len} bytes arriving up to {a}, {b}, end"));
        let src = Parts { d: &data, pos: 0, ends: [a, b, len] };
        let f = write("split", &p, &data, src, Sink::new())?;
        both("split", ch, &f, &p.pw, &data, 4096)
    });
    // several files one after the other through one writer, solid and not: state must not leak
    ctx.explore("sequence", |ch| {
        let lens = [0usize, 1, 15, 16, 17, 31, 32, 40];
        let n = ctx.b(3, 4);
        let es: Vec<Ent> = (0..n).map(|i| Ent::file(&format!("f{i}"), &noise(*ch.pick(&lens), i as u64))).collect();
        let solid = ch.flag();
        let groups: Vec<Vec<Ent>> = if solid { vec![es.clone()] } else { es.iter().map(|e| vec![e.clone()]).collect() };
        let f = build(Chain::Aes, ch.flag(), &groups);
        ch.desc(|| format!("{:?} bytes solid {solid}", es.iter().map(|e| e.len()).collect::<Vec<_>>()));
        ch.state(fnv(&f));
        match ref7z::strict_read(&f, Some(&refaes::utf16le(PW))) {
            Ok(s) => {
                for (e, x) in es.iter().zip(&s.entries) {
                    ensure!(e.bytes() == x.data, "seq:ref", "{}: an independent implementation reads other bytes", e.name);
                }
            }
            Err(e) => fail!("seq:ref-error", "{e}"),
        }
        match read_bytes(&f, true) {
            Ok((l, seen)) => compare("seq", &es, &l, &seen),
            Err(e) => fail!("seq:error", "{e}"),
        }
    });
    // the options generated by default are random but usable, and differ from each other
    ctx.explore("default-options", |ch| {
        let i = ch.choose(4);
        let pw = passwords()[i].clone();
        let a = AesEncoderOptions::new(Password::from(&pw[..]));
        let b = AesEncoderOptions::new(Password::from(&pw[..]));
        ensure!(a.iv != b.iv && a.salt != b.salt, "default:fresh", "two sets of options share salt or vector");
        let data = text(77);
        let s = Sink::new();
        let mut w = SevenZWriter::new(s.clone()).unwrap();
        w.set_content_methods(vec![a.into()]);
        let mut e = SevenZArchiveEntry::new();
        e.name = "x".into();
        if let Err(e) = w.push_archive_entry(e, Some(&data[..])) {
            fail!("default:push", "{e}");
        }
        if let Err(e) = w.finish() {
            fail!("default:finish", "{e}");
        }
        // (the file is different each time, so it is no state of its own)
        let f = s.take();
        match ref7z::strict_read(&f, Some(&bytes(&pw))) {
            Ok(s) => ensure!(s.entries.len() == 1 && s.entries[0].data == data, "default:ref", "an independent implementation reads other bytes"),
            Err(e) => fail!("default:ref-error", "{e}"),
        }
        lib("default", &f, &pw, &data, 50, usize::MAX)
    });
}
/// Source whose reads end at the given places.
struct Parts<'a> {
    d: &'a [u8],
    pos: usize,
    ends: [usize; 3],
}
impl std::io::Read for Parts<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let e = self.ends.iter().copied().find(|e| *e > self.pos).unwrap_or(self.d.len());
        let k = b.len().min(e - self.pos);
        b[..k].copy_from_slice(&self.d[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}
