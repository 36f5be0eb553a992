//! C22: an archive whose start header was left blank is recovered.
use super::c01::{alphabet, run_history, Op};
use super::c11::{cases, sigma, table_limit, visit};
use super::c21::{same_data, same_listing};
use crate::arch::*;
use crate::explore::Ch;
use crate::gen::*;
use crate::io::Src;
use crate::ref7z::*;
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::*;

fn blank(b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    b[8..32].fill(0);
    b
}
fn recovered(key: &str, ch: &Ch, bytes: &[u8], want: &[Got], data: &[(String, Vec<u8>)], enc: bool) -> R {
    match read_bytes(&blank(bytes), enc) {
        Ok((l, seen)) => {
            ch.state(hash_result(&l, &seen));
            same_listing(key, want, &l)?;
            same_data(key, data, &seen)
        }
        Err(e) => fail!(format!("{key}:error"), "not recovered: {e}"),
    }
}
fn built(key: &str, ch: &Ch, b: &Built) -> R {
    recovered(key, ch, &b.bytes, &b.want, &b.data, b.needs_password)
}
/// The archive an intact reader sees, as the reference for the blanked one.
fn as_intact(key: &str, ch: &Ch, bytes: &[u8], enc: bool) -> R {
    match read_bytes(bytes, enc) {
        Ok((l, seen)) => {
            let data: Vec<(String, Vec<u8>)> = seen.iter().map(|(g, d)| (g.name.clone(), d.clone())).collect();
            recovered(key, ch, bytes, &l, &data, enc)
        }
        Err(e) => fail!(format!("{key}:intact"), "the intact archive cannot be read: {e}"),
    }
}
fn one(data: Vec<u8>, name: &str) -> Spec {
    Spec { names: Some(vec!["first".into(), name.into()]), ..Spec::new(vec![folder(&[C7::Copy], vec![data])], vec![Slot::Stream, Slot::Dir]) }
}
/// Bytes as a name, if they form one.
fn as_name(b: &[u8]) -> Option<String> {
    if b.len() % 2 != 0 {
        return None;
    }
    let u: Vec<u16> = b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
    if u.contains(&0) {
        return None;
    }
    String::from_utf16(&u).ok()
}

pub fn run(ctx: &Ctx) {
    ctx.assume("the decoys of the contents-and-names harnesses are not laid out to be consistent with their own position in the file (a plain header carries no checksum, so nothing tells such a forgery from a header)");
    let al = alphabet();
    let depth = ctx.b(3, 4);
    ctx.explore("histories", |ch| {
        let n = ch.choose(depth + 1);
        let enc_header = ch.flag();
        let start = *ch.pick(&[Chain::Lzma2, Chain::AesLzma2]);
        let mut ops: Vec<Op> = vec![];
        for _ in 0..n {
            ops.push(ch.pick(&al).clone());
        }
        let (b, want, enc) = run_history(&ops, start, enc_header, "hist", false)?;
        ch.desc(|| format!("{n} operations, {} bytes", b.len()));
        match read_bytes(&blank(&b), enc) {
            Ok((l, s)) => {
                ch.state(hash_result(&l, &s));
                compare("hist", &want, &l, &s)
            }
            Err(e) => fail!("hist:error", "not recovered: {e}"),
        }
    });
    // larger archives: the header is far behind the start, or larger than usual
    ctx.explore("sizes", |ch| {
        let n = *ch.pick(&[0usize, 1, 100, 4096, 65_536, (1 << 20) - 200, 1 << 20, (1 << 20) + 40, 3 << 20]);
        let files = *ch.pick(&[1usize, 2, 300, 3000]);
        let c = *ch.pick(&[Chain::Lzma, Chain::Lzma2, Chain::AesLzma2]);
        let solid = ch.flag();
        let mut v = vec![Ent::file("large", &noise(n, 9))];
        for i in 1..files {
            v.push(Ent::file(&format!("file number {i}"), &[i as u8]));
        }
        let groups: Vec<Vec<Ent>> = if solid { vec![v] } else { v.into_iter().take(400).map(|e| vec![e]).collect() };
        let b = build(c, true, &groups);
        ch.desc(|| format!("{n} bytes and {files} entries, {c:?}"));
        as_intact("sizes", ch, &b, c.encrypted())
    });
    // headers of up to the mebibyte that is searched
    ctx.explore("large-headers", |ch| {
        let k = *ch.pick(&[1usize, 8, 32, 33, 64, 65, 66, 130, 131, 500, 1000]);
        let hdr = *ch.pick(&[Hdr::Plain, Hdr::Enc(&[C7::Copy]), Hdr::Enc(&[C7::Aes])]);
        let n = *ch.pick(&[0usize, 10, 70_000]);
        let names: Vec<String> = (0..k).map(|i| noise(500, i as u64 + 1).iter().map(|b| (b'a' + b % 26) as char).collect()).collect();
        let mut s = if n > 0 { Spec::files(vec![folder(&[C7::Copy], vec![noise(n, 5)])]) } else { Spec::files(vec![]) };
        let mut all: Vec<String> = s.slots.iter().map(|_| "data".to_string()).collect();
        s.slots.extend(names.iter().map(|_| Slot::Dir));
        all.extend(names);
        s.names = Some(all);
        s.hdr = hdr;
        let b = assemble(&s);
        ch.desc(|| format!("{k} names of 1000 bytes, {hdr:?}, {n} bytes of contents"));
        built("large-header", ch, &b)
    });
    // every kind of layout
    let chains: &[&[C7]] = &[&[C7::Copy], &[C7::Lzma], &[C7::Aes, C7::Lzma2]];
    ctx.explore_dev("layouts", Some(ctx.b(3, 4)), |ch| {
        let mut s = super::c21::structure(ch, ctx.b(3, 4), chains);
        s.gap = *ch.pick(&[0usize, 5]);
        s.hdr = *ch.pick(&super::c21::HDRS);
        s.hdr_fcrc = ch.flag();
        s.extra = ch.choose(2) as u8;
        s.masks = if ch.flag() { vec![15; 6] } else { vec![] };
        if s.folders.is_empty() && s.gap > 0 && s.hdr == Hdr::Plain {
            // no packed data: nothing says where the header is (the writer leaves no gaps)
            return Ok(());
        }
        let b = assemble(&s);
        ch.desc(|| format!("{s:?}"));
        built("layout", ch, &b)
    });
    let corpus = super::c09::readable();
    ctx.explore("codecs", |ch| {
        let (n, b) = ch.pick(&corpus);
        ch.desc(|| n.clone());
        built(&format!("codec:{n}"), ch, b)
    });
    // without the password the caller is told so
    ctx.explore("password", |ch| {
        let b = assemble(&Spec { hdr: Hdr::Enc(&[C7::Aes, C7::Lzma]), ..Spec::files(vec![folder(&[C7::Aes], vec![text(10)])]) });
        let f = blank(&b.bytes);
        let p = *ch.pick(&["", "x", "password1"]);
        ch.desc(|| format!("password {p:?}"));
        match SevenZReader::new(Src::new(&f), f.len() as u64, if p.is_empty() { Password::empty() } else { Password::from(p) }) {
            Ok(_) => fail!("password:opened", "opened with the password {p:?}"),
            Err(Error::PasswordRequired) => ensure!(p.is_empty(), "password:kind", "a password was given"),
            Err(Error::MaybeBadPassword(_)) => ensure!(!p.is_empty(), "password:kind", "no password was given"),
            Err(e) => fail!("password:error", "with the password {p:?}: {e}"),
        }
        Ok(())
    });
    // bytes that look like the start of a header: in names
    let bs: Vec<u8> = if ctx.quick() { vec![0, 1, 4, 5, 6, 0x17] } else { vec![0, 1, 2, 4, 5, 6, 7, 0x0E, 0x0F, 0x11, 0x17, 0x19] };
    ctx.explore("decoys-in-names", |ch| {
        let n = 2 * (1 + ch.choose(2));
        let mut v = vec![];
        let odd = ch.flag();
        if odd {
            v.push(b'a');
        }
        for _ in 0..n {
            v.push(*ch.pick(&bs));
        }
        if odd {
            v.push(b'a');
        }
        let name = match as_name(&v) {
            Some(n) => n,
            None => return Ok(()),
        };
        let layout = ch.choose(3);
        let s = match layout {
            0 => one(text(9), &name),
            1 => Spec { names_last: true, masks: vec![12, 12], ..one(text(9), &name) },
            _ => Spec { names: Some(vec![name.clone()]), ..Spec::new(vec![], vec![Slot::Dir]) },
        };
        ch.desc(|| format!("{v:x?} layout {layout}"));
        built("name", ch, &assemble(&s))
    });
    // in contents stored as they are, and in every fixed-size field of the header
    ctx.explore("decoys-in-contents", |ch| {
        let n = 2 + ch.choose(ctx.b(4, 5));
        let mut v = vec![*ch.pick(&[1u8, 0x17])];
        for _ in 1..n {
            v.push(*ch.pick(&bs));
        }
        let at_end = ch.flag();
        let d = if at_end { [&b"data "[..], &v].concat() } else { [&v[..], b" data"].concat() };
        ch.desc(|| format!("{v:x?}"));
        built("content", ch, &assemble(&one(d, "dir")))
    });
    ctx.explore("decoys-in-fields", |ch| {
        let n = 8;
        let mut v = vec![0u8; n];
        let at = ch.choose(n - 3);
        let k = 1 + ch.choose(ctx.b(3, 4));
        v[at] = *ch.pick(&[1u8, 0x17]);
        for i in 1..k {
            v[at + i] = *ch.pick(&bs);
        }
        let s = Spec { masks: vec![15, 15], ..one(text(7), "dir") };
        let mut b = assemble(&s);
        let mut h = b.header.clone();
        let t = u64::from_le_bytes(v[..].try_into().unwrap());
        let which = ch.choose(4);
        for p in &mut h.files.as_mut().unwrap().props {
            match p {
                Prop::Time(id, x) if *id == 18 + which as u8 => x[1] = Some(t),
                Prop::Attr(x) if which == 3 => x[1] = Some(t as u32),
                _ => {}
            }
        }
        match which {
            0 => b.want[1].ctime = Some(t),
            1 => b.want[1].atime = Some(t),
            2 => b.want[1].mtime = Some(t),
            _ => b.want[1].attr = Some(t as u32),
        }
        b.bytes = file(&b.area, &ser_header(&h, 0, false).out);
        ch.desc(|| format!("{v:x?} in field {which}"));
        built("field", ch, &b)
    });
    // whole headers of other archives, in contents and names
    let inner = cases();
    ctx.explore("whole-decoys", |ch| {
        let c = ch.pick(&inner);
        let cut = ch.choose(3);
        let mut d = match cut {
            0 => c.ser.out.clone(),
            1 => blank(&file(&c.area, &c.ser.out)),
            _ => file(&c.area, &c.ser.out),
        };
        let place = ch.choose(5);
        let pad = ch.choose(ctx.b(8, 40));
        d = [&vec![b'.'; pad][..], &d].concat();
        let s = match place {
            0 => one(d.clone(), "dir"),
            1 => Spec::files(vec![folder(&[C7::Copy], vec![text(20), d.clone()])]),
            2 => Spec::files(vec![folder(&[C7::Copy], vec![d.clone()]), folder(&[C7::Lzma], vec![text(30)])]),
            3 => Spec { hdr: Hdr::Enc(&[C7::Copy]), ..one(d.clone(), "dir") },
            // as an unknown property of the header
            _ => one(text(9), "dir"),
        };
        let mut b = assemble(&s);
        if place == 4 {
            let mut h = b.header.clone();
            h.files.as_mut().unwrap().props.push(Prop::Raw(25, d.clone()));
            b.bytes = file(&b.area, &ser_header(&h, 0, false).out);
        }
        ch.desc(|| format!("{} form {cut} place {place} after {pad}", c.name));
        built("whole", ch, &b)
    });
    // what is left after a blank start header is anything: archive or error
    let hurt = |ch: &Ch, f: &[u8], limit: usize| -> R {
        let r = with_mem_limit(limit, limit, || SevenZReader::new(Src::new(f), f.len() as u64, Password::empty()));
        visit(ch, f, r)
    };
    ctx.explore("cut", |ch| {
        let (n, b) = ch.pick(&corpus);
        let f = blank(&b.bytes);
        let len = 32 + ch.choose(f.len() - 32);
        ch.desc(|| format!("{n} cut to {len}"));
        // a header that is not whole is not taken for one
        match read_bytes(&f[..len], b.needs_password) {
            Ok((l, seen)) => {
                same_listing(&format!("cut:{n}"), &b.want, &l)?;
                same_data(&format!("cut:{n}"), &b.data, &seen)
            }
            Err(_) => Ok(()),
        }
    });
    ctx.explore("bytes", |ch| {
        let c = ch.pick(&inner);
        let mut f = blank(&file(&c.area, &c.ser.out));
        let at = 32 + ch.choose(f.len() - 32);
        f[at] = ch.choose(256) as u8;
        ch.desc(|| format!("{} byte {at} := {:#x}", c.name, f[at]));
        hurt(ch, &f, if c.dict { 12 << 30 } else { table_limit(f.len()) })
    });
    let sig = sigma();
    ctx.explore("short-tails", |ch| {
        let mut f = b"7z\xBC\xAF\x27\x1C\x00\x04".to_vec();
        f.resize(32, 0);
        f.resize(32 + ch.choose(3), 0x11);
        for _ in 0..ctx.b(4, 5) {
            if ch.flag() {
                break;
            }
            f.push(*ch.pick(&sig));
        }
        ch.desc(|| format!("{:x?}", &f[32..]));
        hurt(ch, &f, 6 << 30)
    });
    ctx.explore("stub", |ch| {
        let b = blank(&assemble(&Spec::files(vec![folder(&[C7::Copy], vec![text(3)])])).bytes);
        let n = ch.choose(b.len() + 1);
        let len = *ch.pick(&[n as u64, 0, 1, 11, 12, 13, 31, 32, 33, 1 << 20, (1 << 20) + 12, u64::MAX, 1 << 63, n as u64 + 1, (n as u64).saturating_sub(1)]);
        ch.desc(|| format!("{n} bytes, said to be {len}"));
        let f = &b[..n];
        let r = with_mem_limit(4 << 20, 4 << 20, || SevenZReader::new(Src::new(f), len, Password::empty()));
        visit(ch, f, r)
    });
    // a megabyte of what keeps a parser busy
    ctx.explore("busy", |ch| {
        let pats: [&[u8]; 10] = [
            &[1],
            &[0x17],
            &[1, 2],
            &[1, 4, 6, 0, 0xF0, 0xFF, 0xFF, 0xFF, 0x7F, 9],
            &[0x17, 6, 0, 0xF0, 0xFF, 0xFF, 0xFF, 0x7F, 9],
            &[1, 5, 0xE0, 0xFF, 0xFF, 0x0F, 0x0E, 1],
            &[1, 4, 7, 11, 0xE0, 0xFF, 0xFF, 0x0F, 0],
            &[0x17, 7, 11, 0xE0, 0xFF, 0xFF, 0x0F, 0, 1, 1, 0],
            &[1, 2, 0, 4, 0, 5],
            &[1, 5, 1, 0x19, 0],
        ];
        let p = *ch.pick(&pats);
        let n = *ch.pick(&[1000usize, 1 << 20, 3 << 20]);
        let shift = ch.choose(3);
        let mut f = b"7z\xBC\xAF\x27\x1C\x00\x04".to_vec();
        f.resize(32 + shift, 0);
        while f.len() < n {
            f.extend_from_slice(p);
        }
        ch.desc(|| format!("{n} bytes of {p:x?}"));
        hurt(ch, &f, table_limit(f.len().min(1 << 20)))
    });
}
