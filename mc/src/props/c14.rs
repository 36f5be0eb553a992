//! C14: what an encrypted header keeps out of the file.
use crate::arch::*;
use crate::explore::Ch;
use crate::io::{Sink, Src};
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::*;

#[derive(Clone, Debug)]
enum Op {
    Push(Ent),
    Solid(Vec<Ent>),
    Methods(Chain),
    Header(bool),
}
/// Any piece of four characters of the name, as UTF-16 of either byte order or as UTF-8.
fn pieces(name: &str) -> Vec<Vec<u8>> {
    let c: Vec<char> = name.chars().collect();
    let mut v = vec![];
    for w in c.windows(4.min(c.len().max(1))) {
        let s: String = w.iter().collect();
        if s.chars().count() < 4 {
            continue;
        }
        v.push(s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect::<Vec<u8>>());
        v.push(s.encode_utf16().flat_map(|u| u.to_be_bytes()).collect::<Vec<u8>>());
        if s.len() >= 6 {
            v.push(s.into_bytes());
        }
    }
    // what is short in UTF-8 only counts as a whole
    if name.len() >= 6 {
        v.push(name.as_bytes().to_vec());
    }
    v
}
fn contains(hay: &[u8], needle: &[u8]) -> bool {
    let f = needle[0];
    let n = needle.len();
    if hay.len() < n {
        return false;
    }
    hay[..=hay.len() - n].iter().enumerate().any(|(i, b)| *b == f && hay[i..i + n] == *needle)
}
struct Done {
    bytes: Vec<u8>,
    want: Vec<Ent>,
    /// any contents were encrypted
    enc: bool,
    header: bool,
}
fn write(key: &str, start: Chain, header: bool, ops: &[Op]) -> R<Done> {
    let s = Sink::new();
    let mut w = match writer(s.clone(), start, header) {
        Ok(w) => w,
        Err(e) => fail!(format!("{key}:new"), "{e}"),
    };
    let mut want = vec![];
    let mut now = start;
    let mut enc = false;
    let mut header = header;
    for op in ops {
        let r = match op {
            Op::Push(e) => {
                want.push(e.clone());
                enc |= now.encrypted() && !e.dir && e.data.is_some();
                push(&mut w, e).map(|_| ())
            }
            Op::Solid(es) => {
                want.extend(es.iter().cloned());
                enc |= now.encrypted();
                push_solid(&mut w, es)
            }
            Op::Methods(c) => {
                now = *c;
                w.set_content_methods(c.methods());
                Ok(())
            }
            Op::Header(h) => {
                header = *h;
                w.set_encrypt_header(*h);
                Ok(())
            }
        };
        if let Err(e) = r {
            fail!(format!("{key}:add"), "{op:?}: {e}");
        }
    }
    enc |= now.encrypted();
    if let Err(e) = w.finish() {
        fail!(format!("{key}:finish"), "{e}");
    }
    Ok(Done { bytes: s.take(), want, enc, header })
}
fn times(e: &Ent) -> Vec<Vec<u8>> {
    [e.ctime, e.atime, e.mtime].iter().flatten().map(|t| t.to_le_bytes().to_vec()).collect()
}
fn judge(key: &str, ch: &Ch, d: &Done) -> R {
    let b = &d.bytes;
    let len = b.len() as u64;
    // the right password gives back everything
    match read_back(Src::new(b), len, Password::from(PW), 4096) {
        Ok((l, s)) => {
            ch.state(hash_result(&l, &s));
            compare(&format!("{key}:right"), &d.want, &l, &s)?;
        }
        Err(e) => fail!(format!("{key}:right:error"), "with the right password: {e}"),
    }
    if !d.enc {
        return Ok(());
    }
    let open = |p: Password| SevenZReader::new(Src::new(b), len, p);
    if d.header {
        for e in &d.want {
            for p in pieces(&e.name) {
                ensure!(!contains(b, &p), format!("{key}:name"), "part of the name {:?} is in the file: {p:02x?}", e.name);
            }
            for p in times(e) {
                ensure!(!contains(b, &p), format!("{key}:time"), "a time of {:?} is in the file: {p:02x?}", e.name);
            }
        }
        for p in [Password::empty(), Password::from("wrong"), Password::from(&PW[..PW.len() - 1]), Password::from(&format!("{PW}x")[..])] {
            let none = p.is_empty();
            match open(p) {
                Ok(r) => fail!(format!("{key}:opened"), "the listing opens without the password: {:?}", r.archive().files.iter().map(|f| &f.name).collect::<Vec<_>>()),
                Err(e) => ensure!(matches!(e, Error::PasswordRequired) == none, format!("{key}:kind"), "reported as {e:?}"),
            }
        }
        let mut src = Src::new(b);
        ensure!(Archive::read(&mut src, len, &[]).is_err(), format!("{key}:listed"), "the listing is read without a password");
    } else {
        // the listing is open, the contents are not
        let mut r = match open(Password::empty()) {
            Ok(r) => r,
            Err(e) => fail!(format!("{key}:closed"), "header encryption is off, but the listing does not open without the password: {e}"),
        };
        let names: Vec<String> = r.archive().files.iter().map(|f| f.name.clone()).collect();
        ensure!(names == d.want.iter().map(|e| e.name.clone()).collect::<Vec<_>>(), format!("{key}:open-names"), "listed without the password: {names:?}");
        let _ = &mut r;
    }
    Ok(())
}
/// Contents need the password, whatever the header does.
fn contents_closed(key: &str, d: &Done, secret: &[&str]) -> R {
    let Ok(mut r) = SevenZReader::new(Src::new(&d.bytes), d.bytes.len() as u64, Password::empty()) else { return Ok(()) };
    let mut bad = None;
    let res = r.for_each_entries(|e, rd| {
        let mut v = vec![];
        let ok = rd.read_to_end(&mut v).is_ok();
        if !v.is_empty() && secret.contains(&&e.name[..]) {
            bad = Some((e.name.clone(), ok));
        }
        Ok(true)
    });
    if let Some((n, ok)) = bad {
        fail!(format!("{key}:contents"), "contents of {n:?} are read without the password (ended well: {ok})");
    }
    let any = d.want.iter().any(|e| secret.contains(&&e.name[..]) && e.len() > 0);
    ensure!(!any || matches!(res, Err(Error::PasswordRequired)), format!("{key}:contents-kind"), "reading encrypted contents without a password gives {res:?}");
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let q = ctx.quick();
    let t = 0x01D5_3F4B_6E2A_1234u64;
    let names = ["secret name of a file.txt", "\u{79D8}\u{5BC6}\u{6587}\u{4EF6}.txt", "directory/with/a/path/to.it", "aaaaaaaaaaaaaaaa", "\u{1F511}\u{1F512}\u{1F513}\u{1F50F}"];
    let al: Vec<Op> = vec![
        Op::Push(Ent::file(names[0], b"contents of a file")),
        Op::Push(Ent { mtime: Some(t), ctime: Some(t + 7777), ..Ent::file(names[1], &text(200)) }),
        Op::Push(Ent::none(names[2])),
        Op::Push(Ent::dir("directory name")),
        Op::Solid(vec![Ent::file(names[3], &noise(30, 2)), Ent::file("second of the group", b""), Ent { atime: Some(t + 99999), ..Ent::file(names[4], b"x") }]),
        Op::Methods(Chain::Lzma2),
        Op::Methods(Chain::AesLzma2),
        Op::Methods(Chain::Aes),
        Op::Header(false),
        Op::Header(true),
    ];
    let depth = ctx.b(3, 4);
    ctx.explore("histories", |ch| {
        let start = *ch.pick(&[Chain::AesLzma2, Chain::Aes, Chain::Lzma2]);
        let header = ch.flag();
        let n = ch.choose(depth + 1);
        let mut ops = vec![];
        for i in 0..n {
            let mut op = ch.pick(&al).clone();
            match &mut op {
                Op::Push(e) => e.name = format!("{}{i}", e.name),
                Op::Solid(v) => v.iter_mut().for_each(|e| e.name = format!("{}{i}", e.name)),
                _ => {}
            }
            ops.push(op);
        }
        ch.desc(|| format!("{start:?} header {header} {ops:?}"));
        let d = write("hist", start, header, &ops)?;
        judge("hist", ch, &d)?;
        // which entries were encrypted?
        let mut now = start;
        let mut secret: Vec<&str> = vec![];
        for op in &ops {
            match op {
                Op::Methods(c) => now = *c,
                Op::Push(e) if now.encrypted() => secret.push(&e.name),
                Op::Solid(v) if now.encrypted() => secret.extend(v.iter().map(|e| &e.name[..])),
                _ => {}
            }
        }
        // a visit ends at the first block that cannot be read, so plain ones may come before
        contents_closed("hist", &d, &secret)
    });
    // number and length of names: headers that hardly compress, and ones that compress well
    ctx.explore("names", |ch| {
        let chain = *ch.pick(&[Chain::AesLzma2, Chain::Aes, Chain::AesLzma, Chain::AesLzmaLzma2, Chain::Lzma2Aes]);
        let header = ch.flag();
        let count = *ch.pick(if q { &[0usize, 1, 2, 3, 5, 10, 40][..] } else { &[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 20, 40, 100, 300] });
        let len = *ch.pick(if q { &[4usize, 5, 6, 8, 12, 20, 60, 300][..] } else { &[4usize, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 30, 60, 100, 300, 1000, 4000] });
        let form = ch.choose(4);
        let meta = ch.flag();
        let kind = ch.choose(3);
        let mut want = vec![];
        for i in 0..count {
            let z = noise(2 * len, (i * 1009 + len) as u64);
            let name: String = match form {
                0 => (0..len).map(|k| (b'a' + (z[k] % 26)) as char).collect(),
                1 => (0..len).map(|k| char::from_u32(0x4E00 + (z[2 * k] as u32 | (z[2 * k + 1] as u32 & 0x1F) << 8)).unwrap()).collect(),
                2 => format!("{}{i:04}", "n".repeat(len - 4)),
                _ => (0..len).map(|k| char::from_u32(0x1F300 + z[k] as u32).unwrap()).collect(),
            };
            let mut e = match kind {
                0 => Ent::file(&name, &noise(1 + i % 5, i as u64)),
                1 => Ent::none(&name),
                _ => Ent::dir(&name),
            };
            if meta {
                let m = noise(24, 31 + i as u64);
                let g = |k: usize| Some(u64::from_le_bytes(m[k..k + 8].try_into().unwrap()) | 0x0101_0101_0101_0101);
                e.mtime = g(0);
                e.ctime = g(8);
                e.attr = Some(u32::from_le_bytes(m[16..20].try_into().unwrap()));
            }
            want.push(Op::Push(e));
        }
        ch.desc(|| format!("{chain:?} header {header}: {count} names of {len} characters, form {form}, kind {kind}, metadata {meta}"));
        let d = write("names", chain, header, &want)?;
        judge("names", ch, &d)?;
        let secret: Vec<&str> = d.want.iter().filter(|e| e.len() > 0).map(|e| &e.name[..]).collect();
        contents_closed("names", &d, &secret)
    });
    // key derivation settings and passwords
    ctx.explore("settings", |ch| {
        let power = *ch.pick(&[0u8, 1, 2, 6, 0x3F]);
        let pw = *ch.pick(&["p", "password", "\u{5BC6}\u{7801}", "a password that is longer than thirty-two bytes"]);
        let header = ch.flag();
        let n = ch.choose(4);
        let s = Sink::new();
        let r: Result<(), Error> = (|| {
            let mut w = SevenZWriter::new(s.clone())?;
            w.set_content_methods(vec![aes(pw, power).into(), SevenZMethodConfiguration::new(SevenZMethod::LZMA2).with_options(opts(65536).into())]);
            w.set_encrypt_header(header);
            for i in 0..n {
                push(&mut w, &Ent::file(&format!("the name of entry {i}"), &text(20 * i)))?;
            }
            w.finish()?;
            Ok(())
        })();
        if let Err(e) = r {
            fail!("settings:write", "power {power}: {e}");
        }
        let b = s.take();
        ch.desc(|| format!("power {power}, password {pw:?}, header {header}, {n} entries"));
        let got = read_back(Src::new(&b), b.len() as u64, Password::from(pw), 4096);
        match got {
            Ok((l, s)) => {
                ch.state(hash_result(&l, &s));
                ensure!(l.len() == n && s.iter().all(|(g, d)| *d == text(20 * g.name.chars().last().unwrap().to_digit(10).unwrap() as usize)), "settings:data", "entries differ");
            }
            Err(e) => fail!("settings:read", "power {power}: {e}"),
        }
        if header {
            for i in 0..n {
                for p in pieces(&format!("the name of entry {i}")) {
                    ensure!(!contains(&b, &p), "settings:name", "the name is in the file");
                }
            }
        }
        let o = SevenZReader::new(Src::new(&b), b.len() as u64, Password::empty());
        ensure!(o.is_err() == header, "settings:open", "header encryption {header}, opening without a password gives {:?}", o.map(|_| ()));
        Ok(())
    });
}
