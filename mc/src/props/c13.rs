//! C13: wrong and missing passwords.
use crate::arch::*;
use crate::explore::Ch;
use crate::gen::*;
use crate::io::{read_portions, Src};
use crate::ref7z::*;
use crate::util::*;
use crate::{ensure, fail, refaes};
use sevenz_rust::*;

pub struct Locked {
    pub name: String,
    pub bytes: Vec<u8>,
    pub password: String,
    /// the names are encrypted too
    pub header: bool,
    /// contents by name, and whether they are encrypted
    pub files: Vec<(String, Vec<u8>, bool)>,
}
fn with_password(c: Chain, pw: &str, power: u8) -> Vec<SevenZMethodConfiguration> {
    c.methods()
        .into_iter()
        .map(|m| if m.method.id() == SevenZMethod::AES256SHA256.id() { aes(pw, power).into() } else { m })
        .collect()
}
fn locked(c: Chain, header: bool, pw: &str, power: u8, groups: &[Vec<Ent>], plain_first: bool) -> R<Locked> {
    let name = format!("{c:?} header {header} password {pw:?} power {power}{}", if plain_first { " after a plain block" } else { "" });
    let s = crate::io::Sink::new();
    let mut files = vec![];
    let r: Result<(), Error> = (|| {
        let mut w = SevenZWriter::new(s.clone())?;
        w.set_encrypt_header(header);
        if plain_first {
            push(&mut w, &Ent::file("plain", b"not a secret"))?;
            files.push(("plain".to_string(), b"not a secret".to_vec(), false));
        }
        w.set_content_methods(with_password(c, pw, power));
        for g in groups {
            if g.len() == 1 {
                push(&mut w, &g[0])?;
            } else {
                push_solid(&mut w, g)?;
            }
            files.extend(g.iter().map(|e| (e.name.clone(), e.bytes().to_vec(), true)));
        }
        w.finish()?;
        Ok(())
    })();
    if let Err(e) = r {
        fail!("write", "{name}: {e}");
    }
    let bytes = s.take();
    let l = Locked { name, bytes, password: pw.into(), header, files };
    right("right", &l)?;
    Ok(l)
}
fn right(key: &str, l: &Locked) -> R {
    match read_back(Src::new(&l.bytes), l.bytes.len() as u64, Password::from(&l.password[..]), 4096) {
        Ok((_, s)) => {
            for (n, d, _) in &l.files {
                ensure!(s.iter().any(|x| x.0.name == *n && x.1 == *d), format!("{key}:data"), "{}: {n:?} does not read back with the right password", l.name);
            }
            Ok(())
        }
        Err(e) => fail!(format!("{key}:error"), "{}: the right password is refused: {e}", l.name),
    }
}
/// Whether reading with this password ends as it should; every entry on its own.
fn wrong(key: &str, ch: &Ch, l: &Locked, pw: Password, portion: usize) -> R {
    let none = pw.is_empty();
    let mut r = match SevenZReader::new(Src::new(&l.bytes), l.bytes.len() as u64, pw.clone()) {
        Ok(r) => {
            ensure!(!l.header, format!("{key}:opened"), "{}: opened with {:?}", l.name, pw);
            r
        }
        Err(e) => {
            ensure!(l.header, format!("{key}:plain-header"), "{}: the listing is not encrypted, opening fails with {:?}: {e}", l.name, pw);
            if none {
                ensure!(matches!(e, Error::PasswordRequired), format!("{key}:kind"), "{}: no password is reported as {e:?}", l.name);
            } else {
                ensure!(!matches!(e, Error::PasswordRequired), format!("{key}:kind"), "{}: a password was given, {e:?} is reported", l.name);
            }
            ch.state(fnv(format!("{e:?}").as_bytes()));
            return Ok(());
        }
    };
    for keep_going in [true, false] {
        let mut bad = None;
        let mut ok = 0;
        let mut errors: Vec<Error> = vec![];
        let res = r.for_each_entries(|e, rd| {
            match read_portions(rd, portion, e.size as usize + 64) {
                Ok(d) => {
                    let known = l.files.iter().find(|f| f.0 == e.name);
                    match known {
                        Some(f) if f.1.is_empty() => {}
                        // the right few bytes may come out by chance
                        Some(f) if f.1 == d && (!f.2 || d.len() < 8) => ok += 1,
                        Some(f) if f.1 == d => bad = Some(format!("{:?} is delivered", e.name)),
                        _ => bad = Some(format!("{:?} is delivered with other contents ({} bytes)", e.name, d.len())),
                    }
                    Ok(true)
                }
                Err(x) => {
                    let x: Error = x.into();
                    if keep_going {
                        errors.push(x);
                        Ok(true)
                    } else {
                        Err(x)
                    }
                }
            }
        });
        if let Some(b) = bad {
            fail!(format!("{key}:delivered"), "{}: with {:?}, {b}", l.name, pw);
        }
        let secret = l.files.iter().any(|f| f.2 && f.1.len() >= 8);
        if let Err(e) = res {
            errors.push(e);
        }
        ensure!(!secret || !errors.is_empty(), format!("{key}:no-error"), "{}: with {:?} the visit ends well ({ok} entries delivered)", l.name, pw);
        if none && secret {
            ensure!(matches!(errors.last(), Some(Error::PasswordRequired)), format!("{key}:kind"), "{}: no password is reported as {:?}", l.name, errors.last());
        }
        ch.state(fnv(format!("{:?}", errors.iter().map(|e| std::mem::discriminant(e)).collect::<Vec<_>>()).as_bytes()));
    }
    Ok(())
}
/// The other ways in: the listing alone, and block by block.
fn other_ways(key: &str, l: &Locked, pw: &Password) -> R {
    let mut src = Src::new(&l.bytes);
    let a = match Archive::read(&mut src, l.bytes.len() as u64, pw.as_slice()) {
        Ok(a) => {
            ensure!(!l.header, format!("{key}:listed"), "{}: listed with {:?}", l.name, pw);
            a
        }
        Err(e) => {
            ensure!(l.header, format!("{key}:list-error"), "{}: not listed with {:?}: {e}", l.name, pw);
            ensure!(matches!(e, Error::PasswordRequired) == pw.is_empty(), format!("{key}:list-kind"), "{}: with {:?}: {e:?}", l.name, pw);
            return Ok(());
        }
    };
    for k in 0..a.folders.len() {
        let d = BlockDecoder::new(k, &a, pw.as_slice(), &mut src);
        let mut bad = None;
        let _ = d.for_each_entries(&mut |e, rd| {
            let mut v = vec![];
            let secret = l.files.iter().any(|f| f.0 == e.name && f.2 && f.1.len() >= 8);
            if secret && rd.read_to_end(&mut v).is_ok() {
                bad = Some(e.name.clone());
            }
            Ok(true)
        });
        ensure!(bad.is_none(), format!("{key}:block"), "{}: {bad:?} of block {k} is delivered with {:?}", l.name, pw);
    }
    Ok(())
}
fn attack(key: &str, ch: &Ch, l: &Locked, pw: &str, portion: usize) -> R {
    if pw == l.password {
        return Ok(());
    }
    ch.desc(|| format!("{}: with {pw:?}", l.name));
    wrong(key, ch, l, Password::from(pw), portion)?;
    other_ways(key, l, &Password::from(pw))
}
fn contents(k: usize) -> Vec<Vec<Ent>> {
    match k {
        0 => vec![vec![Ent::file("a", b"x")]],
        1 => vec![vec![Ent::file("a", &text(300))]],
        2 => vec![vec![Ent::file("a", &noise(20, 1)), Ent::file("b", b""), Ent::file("c", &text(40))]],
        3 => vec![vec![Ent::file("a", &vec![0; 5000])], vec![Ent::none("n")], vec![Ent::dir("d")], vec![Ent::file("z", &crc0(b"zero"))]],
        _ => vec![vec![Ent::file("a", &crc0(b""))]],
    }
}
/// Every password one edit away.
pub fn neighbours(p: &str) -> Vec<String> {
    let c: Vec<char> = p.chars().collect();
    let mut v: Vec<Vec<char>> = vec![];
    let near = |x: char| -> Vec<char> {
        let mut v: Vec<char> = vec!['\0', ' ', 'a', 'A', '\u{FFFD}', '\u{1F600}'];
        let n = x as u32;
        for d in [1u32, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x1000, 0x10000] {
            v.extend(char::from_u32(n ^ d));
        }
        v.extend(char::from_u32(n + 1));
        v.extend(x.to_uppercase());
        v.extend(x.to_lowercase());
        v
    };
    for i in 0..=c.len() {
        for x in near(*c.get(i).unwrap_or(&'e')) {
            v.push([&c[..i], &[x], &c[i..]].concat());
            if i < c.len() {
                let mut d = c.clone();
                d[i] = x;
                v.push(d);
            }
        }
        v.push(c[..i].to_vec());
        v.push(c[i..].to_vec());
        if i < c.len() {
            v.push([&c[..i], &c[i + 1..]].concat());
        }
        if i + 1 < c.len() {
            let mut d = c.clone();
            d.swap(i, i + 1);
            v.push(d);
        }
    }
    v.push([&c[..], &c[..]].concat());
    v.push(c.iter().rev().copied().collect());
    let mut v: Vec<String> = v.into_iter().map(|d| d.into_iter().collect()).collect();
    v.push(p.to_uppercase());
    v.push(p.to_lowercase());
    v.push(p.trim().to_string());
    v.sort();
    v.dedup();
    v.retain(|x| x != p);
    v
}

pub fn run(ctx: &Ctx) {
    ctx.assume("contents carry the checksums the writer stores; AES by itself does not tell a wrong password");
    let q = ctx.quick();
    let mut pws: Vec<String> = vec!["a".into(), PW.into(), "\u{5BC6}\u{7801}".into(), "\u{1F511}key".into(), "x".repeat(ctx.b(40, 130))];
    if !q {
        pws.extend(["pass word1".into(), " ".into(), "Tr0ub4dor&3".into()]);
    }
    let chains: &[Chain] = &[Chain::Aes, Chain::AesLzma2, Chain::AesLzma, Chain::AesLzmaLzma2, Chain::Lzma2Aes];
    let make = |power: &[u8]| -> R<Vec<Locked>> {
        let mut v = vec![];
        for c in chains {
            for pw in &pws {
                for k in 0..5 {
                    for h in [true, false] {
                        for p in power {
                            v.push(locked(*c, h, pw, *p, &contents(k), k == 2)?);
                        }
                    }
                }
            }
        }
        Ok(v)
    };
    let all = match make(if q { &[1] } else { &[0, 1, 3] }) {
        Ok(v) => v,
        Err(f) => {
            ctx.explore("archives", |_| Err(f.clone()));
            return;
        }
    };
    let near: std::collections::BTreeMap<String, Vec<String>> = pws.iter().map(|p| (p.clone(), neighbours(p))).collect();
    ctx.explore("neighbours", |ch| {
        let l = ch.pick(&all);
        let p = ch.pick(&near[&l.password]);
        let portion = *ch.pick(&[4096usize, 7]);
        attack("neighbour", ch, l, p, portion)
    });
    // all short passwords
    let one: Vec<&Locked> = all.iter().filter(|l| l.password == "a").collect();
    let letters: Vec<char> = (' '..='~').collect();
    ctx.explore("short-passwords", |ch| {
        let l = *ch.pick(&one);
        let n = 1 + ch.choose(2);
        let p: String = (0..n).map(|_| *ch.pick(&letters)).collect();
        attack("short", ch, l, &p, 4096)
    });
    ctx.explore("code-points", |ch| {
        let l = *ch.pick(&one[..ctx.b(10, one.len())]);
        let n = ch.choose(0x10000 >> ctx.b(3, 0)) << ctx.b(3, 0);
        match char::from_u32(n as u32) {
            Some(c) => attack("code-point", ch, l, &c.to_string(), 4096),
            None => Ok(()),
        }
    });
    ctx.explore("none", |ch| {
        let l = ch.pick(&all);
        let portion = *ch.pick(&[4096usize, 1]);
        let how = ch.choose(3);
        ch.desc(|| format!("{}: no password", l.name));
        let p = match how {
            0 => Password::empty(),
            1 => Password::from(""),
            _ => Password::from(&[][..] as &[u16]),
        };
        wrong("none", ch, l, p.clone(), portion)?;
        other_ways("none", l, &p)
    });
    // archives of other writers: salts, IVs, key derivations, header forms
    ctx.explore("foreign", |ch| {
        let chain: &[C7] = *ch.pick(&[&[C7::Aes, C7::Copy][..], &[C7::Aes, C7::Lzma], &[C7::Aes, C7::Bzip2], &[C7::Aes, C7::Lzma2, C7::X86], &[C7::Aes, C7::Zstd]]);
        let hdr = *ch.pick(&[Hdr::Plain, Hdr::Enc(&[C7::Aes, C7::Lzma]), Hdr::Enc(&[C7::Aes])]);
        let fcrc = ch.flag();
        let files = if ch.flag() { vec![text(30), noise(9, 3)] } else { vec![text(50)] };
        let f = FolderSpec { fcrc, scrc: !fcrc || files.len() > 1, ..folder(chain, files.clone()) };
        let mut s = Spec::files(vec![f]);
        s.hdr = hdr;
        let b = assemble(&s);
        let l = Locked { name: format!("{chain:?} {hdr:?}"), bytes: b.bytes, password: PW.into(), header: hdr != Hdr::Plain, files: b.data.iter().map(|(n, d)| (n.clone(), d.clone(), true)).collect() };
        right("foreign-right", &l)?;
        let p = ch.pick(&near[PW]);
        attack("foreign", ch, &l, p, 4096)?;
        wrong("foreign-none", ch, &l, Password::empty(), 4096)
    });
    // a header so short that some wrong passwords decrypt it to another well-formed one
    let bits = ctx.b(20, 23);
    let mut s = Spec::new(vec![], vec![Slot::Dir]);
    s.hdr = Hdr::Enc(&[C7::Aes]);
    let b = assemble(&s);
    let l = Locked { name: "short header".into(), bytes: b.bytes, password: PW.into(), header: true, files: vec![] };
    ctx.explore("many-passwords", |ch| {
        let hi = ch.choose(1 << (bits / 2));
        let lo = ch.choose(1 << (bits - bits / 2));
        attack("many", ch, &l, &format!("{hi:x}-{lo:x}"), 4096)
    });
    // keys made of salt and password without hashing, and every salt and IV length
    ctx.explore("derivations", |ch| {
        let power = *ch.pick(&[0u8, 5, 0x3F]);
        let salt = ch.choose(17);
        let iv = *ch.pick(&[0usize, 1, 8, 16]);
        let d = text(60);
        let pw = refaes::utf16le("passw");
        let salt = noise(salt, 12);
        let iv16 = { let mut v = noise(iv, 13); v.resize(16, 0); v };
        let packed = refaes::encrypt(&d, &pw, &salt, &iv16, power);
        let props = refaes::properties(&salt, &iv16[..iv], power);
        let h = Header {
            props: None,
            streams: Some(Streams {
                pack: Some(Pack { pos: 0, n: 1, sizes: Some(vec![packed.len() as u64]), crcs: None }),
                unpack: Some(Unpack { folders: vec![Folder { coders: vec![Coder::simple(AES, Some(props))], bind: vec![], packed: vec![0], sizes: vec![d.len() as u64] }], crcs: Some(vec![Some(crc32(&d))]) }),
                sub: None,
            }),
            files: Some(Files { n: 1, props: vec![Prop::Names(vec!["f".encode_utf16().collect()])] }),
        };
        let l = Locked { name: format!("power {power}, {} bytes of salt, {iv} of IV", salt.len()), bytes: file(&packed, &ser_header(&h, 0, false).out), password: "passw".into(), header: false, files: vec![("f".into(), d, true)] };
        right("derive-right", &l)?;
        let n: Vec<String> = neighbours("passw").into_iter().filter(|p| power != 0x3F || !same_key(&salt, p, "passw")).collect();
        let p = ch.pick(&n);
        attack("derive", ch, &l, p, 4096)
    });
    // the default settings of the convenience type
    ctx.explore("defaults", |ch| {
        let header = ch.flag();
        let s = crate::io::Sink::new();
        let d = text(30);
        let mut w = match SevenZWriter::new(s.clone()) {
            Ok(w) => w,
            Err(e) => fail!("defaults:new", "{e}"),
        };
        w.set_encrypt_header(header);
        w.set_content_methods(vec![AesEncoderOptions::new(Password::from("default")).into(), SevenZMethod::LZMA2.into()]);
        if let Err(e) = push(&mut w, &Ent::file("f", &d)) {
            fail!("defaults:push", "{e}");
        }
        if let Err(e) = w.finish() {
            fail!("defaults:finish", "{e}");
        }
        let l = Locked { name: format!("default options, header {header}"), bytes: s.take(), password: "default".into(), header, files: vec![("f".into(), d, true)] };
        right("defaults", &l)?;
        for p in ["", "Default", "defaul", "default ", "x"] {
            wrong("defaults", ch, &l, Password::from(p), 4096)?;
        }
        Ok(())
    });
}
/// Without hashing the key is the salt and the password, cut or filled with zeros.
fn same_key(salt: &[u8], a: &str, b: &str) -> bool {
    let key = |p: &str| {
        let mut k = salt.to_vec();
        k.extend_from_slice(&refaes::utf16le(p));
        k.resize(32, 0);
        k
    };
    key(a) == key(b)
}
