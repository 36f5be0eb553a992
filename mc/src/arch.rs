//! Driving the library's writer and reader; the reference record of what was added.
use crate::ref7z::crc32;
use crate::util::*;
use sevenz_rust::lzma::LZMA2Options;
use sevenz_rust::*;
use std::io::{Read, Seek, Write};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Ent {
    pub name: String,
    pub dir: bool,
    pub anti: bool,
    /// data given to the writer; None = no reader given
    pub data: Option<Vec<u8>>,
    pub ctime: Option<u64>,
    pub atime: Option<u64>,
    pub mtime: Option<u64>,
    pub attr: Option<u32>,
}
impl Ent {
    pub fn file(name: &str, data: &[u8]) -> Ent {
        Ent { name: name.into(), data: Some(data.to_vec()), ..Default::default() }
    }
    pub fn none(name: &str) -> Ent {
        Ent { name: name.into(), ..Default::default() }
    }
    pub fn dir(name: &str) -> Ent {
        Ent { name: name.into(), dir: true, ..Default::default() }
    }
    pub fn anti(name: &str) -> Ent {
        Ent { name: name.into(), anti: true, ..Default::default() }
    }
    pub fn entry(&self) -> SevenZArchiveEntry {
        let mut e = SevenZArchiveEntry::new();
        e.name = self.name.clone();
        e.is_directory = self.dir;
        e.is_anti_item = self.anti;
        if let Some(t) = self.ctime {
            e.has_creation_date = true;
            e.creation_date = t.into();
        }
        if let Some(t) = self.atime {
            e.has_access_date = true;
            e.access_date = t.into();
        }
        if let Some(t) = self.mtime {
            e.has_last_modified_date = true;
            e.last_modified_date = t.into();
        }
        if let Some(a) = self.attr {
            e.has_windows_attributes = true;
            e.windows_attributes = a;
        }
        e
    }
    pub fn bytes(&self) -> &[u8] {
        if self.dir {
            return &[];
        }
        self.data.as_deref().unwrap_or(&[])
    }
    pub fn len(&self) -> usize {
        self.bytes().len()
    }
}

pub fn opts(dict: u32) -> LZMA2Options {
    let mut o = LZMA2Options::with_preset(1);
    o.dict_size = dict;
    o
}
pub fn aes(pw: &str, power: u8) -> AesEncoderOptions {
    AesEncoderOptions {
        password: Password::from(pw),
        iv: *b"\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f\x10",
        salt: *b"saltsaltSALTSALT",
        num_cycles_power: power,
    }
}
pub const PW: &str = "pass w\u{f6}rd";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Chain {
    Lzma2Default,
    Lzma2,
    Lzma2Norm,
    Lzma2Num,
    Lzma,
    LzmaNum,
    Aes,
    AesLzma2,
    AesLzma,
    LzmaLzma2,
    AesLzmaLzma2,
    Lzma2Aes,
}
pub const CHAINS: &[Chain] = &[
    Chain::Lzma2,
    Chain::AesLzma2,
    Chain::Lzma,
    Chain::Aes,
    Chain::Lzma2Norm,
    Chain::AesLzma,
    Chain::Lzma2Num,
    Chain::LzmaNum,
    Chain::LzmaLzma2,
    Chain::AesLzmaLzma2,
    Chain::Lzma2Aes,
    Chain::Lzma2Default,
];
impl Chain {
    pub fn encrypted(&self) -> bool {
        matches!(self, Chain::Aes | Chain::AesLzma2 | Chain::AesLzma | Chain::AesLzmaLzma2 | Chain::Lzma2Aes)
    }
    pub fn methods(&self) -> Vec<SevenZMethodConfiguration> {
        let small = || -> SevenZMethodConfiguration { SevenZMethodConfiguration::new(SevenZMethod::LZMA2).with_options(opts(65536).into()) };
        let lz = || SevenZMethodConfiguration::new(SevenZMethod::LZMA).with_options(opts(65536).into());
        let a = || -> SevenZMethodConfiguration { aes(PW, 1).into() };
        match self {
            Chain::Lzma2Default => vec![SevenZMethodConfiguration::new(SevenZMethod::LZMA2)],
            Chain::Lzma2 => vec![small()],
            Chain::Lzma2Norm => {
                let mut o = LZMA2Options::with_preset(4);
                o.dict_size = 1 << 16;
                vec![o.into()]
            }
            Chain::Lzma2Num => vec![SevenZMethodConfiguration::new(SevenZMethod::LZMA2).with_options(MethodOptions::Num(1 << 16))],
            Chain::Lzma => vec![lz()],
            Chain::LzmaNum => vec![SevenZMethodConfiguration::new(SevenZMethod::LZMA).with_options(MethodOptions::Num(1 << 16))],
            Chain::Aes => vec![a()],
            Chain::AesLzma2 => vec![a(), small()],
            Chain::AesLzma => vec![a(), lz()],
            Chain::LzmaLzma2 => vec![lz(), small()],
            Chain::AesLzmaLzma2 => vec![a(), lz(), small()],
            Chain::Lzma2Aes => vec![small(), a()],
        }
    }
}

/// Deterministic incompressible bytes.
pub fn noise(n: usize, seed: u64) -> Vec<u8> {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        v.extend_from_slice(&s.wrapping_mul(0x2545F4914F6CDD1D).to_le_bytes());
    }
    v.truncate(n);
    v
}
/// Text-like compressible bytes.
pub fn text(n: usize) -> Vec<u8> {
    let words = ["the ", "quick ", "brown ", "fox ", "jumps ", "over ", "a ", "lazy ", "dog. ", "\n", "0123456789 "];
    let mut v = Vec::with_capacity(n + 16);
    let mut i = 0usize;
    while v.len() < n {
        i = (i * 7 + 3 + v.len() / 50) % 1009;
        v.extend_from_slice(words[i % words.len()].as_bytes());
    }
    v.truncate(n);
    v
}
/// Content of at least 4 bytes whose CRC-32 is zero.
pub fn crc0(prefix: &[u8]) -> Vec<u8> {
    let mut v = prefix.to_vec();
    let p = crate::ref7z::crc_patch(&v, 0);
    v.extend_from_slice(&p);
    assert_eq!(crc32(&v), 0);
    v
}

/// What reading back showed for one entry.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Got {
    pub name: String,
    pub dir: bool,
    pub has_stream: bool,
    pub anti: bool,
    pub size: u64,
    pub crc: Option<u64>,
    pub ctime: Option<u64>,
    pub atime: Option<u64>,
    pub mtime: Option<u64>,
    pub attr: Option<u32>,
}
pub fn got(e: &SevenZArchiveEntry) -> Got {
    Got {
        name: e.name.clone(),
        dir: e.is_directory,
        has_stream: e.has_stream,
        anti: e.is_anti_item,
        size: e.size,
        crc: if e.has_crc { Some(e.crc) } else { None },
        ctime: if e.has_creation_date { Some(e.creation_date.to_raw()) } else { None },
        atime: if e.has_access_date { Some(e.access_date.to_raw()) } else { None },
        mtime: if e.has_last_modified_date { Some(e.last_modified_date.to_raw()) } else { None },
        attr: if e.has_windows_attributes { Some(e.windows_attributes) } else { None },
    }
}
pub fn password(enc: bool) -> Password {
    if enc {
        Password::from(PW)
    } else {
        Password::empty()
    }
}
/// Listing and contents; contents in visiting order as (entry as visited, bytes).
pub fn read_back<S: Read + Seek>(src: S, len: u64, pw: Password, portion: usize) -> Result<(Vec<Got>, Vec<(Got, Vec<u8>)>), Error> {
    let mut r = SevenZReader::new(src, len, pw)?;
    let list = r.archive().files.iter().map(got).collect();
    let mut seen = vec![];
    r.for_each_entries(|e, rd| {
        let d = crate::io::read_portions(rd, portion, e.size as usize + 64)?;
        seen.push((got(e), d));
        Ok(true)
    })?;
    Ok((list, seen))
}
pub fn read_bytes(b: &[u8], enc: bool) -> Result<(Vec<Got>, Vec<(Got, Vec<u8>)>), Error> {
    read_back(crate::io::Src::new(b), b.len() as u64, password(enc), 65536)
}
pub fn hash_result(list: &[Got], seen: &[(Got, Vec<u8>)]) -> u64 {
    let mut s = format!("{list:?}");
    for (g, d) in seen {
        s.push_str(&format!("{}:{}:{:x};", g.name, d.len(), crc32(d)));
    }
    fnv(s.as_bytes())
}
/// Names, order, kind, size, checksum and bytes of everything against the record of adds.
pub fn compare(key: &str, want: &[Ent], list: &[Got], seen: &[(Got, Vec<u8>)]) -> R {
    crate::ensure!(
        list.len() == want.len() && list.iter().zip(want).all(|(g, w)| g.name == w.name),
        format!("{key}:listing"),
        "added {:?} but the listing is {:?}",
        want.iter().map(|e| &e.name).collect::<Vec<_>>(),
        list.iter().map(|g| &g.name).collect::<Vec<_>>()
    );
    for (g, w) in list.iter().zip(want) {
        crate::ensure!(g.size == w.len() as u64, format!("{key}:size"), "{:?}: size {} shown, {} added", g.name, g.size, w.len());
        crate::ensure!(g.dir == w.dir, format!("{key}:dir"), "{:?}: directory flag {} shown, {} added", g.name, g.dir, w.dir);
        if w.len() > 0 {
            crate::ensure!(
                g.has_stream && g.crc == Some(crc32(w.bytes()) as u64),
                format!("{key}:crc"),
                "{:?}: checksum {:?} shown, {:08x} added",
                g.name,
                g.crc,
                crc32(w.bytes())
            );
        } else if let Some(c) = g.crc {
            crate::ensure!(c == 0, format!("{key}:crc"), "{:?}: checksum {c:x} shown for empty contents", g.name);
        }
    }
    compare_seen(key, want, seen)
}
pub fn compare_seen(key: &str, want: &[Ent], seen: &[(Got, Vec<u8>)]) -> R {
    let mut a: Vec<(String, Vec<u8>)> = want.iter().map(|w| (w.name.clone(), w.bytes().to_vec())).collect();
    let mut b: Vec<(String, Vec<u8>)> = seen.iter().map(|(g, d)| (g.name.clone(), d.clone())).collect();
    a.sort();
    b.sort();
    crate::ensure!(
        a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.0 == y.0),
        format!("{key}:visited"),
        "entries visited {:?}, added {:?}",
        b.iter().map(|x| &x.0).collect::<Vec<_>>(),
        a.iter().map(|x| &x.0).collect::<Vec<_>>()
    );
    for (x, y) in a.iter().zip(&b) {
        crate::ensure!(x.1 == y.1, format!("{key}:data"), "{:?}: {} bytes added, {} read back, different", x.0, x.1.len(), y.1.len());
    }
    Ok(())
}

/// Adds to a writer.
pub fn push<W: Write + Seek>(w: &mut SevenZWriter<W>, e: &Ent) -> Result<SevenZArchiveEntry, Error> {
    let r = w.push_archive_entry(e.entry(), e.data.as_ref().map(|d| &d[..]))?;
    Ok(r.clone())
}
pub fn push_solid<W: Write + Seek>(w: &mut SevenZWriter<W>, es: &[Ent]) -> Result<(), Error> {
    let rs: Vec<SourceReader<&[u8]>> = es.iter().map(|e| SourceReader::new(e.bytes())).collect();
    w.push_archive_entries(es.iter().map(|e| e.entry()).collect(), SeqReader::new(rs))?;
    Ok(())
}
pub fn writer(sink: crate::io::Sink, c: Chain, enc_header: bool) -> Result<SevenZWriter<crate::io::Sink>, Error> {
    let mut w = SevenZWriter::new(sink)?;
    w.set_content_methods(c.methods());
    w.set_encrypt_header(enc_header);
    Ok(w)
}
/// Archive of groups (each group one solid block, single ones pushed alone).
pub fn build(c: Chain, enc_header: bool, groups: &[Vec<Ent>]) -> Vec<u8> {
    let s = crate::io::Sink::new();
    let mut w = writer(s.clone(), c, enc_header).expect("writer");
    for g in groups {
        if g.len() == 1 {
            push(&mut w, &g[0]).expect("push");
        } else {
            push_solid(&mut w, g).expect("push solid");
        }
    }
    w.finish().expect("finish");
    s.take()
}
