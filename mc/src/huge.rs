//! Contents beyond 4 GiB: counters of 32 bits anywhere on the way would show.
use crate::arch::*;
use crate::explore::Ch;
use crate::ref7z;
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::*;
use std::io::{Cursor, Read, Write};

pub const GIB4: u64 = 1 << 32;
/// The bytes: zeros with a mark every 2^28 bytes and after 2^32.
pub struct Zeros {
    pub n: u64,
    pub pos: u64,
}
impl Zeros {
    pub fn new(n: u64) -> Zeros {
        Zeros { n, pos: 0 }
    }
}
fn mark(p: u64) -> u8 {
    if p % (1 << 28) == (1 << 28) - 3 || p >= GIB4 && p % 1000 == 7 {
        (p >> 8) as u8 | 1
    } else {
        0
    }
}
fn fill(b: &mut [u8], pos: u64) {
    b.fill(0);
    let end = pos + b.len() as u64;
    let mut k = pos >> 28;
    while k << 28 < end {
        let p = (k << 28) + (1 << 28) - 3;
        if p >= pos && p < end {
            b[(p - pos) as usize] = mark(p);
        }
        k += 1;
    }
    for p in pos.max(GIB4)..end {
        b[(p - pos) as usize] = mark(p);
    }
}
impl Read for Zeros {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let k = (b.len() as u64).min(self.n - self.pos) as usize;
        fill(&mut b[..k], self.pos);
        self.pos += k as u64;
        Ok(k)
    }
}
/// Reads to the end and compares with `n` of the bytes.
pub fn compare_zeros(key: &str, r: &mut dyn Read, n: u64) -> R {
    let mut buf = vec![0u8; 1 << 20];
    let mut want = vec![0u8; 1 << 20];
    let mut pos = 0u64;
    loop {
        match r.read(&mut buf) {
            Ok(0) => break,
            Ok(k) => {
                ensure!(pos + k as u64 <= n, format!("{key}:more"), "more than {n} bytes");
                fill(&mut want[..k], pos);
                ensure!(buf[..k] == want[..k], format!("{key}:data"), "different bytes between {pos} and {}", pos + k as u64);
                pos += k as u64;
            }
            Err(e) => fail!(format!("{key}:error"), "after {pos} of {n} bytes: {e}"),
        }
    }
    ensure!(pos == n, format!("{key}:size"), "{pos} of {n} bytes");
    Ok(())
}
/// One file of `n` bytes between two small ones through an archive of the library.
pub fn archive(ch: &Ch, c: Chain, n: u64, solid: bool) -> R {
    let cap = if c == Chain::Aes { n as usize + 4096 } else { 1 << 20 };
    let mut out = Cursor::new(Vec::with_capacity(cap));
    let entry = |name: &str| {
        let mut e = SevenZArchiveEntry::new();
        e.name = name.into();
        e
    };
    let res: Result<(), Error> = no_panic(|| {
        (|| {
            let mut w = SevenZWriter::new(&mut out)?;
            w.set_content_methods(c.methods());
            w.set_encrypt_header(false);
            if solid {
                let rs: Vec<SourceReader<Box<dyn Read>>> = vec![
                    SourceReader::new(Box::new(&b"before"[..])),
                    SourceReader::new(Box::new(Zeros::new(n))),
                    SourceReader::new(Box::new(&b"behind"[..])),
                ];
                w.push_archive_entries(vec![entry("a"), entry("huge"), entry("z")], SeqReader::new(rs))?;
            } else {
                w.push_archive_entry(entry("a"), Some(&b"before"[..]))?;
                let e = w.push_archive_entry(entry("huge"), Some(Zeros::new(n)))?;
                assert!(e.size == n, "size {} of the entry added", e.size);
                w.push_archive_entry(entry("z"), Some(&b"behind"[..]))?;
            }
            w.finish()?;
            Ok(())
        })()
    })?;
    if let Err(e) = res {
        fail!("huge:write", "writing {n} bytes: {e}");
    }
    let file = out.into_inner();
    ch.state(file.len() as u64);
    // positions and sizes as an independent strict reader of the format sees them
    if let Err(e) = ref7z::strict_layout(&file) {
        fail!("huge:layout", "{e}");
    }
    let mut r = match SevenZReader::new(Cursor::new(&file[..]), file.len() as u64, password(c.encrypted())) {
        Ok(r) => r,
        Err(e) => fail!("huge:open", "{e}"),
    };
    let sizes: Vec<u64> = r.archive().files.iter().map(|f| f.size).collect();
    ensure!(sizes == [6, n, 6], "huge:listing", "sizes listed: {sizes:?}");
    let mut res: R = Ok(());
    let mut seen = 0;
    let it = no_panic(|| {
        r.for_each_entries(|e, rd| {
            seen += 1;
            if e.name == "huge" {
                res = compare_zeros("huge", rd, n);
                return Ok(res.is_ok());
            }
            let mut v = vec![];
            rd.read_to_end(&mut v)?;
            if v != if e.name == "a" { b"before" } else { b"behind" } {
                res = Err(Fail::new("huge:neighbour", format!("{}: {v:?}", e.name)));
                return Ok(false);
            }
            Ok(true)
        })
    })?;
    res?;
    if let Err(e) = it {
        fail!("huge:read", "{e}");
    }
    ensure!(seen == 3, "huge:visited", "{seen} of 3 entries visited");
    Ok(())
}
/// The same bytes through the LZMA compressor and decompressor.
pub fn lzma(ch: &Ch, header: bool, n: u64) -> R {
    use lzma_rust::*;
    let mut out = vec![];
    let o = opts(4096);
    let res: std::io::Result<()> = no_panic(|| {
        (|| {
            let mut w = LZMAWriter::new(CountingWriter::new(&mut out), &o, header, !header, header.then_some(n))?;
            std::io::copy(&mut Zeros::new(n), &mut w)?;
            w.finish()
        })()
    })?;
    if let Err(e) = res {
        fail!("huge:write", "writing {n} bytes: {e}");
    }
    ch.state(fnv(&out));
    let r = if header { LZMAReader::new_mem_limit(&out[..], u32::MAX, None) } else { LZMAReader::new_with_props(&out[..], u64::MAX, o.get_props(), 4096, None) };
    match r {
        Ok(mut r) => compare_zeros("huge", &mut r, n),
        Err(e) => fail!("huge:open", "{e}"),
    }
}
/// A converted call at each of the places in `n` bytes of a BCJ2 block of stored streams.
pub fn bcj2(ch: &Ch, n: u64, calls: &[u64], portion: usize) -> R {
    use crate::gen::*;
    use crate::reflzma::{BitCoder, RangeEnc};
    let rel = [0x21u8, 0x43, 0x05, 0x00];
    let mut call = vec![];
    let mut rc = RangeEnc::default();
    let mut p = vec![1024u16; 1];
    for c in calls {
        call.extend_from_slice(&(u32::from_le_bytes(rel).wrapping_add((c + 5) as u32)).to_be_bytes());
        rc.bit(&mut p[0], 1);
    }
    let rcs = rc.finish();
    let main_len = n - 4 * calls.len() as u64;
    let tmpl = build_bcj2(&plain_spec(), &[vec![1; 4]], &[vec![0], call.clone(), vec![], rcs.clone()]);
    let mut h = tmpl.header.clone();
    {
        let st = h.streams.as_mut().unwrap();
        st.pack.as_mut().unwrap().sizes = Some(vec![main_len, call.len() as u64, 0, rcs.len() as u64]);
        let u = st.unpack.as_mut().unwrap();
        u.folders[0].sizes = vec![n];
        u.crcs = None;
    }
    let head = ref7z::ser_header(&h, 0, false).out;
    let area = main_len as usize + call.len() + rcs.len();
    // (untouched pages of zeros take no memory)
    let mut file = vec![0u8; 32 + area + head.len()];
    file[..32].copy_from_slice(&ref7z::start_header(area as u64, head.len() as u64, ref7z::crc32(&head)));
    for (i, c) in calls.iter().enumerate() {
        file[32 + (*c as usize - 4 * i)] = 0xE8;
    }
    let mut at = 32 + main_len as usize;
    for part in [&call, &rcs, &head] {
        file[at..at + part.len()].copy_from_slice(part);
        at += part.len();
    }
    ch.state(fnv(&head) ^ portion as u64);
    let mut r = match SevenZReader::new(Cursor::new(&file[..]), file.len() as u64, Password::empty()) {
        Ok(r) => r,
        Err(e) => fail!("huge:open", "{e}"),
    };
    let mut res: R = Ok(());
    let it = no_panic(|| {
        r.for_each_entries(|_, rd| {
            let mut buf = vec![0u8; portion];
            let mut want = vec![0u8; portion];
            let mut pos = 0u64;
            loop {
                let k = rd.read(&mut buf)?;
                if k == 0 {
                    break;
                }
                want[..k].fill(0);
                for c in calls {
                    for (j, b) in [0xE8, rel[0], rel[1], rel[2], rel[3]].iter().enumerate() {
                        let q = c + j as u64;
                        if q >= pos && q < pos + k as u64 {
                            want[(q - pos) as usize] = *b;
                        }
                    }
                }
                if buf[..k] != want[..k] {
                    res = Err(Fail::new("huge:data", format!("different bytes between {pos} and {}", pos + k as u64)));
                    return Ok(false);
                }
                pos += k as u64;
            }
            if pos != n {
                res = Err(Fail::new("huge:size", format!("{pos} of {n} bytes")));
            }
            Ok(true)
        })
    })?;
    res?;
    if let Err(e) = it {
        fail!("huge:read", "{e}");
    }
    Ok(())
}
