//! C23: sizes, checksums and places that are reported describe the archive.
use crate::arch::*;
use crate::explore::Ch;
use crate::gen::*;
use crate::io::Sink;
use crate::props::c21::{structure, HDRS};
use crate::ref7z::crc32;
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::*;
use std::io::Cursor;

/// A block as it lies in the archive.
struct Block {
    /// place from the start of the archive, bytes, whether their checksum is stored if that is known
    packed: Vec<(u64, Vec<u8>, Option<bool>)>,
    files: Vec<Vec<u8>>,
}
/// The reports of an opened archive against its blocks; `streams` are the indexes of the entries with contents.
fn reports(key: &str, ch: &Ch, bytes: &[u8], enc: bool, entries: usize, streams: &[usize], blocks: &[Block]) -> R {
    let r = match SevenZReader::new(Cursor::new(bytes), bytes.len() as u64, password(enc)) {
        Ok(r) => r,
        Err(e) => fail!(format!("{key}:open"), "the archive cannot be opened: {e}"),
    };
    let a = r.archive();
    ensure!(a.files.len() == entries, format!("{key}:entries"), "{} entries, {entries} stored", a.files.len());
    ensure!(a.folders.len() == blocks.len(), format!("{key}:blocks"), "{} blocks reported, {} stored", a.folders.len(), blocks.len());
    let all: Vec<&(u64, Vec<u8>, Option<bool>)> = blocks.iter().flat_map(|b| &b.packed).collect();
    ensure!(a.pack_sizes.len() == all.len(), format!("{key}:pack-streams"), "{} packed streams reported, {} stored", a.pack_sizes.len(), all.len());
    ensure!(a.stream_map.pack_stream_offsets.len() == all.len(), format!("{key}:pack-offsets"), "{} places of {} packed streams", a.stream_map.pack_stream_offsets.len(), all.len());
    for (i, (at, d, crc)) in all.iter().enumerate() {
        ensure!(a.pack_sizes[i] == d.len() as u64, format!("{key}:pack-size"), "packed stream {i} of {} bytes reported with {}", d.len(), a.pack_sizes[i]);
        let g = 32 + a.pack_pos + a.stream_map.pack_stream_offsets[i];
        ensure!(g == *at, format!("{key}:pack-place"), "packed stream {i} at {at} reported at {g}");
        let has = a.pack_crcs_defined.contains(i);
        ensure!(crc.is_none_or(|c| c == has), format!("{key}:pack-crc-stored"), "packed stream {i}: checksum stored {crc:?}, reported {has}");
        if has {
            ensure!(a.pack_crcs[i] == crc32(d) as u64, format!("{key}:pack-crc"), "packed stream {i}: checksum {:08x} reported as {:08x}", crc32(d), a.pack_crcs[i]);
        }
    }
    let (mut at, mut nth) = (0, 0);
    for (k, b) in blocks.iter().enumerate() {
        let whole: usize = b.files.iter().map(|f| f.len()).sum();
        ensure!(a.folders[k].get_unpack_size() == whole as u64, format!("{key}:block-size"), "block {k} of {whole} bytes reported with {}", a.folders[k].get_unpack_size());
        ensure!(a.folders[k].num_unpack_sub_streams == b.files.len(), format!("{key}:block-files"), "block {k} of {} files reported with {}", b.files.len(), a.folders[k].num_unpack_sub_streams);
        ensure!(a.stream_map.folder_first_pack_stream_index[k] == at, format!("{key}:block-stream"), "block {k} begins with packed stream {at}, reported {}", a.stream_map.folder_first_pack_stream_index[k]);
        at += b.packed.len();
        let total: u64 = b.packed.iter().map(|p| p.1.len() as u64).sum();
        for (j, f) in b.files.iter().enumerate() {
            let i = streams[nth];
            nth += 1;
            let e = &a.files[i];
            ensure!(a.stream_map.file_folder_index[i] == Some(k), format!("{key}:entry-block"), "entry {i} of block {k} reported in {:?}", a.stream_map.file_folder_index[i]);
            if j == 0 {
                ensure!(a.stream_map.folder_first_file_index[k] == i, format!("{key}:first-entry"), "block {k} begins with entry {i}, reported {}", a.stream_map.folder_first_file_index[k]);
            }
            ensure!(e.size == f.len() as u64 && e.size() == e.size, format!("{key}:size"), "entry {i} of {} bytes reported with {}", f.len(), e.size);
            ensure!(!e.has_crc || e.crc == crc32(f) as u64, format!("{key}:crc"), "entry {i}: checksum {:08x} reported as {:08x}", crc32(f), e.crc);
            let want = if j == 0 { total } else { 0 };
            ensure!(
                e.compressed_size == want,
                format!("{key}:compressed-size"),
                "entry {i}, number {j} of block {k} with {} packed streams of {total} bytes: compressed size {} instead of {want}",
                b.packed.len(),
                e.compressed_size
            );
        }
    }
    for (i, e) in a.files.iter().enumerate() {
        if !streams.contains(&i) {
            ensure!(!e.has_stream && e.size == 0 && e.compressed_size == 0 && !e.has_crc, format!("{key}:no-contents"), "entry {i} without contents: {e:?}");
        }
    }
    ch.state(fnv(format!("{:?} {:?}", a.pack_sizes, a.stream_map).as_bytes()));
    Ok(())
}
fn built(key: &str, ch: &Ch, s: &Spec) -> R {
    let b = assemble(s);
    let mut at = 32 + s.gap as u64;
    let mut blocks = vec![];
    for f in &s.folders {
        let (_, parts, _) = encode_parts(f);
        let mut packed = vec![];
        for p in parts {
            let n = p.len();
            // salts are random in no encoder of this crate, so the bytes are those in the archive
            packed.push((at, b.bytes[at as usize..at as usize + n].to_vec(), Some(f.pcrc && !s.no_pack_crc_at_all)));
            at += n as u64;
        }
        blocks.push(Block { packed, files: f.files.clone() });
    }
    let streams: Vec<usize> = (0..s.slots.len()).filter(|i| s.slots[*i] == Slot::Stream).collect();
    reports(key, ch, &b.bytes, b.needs_password, s.slots.len(), &streams, &blocks)
}
/// An entry that says wrong things of contents it had elsewhere.
fn stale(mut e: SevenZArchiveEntry, k: usize) -> SevenZArchiveEntry {
    if k > 0 {
        e.size = 77;
        e.compressed_size = 78;
        e.crc = 0x79;
        e.compressed_crc = 0x80;
        e.has_crc = k == 1;
        e.has_stream = k == 1;
    }
    e
}
#[derive(Clone, Debug)]
enum Op {
    Push(Ent),
    /// a directory with contents offered: they are not taken
    DirWith,
    Solid(Vec<Ent>),
    /// a group of no entries
    Nothing,
    /// adding that fails after some bytes were given
    Broken(usize),
    Methods(Chain),
}
struct Break<'a>(&'a [u8]);
impl std::io::Read for Break<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() {
            return Err(std::io::Error::other("no more"));
        }
        let n = self.0.len().min(b.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn history(key: &str, ch: &Ch, start: Chain, enc_header: bool, ops: &[Op], old: usize) -> R {
    let sink = Sink::new();
    let mut w = match writer(sink.clone(), start, enc_header) {
        Ok(w) => w,
        Err(e) => fail!(format!("{key}:new"), "{e}"),
    };
    let mut enc = start.encrypted();
    let (mut blocks, mut streams, mut entries) = (vec![], vec![], 0);
    let mut end = 32u64;
    for (i, op) in ops.iter().enumerate() {
        let mut added: Option<Vec<Vec<u8>>> = None;
        let mut returned = None;
        match op {
            Op::Methods(c) => {
                w.set_content_methods(c.methods());
                enc |= c.encrypted();
                continue;
            }
            Op::Push(e) => {
                let mut e = e.clone();
                e.name = format!("{}{i}", e.name);
                match w.push_archive_entry(stale(e.entry(), old), e.data.as_ref().map(|d| &d[..])) {
                    Ok(g) => returned = Some((e.name.clone(), g.clone(), e.data.clone().filter(|_| !e.dir))),
                    Err(x) => fail!(format!("{key}:push"), "adding {:?} failed: {x}", e.name),
                }
                if let (Some(d), false) = (&e.data, e.dir) {
                    streams.push(entries);
                    added = Some(vec![d.clone()]);
                }
                entries += 1;
            }
            Op::DirWith => {
                let name = format!("dir{i}");
                match w.push_archive_entry(stale(Ent::dir(&name).entry(), old), Some(&b"not taken"[..])) {
                    Ok(g) => returned = Some((name, g.clone(), None)),
                    Err(x) => fail!(format!("{key}:push"), "adding a directory failed: {x}"),
                }
                entries += 1;
            }
            Op::Solid(es) => {
                let es: Vec<Ent> = es.iter().map(|e| Ent { name: format!("{}{i}", e.name), ..e.clone() }).collect();
                let rs: Vec<SourceReader<&[u8]>> = es.iter().map(|e| SourceReader::new(e.bytes())).collect();
                if let Err(x) = w.push_archive_entries(es.iter().map(|e| stale(e.entry(), old)).collect(), SeqReader::new(rs)) {
                    fail!(format!("{key}:push"), "adding a group failed: {x}");
                }
                for _ in &es {
                    streams.push(entries);
                    entries += 1;
                }
                added = Some(es.iter().map(|e| e.bytes().to_vec()).collect());
            }
            Op::Nothing => {
                let none: Vec<SourceReader<&[u8]>> = vec![];
                if let Err(x) = w.push_archive_entries(vec![], SeqReader::new(none)) {
                    fail!(format!("{key}:push"), "adding a group of nothing failed: {x}");
                }
                added = Some(vec![]);
            }
            Op::Broken(n) => {
                let d = noise(*n, 3);
                ensure!(w.push_archive_entry(Ent::file("broken", b"").entry(), Some(Break(&d))).is_err(), format!("{key}:broken"), "a failing source was taken for a good one");
                continue;
            }
        }
        let now = sink.0.borrow().pos;
        if let Some(files) = added {
            let packed = if now == end { vec![] } else { sink.bytes()[end as usize..now as usize].to_vec() };
            if let Some((name, g, Some(_))) = &returned {
                ensure!(g.compressed_size == packed.len() as u64, format!("{key}:returned-compressed-size"), "{name:?}: {} bytes were written, the entry returned says {}", packed.len(), g.compressed_size);
                ensure!(g.compressed_crc == crc32(&packed) as u64, format!("{key}:returned-compressed-crc"), "{name:?}: the packed bytes have the checksum {:08x}, the entry returned says {:08x}", crc32(&packed), g.compressed_crc);
            }
            blocks.push(Block { packed: vec![(end, packed, None)], files });
            end = now;
        }
        if let Some((name, g, d)) = returned {
            ensure!(g.name == name, format!("{key}:returned-name"), "{:?} returned for {name:?}", g.name);
            match d {
                Some(d) => ensure!(
                    g.has_stream && g.size == d.len() as u64 && g.has_crc && g.crc == crc32(&d) as u64,
                    format!("{key}:returned"),
                    "{name:?} of {} bytes with checksum {:08x}: the entry returned says {} {:08x}",
                    d.len(),
                    crc32(&d),
                    g.size,
                    g.crc
                ),
                None => ensure!(!g.has_stream && g.size == 0 && g.compressed_size == 0 && !g.has_crc, format!("{key}:returned-empty"), "{name:?} without contents: {g:?}"),
            }
        }
    }
    if let Err(e) = w.finish() {
        fail!(format!("{key}:finish"), "{e}");
    }
    // a block of nothing may be stored or left out
    let b = sink.take();
    reports(key, ch, &b, enc, entries, &streams, &blocks)
}
pub fn run(ctx: &Ctx) {
    ctx.assume("the output of the writer starts empty, so the place of the output tells which bytes an entry added");
    let ops = vec![
        Op::Push(Ent::file("f", b"hello world, hello world")),
        Op::Push(Ent::file("e", b"")),
        Op::Push(Ent::none("n")),
        Op::Push(Ent::dir("d")),
        Op::DirWith,
        Op::Push(Ent::file("z", &crc0(b"q"))),
        Op::Push(Ent::file("g", &noise(5000, 5))),
        Op::Solid(vec![Ent::file("s", b"first"), Ent::file("t", b""), Ent::file("u", b"second!")]),
        Op::Solid(vec![Ent::file("o", &crc0(b"q"))]),
        Op::Nothing,
        Op::Broken(0),
        Op::Broken(70_000),
        Op::Methods(Chain::AesLzma2),
        Op::Methods(Chain::Lzma),
        Op::Push(Ent::anti("a")),
    ];
    let depth = ctx.b(3, 4);
    ctx.explore("written", |ch| {
        let n = ch.choose(depth + 1);
        let enc_header = ch.flag();
        let old = ch.choose(3);
        let v: Vec<Op> = (0..n).map(|_| ch.pick(&ops).clone()).collect();
        ch.desc(|| format!("{enc_header} stale {old} {v:?}").chars().take(300).collect());
        history("written", ch, Chain::Lzma2, enc_header, &v, old)
    });
    ctx.explore("written-chains", |ch| {
        let c = *ch.pick(CHAINS);
        let n = *ch.pick(&[0usize, 1, 4, 5, 15, 16, 17, 255, 256, 4095, 4096, 4097, 8192, 8193, 65535, 65536, 65537, 140_000]);
        let d = match ch.choose(3) {
            0 => text(n),
            1 => noise(n, 9),
            _ => vec![0; n],
        };
        let v = match ch.choose(3) {
            0 => vec![Op::Push(Ent::file("a", &d))],
            1 => vec![Op::Push(Ent::file("a", b"abc")), Op::Push(Ent::file("b", &d)), Op::Push(Ent::file("c", &d))],
            _ => vec![Op::Solid(vec![Ent::file("a", &d), Ent::file("b", &d[n / 2..])]), Op::Push(Ent::file("c", &d))],
        };
        ch.desc(|| format!("{c:?} {n} bytes, {} adds", v.len()));
        history("chains", ch, c, true, &v, 0)
    });
    // archives of every structure
    let maxn = ctx.b(6, 7);
    ctx.explore("structure", |ch| {
        let mut s = structure(ch, maxn, &[&[C7::Copy], &[C7::Lzma], &[C7::Aes, C7::Lzma2]]);
        s.hdr = if s.slots.len() % 2 == 0 { HDRS[0] } else { HDRS[1] };
        s.gap = s.slots.len() / 3 * 5;
        for (i, f) in s.folders.iter_mut().enumerate() {
            f.pcrc = i % 2 == 0;
            f.fcrc = i % 3 == 0;
        }
        ch.desc(|| format!("{:?} blocks {:?}", s.slots, s.folders.iter().map(|f| f.files.len()).collect::<Vec<_>>()));
        built("structure", ch, &s)
    });
    // blocks of several packed streams, and without entries, among others
    ctx.explore("streams", |ch| {
        let n = 1 + ch.choose(ctx.b(4, 5));
        let mut folders = vec![];
        for i in 0..n {
            let k = ch.choose(5);
            let files: Vec<Vec<u8>> = (0..if k == 4 { 0 } else { 1 + ch.choose(2) }).map(|j| crate::props::c07::branches(40 + 13 * j + 3 * i)).collect();
            let mut s = plain_spec();
            if k == 2 {
                s.last = true;
                s.order = [3, 1, 0, 2];
                s.subs = [vec![C7::Lzma2], vec![], vec![C7::Lzma], vec![]];
            }
            let mut f = match k {
                0 => folder(&[C7::Lzma, C7::X86], files),
                3 | 4 => folder(&[C7::Copy], files),
                _ => bcj2_block(s, 1 + i % 2, files),
            };
            f.pcrc = k != 3;
            folders.push(f);
        }
        let first = ch.flag();
        let m: usize = folders.iter().map(|f| f.files.len()).sum();
        let mut slots = vec![Slot::Stream; m];
        if first {
            slots.insert(0, Slot::Dir);
        }
        slots.insert(slots.len() / 2, Slot::EmptyFile);
        let s = Spec::new(folders, slots);
        ch.desc(|| format!("{:?}", s.folders.iter().map(|f| (f.files.len(), f.bcj2.is_some())).collect::<Vec<_>>()));
        built("streams", ch, &s)
    });
}
