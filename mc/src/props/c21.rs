//! C21: every valid archive layout is read correctly.
use crate::arch::*;
use crate::explore::Ch;
use crate::gen::*;
use crate::io::Src;
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::*;

/// Listing and contents of a built archive against the specification.
pub fn check_built(key: &str, ch: &Ch, b: &Built) -> R {
    ch.state(fnv(&b.bytes));
    check_bytes(key, ch, &b.bytes, &b.want, &b.data, b.needs_password)
}
pub fn same_listing(key: &str, want: &[Got], list: &[Got]) -> R {
    ensure!(want.len() == list.len(), format!("{key}:count"), "{} entries stored, {} listed", want.len(), list.len());
    for (i, (w, g)) in want.iter().zip(list).enumerate() {
        macro_rules! same {
            ($f:ident) => {
                ensure!(w.$f == g.$f, format!("{key}:{}", stringify!($f)), "entry {i} {:?}: {} is {:?}, stored as {:?}", w.name, stringify!($f), g.$f, w.$f);
            };
        }
        same!(name);
        same!(dir);
        same!(anti);
        same!(has_stream);
        same!(size);
        same!(crc);
        same!(ctime);
        same!(atime);
        same!(mtime);
        same!(attr);
    }
    Ok(())
}
pub fn same_data(key: &str, data: &[(String, Vec<u8>)], seen: &[(Got, Vec<u8>)]) -> R {
    let mut a = data.to_vec();
    let mut c: Vec<(String, Vec<u8>)> = seen.iter().map(|(g, d)| (g.name.clone(), d.clone())).collect();
    a.sort();
    c.sort();
    ensure!(
        a.iter().map(|x| &x.0).eq(c.iter().map(|x| &x.0)),
        format!("{key}:visited"),
        "entries stored {:?}, visited {:?}",
        a.iter().map(|x| &x.0).collect::<Vec<_>>(),
        c.iter().map(|x| &x.0).collect::<Vec<_>>()
    );
    for (x, y) in a.iter().zip(&c) {
        ensure!(x.1 == y.1, format!("{key}:data"), "{:?}: {} bytes stored, {} read, different", x.0, x.1.len(), y.1.len());
    }
    Ok(())
}
pub fn check_bytes(key: &str, ch: &Ch, bytes: &[u8], want: &[Got], data: &[(String, Vec<u8>)], enc: bool) -> R {
    match read_back(Src::new(bytes), bytes.len() as u64, password(enc), 65536) {
        Ok((l, seen)) => {
            ch.state(hash_result(&l, &seen));
            same_listing(key, want, &l)?;
            for (g, _) in &seen {
                ensure!(l.contains(g), format!("{key}:visited-meta"), "the entry visited differs from the one listed: {g:?}");
            }
            same_data(key, data, &seen)
        }
        Err(e) => fail!(format!("{key}:error"), "a valid archive is refused: {e}"),
    }
}
/// All distributions of streams and empty entries: `n` slots, folders cut freely.
pub fn structure(ch: &Ch, maxn: usize, chains: &[&[C7]]) -> Spec {
    let n = ch.choose(maxn + 1);
    let mut slots = vec![];
    let mut folders: Vec<FolderSpec> = vec![];
    for i in 0..n {
        let k = ch.choose(5);
        if k >= 2 {
            slots.push([Slot::EmptyFile, Slot::Dir, Slot::Anti][k - 2]);
            continue;
        }
        slots.push(Slot::Stream);
        let d = crate::arch::text(10 + i * 7);
        if k == 0 || folders.is_empty() {
            folders.push(folder(chains[folders.len() % chains.len()], vec![d]));
        } else {
            folders.last_mut().unwrap().files.push(d);
        }
    }
    Spec::new(folders, slots)
}
pub const HDRS: &[Hdr] = &[Hdr::Plain, Hdr::Enc(&[C7::Lzma]), Hdr::Enc(&[C7::Copy]), Hdr::Enc(&[C7::Lzma2]), Hdr::Enc(&[C7::Aes, C7::Lzma]), Hdr::Enc(&[C7::Aes]), Hdr::Enc(&[C7::Bzip2]), Hdr::Enc(&[C7::Zstd]), Hdr::Enc(&[C7::Lzma, C7::X86])];

/// An archive in which some of the checksums have special values, zero among them, and what is in it.
pub fn special_checksums(ch: &Ch, packed_too: bool) -> (Built, String) {
    let special: &[Option<u32>] = &[None, Some(0), Some(1), Some(u32::MAX), Some(0xFF00), Some(0x0100_0000)];
    use crate::ref7z::*;
    let contents = if ch.flag() { crc0(b"x") } else { text(9) };
    let packed_zero = ch.flag();
    let files = if packed_zero { vec![crc0(b"whole block")] } else { vec![contents, text(5)] };
    let f = FolderSpec { fcrc: ch.flag(), pcrc: true, ..folder(&[C7::Copy], files) };
    let b = assemble(&Spec { masks: vec![4], ..Spec::new(vec![f], if packed_zero { vec![Slot::Dir, Slot::Stream] } else { vec![Slot::Dir, Slot::Stream, Slot::Stream] }) });
    let mut h = b.header.clone();
    // four free bytes near the end of the header
    h.files.as_mut().unwrap().props.push(Prop::Raw(25, vec![0; 4]));
    let mut inner = ser_header(&h, 0, false).out;
    let free = inner.len() - 6;
    let start = *ch.pick(special);
    let mut area = b.area.clone();
    let (end, what);
    let goal = |len: usize, area: usize, head: Option<u32>| -> Option<u32> {
        // the checksum of the header that gives the start header its checksum
        match start {
            Some(w) => {
                let mut s = [0u8; 20];
                s[..8].copy_from_slice(&(area as u64).to_le_bytes());
                s[8..16].copy_from_slice(&(len as u64).to_le_bytes());
                crc_patch_at(&mut s, 16, w);
                Some(u32::from_le_bytes(s[16..].try_into().unwrap()))
            }
            None => head,
        }
    };
    let head = if start.is_none() { *ch.pick(special) } else { None };
    if ch.flag() {
        if let Some(w) = goal(inner.len(), area.len(), head) {
            crc_patch_at(&mut inner, free, w);
        }
        what = "plain";
        end = inner;
    } else {
        let in_pack = packed_too && ch.flag();
        let direct = if start.is_none() && head.is_none() { *ch.pick(special) } else { None };
        let at = area.len() as u64;
        let make = |crc: u32| -> Vec<u8> {
            let c = Some(vec![Some(crc)]);
            let st = Streams {
                pack: Some(Pack { pos: at, n: 1, sizes: Some(vec![inner.len() as u64]), crcs: if in_pack { c.clone() } else { None } }),
                unpack: Some(Unpack { folders: vec![Folder { coders: vec![Coder::simple(COPY, None)], bind: vec![], packed: vec![0], sizes: vec![inner.len() as u64] }], crcs: if in_pack { None } else { c } }),
                sub: None,
            };
            ser_encoded(&st, 0, false).out
        };
        let mut e = make(0x5A5A_5A5A);
        let pos = e.windows(4).position(|w| w == [0x5A; 4]).unwrap();
        let crc = match (goal(e.len(), area.len() + inner.len(), head), direct) {
            (Some(w), _) => {
                crc_patch_at(&mut e, pos, w);
                Some(u32::from_le_bytes(e[pos..pos + 4].try_into().unwrap()))
            }
            (None, d) => d,
        };
        let inner2 = {
            let mut i = inner.clone();
            if let Some(c) = crc {
                crc_patch_at(&mut i, free, c);
            }
            i
        };
        end = make(crc32(&inner2));
        area.extend_from_slice(&inner2);
        what = "encoded";
    }
    let mut bytes = file(&area, &end);
    bytes.resize(bytes.len() + ch.choose(2) * 16, 0x77);
    let text = format!("{what} header with checksum {:#x}, start header with {:#x}", crc32(&end), u32::from_le_bytes(bytes[8..12].try_into().unwrap()));
    (Built { bytes, ..b }, text)
}

pub fn run(ctx: &Ctx) {
    // structure: streams, blocks and empty entries in every order
    let n = ctx.b(7, 8);
    ctx.explore("structure", |ch| {
        let s = structure(ch, n, &[&[C7::Copy], &[C7::Lzma2]]);
        ch.desc(|| format!("{:?} blocks {:?}", s.slots, s.folders.iter().map(|f| f.files.len()).collect::<Vec<_>>()));
        check_built("struct", ch, &assemble(&s))
    });
    // options: bounded number of departures from the usual layout, over several structures
    let shapes: Vec<Spec> = {
        let d = |n: usize| text(n);
        vec![
            Spec::new(vec![folder(&[C7::Lzma2], vec![d(100), d(20)]), folder(&[C7::Copy], vec![d(30)])], vec![Slot::Dir, Slot::Stream, Slot::Stream, Slot::EmptyFile, Slot::Stream]),
            Spec::files(vec![folder(&[C7::Copy], vec![d(10)])]),
            Spec::files(vec![folder(&[C7::Copy], vec![d(10)]), folder(&[C7::Lzma], vec![d(200)]), folder(&[C7::Lzma, C7::X86], vec![d(77)])]),
            Spec::files(vec![folder(&[C7::Copy], vec![d(1), d(2), d(3)]), folder(&[C7::Aes, C7::Lzma2], vec![d(33), d(44)])]),
            Spec::new(vec![], vec![Slot::Dir, Slot::EmptyFile, Slot::Anti]),
            Spec::new(vec![folder(&[C7::Bzip2], vec![d(500)])], vec![Slot::Stream, Slot::Dir, Slot::Dir, Slot::Dir, Slot::EmptyFile, Slot::Dir, Slot::Dir, Slot::Dir, Slot::Anti, Slot::EmptyFile]),
            Spec::files(vec![folder(&[C7::Copy], (0..9).map(|i| d(i + 1)).collect())]),
            Spec::files((0..9).map(|i| folder(&[C7::Copy], vec![d(i + 1)])).collect()),
        ]
    };
    let devs = ctx.b(3, 4);
    ctx.explore_dev("options", Some(devs), |ch| {
        let mut s = ch.pick(&shapes).clone();
        let mut what = vec![];
        macro_rules! opt {
            ($n:expr, $name:expr, $f:expr) => {{
                let k = ch.deviate($n);
                if k > 0 {
                    what.push(format!("{}={k}", $name));
                    #[allow(clippy::redundant_closure_call)]
                    $f(&mut s, k);
                }
            }};
        }
        opt!(3, "gap", |s: &mut Spec, k| s.gap = [0, 1, 200][k]);
        opt!(3, "gap_after", |s: &mut Spec, k| s.gap_after = [0, 1, 200][k]);
        opt!(3, "trailing", |s: &mut Spec, k| s.trailing = [0, 1, 500][k]);
        opt!(2, "props", |s: &mut Spec, _| s.props = true);
        opt!(6, "dummy", |s: &mut Spec, k: usize| s.dummy = [0u32, 1, 2, 4, 0x7fffffff, 1 << 31][k]);
        opt!(15, "unknown", |s: &mut Spec, k: usize| s.unknown = k as u8);
        opt!(5, "extra", |s: &mut Spec, k: usize| s.extra = [0u8, 1, 2, 4, 8][k]);
        opt!(2, "force_bits", |s: &mut Spec, _| s.force_bits = true);
        opt!(2, "no_nums", |s: &mut Spec, _| s.no_nums = true);
        opt!(2, "no_subcrc", |s: &mut Spec, _| s.no_subcrc = true);
        opt!(2, "no_names", |s: &mut Spec, _| s.write_names = false);
        opt!(2, "names_last", |s: &mut Spec, _| s.names_last = true);
        opt!(2, "empty_props", |s: &mut Spec, _| s.empty_props_explicit = true);
        opt!(3, "minor", |s: &mut Spec, k: usize| s.minor = [4u8, 0, 2][k]);
        let nf = s.folders.len();
        if nf > 0 {
            opt!(4, "pcrc", |s: &mut Spec, k| for (i, f) in s.folders.iter_mut().enumerate() {
                f.pcrc = k == 1 || k == 2 && i == 0 || k == 3 && i == nf - 1
            });
            opt!(4, "fcrc", |s: &mut Spec, k| for (i, f) in s.folders.iter_mut().enumerate() {
                f.fcrc = k == 1 || k == 2 && i == 0 || k == 3 && i == nf - 1
            });
            opt!(4, "scrc", |s: &mut Spec, k| for (i, f) in s.folders.iter_mut().enumerate() {
                f.scrc = k == 2 && i == 0 || k == 3 && i == nf - 1
            });
            opt!(2, "inner_first", |s: &mut Spec, _| for f in s.folders.iter_mut() {
                f.outer_first = false
            });
            if s.folders.iter().all(|f| f.files.len() == 1) {
                opt!(2, "no_sub", |s: &mut Spec, _| s.no_sub = true);
            }
        }
        let n = s.slots.len();
        opt!(8, "masks", |s: &mut Spec, k: usize| s.masks = (0..n)
            .map(|i| match k {
                1 => 15,
                2 => 4,
                3 => 15 * (i % 2),
                4 => 15 * ((i + 1) % 2),
                5 => i % 16,
                6 => 15 * (i == n - 1) as usize,
                _ => 15 * (i == 0) as usize,
            })
            .collect());
        let h = ch.deviate(HDRS.len());
        s.hdr = HDRS[h];
        if h > 0 {
            what.push(format!("{:?}", s.hdr));
            opt!(2, "hdr_nocrc", |s: &mut Spec, _| s.hdr_fcrc = false);
            opt!(2, "hdr_gap", |s: &mut Spec, _| s.hdr_gap = 9);
        }
        ch.desc(|| format!("{:?} {what:?}", s.slots));
        check_built("opt", ch, &assemble(&s))
    });
    // coder chains up to three coders, in both listing orders
    let cs = [C7::Copy, C7::Lzma, C7::Lzma2, C7::Bzip2, C7::Zstd, C7::Delta(1), C7::Delta(4), C7::X86, C7::Arm, C7::Armt, C7::Ppc, C7::Sparc, C7::Aes];
    let code: Vec<u8> = {
        // bytes with branch instructions of every architecture
        let mut v = vec![];
        for i in 0..40u32 {
            v.extend_from_slice(&[0xE8, i as u8 * 3, 1, 0, 0, 0x40, 0, i as u8, 0xEB]);
            v.extend_from_slice(&[0x48, 0, i as u8, 1, 0xF0, i as u8, 0xF8, 3]);
        }
        v
    };
    let lens: Vec<usize> = if ctx.quick() { vec![0, 1, 5, 13, 16, 300, 5000] } else { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 15, 16, 17, 18, 30, 31, 33, 300, 4095, 4096, 4097, 5000, 40001] };
    ctx.explore("chains", |ch| {
        let n = 1 + ch.choose(3);
        let chain: Vec<C7> = (0..n).map(|_| *ch.pick(&cs)).collect();
        let len = *ch.pick(&lens);
        let data: Vec<u8> = code.iter().cycle().take(len).copied().collect();
        let mut f = folder(&chain, if ch.flag() { vec![data[..len / 3].to_vec(), data[len / 3..].to_vec()] } else { vec![data] });
        f.outer_first = !ch.flag();
        ch.desc(|| format!("{f:?}").chars().take(300).collect());
        // a file without data cannot be told from one without a stream by its contents
        check_built("chain", ch, &assemble(&Spec::files(vec![f])))
    });
    // sizes of tables across byte boundaries
    ctx.explore("counts", |ch| {
        let files = *ch.pick(&[0usize, 1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 300]);
        let blocks = *ch.pick(&[1usize, 2, 7, 8, 9, 16, 17, 128]);
        let empties = *ch.pick(&[0usize, 1, 7, 8, 9, 16]);
        let pos = ch.choose(3);
        let crc = ch.choose(4);
        if blocks > files && files > 0 || files == 0 && blocks > 1 {
            return Ok(());
        }
        let mut folders: Vec<FolderSpec> = vec![];
        if files > 0 {
            folders = (0..blocks).map(|_| folder(&[C7::Copy], vec![])).collect();
            for i in 0..files {
                folders[i * blocks / files].files.push(text(i % 50 + 1));
            }
        }
        for (i, f) in folders.iter_mut().enumerate() {
            f.scrc = crc != 1;
            f.fcrc = crc == 2 && i % 2 == 0;
            f.pcrc = crc == 3 && i % 3 == 0;
        }
        let mut slots = vec![Slot::Stream; files];
        for i in 0..empties {
            let p = match pos {
                0 => 0,
                1 => slots.len(),
                _ => (i * 3).min(slots.len()),
            };
            slots.insert(p, if i % 2 == 0 { Slot::Dir } else { Slot::EmptyFile });
        }
        let mut s = Spec::new(folders, slots);
        s.masks = (0..s.slots.len()).map(|i| (i * 7) % 16).collect();
        ch.desc(|| format!("{files} files in {blocks} blocks, {empties} empty at {pos}, crc {crc}"));
        check_built("counts", ch, &assemble(&s))
    });
    // blocks of several packed streams among others
    ctx.explore("several-streams", |ch| {
        let n = 1 + ch.choose(ctx.b(3, 4));
        let subs = |k: usize| -> Bcj2Spec {
            let mut s = plain_spec();
            match k {
                0 => {}
                1 => s.subs = [vec![C7::Lzma], vec![C7::Copy], vec![], vec![]],
                2 => {
                    s.last = true;
                    s.order = [3, 1, 0, 2];
                    s.subs = [vec![C7::Aes, C7::Lzma2], vec![], vec![C7::Lzma], vec![]]
                }
                _ => s.order = [1, 2, 3, 0],
            }
            s
        };
        let mut folders = vec![];
        let mut nf = 0;
        for _ in 0..n {
            let k = ch.choose(6);
            let files: Vec<Vec<u8>> = (0..1 + ch.choose(2)).map(|i| if (i + nf) % 2 == 0 { crate::props::c07::branches(30 + 11 * i + nf) } else { text(20 + nf) }).collect();
            nf += files.len();
            folders.push(match k {
                0 => folder(&[C7::Copy], files),
                1 => folder(&[C7::Lzma2, C7::X86], files),
                _ => bcj2_block(subs(k - 2), 1 + (k % 2), files),
            });
        }
        let crc = ch.choose(4);
        for (i, f) in folders.iter_mut().enumerate() {
            f.scrc = crc != 1;
            f.fcrc = crc == 1 || crc == 2 && i % 2 == 0;
            f.pcrc = crc == 3 && i % 2 == 0;
        }
        let mut s = Spec::files(folders);
        if ch.flag() {
            s.slots.insert(1, Slot::Dir);
            s.gap = 5;
        }
        ch.desc(|| format!("{:?} crc {crc}", s.folders.iter().map(|f| (&f.chain, f.bcj2.as_ref().map(|b| (&b.0.subs, b.0.last)), f.files.len())).collect::<Vec<_>>()));
        check_built("several", ch, &assemble(&s))
    });
    // blocks without files between others
    ctx.explore("empty-blocks", |ch| {
        let n = 1 + ch.choose(4);
        let mut folders = vec![];
        let mut slots = vec![];
        for _ in 0..n {
            let k = ch.choose(3);
            folders.push(folder(&[C7::Copy], (0..k).map(|i| text(i + 5)).collect()));
            slots.extend(vec![Slot::Stream; k]);
        }
        if ch.flag() {
            slots.insert(ch.choose(slots.len() + 1), Slot::Dir);
        }
        let mut s = Spec::new(folders, slots);
        s.no_sub = false;
        ch.desc(|| format!("{:?}", s.folders.iter().map(|f| f.files.len()).collect::<Vec<_>>()));
        check_built("eblock", ch, &assemble(&s))
    });
    // parts that are not supported must be refused
    ctx.explore("unsupported", |ch| {
        use crate::ref7z::*;
        let b = assemble(&Spec::new(vec![folder(&[C7::Copy], vec![text(9)])], vec![Slot::Stream, Slot::Dir]));
        let which = ch.choose(9);
        let mut h = b.header.clone();
        let mut tail = None;
        match which {
            0 => h.files.as_mut().unwrap().props.push(Prop::StartPos(vec![Some(1), None])),
            1 => h.streams.as_mut().unwrap().unpack.as_mut().unwrap().folders[0].coders[0].id = vec![3, 4, 1], // PPMd
            2 => h.streams.as_mut().unwrap().unpack.as_mut().unwrap().folders[0].coders[0].id = vec![4, 1, 8], // Deflate
            3 => {
                // additional streams
                let mut v = b.ser.out.clone();
                v.splice(1..1, [3u8, 0]);
                tail = Some(v);
            }
            k => {
                // external flags: folders, names, times
                let mut h2 = h.clone();
                if k == 6 {
                    h2.files.as_mut().unwrap().props.push(Prop::Time(20, vec![Some(5), Some(6)]));
                }
                if k == 7 {
                    h2.files.as_mut().unwrap().props.push(Prop::Attr(vec![Some(5), Some(6)]));
                }
                let s = ser_header(&h2, 0, false);
                let mut v = s.out.clone();
                let is = |w: &[u8], at: usize| v[at..].starts_with(w);
                let at = match k {
                    4 => (0..v.len()).find(|i| is(&[11, 1, 0], *i)).map(|i| i + 2),
                    5 => (0..v.len()).find(|i| v[*i] == 17 && i + 2 < v.len() && v[i + 2] == 0).map(|i| i + 2),
                    6 => (0..v.len()).find(|i| is(&[20, 18, 1, 0], *i)).map(|i| i + 3),
                    7 => (0..v.len()).find(|i| is(&[21, 10, 1, 0], *i)).map(|i| i + 3),
                    _ => (0..v.len()).find(|i| is(&[11, 1, 0, 1, 1], *i)).map(|i| i + 4),
                };
                let Some(at) = at else { engine_error("field to alter not found") };
                if k == 8 {
                    v[at] |= 0x80; // alternative methods
                } else {
                    v[at] = 1;
                }
                tail = Some(v);
            }
        }
        let hb = tail.unwrap_or_else(|| ser_header(&h, 0, false).out);
        let bytes = file(&b.area, &hb);
        ch.desc(|| format!("unsupported part {which}"));
        match read_back(Src::new(&bytes), bytes.len() as u64, Password::empty(), 4096) {
            Ok((l, _)) => fail!(format!("unsup:{which}"), "an archive using unsupported part {which} was read as {l:?}"),
            Err(_) => Ok(()),
        }
    });
    // checksums are numbers like any other, zero too
    ctx.explore("checksum-values", |ch| {
        let (b, text) = special_checksums(ch, true);
        ch.desc(|| text);
        check_built("checksum", ch, &b)
    });
    // an archive with no header at all is an empty archive
    ctx.explore("no-header", |ch| {
        let mut b = crate::ref7z::start_header(0, 0, 0);
        b.resize(b.len() + ch.choose(3) * 7, 0);
        match read_back(Src::new(&b), b.len() as u64, Password::empty(), 16) {
            Ok((l, _)) => {
                ensure!(l.is_empty(), "nohdr:list", "{l:?}");
                Ok(())
            }
            Err(e) => fail!("nohdr:error", "an empty archive is refused: {e}"),
        }
    });
}
