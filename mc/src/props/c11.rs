//! C11: malformed archive headers are rejected cleanly.
use super::c07::{branches, build_bcj2, plain_spec};
use crate::arch::*;
use crate::explore::Ch;
use crate::gen::*;
use crate::io::Src;
use crate::ref7z::*;
use crate::util::*;
use sevenz_rust::*;

/// Bound on the memory taken while opening: proportional to the input.
pub fn table_limit(len: usize) -> usize {
    (64 << 10) + 4096 * len
}
const DICT: usize = 5 << 30;

/// Opens `bytes` and visits everything in it: archive or error, never anything else.
/// `limit` bounds the memory taken while opening.
pub fn examine(ch: &Ch, bytes: &[u8], limit: usize, pw: Password) -> R {
    let r = with_mem_limit(limit, limit, || SevenZReader::new(Src::new(bytes), bytes.len() as u64, pw));
    visit(ch, bytes, r)
}
pub fn visit(ch: &Ch, bytes: &[u8], r: Result<SevenZReader<Src>, Error>) -> R {
    let mut r = match r {
        Ok(r) => r,
        Err(e) => {
            ch.state(fnv(format!("{e:?}").as_bytes()));
            return Ok(());
        }
    };
    let list: Vec<Got> = r.archive().files.iter().map(got).collect();
    let mut buf = vec![0u8; 1 << 14];
    with_mem_limit(DICT, usize::MAX >> 2, || {
        let mut sizes = vec![];
        let res = r.for_each_entries(|e, rd| {
            let mut n = 0;
            let mut h = 0u64;
            while n < 1 << 20 {
                let m = rd.read(&mut buf)?;
                if m == 0 {
                    break;
                }
                h ^= fnv(&buf[..m]);
                n += m;
            }
            sizes.push((e.name().len(), n, h));
            Ok(true)
        });
        ch.state(fnv(format!("{}{sizes:?}{}", hash_result(&list, &[]), res.is_ok()).as_bytes()));
        // the parts one by one
        let a = r.archive().clone();
        let mut src = Src::new(bytes);
        for k in 0..a.folders.len() {
            let d = BlockDecoder::new(k, &a, &[], &mut src);
            let n = d.entry_count();
            assert!(d.entries().len() == n);
            let _ = d.for_each_entries(&mut |_, rd| {
                let mut n = 0;
                while n < 1 << 16 {
                    let m = rd.read(&mut buf)?;
                    if m == 0 {
                        break;
                    }
                    n += m;
                }
                Ok(true)
            });
        }
    });
    Ok(())
}
/// An archive with its parts: `head` is the header that follows `area`.
pub struct Case {
    pub name: String,
    pub area: Vec<u8>,
    pub ser: Ser,
    /// header of the archive is decoded with a dictionary
    pub dict: bool,
    pub password: bool,
}
impl Case {
    pub fn limit(&self, len: usize) -> usize {
        if self.dict {
            DICT
        } else {
            table_limit(len)
        }
    }
    pub fn check(&self, ch: &Ch, header: &[u8]) -> R {
        let b = file(&self.area, header);
        examine(ch, &b, self.limit(b.len()), password(self.password))
    }
}
pub fn cases() -> Vec<Case> {
    let d = text;
    let mut v = vec![];
    let mut add = |n: &str, b: Built| v.push(Case { name: n.into(), area: b.area, ser: b.ser, dict: false, password: false });
    add("copy", assemble(&Spec::files(vec![folder(&[C7::Copy], vec![d(9)])])));
    add(
        "kinds",
        assemble(&Spec {
            masks: vec![15, 7, 9, 2, 0],
            ..Spec::new(vec![folder(&[C7::Copy], vec![d(5), d(3)])], vec![Slot::Dir, Slot::Stream, Slot::EmptyFile, Slot::Stream, Slot::AntiDir])
        }),
    );
    let f = |c: &[C7], v: Vec<Vec<u8>>| FolderSpec { fcrc: true, pcrc: true, ..folder(c, v) };
    add("folders", assemble(&Spec { force_bits: true, ..Spec::files(vec![f(&[C7::Lzma, C7::X86], vec![d(40), d(8)]), folder(&[C7::Copy], vec![]), folder(&[C7::Lzma2], vec![d(20)])]) }));
    add("chain", assemble(&Spec { no_nums: true, ..Spec::files(vec![f(&[C7::Copy, C7::Delta(2), C7::Bzip2], vec![d(12)])]) }));
    add("aes", assemble(&Spec::files(vec![folder(&[C7::Aes], vec![d(20)])])));
    add("bcj2", {
        let x = branches(24);
        let s = crate::reffilt::bcj2_enc(&x, |_| true);
        let mut sp = plain_spec();
        sp.subs = [vec![C7::Copy], vec![], vec![], vec![]];
        build_bcj2(&sp, &[x], &s)
    });
    add("empty-only", assemble(&Spec { masks: vec![4, 8], ..Spec::new(vec![], vec![Slot::EmptyFile, Slot::Dir]) }));
    add("extras", assemble(&Spec { props: true, dummy: 3, unknown: 1, names_last: true, ..Spec::new(vec![folder(&[C7::Copy], vec![d(4)])], vec![Slot::Stream, Slot::Anti]) }));
    add("no-sub", assemble(&Spec { no_sub: true, ..Spec::files(vec![f(&[C7::Zstd], vec![d(30)])]) }));
    add("gap", assemble(&Spec { gap: 3, gap_after: 2, extra: 1, ..Spec::files(vec![folder(&[C7::Copy], vec![d(6)])]) }));
    // headers stored like contents: the fields are those of the outer header
    for (n, chain) in [("header-copy", vec![C7::Copy]), ("header-lzma", vec![C7::Lzma]), ("header-lzma2", vec![C7::Copy, C7::Lzma2]), ("header-aes", vec![C7::Aes])] {
        let b = assemble(&Spec::files(vec![folder(&[C7::Copy], vec![d(7)])]));
        let (fo, packed, whole) = encode_folder(&FolderSpec { fcrc: true, ..folder(&chain, vec![b.ser.out.clone()]) });
        let st = Streams {
            pack: Some(Pack { pos: b.area.len() as u64, n: 1, sizes: Some(vec![packed.len() as u64]), crcs: None }),
            unpack: Some(Unpack { folders: vec![fo], crcs: Some(vec![Some(crc32(&whole))]) }),
            sub: None,
        };
        let mut area = b.area.clone();
        area.extend_from_slice(&packed);
        v.push(Case { name: n.into(), area, ser: ser_encoded(&st, 0, false), dict: chain.iter().any(|c| *c == C7::Lzma || *c == C7::Lzma2), password: false });
    }
    v
}
/// Values at which a number of the format may matter, for a field that holds `v`.
fn values(v: u64, many: bool) -> Vec<u64> {
    let mut x = vec![0, 1, 2, 3, 4, 8, 64, 127, 255, 256, 1 << 31, 1 << 32, 1 << 40, 1 << 62, i64::MAX as u64, 1 << 63, u64::MAX - 31, u64::MAX - 1, u64::MAX];
    if many {
        x.extend([5, 6, 7, 9, 15, 16, 17, 31, 32, 33, 63, 65, 128, 129, 1000, 16383, 16384, 65535, 65536, 1 << 20, (1 << 24) + 1, (1 << 31) - 1, (1 << 32) - 1, 1 << 33, 1 << 48, 1 << 53, 1 << 60, i64::MAX as u64 - 32, (1 << 63) + 1, u64::MAX - 32, u64::MAX - 33, u64::MAX - 100]);
        x.extend([v.wrapping_add(1), v.wrapping_sub(1), v.wrapping_mul(2), v / 2, v.wrapping_neg(), u64::MAX / 24, u64::MAX / 8, u64::MAX / 232]);
    }
    x.sort();
    x.dedup();
    x.retain(|y| *y != v);
    x
}
/// Replacement bytes of a field.
fn mutants(f: &Field, old: &[u8], many: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    match f.kind {
        Kind::Id | Kind::Byte => {
            let all: Vec<u8> = if many { (0..=255).collect() } else { (0..=0x1A).chain([0x40, 0x7F, 0x80, 0xFF]).collect() };
            v.extend(all.into_iter().map(|b| vec![b]));
            v.push(vec![]);
        }
        Kind::Num => {
            v.extend(values(f.val, many).into_iter().map(|x| num(x, 0)));
            if many {
                for e in 1..9 {
                    v.push(num(f.val, e));
                }
                v.push(vec![]);
            }
        }
        Kind::Bits => {
            for b in [0u8, 0xFF, 0x80, 0x55, 0x01] {
                v.push(vec![b; old.len()]);
            }
            v.push(vec![]);
            v.push([old, &[0xFF; 9]].concat());
        }
        Kind::U32 | Kind::U64 => {
            v.push(vec![0; old.len()]);
            v.push(vec![0xFF; old.len()]);
            v.push(old[1..].to_vec());
        }
        Kind::Raw => {
            v.push(vec![]);
            v.push(vec![0; old.len()]);
            v.push(vec![0xFF; old.len()]);
            v.push([old, &[0; 2]].concat());
            if !old.is_empty() {
                v.push(old[1..].to_vec());
                v.push(old[..old.len() - 1].to_vec());
            }
        }
    }
    v.retain(|x| x != old);
    v
}
fn replace(out: &[u8], f: &Field, by: &[u8]) -> Vec<u8> {
    [&out[..f.off], by, &out[f.off + f.len..]].concat()
}
/// Bytes that start something in a header.
pub fn sigma() -> Vec<u8> {
    (0..=0x1Au8).chain([0x21, 0x80, 0xC0, 0xFF]).collect()
}

pub fn run(ctx: &Ctx) {
    let cs = cases();
    ctx.assume("a decoder may allocate the dictionary its properties declare (up to 4 GiB); every other allocation while opening stays below 64 KiB + 4096 x input length");
    ctx.explore("fields", |ch| {
        let c = ch.pick(&cs);
        let f = ch.pick(&c.ser.fields);
        let ms = mutants(f, &c.ser.out[f.off..f.off + f.len], true);
        let m = ch.pick(&ms);
        ch.desc(|| format!("{}: {f:?} := {m:x?}", c.name));
        c.check(ch, &replace(&c.ser.out, f, m))
    });
    ctx.explore("field-pairs", |ch| {
        let c = ch.pick(&cs);
        let n = c.ser.fields.len();
        let i = ch.choose(n - 1);
        let j = i + 1 + ch.choose(n - 1 - i);
        let (f, g) = (&c.ser.fields[i], &c.ser.fields[j]);
        let near = j - i < 4;
        let many = !ctx.quick() && near;
        let mut mf = mutants(f, &c.ser.out[f.off..f.off + f.len], many);
        let mut mg = mutants(g, &c.ser.out[g.off..g.off + g.len], many);
        if ctx.quick() && !near {
            let small = |k: Kind, v: &mut Vec<Vec<u8>>| match k {
                Kind::Id | Kind::Byte => v.retain(|b| b.len() == 1 && [0, 1, 9, 10, 0x11].contains(&b[0])),
                Kind::Num => v.retain(|b| [vec![0], vec![1], vec![2], vec![3], num(1 << 32, 0), num(u64::MAX, 0), num(1 << 63, 0)].contains(b)),
                _ => v.truncate(2),
            };
            small(f.kind, &mut mf);
            small(g.kind, &mut mg);
        }
        if mf.is_empty() || mg.is_empty() {
            return Ok(());
        }
        let (a, b) = (ch.pick(&mf), ch.pick(&mg));
        ch.desc(|| format!("{}: {f:?} := {a:x?}, {g:?} := {b:x?}", c.name));
        let out = replace(&c.ser.out, g, b);
        c.check(ch, &replace(&out, f, a))
    });
    ctx.explore("bytes", |ch| {
        let c = ch.pick(&cs);
        let mut o = c.ser.out.clone();
        let at = ch.choose(o.len());
        let b = ch.choose(256) as u8;
        ch.desc(|| format!("{}: byte {at} := {b:#x}", c.name));
        o[at] = b;
        c.check(ch, &o)
    });
    let sig = sigma();
    ctx.explore("edits", |ch| {
        let c = ch.pick(&cs);
        let o = &c.ser.out;
        match ch.choose(4) {
            // cut short, or the end repeated
            0 => {
                let n = ch.choose(o.len());
                ch.desc(|| format!("{}: cut to {n}", c.name));
                c.check(ch, &o[..n])
            }
            1 => {
                let i = ch.choose(o.len());
                let n = 1 + ch.choose((o.len() - i).min(ctx.b(12, 60)));
                ch.desc(|| format!("{}: without {i}+{n}", c.name));
                c.check(ch, &[&o[..i], &o[i + n..]].concat())
            }
            2 => {
                let i = ch.choose(o.len() + 1);
                let b = *ch.pick(&sig);
                let n = *ch.pick(&[1usize, 2, 9]);
                ch.desc(|| format!("{}: {n} x {b:#x} at {i}", c.name));
                c.check(ch, &[&o[..i], &vec![b; n][..], &o[i..]].concat())
            }
            _ => {
                let i = ch.choose(o.len());
                let n = 1 + ch.choose((o.len() - i).min(ctx.b(12, 60)));
                ch.desc(|| format!("{}: {i}+{n} twice", c.name));
                c.check(ch, &[&o[..i + n], &o[i..]].concat())
            }
        }
    });
    // two bytes next to each other
    ctx.explore("byte-pairs", |ch| {
        let c = ch.pick(&cs);
        let mut o = c.ser.out.clone();
        let at = ch.choose(o.len() - 1);
        let d = 1 + ch.choose(ctx.b(3, 12).min(o.len() - 1 - at));
        let (a, b) = (*ch.pick(&sig), *ch.pick(&sig));
        ch.desc(|| format!("{}: bytes {at}, {} := {a:#x} {b:#x}", c.name, at + d));
        o[at] = a;
        o[at + d] = b;
        c.check(ch, &o)
    });
    ctx.explore("short-headers", |ch| {
        let mut h = vec![*ch.pick(&[1u8, 0x17])];
        for _ in 0..ctx.b(4, 5) {
            if ch.flag() {
                break;
            }
            h.push(*ch.pick(&sig));
        }
        ch.desc(|| format!("{h:x?}"));
        let area = [0x11u8; 5];
        let b = file(&area, &h);
        examine(ch, &b, DICT, Password::empty())
    });
    // sequences of whole sections
    let sections: Vec<Vec<u8>> = {
        let fo = |n: u8| [&[7, 11, 1, 0, 1, 1, 0, 12, n][..], &[0]].concat();
        vec![
            vec![4],
            vec![6, 0, 1, 9, 5, 0],
            vec![6, 0, 0, 0],
            fo(5),
            [&[7, 11, 2, 0, 1, 1, 0, 1, 1, 0, 12, 3, 4][..], &[10, 1], &[0; 8], &[0]].concat(),
            vec![8, 13, 2, 9, 3, 0],
            vec![8, 13, 0, 0],
            vec![0],
            vec![5, 1, 0x11, 5, 0, b'a', 0, 0, 0, 0],
            vec![5, 2, 14, 1, 0x40, 0],
            vec![2, 0x21, 1, 0, 0],
            vec![3],
        ]
    };
    ctx.explore("sections", |ch| {
        let mut h = vec![*ch.pick(&[1u8, 0x17])];
        for _ in 0..ctx.b(4, 6) {
            if ch.flag() {
                break;
            }
            h.extend_from_slice(ch.pick(&sections));
        }
        ch.desc(|| format!("{h:x?}"));
        let b = file(&[0x11; 5], &h);
        examine(ch, &b, table_limit(b.len()), Password::empty())
    });
    // every small graph of coders
    ctx.explore("coder-graphs", |ch| {
        let maxc = ctx.b(2, 3);
        let n = ch.choose(maxc + 1);
        let mut coders = vec![];
        for _ in 0..n {
            let id = *ch.pick(&[COPY, &[3, 3, 1, 0x1B][..], DELTA]);
            let shapes: &[(u64, u64)] = if n > 2 { &[(1, 1), (4, 1), (2, 1), (1, 2)] } else { &[(1, 1), (4, 1), (2, 1), (1, 2), (0, 1), (1, 0), (2, 2), (5, 1)] };
            let (i, o) = *ch.pick(shapes);
            coders.push(Coder { id: id.to_vec(), props: None, nin: i, nout: o, complex: true });
        }
        let nin: u64 = coders.iter().map(|c| c.nin).sum();
        let nout: u64 = coders.iter().map(|c| c.nout).sum();
        let lim = if n > 2 { 3 } else { 4 };
        let idx = |k: u64| -> Vec<u64> { (0..=k.min(lim)).chain(if n > 2 { None } else { Some(u64::MAX) }).collect() };
        let mut bind = vec![];
        for k in 0..nout.saturating_sub(1) {
            if k < 2 {
                bind.push((*ch.pick(&idx(nin)), *ch.pick(&idx(nout))));
            } else {
                bind.push((k, k));
            }
        }
        let np = nin.saturating_sub(bind.len() as u64);
        let mut packed = vec![];
        if np != 1 {
            for k in 0..np {
                let own: Vec<u64> = (0..nin).filter(|i| !bind.iter().any(|b| b.0 == *i)).collect();
                packed.push(if k < 1 { *ch.pick(&idx(nin)) } else { own.get(k as usize).copied().unwrap_or(0) });
            }
        }
        // too few, enough or more packed streams than needed
        let ns = (np + 1).saturating_sub(ch.choose(3) as u64);
        let fo = Folder { coders, bind, packed, sizes: vec![4; nout as usize] };
        let st = Streams {
            pack: Some(Pack { pos: 0, n: ns, sizes: Some(vec![2; ns as usize]), crcs: None }),
            unpack: Some(Unpack { folders: vec![fo], crcs: None }),
            sub: None,
        };
        let enc = ch.flag();
        let h = if enc {
            ser_encoded(&st, 0, false).out
        } else {
            let names = vec![vec![b'a' as u16]];
            ser_header(&Header { props: None, streams: Some(st), files: Some(Files { n: 1, props: vec![Prop::Names(names)] }) }, 0, false).out
        };
        ch.desc(|| format!("{h:x?}"));
        let b = file(&[1; 12], &h);
        examine(ch, &b, table_limit(b.len()), Password::empty())
    });
    // counts of entries, blocks and streams that do not fit together
    ctx.explore("counts", |ch| {
        let nfold = ch.choose(4);
        let nf = ch.choose(6) as u64;
        let files_part = ch.choose(3);
        let pack_n = ch.choose(4);
        let mut nums = vec![];
        for _ in 0..nfold {
            nums.push(ch.choose(3) as u64);
        }
        let sizes = ch.choose(4);
        let empty = ch.choose(3);
        let mut props = vec![];
        if empty > 0 {
            props.push(Prop::EmptyStream((0..nf).map(|i| i % 2 == empty as u64 - 1).collect()));
        }
        let names_n = ch.choose(3);
        if names_n > 0 {
            props.push(Prop::Names(vec![vec![b'x' as u16]; (nf as usize + 2 - names_n).max(0)]));
        }
        let fo = Folder { coders: vec![Coder::simple(COPY, None)], bind: vec![], packed: vec![0], sizes: vec![3] };
        let st = Streams {
            pack: if pack_n == 0 { None } else { Some(Pack { pos: 0, n: pack_n as u64 - 1, sizes: Some(vec![3; pack_n - 1]), crcs: None }) },
            unpack: if nfold == 0 { None } else { Some(Unpack { folders: vec![fo; nfold], crcs: None }) },
            sub: if nfold == 0 { None } else { Some(Sub { nums: Some(nums.clone()), sizes: if sizes == 0 { None } else { Some(vec![1; sizes - 1]) }, crcs: None }) },
        };
        let h = Header {
            props: None,
            streams: if files_part == 2 { None } else { Some(st) },
            files: if files_part == 0 { None } else { Some(Files { n: nf, props }) },
        };
        let h = ser_header(&h, 0, false).out;
        ch.desc(|| format!("{h:x?}"));
        let b = file(&[1; 12], &h);
        examine(ch, &b, table_limit(b.len()), Password::empty())
    });
    // the start header
    ctx.explore("start-header", |ch| {
        let b = assemble(&Spec::files(vec![folder(&[C7::Copy], vec![text(9)])]));
        let off = b.area.len() as u64;
        let len = b.ser.out.len() as u64;
        let mut vals = values(off, true);
        vals.extend([off, len, off + len, off + len + 32, (b.bytes.len() as u64).wrapping_neg()]);
        let (o, l) = (*ch.pick(&vals), *ch.pick(&vals));
        let crc = *ch.pick(&[crc32(&b.ser.out), 0, crc32(&[])]);
        let mut f = start_header(o, l, crc);
        f.extend_from_slice(&b.area);
        f.extend_from_slice(&b.ser.out);
        if ch.flag() {
            f.truncate(32);
        }
        ch.desc(|| format!("offset {o:#x}, size {l:#x}"));
        examine(ch, &f, table_limit(f.len()), Password::empty())
    });
    ctx.explore("stub-files", |ch| {
        let b = assemble(&Spec::files(vec![folder(&[C7::Copy], vec![text(9)])]));
        let n = ch.choose(b.bytes.len() + 1);
        let mut f = b.bytes[..n].to_vec();
        let at = ch.choose(n.min(33) + 1);
        if at < n {
            f[at] = *ch.pick(&[0u8, 1, 0x37, 0xFF]);
        }
        // the declared length of the source need not be true either
        let len = *ch.pick(&[n as u64, 0, 1, 31, 32, 33, u64::MAX, 1 << 63]);
        ch.desc(|| format!("{n} bytes, changed at {at}, length {len}"));
        let limit = table_limit(n);
        let r = with_mem_limit(limit, limit, || SevenZReader::new(Src::new(&f), len, Password::empty()));
        visit(ch, &f, r)
    });
    // large headers take time in proportion, too
    ctx.explore("large", |ch| {
        let n = ctx.b(20_000usize, 200_000);
        let kind = ch.choose(6);
        let b = match kind {
            0 => assemble(&Spec::new(vec![], vec![Slot::EmptyFile; n])),
            1 => assemble(&Spec::files(vec![folder(&[C7::Copy], vec![vec![1]; n])])),
            2 => assemble(&Spec::files(vec![FolderSpec { fcrc: true, ..folder(&[C7::Copy], vec![vec![1]]) }; n])),
            3 => assemble(&Spec { masks: vec![15; n], ..Spec::new(vec![], vec![Slot::Dir; n]) }),
            4 => assemble(&Spec::files(vec![folder(&[C7::Copy], vec![]); n])),
            _ => assemble(&Spec { write_names: false, ..Spec::new(vec![], vec![Slot::Dir; n]) }),
        };
        // whole, or the counts say more than there is
        let mut h = b.ser.out.clone();
        match ch.choose(3) {
            0 => {}
            1 => h.truncate(h.len() * 2 / 3),
            _ => {
                let nums: Vec<Field> = b.ser.fields.iter().filter(|f| f.kind == Kind::Num && f.val == n as u64).copied().collect();
                if nums.is_empty() {
                    return Ok(());
                }
                h = replace(&h, ch.pick(&nums), &num(n as u64 * 9, 0));
            }
        }
        ch.desc(|| format!("kind {kind}, {n} entries"));
        let f = file(&b.area, &h);
        examine(ch, &f, table_limit(f.len()), Password::empty())
    });
    // mutated headers behind an intact outer header
    ctx.explore("inner-headers", |ch| {
        let chain = *ch.pick(&[&[C7::Copy][..], &[C7::Lzma], &[C7::Aes]]);
        let ci = ch.choose(4);
        let c = &cs[ci];
        let i = ch.choose(c.ser.fields.len());
        let f = &c.ser.fields[i];
        let ms = mutants(f, &c.ser.out[f.off..f.off + f.len], !ctx.quick());
        if ms.is_empty() {
            return Ok(());
        }
        let m = ch.pick(&ms);
        ch.desc(|| format!("{}: {f:?} := {m:x?} in a header stored with {chain:?}", c.name));
        let h = replace(&c.ser.out, f, m);
        let (fo, packed, whole) = encode_folder(&FolderSpec { fcrc: true, ..folder(chain, vec![h]) });
        let st = Streams {
            pack: Some(Pack { pos: c.area.len() as u64, n: 1, sizes: Some(vec![packed.len() as u64]), crcs: None }),
            unpack: Some(Unpack { folders: vec![fo], crcs: Some(vec![Some(crc32(&whole))]) }),
            sub: None,
        };
        let area = [&c.area[..], &packed].concat();
        let b = file(&area, &ser_encoded(&st, 0, false).out);
        let enc = chain == [C7::Aes];
        // (the dictionary of the LZMA headers is 64 KiB)
        examine(ch, &b, table_limit(b.len()) + (2 << 20), password(enc))
    });
}
