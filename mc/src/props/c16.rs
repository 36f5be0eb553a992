//! C16: every crash image of a write history.
use super::c01::{alphabet, run_history_on, Op};
use super::c10::{look, sample, Sample};
use crate::arch::*;
use crate::explore::Ch;
use crate::io::{Sink, Src, WriteRec};
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::*;

/// A write history with what was on the medium before.
struct Written {
    name: String,
    base: Vec<u8>,
    log: Vec<WriteRec>,
    /// bytes written in all
    total: usize,
    /// what may be presented: the new archive, and the one that was there before
    new: Sample,
    old: Option<Sample>,
    /// position of the header in the new archive and whether it is stored plainly
    header: usize,
    plain: bool,
}
fn header_at(b: &[u8]) -> usize {
    32 + u64::from_le_bytes(b[12..20].try_into().unwrap()) as usize
}
fn write(name: &str, ops: &[Op], start: Chain, eh: bool, base: Vec<u8>, old: Option<Sample>) -> R<Written> {
    let s = Sink::new();
    {
        let mut b = s.0.borrow_mut();
        b.data = base.clone();
        b.log = Some(vec![]);
    }
    let (bytes, want, enc) = run_history_on(&s, ops, start, eh, "write", false)?;
    let log = s.0.borrow_mut().log.take().unwrap();
    let total = log.iter().map(|w| w.data.len()).sum();
    let Some(new) = sample(name, bytes, enc) else { fail!("write:read", "{name}: the completed archive does not open") };
    compare("complete", &want, &new.list, &new.seen)?;
    let header = header_at(&new.bytes);
    let plain = new.bytes[header] == 1;
    Ok(Written { name: name.into(), base, log, total, new, old, header, plain })
}
/// The medium after `cut` bytes of the history.
fn prefix(w: &Written, cut: usize) -> Vec<u8> {
    let mut v = w.base.clone();
    let mut left = cut;
    for r in &w.log {
        if left == 0 {
            break;
        }
        let n = r.data.len().min(left);
        let p = r.pos as usize;
        if v.len() < p + n {
            v.resize(p + n, 0);
        }
        v[p..p + n].copy_from_slice(&r.data[..n]);
        left -= n;
    }
    v
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fill {
    Before,
    Zero,
    Ones,
}
/// Block `k` of `size` bytes never reached the medium.
fn lose(w: &Written, v: &mut [u8], k: usize, size: usize, fill: Fill) {
    let a = (k * size).min(v.len());
    let b = (a + size).min(v.len());
    for i in a..b {
        v[i] = match fill {
            Fill::Before => w.base.get(i).copied().unwrap_or(0),
            Fill::Zero => 0,
            Fill::Ones => 0xFF,
        };
    }
}
/// A header without its start header carries no checksum.
fn unprotected(w: &Written, v: &[u8]) -> bool {
    let blank = v.len() >= 32 && v[..6] == *b"7z\xBC\xAF\x27\x1C" && v[8..32].iter().all(|x| *x == 0);
    let end = w.header + u64::from_le_bytes(w.new.bytes[20..28].try_into().unwrap()) as usize;
    let damaged = v.len() < end || v[w.header..end] != w.new.bytes[w.header..end];
    // 01 00 behind a blank start header is all there is to a blanked empty archive
    blank && (w.plain && damaged || v[32..] == [1, 0])
}
/// An error, or entries exactly as added, or errors for them.
fn judge(ch: &Ch, w: &Written, v: &[u8], portion: usize) -> R {
    if unprotected(w, v) {
        return Ok(());
    }
    if let Some(o) = &w.old {
        // which of the two is presented?
        if let Ok(r) = SevenZReader::new(Src::new(v), v.len() as u64, password(o.enc)) {
            let l: Vec<Got> = r.archive().files.iter().map(got).collect();
            if l == o.list {
                return look("image:old", ch, o, v, portion);
            }
        }
    }
    look("image", ch, &w.new, v, portion)
}
fn whole(w: &Written) -> R {
    let v = prefix(w, w.total);
    ensure!(v == w.new.bytes, "image:engine", "the write log does not produce the archive");
    ensure!(w.new.list.iter().all(|g| g.size == 0 || g.crc.is_some()), "complete:crc", "{}: contents without a checksum", w.name);
    Ok(())
}
/// Histories over the alphabet of C01.
fn histories(depth: usize, bases: &dyn Fn(usize) -> Vec<(String, Vec<u8>, Option<Sample>)>) -> R<Vec<Written>> {
    let al = alphabet();
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|s| (0..al.len()).map(move |i| [&s[..], &[i]].concat())).collect();
        seqs.extend(last.iter().cloned());
    }
    let mut v = vec![];
    for q in &seqs {
        let ops: Vec<Op> = q.iter().map(|i| al[*i].clone()).collect();
        for (start, eh) in [(Chain::Lzma2, true), (Chain::AesLzma2, true), (Chain::AesLzma2, false)] {
            if start == Chain::AesLzma2 && q.len() == depth && depth > 2 {
                continue;
            }
            for (n, base, old) in bases(q.len()) {
                v.push(write(&format!("{q:?} {start:?} {eh} on {n}"), &ops, start, eh, base, old)?);
            }
        }
    }
    Ok(v)
}
/// An archive that was on the medium before, and its sample.
fn earlier(kind: usize) -> (String, Vec<u8>, Option<Sample>) {
    let t = |n: usize| noise(n, 77);
    let (c, eh, groups): (Chain, bool, Vec<Vec<Ent>>) = match kind {
        0 => (Chain::Lzma2, true, vec![vec![Ent::file("old", &t(30))]]),
        1 => (Chain::Lzma2, true, (0..8).map(|i| vec![Ent { mtime: Some(i), ..Ent::file(&format!("old/entry number {i}"), &t(40 + i as usize)) }]).collect()),
        // the same names and sizes as the first entries of the histories, with other contents
        2 => (Chain::Lzma2, true, vec![vec![Ent::file("f0", b"HELLO WORLD, HELLO WORLD")]]),
        3 => (Chain::Lzma2, true, vec![vec![Ent::file("s0", b"FIRST"), Ent::file("t0", b"SECOND!")], vec![Ent::file("f1", b"HELLO WORLD, HELLO WORLD")]]),
        _ => (Chain::AesLzma2, true, vec![vec![Ent::file("f0", b"HELLO WORLD, HELLO WORLD"), Ent::file("x", &t(100))]]),
    };
    let b = build(c, eh, &groups);
    let s = sample("earlier", b.clone(), c.encrypted());
    (format!("earlier archive {kind}"), b, s)
}
fn blank_medium(n: usize, x: u8) -> (String, Vec<u8>, Option<Sample>) {
    (format!("{n} bytes of {x:#x}"), vec![x; n], None)
}
fn setup<T>(ctx: &Ctx, r: R<T>) -> Option<T> {
    match r {
        Ok(x) => Some(x),
        Err(f) => {
            // a history that does not even complete
            ctx.explore("histories", |_| Err(f.clone()));
            None
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("blocks of a plain (unencoded) header are not missing while the start header is blank: nothing in the format covers such a header with a checksum");
    let q = ctx.quick();
    // every prefix of every history, on every medium
    let bases = |_: usize| -> Vec<(String, Vec<u8>, Option<Sample>)> {
        let mut v = vec![blank_medium(0, 0), blank_medium(600, 0), blank_medium(600, 0xFF)];
        v.extend((0..5).map(earlier));
        v
    };
    let Some(ws) = setup(ctx, histories(ctx.b(2, 3), &bases)) else { return };
    ctx.explore("prefixes", |ch| {
        let w = ch.pick(&ws);
        let cut = w.total - ch.choose(w.total + 1);
        if cut == w.total {
            whole(w)?;
        }
        let v = prefix(w, cut);
        ch.desc(|| format!("{}: {cut} of {} bytes written", w.name, w.total));
        judge(ch, w, &v, 4096)
    });
    let few = |n: usize| -> Vec<(String, Vec<u8>, Option<Sample>)> {
        if n > 2 {
            vec![blank_medium(0, 0)]
        } else {
            vec![blank_medium(0, 0), blank_medium(600, 0xFF), earlier(1), earlier(2)]
        }
    };
    let few1 = |n: usize| -> Vec<(String, Vec<u8>, Option<Sample>)> {
        if n > 1 {
            vec![blank_medium(0, 0)]
        } else {
            few(n)
        }
    };
    let Some(ws3) = setup(ctx, if q { histories(2, &few1) } else { histories(3, &few) }) else { return };
    // the end of the file never reached the medium
    ctx.explore("cut-off", |ch| {
        let w = ch.pick(&ws3);
        // all of it written, or the start header just not, or in part
        let back = *ch.pick(&[0usize, 1, 12, 24, 31, 32]);
        let v = prefix(w, w.total - back.min(w.total));
        let n = ch.choose(v.len() + 1);
        ch.desc(|| format!("{}: all but {back} bytes written, the first {n} of {} bytes on the medium", w.name, v.len()));
        judge(ch, w, &v[..n], 4096)
    });
    // lost blocks, one at every cut
    let step = ctx.b(24, 16);
    ctx.explore("one-lost-block", |ch| {
        let w = ch.pick(&ws3);
        let cut = w.total - ch.choose(w.total.min(ctx.b(33, 200)) + 1);
        let mut v = prefix(w, cut);
        let fill = *ch.pick(&[Fill::Before, Fill::Zero, Fill::Ones]);
        let k = ch.choose(v.len().div_ceil(step).max(1));
        lose(w, &mut v, k, step, fill);
        ch.desc(|| format!("{}: {cut} of {} bytes written, block {k} of {step} bytes lost ({fill:?})", w.name, w.total));
        judge(ch, w, &v, 4096)
    });
    // any set of blocks lost, each left as it was, zero or ones
    let rich: Vec<Written> = {
        let e = |n: &str, k: usize| Op::Push(Ent::file(n, &text(k)));
        let g = Op::Solid(vec![Ent::file("s", &noise(40, 2)), Ent::file("e", b""), Ent::file("t", &text(60))]);
        let hs: Vec<(Vec<Op>, Chain, bool)> = vec![
            (vec![e("f", 24)], Chain::Lzma2, true),
            (vec![g.clone(), e("g", 40), Op::Push(Ent::dir("d"))], Chain::Lzma2, true),
            (vec![g.clone(), e("g", 40)], Chain::AesLzma2, true),
            (vec![e("a", 50), g.clone()], Chain::AesLzma2, false),
            (vec![Op::Methods(Chain::Lzma), e("a", 50), Op::Methods(Chain::Aes), g.clone(), e("b", 7)], Chain::Lzma2, true),
            ((0..9).map(|i| e(&format!("some/path/with/a/long/name{i}"), 20 + i)).collect(), Chain::Lzma2, true),
        ];
        let mut v = vec![];
        for (i, (ops, c, eh)) in hs.iter().enumerate() {
            for (n, b, o) in [blank_medium(0, 0), blank_medium(900, 0xFF), earlier(1), earlier(4)] {
                match setup(ctx, write(&format!("history {i} on {n}"), ops, *c, *eh, b, o)) {
                    Some(w) => v.push(w),
                    None => return,
                }
            }
        }
        v
    };
    let sizes: &[usize] = if q { &[32] } else { &[32, 16] };
    ctx.explore_dev("lost-blocks", Some(ctx.b(3, 4)), |ch| {
        let w = ch.pick(&rich);
        let size = *ch.pick(sizes);
        let back = *ch.pick(&[0usize, 16, 24, 32]);
        let cut = w.total - back;
        let mut v = prefix(w, cut);
        let n = v.len().div_ceil(size);
        let mut lost = vec![];
        for k in 0..n {
            let c = ch.deviate(4);
            if c > 0 {
                let f = [Fill::Before, Fill::Zero, Fill::Ones][c - 1];
                lose(w, &mut v, k, size, f);
                lost.push((k, f));
            }
        }
        ch.desc(|| format!("{}: all but {back} bytes written, blocks of {size} bytes lost: {lost:?}", w.name));
        judge(ch, w, &v, 4096)
    });
    // every subset of larger blocks
    ctx.explore("subsets", |ch| {
        let w = ch.pick(&rich);
        let cut = w.total - *ch.pick(&[0usize, 24, 32]);
        let mut v = prefix(w, cut);
        let n = v.len();
        let parts = ctx.b(8, 11);
        let size = n.div_ceil(parts);
        let f = *ch.pick(&[Fill::Before, Fill::Zero, Fill::Ones]);
        let mut lost = vec![];
        for k in 0..n.div_ceil(size) {
            if ch.flag() {
                lose(w, &mut v, k, size, f);
                lost.push(k);
            }
        }
        ch.desc(|| format!("{}: {cut} of {} bytes written, blocks {lost:?} of {size} bytes lost ({f:?})", w.name, w.total));
        judge(ch, w, &v, 4096)
    });
    // an archive of many sectors
    let large: Vec<Written> = {
        let e = |n: &str, k: usize| Op::Push(Ent::file(n, &noise(k, k as u64)));
        let g = Op::Solid((0..6).map(|i| Ent::file(&format!("s{i}"), &noise(3000 + 700 * i, i as u64))).collect());
        let many: Vec<Op> = (0..400).map(|i| Op::Push(Ent { mtime: Some(i * 7919), ..Ent::file(&format!("{i}-{}", "name".repeat(i as usize % 7)), &noise(20 + i as usize % 50, i)) })).collect();
        let hs: Vec<(Vec<Op>, Chain, bool)> = vec![
            (vec![e("a", 30_000), g.clone(), e("b", 70_000)], Chain::Lzma2, true),
            (vec![e("a", 30_000), g.clone(), e("b", 9_000)], Chain::AesLzma2, true),
            (many, Chain::Lzma2, true),
        ];
        let old: Vec<Vec<Ent>> = vec![vec![Ent::file("a0", &noise(30_000, 999))], vec![Ent::file("b2", &noise(120_000, 998))]];
        let ob = build(Chain::Lzma2, true, &old);
        let mut v = vec![];
        for (i, (ops, c, eh)) in hs.iter().enumerate() {
            for (n, b, o) in [blank_medium(0, 0), ("a larger archive".to_string(), ob.clone(), sample("earlier", ob.clone(), false))] {
                match setup(ctx, write(&format!("large history {i} on {n}"), ops, *c, *eh, b, o)) {
                    Some(w) => v.push(w),
                    None => return,
                }
            }
        }
        v
    };
    ctx.explore_dev("sectors", Some(ctx.b(1, 2)), |ch| {
        let w = ch.pick(&large);
        let size = *ch.pick(&[4096usize, 512]);
        if size == 512 && !q && w.total > 60_000 {
            return Ok(());
        }
        let back = *ch.pick(&[0usize, 24, 32]);
        let mut v = prefix(w, w.total - back);
        let n = v.len().div_ceil(size);
        let mut lost = vec![];
        for k in 0..n {
            let c = ch.deviate(3);
            if c > 0 {
                let f = [Fill::Before, Fill::Ones][c - 1];
                lose(w, &mut v, k, size, f);
                lost.push((k, f));
            }
        }
        ch.desc(|| format!("{}: all but {back} bytes written, sectors of {size} bytes lost: {lost:?}", w.name));
        judge(ch, w, &v, 65536)
    });
    ctx.explore("large-prefixes", |ch| {
        let w = ch.pick(&large);
        // at every write of the history
        let i = ch.choose(w.log.len() + 1);
        let at: usize = w.log[..i].iter().map(|r| r.data.len()).sum();
        let cut = (at + *ch.pick(&[0usize, 1])).min(w.total);
        let v = prefix(w, cut);
        ch.desc(|| format!("{}: {cut} of {} bytes written", w.name, w.total));
        judge(ch, w, &v, 65536)
    });
}
