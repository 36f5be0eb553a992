//! C02: metadata round trip.
use crate::arch::*;
use crate::explore::Ch;
use crate::io::Sink;
use crate::util::*;
use crate::{ensure, fail};

pub fn want_got(e: &Ent) -> Got {
    Got { name: e.name.clone(), dir: e.dir, anti: e.anti, has_stream: false, size: 0, crc: None, ctime: e.ctime, atime: e.atime, mtime: e.mtime, attr: e.attr }
}
/// Compares every metadata field of the listing.
pub fn compare_meta(key: &str, want: &[Ent], list: &[Got]) -> R {
    ensure!(list.len() == want.len(), format!("{key}:count"), "{} entries added, {} listed", want.len(), list.len());
    for (i, (w, g)) in want.iter().zip(list).enumerate() {
        macro_rules! same {
            ($f:ident) => {
                ensure!(w.$f == g.$f, format!("{key}:{}", stringify!($f)), "entry {i} {:?}: {} is {:?}, was added as {:?}", w.name, stringify!($f), g.$f, w.$f);
            };
        }
        same!(name);
        same!(dir);
        same!(anti);
        same!(ctime);
        same!(atime);
        same!(mtime);
        same!(attr);
        let stream = w.len() > 0;
        ensure!(!stream || g.has_stream, format!("{key}:stream"), "entry {i} {:?}: has {} bytes but is listed without a stream", w.name, w.len());
        ensure!(stream || g.size == 0, format!("{key}:size"), "entry {i} {:?}: has no data but is listed with size {}", w.name, g.size);
    }
    Ok(())
}
pub fn write_all(key: &str, c: Chain, enc: bool, groups: &[Vec<Ent>]) -> R<Vec<u8>> {
    let s = Sink::new();
    let mut w = match writer(s.clone(), c, enc) {
        Ok(w) => w,
        Err(e) => fail!(format!("{key}:new"), "{e}"),
    };
    for g in groups {
        let r = if g.len() == 1 { push(&mut w, &g[0]).map(|_| ()) } else { push_solid(&mut w, g) };
        if let Err(e) = r {
            fail!(format!("{key}:push-error"), "add failed: {e}");
        }
    }
    if let Err(e) = w.finish() {
        fail!(format!("{key}:finish-error"), "finish failed: {e}");
    }
    Ok(s.take())
}
fn check(key: &str, ch: &Ch, c: Chain, groups: &[Vec<Ent>]) -> R {
    let b = write_all(key, c, true, groups)?;
    let want: Vec<Ent> = groups.concat();
    match read_bytes(&b, c.encrypted()) {
        Ok((l, seen)) => {
            ch.state(hash_result(&l, &seen));
            compare_meta(key, &want, &l)?;
            compare_seen(key, &want, &seen)?;
            // the entries handed to the callback carry the same metadata
            for (g, _) in &seen {
                ensure!(l.contains(g), format!("{key}:visited-meta"), "the entry visited differs from the one listed: {g:?}");
            }
            Ok(())
        }
        Err(e) => fail!(format!("{key}:read-error"), "reading the archive back failed: {e}"),
    }
}
pub fn kind(k: usize, name: &str) -> Ent {
    match k {
        0 => Ent::file(name, b"data of the file"),
        1 => Ent::none(name),
        2 => Ent::dir(name),
        3 => Ent::anti(name),
        4 => {
            let mut e = Ent::anti(name);
            e.dir = true;
            e
        }
        _ => Ent::file(name, b""),
    }
}
/// mask bits: ctime, atime, mtime, attr; values distinct per entry and field
pub fn stamp(e: &mut Ent, mask: usize, i: usize) {
    let t = |f: u64| Some(0x01D5_3F4B_6E2A_0000u64 + (i as u64) * 0x1_0001 + f * 0x0100_0000_0000);
    if mask & 1 != 0 {
        e.ctime = t(1)
    }
    if mask & 2 != 0 {
        e.atime = t(2)
    }
    if mask & 4 != 0 {
        e.mtime = t(3)
    }
    if mask & 8 != 0 {
        e.attr = Some(0x8000_0020 + (i as u32) * 0x10001)
    }
}
pub fn run(ctx: &Ctx) {
    // every presence pattern over few entries
    let maxn = ctx.b(2, 3);
    ctx.explore("presence-patterns", |ch| {
        let n = 1 + ch.choose(maxn);
        let mut v = vec![];
        for i in 0..n {
            let kinds = if n == 3 { 4 } else { 6 };
            let mut e = kind(ch.choose(kinds), &format!("n{i}"));
            stamp(&mut e, ch.choose(16), i);
            v.push(vec![e]);
        }
        ch.desc(|| format!("{v:?}"));
        check("pres", ch, Chain::Lzma2, &v)
    });
    // one differing entry among n, across byte boundaries of the bit vectors
    ctx.explore("one-differs", |ch| {
        let n = if ctx.quick() { *ch.pick(&[7usize, 8, 9, 16, 17]) } else { 5 + ch.choose(30) };
        let base_kind = ch.choose(6);
        let odd_kind = ch.choose(6);
        let base_mask = *ch.pick(&[0usize, 15]);
        let odd_mask = *ch.pick(&[0usize, 1, 2, 4, 8, 15, 14, 13, 11, 7]);
        let p = ch.choose(n);
        let mut v = vec![];
        for i in 0..n {
            let mut e = kind(if i == p { odd_kind } else { base_kind }, &format!("n{i}"));
            stamp(&mut e, if i == p { odd_mask } else { base_mask }, i);
            v.push(vec![e]);
        }
        ch.desc(|| format!("n={n} kind {base_kind} mask {base_mask}, at {p}: kind {odd_kind} mask {odd_mask}"));
        check("one", ch, Chain::Lzma2, &v)
    });
    // all kinds of sequences (anti, directory, empty, file) for longer lists
    let len = ctx.b(5, 7);
    ctx.explore("kind-sequences", |ch| {
        let n = 1 + ch.choose(len);
        let v: Vec<Vec<Ent>> = (0..n)
            .map(|i| {
                let k = ch.choose(5);
                let mut e = kind(k, &format!("n{i}"));
                stamp(&mut e, k * 3 + i & 15, i);
                vec![e]
            })
            .collect();
        ch.desc(|| format!("{v:?}"));
        check("kinds", ch, Chain::Lzma2, &v)
    });
    // extreme values
    let times = [0u64, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 116444736000000000, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX];
    let attrs = [0u32, 1, 0x10, 0x7fff_ffff, 0x8000_0000, u32::MAX];
    ctx.explore("values", |ch| {
        let n = 1 + ch.choose(2);
        let mut v = vec![];
        for i in 0..n {
            let mut e = kind(ch.choose(3), &format!("n{i}"));
            match ch.choose(4) {
                0 => e.ctime = Some(*ch.pick(&times)),
                1 => e.atime = Some(*ch.pick(&times)),
                2 => e.mtime = Some(*ch.pick(&times)),
                _ => e.attr = Some(*ch.pick(&attrs)),
            }
            v.push(vec![e]);
        }
        ch.desc(|| format!("{v:?}"));
        check("val", ch, Chain::Lzma2, &v)
    });
    // names
    let names: Vec<String> = {
        let mut v: Vec<String> = ["", "a", "a/b", "dir/", "a b", "\u{e9}t\u{e9}", "\u{4e2d}\u{6587}.txt", "\u{1F600}", "\u{10FFFF}", "\u{FFFF}", "\u{FEFF}x", "\u{100}", "\u{1}", "..", "/abs", "C:\\x", "a\nb", "\u{d7ff}\u{e000}"]
            .iter()
            .map(|s| s.to_string())
            .collect();
        for n in [62usize, 63, 64, 126, 127, 128, 8190, 8191, 8192, 40000] {
            v.push("x".repeat(n));
            v.push("\u{1F600}".repeat(n / 2));
        }
        v
    };
    ctx.explore("names", |ch| {
        let n = 1 + ch.choose(2);
        let c = *ch.pick(&[Chain::Lzma2, Chain::AesLzma2]);
        let mut v = vec![];
        for _ in 0..n {
            let name = ch.pick(&names).clone();
            v.push(vec![kind(ch.choose(3), &name)]);
        }
        ch.desc(|| format!("{:?}", v.iter().map(|e| (e[0].name.chars().take(20).collect::<String>(), e[0].name.len())).collect::<Vec<_>>()));
        check("name", ch, c, &v)
    });
    // groups: metadata of each member of a solid block between other entries
    ctx.explore("groups", |ch| {
        let n = 2 + ch.choose(ctx.b(2, 3));
        let mut g = vec![];
        for i in 0..n {
            let mut e = kind(*ch.pick(&[0usize, 5]), &format!("g{i}"));
            stamp(&mut e, *ch.pick(&[0usize, 15, 5, 10]), i);
            g.push(e);
        }
        let mut a = kind(ch.choose(5), "before");
        stamp(&mut a, ch.choose(2) * 15, 8);
        let mut z = kind(ch.choose(5), "after");
        stamp(&mut z, ch.choose(2) * 15, 9);
        let v = vec![vec![a], g, vec![z]];
        ch.desc(|| format!("{v:?}"));
        check("grp", ch, Chain::Lzma2, &v)
    });
    // names the format has no place for: refused, without harm to what else is in the archive
    ctx.explore("names-with-nul", |ch| {
        let mut want: Vec<Ent> = vec![];
        let sink = Sink::new();
        let c = *ch.pick(&[Chain::Lzma2, Chain::AesLzma2]);
        let mut w = writer(sink.clone(), c, true).expect("writer");
        let mut desc = vec![];
        for i in 0..ctx.b(2, 3) {
            let name = ch.pick(&["a\0b", "\0", "tail\0", "\0lead", "x\0\0y", "plain"]).to_string();
            let name = format!("{i}{name}");
            desc.push(name.clone());
            let k = ch.choose(4);
            let (group, r) = if k < 3 {
                let e = kind(k, &name);
                let r = push(&mut w, &e).map(|_| ());
                (vec![e], r)
            } else {
                let mut g = vec![kind(0, &format!("{i}first")), kind(0, &format!("{i}second"))];
                g.insert(ch.choose(3), kind(0, &name));
                let r = push_solid(&mut w, &g);
                (g, r)
            };
            match r {
                Ok(()) => want.extend(group),
                Err(e) => ensure!(name.contains('\0'), "nul:refused", "an entry with the name {name:?} is refused: {e}"),
            }
        }
        ch.desc(|| format!("{desc:?}"));
        if let Err(e) = w.finish() {
            fail!("nul:finish", "finish failed: {e}");
        }
        match read_bytes(&sink.take(), c.encrypted()) {
            Ok((l, seen)) => {
                ch.state(hash_result(&l, &seen));
                compare_meta("nul", &want, &l)?;
                compare_seen("nul", &want, &seen)
            }
            Err(e) => fail!("nul:read-error", "entries {desc:?}: reading the archive back failed: {e}"),
        }
    });
}
