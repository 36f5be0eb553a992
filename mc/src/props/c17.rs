//! C17: every entry is visited exactly once and stopping works.
use super::c21::structure;
use crate::arch::*;
use crate::explore::Ch;
use crate::gen::*;
use crate::io::{read_portions, Src};
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::*;
use std::io::Read;

const PORTIONS: &[usize] = &[65536, 1, 3, 17];

fn open(key: &str, b: &Built) -> R<SevenZReader<Src<'static>>> {
    // the bytes outlive every reader of the execution
    let bytes: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(&b.bytes) };
    match SevenZReader::new(Src::new(bytes), bytes.len() as u64, password(b.needs_password)) {
        Ok(r) => Ok(r),
        Err(e) => fail!(format!("{key}:open"), "a valid archive is refused: {e}"),
    }
}
/// One whole iteration; every entry must come exactly once with its bytes.
fn whole(key: &str, ch: &Ch, r: &mut SevenZReader<Src>, b: &Built, portion: usize, skip_last: bool) -> R {
    let mut seen: Vec<(String, Option<Vec<u8>>)> = vec![];
    let last_of_block = last_in_block(b);
    let res = r.for_each_entries(|e, rd| {
        if skip_last && last_of_block.contains(&e.name) {
            // data at the end of a block need not be consumed
            let mut one = [0u8; 1];
            let _ = rd.read(&mut one)?;
            seen.push((e.name.clone(), None));
            return Ok(true);
        }
        let d = read_portions(rd, portion, e.size as usize + 64)?;
        // past the end the reader stays at the end
        let mut x = [0u8; 4];
        if rd.read(&mut x)? != 0 {
            return Err(Error::other("data after the end of the entry"));
        }
        seen.push((e.name.clone(), Some(d)));
        Ok(true)
    });
    if let Err(e) = res {
        fail!(format!("{key}:error"), "iteration failed: {e}");
    }
    ch.state(fnv(format!("{seen:?}").as_bytes()));
    visited_once(key, b, &seen, &b.data.iter().map(|x| x.0.clone()).collect::<Vec<_>>())
}
fn last_in_block(b: &Built) -> Vec<String> {
    let l = crate::ref7z::listing(&b.header).expect("listing");
    let mut v = vec![];
    for (i, e) in l.iter().enumerate() {
        if e.folder.is_some() && !l[i + 1..].iter().any(|f| f.folder == e.folder) {
            v.push(b.data[i].0.clone());
        }
    }
    v
}
fn visited_once(key: &str, b: &Built, seen: &[(String, Option<Vec<u8>>)], expect: &[String]) -> R {
    let mut s: Vec<&String> = seen.iter().map(|x| &x.0).collect();
    let mut w: Vec<&String> = expect.iter().collect();
    s.sort();
    w.sort();
    ensure!(s == w, format!("{key}:visited"), "entries {w:?} expected, visited {s:?}");
    for (n, d) in seen {
        let want = &b.data.iter().find(|x| x.0 == *n).unwrap().1;
        if let Some(d) = d {
            ensure!(d == want, format!("{key}:data"), "{n:?}: {} bytes stored, {} read, different", want.len(), d.len());
        }
    }
    Ok(())
}
/// Makes some of the blocks ones of four packed streams.
fn several_streams(ch: &Ch, s: &mut Spec) {
    for (k, f) in s.folders.iter_mut().enumerate() {
        if !ch.flag() {
            continue;
        }
        let files: Vec<Vec<u8>> = f.files.iter().enumerate().map(|(j, _)| crate::props::c07::branches(25 + 9 * j + k)).collect();
        let mut b = plain_spec();
        if k % 2 == 1 {
            b.last = true;
            b.order = [3, 1, 0, 2];
            b.subs = [vec![C7::Lzma2], vec![], vec![C7::Lzma], vec![]];
        }
        *f = bcj2_block(b, 1 + k % 2, files);
    }
}
pub fn run(ctx: &Ctx) {
    const CH: &[&[C7]] = &[&[C7::Copy], &[C7::Lzma2], &[C7::Lzma]];
    let n = ctx.b(6, 7);
    ctx.explore("whole", |ch| {
        let mut s = structure(ch, n, CH);
        // some streams are empty
        let empty = ch.choose(3);
        for (k, f) in s.folders.iter_mut().enumerate() {
            let m = f.files.len();
            for (j, d) in f.files.iter_mut().enumerate() {
                if empty == 1 && (j + k) % 2 == 0 || empty == 2 && j + 1 == m {
                    d.clear();
                }
            }
            f.fcrc = k % 2 == 0;
            f.scrc = k % 3 != 2;
        }
        let b = assemble(&s);
        let portion = *ch.pick(PORTIONS);
        let mode = ch.choose(3);
        ch.desc(|| format!("{:?} blocks {:?} empty {empty} portion {portion} mode {mode}", s.slots, s.folders.iter().map(|f| f.files.len()).collect::<Vec<_>>()));
        let mut r = open("whole", &b)?;
        whole("whole", ch, &mut r, &b, portion, mode == 1)?;
        if mode == 2 {
            // the same reader again
            whole("again", ch, &mut r, &b, portion, false)?;
        }
        Ok(())
    });
    ctx.explore("whole-several-streams", |ch| {
        let mut s = structure(ch, ctx.b(4, 5), CH);
        several_streams(ch, &mut s);
        let b = assemble(&s);
        let portion = *ch.pick(PORTIONS);
        let mode = ch.choose(3);
        ch.desc(|| format!("{:?} blocks {:?} portion {portion} mode {mode}", s.slots, s.folders.iter().map(|f| (f.files.len(), f.bcj2.is_some())).collect::<Vec<_>>()));
        let mut r = open("several", &b)?;
        whole("several", ch, &mut r, &b, portion, mode == 1)?;
        if mode == 2 {
            whole("several-again", ch, &mut r, &b, portion, false)?;
        }
        Ok(())
    });
    // stopping after every possible entry, by false or by an error
    ctx.explore("stop", |ch| {
        let s = structure(ch, n, CH);
        let b = assemble(&s);
        let total = s.slots.len();
        let stop = ch.choose(total.max(1));
        let by_error = ch.flag();
        ch.desc(|| format!("{:?} blocks {:?} stop at call {stop} by error {by_error}", s.slots, s.folders.iter().map(|f| f.files.len()).collect::<Vec<_>>()));
        if total == 0 {
            return Ok(());
        }
        let mut r = open("stop", &b)?;
        let mut seen: Vec<(String, Option<Vec<u8>>)> = vec![];
        let mut calls = 0;
        let res = r.for_each_entries(|e, rd| {
            calls += 1;
            if calls == stop + 1 {
                if by_error {
                    return Err(Error::other("stop here"));
                }
                return Ok(false);
            }
            let d = read_portions(rd, 4096, e.size as usize + 64)?;
            seen.push((e.name.clone(), Some(d)));
            Ok(true)
        });
        ensure!(calls == stop + 1, "stop:calls", "asked to stop at call {}, but the callback was called {calls} times", stop + 1);
        ensure!(res.is_err() == by_error, "stop:result", "stop by error {by_error} gave {:?}", res.map_err(|e| e.to_string()));
        if let Err(e) = &res {
            ensure!(format!("{e:?}").contains("stop here"), "stop:errtext", "the callback's error became {e}");
        }
        let names: Vec<String> = seen.iter().map(|x| x.0.clone()).collect();
        let mut d = names.clone();
        d.sort();
        d.dedup();
        ensure!(d.len() == names.len(), "stop:twice", "visited twice: {names:?}");
        visited_once("stop", &b, &seen, &names)?;
        // the reader is still usable
        whole("stop-again", ch, &mut r, &b, 65536, false)
    });
    // block by block in every order, each with its own reader
    // the same with blocks of several packed streams among them
    for (name, nb, several) in [("blocks", ctx.b(6, 7), false), ("blocks-several-streams", ctx.b(4, 5), true)] {
    ctx.explore(name, |ch| {
        let mut s = structure(ch, nb, CH);
        if several {
            several_streams(ch, &mut s);
        }
        let b = assemble(&s);
        let k = s.folders.len();
        let mut order: Vec<usize> = vec![];
        while order.len() < k {
            let left: Vec<usize> = (0..k).filter(|i| !order.contains(i)).collect();
            order.push(*ch.pick(&left));
        }
        let portion = *ch.pick(&[65536usize, 3]);
        let shared = ch.flag();
        ch.desc(|| format!("{:?} blocks {:?} order {order:?} portion {portion} one source {shared}", s.slots, s.folders.iter().map(|f| f.files.len()).collect::<Vec<_>>()));
        let pw = password(b.needs_password);
        let mut one = Src::new(&b.bytes);
        let archive = match Archive::read(&mut one, b.bytes.len() as u64, pw.as_ref()) {
            Ok(a) => a,
            Err(e) => fail!("blocks:open", "{e}"),
        };
        let mut seen: Vec<(String, Option<Vec<u8>>)> = vec![];
        for i in order {
            let mut own = Src::new(&b.bytes);
            let src = if shared { &mut one } else { &mut own };
            let bd = BlockDecoder::new(i, &archive, pw.as_ref(), src);
            let listed: Vec<String> = bd.entries().iter().map(|e| e.name.clone()).collect();
            ensure!(bd.entry_count() == listed.len(), "blocks:count", "block {i}: {} entries counted, {} listed", bd.entry_count(), listed.len());
            let mut here = vec![];
            let r = bd.for_each_entries(&mut |e: &SevenZArchiveEntry, rd: &mut dyn Read| {
                let d = read_portions(rd, portion, e.size as usize + 64)?;
                here.push((e.name.clone(), Some(d)));
                Ok(true)
            });
            match r {
                Ok(true) => {}
                Ok(false) => fail!("blocks:false", "block {i}: stopped without being asked"),
                Err(e) => fail!("blocks:error", "block {i}: {e}"),
            }
            ensure!(listed.iter().eq(here.iter().map(|x| &x.0)), "blocks:listed", "block {i} lists {listed:?} but visits {:?}", here.iter().map(|x| &x.0).collect::<Vec<_>>());
            seen.extend(here);
        }
        ch.state(fnv(format!("{seen:?}").as_bytes()));
        // every entry with data exactly once; others at most once
        let l = crate::ref7z::listing(&b.header).expect("listing");
        let mut names: Vec<String> = vec![];
        for (i, e) in l.iter().enumerate() {
            let c = seen.iter().filter(|x| x.0 == b.data[i].0).count();
            ensure!(c == 1 || !e.has_stream && c == 0, "blocks:once", "entry {:?} with data {} belongs to {c} blocks", b.data[i].0, e.has_stream);
            if c == 1 {
                names.push(b.data[i].0.clone());
            }
        }
        visited_once("blocks", &b, &seen, &names)?;
        // stopping inside a block
        if k > 0 && !seen.is_empty() {
            let mut own = Src::new(&b.bytes);
            let mut calls = 0;
            let bd = BlockDecoder::new(0, &archive, pw.as_ref(), &mut own);
            let cnt = bd.entry_count();
            let r = bd.for_each_entries(&mut |_: &SevenZArchiveEntry, _: &mut dyn Read| {
                calls += 1;
                Ok(false)
            });
            ensure!(matches!(r, Ok(x) if x != (cnt > 0)) && calls == cnt.min(1), "blocks:stop", "stopping block 0 of {cnt}: {:?} after {calls} calls", r.map_err(|e| e.to_string()));
        }
        Ok(())
    });
    }
    // archives written by the library
    let al = super::c01::alphabet();
    let depth = ctx.b(3, 4);
    ctx.explore("written", |ch| {
        let n = ch.choose(depth + 1);
        let ops: Vec<_> = (0..n).map(|_| ch.pick(&al).clone()).collect();
        ch.desc(|| format!("{ops:?}"));
        let (bytes, want, enc) = super::c01::run_history(&ops, Chain::Lzma2, true, "written", false)?;
        let mut src = Src::new(&bytes);
        let pw = password(enc);
        let archive = match Archive::read(&mut src, bytes.len() as u64, pw.as_ref()) {
            Ok(a) => a,
            Err(e) => fail!("written:open", "{e}"),
        };
        let nblocks = archive.folders.len();
        let mut by_block = vec![];
        for i in (0..nblocks).rev() {
            let mut own = Src::new(&bytes);
            let r = BlockDecoder::new(i, &archive, pw.as_ref(), &mut own).for_each_entries(&mut |e: &SevenZArchiveEntry, rd: &mut dyn Read| {
                by_block.push((e.name.clone(), read_portions(rd, 5, e.size as usize + 64)?));
                Ok(true)
            });
            if let Err(e) = r {
                fail!("written:block", "{e}");
            }
        }
        let mut r = SevenZReader::from_archive(archive, src, password(enc));
        let mut seen = vec![];
        if let Err(e) = r.for_each_entries(|e, rd| {
            seen.push((got(e), read_portions(rd, 7, e.size as usize + 64)?));
            Ok(true)
        }) {
            fail!("written:error", "{e}");
        }
        ch.state(fnv(format!("{seen:?}").as_bytes()));
        compare_seen("written", &want, &seen)?;
        for w in &want {
            let c: Vec<_> = by_block.iter().filter(|x| x.0 == w.name).collect();
            ensure!(c.len() == 1 || w.len() == 0 && c.is_empty(), "written:once", "{:?} belongs to {} blocks", w.name, c.len());
            if let Some(x) = c.first() {
                ensure!(x.1 == w.bytes(), "written:blockdata", "{:?}: block decoding gives different bytes", w.name);
            }
        }
        Ok(())
    });
}
