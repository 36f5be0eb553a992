//! C15: failing sources and outputs at every point of every add history.
use crate::arch::*;
use crate::explore::Ch;
use crate::io::Sink;
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io::{BufWriter, Error as IoError, ErrorKind, Read, Seek, Write};
use std::rc::Rc;
use std::sync::Mutex;

const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::InvalidData];

/// Reads that fail once `left` of them were made (shared between the sources of a history).
#[derive(Clone)]
struct Trap {
    left: Rc<Cell<i64>>,
    reads: Rc<Cell<u64>>,
    kind: ErrorKind,
    sprung: Rc<Cell<bool>>,
    lasting: bool,
}
impl Trap {
    fn new(at: Option<u64>, kind: ErrorKind, lasting: bool) -> Trap {
        Trap { left: Rc::new(Cell::new(at.map_or(i64::MAX, |a| a as i64))), reads: Default::default(), kind, sprung: Default::default(), lasting }
    }
}
struct Source<'a> {
    d: &'a [u8],
    max: usize,
    trap: Trap,
    dead: bool,
}
impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.trap.reads.set(self.trap.reads.get() + 1);
        let left = self.trap.left.get();
        self.trap.left.set(left - 1);
        if left == 0 || self.dead {
            self.dead = self.trap.lasting;
            self.trap.sprung.set(true);
            return Err(IoError::new(self.trap.kind, "injected read failure"));
        }
        let n = self.d.len().min(b.len()).min(self.max);
        b[..n].copy_from_slice(&self.d[..n]);
        self.d = &self.d[n..];
        Ok(n)
    }
}
#[derive(Clone, Debug)]
enum Op {
    Push(Ent),
    Solid(Vec<Ent>),
}
fn add<W: Write + Seek>(w: &mut SevenZWriter<W>, op: &Op, max: usize, trap: &Trap) -> Result<(), Error> {
    let src = |e: &'_ Ent| -> Source<'static> {
        // sources outlive the call only formally
        let d: &'static [u8] = unsafe { std::mem::transmute(e.bytes()) };
        Source { d, max, trap: trap.clone(), dead: false }
    };
    match op {
        Op::Push(e) => w.push_archive_entry(e.entry(), e.data.as_ref().map(|_| src(e))).map(|_| ()),
        Op::Solid(es) => {
            let rs: Vec<SourceReader<Source>> = es.iter().map(|e| SourceReader::new(src(e))).collect();
            w.push_archive_entries(es.iter().map(|e| e.entry()).collect(), SeqReader::new(rs)).map(|_| ())
        }
    }
}
fn ents(op: &Op) -> Vec<Ent> {
    match op {
        Op::Push(e) => vec![e.clone()],
        Op::Solid(es) => es.clone(),
    }
}
/// Gives the operations of a history their own names.
fn named(ops: &[Op]) -> Vec<Op> {
    ops.iter()
        .enumerate()
        .map(|(i, op)| match op {
            Op::Push(e) => Op::Push(Ent { name: format!("{}{i}", e.name), ..e.clone() }),
            Op::Solid(es) => Op::Solid(es.iter().map(|e| Ent { name: format!("{}{i}", e.name), ..e.clone() }).collect()),
        })
        .collect()
}
struct Outcome {
    added: Vec<Ent>,
    finished: bool,
    bytes: Vec<u8>,
}
/// Runs a history; `faults` counts the faults so far and tells which operation each of them hit.
fn go<W: Write + Seek>(
    key: &str,
    out: W,
    done: impl FnOnce(W) -> std::io::Result<()>,
    sink: &Sink,
    chain: Chain,
    enc_header: bool,
    ops: &[Op],
    max: usize,
    trap: &Trap,
    buffered: bool,
) -> R<Outcome> {
    let faults = || sink.0.borrow().failures as u64 + trap.sprung.get() as u64;
    let none = Outcome { added: vec![], finished: false, bytes: vec![] };
    let w = SevenZWriter::new(out);
    ensure!(w.is_ok() == (faults() == 0), format!("{key}:new"), "{} faults while creating the writer: {:?}", faults(), w.err());
    let Ok(mut w) = w else { return Ok(none) };
    w.set_content_methods(chain.methods());
    w.set_encrypt_header(enc_header);
    let mut added = vec![];
    for op in ops {
        let before = faults();
        let r = add(&mut w, op, max, trap);
        let hit = faults() > before || (trap.lasting && trap.sprung.get() && r.is_err());
        match r {
            Ok(()) => {
                ensure!(!hit, format!("{key}:swallowed"), "an error while adding {:?} was not returned", ents(op).iter().map(|e| &e.name).collect::<Vec<_>>());
                added.extend(ents(op));
            }
            Err(e) => ensure!(hit, format!("{key}:spurious"), "adding {:?} failed without a fault: {e}", ents(op).iter().map(|e| &e.name).collect::<Vec<_>>()),
        }
    }
    let before = faults();
    let r = w.finish().and_then(done);
    let hit = faults() > before;
    match r {
        Ok(()) => ensure!(!hit, format!("{key}:finish-swallowed"), "an output error while finishing was not reported"),
        Err(e) => {
            ensure!(hit || buffered, format!("{key}:finish-spurious"), "finishing failed without a fault: {e}");
            return Ok(none);
        }
    }
    Ok(Outcome { added, finished: true, bytes: sink.bytes() })
}
fn judge(key: &str, ch: &Ch, o: &Outcome, enc: bool) -> R {
    if !o.finished {
        return Ok(());
    }
    match read_bytes(&o.bytes, enc) {
        Ok((l, s)) => {
            ch.state(hash_result(&l, &s));
            compare(key, &o.added, &l, &s)
        }
        Err(e) => fail!(format!("{key}:read"), "the finished archive does not read back: {e}"),
    }
}
fn plain(key: &str, ch: &Ch, sink: Sink, chain: Chain, eh: bool, ops: &[Op], max: usize, trap: &Trap) -> R<Outcome> {
    let o = go(key, sink.clone(), |_| Ok(()), &sink, chain, eh, ops, max, trap, false)?;
    judge(key, ch, &o, chain.encrypted())?;
    Ok(o)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Once,
    Partial(usize),
    Zero,
    Lasting(u32),
}
const HOWS: &[How] = &[How::Once, How::Partial(1), How::Partial(5), How::Zero, How::Lasting(2), How::Lasting(u32::MAX)];
fn arm(s: &Sink, at: u64, how: How) {
    let mut b = s.0.borrow_mut();
    b.fail_at = Some(at);
    match how {
        How::Once => {}
        How::Partial(n) => b.fail_partial = n,
        How::Zero => b.fail_zero = true,
        How::Lasting(n) => b.max_failures = n,
    }
}
fn show(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Push(e) => format!("{}:{}", e.name, e.len()),
            Op::Solid(v) => format!("{:?}", v.iter().map(|e| e.len()).collect::<Vec<_>>()),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
/// (reads, writes, seeks) of a history without faults
fn dry(key: &str, chain: Chain, eh: bool, ops: &[Op], max: usize, buffer: Option<usize>) -> R<(u64, u64, u64)> {
    static KNOWN: Mutex<BTreeMap<String, (u64, u64, u64)>> = Mutex::new(BTreeMap::new());
    let id = format!("{chain:?} {eh} {} {max} {buffer:?}", show(ops));
    if let Some(x) = KNOWN.lock().unwrap().get(&id) {
        return Ok(*x);
    }
    let x = dry_run(key, chain, eh, ops, max, buffer)?;
    KNOWN.lock().unwrap().insert(id, x);
    Ok(x)
}
fn dry_run(key: &str, chain: Chain, eh: bool, ops: &[Op], max: usize, buffer: Option<usize>) -> R<(u64, u64, u64)> {
    let s = Sink::new();
    let t = Trap::new(None, ErrorKind::Other, false);
    let o = match buffer {
        None => go(key, s.clone(), |_| Ok(()), &s, chain, eh, ops, max, &t, false)?,
        Some(n) => {
            go(key, BufWriter::with_capacity(n, s.clone()), |mut w| w.flush(), &s, chain, eh, ops, max, &t, true)?
        }
    };
    ensure!(o.finished, format!("{key}:dry"), "a history without faults did not finish");
    let b = s.0.borrow();
    Ok((t.reads.get(), b.writes, b.seeks))
}

pub fn run(ctx: &Ctx) {
    let small = vec![
        Op::Push(Ent::file("f", b"some contents, some more")),
        Op::Solid(vec![Ent::file("s", b"first"), Ent::file("t", b"second!")]),
        Op::Push(Ent::none("n")),
        Op::Push(Ent::file("z", b"")),
        Op::Push(Ent::dir("d")),
    ];
    let chains: &[Chain] = &[Chain::Lzma, Chain::Aes, Chain::AesLzma2, Chain::Lzma2];
    let depth = ctx.b(2, 3);
    let pick_ops = |ch: &Ch, al: &[Op], min: usize, max: usize| -> Vec<Op> {
        let n = min + ch.choose(max + 1 - min);
        named(&(0..n).map(|_| ch.pick(al).clone()).collect::<Vec<_>>())
    };
    ctx.explore("no-faults", |ch| {
        let chain = *ch.pick(chains);
        let ops = pick_ops(ch, &small, 0, 3);
        plain("none", ch, Sink::new(), chain, ch.flag(), &ops, *ch.pick(&[usize::MAX, 1, 7]), &Trap::new(None, ErrorKind::Other, false)).map(|_| ())
    });
    // the output fails at every write
    ctx.explore("write-faults", |ch| {
        let chain = *ch.pick(chains);
        let eh = ch.flag();
        let ops = pick_ops(ch, &small, 1, depth);
        let (_, writes, _) = dry("write", chain, eh, &ops, usize::MAX, None)?;
        let at = ch.choose(writes as usize) as u64;
        let how = *ch.pick(HOWS);
        ch.desc(|| format!("{chain:?} header encryption {eh} {} write {at} of {writes} fails: {how:?}", show(&ops)));
        let s = Sink::new();
        arm(&s, at, how);
        plain("write", ch, s, chain, eh, &ops, usize::MAX, &Trap::new(None, ErrorKind::Other, false)).map(|_| ())
    });
    // at every seek
    ctx.explore("seek-faults", |ch| {
        let chain = *ch.pick(chains);
        let eh = ch.flag();
        let ops = pick_ops(ch, &small, 0, depth);
        let (_, _, seeks) = dry("seek", chain, eh, &ops, usize::MAX, None)?;
        let at = ch.choose(seeks as usize) as u64;
        ch.desc(|| format!("{chain:?} header encryption {eh} {} seek {at} of {seeks} fails", show(&ops)));
        let s = Sink::new();
        s.0.borrow_mut().fail_seek_at = Some(at);
        plain("seek", ch, s, chain, eh, &ops, usize::MAX, &Trap::new(None, ErrorKind::Other, false)).map(|_| ())
    });
    // a source fails at every read
    ctx.explore("source-faults", |ch| {
        let chain = *ch.pick(chains);
        let ops = pick_ops(ch, &small, 1, ctx.b(2, 3));
        let max = *ch.pick(&[usize::MAX, 1, 7]);
        let (reads, _, _) = dry("source", chain, true, &ops, max, None)?;
        if reads == 0 {
            return Ok(());
        }
        let at = ch.choose(reads as usize) as u64;
        let kind = *ch.pick(KINDS);
        let lasting = ch.flag();
        ch.desc(|| format!("{chain:?} {} read {at} of {reads} (at most {max} bytes each) fails: {kind:?} lasting {lasting}", show(&ops)));
        plain("source", ch, Sink::new(), chain, true, &ops, max, &Trap::new(Some(at), kind, lasting)).map(|_| ())
    });
    // the seek back after a failed add fails as well; two failures of the output
    ctx.explore("second-faults", |ch| {
        let chain = *ch.pick(&[Chain::Lzma, Chain::Aes]);
        let ops = named(&[small[0].clone(), small[1].clone(), small[0].clone()][..ctx.b(2, 3)]);
        let (reads, writes, _) = dry("second", chain, false, &ops, usize::MAX, None)?;
        let s = Sink::new();
        let source = ch.flag();
        let mut trap = Trap::new(None, ErrorKind::Other, false);
        let at = if source {
            let at = ch.choose(reads as usize) as u64;
            trap = Trap::new(Some(at), ErrorKind::Other, false);
            at
        } else {
            let at = ch.choose(writes as usize) as u64;
            arm(&s, at, *ch.pick(&[How::Once, How::Partial(3)]));
            at
        };
        let seek = ch.choose(5) as u64;
        if ch.flag() {
            s.0.borrow_mut().fail_seek_at = Some(seek);
        } else if source {
            let w = ch.choose(writes as usize) as u64;
            arm(&s, w, How::Once);
        } else {
            let gap = 1 + ch.choose(writes as usize) as u64;
            s.0.borrow_mut().fail_again = Some(at + gap);
        }
        ch.desc(|| format!("{chain:?} {}: source {source} fault at {at}, seek {seek}", show(&ops)));
        plain("second", ch, s, chain, false, &ops, usize::MAX, &trap).map(|_| ())
    });
    // contents large enough that part of them reached the output before the fault
    let big = vec![
        Op::Push(Ent::file("big", &noise(150_000, 3))),
        Op::Solid(vec![Ent::file("b1", &noise(70_000, 4)), Ent::file("b2", &noise(70_000, 5))]),
        Op::Push(Ent::file("f", b"some contents, some more")),
    ];
    ctx.explore("large", |ch| {
        let chain = *ch.pick(&[Chain::Lzma2, Chain::AesLzma2, Chain::LzmaLzma2]);
        let first = ch.choose(2);
        let second = ch.choose(ctx.b(1, 3));
        let ops = named(&[big[2].clone(), big[first].clone(), big[2 - second].clone()]);
        let (reads, writes, _) = dry("large", chain, true, &ops, usize::MAX, None)?;
        let source = ch.flag();
        let s = Sink::new();
        let mut trap = Trap::new(None, ErrorKind::Other, false);
        let at;
        if source {
            at = ch.choose(reads as usize) as u64;
            trap = Trap::new(Some(at), ErrorKind::Other, false);
        } else {
            // the encrypted form writes block by block
            let step = (writes / ctx.b(100, 400)).max(1);
            let points: Vec<u64> = (0..writes).filter(|w| w % step == 0 || *w < 8 || *w + ctx.b(60, 150) > writes).collect();
            at = *ch.pick(&points);
            arm(&s, at, *ch.pick(&[How::Once, How::Partial(1000)]));
        }
        ch.desc(|| format!("{chain:?} {}: source {source}, fault at {at} of {reads}/{writes}", show(&ops)));
        plain("large", ch, s, chain, true, &ops, usize::MAX, &trap).map(|_| ())
    });
    // an output that buffers, so that a fault shows in a later operation
    ctx.explore("buffered", |ch| {
        let chain = *ch.pick(&[Chain::Lzma, Chain::Lzma2, Chain::AesLzma2]);
        let cap = *ch.pick(&[1usize, 16, 40, 64, 300]);
        let ops = pick_ops(ch, &small[..3], 1, depth);
        let (reads, writes, _) = dry("buffered", chain, true, &ops, usize::MAX, Some(cap))?;
        let s = Sink::new();
        let mut trap = Trap::new(None, ErrorKind::Other, false);
        let source = reads > 0 && ch.flag();
        let at;
        if source {
            at = ch.choose(reads as usize) as u64;
            trap = Trap::new(Some(at), ErrorKind::Other, false);
        } else {
            at = ch.choose(writes as usize) as u64;
            arm(&s, at, *ch.pick(&[How::Once, How::Partial(3)]));
        }
        ch.desc(|| format!("{chain:?} buffer {cap} {}: source {source} fault at {at}", show(&ops)));
        let o = go("buffered", BufWriter::with_capacity(cap, s.clone()), |mut w| w.flush(), &s, chain, true, &ops, usize::MAX, &trap, true)?;
        judge("buffered", ch, &o, chain.encrypted())
    });
    // adds refused because of their methods
    ctx.explore("refused", |ch| {
        let bad: Vec<Vec<SevenZMethodConfiguration>> = vec![
            vec![SevenZMethod::BZIP2.into()],
            vec![SevenZMethod::COPY.into()],
            vec![SevenZMethod::LZMA2.into(), SevenZMethod::DEFLATE.into()],
            vec![aes("", 1).into(), SevenZMethod::LZMA2.into()],
            vec![SevenZMethod::AES256SHA256.into(), SevenZMethod::LZMA2.into()],
        ];
        let ops = pick_ops(ch, &small, 0, 3);
        let at = ch.choose(ops.len() + 1);
        let b = ch.pick(&bad).clone();
        let solid = ch.flag();
        let key = "refused";
        ch.desc(|| format!("{} refused one at {at}, {:?} solid {solid}", show(&ops), b.iter().map(|m| m.method.name()).collect::<Vec<_>>()));
        let s = Sink::new();
        let mut w = match writer(s.clone(), Chain::Lzma2, true) {
            Ok(w) => w,
            Err(e) => fail!("refused:new", "{e}"),
        };
        let t = Trap::new(None, ErrorKind::Other, false);
        let mut added = vec![];
        for i in 0..=ops.len() {
            if i == at {
                let e = Ent::file("refused", b"contents").entry();
                w.set_content_methods(b.clone());
                let r = if solid {
                    let v: Vec<SourceReader<&[u8]>> = vec![SourceReader::new(&b"contents"[..])];
                    w.push_archive_entries(vec![e], SeqReader::new(v)).is_ok()
                } else {
                    w.push_archive_entry(e, Some(&b"contents"[..])).is_ok()
                };
                ensure!(!r, "refused:accepted", "an add with methods that cannot be written succeeded");
                w.set_content_methods(Chain::Lzma2.methods());
            }
            if let Some(op) = ops.get(i) {
                if let Err(e) = add(&mut w, op, usize::MAX, &t) {
                    fail!("refused:spurious", "an add after a refused one failed: {e}");
                }
                added.extend(ents(op));
            }
        }
        if let Err(e) = w.finish() {
            fail!("refused:finish", "{e}");
        }
        judge(key, ch, &Outcome { added, finished: true, bytes: s.take() }, false)
    });
}
