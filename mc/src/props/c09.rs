//! C09: I/O granularity never changes results.
use crate::arch::*;
use crate::explore::Ch;
use crate::gen::*;
use crate::io::{Sink, Src};
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::*;

/// One way to fill an archive: groups of entries, each group one block.
fn plan(k: usize) -> (Chain, Vec<Vec<Ent>>) {
    let f = |n: &str, d: Vec<u8>| Ent { mtime: Some(0x01D5_3F4B_6E2A_0001), ..Ent::file(n, &d) };
    match k {
        0 => (Chain::Lzma2, vec![vec![f("a", text(60)), f("b", noise(40, 1))], vec![f("c", vec![7])]]),
        1 => (Chain::AesLzma2, vec![vec![f("a", text(70))], vec![Ent::dir("d")]]),
        2 => (Chain::Aes, vec![vec![f("a", noise(33, 2))], vec![f("b", noise(16, 3))]]),
        3 => (Chain::Lzma, vec![vec![f("a", text(300))], vec![Ent::none("e")], vec![f("b", vec![])]]),
        4 => (Chain::AesLzmaLzma2, vec![vec![f("a", text(100)), f("b", text(20)), f("c", vec![])]]),
        5 => (Chain::Lzma2, vec![vec![f("big", [text(9000), noise(70_000, 4)].concat())]]),
        6 => (Chain::AesLzma, vec![vec![f("big", [noise(5000, 6), text(9000)].concat()), f("b", text(5000))]]),
        // several chunks
        8 => (Chain::Lzma2, vec![vec![f("big", noise(100_000, 9).iter().map(|b| b & 0x3F).chain(noise(70_000, 4)).chain(text(20)).collect())]]),
        _ => (Chain::Lzma2Aes, vec![vec![f("a", text(5000))], vec![f("b", noise(4097, 7))]]),
    }
}
/// Source of one entry whose reads the explorer controls.
fn source<'a>(d: &'a [u8], ch: Option<&Ch>, cuts: &[usize], max: usize, every: bool) -> Src<'a> {
    let mut s = Src::max(d, max);
    s.ch = ch.cloned();
    s.cuts = cuts.to_vec();
    s.intr = ch.is_some();
    s.intr_every = every;
    s
}
/// Runs a plan; the source of every entry comes from `mk`.
fn run_plan<'a>(key: &str, k: usize, pl: &'a (Chain, Vec<Vec<Ent>>), sink: Sink, mk: &dyn Fn(&'a [u8]) -> Src<'a>) -> Result<Vec<u8>, Fail> {
    let er = |e: Error| Fail::new(format!("{key}:error"), format!("plan {k}: adding fails: {e}"));
    let mut w = writer(sink.clone(), pl.0, true).map_err(er)?;
    for g in &pl.1 {
        if g.len() == 1 {
            w.push_archive_entry(g[0].entry(), g[0].data.as_ref().map(|d| mk(d))).map_err(er)?;
        } else {
            let rs: Vec<SourceReader<Src>> = g.iter().map(|e| SourceReader::new(mk(e.bytes()))).collect();
            w.push_archive_entries(g.iter().map(|e| e.entry()).collect(), SeqReader::new(rs)).map_err(er)?;
        }
    }
    w.finish().map_err(|e| Fail::new(format!("{key}:finish"), format!("plan {k}: {e}")))?;
    Ok(sink.take())
}
pub fn readable() -> Vec<(String, Built)> {
    let d = text;
    let mut v: Vec<(String, Built)> = vec![];
    let mut add = |n: &str, s: Spec| v.push((n.to_string(), assemble(&s)));
    add("copy", Spec::new(vec![folder(&[C7::Copy], vec![d(30), d(9)])], vec![Slot::Dir, Slot::Stream, Slot::EmptyFile, Slot::Stream]));
    add("lzma", Spec::files(vec![folder(&[C7::Lzma], vec![d(70)])]));
    add("lzma2", Spec::files(vec![folder(&[C7::Lzma2], vec![d(50), noise(40, 4)])]));
    add("bzip2", Spec::files(vec![folder(&[C7::Bzip2], vec![d(60)])]));
    add("zstd", Spec::files(vec![folder(&[C7::Zstd], vec![d(60)])]));
    add("aes", Spec::files(vec![folder(&[C7::Aes], vec![d(35), d(3)])]));
    add("aes-lzma2", Spec::files(vec![folder(&[C7::Aes, C7::Lzma2], vec![d(80)])]));
    add("x86", Spec::files(vec![folder(&[C7::Lzma, C7::X86], vec![super::c06::code(C7::X86, 60)])]));
    add("arm", Spec::files(vec![folder(&[C7::Arm], vec![super::c06::code(C7::Arm, 40)])]));
    add("delta", Spec::files(vec![folder(&[C7::Delta(3)], vec![d(40)])]));
    add("enc-header", Spec { hdr: Hdr::Enc(&[C7::Lzma]), ..Spec::files(vec![folder(&[C7::Copy], vec![d(10)])]) });
    add("aes-header", Spec { hdr: Hdr::Enc(&[C7::Aes, C7::Lzma]), ..Spec::files(vec![folder(&[C7::Aes], vec![d(10)])]) });
    add("attrs", Spec { masks: vec![15, 3, 8], props: true, dummy: 7, ..Spec::new(vec![folder(&[C7::Copy], vec![d(5)])], vec![Slot::Stream, Slot::Dir, Slot::EmptyFile]) });
    {
        use super::c07::*;
        let x = branches(60);
        let s = crate::reffilt::bcj2_enc(&x, |_| true);
        v.push(("bcj2".into(), build_bcj2(&plain_spec(), &[x.clone()], &s)));
        let mut sp = plain_spec();
        sp.subs = [vec![C7::Lzma], vec![C7::Lzma2], vec![C7::Bzip2], vec![]];
        v.push(("bcj2-packed".into(), build_bcj2(&sp, &[x], &s)));
    }
    v
}
fn same(key: &str, ch: &Ch, b: &Built, r: Result<(Vec<Got>, Vec<(Got, Vec<u8>)>), Error>) -> R {
    match r {
        Ok((l, seen)) => {
            ch.state(hash_result(&l, &seen) ^ fnv(key.as_bytes()));
            super::c21::same_listing(key, &b.want, &l)?;
            super::c21::same_data(key, &b.data, &seen)
        }
        Err(e) => fail!(format!("{key}:error"), "{e}"),
    }
}

pub fn run(ctx: &Ctx) {
    let plans: Vec<(Chain, Vec<Vec<Ent>>)> = (0..9).map(plan).collect();
    let want: Vec<Vec<u8>> = plans.iter().map(|p| build(p.0, true, &p.1)).collect();
    let cmp = |key: &str, ch: &Ch, k: usize, got: Vec<u8>| -> R {
        ch.state(fnv(&got));
        let at = got.iter().zip(&want[k]).position(|(a, b)| a != b).unwrap_or(got.len().min(want[k].len()));
        ensure!(got == want[k], format!("{key}:bytes"), "plan {k}: the archive has other bytes ({} and {}, first difference at {at})", got.len(), want[k].len());
        Ok(())
    };
    // the sink takes only part of some writes, or is interrupted
    ctx.explore_dev("sink-schedules", Some(2), |ch| {
        let k = ch.choose(ctx.b(5, 8));
        let s = Sink::new();
        {
            let mut b = s.0.borrow_mut();
            b.ch = Some(ch.clone());
            b.choose_cuts = if ctx.quick() { vec![1, 15] } else { vec![1, 2, 7, 15] };
            b.intr = true;
        }
        let got = run_plan("sink", k, &plans[k], s, &|d| Src::new(d))?;
        cmp("sink", ch, k, got)
    });
    // the sink never takes more than a few bytes
    ctx.explore("sink-limits", |ch| {
        let k = ch.choose(9);
        let s = Sink::new();
        let max = 1 + ch.choose(ctx.b(20, 70));
        s.0.borrow_mut().max_write = max;
        ch.desc(|| format!("plan {k}, at most {max} bytes per write"));
        let got = run_plan("limit", k, &plans[k], s, &|d| Src::new(d))?;
        cmp("limit", ch, k, got)
    });
    // the sources of the entries give less, or are interrupted
    ctx.explore_dev("source-schedules", Some(ctx.b(2, 3)), |ch| {
        let k = ch.choose(8);
        let got = run_plan("source", k, &plans[k], Sink::new(), &|d| source(d, Some(ch), &[1, 2, 15, 16, 17, 4095], usize::MAX, false))?;
        cmp("source", ch, k, got)
    });
    ctx.explore("source-limits", |ch| {
        let k = ch.choose(9);
        let max = 1 + ch.choose(70);
        let every = ch.flag();
        ch.desc(|| format!("plan {k}, at most {max} bytes per read, interrupted {every}"));
        let got = run_plan("srclimit", k, &plans[k], Sink::new(), &|d| source(d, None, &[], max, every))?;
        cmp("srclimit", ch, k, got)
    });
    // reading: the archive file gives less, or is interrupted
    let arcs = readable();
    ctx.explore_dev("read-schedules", Some(ctx.b(2, 3)), |ch| {
        let (n, b) = ch.pick(&arcs);
        let mut src = Src::new(&b.bytes);
        src.ch = Some(ch.clone());
        src.cuts = vec![1, 2, 3, 5, 8, 16];
        src.intr = true;
        let portion = *ch.pick(&[65536usize, 1, 10]);
        ch.desc(|| format!("{n}, reads of {portion}"));
        same(&format!("read:{n}"), ch, b, read_back(src, b.bytes.len() as u64, password(b.needs_password), portion))
    });
    ctx.explore("read-limits", |ch| {
        let (n, b) = ch.pick(&arcs);
        let max = 1 + ch.choose(24);
        let every = ch.flag();
        let portion = 1 + ch.choose(ctx.b(12, 70));
        ch.desc(|| format!("{n}, the source gives {max}, interrupted {every}, reads of {portion}"));
        let mut src = Src::max(&b.bytes, max);
        src.intr_every = every;
        same(&format!("rlimit:{n}"), ch, b, read_back(src, b.bytes.len() as u64, password(b.needs_password), portion))
    });
    // larger contents cross the buffers of the coders
    let large: Vec<(String, Built)> = {
        let c = |n: usize| super::c06::code(C7::X86, n);
        let mut v: Vec<(String, Built)> = vec![];
        for (n, ch) in [
            ("copy", vec![C7::Copy]),
            ("lzma", vec![C7::Lzma]),
            ("lzma2", vec![C7::Lzma2]),
            ("bzip2", vec![C7::Bzip2]),
            ("zstd", vec![C7::Zstd]),
            ("aes", vec![C7::Aes]),
            ("aes-lzma2-x86", vec![C7::Aes, C7::Lzma2, C7::X86]),
            ("zstd-delta", vec![C7::Zstd, C7::Delta(4)]),
            ("ppc", vec![C7::Bzip2, C7::Ppc]),
        ] {
            v.push((n.into(), assemble(&Spec::files(vec![folder(&ch, vec![c(9000), noise(30_000, 8), c(10)])]))));
        }
        v
    };
    ctx.explore("large-limits", |ch| {
        let (n, b) = ch.pick(&large);
        let max = *ch.pick(&[1usize, 2, 3, 15, 17, 511, 513, 4095, 4097, 8191, 65535]);
        let every = ch.flag();
        let portion = *ch.pick(&[1usize, 2, 3, 17, 511, 513, 4095, 4096, 4097, 65537]);
        ch.desc(|| format!("{n}, the source gives {max}, interrupted {every}, reads of {portion}"));
        let mut src = Src::max(&b.bytes, max);
        src.intr_every = every;
        same(&format!("large:{n}"), ch, b, read_back(src, b.bytes.len() as u64, password(b.needs_password), portion))
    });
    ctx.explore_dev("large-schedules", Some(ctx.b(2, 3)), |ch| {
        let (n, b) = ch.pick(&large);
        let mut src = Src::new(&b.bytes);
        src.ch = Some(ch.clone());
        src.cuts = vec![1, 2, 511, 4095];
        src.intr = true;
        // some coders read byte by byte: the schedules concern one stretch of the packed data
        let end = 32 + b.area.len() as u64;
        let start = [32, 32 + 4096 - 20, end - 40][ch.choose(3)];
        src.window = (start, start + 40);
        ch.desc(|| format!("{n} from {start}"));
        same(&format!("largesched:{n}"), ch, b, read_back(src, b.bytes.len() as u64, password(b.needs_password), 65536))
    });
    // the sizes of the consumer's reads vary from read to read
    ctx.explore_dev("consumer-schedules", Some(ctx.b(2, 3)), |ch| {
        let (n, b) = ch.pick(&arcs);
        let base = *ch.pick(&[65536usize, 4, 1]);
        let mut r = match SevenZReader::new(Src::new(&b.bytes), b.bytes.len() as u64, password(b.needs_password)) {
            Ok(r) => r,
            Err(e) => fail!(format!("cons:{n}:open"), "{e}"),
        };
        let mut seen = vec![];
        let mut buf = vec![0u8; 65536];
        let res = r.for_each_entries(|e, rd| {
            let mut out = vec![];
            loop {
                let d = ch.deviate(5);
                let k = [base, 0, 1, 7, 30][d];
                let m = rd.read(&mut buf[..k])?;
                if k == 0 {
                    if m != 0 {
                        return Err(Error::other("bytes into an empty buffer"));
                    }
                    continue;
                }
                if m == 0 {
                    // the end stays the end
                    if rd.read(&mut buf[..30])? != 0 || rd.read(&mut buf[..1])? != 0 {
                        return Err(Error::other("bytes after the end"));
                    }
                    break;
                }
                out.extend_from_slice(&buf[..m]);
            }
            seen.push((got(e), out));
            Ok(true)
        });
        if let Err(e) = res {
            fail!(format!("cons:{n}:error"), "{e}");
        }
        ch.state(hash_result(&[], &seen));
        super::c21::same_data(&format!("cons:{n}"), &b.data, &seen)
    });
    // recovery of a blanked start header through a source that gives little
    ctx.explore("recovery-limits", |ch| {
        let (n, b) = ch.pick(&arcs);
        let mut bytes = b.bytes.clone();
        bytes[8..32].fill(0);
        let max = 1 + ch.choose(20);
        let every = ch.flag();
        let mut src = Src::max(&bytes, max);
        src.intr_every = every;
        same(&format!("recover:{n}"), ch, b, read_back(src, bytes.len() as u64, password(b.needs_password), 4096))
    });
}
