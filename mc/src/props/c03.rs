//! C03 / C04: the LZMA2 and LZMA compressors are lossless.
use super::c05::drain;
use crate::arch::{noise, text};
use crate::explore::Ch;
use crate::io::Src;
use crate::reflzma;
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::lzma::verif::set_lz_pos_start;
use sevenz_rust::lzma::{CountingWriter, LZMA2Options, LZMA2Reader, LZMA2Writer, LZMAReader, LZMAWriter};
use std::io::Write;

/// Options from a preset with the fields of interest replaced.
#[derive(Clone, Debug)]
pub struct O {
    pub mode: u32, // preset giving the mode
    pub mf: u32,   // preset giving the match finder
    pub dict: u32,
    pub nice: u32,
    pub depth: i32,
    pub lc: u32,
    pub lp: u32,
    pub pb: u32,
    pub preset_dict: Option<Vec<u8>>,
}
impl O {
    pub fn new(mode: u32, mf: u32) -> O {
        O { mode, mf, dict: 4096, nice: 64, depth: 0, lc: 3, lp: 0, pb: 2, preset_dict: None }
    }
    pub fn opts(&self) -> LZMA2Options {
        let mut o = LZMA2Options::with_preset(self.mode);
        o.mf = LZMA2Options::with_preset(self.mf).mf;
        o.dict_size = self.dict;
        o.nice_len = self.nice;
        o.depth_limit = self.depth;
        o.lc = self.lc;
        o.lp = self.lp;
        o.pb = self.pb;
        o.preset_dict = self.preset_dict.clone();
        o
    }
    fn preset(&self) -> &[u8] {
        self.preset_dict.as_deref().unwrap_or(&[])
    }
    fn brief(&self) -> String {
        format!(
            "{}/{} dict {} nice {} depth {} lc{} lp{} pb{} preset {:?}",
            if self.mode <= 3 { "fast" } else { "normal" },
            if self.mf <= 3 { "hc4" } else { "bt4" },
            self.dict,
            self.nice,
            self.depth,
            self.lc,
            self.lp,
            self.pb,
            self.preset_dict.as_ref().map(|d| d.len())
        )
    }
}
/// mode x match finder
pub const COMBOS: &[(u32, u32)] = &[(1, 1), (6, 6), (1, 6), (6, 1)];

/// A write history: sizes of the writes, `None` is a flush.
pub type Hist = Vec<Option<usize>>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Form {
    Lzma2,
    /// raw LZMA: end marker
    Raw(bool),
    /// .lzma file: announced size?, end marker?
    File(bool, bool),
}
pub fn key(f: Form) -> &'static str {
    match f {
        Form::Lzma2 => "lzma2",
        Form::Raw(_) => "raw",
        Form::File(..) => "file",
    }
}

fn props(o: &O) -> u8 {
    reflzma::props_byte(o.lc, o.lp, o.pb)
}

/// Writes `data` following `hist` (rest in one write), returns the output and checks flush points.
fn compress(f: Form, o: &O, data: &[u8], hist: &Hist) -> R<Vec<u8>> {
    let k = key(f);
    let mut out: Vec<u8> = vec![];
    let opts = o.opts();
    macro_rules! ok {
        ($e:expr, $what:expr) => {
            match $e {
                Ok(v) => v,
                Err(e) => fail!(format!("{k}:write-error"), "{}: {e} ({})", $what, o.brief()),
            }
        };
    }
    let size = data.len() as u64;
    match f {
        Form::Lzma2 => {
            // flush points: output length is only visible through a shared sink
            let sink = crate::io::Sink::new();
            let mut w = LZMA2Writer::new(CountingWriter::new(sink.clone()), &opts);
            let mut p = 0;
            let mut steps: Hist = hist.clone();
            steps.push(Some(usize::MAX));
            for s in steps {
                match s {
                    Some(n) => {
                        let n = n.min(data.len() - p);
                        if n == 0 {
                            continue; // an empty write ends the stream by convention
                        }
                        ok!(w.write_all(&data[p..p + n]), "write");
                        p += n;
                    }
                    None => {
                        ok!(w.flush(), "flush");
                        let b = sink.bytes();
                        match reflzma::decode_lzma2(&b, o.dict, o.preset(), false) {
                            Ok((d, _, _)) => ensure!(
                                d == data[..p],
                                "lzma2:flush",
                                "after a flush at {p} bytes the output decodes to {} bytes, equal: {} ({})",
                                d.len(),
                                data.starts_with(&d),
                                o.brief()
                            ),
                            Err(e) => fail!("lzma2:flush", "output up to a flush at {p} bytes does not decode: {e} ({})", o.brief()),
                        }
                    }
                }
            }
            ok!(w.write(&[]), "finishing write");
            drop(w);
            out = sink.take();
        }
        Form::Raw(end) | Form::File(_, end) => {
            let cw = CountingWriter::new(&mut out);
            let header = matches!(f, Form::File(..));
            let announced = if let Form::File(true, _) = f { Some(size) } else { None };
            let mut w = ok!(LZMAWriter::new(cw, &opts, header, end, announced), "new");
            ensure!(w.props() == props(o), format!("{k}:props"), "props {} for {}", w.props(), o.brief());
            let mut p = 0;
            let mut steps: Hist = hist.clone();
            steps.push(Some(usize::MAX));
            for s in steps {
                match s {
                    Some(n) => {
                        let n = n.min(data.len() - p);
                        if n > 0 {
                            ok!(w.write_all(&data[p..p + n]), "write");
                            p += n;
                        }
                    }
                    None => ok!(w.flush(), "flush"),
                }
            }
            ok!(w.finish(), "finish");
            ensure!(w.get_uncompressed_size() == size, format!("{k}:size"), "get_uncompressed_size {} of {size}", w.get_uncompressed_size());
        }
    }
    Ok(out)
}
/// Round trip through the library's decoder and, unless it is large, the reference decoder.
pub fn round(ch: &Ch, f: Form, o: &O, data: &[u8], hist: &Hist, reference: bool) -> R {
    let k = key(f);
    let out = compress(f, o, data, hist)?;
    ch.state(fnv(&out));
    let limit = data.len() + 4096;
    let preset = o.preset_dict.as_deref();
    let (d, r) = match f {
        Form::Lzma2 => {
            let mut s = Src::new(&out);
            let x = drain(&mut LZMA2Reader::new(&mut s, o.dict, preset), 65536, limit);
            ensure!(x.1.is_err() || s.pos as usize == out.len(), "lzma2:consumed", "decoder used {} of {} bytes ({})", s.pos, out.len(), o.brief());
            x
        }
        Form::Raw(end) => {
            let size = if end { u64::MAX } else { data.len() as u64 };
            match LZMAReader::new_with_props(&out[..], size, props(o), o.dict, preset) {
                Ok(mut r) => drain(&mut r, 65536, limit),
                Err(e) => fail!("raw:open", "{e} ({})", o.brief()),
            }
        }
        Form::File(..) => match LZMAReader::new_mem_limit(&out[..], u32::MAX, None) {
            Ok(mut r) => drain(&mut r, 65536, limit),
            Err(e) => fail!("file:open", "{e} ({})", o.brief()),
        },
    };
    if let Err(e) = r {
        fail!(format!("{k}:decode"), "{f:?}: {} of {} bytes decode, then: {e} ({}; writes {hist:?})", d.len(), data.len(), o.brief());
    }
    ensure!(
        d == data,
        format!("{k}:data"),
        "{f:?}: {} bytes in, {} bytes out, first difference {:?} ({}; writes {hist:?})",
        data.len(),
        d.len(),
        d.iter().zip(data).position(|(a, b)| a != b),
        o.brief()
    );
    if reference {
        let x = match f {
            Form::Lzma2 => reflzma::decode_lzma2(&out, o.dict, o.preset(), true).map(|(d, n, _)| (d, n == out.len())),
            Form::Raw(end) if preset.is_none() => {
                reflzma::decode_lzma(&out, o.lc, o.lp, o.pb, o.dict, if end { None } else { Some(data.len() as u64) }, false).map(|(d, n)| (d, n == out.len()))
            }
            Form::File(announced, end) => {
                let size = u64::from_le_bytes(out[5..13].try_into().unwrap());
                ensure!(size == if announced { data.len() as u64 } else { u64::MAX }, "file:header", "size field {size:x}");
                ensure!(u32::from_le_bytes(out[1..5].try_into().unwrap()) == o.dict && out[0] == props(o), "file:header", "properties {:?}", &out[..5]);
                let s = if announced { Some(size) } else { None };
                reflzma::decode_lzma(&out[13..], o.lc, o.lp, o.pb, o.dict, s, announced && end).map(|(d, n)| (d, n == out.len() - 13))
            }
            _ => return Ok(()),
        };
        match x {
            Ok((d, all)) => {
                ensure!(d == data, format!("{k}:reference-data"), "{f:?}: the reference decoder gets {} of {} bytes, different ({})", d.len(), data.len(), o.brief());
                ensure!(all, format!("{k}:trailing"), "{f:?}: bytes left after the end of the stream ({})", o.brief());
            }
            Err(e) => fail!(format!("{k}:reference"), "{f:?}: the reference decoder rejects the output: {e} ({}; {} bytes)", o.brief(), data.len()),
        }
    }
    Ok(())
}

/// Pieces from which structured inputs are composed.
fn pieces() -> Vec<(&'static str, Box<dyn Fn(&mut Vec<u8>) + Sync + Send>)> {
    fn lit(n: usize, s: u64) -> Box<dyn Fn(&mut Vec<u8>) + Sync + Send> {
        Box::new(move |v| v.extend(noise(n, s + v.len() as u64)))
    }
    fn run(b: u8, n: usize) -> Box<dyn Fn(&mut Vec<u8>) + Sync + Send> {
        Box::new(move |v| v.extend(std::iter::repeat(b).take(n)))
    }
    fn back(dist: usize, n: usize) -> Box<dyn Fn(&mut Vec<u8>) + Sync + Send> {
        Box::new(move |v| {
            for _ in 0..n {
                let b = if v.len() >= dist { v[v.len() - dist] } else { b'?' };
                v.push(b);
            }
        })
    }
    vec![
        ("noise5", lit(5, 1)),
        ("noise300", lit(300, 2)),
        ("a1", run(b'a', 1)),
        ("a274", run(b'a', 274)),
        ("back3x4", back(3, 4)),
        ("back40x2", back(40, 2)),
        ("back40x30", back(40, 30)),
        ("back300x273", back(300, 273)),
        ("back301x18", back(301, 18)),
        ("text100", Box::new(|v| v.extend(text(100)))),
        ("back4096x50", back(4096, 50)),
        ("noise4090", lit(4090, 3)),
    ]
}

pub fn inputs(ctx: &Ctx) -> Vec<(String, Vec<u8>)> {
    // larger patterns that reach chunk limits, window moves, dictionary wraps
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let q = ctx.quick();
    let sizes: Vec<usize> = if q { vec![65535, 65536, 65537, 140_000, 270_000, 700_000] } else { vec![65509, 65510, 65511, 65535, 65536, 65537, 131072, 140_000, 262_144, 270_000, 400_000, 700_000, 1_500_000, 4_300_000] };
    for n in sizes {
        v.push((format!("noise{n}"), noise(n, 1)));
        v.push((format!("text{n}"), text(n)));
        let mut m = vec![];
        let mut i = 0u64;
        while m.len() < n {
            m.extend(noise(3000, i));
            m.extend(text(2000));
            if m.len() > 5000 {
                let s = m.len() - 4096;
                let c = m[s..s + 900].to_vec();
                m.extend(c);
            }
            i += 1;
        }
        m.truncate(n);
        v.push((format!("mixed{n}"), m));
    }
    for n in if q { vec![(1 << 21) - 273, 1 << 21, (1 << 21) + 1] } else { vec![(1 << 21) - 274, (1 << 21) - 273, (1 << 21) - 272, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, 6 << 20] } {
        v.push((format!("zeros{n}"), vec![0; n]));
    }
    v
}

fn forms(c04: bool) -> Vec<Form> {
    if c04 {
        vec![Form::Raw(true), Form::Raw(false), Form::File(true, false), Form::File(false, true), Form::File(true, true)]
    } else {
        vec![Form::Lzma2]
    }
}

pub fn run(ctx: &Ctx, c04: bool) {
    let fs = forms(c04);
    // all short strings over two letters (plus a leading byte)
    let len = ctx.b(8, 11);
    ctx.explore("short-strings", |ch| {
        let (mode, mf) = *ch.pick(COMBOS);
        let nice = *ch.pick(&[8u32, 273]);
        let f = *ch.pick(&fs);
        let n = ch.choose(len + 1);
        let d: Vec<u8> = (0..n).map(|_| if ch.flag() { b'b' } else { b'a' }).collect();
        let mut o = O::new(mode, mf);
        o.nice = nice;
        ch.desc(|| format!("{f:?} {} {:?}", o.brief(), String::from_utf8_lossy(&d)));
        round(ch, f, &o, &d, &vec![], true)
    });
    // structured inputs
    let ps = pieces();
    let depth = ctx.b(if c04 { 3 } else { 4 }, if c04 { 4 } else { 5 });
    ctx.explore("structured", |ch| {
        let (mode, mf) = *ch.pick(COMBOS);
        let f = *ch.pick(&fs[..ctx.b(2, 5).min(fs.len())]);
        let mut d = vec![];
        let mut names = vec![];
        for _ in 0..depth {
            let (n, p) = ch.pick(&ps);
            p(&mut d);
            names.push(*n);
        }
        let o = O::new(mode, mf);
        ch.desc(|| format!("{f:?} {} {names:?}", o.brief()));
        round(ch, f, &o, &d, &vec![], true)
    });
    // option grid
    let sample: Vec<Vec<u8>> = vec![text(6000), noise(5000, 3), {
        let mut v = noise(2000, 1);
        v.extend(text(3000));
        v.extend_from_slice(&v.clone()[100..4300]);
        v
    }];
    ctx.explore("options", |ch| {
        let (mode, mf) = *ch.pick(COMBOS);
        let mut o = O::new(mode, mf);
        let lclp: Vec<(u32, u32)> = (0..=8).flat_map(|lc| (0..=4).map(move |lp| (lc, lp))).filter(|(a, b)| c04 || a + b <= 4).collect();
        match ch.choose(4) {
            0 => {
                let (lc, lp) = *ch.pick(&lclp);
                o.lc = lc;
                o.lp = lp;
                o.pb = ch.choose(5) as u32;
            }
            1 => o.nice = 8 + ch.choose(266) as u32,
            2 => {
                o.depth = *ch.pick(&[1, 2, 3, 4, 8, 100, 1000, -1]);
                o.nice = *ch.pick(&[8, 9, 64, 272, 273]);
            }
            _ => {
                o.dict = *ch.pick(&[4096u32, 4097, 4111, 4112, 5000, 6144, 6145, 8192, 12288, 65535, 65536, 65537, 1 << 18, 3 << 17, 1 << 20, 1 << 24]);
            }
        }
        let f = *ch.pick(&fs);
        let d = ch.pick(&sample);
        ch.desc(|| format!("{f:?} {} {} bytes", o.brief(), d.len()));
        round(ch, f, &o, d, &vec![], true)
    });
    ctx.explore("presets", |ch| {
        let p = ch.choose(ctx.b(7, 9)) as u32;
        let f = *ch.pick(&fs);
        let n = *ch.pick(&[0usize, 1, 2, 3, 4, 5, 300, 70_000]);
        let k = ch.choose(3);
        let d = match k {
            0 => text(n),
            1 => noise(n, 2),
            _ => vec![b'k'; n],
        };
        let full = LZMA2Options::with_preset(p);
        let mut o = O::new(p, p);
        o.dict = full.dict_size;
        o.nice = full.nice_len;
        o.depth = full.depth_limit;
        ch.desc(|| format!("preset {p} {f:?} {n} bytes"));
        round(ch, f, &o, &d, &vec![], true)
    });
    // write portions and flushes
    let base: Vec<u8> = {
        let mut v = text(300);
        v.extend(noise(60, 8));
        v.extend_from_slice(&v.clone()[20..260]);
        v.extend(std::iter::repeat(0u8).take(300));
        v
    };
    let cuts = [1usize, 2, 3, 4, 5, 8, 63, 64, 65, 272, 273, 274, 545, 546, 547, 899];
    let steps = ctx.b(3, 5);
    ctx.explore("write-and-flush-histories", |ch| {
        let (mode, mf) = *ch.pick(COMBOS);
        let nice = *ch.pick(&[8u32, 64, 273]);
        let f = *ch.pick(&fs[..fs.len().min(2)]);
        let mut h: Hist = vec![];
        let mut pos = 0;
        for _ in 0..steps {
            // next stop: one of the later cuts, with or without a flush there, or stop
            let c = ch.choose(cuts.len() + 1);
            if c == 0 || cuts[c - 1] <= pos {
                break;
            }
            h.push(Some(cuts[c - 1] - pos));
            pos = cuts[c - 1];
            if f == Form::Lzma2 {
                for _ in 0..ch.choose(3) {
                    h.push(None);
                }
            }
        }
        let mut o = O::new(mode, mf);
        o.nice = nice;
        ch.desc(|| format!("{f:?} {} {h:?}", o.brief()));
        round(ch, f, &o, &base, &h, true)
    });
    ctx.explore("small-writes", |ch| {
        let (mode, mf) = *ch.pick(COMBOS);
        let f = *ch.pick(&fs);
        let n = *ch.pick(&[1usize, 2, 3, 7, 100]);
        let fl = *ch.pick(&[0usize, 1, 5]);
        let mut h: Hist = vec![];
        for i in 0..base.len() / n {
            h.push(Some(n));
            if fl > 0 && i % fl == 0 {
                h.push(None);
            }
        }
        let mut o = O::new(mode, mf);
        o.nice = *ch.pick(&[8, 32, 273]);
        ch.desc(|| format!("{f:?} {} writes of {n}, flush every {fl}", o.brief()));
        round(ch, f, &o, &base, &h, true)
    });
    // large inputs
    let big = inputs(ctx);
    ctx.explore("large-inputs", |ch| {
        let (mode, mf) = *ch.pick(COMBOS);
        let mut o = O::new(mode, mf);
        o.dict = *ch.pick(&[4096u32, 5000, 32768, 65536, 1 << 18, 1 << 20][..ctx.b(5, 6)].as_ref());
        o.nice = if mode == 6 { 32 } else { 128 };
        o.depth = 4;
        let f = *ch.pick(&fs[..ctx.b(2, 5).min(fs.len())]);
        let (name, d) = ch.pick(&big);
        let h: Hist = match ch.choose(if f == Form::Lzma2 { 4 } else { 2 }) {
            0 => vec![],
            1 => vec![Some(4096); d.len() / 4096 + 1],
            2 => vec![Some(65536), None, Some(200_000), None],
            _ => vec![Some(d.len() - 1), None],
        };
        ch.desc(|| format!("{f:?} {} {name} {} steps", o.brief(), h.len()));
        round(ch, f, &o, d, &h, d.len() <= 300_000)
    });
    // the position counter of the match finders wraps
    ctx.explore("position-wrap", |ch| {
        let (mode, mf) = *ch.pick(COMBOS);
        let mut o = O::new(mode, mf);
        o.dict = *ch.pick(&[4096u32, 8192]);
        let left = match ch.choose(2) {
            0 => ch.choose(ctx.b(60, 700)),
            _ => 4000 + 97 * ch.choose(ctx.b(100, 200)),
        } as i32;
        let d = &big[1].1[..ctx.b(16_000, 30_000)];
        let mut d = d.to_vec();
        for i in (0..d.len()).step_by(511) {
            d[i] ^= (i / 511) as u8;
        }
        ch.desc(|| format!("{} {left} positions before the wrap", o.brief()));
        set_lz_pos_start(i32::MAX - 1 - left);
        let r = no_panic(|| round(ch, fs[0], &o, &d, &vec![], true));
        set_lz_pos_start(0);
        r?
    });
    // preset dictionaries
    ctx.explore("preset-dictionary", |ch| {
        let (mode, mf) = *ch.pick(COMBOS);
        let mut o = O::new(mode, mf);
        o.dict = *ch.pick(&[4096u32, 5000, 65536]);
        o.nice = *ch.pick(&[8u32, 64, 273]);
        let n = *ch.pick(&[0usize, 1, 2, 3, 4, 5, 63, 100, 272, 273, 4095, 4096, 4097, 5000, 9000]);
        let p = match ch.choose(2) {
            0 => noise(n, 4),
            _ => text(n),
        };
        let k = *ch.pick(&[0usize, 1, 2, 3, 20, 3000]);
        let mut d = p[p.len().saturating_sub(k)..].to_vec();
        d.extend_from_slice(b"!");
        d.extend_from_slice(&p[..p.len().min(200)]);
        d.extend(text(*ch.pick(&[0usize, 1, 400, 6000])));
        o.preset_dict = Some(p);
        let f = *ch.pick(if c04 { &fs[..2] } else { &fs[..] });
        ch.desc(|| format!("{f:?} {} {} bytes", o.brief(), d.len()));
        let h: Hist = if ch.flag() && !c04 { vec![Some(1), None] } else { vec![] };
        round(ch, f, &o, &d, &h, true)
    });
    if c04 {
        if !ctx.quick() {
            ctx.horizon(200);
            ctx.explore("beyond-4GiB", |ch| {
                let header = ch.flag();
                let n = crate::huge::GIB4 + 100_003;
                ch.desc(|| format!("{n} bytes, header {header}"));
                crate::huge::lzma(ch, header, n)
            });
        }
        announced(ctx);
    }
}

/// Any other number of bytes than announced is an error.
fn announced(ctx: &Ctx) {
    let max = ctx.b(6usize, 9);
    ctx.explore("announced-size", |ch| {
        let ann = *ch.pick(&[0u64, 1, 2, 5, 100, 5000]);
        let header = ch.flag();
        let end = ch.flag();
        let steps: Vec<usize> = {
            let n = ch.choose(4);
            (0..n).map(|_| [1usize, 2, 5, 95, 4900, 100][ch.choose(max.min(6))]).collect()
        };
        ch.desc(|| format!("announced {ann}, header {header}, end {end}, writes {steps:?}"));
        let data = text(16000);
        let mut out = vec![];
        let o = O::new(1, 1);
        let total: usize = steps.iter().sum();
        let r = (|| -> std::io::Result<()> {
            let mut w = LZMAWriter::new(CountingWriter::new(&mut out), &o.opts(), header, end, Some(ann))?;
            let mut p = 0;
            for s in &steps {
                w.write_all(&data[p..p + s])?;
                p += s;
            }
            if ch.flag() {
                w.finish()
            } else {
                w.write(&[]).map(|_| ())
            }
        })();
        ch.state(fnv(&out) ^ r.is_ok() as u64);
        if total as u64 != ann {
            ensure!(r.is_err(), "announced:accepted", "{total} bytes written and finished without error, {ann} announced");
        } else {
            if let Err(e) = r {
                fail!("announced:error", "{total} bytes written as announced: {e}");
            }
            let body = if header { &out[13..] } else { &out[..] };
            match reflzma::decode_lzma(body, 3, 0, 2, 4096, Some(ann), end) {
                Ok((d, n)) => ensure!(d == data[..total] && n == body.len(), "announced:data", "{} of {total} bytes, {n} of {} used", d.len(), body.len()),
                Err(e) => fail!("announced:reference", "{e}"),
            }
        }
        Ok(())
    });
    // finishing twice / writing after the end
    ctx.explore("after-finish", |ch| {
        let n = *ch.pick(&[0usize, 1, 100]);
        let mut out = vec![];
        let o = O::new(1, 1);
        let d = text(n);
        let r = (|| -> std::io::Result<bool> {
            let mut w = LZMAWriter::new(CountingWriter::new(&mut out), &o.opts(), true, true, None)?;
            w.write_all(&d)?;
            w.finish()?;
            w.finish()?;
            Ok(w.write(b"more").is_err())
        })();
        match r {
            Ok(refused) => ensure!(refused, "after-finish:accepted", "data accepted after the end of the stream"),
            Err(e) => fail!("after-finish:error", "{e}"),
        }
        let mut r = LZMAReader::new_mem_limit(&out[..], u32::MAX, None).map_err(|e| Fail::new("after-finish:open", e.to_string()))?;
        let (got, e) = drain(&mut r, 1000, 100_000);
        ensure!(got == d && e.is_ok(), "after-finish:data", "{} of {n} bytes, {e:?}", got.len());
        Ok(())
    });
}
