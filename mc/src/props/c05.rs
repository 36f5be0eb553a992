//! C05: LZMA and LZMA2 decoders against the symbol-level reference coder.
use crate::arch::{noise, text};
use crate::explore::Ch;
use crate::io::Src;
use crate::reflzma::*;
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::lzma::{LZMA2Reader, LZMAReader};
use std::io::Read;

pub const PORTIONS: &[usize] = &[1, 2, 7, 100, 1 << 16];

/// What a decoder gave: everything before the error, and whether it ended without one.
pub fn drain(r: &mut dyn Read, portion: usize, limit: usize) -> (Vec<u8>, Result<(), String>) {
    let mut out = vec![];
    let mut buf = vec![0u8; portion];
    loop {
        match r.read(&mut buf) {
            Ok(0) => {
                // the end stays the end
                for _ in 0..2 {
                    match r.read(&mut buf) {
                        Ok(0) => (),
                        Ok(n) => return (out, Err(format!("MC: {n} more bytes after the end"))),
                        Err(e) => return (out, Err(format!("MC: error after the end: {e}"))),
                    }
                }
                return (out, Ok(()));
            }
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(e) => return (out, Err(e.to_string())),
        }
        if out.len() > limit {
            return (out, Err("MC: more data than the stream defines".into()));
        }
    }
}

#[derive(Clone, Debug)]
pub struct Raw {
    pub lc: u32,
    pub lp: u32,
    pub pb: u32,
    pub dict: u32,
    pub preset: Vec<u8>,
    pub body: Vec<u8>,
    pub want: Vec<u8>,
    /// an illegal reference follows the wanted bytes
    pub bad: bool,
    pub end: bool,
    /// length announced when the stream is bad (longer than what can be produced)
    pub claim: u64,
}
/// Encodes symbols as raw LZMA; stops at the first illegal one.
pub fn encode(syms: &[Sym], lc: u32, lp: u32, pb: u32, dict: u32, preset: &[u8], end: bool) -> Raw {
    let mut m = Model::new(lc, lp, pb);
    m.hist = preset[preset.len().saturating_sub(dict as usize)..].to_vec();
    let skip = m.hist.len();
    let mut rc = RangeEnc::default();
    let mut bad = false;
    let mut claim = 0u64;
    for s in syms {
        let l = m.legal(s, dict.max(4096));
        claim += match s {
            Sym::Lit(_) | Sym::ShortRep => 1,
            Sym::Match { len, .. } | Sym::Rep { len, .. } => *len as u64,
            Sym::End => 0,
        };
        if !l {
            bad = true;
            let h = m.hist.len();
            let _ = m.code(&mut rc, Some(*s));
            m.hist.truncate(h);
            // something for a decoder that goes on
            for _ in 0..4 {
                m.hist.push(0);
                let _ = m.code(&mut rc, Some(Sym::Lit(b'!')));
            }
            m.hist.truncate(h);
            break;
        }
        m.code(&mut rc, Some(*s)).expect("legal");
    }
    if end && !bad {
        m.code(&mut rc, Some(Sym::End)).expect("end");
    }
    Raw { lc, lp, pb, dict, preset: preset.to_vec(), body: rc.finish(), want: m.hist[skip..].to_vec(), bad, end, claim }
}
fn preset_opt(p: &[u8]) -> Option<&[u8]> {
    if p.is_empty() {
        None
    } else {
        Some(p)
    }
}
fn expect(key: &str, what: &str, raw_want: &[u8], bad: bool, got: (Vec<u8>, Result<(), String>)) -> R {
    let (d, r) = got;
    if bad {
        ensure!(r.is_err(), format!("{key}:bad-accepted"), "{what}: a reference outside the data is accepted ({} bytes delivered)", d.len());
        ensure!(raw_want.starts_with(&d), format!("{key}:bad-prefix"), "{what}: bytes delivered before the error differ from the data");
    } else {
        if let Err(e) = &r {
            fail!(format!("{key}:error"), "{what}: error on a conforming stream after {} of {} bytes: {e}", d.len(), raw_want.len());
        }
        ensure!(
            d == raw_want,
            format!("{key}:data"),
            "{what}: decoded {} bytes, {} expected, first difference at {:?}",
            d.len(),
            raw_want.len(),
            d.iter().zip(raw_want).position(|(a, b)| a != b)
        );
    }
    Ok(())
}
/// All ways of presenting one raw LZMA stream to the LZMA reader.
pub fn check_lzma(key: &str, x: &Raw, portions: &[usize], src_max: usize) -> R {
    let props = props_byte(x.lc, x.lp, x.pb);
    let limit = x.want.len() + 4096;
    for &p in portions {
        // raw: size known
        let size = if x.bad { x.claim } else { x.want.len() as u64 };
        let size = if x.end { u64::MAX } else { size };
        let what = format!("raw lzma, portion {p}, size {size}, lc{} lp{} pb{} dict {}", x.lc, x.lp, x.pb, x.dict);
        // what follows the stream in the source is not taken
        let mut more = x.body.clone();
        more.extend_from_slice(b"the next");
        let mut src = Src::max(&more, src_max);
        match LZMAReader::new_with_props(&mut src, size, props, x.dict, preset_opt(&x.preset)) {
            Ok(mut r) => expect(key, &what, &x.want, x.bad, drain(&mut r, p, limit))?,
            Err(e) => fail!(format!("{key}:open"), "{what}: {e}"),
        }
        if !x.bad {
            ensure!(
                src.pos as usize == x.body.len(),
                format!("{key}:consumed"),
                "{what}: {} of {} bytes of the stream taken from the source",
                src.pos,
                x.body.len()
            );
        }
        match LZMAReader::new(Src::max(&x.body, src_max), size, x.lc, x.lp, x.pb, x.dict, preset_opt(&x.preset)) {
            Ok(mut r) => expect(key, &what, &x.want, x.bad, drain(&mut r, p, limit))?,
            Err(e) => fail!(format!("{key}:open"), "{what}: {e}"),
        }
        if x.preset.is_empty() {
            let mut f = vec![props];
            f.extend_from_slice(&x.dict.to_le_bytes());
            f.extend_from_slice(&size.to_le_bytes());
            f.extend_from_slice(&x.body);
            match LZMAReader::new_mem_limit(Src::max(&f, src_max), u32::MAX, None) {
                Ok(mut r) => expect(key, &format!(".lzma file, {what}"), &x.want, x.bad, drain(&mut r, p, limit))?,
                Err(e) => fail!(format!("{key}:open"), ".lzma file, {what}: {e}"),
            };
        }
    }
    Ok(())
}
pub fn check_lzma2(key: &str, what: &str, stream: &[u8], dict: u32, preset: &[u8], want: &[u8], bad: bool, portions: &[usize], src_max: usize) -> R {
    for &p in portions {
        let mut src = Src::max(stream, src_max);
        let got = {
            let mut r = LZMA2Reader::new(&mut src, dict, preset_opt(preset));
            drain(&mut r, p, want.len() + 4096)
        };
        expect(key, &format!("lzma2 {what}, portion {p}, dict {dict}"), want, bad, got)?;
        if !bad {
            ensure!(
                src.pos as usize == stream.len(),
                format!("{key}:consumed"),
                "lzma2 {what}: {} of {} bytes of input consumed",
                src.pos,
                stream.len()
            );
        }
    }
    Ok(())
}
/// raw LZMA body in one LZMA2 chunk
fn as_lzma2(x: &Raw) -> Option<Vec<u8>> {
    if x.end || x.lc + x.lp > 4 || (x.want.is_empty() && !x.bad) || x.body.len() > 65536 || x.claim == 0 {
        return None;
    }
    let mut out = vec![];
    let us = if x.bad { x.claim as usize } else { x.want.len() };
    if us > 1 << 21 {
        return None;
    }
    lzma2_chunk(&mut out, if x.preset.is_empty() { 0xE0 } else { 0xC0 }, us, &x.body, Some(props_byte(x.lc, x.lp, x.pb)));
    out.push(0);
    Some(out)
}
fn check_both(key: &str, ch: &Ch, syms: &[Sym], lc: u32, lp: u32, pb: u32, dict: u32, preset: &[u8], portions: &[usize], src_max: usize) -> R {
    for end in [false, true] {
        let x = encode(syms, lc, lp, pb, dict, preset, end);
        if !end {
            ch.state(fnv(&x.want) ^ x.bad as u64);
        }
        check_lzma(key, &x, portions, src_max)?;
        if let Some(s) = as_lzma2(&x) {
            check_lzma2(&format!("{key}2"), "single chunk", &s, dict, preset, &x.want, x.bad, portions, src_max)?;
        }
    }
    Ok(())
}

fn alphabet() -> Vec<Sym> {
    vec![
        Sym::Lit(b'a'),
        Sym::Lit(0xFF),
        Sym::Match { dist: 1, len: 2 },
        Sym::Match { dist: 2, len: 3 },
        Sym::Match { dist: 3, len: 10 },
        Sym::Match { dist: 5, len: 273 },
        Sym::Match { dist: 1, len: 18 },
        Sym::Rep { idx: 0, len: 2 },
        Sym::Rep { idx: 1, len: 9 },
        Sym::Rep { idx: 2, len: 17 },
        Sym::Rep { idx: 3, len: 2 },
        Sym::ShortRep,
        Sym::Match { dist: 300, len: 4 },
    ]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    DictPropsState, // E0
    PropsState,     // C0
    State,          // A0
    Plain,          // 80
    StoredReset,    // 1
    Stored,         // 2
}
const KINDS: &[Kind] = &[Kind::DictPropsState, Kind::PropsState, Kind::State, Kind::Plain, Kind::StoredReset, Kind::Stored];

/// Builds an LZMA2 stream chunk by chunk; tracks whether it is well-formed.
pub struct L2 {
    pub m: Model,
    pub out: Vec<u8>,
    pub want: Vec<u8>,
    need_dict: bool,
    need_props: bool,
    need_state: bool,
    pub ok: bool,
    pub dict: u32,
}
impl L2 {
    pub fn new(dict: u32, preset: &[u8]) -> L2 {
        let mut m = Model::new(0, 0, 0);
        m.hist = preset[preset.len().saturating_sub(dict as usize)..].to_vec();
        L2 { need_dict: m.hist.is_empty(), m, out: vec![], want: vec![], need_props: true, need_state: true, ok: true, dict }
    }
    fn lzma(&mut self, k: Kind, props: (u32, u32, u32), syms: &[Sym]) {
        match k {
            Kind::DictPropsState => {
                self.m.hist.clear();
                self.need_dict = false;
            }
            _ => self.ok &= !self.need_dict,
        }
        match k {
            Kind::DictPropsState | Kind::PropsState => {
                self.m.reset(props.0, props.1, props.2);
                self.need_props = false;
                self.need_state = false;
            }
            Kind::State => {
                self.ok &= !self.need_props;
                let (a, b, c) = (self.m.lc, self.m.lp, self.m.pb);
                self.m.reset(a, b, c);
                self.need_state = false;
            }
            _ => self.ok &= !self.need_props && !self.need_state,
        }
        let start = self.m.hist.len();
        let mut rc = RangeEnc::default();
        for s in syms {
            let s = if self.m.legal(s, self.dict) { *s } else { Sym::Lit(b'x') };
            self.m.code(&mut rc, Some(s)).expect("legal");
        }
        let body = rc.finish();
        let new = self.m.hist[start..].to_vec();
        self.want.extend_from_slice(&new);
        let ctl = match k {
            Kind::DictPropsState => 0xE0,
            Kind::PropsState => 0xC0,
            Kind::State => 0xA0,
            _ => 0x80,
        };
        lzma2_chunk(&mut self.out, ctl, new.len(), &body, Some(props_byte(props.0, props.1, props.2)));
    }
    fn stored(&mut self, reset: bool, d: &[u8]) {
        if reset {
            self.m.hist.clear();
            self.need_dict = false;
            self.need_props = true;
        } else {
            self.ok &= !self.need_dict;
        }
        self.need_state = true;
        self.m.hist.extend_from_slice(d);
        self.want.extend_from_slice(d);
        lzma2_stored(&mut self.out, reset, d);
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("the reference coder (reflzma.rs) implements the published LZMA specification; it is checked against liblzma-compatible fixtures of the repository and by coding both ways");
    let al = alphabet();
    let depth = ctx.b(4, 6);
    let portions: &[usize] = &[1, 3, 1 << 16];
    ctx.explore("symbol-sequences", |ch| {
        let n = ch.choose(depth + 1);
        let syms: Vec<Sym> = (0..n).map(|_| *ch.pick(&al)).collect();
        ch.desc(|| format!("{syms:?}"));
        check_both("seq", ch, &syms, 3, 0, 2, 4096, &[], portions, usize::MAX)
    });
    // deeper sequences after a fixed start which makes every reference legal
    let depth = ctx.b(3, 4);
    let tail: Vec<Sym> = {
        let mut v = al.clone();
        v.extend([Sym::Match { dist: 300, len: 5 }, Sym::Rep { idx: 3, len: 273 }, Sym::Match { dist: 301, len: 2 }, Sym::Match { dist: 128, len: 6 }]);
        v
    };
    ctx.explore("symbol-sequences-with-history", |ch| {
        let props = *ch.pick(&[(3u32, 0u32, 2u32), (0, 4, 4), (4, 0, 0), (3, 4, 4), (1, 3, 1)]);
        let base = *ch.pick(&[299usize, 300, 301]);
        let mut syms: Vec<Sym> = noise(base, 7).into_iter().map(Sym::Lit).collect();
        for _ in 0..depth {
            syms.push(*ch.pick(&tail));
        }
        ch.desc(|| format!("{props:?} {base} literals then {:?}", &syms[base..]));
        check_both("hist", ch, &syms, props.0, props.1, props.2, 4096, &[], &[5, 1 << 16], usize::MAX)
    });
    // wrap of the dictionary
    let depth = ctx.b(2, 3);
    let wrap: Vec<Sym> = vec![
        Sym::Lit(b'L'),
        Sym::ShortRep,
        Sym::Match { dist: 1, len: 273 },
        Sym::Match { dist: 4095, len: 2 },
        Sym::Match { dist: 4096, len: 273 },
        Sym::Match { dist: 4096, len: 2 },
        Sym::Match { dist: 4097, len: 2 },
        Sym::Match { dist: 273, len: 272 },
        Sym::Match { dist: 272, len: 273 },
        Sym::Rep { idx: 0, len: 273 },
        Sym::Rep { idx: 1, len: 20 },
    ];
    ctx.explore("dictionary-wrap", |ch| {
        let laps = ctx.b(1usize, 3);
        let lap = 1 + ch.choose(laps);
        let base = lap * 4096 - *ch.pick(&[0usize, 1, 2, 3, 20, 272, 273, 274]);
        let after = ch.choose(2) * 274;
        let base = if after > 0 { base + after } else { base };
        let pi = ch.choose(4);
        let portions: &[usize] = match pi {
            0 => &[1 << 16],
            1 => &[4096],
            2 => &[37],
            _ => &[4095],
        };
        let mut syms: Vec<Sym> = greedy(&noise(base, 3), 0, 4096);
        let n = syms.len();
        for _ in 0..depth {
            syms.push(*ch.pick(&wrap));
        }
        ch.desc(|| format!("{base} bytes, then {:?}, portion {portions:?}", &syms[n..]));
        check_both("wrap", ch, &syms, 3, 0, 2, 4096, &[], portions, usize::MAX)
    });
    // all property values
    ctx.explore("property-bytes", |ch| {
        let pbyte = ch.choose(225) as u8;
        let (lc, lp, pb) = split_props(pbyte).unwrap();
        let kind = ch.choose(3);
        let d = match kind {
            0 => text(1200),
            1 => noise(700, pbyte as u64),
            _ => (0..900u32).map(|i| (i * i / 7) as u8 & 0xE7).collect(),
        };
        ch.desc(|| format!("lc{lc} lp{lp} pb{pb} data {kind}"));
        let syms = greedy(&d, 0, 4096);
        check_both("props", ch, &syms, lc, lp, pb, 4096, &[], PORTIONS, usize::MAX)?;
        if lc + lp > 4 {
            let x = encode(&syms, lc, lp, pb, 4096, &[], false);
            let mut s = vec![];
            lzma2_chunk(&mut s, 0xE0, x.want.len(), &x.body, Some(pbyte));
            s.push(0);
            let mut r = LZMA2Reader::new(&s[..], 4096, None);
            let (d, e) = drain(&mut r, 100, 1 << 20);
            ensure!(e.is_err() || d == x.want, "props:lzma2-lclp", "lc+lp > 4 in LZMA2 gives {} other bytes", d.len());
        }
        Ok(())
    });
    // every distance slot, low and high values, every length class, in one long stream per setting
    let reach: u32 = ctx.b(1 << 20, 1 << 25);
    ctx.explore("distance-slots", |ch| {
        let props = *ch.pick(&[(3u32, 0u32, 2u32), (0, 2, 4), (2, 2, 0)]);
        let dict = *ch.pick(&[reach, reach * 2]);
        let mut m = Model::new(props.0, props.1, props.2);
        let mut rc = RangeEnc::default();
        for b in noise(4096, 11) {
            m.code(&mut rc, Some(Sym::Lit(b))).unwrap();
        }
        let mut k = 1u32;
        while (m.hist.len() as u32) < reach + 5000 {
            k = k.wrapping_mul(1664525).wrapping_add(1013904223);
            let d = 1000 + (k >> 8) % 3000;
            m.code(&mut rc, Some(Sym::Match { dist: d, len: 273 - (k >> 28) })).unwrap();
        }
        let mut d0s = vec![0u32, 1, 2, 3];
        for slot in 4..52u32 {
            let fb = (slot >> 1) - 1;
            let base = (2 | (slot & 1)) << fb;
            for v in [0, 1, (1 << fb) - 1, (1 << fb) / 2, ((1 << fb) - 1) ^ 8] {
                d0s.push(base + (v & ((1 << fb) - 1)));
            }
        }
        for d0 in d0s {
            if d0 >= reach.min(dict) {
                continue;
            }
            for len in [2u32, 3, 4, 5, 9, 10, 17, 18, 100, 273] {
                m.code(&mut rc, Some(Sym::Match { dist: d0 + 1, len })).unwrap();
            }
        }
        let x = Raw { lc: props.0, lp: props.1, pb: props.2, dict, preset: vec![], body: rc.finish(), want: m.hist, bad: false, end: false, claim: 0 };
        ch.desc(|| format!("{props:?} dict {dict}, {} bytes", x.want.len()));
        ch.state(fnv(&x.want));
        check_lzma("slots", &x, &[1 << 16, 4097], usize::MAX)
    });
    // preset dictionaries
    ctx.explore("preset-dictionary", |ch| {
        let n = *ch.pick(&[1usize, 2, 100, 4095, 4096, 4097, 5000, 8192]);
        let preset = noise(n, 5);
        let use_ = n.min(4096) as u32;
        let mut syms = vec![];
        let k = ch.choose(6);
        match k {
            0 => syms.push(Sym::Match { dist: use_, len: 2 }),
            1 => syms.push(Sym::Match { dist: 1, len: 2 }),
            2 => syms.push(Sym::Lit(1)),
            3 => syms.push(Sym::Match { dist: use_ + 1, len: 2 }),
            4 => syms.push(Sym::ShortRep),
            _ => {}
        }
        let l = *ch.pick(&[1u32, 2, 30, 273]);
        if l >= 2 {
            syms.push(Sym::Match { dist: (use_ / 2).max(1), len: l });
        } else {
            syms.push(Sym::Lit(7));
        }
        let tailn = *ch.pick(&[0usize, 10, 4100]);
        syms.extend(noise(tailn, 9).into_iter().map(Sym::Lit));
        if tailn > 0 {
            syms.push(Sym::Match { dist: 4096.min(use_ + tailn as u32), len: 40 });
        }
        let dict = *ch.pick(&[4096u32, 65536]);
        ch.desc(|| format!("preset {n}, dict {dict}, {k}, len {l}, tail {tailn}"));
        check_both("preset", ch, &syms, 3, 0, 2, dict, &preset, &[1, 300, 1 << 16], usize::MAX)
    });
    // LZMA2 chunk sequences
    let depth = ctx.b(3, 4);
    ctx.explore("lzma2-chunks", |ch| {
        let n = ch.choose(depth + 1);
        let preset = if ch.flag() { noise(50, 1) } else { vec![] };
        let mut l = L2::new(4096, &preset);
        let mut d = vec![];
        for i in 0..n {
            let k = *ch.pick(KINDS);
            d.push(k);
            match k {
                Kind::Stored | Kind::StoredReset => {
                    let data = match ch.choose(2) {
                        0 => vec![b'0' + i as u8],
                        _ => noise(40, i as u64),
                    };
                    l.stored(k == Kind::StoredReset, &data);
                }
                _ => {
                    let props = match k {
                        Kind::DictPropsState | Kind::PropsState => *ch.pick(&[(3u32, 0u32, 2u32), (0, 4, 0)]),
                        _ => (0, 0, 0),
                    };
                    let syms: &[Sym] = match ch.choose(3) {
                        0 => &[Sym::Lit(b'q')],
                        1 => &[Sym::Lit(b'a'), Sym::Match { dist: 2, len: 4 }, Sym::Rep { idx: 1, len: 3 }, Sym::ShortRep],
                        _ => &[Sym::Rep { idx: 0, len: 2 }, Sym::Match { dist: 40, len: 30 }, Sym::Lit(b'b'), Sym::Rep { idx: 2, len: 5 }],
                    };
                    l.lzma(k, props, syms);
                }
            }
            if !l.ok {
                break;
            }
        }
        l.out.push(0);
        ch.desc(|| format!("preset {} chunks {d:?} well-formed {}", preset.len(), l.ok));
        if l.ok {
            ch.state(fnv(&l.want));
            check_lzma2("chunks", &format!("{d:?}"), &l.out, 4096, &preset, &l.want, false, &[1, 5, 1 << 16], usize::MAX)?;
            if n > 0 {
                check_lzma2("chunks-short", &format!("{d:?}"), &l.out, 4096, &preset, &l.want, false, &[7], 1)?;
                // every cut must be an error, and never other data
                for cut in 0..l.out.len() {
                    let mut r = LZMA2Reader::new(&l.out[..cut], 4096, preset_opt(&preset));
                    let (got, e) = drain(&mut r, 64, 1 << 16);
                    ensure!(e.is_err(), "chunks:cut", "stream cut at {cut} of {} ends without error after {} bytes", l.out.len(), got.len());
                    ensure!(l.want.starts_with(&got), "chunks:cut-data", "stream cut at {cut} delivers wrong bytes");
                }
            }
        } else {
            // not well-formed: an error, or at least only defined data
            let mut r = LZMA2Reader::new(&l.out[..], 4096, preset_opt(&preset));
            let (_, _) = drain(&mut r, 64, 1 << 16);
        }
        Ok(())
    });
    // dictionary resets after the dictionary has been filled up to, or beyond, its end
    let depth = ctx.b(1, 2);
    ctx.explore("reset-of-a-full-dictionary", |ch| {
        let dict = *ch.pick(&[4096u32, 4112, 8192]);
        let laps = 1 + ch.choose(ctx.b(2usize, 3));
        let before = (dict as usize * laps).wrapping_add_signed(*ch.pick(&[-16isize, -1, 0, 1, 16]));
        let last = *ch.pick(&[0xFFu8, 0x00, 0x5A]);
        let packed = ch.flag();
        let mut l = L2::new(dict, &[]);
        let mut d = noise(before, 9);
        *d.last_mut().unwrap() = last;
        if packed {
            let syms = greedy(&d, 0, dict as usize);
            l.lzma(Kind::DictPropsState, (3, 0, 2), &syms);
        } else {
            l.stored(true, &d);
        }
        let small = [Sym::Lit(0xA5), Sym::Lit(1), Sym::Lit(2), Sym::ShortRep, Sym::Lit(0xFE), Sym::Match { dist: 4, len: 9 }, Sym::Lit(3), Sym::Lit(3)];
        let mut resets = vec![];
        for _ in 0..depth {
            let r = ch.choose(4);
            resets.push(r);
            let props = *ch.pick(&[(3u32, 0u32, 2u32), (0, 4, 0), (4, 0, 4)]);
            match r {
                0 => l.lzma(Kind::DictPropsState, props, &small),
                1 => {
                    l.stored(true, b"restart");
                    l.lzma(Kind::PropsState, props, &small);
                }
                2 => {
                    l.lzma(Kind::PropsState, props, &small);
                    l.lzma(Kind::State, props, &small);
                }
                _ => {
                    l.stored(true, &d);
                    l.lzma(Kind::PropsState, props, &small);
                }
            }
        }
        l.lzma(Kind::Plain, (0, 0, 0), &small);
        let pi = ch.choose(4);
        let portions: &[usize] = match pi {
            0 => &[1 << 16],
            1 => &[dict as usize],
            2 => &[37],
            _ => &[dict as usize - 1],
        };
        ch.desc(|| format!("dict {dict}, {before} bytes (packed {packed}) ending in {last:#x}, resets {resets:?}, portion {portions:?}"));
        assert!(l.ok);
        let mut whole = l.out.clone();
        whole.push(0);
        ch.state(fnv(&l.want));
        let what = format!("{before} bytes in a dictionary of {dict}, resets {resets:?}");
        check_lzma2("full-reset", &what, &whole, dict, &[], &l.want, false, portions, usize::MAX)?;
        // what was before a reset is out of reach behind it
        if before % 16 == 0 && resets == [3] {
            let mut l = L2::new(dict, &[]);
            l.stored(true, &d);
            let at = l.out.len();
            l.lzma(Kind::PropsState, (0, 0, 0), &[Sym::Lit(0x11), Sym::Match { dist: (*ch.pick(&[2u32, 17, dict])).min(before as u32), len: 3 }]);
            assert_eq!(l.out[at], 0xC0);
            l.out[at] = 0xE0;
            l.out.push(0);
            let mut r = LZMA2Reader::new(&l.out[..], dict, None);
            let (got, e) = drain(&mut r, 1000, 1 << 20);
            ensure!(e.is_err(), "full-reset:reach", "a match into data before a dictionary reset is accepted");
            ensure!(l.want.starts_with(&got) && got.len() <= before + 1, "full-reset:reach-data", "{} bytes before the error", got.len());
        }
        Ok(())
    });
    // chunk sizes
    ctx.explore("lzma2-chunk-sizes", |ch| {
        let dict = *ch.pick(&[4096u32, 1 << 16, 1 << 20]);
        let first = ch.flag();
        let n = *ch.pick(&[1usize, 2, 255, 256, 257, 4095, 4096, 4097, 65534, 65535, 65536]);
        let mut l = L2::new(dict, &[]);
        if first {
            l.stored(true, b"start");
        }
        l.stored(!first, &noise(n, 2));
        l.lzma(Kind::PropsState, (3, 0, 2), &[Sym::Match { dist: (n as u32).min(dict).max(1), len: 20 }]);
        let zeros = *ch.pick(&[1usize, 2, 254, 255, 256, 257, 65535, 65536, 65537, (1 << 21) - 1, 1 << 21]);
        let mut syms = vec![Sym::Lit(9)];
        let mut left = zeros - 1;
        while left > 0 {
            if left == 1 {
                syms.push(Sym::Lit(9));
                left = 0;
            } else {
                let k = left.min(273).min(if left == 274 { 272 } else { 273 });
                syms.push(Sym::Match { dist: 1, len: k as u32 });
                left -= k;
            }
        }
        l.lzma(Kind::State, (3, 0, 2), &syms);
        l.stored(false, &noise(n, 3));
        l.out.push(0);
        assert!(l.ok);
        ch.desc(|| format!("stored {n}, lzma {zeros}, dict {dict}, first {first}"));
        ch.state(fnv(&l.want));
        check_lzma2("sizes", &format!("stored {n} lzma {zeros}"), &l.out, dict, &[], &l.want, false, &[1000, 1 << 16], usize::MAX)
    });
    // compressed size up to its maximum
    ctx.explore("lzma2-largest-compressed-chunk", |ch| {
        let cut = ch.choose(40);
        let d = noise(65536, 4);
        // literals of noise cost more than a byte each: find the count that gives the wanted size
        let mut n = 64200 + cut * 16;
        let mut body;
        loop {
            let mut m = Model::new(3, 0, 2);
            body = encode_lzma(&mut m, &d[..n].iter().map(|b| Sym::Lit(*b)).collect::<Vec<_>>());
            if body.len() <= 65536 {
                break;
            }
            n -= 1;
        }
        let mut s = vec![];
        lzma2_chunk(&mut s, 0xE0, n, &body, Some(props_byte(3, 0, 2)));
        s.push(0);
        ch.desc(|| format!("{n} bytes in {}", body.len()));
        ch.state(fnv(&body));
        check_lzma2("big-chunk", &format!("{n} in {}", body.len()), &s, 1 << 16, &[], &d[..n], false, &[1 << 17], usize::MAX)
    });
    // streams beyond 4 GiB: sizes are not truncated to 32 bits
    ctx.horizon(200);
    ctx.explore("beyond-4GiB", |ch| {
        let n: u64 = *ch.pick(&[(1u64 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 100_000][..ctx.b(3usize, 4)].as_ref());
        let end = ctx.b(false, true) && ch.flag();
        ch.desc(|| format!("{n} bytes, end marker {end}"));
        let mut m = Model::new(0, 0, 0);
        let mut rc = RangeEnc::default();
        m.code(&mut rc, Some(Sym::Lit(b'z'))).unwrap();
        let mut left = n - 1;
        m.code(&mut rc, Some(Sym::Match { dist: 1, len: 273 })).unwrap();
        left -= 273;
        while left > 0 {
            let k = if left >= 275 || left <= 273 { left.min(273) } else { left - 2 };
            let s = if k == 1 { Sym::ShortRep } else { Sym::Rep { idx: 0, len: k as u32 } };
            m.code(&mut rc, Some(s)).unwrap();
            left -= k;
            if m.hist.len() > 1 << 16 {
                m.hist.truncate(1 << 10);
            }
        }
        if end {
            m.code(&mut rc, Some(Sym::End)).unwrap();
        }
        let body = rc.finish();
        let mut r = match LZMAReader::new_with_props(&body[..], if end { u64::MAX } else { n }, 0, 4096, None) {
            Ok(r) => r,
            Err(e) => fail!("huge:open", "{e}"),
        };
        let mut buf = vec![0u8; 1 << 20];
        let mut got = 0u64;
        loop {
            match r.read(&mut buf) {
                Ok(0) => break,
                Ok(k) => {
                    ensure!(buf[..k].iter().all(|b| *b == b'z'), "huge:data", "wrong byte near {got}");
                    got += k as u64;
                }
                Err(e) => fail!("huge:error", "after {got} of {n} bytes: {e}"),
            }
            ensure!(got <= n, "huge:more", "more than {n} bytes");
        }
        ch.state(got);
        ensure!(got == n, "huge:size", "{got} of {n} bytes");
        Ok(())
    });
}
