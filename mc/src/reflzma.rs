//! Reference LZMA / LZMA2 coder at symbol level, written from the LZMA specification.
//! One probability model drives both an encoder and a decoder.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sym {
    Lit(u8),
    Match { dist: u32, len: u32 }, // dist >= 1
    Rep { idx: u8, len: u32 },
    ShortRep,
    End,
}

pub trait BitCoder {
    fn bit(&mut self, p: &mut u16, b: u32) -> u32;
    fn direct(&mut self, v: u32, n: u32) -> u32;
}

#[derive(Clone)]
pub struct RangeEnc {
    low: u64,
    range: u32,
    cache: u8,
    cache_size: u64,
    pub out: Vec<u8>,
}
impl Default for RangeEnc {
    fn default() -> Self {
        RangeEnc { low: 0, range: 0xFFFF_FFFF, cache: 0, cache_size: 1, out: vec![] }
    }
}
impl RangeEnc {
    fn shift_low(&mut self) {
        if (self.low as u32) < 0xFF00_0000 || (self.low >> 32) != 0 {
            let carry = (self.low >> 32) as u8;
            let mut c = self.cache;
            while self.cache_size > 0 {
                self.out.push(c.wrapping_add(carry));
                c = 0xFF;
                self.cache_size -= 1;
            }
            self.cache = (self.low >> 24) as u8;
        }
        self.cache_size += 1;
        self.low = (self.low & 0x00FF_FFFF) << 8;
    }
    pub fn finish(mut self) -> Vec<u8> {
        for _ in 0..5 {
            self.shift_low();
        }
        self.out
    }
}
impl BitCoder for RangeEnc {
    fn bit(&mut self, p: &mut u16, b: u32) -> u32 {
        let bound = (self.range >> 11) * *p as u32;
        if b == 0 {
            self.range = bound;
            *p += (2048 - *p) >> 5;
        } else {
            self.low += bound as u64;
            self.range -= bound;
            *p -= *p >> 5;
        }
        while self.range < 1 << 24 {
            self.range <<= 8;
            self.shift_low();
        }
        b
    }
    fn direct(&mut self, v: u32, n: u32) -> u32 {
        for i in (0..n).rev() {
            self.range >>= 1;
            if (v >> i) & 1 == 1 {
                self.low += self.range as u64;
            }
            while self.range < 1 << 24 {
                self.range <<= 8;
                self.shift_low();
            }
        }
        v
    }
}

pub struct RangeDec<'a> {
    range: u32,
    code: u32,
    data: &'a [u8],
    pub pos: usize,
    pub eof: bool,
}
impl<'a> RangeDec<'a> {
    pub fn new(data: &'a [u8]) -> Result<Self, String> {
        if data.len() < 5 {
            return Err("range coder: too short".into());
        }
        if data[0] != 0 {
            return Err("range coder: first byte not 0".into());
        }
        Ok(RangeDec {
            range: 0xFFFF_FFFF,
            code: u32::from_be_bytes(data[1..5].try_into().unwrap()),
            data,
            pos: 5,
            eof: false,
        })
    }
    fn norm(&mut self) {
        if self.range < 1 << 24 {
            self.range <<= 8;
            let b = match self.data.get(self.pos) {
                Some(b) => *b,
                None => {
                    self.eof = true;
                    0
                }
            };
            self.pos += 1;
            self.code = (self.code << 8) | b as u32;
        }
    }
    pub fn code(&self) -> u32 {
        self.code
    }
}
impl<'a> BitCoder for RangeDec<'a> {
    fn bit(&mut self, p: &mut u16, _b: u32) -> u32 {
        self.norm();
        let bound = (self.range >> 11) * *p as u32;
        let r = if self.code < bound {
            self.range = bound;
            *p += (2048 - *p) >> 5;
            0
        } else {
            self.code -= bound;
            self.range -= bound;
            *p -= *p >> 5;
            1
        };
        r
    }
    fn direct(&mut self, _v: u32, n: u32) -> u32 {
        let mut res = 0;
        for _ in 0..n {
            self.norm();
            self.range >>= 1;
            let b = if self.code >= self.range {
                self.code -= self.range;
                1
            } else {
                0
            };
            res = (res << 1) | b;
        }
        res
    }
}

fn tree<C: BitCoder>(c: &mut C, probs: &mut [u16], nbits: u32, v: u32) -> u32 {
    let mut m = 1usize;
    for i in (0..nbits).rev() {
        let b = c.bit(&mut probs[m], (v >> i) & 1);
        m = (m << 1) | b as usize;
    }
    m as u32 - (1 << nbits)
}
fn rev_tree<C: BitCoder>(c: &mut C, probs: &mut [u16], base: isize, nbits: u32, v: u32) -> u32 {
    let mut m = 1usize;
    let mut r = 0;
    for i in 0..nbits {
        let b = c.bit(&mut probs[(base + m as isize) as usize], (v >> i) & 1);
        m = (m << 1) | b as usize;
        r |= b << i;
    }
    r
}

#[derive(Clone)]
struct LenC {
    choice: u16,
    choice2: u16,
    low: [[u16; 8]; 16],
    mid: [[u16; 8]; 16],
    high: [u16; 256],
}
impl LenC {
    fn new() -> Self {
        LenC { choice: 1024, choice2: 1024, low: [[1024; 8]; 16], mid: [[1024; 8]; 16], high: [1024; 256] }
    }
    fn code<C: BitCoder>(&mut self, c: &mut C, ps: usize, len: u32) -> u32 {
        let l = len.wrapping_sub(2);
        if c.bit(&mut self.choice, (l >= 8) as u32) == 0 {
            return 2 + tree(c, &mut self.low[ps], 3, l);
        }
        if c.bit(&mut self.choice2, (l >= 16) as u32) == 0 {
            return 10 + tree(c, &mut self.mid[ps], 3, l.wrapping_sub(8));
        }
        18 + tree(c, &mut self.high, 8, l.wrapping_sub(16))
    }
}

#[derive(Clone)]
pub struct Model {
    pub lc: u32,
    pub lp: u32,
    pub pb: u32,
    state: usize,
    pub reps: [u32; 4],
    is_match: [[u16; 16]; 12],
    is_rep: [u16; 12],
    is_rep0: [u16; 12],
    is_rep1: [u16; 12],
    is_rep2: [u16; 12],
    is_rep0long: [[u16; 16]; 12],
    lit: Vec<u16>,
    slot: [[u16; 64]; 4],
    special: [u16; 128],
    align: [u16; 16],
    len: LenC,
    rep_len: LenC,
    /// history (everything since the last dictionary reset, including a preset dictionary)
    pub hist: Vec<u8>,
}
impl Model {
    pub fn new(lc: u32, lp: u32, pb: u32) -> Model {
        let mut m = Model {
            lc,
            lp,
            pb,
            state: 0,
            reps: [0; 4],
            is_match: [[1024; 16]; 12],
            is_rep: [1024; 12],
            is_rep0: [1024; 12],
            is_rep1: [1024; 12],
            is_rep2: [1024; 12],
            is_rep0long: [[1024; 16]; 12],
            lit: vec![],
            slot: [[1024; 64]; 4],
            special: [1024; 128],
            align: [1024; 16],
            len: LenC::new(),
            rep_len: LenC::new(),
            hist: vec![],
        };
        m.reset(lc, lp, pb);
        m
    }
    /// state reset: everything but the history
    pub fn reset(&mut self, lc: u32, lp: u32, pb: u32) {
        let hist = std::mem::take(&mut self.hist);
        *self = Model {
            lc,
            lp,
            pb,
            state: 0,
            reps: [0; 4],
            is_match: [[1024; 16]; 12],
            is_rep: [1024; 12],
            is_rep0: [1024; 12],
            is_rep1: [1024; 12],
            is_rep2: [1024; 12],
            is_rep0long: [[1024; 16]; 12],
            lit: vec![1024; 0x300 << (lc + lp)],
            slot: [[1024; 64]; 4],
            special: [1024; 128],
            align: [1024; 16],
            len: LenC::new(),
            rep_len: LenC::new(),
            hist,
        };
    }
    /// Whether a symbol may come next with the given dictionary size.
    pub fn legal(&self, s: &Sym, dict: u32) -> bool {
        let avail = self.hist.len() as u64;
        let ok = |d: u32| (d as u64) < avail && d < dict;
        match s {
            Sym::Lit(_) | Sym::End => true,
            Sym::Match { dist, len } => *dist >= 1 && ok(*dist - 1) && (2..=273).contains(len),
            Sym::Rep { idx, len } => ok(self.reps[*idx as usize]) && (2..=273).contains(len),
            Sym::ShortRep => ok(self.reps[0]),
        }
    }
    fn byte(&self, dist0: u32) -> u8 {
        let n = self.hist.len();
        if (dist0 as usize) < n {
            self.hist[n - 1 - dist0 as usize]
        } else {
            0
        }
    }
    /// Codes one symbol (given when encoding, returned when decoding).
    pub fn code<C: BitCoder>(&mut self, c: &mut C, sym: Option<Sym>) -> Result<Sym, String> {
        let pos = self.hist.len();
        let ps = pos & ((1 << self.pb) - 1);
        let s = self.state;
        let enc = sym;
        let want = |b: bool| b as u32;
        let is_lit = matches!(enc, Some(Sym::Lit(_)));
        if c.bit(&mut self.is_match[s][ps], want(!is_lit)) == 0 {
            let v = if let Some(Sym::Lit(v)) = enc { v as u32 } else { 0 };
            let prev = if pos == 0 { 0 } else { self.hist[pos - 1] } as usize;
            let lsel = ((pos & ((1 << self.lp) - 1)) << self.lc) + (prev >> (8 - self.lc));
            let mb = self.byte(self.reps[0]) as u32;
            let base = 0x300 * lsel;
            let mut m = 1usize;
            if s >= 7 {
                let mut mb = mb;
                let mut matched = true;
                for i in (0..8).rev() {
                    let b = if matched {
                        let mbit = (mb >> 7) & 1;
                        mb <<= 1;
                        let b = c.bit(&mut self.lit[base + (((1 + mbit) << 8) as usize) + m], (v >> i) & 1);
                        if b != mbit {
                            matched = false;
                        }
                        b
                    } else {
                        c.bit(&mut self.lit[base + m], (v >> i) & 1)
                    };
                    m = (m << 1) | b as usize;
                }
            } else {
                for i in (0..8).rev() {
                    let b = c.bit(&mut self.lit[base + m], (v >> i) & 1);
                    m = (m << 1) | b as usize;
                }
            }
            let v = (m - 256) as u8;
            self.state = if s < 4 { 0 } else if s < 10 { s - 3 } else { s - 6 };
            self.hist.push(v);
            return Ok(Sym::Lit(v));
        }
        let is_rep = matches!(enc, Some(Sym::Rep { .. }) | Some(Sym::ShortRep));
        if c.bit(&mut self.is_rep[s], want(is_rep)) == 0 {
            let (dist, len) = match enc {
                Some(Sym::Match { dist, len }) => (dist - 1, len),
                Some(Sym::End) => (0xFFFF_FFFF, 2),
                _ => (0, 2),
            };
            let len = self.len.code(c, ps, len);
            let d = self.code_dist(c, dist, len);
            self.state = if s < 7 { 7 } else { 10 };
            if d == 0xFFFF_FFFF {
                return Ok(Sym::End);
            }
            self.reps = [d, self.reps[0], self.reps[1], self.reps[2]];
            let dist = d.wrapping_add(1);
            self.copy(len)?;
            return Ok(Sym::Match { dist, len });
        }
        let (idx, short, len) = match enc {
            Some(Sym::ShortRep) => (0, true, 1),
            Some(Sym::Rep { idx, len }) => (idx, false, len),
            _ => (0, false, 2),
        };
        let mut r = 0u8;
        if c.bit(&mut self.is_rep0[s], want(idx > 0)) == 0 {
            if c.bit(&mut self.is_rep0long[s][ps], want(!short)) == 0 {
                self.state = if s < 7 { 9 } else { 11 };
                self.copy(1)?;
                return Ok(Sym::ShortRep);
            }
        } else {
            r = 1;
            if c.bit(&mut self.is_rep1[s], want(idx > 1)) == 1 {
                r = 2;
                if c.bit(&mut self.is_rep2[s], want(idx > 2)) == 1 {
                    r = 3;
                }
            }
            let d = self.reps[r as usize];
            for k in (1..=r as usize).rev() {
                self.reps[k] = self.reps[k - 1];
            }
            self.reps[0] = d;
        }
        let len = self.rep_len.code(c, ps, len);
        self.state = if s < 7 { 8 } else { 11 };
        self.copy(len)?;
        Ok(Sym::Rep { idx: r, len })
    }
    fn copy(&mut self, len: u32) -> Result<(), String> {
        let d = self.reps[0] as usize;
        if d >= self.hist.len() {
            return Err(format!("distance {} beyond history {}", d + 1, self.hist.len()));
        }
        for _ in 0..len {
            let b = self.hist[self.hist.len() - 1 - d];
            self.hist.push(b);
        }
        Ok(())
    }
    fn code_dist<C: BitCoder>(&mut self, c: &mut C, dist: u32, len: u32) -> u32 {
        let ls = (len - 2).min(3) as usize;
        let slot_of = |d: u32| -> u32 {
            if d < 4 {
                d
            } else {
                let n = 31 - d.leading_zeros();
                2 * n + ((d >> (n - 1)) & 1)
            }
        };
        let slot = tree(c, &mut self.slot[ls], 6, slot_of(dist));
        if slot < 4 {
            return slot;
        }
        let fb = (slot >> 1) - 1;
        let base = (2 | (slot & 1)) << fb;
        let rest = dist.wrapping_sub(base);
        if slot < 14 {
            return base + rev_tree(c, &mut self.special, base as isize - slot as isize, fb, rest);
        }
        let hi = c.direct(rest >> 4, fb - 4);
        let lo = rev_tree(c, &mut self.align, 0, 4, rest & 15);
        base.wrapping_add(hi << 4).wrapping_add(lo)
    }
}

/// Interprets symbols on a history (the plain meaning, without any coding).
pub fn interpret(syms: &[Sym], hist: &mut Vec<u8>, reps: &mut [u32; 4]) {
    let copy = |hist: &mut Vec<u8>, d0: u32, len: u32| {
        for _ in 0..len {
            let b = hist[hist.len() - 1 - d0 as usize];
            hist.push(b);
        }
    };
    for s in syms {
        match *s {
            Sym::Lit(b) => hist.push(b),
            Sym::Match { dist, len } => {
                *reps = [dist - 1, reps[0], reps[1], reps[2]];
                copy(hist, dist - 1, len);
            }
            Sym::Rep { idx, len } => {
                let mut v = reps.to_vec();
                let d = v.remove(idx as usize);
                v.insert(0, d);
                reps.copy_from_slice(&v);
                copy(hist, d, len);
            }
            Sym::ShortRep => copy(hist, reps[0], 1),
            Sym::End => {}
        }
    }
}

pub fn props_byte(lc: u32, lp: u32, pb: u32) -> u8 {
    ((pb * 5 + lp) * 9 + lc) as u8
}
pub fn split_props(b: u8) -> Option<(u32, u32, u32)> {
    if b >= 225 {
        return None;
    }
    let b = b as u32;
    Some((b % 9, (b / 9) % 5, b / 45))
}

/// Decodes raw LZMA. `size` None: until the end marker. Returns (data, input used).
pub fn decode_lzma(data: &[u8], lc: u32, lp: u32, pb: u32, dict: u32, size: Option<u64>, allow_end: bool) -> Result<(Vec<u8>, usize), String> {
    let mut m = Model::new(lc, lp, pb);
    let mut rc = RangeDec::new(data)?;
    loop {
        if let Some(n) = size {
            if m.hist.len() as u64 == n {
                rc.norm();
                if allow_end && rc.code() != 0 {
                    // an end marker may follow
                    match m.code(&mut rc, None)? {
                        Sym::End => {}
                        s => return Err(format!("symbol {s:?} after the announced size")),
                    }
                }
                break;
            }
            if m.hist.len() as u64 > n {
                return Err("more data than announced".into());
            }
        }
        let before = m.hist.len();
        let s = m.code(&mut rc, None)?;
        if rc.eof {
            return Err("input ended".into());
        }
        if s == Sym::End {
            if size.is_some() {
                return Err("end marker before the announced size".into());
            }
            break;
        }
        if !matches!(s, Sym::Lit(_)) && m.reps[0] >= dict.max(4096) {
            return Err(format!("distance {} beyond dictionary {dict} at {before}", m.reps[0]));
        }
    }
    rc.norm();
    if rc.eof {
        return Err("input ended".into());
    }
    if rc.code() != 0 {
        return Err("range coder not finished cleanly".into());
    }
    Ok((m.hist, rc.pos))
}

#[derive(Clone, Debug)]
pub struct Lzma2Chunk {
    pub control: u8,
    pub usize_: usize,
    pub csize: usize,
}

/// Strict LZMA2 decoder. Returns (data, bytes used, chunks); `complete`=false accepts a missing end byte.
pub fn decode_lzma2(data: &[u8], dict: u32, preset: &[u8], complete: bool) -> Result<(Vec<u8>, usize, Vec<Lzma2Chunk>), String> {
    let mut m = Model::new(0, 0, 0);
    let preset = &preset[preset.len().saturating_sub(dict as usize)..];
    m.hist = preset.to_vec();
    let skip = m.hist.len();
    let mut out: Vec<u8> = vec![];
    let mut chunks = vec![];
    let mut p = 0;
    let mut need_dict = preset.is_empty();
    let mut need_props = true;
    let mut need_state = true;
    let mut base = skip; // start of the not yet delivered history
    let get = |p: usize, n: usize| -> Result<&[u8], String> { data.get(p..p + n).ok_or_else(|| "input ended inside a chunk".to_string()) };
    loop {
        if p == data.len() && !complete {
            break;
        }
        let c = get(p, 1)?[0];
        p += 1;
        if c == 0 {
            if !complete {
                return Err("end byte before the end".into());
            }
            break;
        }
        if c >= 0xE0 || c == 1 {
            need_dict = false;
            out.extend_from_slice(&m.hist[base..]);
            m.hist.clear();
            base = 0;
        } else if need_dict {
            return Err("first chunk without dictionary reset".into());
        }
        if c >= 0x80 {
            let h = get(p, 4)?;
            let us = (((c & 0x1f) as usize) << 16) + ((h[0] as usize) << 8) + h[1] as usize + 1;
            let cs = ((h[2] as usize) << 8) + h[3] as usize + 1;
            p += 4;
            if c >= 0xC0 {
                let (lc, lp, pb) = split_props(get(p, 1)?[0]).ok_or("bad props")?;
                if lc + lp > 4 {
                    return Err("lc+lp > 4 in LZMA2".into());
                }
                p += 1;
                m.reset(lc, lp, pb);
                need_props = false;
                need_state = false;
            } else if need_props {
                return Err("chunk without properties".into());
            } else if c >= 0xA0 {
                let (a, b, d) = (m.lc, m.lp, m.pb);
                m.reset(a, b, d);
                need_state = false;
            } else if need_state {
                return Err("chunk without state reset after a stored chunk".into());
            }
            let body = get(p, cs)?;
            p += cs;
            let mut rc = RangeDec::new(body)?;
            let start = m.hist.len();
            while m.hist.len() < start + us {
                let s = m.code(&mut rc, None)?;
                if s == Sym::End {
                    return Err("end marker in LZMA2".into());
                }
                if !matches!(s, Sym::Lit(_)) && m.reps[0] >= dict {
                    return Err(format!("distance {} beyond dictionary {dict}", m.reps[0] as u64 + 1));
                }
            }
            if m.hist.len() != start + us {
                return Err("chunk longer than announced".into());
            }
            rc.norm();
            if rc.pos != cs || rc.code() != 0 || rc.eof {
                return Err(format!("compressed chunk size mismatch: used {} of {cs}", rc.pos));
            }
            chunks.push(Lzma2Chunk { control: c, usize_: us, csize: cs });
        } else if c <= 2 {
            let h = get(p, 2)?;
            let us = ((h[0] as usize) << 8) + h[1] as usize + 1;
            p += 2;
            m.hist.extend_from_slice(get(p, us)?);
            p += us;
            need_state = true; // state must be reset before the next LZMA chunk
            chunks.push(Lzma2Chunk { control: c, usize_: us, csize: us });
        } else {
            return Err(format!("bad control byte {c:#x}"));
        }
    }
    out.extend_from_slice(&m.hist[base..]);
    Ok((out, p, chunks))
}

/// Encodes one LZMA stream (without header) from symbols.
pub fn encode_lzma(m: &mut Model, syms: &[Sym]) -> Vec<u8> {
    let mut rc = RangeEnc::default();
    for s in syms {
        m.code(&mut rc, Some(*s)).expect("legal symbol");
    }
    rc.finish()
}

/// Greedy parser: turns data into symbols (used to get realistic streams from the reference side).
pub fn greedy(data: &[u8], start: usize, dict: usize) -> Vec<Sym> {
    let mut syms = vec![];
    let mut i = start;
    let mut reps = [0usize; 4];
    while i < data.len() {
        let maxl = (data.len() - i).min(273);
        let mut best = (0usize, 0usize);
        let lim = i.min(dict).min(600);
        for d in 1..=lim {
            let mut l = 0;
            while l < maxl && data[i + l] == data[i + l - d] {
                l += 1;
            }
            if l > best.0 {
                best = (l, d);
            }
        }
        if best.0 >= 3 || (best.0 == 2 && best.1 <= 128) {
            let d0 = best.1 - 1;
            if let Some(ix) = reps.iter().position(|r| *r == d0) {
                syms.push(Sym::Rep { idx: ix as u8, len: best.0 as u32 });
                let d = reps[ix];
                reps.copy_within(0..ix, 1);
                reps[0] = d;
            } else {
                syms.push(Sym::Match { dist: best.1 as u32, len: best.0 as u32 });
                reps = [d0, reps[0], reps[1], reps[2]];
            }
            i += best.0;
        } else if i > 0 && reps[0] < i && data[i] == data[i - 1 - reps[0]] {
            syms.push(Sym::ShortRep);
            i += 1;
        } else {
            syms.push(Sym::Lit(data[i]));
            i += 1;
        }
    }
    syms
}

pub fn lzma_encode_simple(data: &[u8], lc: u32, lp: u32, pb: u32, end: bool) -> Vec<u8> {
    let mut m = Model::new(lc, lp, pb);
    let mut syms = greedy(data, 0, usize::MAX >> 1);
    if end {
        syms.push(Sym::End);
    }
    encode_lzma(&mut m, &syms)
}
/// LZMA2 stream: compressed chunks of at most `chunk` bytes
pub fn lzma2_encode_simple(data: &[u8], chunk: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut m = Model::new(3, 0, 2);
    let mut i = 0;
    while i < data.len() {
        let e = (i + chunk).min(data.len());
        // parse relative to everything before
        let syms = greedy(&data[..e], i, 4096);
        let first = i == 0;
        let body = {
            // every chunk resets the state so that greedy's own reps are right
            m.reset(3, 0, 2);
            encode_lzma(&mut m, &syms)
        };
        lzma2_chunk(&mut out, if first { 0xE0 } else { 0xA0 }, e - i, &body, Some(props_byte(3, 0, 2)));
        i = e;
    }
    out.push(0);
    out
}
pub fn lzma2_chunk(out: &mut Vec<u8>, ctl: u8, us: usize, body: &[u8], props: Option<u8>) {
    let u = us - 1;
    let c = body.len() - 1;
    assert!(u < 1 << 21 && c < 1 << 16);
    out.push(ctl | (u >> 16) as u8);
    out.extend_from_slice(&[(u >> 8) as u8, u as u8, (c >> 8) as u8, c as u8]);
    if ctl >= 0xC0 {
        out.push(props.unwrap());
    }
    out.extend_from_slice(body);
}
pub fn lzma2_stored(out: &mut Vec<u8>, reset: bool, data: &[u8]) {
    let u = data.len() - 1;
    out.push(if reset { 1 } else { 2 });
    out.extend_from_slice(&[(u >> 8) as u8, u as u8]);
    out.extend_from_slice(data);
}
