//! Environments the explorer controls: sinks and sources with scripted behaviour.
use crate::explore::Ch;
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

/// One write as it reached the medium.
#[derive(Clone, Debug)]
pub struct WriteRec {
    pub pos: u64,
    pub data: Vec<u8>,
}
#[derive(Default)]
pub struct SinkState {
    pub data: Vec<u8>,
    pub pos: u64,
    pub log: Option<Vec<WriteRec>>,
    pub writes: u64,
    /// fail the n-th write call (0-based) and, if sticky, all later ones
    pub fail_at: Option<u64>,
    pub fail_seek_at: Option<u64>,
    pub seeks: u64,
    /// bytes accepted by the failing write before it fails (the call itself reports a short write first)
    pub fail_partial: usize,
    pub failures: u32,
    pub max_failures: u32,
    /// the failing write accepts nothing instead of reporting an error
    pub fail_zero: bool,
    /// fail one more write, this one
    pub fail_again: Option<u64>,
    pub max_write: usize,
    pub ch: Option<Ch>,
    pub choose_cuts: Vec<usize>,
    pub intr: bool,
}
#[derive(Clone, Default)]
pub struct Sink(pub Rc<RefCell<SinkState>>);
impl Sink {
    pub fn new() -> Sink {
        let s = Sink::default();
        {
            let mut b = s.0.borrow_mut();
            b.max_write = usize::MAX;
            b.max_failures = 1;
        }
        s
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0.borrow().data.clone()
    }
    pub fn take(&self) -> Vec<u8> {
        std::mem::take(&mut self.0.borrow_mut().data)
    }
}
impl SinkState {
    fn put(&mut self, b: &[u8]) {
        let p = self.pos as usize;
        if self.data.len() < p {
            self.data.resize(p, 0);
        }
        let over = (self.data.len() - p).min(b.len());
        self.data[p..p + over].copy_from_slice(&b[..over]);
        self.data.extend_from_slice(&b[over..]);
        if let Some(l) = self.log.as_mut() {
            l.push(WriteRec { pos: self.pos, data: b.to_vec() });
        }
        self.pos += b.len() as u64;
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut s = self.0.borrow_mut();
        if buf.is_empty() {
            return Ok(0);
        }
        let n = s.writes;
        s.writes += 1;
        if let Some(f) = s.fail_at {
            if n >= f && s.failures < s.max_failures {
                if s.fail_partial > 0 && n == f {
                    let k = s.fail_partial.min(buf.len() - 1);
                    if k > 0 {
                        // a short write now, the error on the call for the rest
                        s.put(&buf[..k]);
                        s.fail_at = Some(f + 1);
                        s.fail_partial = 0;
                        return Ok(k);
                    }
                }
                s.failures += 1;
                if s.fail_zero {
                    return Ok(0);
                }
                return Err(Error::new(ErrorKind::Other, "injected write failure"));
            }
        }
        if s.fail_again == Some(n) {
            s.failures += 1;
            return Err(Error::new(ErrorKind::Other, "injected write failure"));
        }
        let mut k = buf.len().min(s.max_write);
        if let Some(ch) = s.ch.clone() {
            let cuts: Vec<usize> = s.choose_cuts.iter().copied().filter(|c| *c < k).collect();
            let extra = if s.intr { 1 } else { 0 };
            let c = ch.deviate(1 + cuts.len() + extra);
            if c > 0 && c <= cuts.len() {
                k = cuts[c - 1];
            } else if c > cuts.len() {
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        s.put(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let mut s = self.0.borrow_mut();
        if !matches!(p, SeekFrom::Current(0)) {
            let n = s.seeks;
            s.seeks += 1;
            if s.fail_seek_at == Some(n) {
                s.failures += 1;
                return Err(Error::new(ErrorKind::Other, "injected seek failure"));
            }
        }
        let np = match p {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::Current(d) => s.pos as i64 + d,
            SeekFrom::End(d) => s.data.len() as i64 + d,
        };
        if np < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "negative seek"));
        }
        s.pos = np as u64;
        Ok(s.pos)
    }
}

/// Source over bytes. Default: full reads.
pub struct Src<'a> {
    pub d: &'a [u8],
    pub pos: u64,
    /// at most this many bytes per read
    pub max: usize,
    /// explorer-driven short reads: candidate lengths (smaller than requested), Interrupted if `intr`
    pub ch: Option<Ch>,
    pub cuts: Vec<usize>,
    pub intr: bool,
    /// only reads starting within this range are choice points
    pub window: (u64, u64),
    /// Interrupted on every read whose running number is in the set
    pub intr_every: bool,
    pub flip: bool,
    pub reads: u64,
    pub fail_at: Option<u64>,
}
impl<'a> Src<'a> {
    pub fn new(d: &'a [u8]) -> Src<'a> {
        Src { d, pos: 0, max: usize::MAX, ch: None, cuts: vec![], intr: false, window: (0, u64::MAX), intr_every: false, flip: false, reads: 0, fail_at: None }
    }
    pub fn max(d: &'a [u8], max: usize) -> Src<'a> {
        Src { max, ..Src::new(d) }
    }
}
impl<'a> Read for Src<'a> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.reads;
        self.reads += 1;
        if self.fail_at == Some(n) {
            return Err(Error::new(ErrorKind::Other, "injected read failure"));
        }
        if self.intr_every {
            self.flip = !self.flip;
            if self.flip {
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        let p = (self.pos.min(self.d.len() as u64)) as usize;
        let avail = self.d.len() - p;
        let mut k = buf.len().min(avail).min(self.max);
        if k > 0 && self.pos >= self.window.0 && self.pos < self.window.1 {
            if let Some(ch) = self.ch.clone() {
                let cuts: Vec<usize> = self.cuts.iter().copied().filter(|c| *c < k).collect();
                let c = ch.deviate(1 + cuts.len() + self.intr as usize);
                if c > 0 && c <= cuts.len() {
                    k = cuts[c - 1];
                } else if c > cuts.len() {
                    return Err(Error::from(ErrorKind::Interrupted));
                }
            }
        }
        buf[..k].copy_from_slice(&self.d[p..p + k]);
        self.pos += k as u64;
        Ok(k)
    }
}
impl<'a> Seek for Src<'a> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let np = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.d.len() as i128 + d as i128,
        };
        if np < 0 || np > i64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "invalid seek"));
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}
/// Reads everything, `portion` bytes per call; retries Interrupted as the Read contract asks.
pub fn read_portions(r: &mut dyn Read, portion: usize, limit: usize) -> Result<Vec<u8>> {
    let mut out = vec![];
    let mut buf = vec![0u8; portion];
    let mut intr = 0u64;
    loop {
        match r.read(&mut buf) {
            Ok(0) => return Ok(out),
            Ok(n) => {
                out.extend_from_slice(&buf[..n]);
                intr = 0;
            }
            Err(e) if e.kind() == ErrorKind::Interrupted => {
                intr += 1;
                if intr > 100_000 {
                    return Err(Error::new(ErrorKind::Other, "MC: Interrupted is reported forever"));
                }
            }
            Err(e) => return Err(e),
        }
        if out.len() > limit {
            return Err(Error::new(ErrorKind::Other, "MC: more data than announced"));
        }
    }
}
