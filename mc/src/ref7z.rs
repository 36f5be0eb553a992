//! The 7z container: explicit layout AST, serializer (with every optional part) and strict parser.
//! Written from 7zFormat.txt, independent of the code under test.
use crate::{refaes, reffilt, reflzma};

pub fn crc32(data: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[[u32; 256]; 8]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [[0u32; 256]; 8];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 };
            }
            t[0][i as usize] = c;
        }
        for k in 1..8 {
            for i in 0..256 {
                t[k][i] = (t[k - 1][i] >> 8) ^ t[0][(t[k - 1][i] & 255) as usize];
            }
        }
        t
    });
    let mut c = !0u32;
    let mut it = data.chunks_exact(8);
    for b in &mut it {
        let lo = u32::from_le_bytes(b[..4].try_into().unwrap()) ^ c;
        let hi = u32::from_le_bytes(b[4..].try_into().unwrap());
        c = t[7][(lo & 255) as usize]
            ^ t[6][(lo >> 8 & 255) as usize]
            ^ t[5][(lo >> 16 & 255) as usize]
            ^ t[4][(lo >> 24) as usize]
            ^ t[3][(hi & 255) as usize]
            ^ t[2][(hi >> 8 & 255) as usize]
            ^ t[1][(hi >> 16 & 255) as usize]
            ^ t[0][(hi >> 24) as usize];
    }
    for b in it.remainder() {
        c = (c >> 8) ^ t[0][((c ^ *b as u32) & 255) as usize];
    }
    !c
}
/// Sets four bytes at `at` so that the CRC-32 of all is `want`.
pub fn crc_patch_at(data: &mut [u8], at: usize, want: u32) {
    // back over the bytes behind
    let mut t = [0u32; 256];
    for i in 0..256u32 {
        let mut c = i;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 };
        }
        t[i as usize] = c;
    }
    let mut c = !want;
    for b in data[at + 4..].iter().rev() {
        let i = (0..256u32).find(|i| t[*i as usize] >> 24 == c >> 24).unwrap();
        c = (c ^ t[i as usize]) << 8 | (i ^ *b as u32);
    }
    let p = crc_patch(&data[..at], !c);
    data[at..at + 4].copy_from_slice(&p);
    assert_eq!(crc32(data), want);
}
/// Four bytes which, appended to `data`, make its CRC-32 equal to `want`.
pub fn crc_patch(data: &[u8], want: u32) -> [u8; 4] {
    let mut t = [0u32; 256];
    for i in 0..256u32 {
        let mut c = i;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 };
        }
        t[i as usize] = c;
    }
    let mut idx = [0u8; 4];
    let mut c = !want;
    for i in (0..4).rev() {
        let k = (0..256).find(|k| t[*k] >> 24 == c >> 24).unwrap();
        idx[i] = k as u8;
        c = (c ^ t[k]) << 8;
    }
    let mut cur = !crc32(data);
    let mut out = [0u8; 4];
    for i in 0..4 {
        out[i] = (cur as u8) ^ idx[i];
        cur = (cur >> 8) ^ t[((cur ^ out[i] as u32) & 255) as usize];
    }
    out
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Coder {
    pub id: Vec<u8>,
    pub props: Option<Vec<u8>>,
    pub nin: u64,
    pub nout: u64,
    pub complex: bool,
}
impl Coder {
    pub fn simple(id: &[u8], props: Option<Vec<u8>>) -> Coder {
        Coder { id: id.to_vec(), props, nin: 1, nout: 1, complex: false }
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Folder {
    pub coders: Vec<Coder>,
    pub bind: Vec<(u64, u64)>, // (in, out)
    pub packed: Vec<u64>,
    pub sizes: Vec<u64>,
}
impl Folder {
    pub fn n_in(&self) -> u64 {
        self.coders.iter().map(|c| c.nin).sum()
    }
    pub fn n_out(&self) -> u64 {
        self.coders.iter().map(|c| c.nout).sum()
    }
    pub fn main_out(&self) -> Option<usize> {
        (0..self.n_out()).find(|o| !self.bind.iter().any(|b| b.1 == *o)).map(|x| x as usize)
    }
    pub fn unpack_size(&self) -> u64 {
        self.sizes[self.main_out().unwrap()]
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Pack {
    pub pos: u64,
    pub n: u64,
    pub sizes: Option<Vec<u64>>,
    pub crcs: Option<Vec<Option<u32>>>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Unpack {
    pub folders: Vec<Folder>,
    pub crcs: Option<Vec<Option<u32>>>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sub {
    pub nums: Option<Vec<u64>>,
    pub sizes: Option<Vec<u64>>, // flattened, without each folder's last
    pub crcs: Option<Vec<Option<u32>>>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Streams {
    pub pack: Option<Pack>,
    pub unpack: Option<Unpack>,
    pub sub: Option<Sub>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Prop {
    EmptyStream(Vec<bool>),
    EmptyFile(Vec<bool>),
    Anti(Vec<bool>),
    Names(Vec<Vec<u16>>),
    Time(u8, Vec<Option<u64>>), // 0x12 ctime 0x13 atime 0x14 mtime
    Attr(Vec<Option<u32>>),
    StartPos(Vec<Option<u64>>),
    Raw(u64, Vec<u8>), // dummy (0x19), unknown
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Files {
    pub n: u64,
    pub props: Vec<Prop>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Header {
    pub props: Option<Vec<(u64, Vec<u8>)>>,
    pub streams: Option<Streams>,
    pub files: Option<Files>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Id,
    Num,
    Byte,
    Bits,
    U32,
    U64,
    Raw,
}
/// A field of the serialized header.
#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub off: usize,
    pub len: usize,
    pub kind: Kind,
    pub val: u64,
}
#[derive(Default, Clone)]
pub struct Ser {
    pub out: Vec<u8>,
    pub fields: Vec<Field>,
    /// extra bytes added to every variable-length number
    pub extra: u8,
    /// write bit vectors explicitly even when all bits are set
    pub force_bits: bool,
}
pub fn num(v: u64, extra: u8) -> Vec<u8> {
    let mut k = 0u32;
    while k < 8 && v >= 1u64 << (7 * (k + 1)) {
        k += 1;
    }
    let k = (k + extra as u32).min(8);
    let mut out = vec![];
    if k == 8 {
        out.push(0xFF);
    } else {
        let ones = if k == 0 { 0 } else { (0xFFu32 << (8 - k)) as u8 };
        out.push(ones | (v >> (8 * k)) as u8);
    }
    for i in 0..k {
        out.push((v >> (8 * i)) as u8);
    }
    out
}
impl Ser {
    fn f(&mut self, kind: Kind, val: u64, bytes: &[u8]) {
        self.fields.push(Field { off: self.out.len(), len: bytes.len(), kind, val });
        self.out.extend_from_slice(bytes);
    }
    fn id(&mut self, b: u8) {
        self.f(Kind::Id, b as u64, &[b]);
    }
    fn byte(&mut self, b: u8) {
        self.f(Kind::Byte, b as u64, &[b]);
    }
    fn num(&mut self, v: u64) {
        let b = num(v, self.extra);
        self.f(Kind::Num, v, &b);
    }
    fn u32(&mut self, v: u32) {
        self.f(Kind::U32, v as u64, &v.to_le_bytes());
    }
    fn u64(&mut self, v: u64) {
        self.f(Kind::U64, v, &v.to_le_bytes());
    }
    fn raw(&mut self, b: &[u8]) {
        self.f(Kind::Raw, 0, b);
    }
    fn bits(&mut self, v: &[bool]) {
        let mut b = vec![0u8; (v.len() + 7) / 8];
        for (i, x) in v.iter().enumerate() {
            if *x {
                b[i / 8] |= 0x80 >> (i % 8);
            }
        }
        self.f(Kind::Bits, v.len() as u64, &b);
    }
    fn all_or_bits(&mut self, v: &[bool]) {
        if v.iter().all(|x| *x) && !self.force_bits {
            self.byte(1);
        } else {
            self.byte(0);
            self.bits(v);
        }
    }
    fn digests(&mut self, v: &[Option<u32>]) {
        let d: Vec<bool> = v.iter().map(|x| x.is_some()).collect();
        self.all_or_bits(&d);
        for x in v.iter().flatten() {
            self.u32(*x);
        }
    }
    pub fn streams(&mut self, s: &Streams) {
        if let Some(p) = &s.pack {
            self.id(6);
            self.num(p.pos);
            self.num(p.n);
            if let Some(z) = &p.sizes {
                self.id(9);
                for x in z {
                    self.num(*x);
                }
            }
            if let Some(c) = &p.crcs {
                self.id(10);
                self.digests(c);
            }
            self.id(0);
        }
        if let Some(u) = &s.unpack {
            self.id(7);
            self.id(11);
            self.num(u.folders.len() as u64);
            self.byte(0);
            for f in &u.folders {
                self.num(f.coders.len() as u64);
                for c in &f.coders {
                    let cx = c.complex || c.nin != 1 || c.nout != 1;
                    self.byte(c.id.len() as u8 | if cx { 0x10 } else { 0 } | if c.props.is_some() { 0x20 } else { 0 });
                    self.raw(&c.id);
                    if cx {
                        self.num(c.nin);
                        self.num(c.nout);
                    }
                    if let Some(p) = &c.props {
                        self.num(p.len() as u64);
                        self.raw(p);
                    }
                }
                for b in &f.bind {
                    self.num(b.0);
                    self.num(b.1);
                }
                if f.packed.len() > 1 {
                    for p in &f.packed {
                        self.num(*p);
                    }
                }
            }
            self.id(12);
            for f in &u.folders {
                for z in &f.sizes {
                    self.num(*z);
                }
            }
            if let Some(c) = &u.crcs {
                self.id(10);
                self.digests(c);
            }
            self.id(0);
        }
        if let Some(b) = &s.sub {
            self.id(8);
            if let Some(n) = &b.nums {
                self.id(13);
                for x in n {
                    self.num(*x);
                }
            }
            if let Some(z) = &b.sizes {
                self.id(9);
                for x in z {
                    self.num(*x);
                }
            }
            if let Some(c) = &b.crcs {
                self.id(10);
                self.digests(c);
            }
            self.id(0);
        }
        self.id(0);
    }
    fn prop(&mut self, id: u64, extra: bool, body: Ser) {
        let _ = extra;
        let b = num(id, 0);
        self.f(Kind::Id, id, &b);
        self.num(body.out.len() as u64);
        let base = self.out.len();
        for f in body.fields {
            self.fields.push(Field { off: f.off + base, ..f });
        }
        self.out.extend_from_slice(&body.out);
    }
    pub fn header(&mut self, h: &Header) {
        self.id(1);
        if let Some(p) = &h.props {
            self.id(2);
            for (id, d) in p {
                let b = num(*id, 0);
                self.f(Kind::Id, *id, &b);
                self.num(d.len() as u64);
                self.raw(d);
            }
            self.id(0);
        }
        if let Some(s) = &h.streams {
            self.id(4);
            self.streams(s);
        }
        if let Some(fi) = &h.files {
            self.id(5);
            self.num(fi.n);
            for p in &fi.props {
                let mut b = Ser { extra: self.extra, force_bits: self.force_bits, ..Default::default() };
                let id = match p {
                    Prop::EmptyStream(v) => {
                        b.bits(v);
                        14
                    }
                    Prop::EmptyFile(v) => {
                        b.bits(v);
                        15
                    }
                    Prop::Anti(v) => {
                        b.bits(v);
                        16
                    }
                    Prop::Names(v) => {
                        b.byte(0);
                        let mut t = vec![];
                        for n in v {
                            for u in n {
                                t.extend_from_slice(&u.to_le_bytes());
                            }
                            t.extend_from_slice(&[0, 0]);
                        }
                        b.raw(&t);
                        17
                    }
                    Prop::Time(id, v) => {
                        b.all_or_bits(&v.iter().map(|x| x.is_some()).collect::<Vec<_>>());
                        b.byte(0);
                        for x in v.iter().flatten() {
                            b.u64(*x);
                        }
                        *id as u64
                    }
                    Prop::Attr(v) => {
                        b.all_or_bits(&v.iter().map(|x| x.is_some()).collect::<Vec<_>>());
                        b.byte(0);
                        for x in v.iter().flatten() {
                            b.u32(*x);
                        }
                        21
                    }
                    Prop::StartPos(v) => {
                        b.all_or_bits(&v.iter().map(|x| x.is_some()).collect::<Vec<_>>());
                        b.byte(0);
                        for x in v.iter().flatten() {
                            b.u64(*x);
                        }
                        24
                    }
                    Prop::Raw(id, d) => {
                        b.raw(d);
                        *id
                    }
                };
                self.prop(id, false, b);
            }
            self.id(0);
        }
        self.id(0);
    }
}
pub fn ser_header(h: &Header, extra: u8, force_bits: bool) -> Ser {
    let mut s = Ser { extra, force_bits, ..Default::default() };
    s.header(h);
    s
}
pub fn ser_encoded(st: &Streams, extra: u8, force_bits: bool) -> Ser {
    let mut s = Ser { extra, force_bits, ..Default::default() };
    s.id(23);
    s.streams(st);
    s
}
/// Whole file: 32-byte start header, packed area, header.
pub fn file(area: &[u8], header: &[u8]) -> Vec<u8> {
    let mut v = start_header(area.len() as u64, header.len() as u64, crc32(header));
    v.extend_from_slice(area);
    v.extend_from_slice(header);
    v
}
pub fn start_header(off: u64, size: u64, crc: u32) -> Vec<u8> {
    let mut v = b"7z\xBC\xAF\x27\x1C\x00\x04".to_vec();
    let mut sh = vec![];
    sh.extend_from_slice(&off.to_le_bytes());
    sh.extend_from_slice(&size.to_le_bytes());
    sh.extend_from_slice(&crc.to_le_bytes());
    v.extend_from_slice(&crc32(&sh).to_le_bytes());
    v.extend_from_slice(&sh);
    v
}

// ------------------------------------------------------------------ strict parser
pub struct P<'a> {
    pub d: &'a [u8],
    pub p: usize,
    /// insist on the shortest form of numbers
    pub minimal: bool,
}
type PR<T> = Result<T, String>;
impl<'a> P<'a> {
    pub fn new(d: &'a [u8]) -> P<'a> {
        P { d, p: 0, minimal: true }
    }
    fn byte(&mut self) -> PR<u8> {
        let b = *self.d.get(self.p).ok_or("header ends early")?;
        self.p += 1;
        Ok(b)
    }
    fn take(&mut self, n: usize) -> PR<&'a [u8]> {
        let s = self.d.get(self.p..self.p.checked_add(n).ok_or("overflow")?).ok_or("header ends early")?;
        self.p += n;
        Ok(s)
    }
    fn num(&mut self) -> PR<u64> {
        let f = self.byte()?;
        let k = f.leading_ones();
        let b = self.take(k as usize)?;
        let mut v = 0u64;
        for (i, x) in b.iter().enumerate() {
            v |= (*x as u64) << (8 * i);
        }
        if k < 8 {
            let mask = (1u32 << (7 - k)) - 1;
            v |= ((f as u32 & mask) as u64) << (8 * k);
        }
        if self.minimal && num(v, 0).len() != 1 + k as usize {
            return Err(format!("number {v} not in shortest form"));
        }
        Ok(v)
    }
    fn u32(&mut self) -> PR<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> PR<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn bits(&mut self, n: usize) -> PR<Vec<bool>> {
        let b = self.take((n + 7) / 8)?;
        let v: Vec<bool> = (0..n).map(|i| b[i / 8] & (0x80 >> (i % 8)) != 0).collect();
        for i in n..b.len() * 8 {
            if b[i / 8] & (0x80 >> (i % 8)) != 0 {
                return Err("padding bits set".into());
            }
        }
        Ok(v)
    }
    fn all_or_bits(&mut self, n: usize) -> PR<Vec<bool>> {
        match self.byte()? {
            0 => self.bits(n),
            1 => Ok(vec![true; n]),
            x => Err(format!("AllAreDefined = {x}")),
        }
    }
    fn digests(&mut self, n: usize) -> PR<Vec<Option<u32>>> {
        let d = self.all_or_bits(n)?;
        d.iter().map(|x| if *x { Ok(Some(self.u32()?)) } else { Ok(None) }).collect()
    }
    pub fn streams(&mut self) -> PR<Streams> {
        let mut s = Streams::default();
        let mut id = self.byte()?;
        if id == 6 {
            let mut p = Pack { pos: self.num()?, n: self.num()?, ..Default::default() };
            if p.n as usize > self.d.len() {
                return Err("too many pack streams".into());
            }
            let mut i = self.byte()?;
            if i == 9 {
                p.sizes = Some((0..p.n).map(|_| self.num()).collect::<PR<_>>()?);
                i = self.byte()?;
            }
            if i == 10 {
                p.crcs = Some(self.digests(p.n as usize)?);
                i = self.byte()?;
            }
            if i != 0 {
                return Err(format!("PackInfo: unexpected id {i}"));
            }
            s.pack = Some(p);
            id = self.byte()?;
        }
        if id == 7 {
            if self.byte()? != 11 {
                return Err("UnpackInfo without Folder".into());
            }
            let n = self.num()? as usize;
            if n > self.d.len() {
                return Err("too many folders".into());
            }
            if self.byte()? != 0 {
                return Err("external folders".into());
            }
            let mut u = Unpack::default();
            for _ in 0..n {
                u.folders.push(self.folder()?);
            }
            if self.byte()? != 12 {
                return Err("no CodersUnpackSize".into());
            }
            for f in u.folders.iter_mut() {
                for _ in 0..f.n_out() {
                    f.sizes.push(self.num()?);
                }
            }
            let mut i = self.byte()?;
            if i == 10 {
                u.crcs = Some(self.digests(n)?);
                i = self.byte()?;
            }
            if i != 0 {
                return Err(format!("UnpackInfo: unexpected id {i}"));
            }
            s.unpack = Some(u);
            id = self.byte()?;
        }
        if id == 8 {
            let folders = s.unpack.as_ref().map(|u| u.folders.clone()).unwrap_or_default();
            let fcrcs = s.unpack.as_ref().and_then(|u| u.crcs.clone());
            let mut b = Sub::default();
            let mut i = self.byte()?;
            let mut nums = vec![1u64; folders.len()];
            if i == 13 {
                for x in nums.iter_mut() {
                    *x = self.num()?;
                    if *x as usize > self.d.len() {
                        return Err("too many substreams".into());
                    }
                }
                b.nums = Some(nums.clone());
                i = self.byte()?;
            }
            if i == 9 {
                let n: u64 = nums.iter().map(|x| x.saturating_sub(1)).sum();
                b.sizes = Some((0..n).map(|_| self.num()).collect::<PR<_>>()?);
                i = self.byte()?;
            } else if nums.iter().any(|x| *x > 1) {
                return Err("substream sizes missing".into());
            }
            if i == 10 {
                let mut n = 0;
                for (k, x) in nums.iter().enumerate() {
                    let known = fcrcs.as_ref().map(|c| c[k].is_some()).unwrap_or(false);
                    if *x != 1 || !known {
                        n += *x as usize;
                    }
                }
                b.crcs = Some(self.digests(n)?);
                i = self.byte()?;
            }
            if i != 0 {
                return Err(format!("SubStreamsInfo: unexpected id {i}"));
            }
            s.sub = Some(b);
            id = self.byte()?;
        }
        if id != 0 {
            return Err(format!("StreamsInfo: unexpected id {id}"));
        }
        Ok(s)
    }
    fn folder(&mut self) -> PR<Folder> {
        let mut f = Folder::default();
        let n = self.num()?;
        if n == 0 || n > 32 {
            return Err(format!("{n} coders"));
        }
        for _ in 0..n {
            let b = self.byte()?;
            if b & 0xC0 != 0 {
                return Err("reserved coder bits".into());
            }
            let mut c = Coder { id: self.take((b & 15) as usize)?.to_vec(), nin: 1, nout: 1, complex: b & 0x10 != 0, ..Default::default() };
            if c.complex {
                c.nin = self.num()?;
                c.nout = self.num()?;
                if c.nin > 32 || c.nout != 1 {
                    return Err("coder stream counts".into());
                }
            }
            if b & 0x20 != 0 {
                let n = self.num()? as usize;
                c.props = Some(self.take(n)?.to_vec());
            }
            f.coders.push(c);
        }
        let (ni, no) = (f.n_in(), f.n_out());
        for _ in 0..no - 1 {
            let b = (self.num()?, self.num()?);
            if b.0 >= ni || b.1 >= no || f.bind.iter().any(|x| x.0 == b.0 || x.1 == b.1) {
                return Err("bad bind pair".into());
            }
            f.bind.push(b);
        }
        if ni < no - 1 {
            return Err("too few in streams".into());
        }
        let np = ni - (no - 1);
        if np == 1 {
            f.packed = vec![(0..ni).find(|i| !f.bind.iter().any(|b| b.0 == *i)).ok_or("no packed stream")?];
        } else {
            for _ in 0..np {
                let x = self.num()?;
                if x >= ni || f.packed.contains(&x) || f.bind.iter().any(|b| b.0 == x) {
                    return Err("bad packed stream".into());
                }
                f.packed.push(x);
            }
        }
        Ok(f)
    }
    pub fn header(&mut self) -> PR<Header> {
        let mut h = Header::default();
        if self.byte()? != 1 {
            return Err("not a Header".into());
        }
        let mut id = self.byte()?;
        if id == 2 {
            let mut v = vec![];
            loop {
                let i = self.num()?;
                if i == 0 {
                    break;
                }
                let n = self.num()? as usize;
                v.push((i, self.take(n)?.to_vec()));
            }
            h.props = Some(v);
            id = self.byte()?;
        }
        if id == 4 {
            h.streams = Some(self.streams()?);
            id = self.byte()?;
        }
        if id == 5 {
            let n = self.num()? as usize;
            if n > self.d.len() * 8 + 64 {
                return Err("too many files".into());
            }
            let mut fi = Files { n: n as u64, props: vec![] };
            let mut empty: Option<usize> = None;
            let mut seen = vec![];
            loop {
                let t = self.num()?;
                if t == 0 {
                    break;
                }
                if t != 25 && seen.contains(&t) {
                    return Err(format!("property {t} twice"));
                }
                seen.push(t);
                let sz = self.num()? as usize;
                let body = self.take(sz)?;
                let mut q = P { d: body, p: 0, minimal: self.minimal };
                let pr = match t {
                    14 => {
                        let b = q.bits(n)?;
                        empty = Some(b.iter().filter(|x| **x).count());
                        Prop::EmptyStream(b)
                    }
                    15 => Prop::EmptyFile(q.bits(empty.ok_or("EmptyFile before EmptyStream")?)?),
                    16 => Prop::Anti(q.bits(empty.ok_or("Anti before EmptyStream")?)?),
                    17 => {
                        if q.byte()? != 0 {
                            return Err("external names".into());
                        }
                        let mut v = vec![];
                        for _ in 0..n {
                            let mut s = vec![];
                            loop {
                                let b = q.take(2)?;
                                let u = u16::from_le_bytes([b[0], b[1]]);
                                if u == 0 {
                                    break;
                                }
                                s.push(u);
                            }
                            v.push(s);
                        }
                        Prop::Names(v)
                    }
                    18 | 19 | 20 | 24 => {
                        let d = q.all_or_bits(n)?;
                        if q.byte()? != 0 {
                            return Err("external times".into());
                        }
                        let v = d.iter().map(|x| if *x { Ok(Some(q.u64()?)) } else { Ok(None) }).collect::<PR<Vec<_>>>()?;
                        if t == 24 {
                            Prop::StartPos(v)
                        } else {
                            Prop::Time(t as u8, v)
                        }
                    }
                    21 => {
                        let d = q.all_or_bits(n)?;
                        if q.byte()? != 0 {
                            return Err("external attributes".into());
                        }
                        Prop::Attr(d.iter().map(|x| if *x { Ok(Some(q.u32()?)) } else { Ok(None) }).collect::<PR<Vec<_>>>()?)
                    }
                    25 => {
                        if body.iter().any(|b| *b != 0) {
                            return Err("Dummy not zero".into());
                        }
                        q.p = body.len();
                        Prop::Raw(25, body.to_vec())
                    }
                    x => return Err(format!("unknown file property {x}")),
                };
                if q.p != body.len() {
                    return Err(format!("property {t}: {} of {} bytes used", q.p, body.len()));
                }
                fi.props.push(pr);
            }
            h.files = Some(fi);
            id = self.byte()?;
        }
        if id != 0 {
            return Err(format!("Header: unexpected id {id}"));
        }
        Ok(h)
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct FileInfo {
    pub name: Vec<u16>,
    pub has_stream: bool,
    pub dir: bool,
    pub anti: bool,
    pub size: u64,
    pub crc: Option<u32>,
    pub ctime: Option<u64>,
    pub atime: Option<u64>,
    pub mtime: Option<u64>,
    pub attr: Option<u32>,
    pub folder: Option<usize>,
}
/// Meaning of a header: the listing.
pub fn listing(h: &Header) -> PR<Vec<FileInfo>> {
    let fi = h.files.clone().unwrap_or_default();
    let n = fi.n as usize;
    let mut v = vec![FileInfo { has_stream: true, ..Default::default() }; n];
    let mut ef = vec![];
    let mut an = vec![];
    for p in &fi.props {
        match p {
            Prop::EmptyStream(b) => {
                for i in 0..n {
                    v[i].has_stream = !b[i];
                }
            }
            Prop::EmptyFile(b) => ef = b.clone(),
            Prop::Anti(b) => an = b.clone(),
            Prop::Names(s) => {
                for i in 0..n {
                    v[i].name = s[i].clone();
                }
            }
            Prop::Time(18, t) => (0..n).for_each(|i| v[i].ctime = t[i]),
            Prop::Time(19, t) => (0..n).for_each(|i| v[i].atime = t[i]),
            Prop::Time(_, t) => (0..n).for_each(|i| v[i].mtime = t[i]),
            Prop::Attr(t) => (0..n).for_each(|i| v[i].attr = t[i]),
            _ => {}
        }
    }
    let mut e = 0;
    for f in v.iter_mut() {
        if !f.has_stream {
            f.dir = !ef.get(e).copied().unwrap_or(false);
            f.anti = an.get(e).copied().unwrap_or(false);
            e += 1;
        }
    }
    // substreams
    let st = h.streams.clone().unwrap_or_default();
    let un = st.unpack.clone().unwrap_or_default();
    let sub = st.sub.clone().unwrap_or_default();
    let mut subs: Vec<(usize, u64, Option<u32>)> = vec![];
    let mut zi = 0;
    let mut ci = 0;
    for (k, f) in un.folders.iter().enumerate() {
        let cnt = sub.nums.as_ref().map(|n| n[k]).unwrap_or(1);
        let fcrc = un.crcs.as_ref().and_then(|c| c[k]);
        let mut rest = f.unpack_size();
        for j in 0..cnt {
            let z = if j + 1 < cnt {
                let z = sub.sizes.as_ref().ok_or("no sizes")?[zi];
                zi += 1;
                z
            } else {
                rest
            };
            rest = rest.checked_sub(z).ok_or("substream sizes exceed the folder")?;
            let crc = if cnt == 1 && fcrc.is_some() {
                fcrc
            } else {
                let c = sub.crcs.as_ref().and_then(|c| c.get(ci).copied().flatten());
                ci += 1;
                c
            };
            subs.push((k, z, crc));
        }
    }
    let mut it = subs.into_iter();
    for f in v.iter_mut() {
        if f.has_stream {
            let (k, z, c) = it.next().ok_or("file without a substream")?;
            f.folder = Some(k);
            f.size = z;
            f.crc = c;
        }
    }
    if it.next().is_some() {
        return Err("substream without a file".into());
    }
    Ok(v)
}

#[derive(Clone, Debug, Default)]
pub struct StrictEntry {
    pub info: FileInfo,
    pub data: Vec<u8>,
}
pub struct Strict {
    pub header: Header,
    pub entries: Vec<StrictEntry>,
    pub encoded: bool,
    pub header_encrypted: bool,
    /// decoded header bytes
    pub raw_header: Vec<u8>,
}
pub const LZMA: &[u8] = &[3, 1, 1];
pub const LZMA2: &[u8] = &[0x21];
pub const COPY: &[u8] = &[0];
pub const AES: &[u8] = &[6, 0xf1, 7, 1];
pub const BZIP2: &[u8] = &[4, 2, 2];
pub const ZSTD: &[u8] = &[4, 247, 17, 1];
pub const DELTA: &[u8] = &[3];
pub const X86: &[u8] = &[3, 3, 1, 3];
pub const PPC: &[u8] = &[3, 3, 2, 5];
pub const ARM: &[u8] = &[3, 3, 5, 1];
pub const ARMT: &[u8] = &[3, 3, 7, 1];
pub const SPARC: &[u8] = &[3, 3, 8, 5];
pub const BCJ2: &[u8] = &[3, 3, 1, 0x1B];

pub fn lzma2_dict(p: u8) -> Option<u32> {
    match p {
        40 => Some(u32::MAX),
        0..=39 => Some((2 | (p as u32 & 1)) << (p / 2 + 11)),
        _ => None,
    }
}
fn decode_coder(c: &Coder, data: &[u8], size: u64, password: Option<&[u8]>) -> PR<Vec<u8>> {
    let props = c.props.clone().unwrap_or_default();
    let out = match &c.id[..] {
        COPY => data.to_vec(),
        LZMA => {
            if props.len() != 5 {
                return Err("LZMA property length".into());
            }
            let (lc, lp, pb) = reflzma::split_props(props[0]).ok_or("LZMA props")?;
            let dict = u32::from_le_bytes(props[1..5].try_into().unwrap());
            let (o, used) = reflzma::decode_lzma(data, lc, lp, pb, dict, Some(size), false)?;
            if used != data.len() {
                return Err(format!("LZMA used {used} of {} bytes", data.len()));
            }
            o
        }
        LZMA2 => {
            if props.len() != 1 {
                return Err("LZMA2 property length".into());
            }
            let dict = lzma2_dict(props[0]).ok_or("LZMA2 dict")?;
            let (o, used, _) = reflzma::decode_lzma2(data, dict, &[], true)?;
            if used != data.len() {
                return Err(format!("LZMA2 used {used} of {} bytes", data.len()));
            }
            o
        }
        AES => {
            let pw = password.ok_or("needs password")?;
            let mut o = refaes::decrypt(data, pw, &props)?;
            if o.len() as u64 != (size + 15) / 16 * 16 {
                return Err(format!("AES data {} bytes for size {size}", o.len()));
            }
            o.truncate(size as usize);
            o
        }
        DELTA => reffilt::delta_dec(data, props.first().copied().unwrap_or(0) as usize + 1),
        X86 | PPC | ARM | ARMT | SPARC => reffilt::dec(&c.id, data),
        x => return Err(format!("method {x:?}")),
    };
    if out.len() as u64 != size {
        return Err(format!("coder {:?} gave {} bytes, announced {size}", c.id, out.len()));
    }
    Ok(out)
}
/// Decodes a chain folder from its single packed stream with the reference coders.
pub fn decode_folder(f: &Folder, packed: &[u8], password: Option<&[u8]>) -> PR<Vec<u8>> {
    if f.packed.len() != 1 || f.coders.iter().any(|c| c.nin != 1) {
        return Err("not a simple chain".into());
    }
    let mut i = f.packed[0];
    let mut data = packed.to_vec();
    let mut steps = 0;
    loop {
        data = decode_coder(&f.coders[i as usize], &data, f.sizes[i as usize], password)?;
        steps += 1;
        match f.bind.iter().find(|b| b.1 == i) {
            Some(b) if steps <= f.coders.len() => i = b.0,
            Some(_) => return Err("bind cycle".into()),
            None => break,
        }
    }
    if steps != f.coders.len() {
        return Err("coder not connected".into());
    }
    Ok(data)
}
/// Strict reading of a complete archive, as written by a conforming writer without trailing data.
pub fn strict_read(file: &[u8], password: Option<&[u8]>) -> PR<Strict> {
    strict_opt(file, password, true)
}
/// The same without decoding entry contents.
pub fn strict_layout(file: &[u8]) -> PR<Header> {
    Ok(strict_opt(file, None, false)?.header)
}
fn strict_opt(file: &[u8], password: Option<&[u8]>, expand: bool) -> PR<Strict> {
    if file.len() < 32 || &file[..6] != b"7z\xBC\xAF\x27\x1C" {
        return Err("signature".into());
    }
    if file[6] != 0 {
        return Err("major version".into());
    }
    let g32 = |o: usize| u32::from_le_bytes(file[o..o + 4].try_into().unwrap());
    let g64 = |o: usize| u64::from_le_bytes(file[o..o + 8].try_into().unwrap());
    if crc32(&file[12..32]) != g32(8) {
        return Err("start header CRC".into());
    }
    let (off, size, crc) = (g64(12), g64(20), g32(28));
    if off.checked_add(size).and_then(|x| x.checked_add(32)) != Some(file.len() as u64) {
        return Err(format!("next header at {off}+{size} does not end the file of {} bytes", file.len()));
    }
    let hb = &file[32 + off as usize..];
    if crc32(hb) != crc {
        return Err("next header CRC".into());
    }
    // used ranges of the packed area
    let mut used: Vec<(u64, u64)> = vec![];
    let mut encoded = false;
    let mut header_encrypted = false;
    let mut hdr = hb.to_vec();
    if hb[0] == 23 {
        encoded = true;
        let mut p = P::new(hb);
        p.p = 1;
        let st = p.streams()?;
        if p.p != hb.len() {
            return Err("bytes after the encoded header".into());
        }
        let (pk, un) = (st.pack.ok_or("no PackInfo")?, st.unpack.ok_or("no UnpackInfo")?);
        if pk.n != 1 || un.folders.len() != 1 {
            return Err("encoded header with several streams".into());
        }
        let z = pk.sizes.ok_or("no sizes")?[0];
        let body = file.get(32 + pk.pos as usize..(32 + pk.pos + z) as usize).ok_or("encoded header out of file")?;
        if let Some(Some(c)) = pk.crcs.map(|c| c[0]) {
            if c != crc32(body) {
                return Err("encoded header pack CRC".into());
            }
        }
        used.push((pk.pos, z));
        header_encrypted = un.folders[0].coders.iter().any(|c| c.id == AES);
        hdr = decode_folder(&un.folders[0], body, password)?;
        match un.crcs.and_then(|c| c[0]) {
            Some(c) if c == crc32(&hdr) => {}
            Some(_) => return Err("encoded header CRC".into()),
            None => return Err("encoded header without CRC".into()),
        }
    }
    let mut p = P::new(&hdr);
    let h = p.header()?;
    if p.p != hdr.len() {
        return Err("bytes after the header".into());
    }
    let l = listing(&h)?;
    let mut entries: Vec<StrictEntry> = l.into_iter().map(|info| StrictEntry { info, data: vec![] }).collect();
    let st = h.streams.clone().unwrap_or_default();
    if let Some(un) = &st.unpack {
        let pk = st.pack.clone().unwrap_or_default();
        let np: usize = un.folders.iter().map(|f| f.packed.len()).sum();
        if np as u64 != pk.n {
            return Err(format!("{np} packed streams used, {} declared", pk.n));
        }
        let sizes = pk.sizes.clone().unwrap_or_default();
        let mut pos = pk.pos;
        let mut k = 0;
        for (fi, f) in un.folders.iter().enumerate() {
            let z = *sizes.get(k).ok_or("pack size missing")?;
            let body = file.get((32 + pos) as usize..(32 + pos + z) as usize).ok_or("packed stream out of file")?;
            if 32 + pos + z > 32 + off {
                return Err("packed stream overlaps the header".into());
            }
            if let Some(Some(c)) = pk.crcs.as_ref().map(|c| c[k]) {
                if c != crc32(body) {
                    return Err(format!("pack CRC of stream {k}"));
                }
            }
            used.push((pos, z));
            if !expand {
                pos += z;
                k += 1;
                continue;
            }
            let data = decode_folder(f, body, password).map_err(|e| format!("folder {fi}: {e}"))?;
            if let Some(Some(c)) = un.crcs.as_ref().map(|c| c[fi]) {
                if c != crc32(&data) {
                    return Err(format!("folder {fi} CRC"));
                }
            }
            let mut o = 0usize;
            for e in entries.iter_mut().filter(|e| e.info.folder == Some(fi)) {
                e.data = data.get(o..o + e.info.size as usize).ok_or("substream beyond folder")?.to_vec();
                o += e.info.size as usize;
                if let Some(c) = e.info.crc {
                    if c != crc32(&e.data) {
                        return Err("entry CRC".into());
                    }
                }
            }
            if o != data.len() {
                return Err(format!("folder {fi}: {o} of {} bytes belong to entries", data.len()));
            }
            pos += z;
            k += 1;
        }
    } else if st.pack.as_ref().map(|p| p.n > 0).unwrap_or(false) {
        return Err("packed streams without folders".into());
    }
    used.retain(|u| u.1 > 0);
    used.sort();
    let mut e = 0;
    for (p, z) in used {
        if p != e {
            return Err(format!("gap or overlap in the packed area at {e}..{p}"));
        }
        e = p + z;
    }
    if e != off {
        return Err(format!("unaccounted bytes {e}..{off} before the header"));
    }
    Ok(Strict { header: h, entries, encoded, header_encrypted, raw_header: hdr })
}
