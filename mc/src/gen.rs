//! Builds archives of arbitrary legal layout from a specification, with the expected listing.
use crate::arch::{Got, PW};
use crate::ref7z::*;
use crate::{refaes, reffilt, reflzma};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum C7 {
    Copy,
    Lzma,
    Lzma2,
    Bzip2,
    Zstd,
    Delta(u16),
    X86,
    Arm,
    Armt,
    Ppc,
    Sparc,
    Aes,
}
impl C7 {
    /// (coder, stored form)
    pub fn encode(&self, d: &[u8]) -> (Coder, Vec<u8>) {
        match self {
            C7::Copy => (Coder::simple(COPY, None), d.to_vec()),
            C7::Lzma => {
                let mut p = vec![reflzma::props_byte(3, 0, 2)];
                p.extend_from_slice(&(1u32 << 16).to_le_bytes());
                (Coder::simple(LZMA, Some(p)), reflzma::lzma_encode_simple(d, 3, 0, 2, false))
            }
            C7::Lzma2 => (Coder::simple(LZMA2, Some(vec![8])), reflzma::lzma2_encode_simple(d, 20000)),
            C7::Bzip2 => {
                use std::io::Write;
                let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::new(1));
                e.write_all(d).unwrap();
                (Coder::simple(BZIP2, None), e.finish().unwrap())
            }
            C7::Zstd => (Coder::simple(ZSTD, Some(vec![1, 5, 1, 0, 0])), zstd::stream::encode_all(d, 1).unwrap()),
            C7::Delta(n) => (Coder::simple(DELTA, Some(vec![(n - 1) as u8])), reffilt::delta_enc(d, *n as usize)),
            C7::X86 => (Coder::simple(X86, None), reffilt::conv(X86, d, true)),
            C7::Arm => (Coder::simple(ARM, None), reffilt::conv(ARM, d, true)),
            C7::Armt => (Coder::simple(ARMT, None), reffilt::conv(ARMT, d, true)),
            C7::Ppc => (Coder::simple(PPC, None), reffilt::conv(PPC, d, true)),
            C7::Sparc => (Coder::simple(SPARC, None), reffilt::conv(SPARC, d, true)),
            C7::Aes => {
                let iv = *b"0123456789abcdef";
                let pw = refaes::utf16le(PW);
                (Coder::simple(AES, Some(refaes::properties(b"salty", &iv, 2))), refaes::encrypt(d, &pw, b"salty", &iv, 2))
            }
        }
    }
}
/// How the folder is put together.
#[derive(Clone, Debug)]
pub struct Bcj2Spec {
    /// coders (packed side first) of main, call, jump and range streams; empty = stored as it is
    pub subs: [Vec<C7>; 4],
    /// position of the BCJ2 coder among the coders: first (as 7-Zip) or last
    pub last: bool,
    /// order of the packed streams in the file
    pub order: [usize; 4],
    pub fcrc: bool,
    pub scrc: bool,
}
pub fn plain_spec() -> Bcj2Spec {
    Bcj2Spec { subs: [vec![], vec![], vec![], vec![]], last: false, order: [0, 1, 2, 3], fcrc: true, scrc: true }
}
/// A BCJ2 block made of the given streams: AST and packed streams.
pub fn bcj2_folder(s: &Bcj2Spec, len: u64, streams: &[Vec<u8>; 4]) -> (Folder, Vec<Vec<u8>>) {
    // coder list: BCJ2 and the chains of the four streams
    let bc = Coder { id: vec![3, 3, 1, 0x1B], props: None, nin: 4, nout: 1, complex: true };
    let mut coders = vec![];
    let mut sizes = vec![];
    if !s.last {
        coders.push(bc.clone());
        sizes.push(len);
    }
    let mut packed_data = vec![vec![]; 4];
    // for each stream: coder indices from the unpacked side
    let mut chain_ix: Vec<Vec<usize>> = vec![vec![]; 4];
    for k in 0..4 {
        let mut d = streams[k].clone();
        for c in s.subs[k].iter().rev() {
            chain_ix[k].push(coders.len());
            sizes.push(d.len() as u64);
            let (co, e) = c.encode(&d);
            coders.push(co);
            d = e;
        }
        packed_data[k] = d;
    }
    if s.last {
        coders.push(bc);
        sizes.push(len);
    }
    let bix = if s.last { coders.len() - 1 } else { 0 };
    let first_in = |ci: usize| -> u64 { coders[..ci].iter().map(|c| c.nin).sum() };
    let mut bind = vec![];
    let mut in_of = [0u64; 4];
    for k in 0..4 {
        let mut inx = first_in(bix) + k as u64;
        for ci in &chain_ix[k] {
            bind.push((inx, *ci as u64));
            inx = first_in(*ci);
        }
        in_of[k] = inx;
    }
    let packed: Vec<u64> = s.order.iter().map(|k| in_of[*k]).collect();
    let parts = s.order.iter().map(|k| std::mem::take(&mut packed_data[*k])).collect();
    (Folder { coders, bind, packed, sizes }, parts)
}
/// Archive of `files` in one BCJ2 block made of the given streams.
pub fn build_bcj2(s: &Bcj2Spec, files: &[Vec<u8>], streams: &[Vec<u8>; 4]) -> Built {
    let whole = files.concat();
    let (fo, parts) = bcj2_folder(s, whole.len() as u64, streams);
    let area = parts.concat();
    let psizes = parts.iter().map(|p| p.len() as u64).collect();
    let tmpl = assemble(&Spec::files(vec![folder(&[C7::Copy], files.to_vec())]));
    let mut h = tmpl.header.clone();
    let mut want = tmpl.want.clone();
    {
        let st = h.streams.as_mut().unwrap();
        let p = st.pack.as_mut().unwrap();
        p.n = 4;
        p.sizes = Some(psizes);
        let u = st.unpack.as_mut().unwrap();
        u.folders[0] = fo;
        u.crcs = if s.fcrc { Some(vec![Some(crc32(&whole))]) } else { None };
        let sub = st.sub.as_mut().unwrap();
        if s.fcrc && files.len() == 1 || !s.scrc {
            sub.crcs = None;
        }
        if !s.scrc && !(s.fcrc && files.len() == 1) {
            want.iter_mut().for_each(|w| w.crc = None);
        }
    }
    let ser = ser_header(&h, 0, false);
    let bytes = file(&area, &ser.out);
    let enc = s.subs.iter().any(|c| c.contains(&C7::Aes));
    Built { bytes, header: h, area, ser, want, data: tmpl.data, needs_password: enc }
}
#[derive(Clone, Debug)]
pub struct FolderSpec {
    /// from the packed side to the unpacked side
    pub chain: Vec<C7>,
    pub files: Vec<Vec<u8>>,
    /// coder list written from the unpacked side (as 7-Zip does)
    pub outer_first: bool,
    pub fcrc: bool,
    pub scrc: bool,
    pub pcrc: bool,
    /// a BCJ2 block instead of the chain: its make, and one of how many branches is converted
    pub bcj2: Option<(Bcj2Spec, usize)>,
}
pub fn folder(chain: &[C7], files: Vec<Vec<u8>>) -> FolderSpec {
    FolderSpec { chain: chain.to_vec(), files, outer_first: true, fcrc: false, scrc: true, pcrc: false, bcj2: None }
}
pub fn bcj2_block(s: Bcj2Spec, every: usize, files: Vec<Vec<u8>>) -> FolderSpec {
    FolderSpec { bcj2: Some((s, every)), ..folder(&[], files) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Slot {
    Stream,
    EmptyFile,
    Dir,
    Anti,
    AntiDir,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hdr {
    Plain,
    Enc(&'static [C7]),
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub folders: Vec<FolderSpec>,
    pub slots: Vec<Slot>,
    pub names: Option<Vec<String>>,
    /// per entry: presence mask of ctime, atime, mtime, attr
    pub masks: Vec<usize>,
    pub gap: usize,
    pub gap_after: usize,
    pub trailing: usize,
    pub props: bool,
    /// bit k: a kDummy before property k
    pub dummy: u32,
    /// an unknown property: what it holds (1..=7), before the first property or (+7) the last
    pub unknown: u8,
    pub extra: u8,
    pub force_bits: bool,
    pub no_sub: bool,
    pub no_nums: bool,
    pub no_subcrc: bool,
    pub write_names: bool,
    pub names_last: bool,
    pub hdr: Hdr,
    pub hdr_fcrc: bool,
    pub hdr_gap: usize,
    pub minor: u8,
    pub no_pack_crc_at_all: bool,
    pub empty_props_explicit: bool,
}
impl Spec {
    pub fn new(folders: Vec<FolderSpec>, slots: Vec<Slot>) -> Spec {
        Spec {
            folders,
            slots,
            names: None,
            masks: vec![],
            gap: 0,
            gap_after: 0,
            trailing: 0,
            props: false,
            dummy: 0,
            unknown: 0,
            extra: 0,
            force_bits: false,
            no_sub: false,
            no_nums: false,
            no_subcrc: false,
            write_names: true,
            names_last: false,
            hdr: Hdr::Plain,
            hdr_fcrc: true,
            hdr_gap: 0,
            minor: 4,
            no_pack_crc_at_all: false,
            empty_props_explicit: false,
        }
    }
    /// streams only
    pub fn files(folders: Vec<FolderSpec>) -> Spec {
        let n = folders.iter().map(|f| f.files.len()).sum();
        Spec::new(folders, vec![Slot::Stream; n])
    }
}
pub struct Built {
    pub bytes: Vec<u8>,
    pub header: Header,
    pub area: Vec<u8>,
    pub ser: Ser,
    pub want: Vec<Got>,
    pub data: Vec<(String, Vec<u8>)>,
    pub needs_password: bool,
}
/// Encodes one folder: AST and packed bytes.
pub fn encode_folder(f: &FolderSpec) -> (Folder, Vec<u8>, Vec<u8>) {
    let (fo, parts, whole) = encode_parts(f);
    (fo, parts.concat(), whole)
}
/// The same with the packed streams apart.
pub fn encode_parts(f: &FolderSpec) -> (Folder, Vec<Vec<u8>>, Vec<u8>) {
    let whole: Vec<u8> = f.files.concat();
    if let Some((s, every)) = &f.bcj2 {
        let streams = reffilt::bcj2_enc(&whole, |k| k % every == 0);
        let (fo, parts) = bcj2_folder(s, whole.len() as u64, &streams);
        return (fo, parts, whole);
    }
    let n = f.chain.len();
    let mut coders = vec![Coder::default(); n];
    let mut sizes = vec![0u64; n];
    let mut d = whole.clone();
    for k in (0..n).rev() {
        sizes[k] = d.len() as u64;
        let (c, e) = f.chain[k].encode(&d);
        coders[k] = c;
        d = e;
    }
    // chain[0] takes the packed stream
    let mut fo = Folder { coders, bind: (1..n as u64).map(|k| (k, k - 1)).collect(), packed: vec![0], sizes };
    if f.outer_first {
        fo.coders.reverse();
        fo.sizes.reverse();
        fo.bind = (0..n as u64 - 1).map(|k| (k, k + 1)).collect();
        fo.packed = vec![n as u64 - 1];
    }
    (fo, vec![d], whole)
}
pub fn assemble(s: &Spec) -> Built {
    let mut area = vec![0xA5u8; s.gap];
    let mut pack = Pack { pos: s.gap as u64, n: 0, sizes: Some(vec![]), crcs: None };
    let mut un = Unpack::default();
    let mut fcrcs = vec![];
    let mut pcrcs = vec![];
    let mut nums = vec![];
    let mut ssizes = vec![];
    let mut scrcs = vec![];
    let mut streams: Vec<(Vec<u8>, Option<u32>)> = vec![];
    let mut enc = false;
    for f in &s.folders {
        let (fo, parts, whole) = encode_parts(f);
        enc |= f.chain.contains(&C7::Aes) || f.bcj2.iter().any(|(s, _)| s.subs.iter().any(|c| c.contains(&C7::Aes)));
        un.folders.push(fo);
        for packed in parts {
            pack.n += 1;
            pack.sizes.as_mut().unwrap().push(packed.len() as u64);
            pcrcs.push(if f.pcrc { Some(crc32(&packed)) } else { None });
            area.extend_from_slice(&packed);
        }
        fcrcs.push(if f.fcrc { Some(crc32(&whole)) } else { None });
        nums.push(f.files.len() as u64);
        for (i, d) in f.files.iter().enumerate() {
            if i + 1 < f.files.len() {
                ssizes.push(d.len() as u64);
            }
            let has = if f.files.len() == 1 && f.fcrc {
                true
            } else {
                let h = f.scrc && !s.no_subcrc && !s.no_sub;
                scrcs.push(if h { Some(crc32(d)) } else { None });
                h
            };
            streams.push((d.clone(), if has { Some(crc32(d)) } else { None }));
        }
    }
    let any = !s.folders.is_empty();
    if pcrcs.iter().any(|c| c.is_some()) && !s.no_pack_crc_at_all {
        pack.crcs = Some(pcrcs);
    }
    if fcrcs.iter().any(|c| c.is_some()) {
        un.crcs = Some(fcrcs);
    }
    let all_one = nums.iter().all(|n| *n == 1);
    let sub = Sub {
        nums: if all_one && s.no_nums { None } else { Some(nums.clone()) },
        sizes: if ssizes.is_empty() && s.no_nums { None } else { Some(ssizes) },
        crcs: if scrcs.is_empty() || s.no_subcrc || scrcs.iter().all(|c| c.is_none()) { None } else { Some(scrcs) },
    };
    area.resize(area.len() + s.gap_after, 0x5A);
    // entries
    let n = s.slots.len();
    let mut want = vec![];
    let mut data = vec![];
    let mut it = streams.into_iter();
    let mut empty = vec![false; n];
    let mut efile = vec![];
    let mut anti = vec![];
    let mut times = [vec![None; n], vec![None; n], vec![None; n]];
    let mut attr = vec![None; n];
    let mut names = vec![];
    for (i, sl) in s.slots.iter().enumerate() {
        let name = match &s.names {
            Some(v) => v[i].clone(),
            None => format!("e{i}"),
        };
        let mut g = Got { name: if s.write_names { name.clone() } else { String::new() }, ..Default::default() };
        let mut bytes = vec![];
        match sl {
            Slot::Stream => {
                let (d, c) = it.next().expect("a stream for every stream slot");
                g.has_stream = true;
                g.size = d.len() as u64;
                g.crc = c.map(|x| x as u64);
                bytes = d;
            }
            x => {
                empty[i] = true;
                g.dir = matches!(x, Slot::Dir | Slot::AntiDir);
                g.anti = matches!(x, Slot::Anti | Slot::AntiDir);
                efile.push(!g.dir);
                anti.push(g.anti);
            }
        }
        let m = s.masks.get(i).copied().unwrap_or(0);
        let t = |f: u64| 0x01D5_3F4B_6E2A_0000u64 + (i as u64) * 0x1_0001 + f * 0x0100_0000_0000;
        if m & 1 != 0 {
            g.ctime = Some(t(1));
        }
        if m & 2 != 0 {
            g.atime = Some(t(2));
        }
        if m & 4 != 0 {
            g.mtime = Some(t(3));
        }
        if m & 8 != 0 {
            g.attr = Some(0x20 + i as u32);
        }
        times[0][i] = g.ctime;
        times[1][i] = g.atime;
        times[2][i] = g.mtime;
        attr[i] = g.attr;
        names.push(name.encode_utf16().collect::<Vec<u16>>());
        data.push((g.name.clone(), bytes));
        want.push(g);
    }
    assert!(it.next().is_none(), "more streams than slots");
    let mut props = vec![];
    if empty.iter().any(|x| *x) || s.empty_props_explicit {
        props.push(Prop::EmptyStream(empty.clone()));
        if efile.iter().any(|x| *x) || s.empty_props_explicit {
            props.push(Prop::EmptyFile(efile));
        }
        if anti.iter().any(|x| *x) || s.empty_props_explicit {
            props.push(Prop::Anti(anti));
        }
    }
    let np = Prop::Names(names);
    if s.write_names && !s.names_last {
        props.push(np.clone());
    }
    for (k, t) in times.into_iter().enumerate() {
        if t.iter().any(|x| x.is_some()) {
            props.push(Prop::Time(18 + k as u8, t));
        }
    }
    if attr.iter().any(|x| x.is_some()) {
        props.push(Prop::Attr(attr));
    }
    if s.write_names && s.names_last {
        props.push(np);
    }
    let mut all = vec![];
    let last = props.len().saturating_sub(1);
    for (k, p) in props.into_iter().enumerate() {
        if s.dummy >> k & 1 != 0 {
            all.push(Prop::Raw(25, vec![0; k * 3]));
        }
        if s.unknown > 0 && k == if s.unknown > 7 { last } else { 0 } {
            // what would be read as something else if it were not passed over
            let (id, held): (u64, Vec<u8>) = match (s.unknown - 1) % 7 {
                0 => (0x30, b"\x05\x01unknown property".to_vec()),
                1 => (0x30, vec![0; 5]),
                2 => (0x16, b"\0c\0o\0\0\0".to_vec()),
                3 => (0x1a, vec![14, 1, 255, 15, 1, 255, 0]),
                4 => (0x7f, vec![0x11; 200]),
                5 => (0x30, vec![]),
                _ => (0x1e, b"odd".to_vec()),
            };
            all.push(Prop::Raw(id, held));
        }
        all.push(p);
    }
    if s.dummy >> 31 & 1 != 0 {
        all.push(Prop::Raw(25, vec![0; 130]));
    }
    let header = Header {
        props: if s.props { Some(vec![(0x21, b"abc".to_vec()), (0x22, vec![]), (0x23, vec![0; 200])]) } else { None },
        streams: if any { Some(Streams { pack: Some(pack), unpack: Some(un), sub: if s.no_sub { None } else { Some(sub) } }) } else { None },
        files: if n > 0 || any { Some(Files { n: n as u64, props: all }) } else { None },
    };
    let ser = ser_header(&header, s.extra, s.force_bits);
    let mut full_area = area.clone();
    let mut hb = ser.out.clone();
    if let Hdr::Enc(chain) = s.hdr {
        enc |= chain.contains(&C7::Aes);
        full_area.resize(full_area.len() + s.hdr_gap, 0x33);
        let (fo, packed, whole) = encode_folder(&FolderSpec { chain: chain.to_vec(), files: vec![hb], outer_first: true, fcrc: true, scrc: false, pcrc: false, bcj2: None });
        let st = Streams {
            pack: Some(Pack { pos: full_area.len() as u64, n: 1, sizes: Some(vec![packed.len() as u64]), crcs: if s.hdr_fcrc { None } else { Some(vec![Some(crc32(&packed))]) } }),
            unpack: Some(Unpack { folders: vec![fo], crcs: if s.hdr_fcrc { Some(vec![Some(crc32(&whole))]) } else { None } }),
            sub: None,
        };
        full_area.extend_from_slice(&packed);
        hb = ser_encoded(&st, s.extra, s.force_bits).out;
    }
    let mut bytes = file(&full_area, &hb);
    bytes[7] = s.minor;
    bytes.resize(bytes.len() + s.trailing, 0x77);
    Built { bytes, header, area: full_area, ser, want, data, needs_password: enc }
}
