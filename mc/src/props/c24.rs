//! C24: codecs stay within the memory they announce; a memory limit is kept.
use super::c03::{COMBOS, O};
use super::c05::encode;
use crate::arch::text;
use crate::explore::Ch;
use crate::io::Src;
use crate::reflzma::{self, Sym};
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::lzma::{self, CountingWriter, LZMA2Options, LZMA2Reader, LZMA2Writer, LZMAReader, LZMAWriter};
use std::io::Write;

const KIB: u64 = 1024;
/// largest dictionary a decoder takes
const TOP: u32 = u32::MAX & !15;
const DICTS: &[u32] = &[
    0,
    1,
    4095,
    4096,
    4097,
    4111,
    4112,
    5120,
    65535,
    65536,
    65537,
    (1 << 20) - 1,
    1 << 20,
    (1 << 20) + 1,
    (3 << 20) + 1023,
    8 << 20,
    64 << 20,
    1 << 30,
    (1 << 31) - 1,
    1 << 31,
    (1 << 31) + 1,
    3 << 30,
    TOP - 1,
    TOP,
    TOP + 1,
    u32::MAX,
];
/// What an LZMA decoder cannot do without: the dictionary and the literal coders.
fn need(dict: u32, lc: u32, lp: u32) -> u64 {
    dict.max(4096) as u64 + ((2 * 0x300u64) << (lc + lp))
}
fn covers(key: &str, what: &str, kib: u32, need: u64, slack: u64) -> R {
    let got = kib as u64 * KIB;
    ensure!(got >= need, format!("{key}:too-low"), "{what}: {kib} KiB announced, {need} bytes are needed");
    ensure!(got <= need + slack, format!("{key}:too-high"), "{what}: {kib} KiB announced, {need} bytes are needed");
    Ok(())
}
fn estimates(ch: &Ch) -> R {
    let &dict = ch.pick(DICTS);
    match ch.choose(3) {
        0 => {
            let (lc, lp) = (ch.choose(11) as u32, ch.choose(7) as u32);
            let what = format!("dictionary {dict}, lc {lc}, lp {lp}");
            ch.desc(|| what.clone());
            let r = no_panic(|| lzma::lzma_get_memery_usage(dict, lc, lp))?;
            let good = lc <= 8 && lp <= 4 && dict <= TOP;
            ensure!(r.is_ok() == good, "estimate:valid", "{what}: {r:?}");
            if let Ok(k) = r {
                covers("estimate", &what, k, need(dict, lc, lp), 64 * KIB)?;
                ch.state(k as u64);
            }
        }
        1 => {
            let props = ch.choose(256) as u8;
            let what = format!("dictionary {dict}, properties {props}");
            ch.desc(|| what.clone());
            let r = no_panic(|| lzma::lzma_get_memery_usage_by_props(dict, props))?;
            match reflzma::split_props(props) {
                Some((lc, lp, _)) if dict <= TOP => match r {
                    Ok(k) => {
                        covers("estimate-props", &what, k, need(dict, lc, lp), 64 * KIB)?;
                        ch.state(k as u64);
                    }
                    Err(e) => fail!("estimate-props:valid", "{what}: {e}"),
                },
                _ => ensure!(r.is_err(), "estimate-props:valid", "{what}: {r:?}"),
            }
        }
        _ => {
            let k = no_panic(|| lzma::lzma2_get_memery_usage(dict))?;
            covers("estimate-lzma2", &format!("LZMA2, dictionary {dict}"), k, dict.max(4096).min(TOP) as u64, 192 * KIB)?;
            ch.state(k as u64);
        }
    }
    Ok(())
}
fn syms(n: usize) -> Vec<Sym> {
    let mut v: Vec<Sym> = (0..n.min(40)).map(|i| Sym::Lit(b'a' + (i * i % 23) as u8)).collect();
    let mut rest = n - v.len();
    while rest > 1 {
        let l = rest.min(273);
        v.push(Sym::Match { dist: 17, len: l as u32 });
        rest -= l;
    }
    if rest == 1 {
        v.push(Sym::Lit(b'!'));
    }
    v
}
/// Every limit around what is announced, and far from it.
fn limit(ch: &Ch) -> R {
    let &(lc, lp, pb) = ch.pick(&[(3u32, 0u32, 2u32), (0, 0, 0), (8, 0, 0), (0, 4, 4), (8, 4, 4), (4, 4, 1)]);
    let &dict = ch.pick(&[0u32, 4096, 5000, 65536, 1 << 20, (1 << 20) + 1, 64 << 20, 1 << 30, TOP]);
    let &n = ch.pick(&[0usize, 1, 300, 5000, 70000]);
    let known = ch.flag();
    let x = encode(&syms(n), lc, lp, pb, dict.max(4096), b"", !known);
    let size = if known { n as u64 } else { u64::MAX };
    let props = reflzma::props_byte(lc, lp, pb);
    let mut f = vec![props];
    f.extend_from_slice(&dict.to_le_bytes());
    f.extend_from_slice(&size.to_le_bytes());
    f.extend_from_slice(&x.body);
    let say = match lzma::lzma_get_memery_usage_by_props(dict, props) {
        Ok(k) => k,
        Err(e) => fail!("limit:estimate", "{e}"),
    };
    let l = match ch.choose(10) {
        0 => 0,
        1 => 1,
        2 => say / 2,
        3 => say - 2,
        4 => say - 1,
        5 => say,
        6 => say + 1,
        7 => say + 2,
        8 => say * 2 - say / 2,
        _ => u32::MAX,
    };
    let what = format!("lc{lc} lp{lp} pb{pb}, dictionary {dict}, {n} bytes, size {}, limit {l} KiB, {say} KiB announced", if known { "known" } else { "unknown" });
    ch.desc(|| what.clone());
    let mut out = Vec::with_capacity(x.want.len() + (64 << 10));
    let (r, p) = peak(|| match LZMAReader::new_mem_limit(Src::new(&f), l, None) {
        Ok(mut r) => {
            let mut b = [0u8; 4096];
            loop {
                match std::io::Read::read(&mut r, &mut b) {
                    Ok(0) => return Ok(Ok(())),
                    Ok(k) => out.extend_from_slice(&b[..k]),
                    Err(e) => return Ok(Err(e)),
                }
            }
        }
        Err(e) => Err(e),
    });
    if l < say {
        ensure!(r.is_err(), "limit:accepted", "{what}: accepted");
        ensure!(p < 16 * KIB, "limit:refused-late", "{what}: refused after {p} bytes were in use");
    } else {
        match r {
            Ok(Ok(())) => ensure!(out == x.want, "limit:data", "{what}: {} of {} bytes come out", out.len(), x.want.len()),
            Ok(Err(e)) => fail!("limit:read", "{what}: {e}"),
            Err(e) => fail!("limit:refused", "{what}: {e}"),
        }
        ensure!(p <= l as u64 * KIB, "limit:exceeded", "{what}: {p} bytes in use");
        ensure!(p <= say as u64 * KIB, "limit:estimate-exceeded", "{what}: {p} bytes in use");
    }
    ch.state(fnv(format!("{l} {p} {}", r.is_ok()).as_bytes()));
    Ok(())
}
/// Every header of the stream format, whatever follows it.
fn headers(ch: &Ch) -> R {
    let props = ch.choose(256) as u8;
    let &dict = ch.pick(DICTS);
    let &size = ch.pick(&[0u64, 1, 4096, 1 << 20, 1 << 32, (1 << 32) + 1, (1 << 40) + 4096, u64::MAX / 2, u64::MAX / 2 + 1, u64::MAX - 1, u64::MAX]);
    let &l = ch.pick(&[0u32, 12, 15, 16, 64, 100, 1024, 8192, 65536]);
    let mut f = vec![props];
    f.extend_from_slice(&dict.to_le_bytes());
    f.extend_from_slice(&size.to_le_bytes());
    f.extend_from_slice(&[0u8; 40]);
    let what = format!("properties {props}, dictionary {dict}, size {size}, limit {l} KiB");
    ch.desc(|| what.clone());
    let (r, p) = peak(|| {
        no_panic(|| {
            let mut r = LZMAReader::new_mem_limit(Src::new(&f), l, None).map_err(|e| e.kind())?;
            let mut b = [0u8; 512];
            loop {
                match std::io::Read::read(&mut r, &mut b) {
                    Ok(0) | Err(_) => return Ok::<_, std::io::ErrorKind>(()),
                    Ok(_) => (),
                }
            }
        })
    });
    ensure!(p <= (l as u64 * KIB).max(16 * KIB), "headers:exceeded", "{what}: {p} bytes in use, {r:?}");
    ch.state(fnv(format!("{r:?} {p}").as_bytes()));
    Ok(())
}
/// Decoders without a limit stay within the estimate.
fn decoders(ch: &Ch) -> R {
    let &dict = ch.pick(&[0u32, 1, 4096, 4097, 65535, 1 << 20, 16 << 20, 64 << 20, 1 << 30, TOP, u32::MAX]);
    let &n = ch.pick(&[0usize, 1, 5000, 300_000]);
    let data = text(n);
    let how = ch.choose(3);
    if how == 0 {
        let dict = dict.min(TOP);
        let (lc, lp) = *ch.pick(&[(3u32, 0u32), (0, 0), (8, 4), (4, 0)]);
        let known = ch.flag();
        let x = encode(&syms(n), lc, lp, 0, dict.max(4096), b"", !known);
        let say = lzma::lzma_get_memery_usage(dict, lc, lp).unwrap_or(0);
        let what = format!("LZMA lc{lc} lp{lp} dictionary {dict}, {n} bytes");
        ch.desc(|| what.clone());
        let (r, p) = peak(|| {
            let mut r = LZMAReader::new(Src::new(&x.body), if known { n as u64 } else { u64::MAX }, lc, lp, 0, dict, None)?;
            run_out(&mut r)
        });
        match r {
            Ok(c) => ensure!(c == sum(&x.want), "decoders:data", "{what}: other data"),
            Err(e) => fail!("decoders:error", "{what}: {e}"),
        }
        ensure!(p <= say as u64 * KIB, "decoders:exceeded", "{what}: {say} KiB announced, {p} bytes in use");
        ch.state(p);
        return Ok(());
    }
    let s = if how == 1 {
        reflzma::lzma2_encode_simple(&data, 60000)
    } else {
        let mut s = vec![];
        for (i, c) in data.chunks(65536).enumerate() {
            reflzma::lzma2_stored(&mut s, i == 0, c);
        }
        s.push(0);
        s
    };
    let say = lzma::lzma2_get_memery_usage(dict);
    let what = format!("LZMA2 dictionary {dict}, {n} bytes, form {how}");
    ch.desc(|| what.clone());
    let d = dict.max(4096) as usize;
    if how == 1 && d < 60000 {
        return Ok(());
    }
    let (r, p) = peak(|| run_out(&mut LZMA2Reader::new(Src::new(&s), dict, None)));
    match r {
        Ok(c) => ensure!(c == sum(&data), "decoders:data", "{what}: other data"),
        Err(e) => fail!("decoders:error", "{what}: {e}"),
    }
    ensure!(p <= say as u64 * KIB, "decoders:exceeded", "{what}: {say} KiB announced, {p} bytes in use");
    ch.state(p);
    Ok(())
}
fn add(h: u64, d: &[u8]) -> u64 {
    d.iter().fold(h, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
}
fn sum(d: &[u8]) -> (usize, u64) {
    (d.len(), add(0, d))
}
/// Reads to the end without keeping the data.
fn run_out(r: &mut impl std::io::Read) -> std::io::Result<(usize, u64)> {
    let mut b = [0u8; 8192];
    let (mut n, mut h) = (0, 0);
    loop {
        match r.read(&mut b)? {
            0 => return Ok((n, h)),
            k => {
                n += k;
                h = add(h, &b[..k]);
            }
        }
    }
}
struct Nowhere(u64);
impl Write for Nowhere {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Encoders stay within what their options announce, and announce not much more (a quarter and 512 KiB).
fn encoder(key: &str, ch: &Ch, o: &LZMA2Options, form: usize, n: usize) -> R {
    let say = no_panic(|| o.get_memery_usage())?;
    let data = text(n);
    let what = format!("{:?}/{:?} dictionary {} lc{} lp{}, form {form}, {n} bytes", o.mode, o.mf, o.dict_size, o.lc, o.lp);
    ch.desc(|| what.clone());
    let (r, p) = peak(|| -> std::io::Result<u64> {
        match form {
            0 => {
                let mut w = LZMA2Writer::new(CountingWriter::new(Nowhere(0)), o);
                w.write_all(&data)?;
                w.flush()?;
                w.finish()?;
            }
            1 => {
                let mut w = LZMAWriter::new_use_header(CountingWriter::new(Nowhere(0)), o, None)?;
                w.write_all(&data)?;
                w.finish()?;
            }
            _ => {
                let mut w = LZMAWriter::new_no_header(CountingWriter::new(Nowhere(0)), o, true)?;
                w.write_all(&data)?;
                w.finish()?;
            }
        }
        Ok(0)
    });
    if let Err(e) = r {
        fail!(format!("{key}:error"), "{what}: {e}");
    }
    ensure!(p <= say as u64 * KIB, format!("{key}:too-low"), "{what}: {say} KiB announced, {p} bytes in use");
    ensure!(say as u64 * KIB <= p + p / 4 + (512 << 10), format!("{key}:too-high"), "{what}: {say} KiB announced, {p} bytes in use");
    ch.state(fnv(format!("{say} {p}").as_bytes()));
    Ok(())
}
fn encoders(ctx: &Ctx, ch: &Ch) -> R {
    let &(mode, mf) = ch.pick(COMBOS);
    let dicts: &[u32] = &[4096, 4097, 32768, 65535, 65536, 65537, 1 << 17, (1 << 17) + 1, 1 << 20, (3 << 20) + 1, 8 << 20, 16 << 20, (16 << 20) + 1, 32 << 20, (32 << 20) + 1, 64 << 20, 256 << 20, 768 << 20];
    let mut o = O::new(mode, mf);
    o.dict = dicts[ch.choose(ctx.b(dicts.len() - 2, dicts.len()))];
    let &(lc, lp, pb) = ch.pick(&[(3u32, 0u32, 2u32), (0, 0, 0), (4, 0, 4), (0, 4, 4)]);
    (o.lc, o.lp, o.pb) = (lc, lp, pb);
    o.nice = *ch.pick(&[8u32, 273]);
    let form = ch.choose(3);
    let &n = ch.pick(&[0usize, 70000]);
    encoder("encoders", ch, &o.opts(), form, n)
}
fn presets(ch: &Ch) -> R {
    let o = LZMA2Options::with_preset(ch.choose(10) as u32);
    encoder("presets", ch, &o, ch.choose(3), *ch.pick(&[0usize, 100_000]))
}

pub fn run(ctx: &Ctx) {
    ctx.explore("estimates", estimates);
    ctx.explore("limit", limit);
    ctx.explore("headers", headers);
    ctx.explore("decoders", decoders);
    ctx.explore("encoders", |ch| encoders(ctx, ch));
    ctx.explore("presets", presets);
}
