//! C01: contents round trip over add histories, contents and method chains.
use crate::arch::*;
use crate::explore::Ch;
use crate::io::Sink;
use crate::ref7z::crc32;
use crate::util::*;
use crate::{ensure, fail};

pub fn small_contents() -> Vec<Vec<u8>> {
    vec![b"".to_vec(), b"x".to_vec(), crc0(b"q"), b"seventeen bytes!!".to_vec()]
}
/// (description, entries, solid)
#[derive(Clone, Debug)]
pub enum Op {
    Push(Ent),
    Solid(Vec<Ent>),
    Methods(Chain),
}
pub fn alphabet() -> Vec<Op> {
    let c = small_contents();
    vec![
        Op::Push(Ent::file("f", b"hello world, hello world")),
        Op::Push(Ent::file("e", &c[0])),
        Op::Push(Ent::none("n")),
        Op::Push(Ent::dir("d")),
        Op::Push(Ent::file("z", &c[2])),
        Op::Solid(vec![Ent::file("s", b"first"), Ent::file("t", b"second!")]),
        Op::Solid(vec![Ent::file("u", b""), Ent::file("v", b"w"), Ent::file("w", &c[2])]),
        Op::Solid(vec![Ent::file("o", &c[2])]),
        Op::Methods(Chain::AesLzma2),
        Op::Methods(Chain::Lzma),
        Op::Push(Ent::anti("a")),
    ]
}
/// Runs a history; names are made unique by position. Returns archive and record.
pub fn run_history(ops: &[Op], start: Chain, enc_header: bool, key: &str, check_push: bool) -> R<(Vec<u8>, Vec<Ent>, bool)> {
    run_history_on(&Sink::new(), ops, start, enc_header, key, check_push)
}
pub fn run_history_on(s: &Sink, ops: &[Op], start: Chain, enc_header: bool, key: &str, check_push: bool) -> R<(Vec<u8>, Vec<Ent>, bool)> {
    let mut w = match writer(s.clone(), start, enc_header) {
        Ok(w) => w,
        Err(e) => fail!(format!("{key}:new"), "{e}"),
    };
    let mut want: Vec<Ent> = vec![];
    let mut enc = start.encrypted();
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Push(e) => {
                let mut e = e.clone();
                e.name = format!("{}{}", e.name, i);
                match push(&mut w, &e) {
                    Ok(g) => {
                        if check_push {
                            let d = e.bytes();
                            ensure!(
                                g.name == e.name && g.size == d.len() as u64 && (!g.has_crc || g.crc == crc32(d) as u64) && (g.has_crc || d.is_empty()),
                                format!("{key}:push-entry"),
                                "entry returned by the writer for {:?} ({} bytes, crc {:08x}): {:?} size {} crc {:?} {:08x}",
                                e.name,
                                d.len(),
                                crc32(d),
                                g.name,
                                g.size,
                                g.has_crc,
                                g.crc
                            );
                        }
                    }
                    Err(x) => fail!(format!("{key}:push-error"), "adding {:?} failed: {x}", e.name),
                }
                want.push(e);
            }
            Op::Solid(es) => {
                let es: Vec<Ent> = es
                    .iter()
                    .map(|e| {
                        let mut e = e.clone();
                        e.name = format!("{}{}", e.name, i);
                        e
                    })
                    .collect();
                if let Err(x) = push_solid(&mut w, &es) {
                    fail!(format!("{key}:push-error"), "adding a group failed: {x}");
                }
                want.extend(es);
            }
            Op::Methods(c) => {
                w.set_content_methods(c.methods());
                enc |= c.encrypted();
            }
        }
    }
    if let Err(x) = w.finish() {
        fail!(format!("{key}:finish-error"), "finish failed: {x}");
    }
    Ok((s.take(), want, enc))
}
fn check(key: &str, ch: &Ch, b: &[u8], want: &[Ent], enc: bool) -> R {
    match read_bytes(b, enc) {
        Ok((l, s)) => {
            ch.state(hash_result(&l, &s));
            compare(key, want, &l, &s)
        }
        Err(e) => fail!(format!("{key}:read-error"), "reading the archive back failed: {e}"),
    }
}
pub fn run(ctx: &Ctx) {
    let al = alphabet();
    let depth = ctx.b(3, 4);
    ctx.explore("histories", |ch| {
        let n = ch.choose(depth + 1);
        let enc_header = ch.flag();
        let mut ops = vec![];
        for _ in 0..n {
            ops.push(ch.pick(&al).clone());
        }
        ch.desc(|| format!("{enc_header} {:?}", ops.iter().map(|o| match o {
            Op::Push(e) => format!("push {}({:?})", e.name, e.data.as_ref().map(|d| d.len())),
            Op::Solid(v) => format!("solid{:?}", v.iter().map(|e| e.len()).collect::<Vec<_>>()),
            Op::Methods(c) => format!("{c:?}"),
        }).collect::<Vec<_>>()));
        let (b, want, enc) = run_history(&ops, Chain::Lzma2, enc_header, "hist", true)?;
        check("hist", ch, &b, &want, enc)
    });
    // contents x chains
    let mut contents: Vec<(String, Vec<u8>)> = vec![];
    let mut sizes = vec![0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 511, 512, 513, 4079, 4080, 4081, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 12289];
    if !ctx.quick() {
        sizes.extend([16383, 16384, 16385, 65535, 65536, 65537, 131071, 131072, 131073, 262143, 262144, 262145, 524288, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, 3 << 20]);
    } else {
        sizes.extend([65535, 65536, 65537, 131073, 300000]);
    }
    for &n in &sizes {
        contents.push((format!("noise{n}"), noise(n, n as u64)));
        contents.push((format!("text{n}"), text(n)));
        contents.push((format!("zeros{n}"), vec![0; n]));
        if n >= 4 {
            contents.push((format!("crc0-{n}"), crc0(&text(n - 4))));
        }
    }
    ctx.explore("contents-x-chains", |ch| {
        let c = *ch.pick(CHAINS);
        let (name, d) = ch.pick(&contents);
        let solid = ch.choose(3);
        let ops = match solid {
            0 => vec![Op::Push(Ent::file("a", d))],
            1 => vec![Op::Push(Ent::file("pre", b"previous")), Op::Push(Ent::file("a", d)), Op::Push(Ent::file("post", b"after"))],
            _ => vec![Op::Solid(vec![Ent::file("a", b"before"), Ent::file("b", d), Ent::file("c", d)])],
        };
        ch.desc(|| format!("{c:?} {name} layout {solid}"));
        let (b, want, enc) = run_history(&ops, c, true, "cont", true)?;
        check("cont", ch, &b, &want, enc)
    });
    // solid groups
    let sc = vec![b"".to_vec(), b"x".to_vec(), crc0(b"ab"), text(4096), noise(4097, 1)];
    let max = ctx.b(4, 5);
    ctx.explore("solid-vectors", |ch| {
        let n = 1 + ch.choose(max);
        let v: Vec<Ent> = (0..n).map(|i| Ent::file(&format!("s{i}"), ch.pick(&sc))).collect();
        ch.desc(|| format!("{:?}", v.iter().map(|e| e.len()).collect::<Vec<_>>()));
        let (b, want, enc) = run_history(&[Op::Solid(v), Op::Push(Ent::file("last", b"tail"))], Chain::Lzma2, true, "solid", true)?;
        check("solid", ch, &b, &want, enc)
    });
    // counts of entries across byte boundaries of the header bit vectors
    let maxn = ctx.b(20, 70);
    ctx.explore("entry-counts", |ch| {
        let files = ch.choose(maxn);
        let empties = *ch.pick(&[0usize, 1, 2, 7, 8, 9, 16, 17]);
        let dirs = *ch.pick(&[0usize, 1, 7, 8, 9]);
        let solid = ch.flag();
        let mut ops = vec![];
        for i in 0..empties {
            ops.push(Op::Push(Ent::none(&format!("e{i}-"))));
        }
        let v: Vec<Ent> = (0..files).map(|i| Ent::file(&format!("f{i}-"), &text(i + 1))).collect();
        if solid && !v.is_empty() {
            ops.push(Op::Solid(v));
        } else {
            for e in v {
                ops.push(Op::Push(e));
            }
        }
        for i in 0..dirs {
            ops.push(Op::Push(Ent::dir(&format!("d{i}-"))));
        }
        ch.desc(|| format!("{empties} empty, {files} files (solid {solid}), {dirs} dirs"));
        let (b, want, enc) = run_history(&ops, Chain::Lzma2, true, "counts", true)?;
        check("counts", ch, &b, &want, enc)
    });
    // contents beyond 4 GiB
    if !ctx.quick() {
        ctx.horizon(200);
        ctx.explore("beyond-4GiB", |ch| {
            let c = *ch.pick(&[Chain::Aes, Chain::Lzma, Chain::AesLzma2][..]);
            let solid = ch.flag();
            let n = crate::huge::GIB4 + 100_003;
            ch.desc(|| format!("{n} bytes through {c:?}, solid {solid}"));
            crate::huge::archive(ch, c, n, solid)
        });
    }
}
