//! C18: extraction stays inside the destination directory.
use crate::arch::{password, PW};
use crate::boxed;
use crate::explore::Ch;
use crate::gen::*;
use crate::io::{read_portions, Src};
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::*;
use std::collections::BTreeMap;
use std::io::Cursor;
use std::path::{Path, PathBuf};

/// What a name means, by the rules of the file system, without looking at it.
#[derive(Clone, Debug, PartialEq)]
enum Meaning {
    /// leads out of the destination at some point
    Outside,
    /// an ordinary relative name: exactly that path
    Exactly(Vec<String>),
    /// stays inside, written in a roundabout way: refused, or exactly that path
    Inside(Vec<String>),
}
fn meaning(name: &str) -> Meaning {
    if name.starts_with('/') {
        return Meaning::Outside;
    }
    let parts: Vec<&str> = name.strip_suffix('/').unwrap_or(name).split('/').collect();
    let mut at: Vec<String> = vec![];
    let mut plain = true;
    for p in &parts {
        match *p {
            "" | "." => plain = false,
            ".." => {
                plain = false;
                if at.pop().is_none() {
                    return Meaning::Outside;
                }
            }
            p => at.push(p.to_string()),
        }
    }
    if plain {
        Meaning::Exactly(at)
    } else {
        Meaning::Inside(at)
    }
}
fn below(dest: &Path, at: &[String]) -> PathBuf {
    let mut p = dest.to_path_buf();
    for a in at {
        p.push(a);
    }
    p
}
/// The path written without any step backwards.
fn lexical(p: &Path) -> Option<PathBuf> {
    use std::path::Component::*;
    let mut o = PathBuf::new();
    for c in p.components() {
        match c {
            ParentDir => {
                if !o.pop() {
                    return None;
                }
            }
            CurDir => {}
            c => o.push(c),
        }
    }
    Some(o)
}
/// An archive of the bad entry among good ones.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    File,
    Empty,
    Dir,
    Anti,
    AntiDir,
}
const KINDS: &[Kind] = &[Kind::File, Kind::Dir, Kind::Empty, Kind::Anti, Kind::AntiDir];
const GOOD: &[(&str, &[u8])] = &[("good 1", b"first"), ("sub/good 2", b"second, longer")];

/// `pos`: 0 the name comes first, 1 between, 2 last; `two`: in a block of its own
fn archive(name: &str, kind: Kind, pos: usize, chain: &'static [C7]) -> Built {
    let mut files: Vec<(String, Option<Vec<u8>>, Slot)> =
        GOOD.iter().map(|(n, d)| (n.to_string(), Some(d.to_vec()), Slot::Stream)).collect();
    let e = match kind {
        Kind::File => (name.to_string(), Some(b"contents".to_vec()), Slot::Stream),
        Kind::Empty => (name.to_string(), None, Slot::EmptyFile),
        Kind::Dir => (name.to_string(), None, Slot::Dir),
        Kind::Anti => (name.to_string(), None, Slot::Anti),
        Kind::AntiDir => (name.to_string(), None, Slot::AntiDir),
    };
    files.insert(pos, e);
    let streams: Vec<Vec<u8>> = files.iter().filter_map(|f| f.1.clone()).collect();
    let mut s = Spec::new(vec![folder(chain, streams)], files.iter().map(|f| f.2).collect());
    s.names = Some(files.iter().map(|f| f.0.clone()).collect());
    assemble(&s)
}
/// Names that are recorded only: nothing of them touches the disk.
fn recorded(ch: &Ch, name: &str, kind: Kind, pos: usize, entry: usize) -> R {
    let enc = entry == 1;
    let b = archive(name, kind, pos, if enc { &[C7::Aes] } else { &[C7::Copy] });
    ch.desc(|| format!("{name:?} {kind:?} position {pos} entry point {entry}"));
    let root = boxed::scratch();
    let dest = root.join("w");
    let mut seen: Vec<(String, PathBuf, Vec<u8>, bool)> = vec![];
    let mut f = |e: &SevenZArchiveEntry, rd: &mut dyn std::io::Read, p: &PathBuf| -> Result<bool, Error> {
        let d = read_portions(rd, 64, 4096)?;
        seen.push((e.name.clone(), p.clone(), d, e.is_directory));
        Ok(true)
    };
    let res = match entry {
        0 => decompress_with_extract_fn(Cursor::new(&b.bytes), &dest, &mut f),
        1 => decompress_with_extract_fn_and_password(Src::new(&b.bytes), &dest, password(true), &mut f),
        _ => {
            let p = boxed::fresh("r").with_extension("7z");
            std::fs::write(&p, &b.bytes).expect("scratch file");
            let r = decompress_file_with_extract_fn(&p, &dest, &mut f);
            let _ = std::fs::remove_file(&p);
            let _ = std::fs::remove_dir(p.with_extension(""));
            r
        }
    };
    ch.state(fnv(format!("{res:?}{:?}", seen.iter().map(|s| s.1.strip_prefix(&root).map(|p| p.to_path_buf())).collect::<Vec<_>>()).as_bytes()));
    let m = meaning(name);
    for (n, p, d, _) in &seen {
        let lex = lexical(p);
        ensure!(
            lex.as_ref().map(|l| l.starts_with(&dest)).unwrap_or(false),
            "escape",
            "the entry {n:?} is to be extracted at {p:?}, outside {dest:?}"
        );
        if n == name {
            let want = match &m {
                Meaning::Outside => fail!("escape:called", "{n:?} leads out of the destination, but is extracted at {p:?}"),
                Meaning::Exactly(at) | Meaning::Inside(at) => below(&dest, at),
            };
            ensure!(lex.as_ref() == Some(&want), "where", "{n:?} is extracted at {p:?} instead of {want:?}");
            let w: &[u8] = if kind == Kind::File { b"contents" } else { b"" };
            ensure!(d == w, "contents", "{n:?}: contents differ");
        } else {
            let (g, w) = GOOD.iter().find(|g| g.0 == n).expect("entry");
            ensure!(*p == dest.join(g), "where:good", "{g:?} is extracted at {p:?}");
            ensure!(d == w, "contents:good", "{g:?}: contents differ");
        }
    }
    match (&res, &m) {
        (Ok(()), Meaning::Outside) => fail!("accepted", "{name:?} leads out of the destination and no error is reported"),
        (Err(e), Meaning::Exactly(_)) => fail!("refused", "the ordinary name {name:?} is refused: {e}"),
        (Ok(()), _) => {
            ensure!(seen.len() == 1 + GOOD.len(), "missing", "{} of {} entries were extracted", seen.len(), 1 + GOOD.len());
        }
        _ => {}
    }
    Ok(())
}
#[derive(Clone, Debug, PartialEq)]
enum Node {
    Dir,
    File(Vec<u8>),
    Other,
}
fn snapshot(at: &Path) -> BTreeMap<PathBuf, Node> {
    fn walk(base: &Path, p: &Path, m: &mut BTreeMap<PathBuf, Node>) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let q = e.path();
            let t = e.file_type().expect("file type");
            let n = if t.is_dir() {
                Node::Dir
            } else if t.is_file() {
                Node::File(std::fs::read(&q).expect("file"))
            } else {
                Node::Other
            };
            let d = n == Node::Dir;
            m.insert(q.strip_prefix(base).unwrap().to_path_buf(), n);
            if d {
                walk(base, &q, m);
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(at, at, &mut m);
    m
}
/// Extraction for real; every name leads at most to the directory of this execution.
fn extracted(ch: &Ch, name: &dyn Fn(&Path) -> String, kind: Kind, pos: usize, entry: usize, form: usize) -> R {
    let base = boxed::fresh("x");
    let r = (|| -> R {
        // six levels, so that no name explored reaches further up than `base`
        let deep: PathBuf = ["1", "2", "3", "4", "5", "6"].iter().collect();
        let inner = base.join(&deep);
        std::fs::create_dir_all(&inner).expect("scratch");
        std::fs::write(base.join("a"), b"outside").expect("scratch");
        std::fs::write(inner.join("a"), b"neighbour").expect("scratch");
        std::fs::create_dir(inner.join("b.txt")).expect("scratch");
        let rel = inner.join("dest");
        let dest = match form {
            0 | 1 => rel.clone(),
            // through a step back
            2 => inner.join("../6/dest"),
            // relative to the directory of the process, with a slash at the end
            _ => PathBuf::from(format!("{}/", rel.strip_prefix(std::env::current_dir().expect("cwd")).expect("below").display())),
        };
        if form == 1 {
            std::fs::create_dir_all(rel.join("b.txt")).expect("scratch");
            std::fs::write(rel.join("c"), b"old").expect("scratch");
        }
        let name = name(&base);
        let enc = entry >= 2;
        let b = archive(&name, kind, pos, if enc { &[C7::Aes] } else { &[C7::Copy] });
        let shown = name.replace(&*base.to_string_lossy(), "<base>");
        ch.desc(|| format!("{shown:?} {kind:?} position {pos} entry point {entry} destination form {form}"));
        let file = base.join("archive.7z");
        if entry % 2 == 1 {
            std::fs::write(&file, &b.bytes).expect("scratch");
        }
        let before = snapshot(&base);
        let res = match entry {
            0 => decompress(Cursor::new(&b.bytes), &dest),
            1 => decompress_file(&file, &dest),
            2 => decompress_with_password(Cursor::new(&b.bytes), &dest, PW.into()),
            _ => decompress_file_with_password(&file, &dest, PW.into()),
        };
        let after = snapshot(&base);
        let inside = deep.join("dest");
        for (p, n) in &before {
            if !p.starts_with(&inside) {
                ensure!(after.get(p) == Some(n), "written", "extracting {shown:?} changed {p:?}, outside the destination");
            }
        }
        for p in after.keys() {
            if !p.starts_with(&inside) {
                ensure!(before.contains_key(p), "created", "extracting {shown:?} created {p:?}, outside the destination");
            }
        }
        ch.state(fnv(format!("{:?}{:?}", res.is_ok(), after.keys().collect::<Vec<_>>()).as_bytes()));
        let m = meaning(&name);
        let node = |at: &[String]| after.get(&below(&inside, at)).cloned().or(if at.is_empty() { Some(Node::Dir) } else { None });
        match &m {
            Meaning::Outside => ensure!(res.is_err(), "accepted", "{shown:?} leads out of the destination and no error is reported"),
            Meaning::Exactly(at) | Meaning::Inside(at) => {
                let exactly = matches!(m, Meaning::Exactly(_));
                // what is there already may be in the way
                let blocked = kind != Kind::Dir && kind != Kind::AntiDir && (before.get(&below(&inside, at)) == Some(&Node::Dir) || at.is_empty())
                    || (1..=at.len()).any(|k| matches!(before.get(&below(&inside, &at[..k])), Some(Node::File(_))) && (k < at.len() || matches!(kind, Kind::Dir | Kind::AntiDir)))
                    || name.ends_with('/') && !matches!(kind, Kind::Dir | Kind::AntiDir);
                match &res {
                    Err(e) => ensure!(!exactly || blocked, "refused", "the ordinary name {shown:?} is refused: {e}"),
                    Ok(()) => {
                        let want = match kind {
                            Kind::File => Some(Node::File(b"contents".to_vec())),
                            Kind::Empty => Some(Node::File(vec![])),
                            Kind::Dir => Some(Node::Dir),
                            _ => None,
                        };
                        if want.is_some() && !blocked {
                            ensure!(node(at) == want, "result", "{shown:?} was not extracted at its path: {:?} there", node(at));
                        }
                        for (g, w) in GOOD {
                            ensure!(after.get(&inside.join(g)) == Some(&Node::File(w.to_vec())), "result:good", "{g:?} was not extracted");
                        }
                    }
                }
            }
        }
        Ok(())
    })();
    boxed::discard(&base);
    r
}
const WORDS: &[&str] = &["..", "a", ".", "", "b.txt", "...", "..a", "a..", " ", "..\\", "\\", "C:", "~", "\u{2025}", ".. ", " ..", "%2e%2e", "\u{ff0e}\u{ff0e}"];
const CORE: &[&str] = &["..", "a", "", ".", "b.txt"];

fn joined(ch: &Ch, words: &[&str], max: usize) -> String {
    let n = 1 + ch.choose(max);
    let mut parts = vec![];
    for _ in 0..n {
        parts.push(*ch.pick(words));
    }
    let lead = ["", "/", "./", "//"][ch.choose(4)];
    let trail = ["", "/"][ch.choose(2)];
    format!("{lead}{}{trail}", parts.join("/"))
}
pub fn run(ctx: &Ctx) {
    ctx.assume("the destination directory and what is in it before contain no symbolic links; extraction creates none");
    ctx.assume("destinations are judged lexically, by the rules of Unix paths");
    let n = ctx.b(4, 5);
    ctx.explore("recorded", |ch| {
        let name = joined(ch, WORDS, n);
        let kind = *ch.pick(&KINDS[..2]);
        let entry = ch.choose(2);
        recorded(ch, &name, kind, 1, entry)
    });
    let n = ctx.b(7, 9);
    ctx.explore("recorded-deep", |ch| {
        let name = joined(ch, CORE, n);
        let kind = *ch.pick(&KINDS[..2]);
        recorded(ch, &name, kind, 1, 0)
    });
    ctx.explore("recorded-kinds", |ch| {
        let name = joined(ch, CORE, 2);
        let kind = *ch.pick(KINDS);
        let pos = ch.choose(3);
        let entry = ch.choose(3);
        recorded(ch, &name, kind, pos, entry)
    });
    // long runs of steps down and up again
    let n = ctx.b(7, 9);
    ctx.explore("up-and-down", |ch| {
        let k = 1 + ch.choose(n);
        let mut parts = vec![];
        for i in 0..k {
            let down = ch.choose(3);
            let up = ch.choose(if i + 1 == k { 4 } else { 2 });
            for j in 0..down {
                parts.push(["d", "e.txt"][j]);
            }
            for _ in 0..up {
                parts.push("..");
            }
        }
        if parts.is_empty() || parts.len() > 12 {
            return Ok(());
        }
        recorded(ch, &parts.join("/"), Kind::File, 1, 0)
    });
    let n = ctx.b(4, 4);
    ctx.explore("extracted", |ch| {
        let words = &CORE[..4];
        let k = 1 + ch.choose(n);
        let mut parts = vec![];
        for _ in 0..k {
            parts.push(*ch.pick(words));
        }
        // an absolute name leads to a place below the directory of this execution
        let lead = ch.choose(3);
        let trail = ["", "/"][ch.choose(2)];
        let kind = *ch.pick(&KINDS[..3]);
        let rest = format!("{}{trail}", parts.join("/"));
        let f = |base: &Path| match lead {
            // never an absolute path of the real file system
            0 if rest.starts_with('/') => format!("{}/1/2/3/4/5{rest}", base.display()),
            0 => rest.clone(),
            // steps back from there still end below the scratch directory: four of six levels
            1 => format!("{}/1/2/3/4/5/{rest}", base.display()),
            _ => format!("/{}/1/2/3/4/5/{rest}", base.display()),
        };
        extracted(ch, &f, kind, 1, 0, 0)
    });
    ctx.explore("extracted-ways", |ch| {
        const NAMES: &[&str] = &["c", "../a", "../../x/y", "d/e/f", "d/../../b.txt/z", "..", ".", "b.txt", "c/d", "<abs>", "../dest/c", "../dest2", "d/", " ..", "..\\a"];
        let n = *ch.pick(NAMES);
        let kind = *ch.pick(&KINDS[..3]);
        let pos = ch.choose(3);
        let entry = ch.choose(4);
        let form = ch.choose(4);
        let f = |base: &Path| if n == "<abs>" { format!("{}/abs", base.display()) } else { n.to_string() };
        extracted(ch, &f, kind, pos, entry, form)
    });
    // whatever times are stored, the files come out at their paths
    ctx.explore("times", |ch| {
        const T: &[Option<u64>] = &[None, Some(0), Some(1), Some(116444736000000000), Some(116444735999999999), Some(i64::MAX as u64), Some(1 << 63), Some(u64::MAX)];
        let base = boxed::fresh("t");
        let m = *ch.pick(T);
        let a = *ch.pick(T);
        let c = *ch.pick(T);
        let kind = ch.choose(3);
        ch.desc(|| format!("times {m:?} {a:?} {c:?} kind {kind}"));
        let r = (|| -> R {
            let mut w = SevenZWriter::new(Cursor::new(vec![])).expect("writer");
            let mut e = SevenZArchiveEntry::default();
            e.name = "d/f".into();
            for (v, has, d) in [
                (m, &mut e.has_last_modified_date, &mut e.last_modified_date),
                (a, &mut e.has_access_date, &mut e.access_date),
                (c, &mut e.has_creation_date, &mut e.creation_date),
            ] {
                *has = v.is_some();
                *d = v.unwrap_or(0).into();
            }
            e.is_directory = kind == 2;
            let data: Option<&[u8]> = [Some(&b"data"[..]), Some(&b""[..]), None][kind];
            w.push_archive_entry(e, data).expect("push");
            let b = w.finish().expect("finish").into_inner();
            let res = decompress(Cursor::new(&b), base.join("dest"));
            if let Err(e) = res {
                fail!("times:error", "extraction failed: {e}");
            }
            let got = snapshot(&base.join("dest"));
            let want = if kind == 2 { Node::Dir } else { Node::File(data.unwrap().to_vec()) };
            ensure!(got.get(Path::new("d/f")) == Some(&want), "times:result", "extracted: {got:?}");
            ch.state(fnv(format!("{got:?}").as_bytes()));
            Ok(())
        })();
        boxed::discard(&base);
        r
    });
}
