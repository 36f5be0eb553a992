//! C19: compressing a tree and extracting it restores the tree.
use crate::arch::{noise, text, PW};
use crate::boxed;
use crate::explore::Ch;
use crate::util::*;
use crate::{ensure, fail};
use sevenz_rust::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fs::File;
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// A path of the tree: a directory, or a file with that many bytes.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Item {
    Dir(&'static str),
    File(&'static str, usize),
}
use Item::*;
impl Item {
    fn path(&self) -> &'static str {
        match self {
            Dir(p) | File(p, _) => p,
        }
    }
}
fn bytes(name: &str, n: usize) -> Vec<u8> {
    if n % 3 == 0 {
        text(n + 3)[..n].to_vec()
    } else {
        noise(n, fnv(name.as_bytes()))
    }
}
/// Modification times in 100 ns steps before and after the Unix epoch, and the kinds of
/// precision files have.
const TIMES: &[(i64, u32)] = &[(1_600_000_000, 0), (315_532_800, 500), (4_102_444_800, 999_999_900), (0, 0), (-86_400, 0), (1_234_567_890, 123_456_789), (1, 1)];
fn instant(t: (i64, u32)) -> SystemTime {
    if t.0 >= 0 {
        UNIX_EPOCH + Duration::new(t.0 as u64, t.1)
    } else {
        UNIX_EPOCH - Duration::new((-t.0) as u64, 0) + Duration::new(0, t.1)
    }
}
/// In the units of the format.
fn ticks(t: SystemTime) -> i128 {
    let (s, n) = match t.duration_since(UNIX_EPOCH) {
        Ok(d) => (d.as_secs() as i128, d.subsec_nanos() as i128),
        Err(e) => {
            let d = e.duration();
            (-(d.as_secs() as i128), -(d.subsec_nanos() as i128))
        }
    };
    (s * 1_000_000_000 + n).div_euclid(100)
}
#[derive(Clone, Debug, PartialEq)]
enum Node {
    Dir,
    File(Vec<u8>, i128),
    Other,
}
type Tree = BTreeMap<PathBuf, Node>;
fn snapshot(at: &Path) -> Tree {
    fn walk(base: &Path, p: &Path, m: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let q = e.path();
            let t = e.file_type().expect("file type");
            let n = if t.is_dir() {
                Node::Dir
            } else if t.is_file() {
                let m = e.metadata().expect("metadata").modified().expect("time");
                Node::File(std::fs::read(&q).expect("file"), ticks(m))
            } else {
                Node::Other
            };
            let d = n == Node::Dir;
            m.insert(q.strip_prefix(base).unwrap().to_path_buf(), n);
            if d {
                walk(base, &q, m);
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(at, at, &mut m);
    m
}
fn plant(at: &Path, items: &[Item], shift: usize) {
    std::fs::create_dir_all(at).expect("scratch");
    for (i, it) in items.iter().enumerate() {
        let p = at.join(it.path());
        match it {
            Dir(_) => std::fs::create_dir_all(&p).expect("scratch"),
            File(n, len) => {
                std::fs::create_dir_all(p.parent().unwrap()).expect("scratch");
                std::fs::write(&p, bytes(n, *len)).expect("scratch");
                let f = File::options().write(true).open(&p).expect("scratch");
                let t = instant(TIMES[(i + shift) % TIMES.len()]);
                f.set_times(std::fs::FileTimes::new().set_modified(t).set_accessed(instant(TIMES[(i + shift + 1) % TIMES.len()]))).expect("times");
            }
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Helper {
    Compress,
    ToPath,
    Encrypted,
    /// with an empty password
    EncryptedEmpty,
    ToPathEncrypted,
    Solid,
    NonSolid,
}
const HELPERS: &[Helper] = &[Helper::Compress, Helper::Solid, Helper::NonSolid, Helper::ToPath, Helper::Encrypted, Helper::ToPathEncrypted, Helper::EncryptedEmpty];
impl Helper {
    fn keeps_dirs(&self) -> bool {
        !matches!(self, Helper::Solid | Helper::NonSolid)
    }
    fn password(&self) -> bool {
        matches!(self, Helper::Encrypted | Helper::ToPathEncrypted)
    }
}
/// The archive of `src`, as bytes.
fn make(h: Helper, src: &Path, base: &Path, filter: &dyn Fn(&Path) -> bool) -> Result<Vec<u8>, Error> {
    let path = base.join("made").join("archive.7z");
    let done = |c: Cursor<Vec<u8>>| c.into_inner();
    let empty = || Cursor::new(vec![]);
    Ok(match h {
        Helper::Compress => done(compress(src, empty())?),
        Helper::Encrypted => done(compress_encypted(src, empty(), PW.into())?),
        Helper::EncryptedEmpty => done(compress_encypted(src, empty(), Password::empty())?),
        Helper::ToPath => {
            compress_to_path(src, &path)?;
            std::fs::read(&path).map_err(Error::from)?
        }
        Helper::ToPathEncrypted => {
            compress_to_path_encrypted(src, &path, PW.into())?;
            std::fs::read(&path).map_err(Error::from)?
        }
        Helper::Solid => {
            let mut w = SevenZWriter::new(empty())?;
            w.push_source_path(src, filter)?;
            done(w.finish().map_err(Error::from)?)
        }
        Helper::NonSolid => {
            let mut w = SevenZWriter::new(empty())?;
            w.push_source_path_non_solid(src, filter)?;
            done(w.finish().map_err(Error::from)?)
        }
    })
}
fn extract(way: usize, b: &[u8], pw: bool, base: &Path, dest: &Path) -> Result<(), Error> {
    let file = base.join("to-extract.7z");
    if way % 2 == 1 {
        std::fs::write(&file, b).expect("scratch");
    }
    match (way, pw) {
        (0, false) => decompress(Cursor::new(b), dest),
        (1, false) => decompress_file(&file, dest),
        (0, true) => decompress_with_password(Cursor::new(b), dest, PW.into()),
        _ => decompress_file_with_password(&file, dest, PW.into()),
    }
}
/// What extraction must bring back of `tree`: everything (with directories), or the stored
/// files and the directories above them.
fn expected(tree: &Tree, dirs: bool, stored: &dyn Fn(&Path) -> bool) -> Tree {
    let mut w = Tree::new();
    for (p, n) in tree {
        match n {
            Node::Dir if dirs => {
                w.insert(p.clone(), Node::Dir);
            }
            Node::File(..) if stored(p) => {
                for a in p.ancestors().skip(1) {
                    if !a.as_os_str().is_empty() {
                        w.insert(a.to_path_buf(), Node::Dir);
                    }
                }
                w.insert(p.clone(), n.clone());
            }
            _ => {}
        }
    }
    w
}
fn short(n: Option<&Node>) -> String {
    match n {
        None => "nothing".into(),
        Some(Node::Dir) => "a directory".into(),
        Some(Node::File(d, t)) => format!("a file of {} bytes (hash {:x}), modified {t}", d.len(), fnv(d)),
        Some(Node::Other) => "something else".into(),
    }
}
fn same(key: &str, want: &Tree, got: &Tree) -> R {
    let names: BTreeSet<&PathBuf> = want.keys().chain(got.keys()).collect();
    for p in names {
        let (w, g) = (want.get(p), got.get(p));
        if w == g {
            continue;
        }
        let what = match (w, g) {
            (None, _) => "extra",
            (_, None) => "missing",
            (Some(Node::File(a, _)), Some(Node::File(b, _))) if a == b => "time",
            _ => "contents",
        };
        fail!(format!("{key}:{what}"), "{p:?}: {} was compressed, {} came back", short(w), short(g));
    }
    Ok(())
}
/// No entry twice, whatever extraction does with repetitions.
fn listed_once(key: &str, b: &[u8], pw: bool) -> R {
    let r = match SevenZReader::new(Cursor::new(b), b.len() as u64, crate::arch::password(pw)) {
        Ok(r) => r,
        Err(e) => fail!(format!("{key}:open"), "the archive cannot be opened: {e}"),
    };
    let mut s = BTreeSet::new();
    for f in &r.archive().files {
        ensure!(s.insert(f.name.clone()), format!("{key}:twice"), "{:?} is stored twice", f.name);
    }
    Ok(())
}
fn hashed(t: &Tree) -> u64 {
    fnv(format!("{:?}", t.iter().map(|(p, n)| (p, short(Some(n)))).collect::<Vec<_>>()).as_bytes())
}
struct Case<'a> {
    key: &'a str,
    helper: Helper,
    way: usize,
    /// paths below the source that the filter refuses
    refused: &'a dyn Fn(&Path) -> bool,
}
fn round(ch: &Ch, c: &Case, items: &[Item], shift: usize) -> R {
    let base = boxed::fresh("c");
    let r = (|| -> R {
        let src = base.join("source");
        plant(&src, items, shift);
        let tree = snapshot(&src);
        let asked = std::cell::RefCell::new(BTreeSet::new());
        let filter = |p: &Path| {
            let rel = p.strip_prefix(&src).unwrap_or(p).to_path_buf();
            let ok = !(c.refused)(&rel);
            asked.borrow_mut().insert(rel);
            ok
        };
        let b = match make(c.helper, &src, &base, &filter) {
            Ok(b) => b,
            Err(e) => fail!(format!("{}:compress", c.key), "compressing failed: {e}"),
        };
        listed_once(c.key, &b, c.helper.password())?;
        let dest = base.join("dest");
        if let Err(e) = extract(c.way, &b, c.helper.password(), &base, &dest) {
            fail!(format!("{}:extract", c.key), "extracting failed: {e}");
        }
        let got = snapshot(&dest);
        ch.state(hashed(&got));
        let filtered = !c.helper.keeps_dirs();
        let want = expected(&tree, !filtered, &|p| !filtered || !p.ancestors().any(|a| (c.refused)(a)));
        same(c.key, &want, &got)?;
        ensure!(snapshot(&src) == tree, format!("{}:source", c.key), "the source tree was changed");
        Ok(())
    })();
    boxed::discard(&base);
    r
}
const ALL: &[Item] = &[
    File("a.txt", 5),
    File("empty", 0),
    Dir("void"),
    File("d/x.bin", 5000),
    File("d/e/\u{fc} n\u{4e2d}.txt", 60),
    Dir("d/e/none"),
    File(".hidden", 1),
    File("big", 9000),
    File("d/zero", 0),
];
pub fn run(ctx: &Ctx) {
    ctx.assume("the trees consist of directories and regular files with names that are valid UTF-8; links and sockets among them are only asked not to disturb the rest; pipes and devices are not part of them");
    ctx.assume("modification times are compared in steps of 100 ns, the unit of the format, for files");
    ctx.note("block size limit of the solid helper", "8 KiB instead of 4 GiB (hook under cfg sevenz_verif), so that trees of a few files need several blocks");
    let none = |_: &Path| false;
    // every part of one tree
    ctx.explore("trees", |ch| {
        let mut items = vec![];
        for it in &ALL[..ctx.b(8, 9)] {
            if ch.flag() {
                items.push(*it);
            }
        }
        let helper = *ch.pick(&HELPERS[..ctx.b(5, 7)]);
        let way = if ctx.quick() { items.len() % 2 } else { ch.choose(2) };
        ch.desc(|| format!("{:?} {helper:?} way {way}", items.iter().map(|i| i.path()).collect::<Vec<_>>()));
        round(ch, &Case { key: "trees", helper, way, refused: &none }, &items, items.len())
    });
    // every modification time on every kind of file, by every helper
    ctx.explore("times", |ch| {
        let shift = ch.choose(TIMES.len());
        let helper = *ch.pick(HELPERS);
        let way = ch.choose(2);
        let items = *ch.pick(&[ALL, &ALL[..1], &ALL[1..2], &ALL[3..4], &ALL[7..8]]);
        ch.desc(|| format!("{} items, times from {shift}, {helper:?} way {way}", items.len()));
        round(ch, &Case { key: "times", helper, way, refused: &none }, items, shift)
    });
    // every filter: any set of paths, directories included, is refused
    ctx.explore("filters", |ch| {
        const T: &[Item] = &[File("a", 3), File("b", 0), File("d/a", 40), File("d/e/c", 7), File("f/a", 5000), Dir("d/g")];
        const PATHS: &[&str] = &["", "a", "b", "d", "d/a", "d/e", "d/e/c", "f", "f/a", "d/g"];
        let helper = *ch.pick(&[Helper::Solid, Helper::NonSolid]);
        let mut refused = BTreeSet::new();
        for p in PATHS {
            if ch.flag() {
                refused.insert(PathBuf::from(p));
            }
        }
        let f = |p: &Path| refused.contains(p);
        ch.desc(|| format!("refused {refused:?} {helper:?}"));
        round(ch, &Case { key: "filters", helper, way: 0, refused: &f }, T, 0)
    });
    // sizes around the limit of a block, in every order of names
    let n = ctx.b(4, 5);
    ctx.explore("blocks", |ch| {
        const SIZES: &[usize] = &[0, 1, 4095, 4096, 8191, 8192, 8193];
        const NAMES: &[&str] = &["1", "2", "3", "4", "5"];
        let m = 1 + ch.choose(n);
        let items: Vec<Item> = (0..m).map(|i| File(NAMES[i], *ch.pick(SIZES))).collect();
        let helper = if m <= 3 { *ch.pick(&[Helper::Solid, Helper::NonSolid]) } else { Helper::Solid };
        ch.desc(|| format!("{items:?} {helper:?}"));
        round(ch, &Case { key: "blocks", helper, way: 0, refused: &none }, &items, 0)
    });
    // many files and directories, deep paths, long names
    ctx.explore("wide", |ch| {
        static NAMES: &[&str] = &[
            "f00", "f01", "f02", "f03", "f04", "f05", "f06", "f07", "f08", "f09", "f10", "f11", "f12", "f13", "f14", "f15", "f16", "f17", "f18", "f19",
        ];
        let n = ch.choose(21);
        let kinds = ch.choose(4);
        let items: Vec<Item> = (0..n)
            .map(|i| match (kinds, i % 3) {
                (1, 1) | (2, 0) => File(NAMES[i], 0),
                (3, 2) => Dir(NAMES[i]),
                _ => File(NAMES[i], 10 + i * 30),
            })
            .collect();
        let helper = *ch.pick(HELPERS);
        ch.desc(|| format!("{n} items, kinds {kinds}, {helper:?}"));
        round(ch, &Case { key: "wide", helper, way: n % 2, refused: &none }, &items, kinds)
    });
    ctx.explore("names", |ch| {
        const LONG: &str = "llllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllllll";
        const N: &[&str] = &[
            "plain", " ", " lead", "trail ", "tab\there", "new\nline", "back\\slash", "..dots", "dots..", "...", "~", "-", "a:b", "*", "\u{1F600}", "e\u{301}", "\u{e9}", "\u{ffff}", "\u{202e}x", LONG,
            "1/2/3/4/5/6/7/8/9/10/11/12/deep", "%41", "name.7z",
        ];
        let a = *ch.pick(N);
        let b = *ch.pick(N);
        let helper = *ch.pick(&HELPERS[..3]);
        // as files, or one of them as a directory with a file in it
        let form = ch.choose(2);
        ch.desc(|| format!("{a:?} {b:?} form {form} {helper:?}"));
        let mut items = vec![];
        if form == 0 {
            items.push(File(a, 4));
            if a != b {
                items.push(File(b, 0));
            }
        } else {
            items.push(Dir(a));
            if a != b {
                items.push(File(b, 7));
            }
        }
        round(ch, &Case { key: "names", helper, way: 0, refused: &none }, &items, 1)
    });
    // the source is a single file
    ctx.explore("single", |ch| {
        const F: &[Item] = &[File("a.txt", 5), File("empty", 0), File("d/x.bin", 5000), File("d/e/\u{fc} n.txt", 8192), File("..x", 3)];
        let it = *ch.pick(F);
        let helper = *ch.pick(HELPERS);
        let way = ch.choose(2);
        let shift = ch.choose(TIMES.len());
        ch.desc(|| format!("{it:?} {helper:?} way {way} time {shift}"));
        let base = boxed::fresh("s");
        let r = (|| -> R {
            let src = base.join("source");
            plant(&src, &[it, File("other", 4)], shift);
            let tree = snapshot(&src);
            let path = Path::new(it.path());
            let b = match make(helper, &src.join(path), &base, &|_| true) {
                Ok(b) => b,
                Err(e) => fail!("single:compress", "compressing failed: {e}"),
            };
            listed_once("single", &b, helper.password())?;
            let dest = base.join("dest");
            if let Err(e) = extract(way, &b, helper.password(), &base, &dest) {
                fail!("single:extract", "extracting failed: {e}");
            }
            let got = snapshot(&dest);
            ch.state(hashed(&got));
            let mut want = Tree::new();
            want.insert(PathBuf::from(path.file_name().unwrap()), tree[path].clone());
            same("single", &want, &got)
        })();
        boxed::discard(&base);
        r
    });
    // links and sockets among the files do not keep the others from coming back
    ctx.explore("links", |ch| {
        const T: &[Item] = &[File("a", 3), File("d/b", 500), File("d/e/c", 9000), Dir("d/g"), File("z", 0)];
        // place and target of each
        const L: &[(&str, &str)] = &[
            ("l", "a"), ("d/l", ".."), ("d/e/l", "../.."), ("m", "d/e"), ("d/m", "nowhere"), ("self", "self"), ("d/g/up", "../../z"), ("out", "../elsewhere"), ("d/e/out", "../../../elsewhere/f"), ("0", "/"),
        ];
        let helper = *ch.pick(HELPERS);
        let by_link = ch.flag();
        let first = ch.choose(L.len() + 2);
        let second = first + 1 + ch.choose(L.len() + 2 - first);
        ch.desc(|| format!("links {:?} {:?}, {helper:?}, source by link {by_link}", L.get(first), L.get(second)));
        let base = boxed::fresh("l");
        let r = (|| -> R {
            let src = base.join("source");
            plant(&src, T, 1);
            plant(&base.join("elsewhere"), &[File("f", 7), File("g/h", 8)], 2);
            let tree = snapshot(&src);
            let mut odd: Vec<PathBuf> = vec![];
            for i in [first, second] {
                match L.get(i) {
                    // the root of a scratch directory stands for that of the file system
                    Some((at, to)) => {
                        let to = if *to == "/" { base.join("elsewhere") } else { PathBuf::from(to) };
                        std::os::unix::fs::symlink(to, src.join(at)).expect("scratch");
                        odd.push(at.into());
                    }
                    None if i == L.len() => {
                        drop(std::os::unix::net::UnixListener::bind(src.join("d/socket")).expect("scratch"));
                        odd.push("d/socket".into());
                    }
                    None => {}
                }
            }
            let mut from = src.clone();
            if by_link {
                from = base.join("linked");
                std::os::unix::fs::symlink(&src, &from).expect("scratch");
            }
            let b = match make(helper, &from, &base, &|_| true) {
                Ok(b) => b,
                Err(e) => fail!("links:compress", "compressing failed: {e}"),
            };
            listed_once("links", &b, helper.password())?;
            let dest = base.join("dest");
            if let Err(e) = extract(0, &b, helper.password(), &base, &dest) {
                fail!("links:extract", "extracting failed: {e}");
            }
            let mut got = snapshot(&dest);
            ch.state(hashed(&got));
            // whether the links themselves are stored, and as what, is left open
            got.retain(|p, _| !odd.iter().any(|o| p.starts_with(o)));
            same("links", &expected(&tree, helper.keeps_dirs(), &|_| true), &got)
        })();
        boxed::discard(&base);
        r
    });
    // what cannot be read is not left out silently
    ctx.explore("unreadable", |ch| {
        use std::os::unix::fs::PermissionsExt;
        const T: &[Item] = &[File("a", 3), File("d/b", 500), File("d/e/c", 9000), Dir("d/g"), File("z", 0)];
        const P: &[&str] = &["a", "d/b", "d/e/c", "z", "d/g", "d/e", "d"];
        let helper = *ch.pick(HELPERS);
        let shut = *ch.pick(P);
        let mode = *ch.pick(&[0u32, 0o111]);
        let refused = ch.flag();
        ch.desc(|| format!("{shut:?} has mode {mode:o}, refused by the filter {refused}, {helper:?}"));
        let base = boxed::fresh("u");
        let src = base.join("source");
        plant(&src, T, 3);
        let tree = snapshot(&src);
        let perm = |m: u32| std::fs::set_permissions(src.join(shut), std::fs::Permissions::from_mode(m)).expect("scratch");
        perm(mode);
        let made = make(helper, &src, &base, &|p: &Path| !(refused && p == src.join(shut)));
        perm(0o755);
        let r = (|| -> R {
            // an empty directory that cannot be listed holds nothing for helpers without directories
            let b = match made {
                Ok(b) => b,
                Err(_) => {
                    ensure!(helper.keeps_dirs() || !refused, "unreadable:filter", "{shut:?} was refused by the filter but is still needed");
                    return Ok(());
                }
            };
            listed_once("unreadable", &b, helper.password())?;
            let dest = base.join("dest");
            if let Err(e) = extract(0, &b, helper.password(), &base, &dest) {
                fail!("unreadable:extract", "extracting failed: {e}");
            }
            let got = snapshot(&dest);
            ch.state(hashed(&got));
            let filtered = refused && !helper.keeps_dirs();
            same("unreadable", &expected(&tree, helper.keeps_dirs(), &|p| !filtered || !p.starts_with(shut)), &got)
        })();
        boxed::discard(&base);
        r
    });
    // several sources in one archive, with entries added by hand between them
    ctx.explore("several", |ch| {
        const A: &[Item] = &[File("a1", 5), File("da/a2", 5000), File("a0", 0)];
        const B: &[Item] = &[File("b1", 6000), File("db/b2", 10), File("b0", 0)];
        const C: &[Item] = &[File("c.txt", 77)];
        let order = ch.choose(6);
        let solid: Vec<bool> = (0..3).map(|_| ch.flag()).collect();
        let by_hand = ch.choose(4);
        ch.desc(|| format!("order {order} solid {solid:?} by hand {by_hand}"));
        let base = boxed::fresh("m");
        let r = (|| -> R {
            let srcs = [("A", A), ("B", B), ("C", C)];
            let mut want = Tree::new();
            let mut paths = vec![];
            for (i, (n, items)) in srcs.iter().enumerate() {
                let p = base.join(n);
                plant(&p, items, i);
                let t = snapshot(&p);
                want.extend(expected(&t, false, &|_| true));
                paths.push(if *n == "C" { p.join("c.txt") } else { p });
            }
            let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order];
            let mut w = SevenZWriter::new(Cursor::new(vec![])).expect("writer");
            let hand = base.join("hand");
            std::fs::write(&hand, b"by hand").expect("scratch");
            for (k, i) in perm.iter().enumerate() {
                if by_hand == k + 1 {
                    let e = SevenZArchiveEntry::from_path(&hand, "by/hand".into());
                    w.push_archive_entry(e, Some(File::open(&hand).expect("open"))).map_err(|e| Fail::new("several:push", e.to_string()))?;
                    want.insert("by".into(), Node::Dir);
                    want.insert("by/hand".into(), Node::File(b"by hand".to_vec(), ticks(std::fs::metadata(&hand).unwrap().modified().unwrap())));
                }
                let r = if solid[k] { w.push_source_path(&paths[*i], |_| true) } else { w.push_source_path_non_solid(&paths[*i], |_| true) };
                if let Err(e) = r {
                    fail!("several:compress", "compressing failed: {e}");
                }
            }
            let b = w.finish().expect("finish").into_inner();
            listed_once("several", &b, false)?;
            let dest = base.join("dest");
            if let Err(e) = extract(0, &b, false, &base, &dest) {
                fail!("several:extract", "extracting failed: {e}");
            }
            let got = snapshot(&dest);
            ch.state(hashed(&got));
            same("several", &want, &got)
        })();
        boxed::discard(&base);
        r
    });
    // the source is given in every way a path can be written
    static CWD: std::sync::Mutex<()> = std::sync::Mutex::new(());
    ctx.explore("relative", |ch| {
        const W: &[(&str, &str)] = &[
            // directory of the process, source
            ("", "source"), ("", "./source"), ("", "source/"), ("", "source/."), ("source", "."), ("source", "./"), ("source/d", ".."), ("source/d", "../../source"), ("", "other/../source"),
        ];
        const S: &[(&str, &str)] = &[("source", "a.txt"), ("source", "./a.txt"), ("source/d", "../a.txt"), ("", "source/a.txt"), ("", "source/./a.txt")];
        let helper = *ch.pick(HELPERS);
        let single = ch.flag();
        let (cwd, src) = if single { *ch.pick(S) } else { *ch.pick(W) };
        ch.desc(|| format!("{src:?} in {cwd:?} {helper:?}"));
        let base = boxed::fresh("p");
        let r = (|| -> R {
            plant(&base.join("source"), ALL, 0);
            std::fs::create_dir(base.join("other")).expect("scratch");
            let tree = snapshot(&base.join("source"));
            let made = {
                let _l = CWD.lock().unwrap_or_else(|e| e.into_inner());
                std::env::set_current_dir(base.join(cwd)).expect("cwd");
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| make(helper, Path::new(src), &base, &|_| true)));
                std::env::set_current_dir(boxed::scratch()).expect("cwd");
                r
            };
            let b = match made {
                Ok(Ok(b)) => b,
                Ok(Err(e)) => fail!("relative:compress", "compressing failed: {e}"),
                Err(_) => fail!("relative:panic", "compressing {src:?} panicked"),
            };
            let dest = base.join("dest");
            if let Err(e) = extract(0, &b, helper.password(), &base, &dest) {
                fail!("relative:extract", "extracting failed: {e}");
            }
            let got = snapshot(&dest);
            ch.state(hashed(&got));
            let want = if single {
                let mut w = Tree::new();
                w.insert("a.txt".into(), tree[Path::new("a.txt")].clone());
                w
            } else {
                expected(&tree, helper.keeps_dirs(), &|_| true)
            };
            same("relative", &want, &got)
        })();
        boxed::discard(&base);
        r
    });
}
