//! Explorations that touch the file system run in an unprivileged child process whose only
//! writable place is a scratch directory, created before and removed after the run.
use std::os::unix::fs::{chown, DirBuilderExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const NEEDS: &[&str] = &["C18", "C19"];
const NOBODY: u32 = 65534;

/// Inside the child: the scratch directory.
pub fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("MC_BOX").expect("runs in a box"))
}
/// A new empty directory of this execution's own.
pub fn fresh(tag: &str) -> PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let p = scratch().join("w").join(format!("{tag}{}", N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&p).expect("scratch directory");
    p
}
/// Removes what `fresh` made (only below the scratch directory).
pub fn discard(p: &Path) {
    assert!(p.starts_with(scratch().join("w")) && p != scratch().join("w"));
    let _ = std::fs::remove_dir_all(p);
}
fn copy_files(from: &Path, to: &Path) {
    if let Ok(rd) = std::fs::read_dir(from) {
        let _ = std::fs::create_dir_all(to);
        for e in rd.flatten() {
            if e.file_type().map(|t| t.is_file()).unwrap_or(false) {
                if let Ok(b) = std::fs::read(e.path()) {
                    let _ = std::fs::write(to.join(e.file_name()), b);
                }
            }
        }
    }
}
/// Runs this program again inside a box; returns its exit code.
pub fn run(root: &str, args: &[String]) -> i32 {
    let root_user = unsafe { libc::geteuid() } == 0;
    let mut dir = None;
    for k in 0..1000u32 {
        let p = std::env::temp_dir().join(format!("sevenz-mc-{}-{k}", std::process::id()));
        if std::fs::DirBuilder::new().mode(0o755).create(&p).is_ok() {
            dir = Some(p);
            break;
        }
    }
    let Some(dir) = dir else { crate::util::engine_error("no scratch directory") };
    let dir = dir.canonicalize().expect("scratch directory");
    let boxroot = dir.join("root");
    let exe = dir.join("mc");
    let prepare = || -> std::io::Result<Vec<String>> {
        std::fs::create_dir(&boxroot)?;
        std::fs::create_dir(dir.join("w"))?;
        std::fs::copy(std::env::current_exe()?, &exe)?;
        std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755))?;
        let kf = Path::new(root).join("known_findings.txt");
        if kf.exists() {
            std::fs::write(boxroot.join("known_findings.txt"), std::fs::read(kf)?)?;
        }
        let mut args = args.to_vec();
        if args.get(1).map(|s| s == "replay").unwrap_or(false) {
            let r = dir.join("replay.json");
            std::fs::write(&r, std::fs::read(&args[2])?)?;
            args[2] = r.to_string_lossy().to_string();
        }
        if root_user {
            for p in [&dir, &boxroot, &dir.join("w")] {
                chown(p, Some(NOBODY), Some(NOBODY))?;
            }
        }
        Ok(args)
    };
    let cleanup = |code: i32| -> i32 {
        // the path was created above and is written out in full
        if dir.file_name().map(|n| n.to_string_lossy().starts_with("sevenz-mc-")).unwrap_or(false) {
            let _ = std::fs::remove_dir_all(&dir);
        }
        code
    };
    let args = match prepare() {
        Ok(a) => a,
        Err(e) => {
            println!("ENGINE ERROR: preparing the scratch directory: {e}");
            return cleanup(2);
        }
    };
    let start = |drop: bool| {
        let mut c = Command::new(&exe);
        c.args(&args[1..]).current_dir(&dir).env("MC_BOX", &dir).env("MC_ROOT", &boxroot).env("TMPDIR", dir.join("w"));
        c.env("HOME", dir.join("w")).stdin(Stdio::null()).stdout(Stdio::piped());
        if drop {
            c.uid(NOBODY).gid(NOBODY);
        }
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        c.spawn()
    };
    let child = match start(root_user) {
        Ok(c) => c,
        Err(e) if root_user => {
            println!("note: cannot become an unprivileged user here ({e}); the names explored only lead into the scratch directory anyway");
            match start(false) {
                Ok(c) => c,
                Err(e) => {
                    println!("ENGINE ERROR: starting the child: {e}");
                    return cleanup(2);
                }
            }
        }
        Err(e) => {
            println!("ENGINE ERROR: starting the child: {e}");
            return cleanup(2);
        }
    };
    let out = match child.wait_with_output() {
        Ok(o) => o,
        Err(e) => {
            println!("ENGINE ERROR: waiting for the child: {e}");
            return cleanup(2);
        }
    };
    copy_files(&boxroot.join("evidence"), &Path::new(root).join("evidence"));
    copy_files(&boxroot.join("replays"), &Path::new(root).join("replays"));
    let text = String::from_utf8_lossy(&out.stdout).replace(&*boxroot.to_string_lossy(), root);
    print!("{text}");
    use std::io::Write;
    let _ = std::io::stdout().flush();
    cleanup(out.status.code().unwrap_or(128 + out.status.signal().unwrap_or(0)))
}
