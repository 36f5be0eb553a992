//! Run context: evidence, violations, known findings, panic capture, hang and memory guards.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A violated oracle: `key` identifies the failing case, `msg` describes it.
#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
impl Fail {
    pub fn new(key: impl Into<String>, msg: impl Into<String>) -> Fail {
        Fail { key: key.into(), msg: msg.into() }
    }
}
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)*) => { if !($c) { return Err($crate::util::Fail::new($key, format!($($a)*))); } };
}
#[macro_export]
macro_rules! fail {
    ($key:expr, $($a:tt)*) => { return Err($crate::util::Fail::new($key, format!($($a)*))) };
}

pub fn fnv(data: &[u8]) -> u64 {
    // FNV-1a over 8-byte words with a final avalanche; only used for counting and grouping
    let mut h: u64 = 0xcbf29ce484222325 ^ (data.len() as u64).wrapping_mul(0x9E3779B97F4A7C15);
    let mut it = data.chunks_exact(8);
    for c in &mut it {
        h ^= u64::from_le_bytes(c.try_into().unwrap());
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    for &b in it.remainder() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8feb86659fd93);
    h ^ (h >> 32)
}

// ---------------------------------------------------------------- memory guard
pub struct Guard;
thread_local! {
    static REQ_LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static NET_LIMIT: Cell<isize> = const { Cell::new(isize::MAX) };
    static NET: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn over(kind: &str, size: usize) -> ! {
    REQ_LIMIT.with(|l| l.set(usize::MAX));
    NET_LIMIT.with(|l| l.set(isize::MAX));
    fatal_violation("alloc", &format!("{kind} of {size} bytes"));
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        check(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        check(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            check_req(n);
        }
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
}
#[inline]
fn check_req(n: usize) {
    let _ = REQ_LIMIT.try_with(|l| {
        if n > l.get() {
            over("single allocation", n)
        }
    });
}
#[inline]
fn add(n: isize) {
    let _ = NET.try_with(|c| {
        let v = c.get().wrapping_add(n);
        c.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
        let _ = NET_LIMIT.try_with(|l| {
            if v > l.get() {
                over("live memory", v as usize)
            }
        });
    });
}
#[inline]
fn check(n: usize) {
    check_req(n);
    add(n as isize);
}
/// Runs `f` with the given bound on a single request and on memory live at one time.
pub fn with_mem_limit<T>(req: usize, net: usize, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            REQ_LIMIT.with(|l| l.set(usize::MAX));
            NET_LIMIT.with(|l| l.set(isize::MAX));
        }
    }
    REQ_LIMIT.with(|l| l.set(req));
    NET_LIMIT.with(|l| l.set(NET.with(|n| n.get()).saturating_add(net as isize)));
    let _r = Reset;
    f()
}

/// Runs `f` and tells the most memory it held at one time.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let before = NET.with(|n| n.get());
    PEAK.with(|p| p.set(before));
    let t = f();
    (t, (PEAK.with(|p| p.get()) - before).max(0) as u64)
}

// ---------------------------------------------------------------- panic capture
thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
/// Runs `f`; a panic becomes a failure named after its place.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if msg.starts_with("MC-DIVERGENCE") {
                engine_error(&msg);
            }
            let short = loc.rsplit("/repo/").next().unwrap_or(&loc).to_string();
            Err(Fail::new(format!("panic@{short}"), format!("panic at {loc}: {msg}")))
        }
    }
}

pub fn engine_error(msg: &str) -> ! {
    eprintln!("ENGINE ERROR: {msg}");
    if let Some(ctx) = CTX.get() {
        // what was found before that stands
        if ctx.viol.try_lock().map(|v| !v.is_empty()).unwrap_or(true) {
            ctx.finish();
        }
    }
    std::process::exit(2);
}

// ---------------------------------------------------------------- slots and watchdog
#[derive(Default)]
pub struct SlotState {
    pub tid: i32,
    pub active: bool,
    pub cpu0: f64,
    pub harness: String,
    pub trace: Vec<u32>,
    pub note: String,
}
pub type WSlot = Mutex<SlotState>;
static SLOTS: Mutex<Vec<Arc<WSlot>>> = Mutex::new(Vec::new());
thread_local! { static MYSLOT: RefCell<Option<Arc<WSlot>>> = const { RefCell::new(None) }; }

pub fn my_slot() -> Arc<WSlot> {
    MYSLOT.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let a = Arc::new(Mutex::new(SlotState {
                tid: unsafe { libc::syscall(libc::SYS_gettid) as i32 },
                ..Default::default()
            }));
            SLOTS.lock().unwrap().push(a.clone());
            *s = Some(a);
        }
        s.clone().unwrap()
    })
}
pub fn thread_cpu() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}
fn tid_cpu(tid: i32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ut: f64 = f.get(11)?.parse().ok()?;
    let st: f64 = f.get(12)?.parse().ok()?;
    Some((ut + st) / 100.0)
}
/// Horizon of one execution, in CPU seconds of its thread: generous (normal cases take
/// milliseconds) and independent of machine load.
pub static HORIZON_S: AtomicU64 = AtomicU64::new(60);
pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(1000));
        let slots = SLOTS.lock().unwrap().clone();
        for s in slots {
            let (tid, active, cpu0, h, t, n) = {
                let s = s.lock().unwrap();
                (s.tid, s.active, s.cpu0, s.harness.clone(), s.trace.clone(), s.note.clone())
            };
            if !active {
                continue;
            }
            if let Some(c) = tid_cpu(tid) {
                let hz = HORIZON_S.load(Ordering::Relaxed);
                if c - cpu0 > hz as f64 {
                    let still = { s.lock().unwrap().cpu0 == cpu0 };
                    if still {
                        let ctx = CTX.get().unwrap();
                        ctx.violation(&h, &t, &Fail::new("hang", format!("no result after {hz} s of CPU time {n}")));
                        ctx.finish();
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- context
pub static CTX: OnceLock<Arc<Ctx>> = OnceLock::new();

#[derive(Default, Clone, Debug)]
pub struct HStat {
    pub name: String,
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub max_depth: u64,
    pub max_dev: Option<u32>,
    pub secs: f64,
}
pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub replay: Option<(String, Vec<u32>)>,
    pub only: Option<String>,
    pub root: String,
    pub start: Instant,
    pub execs: AtomicU64,
    pub edges: AtomicU64,
    pub states: Vec<Mutex<HashSet<u64>>>,
    pub samples: Mutex<Vec<String>>,
    pub hstats: Mutex<Vec<HStat>>,
    pub viol: Mutex<Vec<(String, String)>>,
    pub known_hit: Mutex<BTreeMap<String, u64>>,
    pub known: Vec<(String, String)>, // key, text
    pub notes: Mutex<Vec<(String, String)>>,
    pub assumptions: Mutex<Vec<String>>,
    pub replay_ran: AtomicBool,
    pub finished: AtomicBool,
    pub level: Mutex<String>,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn fatal_violation(key: &str, msg: &str) -> ! {
    let ctx = CTX.get().unwrap();
    let slot = my_slot();
    let (h, t, n) = match slot.try_lock() {
        Ok(s) => (s.harness.clone(), s.trace.clone(), s.note.clone()),
        Err(_) => ("?".into(), vec![], String::new()),
    };
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    let place = bt
        .lines()
        .filter(|l| l.contains("/repo/"))
        .map(|l| l.trim().trim_start_matches("at ").to_string())
        .next()
        .unwrap_or_default();
    let place = place.rsplit("/repo/").next().unwrap_or("").to_string();
    let place = place.split(':').take(2).collect::<Vec<_>>().join(":");
    ctx.violation(&h, &t, &Fail::new(format!("{key}@{place}"), format!("{msg} at {place} {n}")));
    ctx.finish()
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// CPU seconds allowed for one execution of the harnesses that follow
    pub fn horizon(&self, s: u64) {
        HORIZON_S.store(s, Ordering::SeqCst);
    }
    /// quick / thorough bound
    pub fn b<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    pub fn state(&self, h: u64) -> bool {
        self.states[(h >> 58) as usize].lock().unwrap().insert(h)
    }
    pub fn note(&self, k: &str, v: impl ToString) {
        self.notes.lock().unwrap().push((k.into(), v.to_string()));
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn violation(&self, harness: &str, trace: &[u32], f: &Fail) -> bool {
        if let Some((k, text)) = self.known.iter().find(|(k, _)| *k == f.key) {
            let mut kh = self.known_hit.lock().unwrap();
            let e = kh.entry(k.clone()).or_insert(0);
            if *e == 0 {
                println!("KNOWN-FINDING: property={} {}", self.prop, text);
            }
            *e += 1;
            return false;
        }
        let mut v = self.viol.lock().unwrap();
        if v.iter().any(|(k, _)| *k == f.key) || v.len() >= 8 {
            return true;
        }
        let dir = format!("{}/replays", self.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}.json", self.prop, v.len());
        let body = format!(
            "{{\"property\":{},\"tier\":{},\"harness\":{},\"choices\":{:?},\"key\":{},\"what\":{}}}\n",
            jstr(&self.prop),
            jstr(if self.quick() { "quick" } else { "thorough" }),
            jstr(harness),
            trace,
            jstr(&f.key),
            jstr(&f.msg)
        );
        let _ = std::fs::write(&path, body);
        v.push((f.key.clone(), f.msg.clone()));
        println!("VIOLATION property={} replay={}", self.prop, path);
        let m: String = f.msg.chars().take(1500).collect();
        println!("  [{harness}] {}: {}", f.key, m);
        if std::env::var("MC_FAST").is_ok() {
            // (tools/mutate.py: one violation is enough)
            std::process::exit(1);
        }
        true
    }
    pub fn finish(&self) -> ! {
        if self.finished.swap(true, Ordering::SeqCst) {
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
            }
        }
        let v = self.viol.lock().unwrap().clone();
        if self.replay.is_none() && self.only.is_none() {
            self.write_evidence(v.len());
        }
        let total: u64 = self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        for h in self.hstats.lock().unwrap().iter() {
            println!(
                "  {:<40} executions={:<9} transitions={:<9} new-states={:<9} depth<={} {}{:.1}s",
                h.name, h.executions, h.transitions, h.states, h.max_depth,
                h.max_dev.map(|d| format!("deviations<={d} ")).unwrap_or_default(), h.secs
            );
        }
        println!(
            "{} {:?}: executions={} transitions={} states={} violations={} wall={:.1}s",
            self.prop, self.tier, self.execs.load(Ordering::SeqCst), self.edges.load(Ordering::SeqCst), total,
            v.len(), self.start.elapsed().as_secs_f64()
        );
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(if v.is_empty() { 0 } else { 1 }) }
    }
    fn write_evidence(&self, nviol: usize) {
        let total: u64 = self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        let samples: Vec<String> = self.samples.lock().unwrap().iter().map(|s| jstr(s)).collect();
        let hs: Vec<String> = self
            .hstats
            .lock()
            .unwrap()
            .iter()
            .map(|h| {
                format!(
                    "{{\"harness\":{},\"complete_executions\":{},\"choice_edges\":{},\"new_states\":{},\"max_depth\":{},\"deviation_bound\":{}}}",
                    jstr(&h.name), h.executions, h.transitions, h.states, h.max_depth,
                    h.max_dev.map(|d| d.to_string()).unwrap_or("null".into())
                )
            })
            .collect();
        let notes: Vec<String> =
            self.notes.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", jstr(k), jstr(v))).collect();
        let kf: Vec<String> =
            self.known_hit.lock().unwrap().iter().map(|(k, n)| format!("{}:{}", jstr(k), n)).collect();
        let asm: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| jstr(s)).collect();
        let body = format!(
            "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{},\n\"level\":{},\n\"coverage\":{{\n \"states\":{},\n \"transitions\":{},\n \"traces_validated_against_impl\":{},\n \"exhaustive\":{},\n \"explanation\":{},\n \"samples\":[{}],\n \"harnesses\":[{}],\n \"notes\":{{{}}},\n \"known_findings_hit\":{{{}}}\n}},\n\"assumptions\":[{}],\n\"wall_s\":{:.2},\n\"violations\":{}\n}}\n",
            jstr(&self.prop),
            jstr(if self.quick() { "quick" } else { "thorough" }),
            self.seed,
            jstr(&self.level.lock().unwrap()),
            total,
            self.edges.load(Ordering::SeqCst),
            self.execs.load(Ordering::SeqCst),
            nviol == 0,
            jstr("stateless exploration of the real code: transitions = edges of the choice trees explored, traces = complete executions of the real code compared with the reference model, states = distinct observed results (hashes of outputs/listings at every observation point); every tree was exhausted within the stated bounds"),
            samples.join(","),
            hs.join(","),
            notes.join(","),
            kf.join(","),
            asm.join(","),
            self.start.elapsed().as_secs_f64(),
            nviol
        );
        let dir = format!("{}/evidence", self.root);
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(format!("{dir}/{}.json", self.prop), body);
    }
}
