//! Exhaustive explorer of choice trees: re-executes the harness for every path.
use crate::util::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

struct St {
    trace: Vec<(u32, u32)>,
    devs: u32,
    states: Vec<u64>,
    desc: Option<String>,
}
struct Inner {
    prefix: Vec<u32>,
    max_dev: u32,
    slot: Arc<WSlot>,
    st: RefCell<St>,
}
/// Handle through which an execution draws its choices.
#[derive(Clone)]
pub struct Ch(Rc<Inner>);

impl Ch {
    fn new(prefix: Vec<u32>, max_dev: u32, slot: Arc<WSlot>, describe: bool) -> Ch {
        Ch(Rc::new(Inner {
            prefix,
            max_dev,
            slot,
            st: RefCell::new(St {
                trace: Vec::with_capacity(16),
                devs: 0,
                states: Vec::new(),
                desc: if describe { Some(String::new()) } else { None },
            }),
        }))
    }
    /// One of `n` alternatives; all are explored.
    pub fn choose(&self, n: usize) -> usize {
        if n <= 1 {
            assert!(n == 1, "MC-DIVERGENCE: empty choice");
            return 0;
        }
        let mut st = self.0.st.borrow_mut();
        let pos = st.trace.len();
        let c = self.0.prefix.get(pos).copied().unwrap_or(0);
        if c as usize >= n {
            panic!("MC-DIVERGENCE: replayed choice {c} of {n} at {pos}");
        }
        st.trace.push((c, n as u32));
        self.0.slot.lock().unwrap().trace.push(c);
        c as usize
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    pub fn flag(&self) -> bool {
        self.choose(2) == 1
    }
    /// A choice whose alternatives other than 0 cost one deviation.
    pub fn deviate(&self, n: usize) -> usize {
        if n <= 1 || self.0.st.borrow().devs >= self.0.max_dev {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.0.st.borrow_mut().devs += 1;
        }
        c
    }
    pub fn state(&self, h: u64) {
        self.0.st.borrow_mut().states.push(h);
    }
    pub fn describing(&self) -> bool {
        self.0.st.borrow().desc.is_some()
    }
    pub fn desc(&self, f: impl FnOnce() -> String) {
        if self.describing() {
            let s = f();
            let mut st = self.0.st.borrow_mut();
            let d = st.desc.as_mut().unwrap();
            if d.len() < 600 {
                d.push_str(&s);
                d.push(' ');
            }
        }
    }
}

struct Shared {
    q: Mutex<Vec<Vec<u32>>>,
    cv: Condvar,
    idle: AtomicUsize,
    qlen: AtomicUsize,
    stop: AtomicBool,
}

fn run_one<F: Fn(&Ch) -> R>(prefix: &[u32], max_dev: u32, f: &F, describe: bool) -> (Vec<(u32, u32)>, Vec<u64>, R, Option<String>) {
    let slot = my_slot();
    let ch = Ch::new(prefix.to_vec(), max_dev, slot.clone(), describe);
    {
        let mut s = slot.lock().unwrap();
        s.active = true;
        s.cpu0 = thread_cpu();
        s.trace.clear();
        s.note.clear();
    }
    let r = match no_panic(|| f(&ch)) {
        Ok(r) => r,
        Err(e) => Err(e),
    };
    slot.lock().unwrap().active = false;
    let mut st = ch.0.st.borrow_mut();
    if st.trace.len() < prefix.len() && r.is_ok() {
        engine_error(&format!("MC-DIVERGENCE: execution ended after {} of {} replayed choices", st.trace.len(), prefix.len()));
    }
    (std::mem::take(&mut st.trace), std::mem::take(&mut st.states), r, st.desc.take())
}

impl Ctx {
    /// Explores the whole choice tree of `f`.
    pub fn explore(&self, name: &str, f: impl Fn(&Ch) -> R + Sync) {
        self.explore_dev(name, None, f)
    }
    /// Explores the choice tree with at most `max_dev` deviations per execution.
    pub fn explore_dev(&self, name: &str, max_dev: Option<u32>, f: impl Fn(&Ch) -> R + Sync) {
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        let md = max_dev.unwrap_or(u32::MAX);
        my_slot().lock().unwrap().harness = name.to_string();
        if let Some((h, choices)) = &self.replay {
            if h == name {
                self.replay_ran.store(true, Ordering::SeqCst);
                let (t, _, r, d) = run_one(choices, md, &f, true);
                println!("replay {h}: choices {:?}", t.iter().map(|x| x.0).collect::<Vec<_>>());
                println!("  case: {}", d.unwrap_or_default());
                match r {
                    Ok(()) => println!("  result: property held"),
                    Err(e) => {
                        println!("  result: {}: {}", e.key, e.msg);
                        self.viol.lock().unwrap().push((e.key, e.msg));
                    }
                }
            }
            return;
        }
        let t0 = Instant::now();
        let before: u64 = self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        // determinism of the harness: the default execution twice must agree
        let (t1, s1, _, d1) = run_one(&[], md, &f, true);
        let (t2, s2, _, _) = run_one(&[], md, &f, false);
        if t1 != t2 {
            engine_error(&format!("harness {name} is not deterministic: the same choices gave two behaviours"));
        }
        if s1 != s2 {
            // what is observed varies (time, randomness in the code under test); every
            // execution is judged by itself, so the exploration stays complete
            self.note(&format!("{name}: observation"), "varies between two runs of the same choices");
        }
        if let Some(d) = d1 {
            let mut s = self.samples.lock().unwrap();
            if s.len() < 40 {
                s.push(format!("{name}: {d}"));
            }
        }
        let sh = Shared {
            q: Mutex::new(vec![vec![]]),
            cv: Condvar::new(),
            idle: AtomicUsize::new(0),
            qlen: AtomicUsize::new(1),
            stop: AtomicBool::new(false),
        };
        let nt = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
        let execs = AtomicU64::new(0);
        let edges = AtomicU64::new(0);
        let depth = AtomicU64::new(0);
        let nviol = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..nt {
                sc.spawn(|| {
                    my_slot().lock().unwrap().harness = name.to_string();
                    let mut local: Vec<Vec<u32>> = Vec::new();
                    loop {
                        if sh.stop.load(Ordering::Relaxed) {
                            sh.cv.notify_all();
                            return;
                        }
                        let item = match local.pop() {
                            Some(i) => i,
                            None => {
                                let mut q = sh.q.lock().unwrap();
                                loop {
                                    if let Some(i) = q.pop() {
                                        sh.qlen.store(q.len(), Ordering::Relaxed);
                                        break i;
                                    }
                                    let idle = sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                                    if idle == nt {
                                        sh.stop.store(true, Ordering::SeqCst);
                                        sh.cv.notify_all();
                                        return;
                                    }
                                    q = sh.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap().0;
                                    sh.idle.fetch_sub(1, Ordering::SeqCst);
                                    if sh.stop.load(Ordering::SeqCst) {
                                        return;
                                    }
                                }
                            }
                        };
                        let n = execs.fetch_add(1, Ordering::Relaxed);
                        let want = n > 0 && n.is_power_of_two() && n >= 64;
                        let (trace, states, r, d) = run_one(&item, md, &f, want);
                        if let Some(d) = d {
                            let mut s = self.samples.lock().unwrap();
                            if s.len() < 40 {
                                s.push(format!("{name}: {d}"));
                            }
                        }
                        let new = trace.len().saturating_sub(item.len()) + if item.is_empty() { 0 } else { 1 };
                        edges.fetch_add(new as u64, Ordering::Relaxed);
                        depth.fetch_max(trace.len() as u64, Ordering::Relaxed);
                        for s in states {
                            self.state(s);
                        }
                        if let Err(e) = r {
                            let tr: Vec<u32> = trace.iter().map(|x| x.0).collect();
                            if self.violation(name, &tr, &e) && nviol.fetch_add(1, Ordering::SeqCst) >= 20 {
                                sh.stop.store(true, Ordering::SeqCst);
                                sh.cv.notify_all();
                                return;
                            }
                        }
                        // siblings of the choices made beyond the prefix
                        for i in (item.len()..trace.len()).rev() {
                            for alt in (1..trace[i].1).rev() {
                                let mut p: Vec<u32> = Vec::with_capacity(i + 1);
                                p.extend(trace[..i].iter().map(|x| x.0));
                                p.push(alt);
                                local.push(p);
                            }
                        }
                        if local.len() > 1 && sh.qlen.load(Ordering::Relaxed) < nt {
                            let give = local.len() / 2;
                            let mut q = sh.q.lock().unwrap();
                            // shallow prefixes sit at the bottom of the stack
                            q.extend(local.drain(..give));
                            sh.qlen.store(q.len(), Ordering::Relaxed);
                            sh.cv.notify_all();
                        }
                    }
                });
            }
        });
        let after: u64 = self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        self.execs.fetch_add(execs.load(Ordering::SeqCst), Ordering::SeqCst);
        self.edges.fetch_add(edges.load(Ordering::SeqCst), Ordering::SeqCst);
        self.hstats.lock().unwrap().push(HStat {
            name: name.into(),
            executions: execs.load(Ordering::SeqCst),
            transitions: edges.load(Ordering::SeqCst),
            states: after - before,
            max_depth: depth.load(Ordering::SeqCst),
            max_dev,
            secs: t0.elapsed().as_secs_f64(),
        });
    }
}
