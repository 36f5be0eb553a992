mod arch;
mod boxed;
mod explore;
mod gen;
mod huge;
mod io;
mod props;
mod ref7z;
mod refaes;
mod reffilt;
mod reflzma;
mod util;
use std::sync::atomic::{AtomicBool, AtomicU64};
use std::sync::{Arc, Mutex};
use util::*;

#[global_allocator]
static A: util::Guard = util::Guard;

fn known(root: &str, prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
        for l in s.lines() {
            // known: property=C01 key=<key> <text>
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").trim_start_matches("property=").to_string();
                let k = it.next().unwrap_or("").trim_start_matches("key=").to_string();
                let t = it.next().unwrap_or("").to_string();
                if p == prop {
                    v.push((k, t));
                }
            }
        }
    }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("MC_ROOT").unwrap_or("/verif".into());
    let (prop, tier, replay) = if args.get(1).map(|s| s == "replay").unwrap_or(false) {
        let s = std::fs::read_to_string(&args[2]).expect("replay file");
        let grab = |k: &str| -> String {
            let t = format!("\"{k}\":");
            let i = s.find(&t).expect("field") + t.len();
            let rest = s[i..].trim_start();
            if let Some(r) = rest.strip_prefix('"') {
                r[..r.find('"').unwrap()].to_string()
            } else {
                rest[..rest.find(']').unwrap() + 1].to_string()
            }
        };
        let ch = grab("choices");
        let choices: Vec<u32> = ch.trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect();
        (grab("property"), grab("tier"), Some((grab("harness"), choices)))
    } else {
        (args[1].clone(), args.get(2).cloned().unwrap_or("quick".into()), None)
    };
    if boxed::NEEDS.contains(&prop.as_str()) && std::env::var("MC_BOX").is_err() {
        std::process::exit(boxed::run(&root, &args));
    }
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ctx = Arc::new(Ctx {
        prop: prop.clone(),
        tier,
        seed,
        replay: replay.clone(),
        only: std::env::var("MC_ONLY").ok(),
        root: root.clone(),
        start: std::time::Instant::now(),
        execs: AtomicU64::new(0),
        edges: AtomicU64::new(0),
        states: (0..64).map(|_| Default::default()).collect(),
        samples: Mutex::new(vec![]),
        hstats: Mutex::new(vec![]),
        viol: Mutex::new(vec![]),
        known_hit: Default::default(),
        known: known(&root, &prop),
        notes: Mutex::new(vec![]),
        assumptions: Mutex::new(vec![]),
        replay_ran: AtomicBool::new(false),
        finished: AtomicBool::new(false),
        level: Mutex::new("model_checking".into()),
    });
    CTX.set(ctx.clone()).ok();
    install_panic_hook();
    start_watchdog();
    refaes::selftest();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&prop, &ctx))) {
        Ok(true) => {}
        Ok(false) => engine_error(&format!("unknown property {prop}")),
        Err(p) => {
            // the inputs of the harnesses are themselves made with the code under test
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            ctx.violation("setup", &[], &Fail::new("setup", format!("preparing the explored inputs failed: {m}")));
        }
    }
    if replay.is_some() && !ctx.replay_ran.load(std::sync::atomic::Ordering::SeqCst) {
        engine_error("the replay names a harness that does not exist in this tier");
    }
    ctx.finish();
}
