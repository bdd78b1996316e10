mod case;
mod elem;
mod fam;
mod gen;
mod heap;
mod odd;
mod rng;
mod viol;
mod world;

use case::{Case, Op};
use std::cell::{Cell, RefCell};
use std::sync::atomic::Ordering::Relaxed;
use world::{w, Injected, Site};

#[global_allocator]
static HEAP: heap::Heap = heap::Heap;

/// Node width of the library build under test.
pub const WIDTH: usize = librrb::RRB_WIDTH;

pub enum P {
    Inj(Site),
    Lib(String),
}

thread_local! {
    static WHERE: RefCell<String> = const { RefCell::new(String::new()) };
    static RC: Cell<bool> = const { Cell::new(false) };
}

/// Runs library code, catching both injected panics and the library's own.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, P> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| heap::lib(f))) {
        Ok(r) => Ok(r),
        Err(e) => Err(if let Some(i) = e.downcast_ref::<Injected>() {
            let c = &world::th().caught;
            c.set(c.get() + 1);
            P::Inj(i.0)
        } else {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let at = WHERE.with(|w| w.borrow().clone());
            P::Lib(format!("{} at {}", m, at))
        }),
    }
}

mod arc_exec {
    pub type VT<T> = librrb::ThreadSafeVector<T>;
    pub type V = librrb::ThreadSafeVector<crate::elem::Elem>;
    pub type FocusT<'a> = librrb::ThreadSafeFocus<'a, crate::elem::Elem>;
    pub type FocusMutT<'a> = librrb::ThreadSafeFocusMut<'a, crate::elem::Elem>;
    pub const RC: bool = false;
    include!("exec.rs");
}
mod rc_exec {
    pub type VT<T> = librrb::RegularVector<T>;
    pub type V = librrb::RegularVector<crate::elem::Elem>;
    pub type FocusT<'a> = librrb::RegularFocus<'a, crate::elem::Elem>;
    pub type FocusMutT<'a> = librrb::RegularFocusMut<'a, crate::elem::Elem>;
    pub const RC: bool = true;
    include!("exec.rs");
}

static IS_RC: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn run_nested(op: &Op) {
    let ctx = world::th().ctx.get();
    if ctx == 0 {
        return;
    }
    if IS_RC.load(Relaxed) {
        rc_exec::nested(ctx, op)
    } else {
        arc_exec::nested(ctx, op)
    }
}

/// One run. Returns (trace hash, schedule hash).
fn run_case(c: &Case, idx: u64) -> (u64, u64) {
    let (h, leak) = run_once(c, idx);
    if let Some(first) = leak {
        // Memory the library allocates once and keeps for good is not this run's leak: only a
        // second identical run that loses memory again counts.
        let (_, again) = run_once(c, idx);
        if let Some(msg) = again {
            viol::raise("leak", &msg);
        }
        world::count("one_time_allocations_kept", 1);
        let _ = first;
    }
    h
}

fn run_once(c: &Case, idx: u64) -> ((u64, u64), Option<String>) {
    let wd = w();
    wd.reset_run(idx);
    IS_RC.store(c.rc, Relaxed);
    wd.racy_rc.set(c.racy);
    fam::FAMS.reset();
    rand_xoshiro::sim::reset(c.salt, c.pivot);
    wd.step_cap.set(300_000_000);
    let heap0 = heap::LIVE.load(Relaxed);
    if c.rc {
        rc_exec::run(c);
    } else {
        arc_exec::run(c);
    }
    wd.empty_grave();
    wd.n_runs.set(wd.n_runs.get() + 1);
    wd.n_steps.set(wd.n_steps.get() + wd.steps.get());
    let h = (wd.hash.get(), wd.sched_hash.get());
    wd.steps.set(0);
    if wd.leak_ok.get() {
        world::probe("runs_without_leak_check");
        return (h, None);
    }
    if wd.live_elems.get() != 0 {
        viol::raise("leak", &format!("{} elements are still alive after every handle is gone", wd.live_elems.get()));
    }
    let mem = heap::LIVE.load(Relaxed) - heap0;
    if wd.live_nodes.get() != 0 || mem != 0 {
        return (h, Some(format!("{} nodes and {} heap blocks are left after every handle is gone", wd.live_nodes.get(), mem)));
    }
    (h, None)
}

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

fn num(args: &[String], name: &str, d: u64) -> u64 {
    arg(args, name).and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0u64);
        let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = (w().beat.load(Relaxed), 0);
            if now != last {
                last = now;
                since = std::time::Instant::now();
            } else if since.elapsed().as_secs() >= secs {
                viol::raise("hang", "a run made no progress");
            }
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|info| {
        heap::outside(|| {
            let s = info.location().map(|l| format!("{}:{}", l.file().rsplit("repo/").next().unwrap_or(""), l.line())).unwrap_or_default();
            if std::env::var_os("SIM_PANICS").is_some() {
                eprintln!("panic: {}", info);
            }
            WHERE.with(|w| *w.borrow_mut() = s);
        })
    }));
    viol::catch_signals();
    world::init();
    // let the panic machinery do its one-time allocations
    for _ in 0..2 {
        let _ = guard(|| std::panic::panic_any(String::from("warm up")));
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let prop = arg(&args, "--prop").unwrap_or("C01").to_string();
            let seed = num(&args, "--seed", 1);
            let start = num(&args, "--start", 0);
            let step = num(&args, "--step", 1);
            let end = num(&args, "--end", 1000);
            let secs = num(&args, "--secs", 3600);
            let progress = arg(&args, "--progress").map(|p| {
                std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(p).expect("progress file")
            });
            let hashes = arg(&args, "--hashes").map(|p| p.to_string());
            let tracing = args.iter().any(|a| a == "--trace");
            watchdog(num(&args, "--watchdog", 30));
            let t0 = std::time::Instant::now();
            let mut hs: Vec<u8> = Vec::new();
            let mut i = start;
            let mut trace = String::new();
            while i < end {
                if let Some(f) = &progress {
                    use std::os::unix::fs::FileExt;
                    let _ = f.write_at(&i.to_le_bytes(), 0);
                }
                let c = gen::case(&prop, seed, i);
                let (h, s) = run_case(&c, i);
                if tracing {
                    trace.push_str(&format!("T {} {:016x} {:016x}\n", i, h, s));
                }
                hs.extend_from_slice(&s.to_le_bytes());
                hs.extend_from_slice(&h.to_le_bytes());
                i += step;
                if t0.elapsed().as_secs() >= secs {
                    break;
                }
            }
            if let Some(p) = hashes {
                let _ = std::fs::write(p, &hs);
            }
            viol::out(&trace);
            viol::out(&world::stats_line());
            viol::out(&format!("DONE {}\n", i));
            viol::exit_now(0)
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let c = match Case::parse(&text) {
                Ok(c) => c,
                Err(e) => {
                    eprintln!("{}", e);
                    std::process::exit(3)
                }
            };
            watchdog(num(&args, "--watchdog", 30));
            let (h, s) = run_case(&c, 0);
            viol::out(&format!("T 0 {:016x} {:016x}\n", h, s));
            viol::out(&world::stats_line());
            viol::out("DONE 1\n");
            viol::exit_now(0)
        }
        Some("gen") => {
            let prop = arg(&args, "--prop").unwrap_or("C01").to_string();
            let c = gen::case(&prop, num(&args, "--seed", 1), num(&args, "--idx", 0));
            let t = c.text();
            let back = Case::parse(&t).expect("own text");
            assert!(back == c, "text form does not round-trip");
            print!("{}", t);
        }
        _ => {
            eprintln!("usage: sim run|replay|gen");
            std::process::exit(3);
        }
    }
}
