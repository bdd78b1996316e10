//! Reporting: the first violation ends the process, so nothing runs after a broken invariant.
use crate::world::{w, me, MAXT};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

extern "C" {
    fn _exit(code: i32) -> !;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
}

static ONCE: AtomicBool = AtomicBool::new(false);

pub fn out(s: &str) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let n = unsafe { write(1, b[i..].as_ptr() as *const std::ffi::c_void, b.len() - i) };
        if n <= 0 {
            break;
        }
        i += n as usize;
    }
}

pub fn exit_now(code: i32) -> ! {
    unsafe { _exit(code) }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

/// A broken property. `cls` names what kind; the driver maps it to properties.
pub fn raise(cls: &str, msg: &str) -> ! {
    if ONCE.swap(true, SeqCst) {
        // a second thread can only get here through the watchdog
        loop {
            std::thread::park();
        }
    }
    crate::heap::IN_LIB.with(|c| c.set(false));
    let t = me();
    let (grp, op, opn) = if t < MAXT {
        let th = w().th(t);
        (th.group.get(), th.opname.get(), th.opn.get())
    } else {
        (w().last_group.get(), "end", 0)
    };
    let s = format!(
        "VIOL {{\"idx\":{},\"cls\":\"{}\",\"grp\":\"{}\",\"op\":\"{}\",\"opn\":{},\"thread\":{},\"fault\":{},\"multi\":{},\"iterops\":{},\"msg\":\"{}\"}}\n",
        w().idx.get(), cls, grp, op, opn, t,
        w().fired.get() > 0, w().nthreads.get() > 1, w().iterops.get(), esc(msg)
    );
    out(&s);
    out(&crate::world::stats_line());
    exit_now(7)
}

/// The harness itself is wrong.
pub fn broken(msg: &str) -> ! {
    out(&format!("HARNESS {{\"idx\":{},\"msg\":\"{}\"}}\n", w().idx.get(), esc(msg)));
    exit_now(3)
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn alarm(secs: u32) -> u32;
}

extern "C" fn crashed(sig: i32) {
    // Reporting may need the very allocator that was just corrupted: do not wait for it for long.
    unsafe { alarm(5) };
    raise("crash", &format!("the process was ended by signal {}", sig))
}

/// Turns a crash into a report that says which operation it happened in.
pub fn catch_signals() {
    for sig in [4, 6, 7, 8, 11] {
        // SA_ONSTACK | SA_RESETHAND
        let a = SigAction { handler: crashed as *const () as usize, mask: [0; 16], flags: 0x0800_0000 | 0x8000_0000u32 as i32, restorer: 0 };
        unsafe { sigaction(sig, &a, std::ptr::null_mut()) };
    }
}
