//! Scheduler and per-run state. Real OS threads, but exactly one runs at any moment: the token
//! moves only at scheduling points, and who gets it is read from the case, never from the OS.
use crate::heap::outside;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::OnceLock;
use std::thread::Thread;

pub const MAXT: usize = 24;
pub const MAIN: usize = MAXT;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Site {
    Clone = 0,
    Drop = 1,
    Cmp = 2,
    Pred = 3,
    Iter = 4,
}
pub const SITES: [&str; 5] = ["clone", "drop", "cmp", "pred", "iter"];

/// Payload of an injected panic.
pub struct Injected(pub Site);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Unused,
    Ready,
    Blocked,
    Done,
}

type Job = Box<dyn FnOnce() + Send>;

pub struct Th {
    os: OnceLock<Thread>,
    job: RefCell<Option<Job>>,
    st: Cell<St>,
    stall: Cell<u32>,
    parent: Cell<usize>,
    waiting: Cell<u32>,
    pub work0: Cell<u64>,
    pub points: Cell<u64>,
    pub quiet: Cell<u32>,
    // current operation
    pub opn: Cell<u32>,
    pub opname: Cell<&'static str>,
    pub group: Cell<&'static str>,
    pub odd_live: Cell<i64>,
    pub in_op: Cell<bool>,
    pub pre: RefCell<Vec<(u64, u32)>>,
    pub fault: RefCell<Vec<(Site, u64)>>,
    pub nested: RefCell<Vec<(Site, u64, crate::case::Op)>>,
    pub site: [Cell<u64>; 5],
    pub incs: Cell<u64>,
    /// injected panics thrown by, and caught coming out of, the current operation
    pub threw: Cell<u32>,
    pub caught: Cell<u32>,
    pub fired: Cell<u32>,
    pub nested_ran: Cell<u32>,
    pub call_cap: Cell<u64>,
    pub lie: Cell<u64>,
    pub lies: Cell<u64>,
    pub copying: Cell<u64>,
    pub ctx: Cell<usize>,
}

pub struct World {
    ths: Vec<Th>,
    cur: AtomicUsize,
    main: OnceLock<Thread>,
    order: RefCell<Vec<u32>>,
    pos: Cell<usize>,
    pub solo: Cell<bool>,
    // per run
    pub idx: Cell<u64>,
    pub nthreads: Cell<usize>,
    pub steps: Cell<u64>,
    pub step_cap: Cell<u64>,
    pub hash: Cell<u64>,
    pub sched_hash: Cell<u64>,
    pub fired: Cell<u32>,
    pub iterops: Cell<bool>,
    pub leak_ok: Cell<bool>,
    pub racy_rc: Cell<bool>,
    pub uniq: Cell<u32>,
    pub insts: RefCell<Vec<u8>>,
    pub live_elems: Cell<i64>,
    pub live_nodes: Cell<i64>,
    pub born: Cell<u64>,
    pub last_group: Cell<&'static str>,
    grave: RefCell<Vec<(usize, Layout)>>,
    grave_bytes: Cell<usize>,
    // whole process
    pub beat: AtomicU64,
    pub stats: RefCell<BTreeMap<&'static str, u64>>,
    pub n_steps: Cell<u64>,
    pub n_switch: Cell<u64>,
    pub n_inop_switch: Cell<u64>,
    pub n_runs: Cell<u64>,
    pub n_ops: Cell<u64>,
    pub n_points: [Cell<u64>; 8],
    pub n_copies: Cell<u64>,
    pub n_callbacks: Cell<u64>,
    pub n_fine: Cell<u64>,
    pub n_fine_switch: Cell<u64>,
}

// Only the thread holding the token touches the cells.
unsafe impl Sync for World {}
unsafe impl Send for World {}

static WORLD: OnceLock<World> = OnceLock::new();

#[inline]
pub fn w() -> &'static World {
    unsafe { WORLD.get().unwrap_unchecked() }
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(MAIN) };
}

#[inline]
pub fn me() -> usize {
    ME.with(|m| m.get())
}

#[inline]
pub fn th() -> &'static Th {
    w().th(me())
}

fn new_th() -> Th {
    Th {
        os: OnceLock::new(),
        job: RefCell::new(None),
        st: Cell::new(St::Unused),
        stall: Cell::new(0),
        parent: Cell::new(MAIN),
        waiting: Cell::new(0),
        work0: Cell::new(0),
        points: Cell::new(0),
        quiet: Cell::new(0),
        opn: Cell::new(0),
        opname: Cell::new("-"),
        group: Cell::new("life"),
        odd_live: Cell::new(0),
        in_op: Cell::new(false),
        pre: RefCell::new(vec![]),
        fault: RefCell::new(vec![]),
        nested: RefCell::new(vec![]),
        site: Default::default(),
        incs: Cell::new(0),
        threw: Cell::new(0),
        caught: Cell::new(0),
        fired: Cell::new(0),
        nested_ran: Cell::new(0),
        call_cap: Cell::new(u64::MAX),
        lie: Cell::new(0),
        lies: Cell::new(0),
        copying: Cell::new(0),
        ctx: Cell::new(0),
    }
}

pub fn init() {
    let world = World {
        ths: (0..=MAXT).map(|_| new_th()).collect(),
        cur: AtomicUsize::new(MAIN),
        main: OnceLock::new(),
        order: RefCell::new(vec![]),
        pos: Cell::new(0),
        solo: Cell::new(false),
        idx: Cell::new(0),
        nthreads: Cell::new(0),
        steps: Cell::new(0),
        step_cap: Cell::new(u64::MAX),
        hash: Cell::new(0),
        sched_hash: Cell::new(0),
        fired: Cell::new(0),
        iterops: Cell::new(false),
        leak_ok: Cell::new(false),
        racy_rc: Cell::new(false),
        uniq: Cell::new(0),
        insts: RefCell::new(vec![]),
        live_elems: Cell::new(0),
        live_nodes: Cell::new(0),
        born: Cell::new(0),
        last_group: Cell::new("life"),
        grave: RefCell::new(vec![]),
        grave_bytes: Cell::new(0),
        beat: AtomicU64::new(0),
        stats: RefCell::new(BTreeMap::new()),
        n_steps: Cell::new(0),
        n_switch: Cell::new(0),
        n_inop_switch: Cell::new(0),
        n_runs: Cell::new(0),
        n_ops: Cell::new(0),
        n_points: Default::default(),
        n_copies: Cell::new(0),
        n_callbacks: Cell::new(0),
        n_fine: Cell::new(0),
        n_fine_switch: Cell::new(0),
    };
    if WORLD.set(world).is_err() {
        panic!("init twice");
    }
    w().main.set(std::thread::current()).ok();
    archery::sim::install(&HOOKS);
    fine::install(fine_point);
    for i in 0..MAXT {
        let h = std::thread::Builder::new()
            .name(format!("sim{}", i))
            .stack_size(8 << 20)
            .spawn(move || pool(i))
            .expect("spawn");
        w().ths[i].os.set(h.thread().clone()).ok();
    }
}

fn pool(i: usize) {
    ME.with(|m| m.set(i));
    fine::base();
    loop {
        wait_token(i);
        let job = w().ths[i].job.borrow_mut().take();
        match job {
            Some(j) => {
                reset_points();
                j()
            }
            None => crate::viol::broken("woken without a job"),
        }
        finish(i);
    }
}

fn wait_token(i: usize) {
    while w().cur.load(Acquire) != i {
        std::thread::park();
    }
}

fn give_token(next: usize) {
    w().cur.store(next, Release);
    if next == MAIN {
        w().main.get().unwrap().unpark();
    } else {
        w().ths[next].os.get().unwrap().unpark();
    }
}

/// Picks who runs next. `me_ok`: whether the current thread may continue.
fn decide() -> Option<usize> {
    let wd = w();
    let cur = me();
    let mut elig = [0usize; MAXT];
    let mut n = 0;
    let mut stalled: Option<(u32, usize)> = None;
    for i in 0..MAXT {
        let t = &wd.ths[i];
        if t.st.get() == St::Ready {
            let s = t.stall.get();
            if s == 0 {
                elig[n] = i;
                n += 1;
            } else {
                if stalled.map_or(true, |(b, _)| s < b) {
                    stalled = Some((s, i));
                }
                t.stall.set(s - 1);
            }
        }
    }
    if n == 0 {
        let (_, i) = stalled?;
        wd.ths[i].stall.set(0);
        return Some(i);
    }
    let p = wd.pos.get();
    let order = wd.order.borrow();
    let pick = if p < order.len() {
        wd.pos.set(p + 1);
        elig[order[p] as usize % n]
    } else if elig[..n].contains(&cur) {
        cur
    } else {
        elig[0]
    };
    Some(pick)
}

fn switch(in_op: bool) {
    let wd = w();
    let cur = me();
    let next = match decide() {
        Some(n) => n,
        None => crate::viol::broken("nobody can run"),
    };
    if next != cur {
        let t = &wd.ths[cur];
        wd.n_switch.set(wd.n_switch.get() + 1);
        if in_op {
            wd.n_inop_switch.set(wd.n_inop_switch.get() + 1);
        }
        let ev = (cur as u64) << 56 ^ (t.opn.get() as u64) << 32 ^ fine::passed() << 4 ^ next as u64;
        wd.sched_hash.set(crate::rng::mix(wd.sched_hash.get() ^ ev));
        trace(ev);
        give_token(next);
        wait_token(cur);
    }
}

/// Scheduling point between operations.
pub fn boundary() {
    let _f = fine::set(false);
    let t = th();
    if t.quiet.get() > 0 || w().solo.get() || me() == MAIN {
        return;
    }
    step();
    switch(false);
}

#[inline]
fn step() {
    let wd = w();
    let s = wd.steps.get() + 1;
    wd.steps.set(s);
    if s > wd.step_cap.get() {
        wd.step_cap.set(u64::MAX);
        crate::viol::raise("steps", "an operation did not finish within the step limit");
    }
}

#[inline]
pub fn trace(ev: u64) {
    let h = &w().hash;
    h.set((h.get() ^ ev).wrapping_mul(0x100_0000_01b3).rotate_left(17));
}

/// Scheduling point inside an operation.
#[inline]
pub fn point(kind: u8, id: u64) {
    let _f = fine::set(false);
    let i = me();
    if i == MAIN {
        return;
    }
    let t = &w().ths[i];
    if t.quiet.get() > 0 {
        return;
    }
    step();
    trace((kind as u64) << 60 ^ id);
    if fine::tick() {
        outside(|| preempt(t));
    }
}

fn preempt(t: &Th) {
    let popped = t.pre.borrow_mut().pop();
    fine::due(t.pre.borrow().last().map(|p| p.0));
    if let Some((_, stall)) = popped {
        if !w().solo.get() {
            t.stall.set(stall + 1);
            switch(true);
        }
    }
}

/// A switch is due at an instrumented place of the library's code (`fine` build only).
fn fine_point() {
    let i = me();
    if i == MAIN {
        return fine::due(None);
    }
    w().n_fine_switch.set(w().n_fine_switch.get() + 1);
    outside(|| preempt(&w().ths[i]));
}

/// Where the current operation is to be preempted, and for how long.
pub fn set_pre(t: &Th, mut p: Vec<(u64, u32)>) {
    let _f = fine::set(false);
    p.sort_by(|a, b| b.cmp(a));
    fine::due(p.last().map(|p| p.0));
    *t.pre.borrow_mut() = p;
}

fn reset_points() {
    w().n_fine.set(w().n_fine.get() + fine::passed());
    fine::reset();
}

fn finish(i: usize) {
    let wd = w();
    let t = &wd.ths[i];
    t.st.set(St::Done);
    let p = t.parent.get();
    if p < MAXT {
        let pt = &wd.ths[p];
        pt.waiting.set(pt.waiting.get() - 1);
        if pt.waiting.get() == 0 {
            pt.st.set(St::Ready);
        }
        t.st.set(St::Unused);
    }
    match decide() {
        Some(n) => give_token(n),
        None => {
            if wd.ths.iter().any(|t| t.st.get() == St::Blocked) {
                crate::viol::broken("deadlock");
            }
            give_token(MAIN)
        }
    }
}

/// Runs `jobs` on extra simulated threads, interleaved with everything else; returns when all
/// are done. The caller is blocked meanwhile, so the jobs may borrow from its stack.
pub fn parallel<'a>(jobs: Vec<Box<dyn FnOnce() + 'a>>) {
    let _f = fine::set(false);
    let wd = w();
    let cur = me();
    let n = jobs.len();
    if n == 0 {
        return;
    }
    let free: Vec<usize> = (0..MAXT).filter(|&i| wd.ths[i].st.get() == St::Unused).collect();
    if free.len() < n {
        crate::viol::broken("no spare thread");
    }
    for (k, j) in jobs.into_iter().enumerate() {
        let j: Box<dyn FnOnce() + 'a> = j;
        let j: Job = unsafe { std::mem::transmute::<Box<dyn FnOnce() + 'a>, Job>(j) };
        let t = &wd.ths[free[k]];
        reset_op(t);
        t.opname.set(wd.ths[cur].opname.get());
        t.group.set(wd.ths[cur].group.get());
        t.opn.set(wd.ths[cur].opn.get() * 16 + 1 + k as u32);
        t.parent.set(cur);
        t.stall.set(0);
        t.quiet.set(0);
        t.st.set(St::Ready);
        *t.job.borrow_mut() = Some(j);
    }
    wd.ths[cur].waiting.set(n as u32);
    wd.ths[cur].st.set(St::Blocked);
    let was = wd.nthreads.get();
    wd.nthreads.set(was.max(2));
    switch(false);
    wd.nthreads.set(was);
}

fn i_am(t: &Th) -> bool {
    me() != MAIN && std::ptr::eq(t, th())
}

pub fn reset_op(t: &Th) {
    let _f = fine::set(false);
    if i_am(t) {
        reset_points();
    }
    t.pre.borrow_mut().clear();
    t.fault.borrow_mut().clear();
    t.nested.borrow_mut().clear();
    for s in &t.site {
        s.set(0);
    }
    t.incs.set(0);
    t.fired.set(0);
    t.threw.set(0);
    t.caught.set(0);
    t.nested_ran.set(0);
    t.call_cap.set(u64::MAX);
    t.lie.set(0);
    t.lies.set(0);
    t.copying.set(0);
}

/// Runs the given thread bodies to completion. Thread 0 runs alone until it clears `solo`.
pub fn run_threads(bodies: Vec<Job>, order: Vec<u32>) {
    let wd = w();
    *wd.order.borrow_mut() = order;
    wd.pos.set(0);
    wd.nthreads.set(bodies.len());
    for t in &wd.ths {
        t.st.set(St::Unused);
        t.stall.set(0);
        t.waiting.set(0);
        t.quiet.set(0);
        t.parent.set(MAIN);
        t.in_op.set(false);
        t.opn.set(0);
        t.opname.set("start");
        t.group.set("life");
        t.ctx.set(0);
        reset_op(t);
    }
    for (i, b) in bodies.into_iter().enumerate() {
        *wd.ths[i].job.borrow_mut() = Some(b);
        wd.ths[i].st.set(St::Ready);
    }
    give_token(0);
    wait_token(MAIN);
    wd.nthreads.set(0);
}

impl World {
    #[inline]
    pub fn th(&self, i: usize) -> &Th {
        &self.ths[i]
    }
    pub fn reset_run(&self, idx: u64) {
        self.idx.set(idx);
        self.steps.set(0);
        self.hash.set(0xcbf2_9ce4_8422_2325);
        self.sched_hash.set(0);
        self.fired.set(0);
        self.iterops.set(false);
        self.leak_ok.set(false);
        self.racy_rc.set(false);
        self.solo.set(true);
        self.uniq.set(0);
        self.insts.borrow_mut().clear();
        self.live_elems.set(0);
        self.live_nodes.set(0);
        self.born.set(0);
        self.last_group.set("life");
        self.beat.fetch_add(1, Relaxed);
    }
    /// Frees quarantined node memory. Only between runs.
    pub fn empty_grave(&self) {
        for (p, l) in self.grave.borrow_mut().drain(..) {
            unsafe { System.dealloc(p as *mut u8, l) };
        }
        self.grave_bytes.set(0);
    }
}

pub fn probe(name: &'static str) {
    count(name, 1);
}

pub fn count(name: &'static str, n: u64) {
    let _f = fine::set(false);
    outside(|| *w().stats.borrow_mut().entry(name).or_insert(0) += n);
}

pub fn stats_line() -> String {
    let wd = w();
    let mut s = format!(
        "STATS {{\"runs\":{},\"ops\":{},\"steps\":{},\"switches\":{},\"inop_switches\":{},\"callbacks\":{},\"node_copies\":{},\"places_passed\":{},\"switches_in_plain_code\":{}",
        wd.n_runs.get(), wd.n_ops.get(), wd.n_steps.get() + wd.steps.get(), wd.n_switch.get(),
        wd.n_inop_switch.get(), wd.n_callbacks.get(), wd.n_copies.get(),
        wd.n_fine.get(), wd.n_fine_switch.get()
    );
    for (i, n) in ["", "ref_inc", "ref_dec", "uniq_check", "ref_count", "unwrap", "rc_mid", ""].iter().enumerate() {
        if !n.is_empty() {
            s.push_str(&format!(",\"{}\":{}", n, wd.n_points[i].get()));
        }
    }
    if let Ok(st) = wd.stats.try_borrow() {
        for (k, v) in st.iter() {
            s.push_str(&format!(",\"{}\":{}", k, v));
        }
    }
    s.push_str("}\n");
    s
}

struct Quiet(usize, u64);
impl Drop for Quiet {
    fn drop(&mut self) {
        archery::sim::set_reads(self.1);
        let q = &w().ths[self.0].quiet;
        q.set(q.get() - 1);
    }
}

/// No scheduling points, faults or counters inside: used by the oracles.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let i = me();
    let q = &w().ths[i].quiet;
    q.set(q.get() + 1);
    let _g = Quiet(i, archery::sim::reads());
    let _f = fine::lock();
    f()
}

struct H;
static HOOKS: H = H;

impl archery::sim::Hooks for H {
    fn point(&self, p: archery::sim::Point, id: u64) {
        let _f = fine::set(false);
        let t = th();
        if t.quiet.get() == 0 {
            let c = &w().n_points[p as usize];
            c.set(c.get() + 1);
            t.points.set(t.points.get() + 1);
            if p == archery::sim::Point::Inc {
                t.incs.set(t.incs.get() + 1);
            }
        }
        point(p as u8, id);
    }
    fn dead(&self, what: &'static str, id: u64) -> ! {
        crate::viol::raise("uaf", &format!("{} that is already released (node {})", what, id & 0xffff_ffff))
    }
    fn racy_rc(&self) -> bool {
        let _f = fine::set(false);
        w().racy_rc.get() && w().nthreads.get() > 1
    }
    fn born(&self) -> u64 {
        let _f = fine::set(false);
        let wd = w();
        let b = wd.born.get() + 1;
        wd.born.set(b);
        wd.live_nodes.set(wd.live_nodes.get() + 1);
        (me() as u64) << 40 | b
    }
    fn copied(&self, id: u64, count: usize) {
        let _f = fine::set(false);
        let t = th();
        if t.quiet.get() == 0 {
            let c = &w().n_copies;
            c.set(c.get() + 1);
            t.copying.set(id);
            if count == 2 {
                probe("probe_copy_of_node_with_two_refs");
            }
        }
    }
    fn too_much(&self) -> ! {
        let _f = fine::set(false);
        crate::viol::raise("work", "an operation reads far more nodes than its cost allows; it may never end")
    }
    fn last(&self, id: u64) {
        let _f = fine::set(false);
        let t = th();
        if t.quiet.get() == 0 && me() != MAIN {
            if id >> 40 != me() as u64 {
                probe("probe_last_ref_dropped_by_other_thread");
            }
            if t.copying.get() == id {
                probe("probe_copy_became_unneeded_while_copying");
            }
        }
    }
    fn buried(&self, mem: *mut u8, layout: Layout) {
        let _f = fine::set(false);
        let wd = w();
        wd.live_nodes.set(wd.live_nodes.get() - 1);
        if wd.grave_bytes.get() > 48 << 20 {
            unsafe { System.dealloc(mem, layout) };
            return;
        }
        wd.grave_bytes.set(wd.grave_bytes.get() + layout.size());
        outside(|| wd.grave.borrow_mut().push((mem as usize, layout)));
    }
    fn alloc(&self, layout: Layout) -> *mut u8 {
        let _f = fine::set(false);
        unsafe { System.alloc(layout) }
    }
}

/// Called by every piece of caller code the library calls back into.
pub fn callback(site: Site) {
    let _f = fine::set(false);
    let i = me();
    let t = &w().ths[i];
    if i == MAIN || t.quiet.get() > 0 {
        return;
    }
    let n = t.site[site as usize].get() + 1;
    t.site[site as usize].set(n);
    w().n_callbacks.set(w().n_callbacks.get() + 1);
    if (site == Site::Cmp || site == Site::Pred) && n > t.call_cap.get() {
        crate::viol::raise("calls", &format!("{} calls of caller code, limit {}", n, t.call_cap.get()));
    }
    point(8 + site as u8, n);
    let nested = {
        let v = t.nested.borrow();
        v.iter().position(|x| x.0 == site && x.1 == n)
    };
    if let Some(k) = nested {
        let op = t.nested.borrow_mut().remove(k).2;
        if !std::thread::panicking() {
            t.nested_ran.set(t.nested_ran.get() + 1);
            probe("nested_ops_in_callbacks");
            crate::run_nested(&op);
        }
    }
    let fault = {
        let v = t.fault.borrow();
        v.iter().position(|x| x.0 == site && x.1 == n)
    };
    if let Some(k) = fault {
        t.fault.borrow_mut().remove(k);
        if !std::thread::panicking() {
            t.fired.set(t.fired.get() + 1);
            t.threw.set(t.threw.get() + 1);
            w().fired.set(w().fired.get() + 1);
            count(
                match site {
                    Site::Clone => "fault_panic_in_clone",
                    Site::Drop => "fault_panic_in_drop",
                    Site::Cmp => "fault_panic_in_cmp",
                    Site::Pred => "fault_panic_in_pred",
                    Site::Iter => "fault_panic_in_source_iterator",
                },
                1,
            );
            if site == Site::Drop {
                w().leak_ok.set(true);
            }
            trace(0xFA17 ^ n << 8 ^ (site as u64) << 50);
            std::panic::resume_unwind(Box::new(Injected(site)));
        }
    }
}
