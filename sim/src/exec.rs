// Included twice, once per flavour (V, FocusT, FocusMutT, RC are defined by the includer).
use crate::case::{Case, Op, K};
use crate::elem::{lie, Elem, Key};
use crate::fam::FAMS;
use crate::heap::lib;
use crate::rng::{mix, Rng};
use crate::viol::{broken, raise};
use crate::world::{self, boundary, callback, me, point, probe, quiet, th, w, Site};
use crate::{guard, P, WIDTH};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::ops::Bound;
use std::sync::Arc;

pub const SLOTS: usize = 6;
pub const CELLS: usize = 4;

pub struct Slot {
    v: V,
    m: Vec<u64>,
    fam: usize,
}

/// A vector other threads may read and clone through a plain shared reference.
pub struct Shared {
    v: V,
    m: Vec<u64>,
    fam: usize,
}

struct Board(RefCell<Vec<Option<Arc<Shared>>>>);

pub struct Ctx {
    slots: Vec<Option<Slot>>,
    busy: u32,
    rr: usize,
    board: *const Board,
}

type Bnd = (Bound<usize>, Bound<usize>);

fn bounds(a: usize, b: usize, kind: u64, len: usize) -> Bnd {
    let s = match kind % 3 {
        1 if a > 0 => Bound::Excluded(a - 1),
        2 if a == 0 => Bound::Unbounded,
        _ => Bound::Included(a),
    };
    let e = match (kind / 3) % 3 {
        1 if b > 0 => Bound::Included(b - 1),
        2 if b == len => Bound::Unbounded,
        _ => Bound::Excluded(b),
    };
    (s, e)
}

fn sub(a: u64, b: u64, len: usize) -> (usize, usize) {
    let x = (a % (len as u64 + 1)) as usize;
    let y = (b % (len as u64 + 1)) as usize;
    (x.min(y), x.max(y))
}

fn fresh() -> Slot {
    Slot { v: lib(V::new), m: vec![], fam: FAMS.fresh() }
}

fn clones() -> u64 {
    th().site[Site::Clone as usize].get()
}

fn cmps() -> u64 {
    th().site[Site::Cmp as usize].get() + th().site[Site::Pred as usize].get()
}

fn clean() -> bool {
    th().fired.get() == 0 && th().nested_ran.get() == 0
}

/// Work is counted in node reads and reference-count steps of the library, from `mark` on.
fn mark() {
    let t = th();
    t.work0.set(archery::sim::reads() + t.points.get());
}

fn work() -> u64 {
    let t = th();
    archery::sim::reads() + t.points.get() - t.work0.get()
}

/// What was done since `mark`, on vectors of at most `n` elements: `ends` operations at the ends or
/// single writes and `deep` cuts and concatenations.
fn effort(n: usize, ends: u64, deep: u64, what: &str) {
    spent_on(work(), n, ends, deep, what);
    mark();
}

fn spent_on(k: u64, n: usize, ends: u64, deep: u64, what: &str) {
    if th().quiet.get() > 0 || !clean() || w().fired.get() > 0 || cfg!(debug_assertions) {
        // the library's own assertions walk the tree
        return;
    }
    let (m, h) = (WIDTH as u64, height(n) as u64);
    let limit = if deep > 0 {
        20 * (m + 24) * h * deep
    } else {
        // on average a few steps; now and then a leaf, or a node on every level, is replaced
        40 * ends + 6 * m + 40 * h + (ends / m) * 10
    };
    if std::env::var_os("SIM_COST").is_some() {
        eprintln!("WORK {} {} {} {} {}", what.replace(' ', "_"), n, ends, k, limit);
    }
    if k > limit {
        raise("work", &format!("{} on {} elements took {} steps, limit {}", what, n, k, limit));
    }
}

fn log2(n: usize) -> u64 {
    (64 - (n as u64).leading_zeros()) as u64
}

/// Copies made between `c0` and now must not exceed `limit`.
fn cost(c0: u64, limit: u64, what: &str) {
    mark();
    // what a panicking drop leaks stays shared for ever
    if th().quiet.get() > 0 || !clean() || w().leak_ok.get() {
        return;
    }
    let n = clones() - c0;
    if std::env::var_os("SIM_COST").is_some() {
        eprintln!("COST {} {} {}", what, n, limit);
    }
    if n > limit {
        raise("copies", &format!("{}: {} elements copied, limit {}", what, n, limit));
    }
}

// copies an edit of shared data may make
fn few() -> u64 {
    6 * WIDTH as u64
}
fn squared() -> u64 {
    (3 * WIDTH * WIDTH + 6 * WIDTH) as u64
}
fn allowed(fam: usize, shared: u64) -> u64 {
    if FAMS.unshared(fam) {
        probe("edits_of_unshared_data");
        0
    } else {
        probe("edits_of_shared_data");
        shared
    }
}

fn unexpected(p: P, what: &str) -> Site {
    match p {
        P::Inj(s) => s,
        P::Lib(m) => raise("panic", &format!("{}: the library panicked: {}", what, m)),
    }
}

fn content(v: &V) -> Result<Vec<u64>, String> {
    quiet(|| match guard(|| v.iter().map(|e| e.val()).collect::<Vec<u64>>()) {
        Ok(m) => Ok(m),
        Err(P::Lib(m)) => Err(m),
        Err(P::Inj(_)) => Err("injected".into()),
    })
}

fn brief(m: &[u64]) -> String {
    let mut s = String::from("[");
    for (i, x) in m.iter().enumerate() {
        if i == 24 {
            s.push_str(" ..");
            break;
        }
        s.push_str(&format!("{}{}:{}", if i > 0 { " " } else { "" }, x >> 32, x & 0xffff_ffff));
    }
    s.push_str(&format!("] ({})", m.len()));
    s
}

fn first_diff(a: &[u64], b: &[u64]) -> String {
    let i = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let at = |v: &[u64]| v.get(i).map_or("nothing".to_string(), |x| format!("{}:{}", x >> 32, x & 0xffff_ffff));
    format!("lengths {} and {}, first difference at {}: {} instead of {}", a.len(), b.len(), i, at(a), at(b))
}

/// Compares a vector with its model. `Some((kind, text))` on a difference.
fn diff(v: &V, m: &[u64]) -> Option<(&'static str, String)> {
    quiet(|| {
        let n = m.len();
        if v.len() != n || v.is_empty() != (n == 0) {
            return Some(("content", format!("len() is {}, {} expected", v.len(), n)));
        }
        let step = if n <= 256 { 1 } else { n / 24 + 1 };
        let off = (w().steps.get() as usize) % step;
        let gets = |step: usize, off: usize| -> Result<Option<(&'static str, String)>, P> {
            let mut i = off;
            while i < n {
                let g = guard(|| v.get(i).map(|e| e.val()))?;
                if g != Some(m[i]) {
                    return Ok(Some(("content", format!("get({}) is {:?}, {:?} expected", i, g, m[i]))));
                }
                i += step;
            }
            Ok(None)
        };
        let it = guard(|| v.iter().map(|e| e.val()).collect::<Vec<u64>>());
        let g = match gets(step, off) {
            Ok(g) => g,
            Err(P::Lib(e)) => Some(("content", format!("get panicked: {}", e))),
            Err(P::Inj(_)) => None,
        };
        match it {
            Ok(ref a) if a == m => {
                if let Some((_, t)) = g {
                    return Some(("readpath", format!("iteration agrees but {}", t)));
                }
            }
            other => {
                let text = match other {
                    Ok(a) => format!("iteration: {}", first_diff(&a, m)),
                    Err(P::Lib(e)) => format!("iteration panicked: {}", e),
                    Err(P::Inj(_)) => "injected".into(),
                };
                if g.is_none() && matches!(gets(1, 0), Ok(None)) {
                    return Some(("readpath", format!("get agrees but {}", text)));
                }
                return Some(("content", text));
            }
        }
        match guard(|| (v.get(n).is_some(), v.front().map(|e| e.val()), v.back().map(|e| e.val()))) {
            Ok((over, f, b)) => {
                if over {
                    return Some(("readpath", format!("get({}) of a vector of that length is something", n)));
                }
                if f != m.first().cloned() || b != m.last().cloned() {
                    return Some(("readpath", format!("front/back are {:?}/{:?}", f, b)));
                }
            }
            Err(P::Lib(e)) => return Some(("readpath", format!("front/back panicked: {}", e))),
            Err(P::Inj(_)) => {}
        }
        if n <= 256 || off % 4 == 0 {
            match guard(|| v.iter().rev().map(|e| e.val()).collect::<Vec<u64>>()) {
                Ok(mut a) => {
                    a.reverse();
                    if a != m {
                        return Some(("readpath", format!("backward iteration: {}", first_diff(&a, m))));
                    }
                }
                Err(P::Lib(e)) => return Some(("readpath", format!("backward iteration panicked: {}", e))),
                Err(P::Inj(_)) => {}
            }
        }
        None
    })
}

fn verify(s: &Slot) {
    if let Some((cls, text)) = diff(&s.v, &s.m) {
        if th().fired.get() > 0 {
            raise("after_panic", &format!("{} ({})", text, cls));
        }
        raise(cls, &text);
    }
    depth(&s.v, s.m.len());
    trace_model(&s.m);
}

/// The height that `n` elements justify: nodes are half full, and a few levels may be nearly empty.
fn height(n: usize) -> usize {
    let (m, n) = (WIDTH as f64, n.max(1) as f64);
    (n.ln() / (m / 2.0).ln()).ceil() as usize + 3
}

/// The different nodes a lookup may read: nodes and size tables on both edges and on the way down.
fn reach(n: usize) -> usize {
    6 * height(n)
}

/// The tree must not be deeper than its length justifies, whatever it went through: a deep
/// tree shows in the number of nodes a lookup has to read.
fn depth(v: &V, n: usize) {
    if w().fired.get() > 0 {
        return;
    }
    let limit = reach(n);
    quiet(|| {
        let mut worst = 0;
        let step = n / 12 + 1;
        let mut i = w().steps.get() as usize % step;
        while i < n {
            let mut read = Ok(());
            let k = archery::sim::nodes_read(|| read = guard(|| v.get(i).map(|e| e.val())).map(|_| ()));
            if read.is_err() {
                return;
            }
            worst = worst.max(k);
            i += step;
        }
        if std::env::var_os("SIM_DEPTH").is_some() {
            eprintln!("DEPTH {} 0 {} {}", n, worst, limit);
        }
        if worst > limit {
            raise("depth", &format!("a lookup in {} elements reads {} nodes, limit {}", n, worst, limit));
        }
    });
}

/// Between operations the library keeps nothing but what the live handles hold: no more elements
/// than their lengths add up to, and nodes in proportion.
fn memory() {
    memory_with(None);
}

/// The same within an operation of the calling thread that holds a vector of `own` elements.
pub fn memory_with(own: Option<usize>) {
    let wd = w();
    if wd.leak_ok.get() || wd.racy_rc.get() {
        return;
    }
    let (mut elems, mut nodes) = (0i64, 0i64);
    let mut add = |n: usize| {
        elems += n as i64;
        nodes += room(n);
    };
    if let Some(n) = own {
        add(n);
    }
    let mut board = std::ptr::null();
    for i in 0..world::MAXT {
        let t = wd.th(i);
        if t.in_op.get() && (own.is_none() || i != me()) {
            return;
        }
        let ctx = t.ctx.get() as *const Ctx;
        if !ctx.is_null() {
            let ctx = unsafe { &*ctx };
            board = ctx.board;
            for s in ctx.slots.iter().flatten() {
                add(s.m.len());
            }
        }
    }
    if board.is_null() {
        return;
    }
    for s in unsafe { &*board }.0.borrow().iter().flatten() {
        add(s.m.len());
    }
    probe("memory_checks");
    if std::env::var_os("SIM_MEM").is_some() {
        eprintln!("MEM {} {} {} {}", elems, wd.live_elems.get(), nodes, wd.live_nodes.get());
    }
    if wd.live_elems.get() > elems {
        raise("memory", &format!("{} elements are alive, the live vectors hold {}", wd.live_elems.get(), elems));
    }
    if wd.live_nodes.get() > nodes {
        raise("memory", &format!("{} nodes are alive, limit {} for {} elements", wd.live_nodes.get(), nodes, elems));
    }
}

/// The nodes a vector of `n` elements may consist of.
fn room(n: usize) -> i64 {
    (2 * n / WIDTH + (WIDTH + 8) * height(n)) as i64
}

fn trace_model(m: &[u64]) {
    let mut h = m.len() as u64;
    for x in m.iter().take(64) {
        h = h.wrapping_mul(0x100_0000_01b3) ^ x;
    }
    world::trace(h);
}

fn bystander(v: &V, m: &[u64], what: &str) {
    if let Some((_, text)) = diff(v, m) {
        raise("bystander", &format!("{}: {}", what, text));
    }
}

fn drop_v(v: V, fam: usize) {
    if let Err(p) = guard(move || drop(v)) {
        unexpected(p, "drop");
    }
    FAMS.dropped(fam);
}

fn hush(e: Elem) {
    quiet(|| drop(e));
}

/// The vector was under a structural operation when a panic went through it: nothing is promised
/// about its contents, but using and dropping it must stay memory safe.
fn scrap(s: Slot, seed: u64) {
    probe("scrapped_after_panic");
    FAMS.spoil(s.fam);
    let mut r = Rng::new(seed);
    let Slot { mut v, fam, .. } = s;
    if r.pct(60) {
        for _ in 0..r.range(1, 5) {
            let what = r.below(10);
            let x = r.below(70);
            let res = guard(|| match what {
                0 => v.push_back(Elem::new(1)),
                1 => v.push_front(Elem::new(1)),
                2 => hush_opt(v.pop_back()),
                3 => hush_opt(v.pop_front()),
                4 => {
                    v.get(x).map(|e| e.val());
                }
                5 => {
                    v.iter().take(200).for_each(|e| {
                        e.val();
                    });
                }
                6 => {
                    let c = v.clone();
                    c.iter().take(100).for_each(|e| {
                        e.val();
                    });
                }
                7 => drop(v.split_off(x)),
                8 => {
                    if let Some(e) = v.get_mut(x) {
                        let old = std::mem::replace(e, Elem::new(2));
                        hush(old);
                    }
                }
                _ => {
                    let mut f = v.focus_mut();
                    if let Some(e) = f.get(x) {
                        e.val();
                    }
                }
            });
            if let Err(P::Lib(_)) = res {
                // allowed here; but what the library does while failing inside is not promised
                // to be leak free
                w().leak_ok.set(true);
                probe("panics_using_a_scrapped_vector");
            }
        }
    }
    if let Err(p) = guard(move || drop(v)) {
        unexpected(p, "drop of a vector after a panic");
    }
    FAMS.dropped(fam);
}

fn hush_opt(e: Option<Elem>) {
    if let Some(e) = e {
        hush(e);
    }
}

/// After a panic inside an in-place operation: the new contents must be a permutation of the old
/// inside `a..b` and identical outside.
fn permuted(s: &mut Slot, a: usize, b: usize) {
    let now = match content(&s.v) {
        Ok(c) => c,
        Err(e) => raise("after_panic", &format!("reading panicked: {}", e)),
    };
    if now.len() != s.m.len() || now[..a] != s.m[..a] || now[b..] != s.m[b..] {
        raise("after_panic", &format!("outside the range: {}", first_diff(&now, &s.m)));
    }
    let mut x = now[a..b].to_vec();
    let mut y = s.m[a..b].to_vec();
    x.sort_unstable();
    y.sort_unstable();
    if x != y {
        raise("after_panic", &format!("elements lost or duplicated: {}", first_diff(&x, &y)));
    }
    s.m = now;
    verify(s);
}

/// After a panic inside push or pop: either the old or the new contents.
fn either(s: &mut Slot, new: Vec<u64>) {
    let now = match content(&s.v) {
        Ok(c) => c,
        Err(e) => raise("after_panic", &format!("reading panicked: {}", e)),
    };
    if now == new {
        s.m = new;
    } else if now != s.m {
        raise("after_panic", &format!("neither undone nor done: {} instead of {} or {}", brief(&now), brief(&s.m), brief(&new)));
    }
    verify(s);
}

impl Ctx {
    fn new(board: *const Board) -> Ctx {
        Ctx { slots: (0..SLOTS).map(|_| None).collect(), busy: 0, rr: 0, board }
    }

    fn free(&self, x: u64) -> usize {
        let mut i = (x % SLOTS as u64) as usize;
        while self.busy & (1 << i) != 0 {
            i = (i + 1) % SLOTS;
        }
        i
    }

    fn take(&mut self, x: u64) -> (usize, Slot) {
        let i = self.free(x);
        self.busy |= 1 << i;
        (i, self.slots[i].take().unwrap_or_else(fresh))
    }

    fn put(&mut self, i: usize, s: Slot) {
        self.busy &= !(1 << i);
        let old = self.slots[i].replace(s);
        if let Some(o) = old {
            drop_v(o.v, o.fam);
        }
    }

    fn gone(&mut self, i: usize) {
        self.busy &= !(1 << i);
    }

    fn board(&self) -> &'static Board {
        unsafe { &*self.board }
    }

    fn cell(&self, b: u64) -> Option<Arc<Shared>> {
        let _f = fine::set(false);
        self.board().0.borrow()[(b % CELLS as u64) as usize].clone()
    }

    fn set_cell(&self, b: u64, s: Option<Arc<Shared>>) {
        let old = {
            let _f = fine::set(false);
            let mut c = self.board().0.borrow_mut();
            std::mem::replace(&mut c[(b % CELLS as u64) as usize], s)
        };
        drop_shared(old);
    }

    /// After an operation: another handle of this thread, or a shared one, must be unchanged.
    fn look_around(&mut self) {
        self.rr = self.rr.wrapping_add(1);
        let i = self.rr % (SLOTS + 2);
        if i < SLOTS {
            if let Some(s) = &self.slots[i] {
                bystander(&s.v, &s.m, "another handle of the thread");
            }
        } else if let Some(s) = self.cell((self.rr / (SLOTS + 2)) as u64 * 2 + i as u64) {
            bystander(&s.v, &s.m, "a handle shared by reference");
        }
    }
}

fn drop_shared(s: Option<Arc<Shared>>) {
    if let Some(a) = s {
        if let Ok(s) = Arc::try_unwrap(a) {
            bystander(&s.v, &s.m, "a handle shared by reference, when its last user lets go");
            drop_v(s.v, s.fam);
        }
    }
}

struct Ptr<T>(T);
unsafe impl<T> Send for Ptr<T> {}

pub fn run(c: &Case) {
    let board = Board(RefCell::new((0..CELLS).map(|_| None).collect()));
    let bp = Ptr(&board as *const Board as usize);
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let n = c.threads.len();
    let left = std::rc::Rc::new(std::cell::Cell::new(n));
    for t in 0..n {
        let b = bp.0;
        let ops = Ptr((c.pre.as_ptr(), c.pre.len(), c.threads[t].as_ptr(), c.threads[t].len()));
        let left = Ptr(left.clone());
        bodies.push(Box::new(move || {
            let ops = ops;
            let left = left;
            let (pre, ops) = unsafe {
                let o = ops.0;
                (std::slice::from_raw_parts(o.0, o.1), std::slice::from_raw_parts(o.2, o.3))
            };
            body(t, pre, ops, b as *const Board, &left.0);
            drop(left);
        }));
    }
    world::run_threads(bodies, c.order.clone());
}

fn body(t: usize, pre: &[Op], ops: &[Op], board: *const Board, left: &std::cell::Cell<usize>) {
    let mut ctx = Ctx::new(board);
    th().ctx.set(&mut ctx as *mut Ctx as usize);
    if t == 0 {
        for op in pre {
            exec(&mut ctx, op);
        }
        w().solo.set(false);
    }
    for op in ops {
        exec(&mut ctx, op);
    }
    // the end of a thread: everything it holds must still be what it was, then go, one by one
    begin("end", "life");
    for i in 0..SLOTS {
        if let Some(s) = &ctx.slots[i] {
            bystander(&s.v, &s.m, "a handle at the end of its thread");
        }
    }
    for i in 0..SLOTS {
        boundary();
        if let Some(s) = ctx.slots[i].take() {
            th().in_op.set(true);
            bystander(&s.v, &s.m, "a handle about to be dropped");
            drop_v(s.v, s.fam);
            th().in_op.set(false);
            memory();
        }
    }
    th().ctx.set(0);
    left.set(left.get() - 1);
    if left.get() == 0 {
        for b in 0..CELLS {
            boundary();
            ctx.set_cell(b as u64, None);
        }
    }
}

fn begin(name: &'static str, group: &'static str) {
    let _f = fine::set(false);
    let t = th();
    mark();
    world::reset_op(t);
    t.opname.set(name);
    t.group.set(group);
    w().last_group.set(group);
}

pub fn nested(ctx: usize, op: &Op) {
    // Runs inside a callback of another operation of the same thread, on other handles.
    let ctx = unsafe { &mut *(ctx as *mut Ctx) };
    if ctx.busy.count_ones() as usize + 3 > SLOTS {
        return;
    }
    if let Some(t) = Some(th()) {
        let (n, g) = (t.opname.get(), t.group.get());
        let (cap, l) = (t.call_cap.get(), t.lie.get());
        t.call_cap.set(u64::MAX);
        t.lie.set(0);
        act(ctx, op);
        t.call_cap.set(cap);
        t.lie.set(l);
        t.opname.set(n);
        t.group.set(g);
    }
}

fn exec(ctx: &mut Ctx, op: &Op) {
    boundary();
    let t = th();
    begin(op.k.name(), op.k.group());
    t.opn.set(t.opn.get() + 1);
    {
        world::set_pre(t, op.pre.clone());
        *t.fault.borrow_mut() = op.fault.iter().map(|f| (site(f.0), f.1)).collect();
        *t.nested.borrow_mut() = op.nested.iter().map(|f| (site(f.0), f.1, f.2.clone())).collect();
        t.lie.set(op.lie);
    }
    if op.k.group() == "iter" {
        w().iterops.set(true);
    }
    t.in_op.set(true);
    world::trace(op.k as u64 ^ 0x0b00);
    act(ctx, op);
    swallowed();
    t.in_op.set(false);
    t.lie.set(0);
    t.fault.borrow_mut().clear();
    w().n_ops.set(w().n_ops.get() + 1);
    memory();
    ctx.look_around();
}

/// A panic of caller code must come out of the operation it was thrown in.
fn swallowed() {
    let t = th();
    if t.threw.get() > t.caught.get() {
        raise("swallowed", "a panic of caller code did not reach the caller");
    }
}

fn site(i: u8) -> Site {
    [Site::Clone, Site::Drop, Site::Cmp, Site::Pred, Site::Iter][i as usize]
}

fn comparator(mode: u64) -> impl Fn(&Elem, &Elem) -> Ordering {
    move |a: &Elem, b: &Elem| {
        let (x, y) = (a.val(), b.val());
        callback(Site::Cmp);
        a.check("comparison");
        b.check("comparison");
        if let Some(l) = lie(x, y) {
            return l;
        }
        rank(mode, x).cmp(&rank(mode, y))
    }
}

/// What a sort mode orders by.
fn rank(mode: u64, v: u64) -> u64 {
    match mode % 8 {
        0 => v,
        1 => !v,
        2 => (v >> 32) % 3,
        3 => v >> 32,
        4 => 0,
        5 => (v >> 32) & 1,
        6 => mix(v),
        _ => v & 0xffff_ffff,
    }
}

fn sort_cap(n: usize) -> u64 {
    let t = th();
    let n64 = n as u64;
    if t.lie.get() != 0 {
        4 * n64 * n64 + 60 * n64 * log2(n) + 1000
    } else if rand_xoshiro::sim::PATTERN.load(std::sync::atomic::Ordering::Relaxed) != 0 {
        4 * n64 * n64 + 1000
    } else {
        12 * n64 * log2(n) + 40 * n64 + 200
    }
}

/// (position by value) for vectors whose values are all different.
fn position_map(m: &[u64]) -> Option<Vec<(u64, u32)>> {
    let mut p: Vec<(u64, u32)> = m.iter().enumerate().map(|(i, v)| (*v, i as u32)).collect();
    p.sort_unstable();
    if p.windows(2).any(|x| x[0].0 == x[1].0) {
        None
    } else {
        Some(p)
    }
}

fn pos(p: &[(u64, u32)], v: u64) -> usize {
    match p.binary_search_by(|x| x.0.cmp(&v)) {
        Ok(i) => p[i].1 as usize,
        Err(_) => raise("search", "the search showed the predicate an element that is not in the vector"),
    }
}

include!("ops_edit.rs");
include!("ops_read.rs");
include!("ops_mut.rs");
include!("ops_odd.rs");

fn act(ctx: &mut Ctx, op: &Op) {
    use K::*;
    match op.k {
        New | Grow | Build | Const | Single | Collect => create(ctx, op),
        Clone | Drop | Swap | Pub | BClone | BTake | Forget => life(ctx, op),
        PushB | PushF | PopB | PopF | PushN | PopN => ends(ctx, op),
        Append | Prepend | SelfApp | Split | SliceStart | SliceEnd | Extract | Insert | Remove => structure(ctx, op),
        Set | SetEnds | Guard => write(ctx, op),
        Reverse | RevRange => reverse(ctx, op),
        Oob => misuse(ctx, op),
        Stir => stir(ctx, op),
        Odd => odd(ctx, op),
        Sort | SortRange => sort(ctx, op),
        Dual => dual(ctx, op),
        Get | Focus | Search | KeySearch | Iter => {
            let (i, s) = ctx.take(op.a[0]);
            let c0 = clones();
            read(&s.v, &s.m, op);
            cost(c0, 0, op.k.name());
            verify(&s);
            ctx.put(i, s);
        }
        BRead => {
            if let Some(s) = ctx.cell(op.a[0]) {
                let c0 = clones();
                let mut o = op.clone();
                o.k = [Get, Iter, Focus, Search][(op.a[5] % 4) as usize];
                probe("reads_through_shared_reference");
                read(&s.v, &s.m, &o);
                cost(c0, 0, "read through a shared reference");
                drop_shared(Some(s));
            }
        }
        Eq => compare(ctx, op),
        IterMut => iter_mut(ctx, op),
        IntoIter => into_iter(ctx, op),
        FMut => fmut(ctx, op),
        FPar => fpar(ctx, op),
    }
}
