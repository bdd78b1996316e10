// Sorting, mutable iteration, consuming iteration, mutable foci.

fn check_sorted(m: &[u64], mode: u64) {
    if let Some(i) = (1..m.len()).find(|&i| rank(mode, m[i - 1]) > rank(mode, m[i])) {
        raise("sorted", &format!("not ordered at {} of {}", i, m.len()));
    }
}

fn same_multiset(a: &[u64], b: &[u64], what: &str) {
    let mut x = a.to_vec();
    let mut y = b.to_vec();
    x.sort_unstable();
    y.sort_unstable();
    if x != y {
        raise("sorted", &format!("{}: elements lost or duplicated: {}", what, first_diff(&x, &y)));
    }
}

fn call_sort(v: &mut V, how: u64, mode: u64, whole: bool, rg: Bnd) {
    let f = comparator(mode);
    let key = |e: &Elem| {
        let x = e.val();
        callback(Site::Cmp);
        e.check("sort key");
        rank(mode, x)
    };
    match how % 3 {
        0 if mode % 8 == 0 => {
            if whole {
                v.sort()
            } else {
                v.sort_range(rg)
            }
        }
        1 => v.sort_range_by_key(&key, rg),
        _ => {
            if whole {
                v.sort_by(&f)
            } else {
                v.sort_range_by(&f, rg)
            }
        }
    }
}

fn sort(ctx: &mut Ctx, op: &Op) {
    let (i, mut s) = ctx.take(op.a[0]);
    let n = s.m.len();
    let (a, b) = if op.k == K::Sort { (0, n) } else { sub(op.a[1], op.a[2], n) };
    let mode = op.a[3];
    let how = op.a[4];
    let rg = bounds(a, b, op.a[5], n);
    let c0 = clones();
    let q0 = cmps();
    let lim = allowed(s.fam, (n as u64) + few());
    let lying = th().lie.get() != 0;
    // a key function is called twice per comparison
    let cap = sort_cap(b - a) * if how % 3 == 1 { 2 } else { 1 };
    th().call_cap.set(q0 + cap);
    let v = &mut s.v;
    let res = guard(|| call_sort(v, how, mode, a == 0 && b == n, rg));
    th().call_cap.set(u64::MAX);
    if std::env::var_os("SIM_COST").is_some() {
        eprintln!("CALLS sort {} n={} cap={} mode={}", cmps() - q0, b - a, cap, mode % 8);
    }
    th().lie.set(0);
    match res {
        Ok(()) => {
            cost(c0, lim, "sort");
            let now = match content(&s.v) {
                Ok(c) => c,
                Err(e) => raise("sorted", &format!("reading afterwards panicked: {}", e)),
            };
            if now.len() != n || now[..a] != s.m[..a] || now[b..] != s.m[b..] {
                raise("sorted", &format!("outside {}..{}: {}", a, b, first_diff(&now, &s.m)));
            }
            same_multiset(&now[a..b], &s.m[a..b], "sort");
            if !lying {
                check_sorted(&now[a..b], mode);
            }
            s.m = now;
            verify(&s);
        }
        Err(P::Lib(_)) if lying => {
            probe("sort_panic_with_inconsistent_answers");
            permuted(&mut s, a, b);
        }
        Err(p) => {
            if unexpected(p, "sort") == Site::Drop {
                scrap(s, op.a[1]);
                return ctx.gone(i);
            }
            permuted(&mut s, a, b);
        }
    }
    ctx.put(i, s);
}

fn dual(ctx: &mut Ctx, op: &Op) {
    let (i, mut s) = ctx.take(op.a[0]);
    let (j, mut q) = ctx.take(op.a[1]);
    let n = s.m.len();
    // the second vector must reach as far as the sorted range; make it so
    if q.m.len() < n {
        let extra = n - q.m.len();
        let mut new = vec![];
        let v = &mut q.v;
        let res = quiet(|| {
            guard(|| {
                for k in 0..extra {
                    let e = Elem::new(k as u32);
                    new.push(e.val());
                    v.push_back(e);
                }
            })
        });
        if let Err(p) = res {
            unexpected(p, "push");
        }
        q.m.extend(new);
    }
    let (a, b) = if op.a[4] % 2 == 0 { (0, n) } else { sub(op.a[2], op.a[2] / 7 + 3, n) };
    let mode = op.a[3];
    let rg = bounds(a, b, op.a[5], n);
    let c0 = clones();
    let q0 = cmps();
    let lim = allowed(s.fam, n as u64 + few()) + allowed(q.fam, q.m.len() as u64 + few());
    let lying = th().lie.get() != 0;
    let how = op.a[4] / 2 % 3;
    let cap = sort_cap(b - a) * if how == 1 { 2 } else { 1 };
    th().call_cap.set(q0 + cap);
    let (v, u) = (&mut s.v, &mut q.v);
    let f = comparator(mode);
    let key = |e: &Elem| {
        let x = e.val();
        callback(Site::Cmp);
        e.check("sort key");
        rank(mode, x)
    };
    let res = guard(|| match how {
        0 if mode % 8 == 0 => {
            if a == 0 && b == n {
                v.dual_sort(u)
            } else {
                v.dual_sort_range(rg, u)
            }
        }
        1 => v.dual_sort_range_by_key(&key, rg, u),
        _ => {
            if a == 0 && b == n {
                v.dual_sort_by(&f, u)
            } else {
                v.dual_sort_range_by(&f, rg, u)
            }
        }
    });
    th().call_cap.set(u64::MAX);
    th().lie.set(0);
    let both = |s: &mut Slot, q: &mut Slot| {
        permuted(s, a, b);
        permuted(q, a, b);
    };
    match res {
        Ok(()) => {
            cost(c0, lim, "paired sort");
            let (x, y) = match (content(&s.v), content(&q.v)) {
                (Ok(x), Ok(y)) => (x, y),
                (Err(e), _) | (_, Err(e)) => raise("sorted", &format!("reading afterwards panicked: {}", e)),
            };
            if x.len() != n || x[..a] != s.m[..a] || x[b..] != s.m[b..] {
                raise("sorted", &format!("outside {}..{}: {}", a, b, first_diff(&x, &s.m)));
            }
            if y.len() != q.m.len() || y[..a] != q.m[..a] || y[b..] != q.m[b..] {
                raise("sorted", &format!("paired vector outside {}..{}: {}", a, b, first_diff(&y, &q.m)));
            }
            let mut before: Vec<(u64, u64)> = (a..b).map(|k| (s.m[k], q.m[k])).collect();
            let mut after: Vec<(u64, u64)> = (a..b).map(|k| (x[k], y[k])).collect();
            before.sort_unstable();
            after.sort_unstable();
            if before != after {
                same_multiset(&x[a..b], &s.m[a..b], "paired sort, first vector");
                same_multiset(&y[a..b], &q.m[a..b], "paired sort, second vector");
                raise("sorted", "the two vectors were permuted differently");
            }
            if !lying {
                check_sorted(&x[a..b], mode);
            }
            s.m = x;
            q.m = y;
            verify(&s);
            verify(&q);
        }
        Err(P::Lib(_)) if lying => {
            probe("sort_panic_with_inconsistent_answers");
            both(&mut s, &mut q);
        }
        Err(p) => {
            if unexpected(p, "paired sort") == Site::Drop {
                scrap(s, op.a[2]);
                scrap(q, op.a[2] ^ 1);
                ctx.gone(i);
                return ctx.gone(j);
            }
            both(&mut s, &mut q);
        }
    }
    ctx.put(i, s);
    ctx.put(j, q);
}

fn iter_mut(ctx: &mut Ctx, op: &Op) {
    let (i, mut s) = ctx.take(op.a[0]);
    let n = s.m.len();
    let mut r = Rng::new(op.a[1] ^ 0x17e2);
    let steps = if op.a[2] % 4 == 0 { n + 2 } else { (op.a[2] as usize) % (n + 2) };
    let c0 = clones();
    let lim = allowed(s.fam, n as u64 + few());
    let mut writes: Vec<(usize, u64)> = vec![];
    let (v, m) = (&mut s.v, &s.m);
    let late = r.pct(50);
    let res = guard(|| {
        let mut it = if r.pct(20) { (&mut *v).into_iter() } else { v.iter_mut() };
        let (mut f, mut b) = (0, n);
        let style = r.below(4);
        let mut held: Vec<(usize, &mut Elem)> = vec![];
        for _ in 0..steps {
            if it.len() != b - f || it.size_hint() != (b - f, Some(b - f)) {
                raise("retval", &format!("mutable iterator: len {}, size_hint {:?}, {} expected", it.len(), it.size_hint(), b - f));
            }
            let front = match style {
                0 => true,
                1 => false,
                _ => r.pct(50),
            };
            let got = if front { it.next() } else { it.next_back() };
            let at = if f == b { None } else if front { Some(f) } else { Some(b - 1) };
            match (got, at) {
                (None, None) => {}
                (Some(e), Some(at)) => {
                    if e.val() != m[at] {
                        raise("retval", &format!("mutable iterator: element {} at {}, {} expected", e.val(), at, m[at]));
                    }
                    if front {
                        f += 1
                    } else {
                        b -= 1
                    }
                    if late {
                        held.push((at, e));
                    } else if r.pct(60) {
                        writes.push((at, put(e, &mut r)));
                    }
                }
                (g, _) => raise("retval", &format!("mutable iterator: {} with {} left", if g.is_some() { "something" } else { "nothing" }, b - f)),
            }
        }
        // everything handed out is still valid, distinct and where it was
        let order = r.next();
        held.sort_by_key(|h| mix(order ^ h.0 as u64));
        for (at, e) in held {
            if e.val() != m[at] {
                raise("content", &format!("reference {} of a mutable iterator shows {} instead of {}", at, e.val(), m[at]));
            }
            point(15, 2);
            if r.pct(60) {
                writes.push((at, put(e, &mut r)));
            }
        }
        drop(it);
    });
    for (at, x) in writes {
        s.m[at] = x;
    }
    match res {
        Ok(()) => cost(c0, lim, "mutable iteration"),
        Err(p) => {
            if unexpected(p, "mutable iteration") == Site::Drop {
                scrap(s, op.a[1]);
                return ctx.gone(i);
            }
        }
    }
    verify(&s);
    ctx.put(i, s);
}

fn put(e: &mut Elem, r: &mut Rng) -> u64 {
    let new = Elem::new(r.next() as u32 >> 8);
    let v = new.val();
    let old = std::mem::replace(e, new);
    hush(old);
    v
}

fn into_iter(ctx: &mut Ctx, op: &Op) {
    let (i, s) = ctx.take(op.a[0]);
    let n = s.m.len();
    let mut r = Rng::new(op.a[1] ^ 0x1e2);
    let steps = if op.a[2] % 4 == 0 { n + 2 } else { (op.a[2] as usize) % (n + 2) };
    let Slot { v, m, fam } = s;
    let mut it = match guard(|| v.into_iter()) {
        Ok(it) => it,
        Err(p) => {
            unexpected(p, "into_iter");
            FAMS.dropped(fam);
            return ctx.gone(i);
        }
    };
    let (mut f, mut b) = (0, n);
    let style = r.below(4);
    for _ in 0..steps {
        let c0 = clones();
        let lim = allowed(fam, few());
        if it.len() != b - f || it.size_hint() != (b - f, Some(b - f)) {
            raise("retval", &format!("consuming iterator: len {}, size_hint {:?}, {} expected", it.len(), it.size_hint(), b - f));
        }
        let front = match style {
            0 => true,
            1 => false,
            _ => r.pct(50),
        };
        let res = guard(|| if front { it.next() } else { it.next_back() });
        match res {
            Ok(e) => {
                let got = e.as_ref().map(|e| e.val());
                hush_opt(e);
                let want = if f == b { None } else if front { Some(m[f]) } else { Some(m[b - 1]) };
                if got != want {
                    raise("retval", &format!("consuming iterator: {:?}, {:?} expected ({} left)", got, want, b - f));
                }
                if want.is_some() {
                    if front {
                        f += 1
                    } else {
                        b -= 1
                    }
                }
                cost(c0, lim, "consuming iteration");
                if (f + n - b) % 32 == 31 && clean() {
                    // What was yielded is gone already.
                    memory_with(Some(b - f));
                }
            }
            Err(p) => {
                unexpected(p, "consuming iteration");
                break;
            }
        }
    }
    let live = w().live_elems.get();
    let alone = FAMS.unshared(fam) && clean() && w().nthreads.get() == 1;
    if let Err(p) = guard(move || drop(it)) {
        unexpected(p, "drop of a consuming iterator");
    } else if alone && clean() && live - w().live_elems.get() != (b - f) as i64 {
        raise("release", &format!("a dropped consuming iterator with {} left released {} elements", b - f, live - w().live_elems.get()));
    }
    FAMS.dropped(fam);
    ctx.gone(i);
}

/// One access of a mutable focus.
fn touch(f: &mut FocusMutT, m: &mut [u64], r: &mut Rng) {
    let n = m.len();
    if f.len() != n || f.is_empty() != (n == 0) {
        raise("retval", &format!("mutable focus: len {}, {} expected", f.len(), n));
    }
    if n == 0 || r.pct(10) {
        let mut q = Rng::new(r.clone().next() ^ 0xab05e);
        let i = if q.pct(20) { beyond(n, &mut q) } else { n + r.log(3 * WIDTH) };
        match q.below(6) {
            0 => refused("a mutable focus indexed beyond its end", || {
                f.index(i);
            }),
            1 => refused("a mutable focus split beyond its end", || {
                f.split_at(i.max(n + 1));
            }),
            _ => {
                if f.get(i).is_some() {
                    raise("retval", &format!("mutable focus of {} elements: something at {}", n, i));
                }
            }
        }
        return;
    }
    let i = match r.below(4) {
        0 => r.below(n),
        1 => n - 1 - r.log(4).min(n - 1),
        2 => r.log(4).min(n - 1),
        _ => r.below(n),
    };
    let e: &mut Elem = if r.pct(20) {
        f.index(i)
    } else {
        match f.get(i) {
            Some(e) => e,
            None => raise("retval", &format!("mutable focus of {} elements: nothing at {}", n, i)),
        }
    };
    if e.val() != m[i] {
        raise("retval", &format!("mutable focus: {} at {} of {}, {} expected", e.val(), i, n, m[i]));
    }
    point(15, 3);
    if r.pct(65) {
        m[i] = put(e, r);
        point(15, 4);
        if e.val() != m[i] {
            raise("content", "a write through a mutable focus did not stay");
        }
    }
}

/// Uses a mutable focus and nested splits of it; returns when done. `m` follows the writes even
/// when a panic cuts the use short.
fn play_mut(f: &mut FocusMutT, m: &mut [u64], r: &mut Rng, steps: usize, depth: u32) {
    let mut k = 0;
    while k < steps.max(1) {
        k += 1;
        if depth < 4 && r.pct(12) {
            let n = m.len();
            let at = r.below(n + 1);
            let (ml, mr) = m.split_at_mut(at);
            let (mut a, mut b) = f.split_at(at);
            let each = (steps / 3).max(1);
            // the two halves in turns
            for _ in 0..r.range(1, 3) {
                if r.pct(50) {
                    play_mut(&mut a, ml, r, each, depth + 1);
                }
                if r.pct(50) {
                    play_mut(&mut b, mr, r, each, depth + 1);
                }
            }
            if r.pct(30) {
                drop(a);
                touch(&mut b, mr, r);
            } else if r.pct(30) {
                drop(b);
                touch(&mut a, ml, r);
            }
            k += each;
        } else {
            touch(f, m, r);
        }
    }
}

fn fmut(ctx: &mut Ctx, op: &Op) {
    let (i, mut s) = ctx.take(op.a[0]);
    let n = s.m.len();
    let mut r = Rng::new(op.a[1] ^ 0xf0c5);
    let c0 = clones();
    let lim = allowed(s.fam, (n as u64).max(few()));
    let mut m = s.m.clone();
    let v = &mut s.v;
    let res = guard(|| {
        let mut f = v.focus_mut();
        play_mut(&mut f, &mut m, &mut r, op.a[2] as usize, 0);
    });
    s.m = m;
    match res {
        Ok(()) => cost(c0, lim, "mutable focus"),
        Err(p) => {
            if unexpected(p, "mutable focus") == Site::Drop {
                scrap(s, op.a[1]);
                return ctx.gone(i);
            }
        }
    }
    if n > 0 && op.a[3] % 5 == 0 {
        // splitting beyond the end is refused
        let v = &mut s.v;
        match guard(|| {
            let mut f = v.focus_mut();
            let _ = f.split_at(n + 1);
        }) {
            Err(P::Lib(_)) => {}
            Err(P::Inj(Site::Drop)) => {
                scrap(s, op.a[1]);
                return ctx.gone(i);
            }
            Err(P::Inj(_)) => {}
            Ok(()) => raise("misuse", "a mutable focus was split beyond its end"),
        }
    }
    verify(&s);
    ctx.put(i, s);
}

struct Part {
    focus: *mut (),
    m: Vec<u64>,
    seed: u64,
    res: Option<Result<(), P>>,
    clones: u64,
    nested: u32,
}

/// Parts of one split mutable focus, used at the same time by several threads.
fn fpar(ctx: &mut Ctx, op: &Op) {
    let (i, mut s) = ctx.take(op.a[0]);
    let n = s.m.len();
    let k = 2 + (op.a[1] % 3) as usize;
    let mut r = Rng::new(op.a[2] ^ 0xfa7);
    let c0 = clones();
    let lim = allowed(s.fam, (n as u64).max(few()));
    let mut parts: Vec<(usize, usize)> = vec![];
    let mut m = s.m.clone();
    let steps = (op.a[3] % 64) as usize;
    // The single-threaded flavour counts references without atomics: parts of it run one after
    // the other unless the case asks for the race.
    let together = !RC || w().racy_rc.get();
    let fault = (op.a[4], op.a[5]);
    let mut bad: Option<P> = None;
    let v = &mut s.v;
    let mut child_clones = 0;
    let mut child_dirty = false;
    let res = guard(|| {
        let mut f = v.focus_mut();
        let mut jobs: Vec<Part> = vec![];
        chain(&mut f, 0, n, k - 1, &mut r, &mut jobs, &mut parts, &mut m, &mut |jobs: &mut Vec<Part>| {
            crate::heap::outside(|| {
                let list: Vec<Box<dyn FnOnce() + '_>> = jobs
                    .iter_mut()
                    .enumerate()
                    .map(|(x, p)| {
                        Box::new(move || part(p, steps, fault, x)) as Box<dyn FnOnce() + '_>
                    })
                    .collect();
                if together {
                    probe("parallel_focus_parts");
                    world::parallel(list);
                } else {
                    for j in list {
                        j();
                    }
                }
            });
        });
        crate::heap::outside(|| {
            for (x, p) in jobs.iter_mut().enumerate() {
                m[parts[x].0..parts[x].1].copy_from_slice(&p.m);
                if together {
                    child_clones += p.clones;
                }
                child_dirty |= p.nested > 0;
                if let Some(Err(e)) = p.res.take() {
                    bad = Some(e);
                }
            }
            drop(jobs);
        });
    });
    s.m = m;
    let res = match (res, bad) {
        (Err(e), _) => Err(e),
        (Ok(()), Some(e)) => Err(e),
        _ => Ok(()),
    };
    match res {
        Ok(()) => {
            if !child_dirty {
                cost(c0, lim.saturating_sub(child_clones), "parallel mutable focus");
            }
        }
        Err(p) => {
            th().fired.set(th().fired.get() + 1);
            if unexpected(p, "mutable focus") == Site::Drop {
                scrap(s, op.a[2]);
                return ctx.gone(i);
            }
        }
    }
    verify(&s);
    ctx.put(i, s);
}

#[allow(clippy::too_many_arguments)]
fn chain(
    f: &mut FocusMutT,
    a: usize,
    b: usize,
    splits: usize,
    r: &mut Rng,
    jobs: &mut Vec<Part>,
    parts: &mut Vec<(usize, usize)>,
    m: &mut Vec<u64>,
    go: &mut dyn FnMut(&mut Vec<Part>),
) {
    let add = |f: &mut FocusMutT, a: usize, b: usize, seed: u64, jobs: &mut Vec<Part>, parts: &mut Vec<(usize, usize)>| {
        crate::heap::outside(|| {
            jobs.push(Part {
                focus: f as *mut FocusMutT as *mut (),
                m: m[a..b].to_vec(),
                seed,
                res: None,
                clones: 0,
                nested: 0,
            });
            parts.push((a, b));
        })
    };
    if splits == 0 {
        let seed = r.next();
        add(f, a, b, seed, jobs, parts);
        go(jobs);
        return;
    }
    if r.pct(20) {
        // used before it is split
        let mut mm = crate::heap::outside(|| m[a..b].to_vec());
        touch(f, &mut mm, r);
        m[a..b].copy_from_slice(&mm);
        crate::heap::outside(|| drop(mm));
        return chain(f, a, b, splits, r, jobs, parts, m, go);
    }
    let at = if r.pct(60) { r.below(b - a + 1) } else { (b - a) / 2 };
    let (mut x, mut y) = f.split_at(at);
    let seed = r.next();
    if r.pct(50) {
        add(&mut x, a, a + at, seed, jobs, parts);
        chain(&mut y, a + at, b, splits - 1, r, jobs, parts, m, go);
    } else {
        add(&mut y, a + at, b, seed, jobs, parts);
        chain(&mut x, a, a + at, splits - 1, r, jobs, parts, m, go);
    }
}

fn part(p: &mut Part, steps: usize, fault: (u64, u64), x: usize) {
    let t = th();
    let mut r = Rng::new(p.seed);
    if w().racy_rc.get() || !RC {
        // where this part is preempted
        let far = if fine::instrumented() { 6_000 } else { 60 };
        world::set_pre(t, (0..r.below(6)).map(|_| (1 + r.log(far) as u64, r.log(8) as u32)).collect());
        if fault.0 > 0 && (fault.0 - 1) as usize == x {
            *t.fault.borrow_mut() = vec![(Site::Clone, fault.1.max(1))];
        }
    }
    let c0 = clones();
    let f = unsafe { &mut *(p.focus as *mut FocusMutT) };
    let m = &mut p.m;
    t.in_op.set(true);
    let res = guard(|| {
        for _ in 0..steps {
            world::boundary();
            if r.pct(10) {
                play_mut(f, m, &mut r, 3, 2);
            } else {
                touch(f, m, &mut r);
            }
        }
    });
    t.in_op.set(false);
    if let Err(P::Lib(m)) = &res {
        raise("panic", &format!("mutable focus on another thread: the library panicked: {}", m));
    }
    swallowed();
    p.res = Some(res);
    p.clones = clones() - c0;
    p.nested = t.nested_ran.get() + t.fired.get();
}
