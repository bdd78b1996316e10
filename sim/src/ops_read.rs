// Reads: positions, foci, searches, comparison, shared iteration.

fn read(v: &V, m: &[u64], op: &Op) {
    let mut r = Rng::new(op.a[1] ^ 0x51ab);
    match op.k {
        K::Get => read_get(v, m, &mut r),
        K::Iter => read_iter(v, m, &mut r, op.a[2]),
        K::Focus => {
            let res = guard(|| {
                let f = if r.pct(30) && !m.is_empty() {
                    let a = r.below(m.len());
                    let b = a + r.below(m.len() - a + 1);
                    (FocusT::narrowed_tree(v, a..b), a, b)
                } else {
                    (v.focus(), 0, m.len())
                };
                play_focus(f.0, &m[f.1..f.2], &mut r, op.a[2] as usize, 0);
            });
            if let Err(p) = res {
                unexpected(p, "read focus");
            }
        }
        K::Search => search(v, m, &mut r, op),
        K::KeySearch => key_search(v, m, &mut r, op),
        _ => broken("not a read"),
    }
}

fn expect_elem(e: Option<&Elem>, want: Option<u64>, what: &str) {
    let got = e.map(|e| e.val());
    if got != want {
        raise("retval", &format!("{}: {:?}, {:?} expected", what, got, want));
    }
}

fn read_get(v: &V, m: &[u64], r: &mut Rng) {
    let res = guard(|| {
        for _ in 0..r.range(1, 6) {
            let i = if r.clone().pct(5) { usize::MAX - r.below(3) } else { r.below(m.len() + 2) };
            point(15, i as u64);
            expect_elem(v.get(i), m.get(i).cloned(), "get");
            if i < m.len() {
                expect_elem(Some(&v[i]), Some(m[i]), "index");
            }
            expect_elem(v.front(), m.first().cloned(), "front");
            expect_elem(v.back(), m.last().cloned(), "back");
            if v.len() != m.len() || v.is_empty() != m.is_empty() {
                raise("retval", "len");
            }
        }
    });
    if let Err(p) = res {
        unexpected(p, "get");
    }
}

fn read_iter(v: &V, m: &[u64], r: &mut Rng, steps: u64) {
    let res = guard(|| {
        let it = v.iter();
        let n = m.len();
        let steps = if steps % 4 == 0 { 2 * n + 4 } else { (steps as usize) % (n + 3) };
        walk(it, m, 0, n, r, steps, 0);
        if r.pct(20) {
            let mut k = 0;
            for e in v {
                if k >= n || e.val() != m[k] {
                    raise("retval", &format!("for loop: wrong element at {}", k));
                }
                k += 1;
            }
            if k != n {
                raise("retval", &format!("for loop: {} elements, {} expected", k, n));
            }
        }
    });
    if let Err(p) = res {
        unexpected(p, "iteration");
    }
}

/// Steps a shared iterator from both ends; `f..b` is what must be left.
fn walk<'a>(
    mut it: impl DoubleEndedIterator<Item = &'a Elem> + ExactSizeIterator + Clone,
    m: &[u64],
    mut f: usize,
    mut b: usize,
    r: &mut Rng,
    steps: usize,
    depth: u32,
) {
    let style = r.below(4);
    let mut held: Vec<(&'a Elem, u64)> = vec![];
    for _ in 0..steps {
        point(15, 0);
        if it.len() != b - f || it.size_hint() != (b - f, Some(b - f)) {
            raise("retval", &format!("iterator: len {} and size_hint {:?}, {} expected", it.len(), it.size_hint(), b - f));
        }
        let front = match style {
            0 => true,
            1 => false,
            _ => r.pct(50),
        };
        if style == 3 && r.pct(8) {
            // skipping
            let k = if r.clone().pct(6) {
                usize::MAX - r.below(2)
            } else if r.clone().pct(12) {
                r.below(b - f + 2)
            } else {
                r.below(5)
            };
            let left = b - f;
            let (got, want) = if front {
                let want = if k < left { Some(m[f + k]) } else { None };
                f = if k < left { f + k + 1 } else { b };
                (it.nth(k), want)
            } else {
                let want = if k < left { Some(m[b - 1 - k]) } else { None };
                b = if k < left { b - k - 1 } else { f };
                (it.nth_back(k), want)
            };
            expect_elem(got, want, "iterator skip");
            continue;
        }
        let want = if f == b { None } else if front { Some(m[f]) } else { Some(m[b - 1]) };
        let got = if front { it.next() } else { it.next_back() };
        expect_elem(got, want, if front { "iterator next" } else { "iterator next_back" });
        if want.is_some() {
            if front {
                f += 1
            } else {
                b -= 1
            }
            if held.len() < 40 {
                held.push((got.unwrap(), want.unwrap()));
            }
        }
        if depth == 0 && r.pct(3) {
            let c = it.clone();
            let st = r.below(b - f + 3);
            walk(c, m, f, b, r, st, 1);
        }
    }
    for (e, v) in held {
        if e.val() != v {
            raise("retval", "an element handed out by an iterator changed");
        }
    }
}

/// Something the library must answer with its own panic.
fn refused(what: &str, f: impl FnOnce()) {
    match guard(f) {
        Ok(()) => raise("misuse", &format!("{} was accepted", what)),
        Err(P::Lib(_)) => probe("misuse_answered_by_panic"),
        Err(P::Inj(site)) => {
            let c = &th().caught;
            c.set(c.get() - 1);
            std::panic::resume_unwind(Box::new(world::Injected(site)));
        }
    }
}

/// A position at or beyond `n`, now and then an extreme one.
fn beyond(n: usize, r: &mut Rng) -> usize {
    match r.below(4) {
        0 => usize::MAX - r.below(3),
        1 => n + r.log(3 * WIDTH),
        _ => n + r.below(3),
    }
}

/// Positions and ranges outside a read focus: refused or answered by nothing, whatever the
/// vector holds there. The focus still reads as before.
fn abuse_focus(f: &mut FocusT, m: &[u64], r: &mut Rng) {
    let n = m.len();
    let x = beyond(n, r);
    match r.below(5) {
        0 => expect_elem(f.get(x), None, "focus get beyond the end"),
        1 => refused("a read focus indexed beyond its end", || {
            f.index(x);
        }),
        2 => {
            let a = r.below(n + 1);
            let b = n + 1 + r.below(WIDTH + 2);
            let mut c = f.clone();
            refused("a read focus narrowed beyond its end", || c.narrow(a..b));
        }
        3 => {
            let c = f.clone();
            let x = x.max(n + 1);
            refused("a read focus split beyond its end", || {
                c.split_at(x);
            });
        }
        _ => {
            // at the very end: either both parts or a refusal
            let c = f.clone();
            if let Ok((mut a, mut b)) = guard(|| c.split_at(n)) {
                if a.len() != n || b.len() != 0 || b.get(0).is_some() || a.get(n).is_some() {
                    raise("retval", "a focus split at its end does not give all of it and nothing");
                }
            }
        }
    }
}

fn play_focus(mut f: FocusT, m: &[u64], r: &mut Rng, steps: usize, depth: u32) {
    let n = m.len();
    let mut q = Rng::new(r.clone().next() ^ 0xab05e);
    let style = r.below(3);
    let mut at = r.below(n + 1);
    for _ in 0..steps.max(1) {
        point(15, 1);
        if f.len() != n || f.is_empty() != (n == 0) {
            raise("retval", &format!("focus: len {}, {} expected", f.len(), n));
        }
        if q.pct(4) {
            abuse_focus(&mut f, m, &mut q);
        }
        match r.below(if depth < 4 { 12 } else { 9 }) {
            0 => {
                let i = n + r.below(3);
                expect_elem(f.get(i), None, "focus get beyond the end");
            }
            1..=8 => {
                if n == 0 {
                    continue;
                }
                let i = match style {
                    0 => r.below(n),
                    1 => {
                        at = (at + 1) % n;
                        at
                    }
                    _ => {
                        at = (at + n - 1 - r.below(3).min(n - 1)) % n;
                        at
                    }
                };
                if r.pct(20) {
                    expect_elem(Some(f.index(i)), Some(m[i]), &format!("focus index({}) of {}", i, n));
                } else {
                    expect_elem(f.get(i), Some(m[i]), &format!("focus get({}) of {}", i, n));
                }
            }
            9 => {
                let a = r.below(n + 1);
                let b = a + r.below(n - a + 1);
                let mut c = f.clone();
                c.narrow(bounds(a, b, r.next() % 9, n));
                play_focus(c, &m[a..b], r, steps / 2, depth + 1);
            }
            10 => {
                let a = r.below(n + 1);
                let b = a + r.below(n - a + 1);
                f.narrow(bounds(a, b, r.next() % 9, n));
                return play_focus(f, &m[a..b], r, steps / 2 + 1, depth + 1);
            }
            _ => {
                if n == 0 {
                    continue;
                }
                let i = r.below(n);
                let (a, b) = f.clone().split_at(i);
                if r.pct(50) {
                    play_focus(a, &m[..i], r, steps / 2, depth + 1);
                    play_focus(b, &m[i..], r, steps / 2, depth + 1);
                } else {
                    play_focus(b, &m[i..], r, steps / 2, depth + 1);
                    play_focus(a, &m[..i], r, steps / 2, depth + 1);
                }
            }
        }
    }
}

type Found = Result<std::ops::Range<usize>, usize>;

fn found(a: usize, b: usize) -> Found {
    if a < b {
        Ok(a..b)
    } else {
        Err(a)
    }
}

/// Searches with a predicate that orders the elements by position.
fn search(v: &V, m: &[u64], r: &mut Rng, op: &Op) {
    let n = m.len();
    let p = match position_map(m) {
        Some(p) => p,
        None => return probe("search_skipped_duplicates"),
    };
    for _ in 0..r.range(1, 4) {
        let (a, b) = if r.pct(40) { (0, n) } else { sub(r.next(), r.next(), n) };
        // a..b is searched, lo..hi matches
        let lo = a + r.below(b - a + 1);
        let hi = match r.below(4) {
            0 => lo,
            1 => (lo + 1).min(b),
            2 => b,
            _ => lo + r.below(b - lo + 1),
        };
        let lying = th().lie.get() != 0;
        let f = |e: &Elem| {
            let at = pos(&p, e.val());
            callback(Site::Pred);
            e.check("search");
            if let Some(l) = lie(at as u64, lo as u64) {
                return l;
            }
            if at < lo {
                Ordering::Less
            } else if at >= hi {
                Ordering::Greater
            } else {
                Ordering::Equal
            }
        };
        let rg = bounds(a, b, op.a[2] ^ r.next() % 9, n);
        let q0 = cmps();
        let t = th();
        t.call_cap.set(q0 + 4 * log2(b - a + 1) + 16);
        let which = r.below(4);
        if which < 2 || n == 0 {
            let res = guard(|| if a == 0 && b == n && which == 0 { v.equal_range_by(&f) } else { v.equal_range_in_range_by(&f, rg) });
            match res {
                Ok(got) => {
                    if !lying && got != found(lo, hi) {
                        raise("retval", &format!("search in {}..{} for {}..{}: {:?}", a, b, lo, hi, got));
                    }
                }
                Err(P::Lib(_)) if lying => probe("search_panic_with_inconsistent_answers"),
                Err(p) => {
                    unexpected(p, "search");
                }
            }
        } else {
            let idx = r.below(n);
            let want = if idx >= a && idx < b && idx >= lo && idx < hi { lo..hi } else { 0..0 };
            let res = guard(|| if a == 0 && b == n && which == 2 { v.equal_range_for_index_by(idx, &f) } else { v.equal_range_for_index_in_range_by(idx, &f, rg) });
            match res {
                Ok(got) => {
                    if !lying && got != want {
                        raise("retval", &format!("range around {} in {}..{}, matching {}..{}: {:?}", idx, a, b, lo, hi, got));
                    }
                }
                Err(P::Lib(_)) if lying => probe("search_panic_with_inconsistent_answers"),
                Err(p) => {
                    unexpected(p, "search");
                }
            }
        }
        t.call_cap.set(u64::MAX);
        let used = cmps() - q0;
        let max = 2 * log2(b - a + 1) + 6;
        if clean() && used > max {
            raise("calls", &format!("a search of {} elements called the predicate {} times", b - a, used));
        }
    }
}

/// Searches by key in a range that is ordered by key.
fn key_search(v: &V, m: &[u64], r: &mut Rng, op: &Op) {
    let n = m.len();
    let key = |i: usize| (m[i] >> 32) as u32;
    let (mut a, mut b) = sub(r.next(), r.next(), n);
    if r.pct(50) {
        a = 0;
        b = n;
    }
    // shrink to the longest ordered run from a
    let mut e = a;
    while e < b && (e == a || key(e - 1) <= key(e)) {
        e += 1;
    }
    b = e;
    let pick = |r: &mut Rng| -> u32 {
        if b > a && r.pct(80) {
            let k = key(a + r.below(b - a));
            match r.below(4) {
                0 => k.saturating_sub(1),
                1 => k.saturating_add(1),
                _ => k,
            }
        } else {
            r.next() as u32
        }
    };
    let lower = |k: u32| (a..b).find(|&i| key(i) >= k).unwrap_or(b);
    let upper = |k: u32| (a..b).find(|&i| key(i) > k).unwrap_or(b);
    for _ in 0..r.range(1, 4) {
        let lying = th().lie.get() != 0;
        let rg = bounds(a, b, op.a[2] ^ r.next() % 9, n);
        let whole = a == 0 && b == n && r.pct(50);
        let t = th();
        let q0 = cmps();
        t.call_cap.set(q0 + 8 * log2(b - a + 1) + 32);
        let (got, want, text): (Result<Found, P>, Found, String);
        if r.pct(45) {
            let k = pick(r);
            want = found(lower(k), upper(k));
            got = guard(|| if whole { v.equal_range(&Key(k)) } else { v.equal_range_in_range(&Key(k), rg) });
            text = format!("key {}", k);
        } else {
            let (x, y) = (pick(r), pick(r));
            let (x, y) = (x.min(y), x.max(y));
            let (kx, ky) = (Key(x), Key(y));
            let (sb, mut lo): (Bound<&Key>, usize) = match r.below(3) {
                0 => (Bound::Unbounded, a),
                1 => (Bound::Included(&kx), lower(x)),
                _ => (Bound::Excluded(&kx), upper(x)),
            };
            let (eb, hi): (Bound<&Key>, usize) = match r.below(3) {
                0 => (Bound::Unbounded, b),
                1 => (Bound::Included(&ky), upper(y)),
                _ => (Bound::Excluded(&ky), lower(y)),
            };
            if lo > hi {
                // contradictory bounds (a key excluded on both sides): elements equal to it are
                // below the start, so the insertion point is after them
                if x == y {
                    lo = upper(x);
                }
                want = Err(lo);
            } else {
                want = found(lo, hi);
            }
            got = guard(|| if whole { v.between_range(sb, eb) } else { v.between_range_in_range(sb, eb, rg) });
            text = format!("between {:?} and {:?}", sb, eb);
        }
        t.call_cap.set(u64::MAX);
        match got {
            Ok(g) => {
                if !lying && g != want {
                    raise("retval", &format!("search in {}..{} for {}: {:?}, {:?} expected", a, b, text, g, want));
                }
            }
            Err(P::Lib(_)) if lying => probe("search_panic_with_inconsistent_answers"),
            Err(p) => {
                unexpected(p, "search");
            }
        }
        let used = cmps() - q0;
        if clean() && used > 4 * log2(b - a + 1) + 16 {
            raise("calls", &format!("a search of {} elements compared {} times", b - a, used));
        }
    }
}

fn compare(ctx: &mut Ctx, op: &Op) {
    use std::hash::{Hash, Hasher};
    let (i, s) = ctx.take(op.a[0]);
    let (j, q) = ctx.take(op.a[1]);
    // a vector with the same elements but another shape
    let mut r = Rng::new(op.a[2]);
    let twin: Option<V> = if op.a[3] % 2 == 0 {
        quiet(|| {
            let cut = r.below(s.m.len() + 1);
            let mk = |x: &u64| Elem::with((*x >> 32) as u32, *x as u32);
            guard(|| {
                let mut t = V::new();
                for x in s.m[..cut].iter().rev() {
                    t.push_front(mk(x));
                }
                let mut u = V::new();
                for x in &s.m[cut..] {
                    u.push_back(mk(x));
                }
                if r.pct(50) {
                    t.append(u);
                    t
                } else {
                    u.prepend(t);
                    u
                }
            })
            .map_err(|p| unexpected(p, "building a vector"))
            .ok()
        })
    } else {
        None
    };
    let c0 = clones();
    let lying = th().lie.get() != 0;
    let res = guard(|| {
        let h = |v: &V| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            v.hash(&mut h);
            h.finish()
        };
        let eq = s.v == q.v;
        let cmp = s.v.cmp(&q.v);
        let pc = s.v.partial_cmp(&q.v);
        if !lying {
            if eq != (s.m == q.m) || cmp != s.m.cmp(&q.m) || pc != Some(cmp) {
                raise("retval", &format!("equality {} and order {:?}/{:?} of {} and {}", eq, cmp, pc, brief(&s.m), brief(&q.m)));
            }
            if eq && h(&s.v) != h(&q.v) {
                raise("retval", "equal vectors hash differently");
            }
            if let Some(t) = &twin {
                if !(s.v == *t) || s.v.cmp(t) != Ordering::Equal || h(&s.v) != h(t) {
                    raise("retval", "a vector with the same elements built differently is not equal, or hashes differently");
                }
            }
        }
    });
    if let Err(p) = res {
        unexpected(p, "comparison");
    }
    cost(c0, 0, "comparison");
    if let Some(t) = twin {
        quiet(|| drop(t));
    }
    verify(&s);
    verify(&q);
    ctx.put(i, s);
    ctx.put(j, q);
}
