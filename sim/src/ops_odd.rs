// Vectors of other element types, and vectors far longer than memory, in one operation each.

fn odd(ctx: &mut Ctx, op: &Op) {
    let _ = ctx;
    let mut r = Rng::new(op.a[1] ^ 0x0dd);
    let steps = (op.a[2] % 200) as usize;
    th().odd_live.set(0);
    let res = guard(|| match op.a[0] % 9 {
        0 | 1 => odd_run::<crate::odd::Nothing>(&mut r, steps),
        2 => odd_run::<crate::odd::Wide>(&mut r, steps),
        3 => odd_run::<crate::odd::Big>(&mut r, steps),
        4 => odd_run::<u8>(&mut r, steps),
        5 => odd_run::<(u64, u16)>(&mut r, steps),
        6 => odd_run::<Option<Box<u32>>>(&mut r, steps),
        7 => odd_run::<crate::odd::Text>(&mut r, steps),
        _ => huge(&mut r, steps),
    });
    if let Err(p) = res {
        unexpected(p, "vectors of another element type");
    }
    th().group.set("life");
    let left = th().odd_live.get();
    th().odd_live.set(0);
    if left > 0 {
        raise("leak", &format!("{} elements of another type are still alive after every handle is gone", left));
    } else if left < 0 {
        raise("double_drop", &format!("{} elements of another type were dropped twice", -left));
    }
    probe("odd_element_types");
}

fn codes<T: crate::odd::Odd>(v: &VT<T>) -> Vec<u64> {
    v.iter().map(|e| e.code()).collect()
}

fn odd_same<T: crate::odd::Odd>(v: &VT<T>, m: &[u64], r: &mut Rng, what: &str) {
    let bad = |how: &str, text: String| -> ! { raise("content", &format!("{}, {}, {}: {}", T::NAME, what, how, text)) };
    if v.len() != m.len() {
        bad("length", format!("{}, {} expected", v.len(), m.len()));
    }
    let a = codes(v);
    if a != m {
        bad("iteration", first_diff(&a, m));
    }
    for _ in 0..4 {
        let i = r.below(m.len() + 1);
        let g = v.get(i).map(|e| e.code());
        if g != m.get(i).cloned() {
            bad("get", format!("{:?} at {}, {:?} expected", g, i, m.get(i)));
        }
    }
    if r.pct(30) {
        let mut b: Vec<u64> = v.iter().rev().map(|e| e.code()).collect();
        b.reverse();
        if b != m {
            bad("backward iteration", first_diff(&b, m));
        }
    }
}

fn odd_grow<T: crate::odd::Odd>(r: &mut Rng, few: bool) -> (VT<T>, Vec<u64>) {
    let n = r.log(if std::mem::size_of::<T>() > 100 { 3 * WIDTH } else { 6 * WIDTH + 40 });
    let raw: Vec<u64> = (0..n).map(|_| if few { r.below(6) as u64 } else { r.next() >> 20 }).collect();
    let m: Vec<u64> = raw.iter().map(|x| T::code_of(*x)).collect();
    let v = match r.below(4) {
        0 => raw.iter().map(|x| T::make(*x)).collect(),
        1 => {
            let mut v = VT::new();
            for x in raw.iter().rev() {
                v.push_front(T::make(*x));
            }
            v
        }
        2 if n > 0 => {
            let c = n / 2;
            let mut a: VT<T> = raw[..c].iter().map(|x| T::make(*x)).collect();
            a.append(raw[c..].iter().map(|x| T::make(*x)).collect());
            a
        }
        _ => {
            let mut v = VT::default();
            for x in &raw {
                v.push_back(T::make(*x));
            }
            v
        }
    };
    (v, m)
}

fn odd_run<T: crate::odd::Odd>(r: &mut Rng, steps: usize) {
    let few = r.pct(40);
    let (mut v, mut m) = odd_grow::<T>(r, few);
    let mut other: Vec<(VT<T>, Vec<u64>)> = vec![];
    let g = &th().group;
    for _ in 0..steps {
        let n = m.len();
        let x = if few { r.below(6) as u64 } else { r.next() >> 20 };
        let k = r.below(26);
        g.set("edit");
        match k {
            0 | 1 => {
                for _ in 0..r.log(2 * WIDTH) {
                    if k == 0 {
                        v.push_back(T::make(x));
                        m.push(T::code_of(x));
                    } else {
                        v.push_front(T::make(x));
                        m.insert(0, T::code_of(x));
                    }
                }
            }
            2 | 3 => {
                for _ in 0..r.log(2 * WIDTH) {
                    let (got, want) = if k == 2 { (v.pop_back(), m.pop()) } else { (v.pop_front(), if m.is_empty() { None } else { Some(m.remove(0)) }) };
                    if got.as_ref().map(|e| e.code()) != want {
                        raise("retval", &format!("{}: pop gave {:?}", T::NAME, got));
                    }
                }
            }
            4 | 5 => {
                let (a, b) = odd_grow::<T>(r, few);
                if k == 4 {
                    v.append(a);
                    m.extend(b);
                } else {
                    v.prepend(a);
                    m.splice(0..0, b);
                }
            }
            6 => {
                let c = r.below(n + 1);
                let t = v.split_off(c);
                let b = m.split_off(c);
                odd_same(&t, &b, r, "the part split off");
                if r.pct(60) {
                    v.prepend(t);
                    m.splice(0..0, b);
                }
            }
            7 => {
                let (a, b) = sub(r.next(), r.next(), n);
                let t = v.extract_slice(bounds(a, b, r.next() % 9, n));
                let c: Vec<u64> = m.drain(a..b).collect();
                odd_same(&t, &c, r, "the extracted part");
                if r.pct(50) {
                    v.append(t);
                    m.extend(c);
                }
            }
            8 => {
                let i = r.below(n + 1);
                v.insert(i, T::make(x));
                m.insert(i, T::code_of(x));
            }
            9 if n > 0 => {
                let i = r.below(n);
                let e = v.remove(i);
                if e.map(|e| e.code()) != Some(m.remove(i)) {
                    raise("retval", &format!("{}: remove gave something else", T::NAME));
                }
            }
            10 => {
                if r.pct(50) {
                    let c = n - r.log(n);
                    v.slice_from_start(c);
                    m.truncate(c);
                } else {
                    let c = r.log(n).min(n);
                    v.slice_to_end(c);
                    m.drain(..c);
                }
            }
            11 if other.len() < 3 => other.push((v.clone(), m.clone())),
            12 if !other.is_empty() => {
                let i = r.below(other.len());
                let (a, b) = other.swap_remove(i);
                odd_same(&a, &b, r, "an older handle");
                if r.pct(40) {
                    v.append(a);
                    m.extend(b);
                } else if r.pct(30) {
                    v = a;
                    m = b;
                }
            }
            13 | 14 if n > 0 => {
                for _ in 0..r.range(1, 4) {
                    let i = r.below(n);
                    match r.below(5) {
                        0 => v[i] = T::make(x),
                        1 => *v.get_mut(i).unwrap() = T::make(x),
                        2 => *v.get_mut_guarded(i).unwrap() = T::make(x),
                        3 => {
                            *v.front_mut().unwrap() = T::make(x);
                            m[0] = T::code_of(x);
                            continue;
                        }
                        _ => {
                            *v.back_mut().unwrap() = T::make(x);
                            m[n - 1] = T::code_of(x);
                            continue;
                        }
                    }
                    m[i] = T::code_of(x);
                }
            }
            15 => {
                let (a, b) = sub(r.next(), r.next(), n);
                v.reverse_range(bounds(a, b, r.next() % 9, n));
                m[a..b].reverse();
            }
            16 | 17 => {
                g.set("sort");
                let (a, b) = sub(r.next(), r.next(), n);
                match r.below(5) {
                    0 => {
                        v.sort();
                        sort_codes::<T>(&mut m);
                    }
                    1 => {
                        v.sort_range(a..b);
                        sort_codes::<T>(&mut m[a..b]);
                    }
                    2 => {
                        v.sort_by(&|p: &T, q: &T| q.code().cmp(&p.code()));
                        m.sort_unstable_by(|p, q| q.cmp(p));
                    }
                    3 => {
                        v.sort_range_by(&|p: &T, q: &T| p.code().cmp(&q.code()), a..b);
                        m[a..b].sort_unstable();
                    }
                    _ => {
                        v.sort_range_by_key(&|p: &T| !p.code(), a..b);
                        m[a..b].sort_unstable_by(|p, q| q.cmp(p));
                    }
                }
            }
            18 | 19 => {
                g.set("sort");
                odd_dual(&mut v, &mut m, r);
            }
            20 => {
                g.set("iter");
                let t = v.clone();
                let mut it = t.into_iter();
                let (mut a, mut b) = (0, n);
                for _ in 0..r.below(n + 2) {
                    let front = r.pct(50);
                    let got = if front { it.next() } else { it.next_back() };
                    let want = if a == b {
                        None
                    } else if front {
                        a += 1;
                        Some(m[a - 1])
                    } else {
                        b -= 1;
                        Some(m[b])
                    };
                    if got.as_ref().map(|e| e.code()) != want || it.len() != b - a {
                        raise("retval", &format!("{}: by-value iteration gave {:?}", T::NAME, got));
                    }
                }
            }
            21 => {
                g.set("iter");
                let y = r.next() >> 20;
                let keep = r.below(n + 1);
                let mut seen = 0;
                for (i, e) in v.iter_mut().enumerate().take(keep) {
                    if e.code() != m[i] {
                        raise("retval", &format!("{}: mutable iteration gave {:?} at {}", T::NAME, e, i));
                    }
                    *e = T::make(y.wrapping_add(i as u64));
                    m[i] = T::code_of(y.wrapping_add(i as u64));
                    seen += 1;
                }
                if seen != keep {
                    raise("retval", &format!("{}: mutable iteration ended early", T::NAME));
                }
            }
            22 => {
                g.set("fmut");
                let mut f = v.focus_mut();
                let c = r.below(n + 1);
                let (mut a, mut b) = f.split_at(c);
                for _ in 0..r.below(12) {
                    let left = r.pct(50);
                    let (f, base, len) = if left { (&mut a, 0, c) } else { (&mut b, c, n - c) };
                    let i = r.below(len + 1);
                    match f.get(i) {
                        Some(e) if i < len && e.code() == m[base + i] => {
                            *e = T::make(x);
                            m[base + i] = T::code_of(x);
                        }
                        None if i >= len => {}
                        got => raise("retval", &format!("{}: mutable focus gave {:?}", T::NAME, got)),
                    }
                }
            }
            23 => {
                g.set("read");
                let mut f = v.focus();
                for _ in 0..r.below(20) {
                    let i = r.below(n + 1);
                    let got = f.get(i).map(|e| e.code());
                    if got != m.get(i).cloned() {
                        raise("retval", &format!("{}: read focus gave {:?} at {} of {}", T::NAME, got, i, n));
                    }
                }
                let u: VT<T> = v.iter().cloned().collect();
                if u != v || u.cmp(&v) != Ordering::Equal || u.partial_cmp(&v) != Some(Ordering::Equal) || digest(&u) != digest(&v) {
                    raise("retval", &format!("{}: equal sequences do not compare or hash equally", T::NAME));
                }
                let _ = format!("{:?}", v);
            }
            24 => {
                let y = r.next() >> 20;
                let k = r.log(5 * WIDTH);
                let t = if k == 1 { VT::singleton(T::make(y)) } else { VT::constant_vec_of_length(T::make(y), k) };
                odd_same(&t, &vec![T::code_of(y); k], r, "constant vector");
                if n < 2000 {
                    v.append(t);
                    m.extend(std::iter::repeat(T::code_of(y)).take(k));
                }
            }
            _ => {
                g.set("read");
                let mut s: Vec<u64> = m.clone();
                sort_codes::<T>(&mut s);
                let t: VT<T> = {
                    let mut t = v.clone();
                    t.sort();
                    t
                };
                let y = if s.is_empty() || r.pct(30) { T::code_of(x) } else { s[r.below(s.len())] };
                let f = |p: &T| p.code().cmp(&y);
                let (a, b) = (s.partition_point(|q| *q < y), s.partition_point(|q| *q <= y));
                if s.windows(2).all(|p| p[0] <= p[1]) {
                    let got = t.equal_range_by(&f);
                    if got != found(a, b) {
                        raise("retval", &format!("{}: search gave {:?}, {}..{} expected", T::NAME, got, a, b));
                    }
                }
            }
        }
        if m.len() > 4000 {
            v.slice_from_start(1000);
            m.truncate(1000);
        }
        odd_same(&v, &m, r, "after an operation");
    }
    g.set("life");
    for (a, b) in &other {
        odd_same(a, b, r, "an older handle at the end");
    }
}

fn digest<T: std::hash::Hash>(v: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Sorts codes the way the type orders its values.
fn sort_codes<T: crate::odd::Odd>(m: &mut [u64]) {
    m.sort_unstable();
}

/// Sorts a vector together with one of another element type or flavour.
fn odd_dual<T: crate::odd::Odd>(v: &mut VT<T>, m: &mut Vec<u64>, r: &mut Rng) {
    let n = m.len();
    let extra = r.log(2 * WIDTH);
    let (a, b) = if r.pct(50) { (0, n) } else { sub(r.next(), r.next(), n) };
    let labels: Vec<u32> = (0..(n + extra) as u32).collect();
    let by = |p: &T, q: &T| p.code().cmp(&q.code());
    let mut after: Vec<u32>;
    match r.below(4) {
        0 => {
            let mut d: librrb::RegularVector<u32> = labels.iter().cloned().collect();
            v.dual_sort_range_by(&by, a..b, &mut d);
            after = d.iter().cloned().collect();
        }
        1 => {
            let mut d: librrb::ThreadSafeVector<u32> = labels.iter().cloned().collect();
            let keep = d.clone();
            v.dual_sort_range_by_key(&|p: &T| p.code(), a..b, &mut d);
            after = d.iter().cloned().collect();
            if keep.iter().cloned().ne(labels.iter().cloned()) {
                raise("bystander", "a handle sharing the paired vector changed");
            }
        }
        2 => {
            let mut d: VT<Option<Box<u32>>> = labels.iter().map(|x| Some(Box::new(*x))).collect();
            v.dual_sort_range_by(&by, a..b, &mut d);
            after = d.iter().map(|x| **x.as_ref().unwrap()).collect();
        }
        _ => {
            let mut d: VT<crate::odd::Big> = labels.iter().map(|x| <crate::odd::Big as crate::odd::Odd>::make(*x as u64)).collect();
            v.dual_sort_range_by(&by, a..b, &mut d);
            after = d.iter().map(|x| crate::odd::Odd::code(x) as u32).collect();
        }
    }
    let now = codes(v);
    for i in (0..n + extra).filter(|i| *i < a || *i >= b) {
        if after[i] != i as u32 || i < n && now[i] != m[i] {
            raise("content", &format!("{}: paired sort moved position {} outside its range", T::NAME, i));
        }
    }
    for i in a..b {
        let from = after[i] as usize;
        if from < a || from >= b || m[from] != now[i] {
            raise("content", &format!("{}: paired sort: the pair at {} is torn", T::NAME, i));
        }
        if i > a && now[i - 1] > now[i] {
            raise("sorted", &format!("{}: paired sort left {} before {}", T::NAME, now[i - 1], now[i]));
        }
    }
    after.sort_unstable();
    if after != labels {
        raise("content", "paired sort lost labels");
    }
    *m = now;
}

/// Runs of equal values: the model of a vector far longer than memory.
type Runs = Vec<(usize, u64)>;

fn runs_split(m: &mut Runs, mut at: usize) -> Runs {
    let mut i = 0;
    while i < m.len() && at >= m[i].0 {
        at -= m[i].0;
        i += 1;
    }
    let mut tail = m.split_off(i);
    if at > 0 && !tail.is_empty() {
        m.push((at, tail[0].1));
        tail[0].0 -= at;
    }
    tail
}

fn runs_len(m: &Runs) -> usize {
    m.iter().map(|x| x.0).sum()
}

fn runs_at(m: &Runs, mut at: usize) -> Option<u64> {
    for (k, x) in m {
        if at < *k {
            return Some(*x);
        }
        at -= k;
    }
    None
}

fn huge(r: &mut Rng, steps: usize) {
    let g = &th().group;
    g.set("edit");
    let n = 1usize << r.range(10, if cfg!(debug_assertions) { 13 } else { 44 });
    let n = n - r.below(n / 2) + r.below(3);
    let mut v: VT<u64> = VT::constant_vec_of_length(1, n);
    let mut m: Runs = vec![(n, 1)];
    let mut old: Vec<(VT<u64>, Runs)> = vec![];
    probe("vectors_longer_than_memory");
    for _ in 0..steps.min(40) {
        g.set("edit");
        let n = runs_len(&m);
        // the library's own assertions walk the tree
        archery::sim::set_limit(if cfg!(debug_assertions) { u64::MAX } else { 3_000_000 });
        mark();
        let spot = |r: &mut Rng, n: usize| match r.below(4) {
            0 => r.log(n).min(n),
            1 => n - r.log(n).min(n),
            _ => (r.next() % (n as u64 + 1)) as usize,
        };
        let x = r.next() >> 30;
        match r.below(12) {
            0 => {
                let i = spot(r, n);
                v.insert(i, x);
                effort(n, 2, 8 * 3, "insert");
                let t = runs_split(&mut m, i);
                m.push((1, x));
                m.extend(t);
            }
            1 if n > 0 => {
                let i = spot(r, n - 1);
                v[i] = x;
                effort(n, 0, 8 * 1, "write");
                let mut t = runs_split(&mut m, i);
                let t = runs_split(&mut t, 1);
                m.push((1, x));
                m.extend(t);
            }
            2 if n > 0 => {
                let i = spot(r, n - 1);
                let want = runs_at(&m, i);
                let got = v.remove(i);
                effort(n, 2, 8 * 2, "remove");
                if got != want {
                    raise("retval", &format!("remove({}) of {} gave {:?}, {:?} expected", i, n, got, want));
                }
                let mut t = runs_split(&mut m, i);
                let t = runs_split(&mut t, 1);
                m.extend(t);
            }
            3 => {
                let i = spot(r, n);
                let t = v.split_off(i);
                effort(n, 0, 8 * 1, "split_off");
                let mt = runs_split(&mut m, i);
                match r.below(3) {
                    0 => {
                        v.prepend(t);
                        m.splice(0..0, mt);
                    }
                    1 => {
                        v = t;
                        m = mt;
                    }
                    _ => {
                        v.append(t);
                        m.extend(mt);
                    }
                }
            }
            4 if n < 1 << if cfg!(debug_assertions) { 14 } else { 46 } => {
                v.append(v.clone());
                effort(n, 0, 8 * 1, "append of a clone");
                let t = m.clone();
                m.extend(t);
            }
            5 => {
                for _ in 0..r.below(2 * WIDTH) {
                    if r.pct(50) {
                        v.push_back(x);
                        m.push((1, x));
                    } else {
                        v.push_front(x);
                        m.insert(0, (1, x));
                    }
                }
            }
            6 => old.push((v.clone(), m.clone())),
            9 => {
                let i = spot(r, n);
                v.slice_from_start(i);
                runs_split(&mut m, i);
            }
            10 => {
                let i = spot(r, n);
                v.slice_to_end(i);
                m = runs_split(&mut m, i);
            }
            11 if !old.is_empty() && n < 1 << if cfg!(debug_assertions) { 14 } else { 46 } => {
                let (a, b) = old[r.below(old.len())].clone();
                if r.pct(50) {
                    v.prepend(a);
                    m.splice(0..0, b);
                } else {
                    v.append(a);
                    m.extend(b);
                }
            }
            11 => {
                v.prepend(VT::constant_vec_of_length(x, 5 * WIDTH));
                m.insert(0, (5 * WIDTH, x));
            }
            7 => {
                let (a, b) = sub(r.next(), r.next(), n);
                let t = v.extract_slice(a..b);
                effort(n, 0, 8 * 3, "extract_slice");
                let mut mt = runs_split(&mut m, a);
                let tail = runs_split(&mut mt, b - a);
                m.extend(tail);
                if t.len() != b - a {
                    raise("retval", &format!("extract_slice({}..{}) gave {} elements", a, b, t.len()));
                }
                v.append(t);
                m.extend(mt);
            }
            _ => {
                for _ in 0..r.below(2 * WIDTH) {
                    let want = runs_at(&m, runs_len(&m).wrapping_sub(1));
                    if v.pop_back() != want {
                        raise("retval", "pop_back of a very long vector");
                    }
                    let k = runs_len(&m).saturating_sub(1);
                    runs_split(&mut m, k);
                }
            }
        }
        if m.len() > 2000 {
            m.truncate(1000);
            v.slice_from_start(runs_len(&m));
        }
        huge_same(&v, &m, r);
        g.set("read");
        let n = runs_len(&m);
        let mut f = v.focus();
        let (mut lo, mut hi) = (0, n);
        if r.pct(50) {
            let (a, b) = sub(r.next(), r.next(), n);
            f.narrow(a..b);
            lo = a;
            hi = b;
        }
        for _ in 0..5 {
            let i = spot(r, hi - lo);
            let got = f.get(i).cloned();
            let want = if lo + i < hi { runs_at(&m, lo + i) } else { None };
            if got != want {
                raise("retval", &format!("read focus of a very long vector: {:?} at {}, {:?} expected", got, lo + i, want));
            }
        }
        if n > 0 {
            g.set("fmut");
            let (i, c) = (spot(r, n - 1), spot(r, n));
            let want = runs_at(&m, i);
            let got = {
                let mut f = v.focus_mut();
                let (mut a, mut b) = f.split_at(c);
                let got = if i < c { a.get(i) } else { b.get(i - c) };
                got.map(|x| *x)
            };
            if got != want {
                raise("retval", &format!("mutable focus of a very long vector: {:?} at {}, {:?} expected", got, i, want));
            }
            g.set("iter");
            let it = v.iter();
            if it.len() != n {
                raise("retval", &format!("iterator of a very long vector: len {}, {} expected", it.len(), n));
            }
            let (mut p, mut q) = (0, 0);
            let mut it = v.iter();
            for _ in 0..10 {
                let (got, want) = if r.pct(50) {
                    p += 1;
                    (it.next(), runs_at(&m, p - 1))
                } else {
                    q += 1;
                    (it.next_back(), n.checked_sub(q).and_then(|i| runs_at(&m, i)))
                };
                if p + q <= n && got.cloned() != want {
                    raise("retval", "iterating over a very long vector");
                }
            }
        }
    }
    g.set("life");
    for (a, b) in &old {
        huge_same(a, b, r);
    }
    archery::sim::set_limit(u64::MAX);
}

fn huge_same(v: &VT<u64>, m: &Runs, r: &mut Rng) {
    let n = runs_len(m);
    if v.len() != n {
        raise("content", &format!("a very long vector has length {}, {} expected", v.len(), n));
    }
    let mut at = 0;
    let mut spots = vec![n, 0, n / 2, (r.next() % (n as u64 + 1)) as usize];
    for (k, _) in m.iter() {
        if spots.len() > 60 {
            break;
        }
        spots.push(at);
        at += k;
        spots.push(at - 1);
    }
    for i in spots {
        let (got, want) = (v.get(i).cloned(), runs_at(m, i));
        if got != want {
            raise("content", &format!("a very long vector ({}): {:?} at {}, {:?} expected", n, got, i, want));
        }
    }
}
