// Creation, hand-over, push/pop, structure, single writes, reverse, misuse.

fn key_of(r: &mut Rng, pat: u64, n: usize) -> u32 {
    match pat % 5 {
        0 => r.next() as u32 >> 4,
        1 => r.below(2) as u32,
        2 => r.below(8) as u32,
        3 => r.below(n.max(1)) as u32,
        _ => 7,
    }
}

/// A vector of exactly n elements made of pushes at both ends and concatenations of others.
fn grow(r: &mut Rng, n: usize, pat: u64, depth: u32) -> (V, Vec<u64>) {
    let mut v = V::new();
    let mut m: std::collections::VecDeque<u64> = Default::default();
    while m.len() < n {
        let c = (1 + r.log(3 * WIDTH * WIDTH)).min(n - m.len());
        let how = r.below(if depth > 0 { 6 } else { 2 });
        match how {
            0 | 2 => {
                for _ in 0..c {
                    let e = Elem::new(key_of(r, pat, n));
                    m.push_back(e.val());
                    v.push_back(e);
                }
            }
            1 => {
                for _ in 0..c {
                    let e = Elem::new(key_of(r, pat, n));
                    m.push_front(e.val());
                    v.push_front(e);
                }
            }
            3 => {
                let (b, mb) = grow(r, c, pat, depth - 1);
                v.append(b);
                m.extend(mb);
            }
            4 => {
                let (b, mb) = grow(r, c, pat, depth - 1);
                v.prepend(b);
                for x in mb.into_iter().rev() {
                    m.push_front(x);
                }
            }
            _ => {
                // cut off a piece: leaves ragged edges
                if m.len() > 4 {
                    let k = 1 + r.below(m.len() / 4);
                    if r.pct(50) {
                        let l = m.len() - k;
                        v.slice_from_start(l);
                        m.truncate(l);
                    } else {
                        v.slice_to_end(k);
                        m.drain(..k);
                    }
                }
            }
        }
    }
    (v, m.into())
}

fn create(ctx: &mut Ctx, op: &Op) {
    let n = op.a[1] as usize;
    let mut r = Rng::new(op.a[2] ^ 0x9d);
    let pat = op.a[3];
    let out: Option<(V, Vec<u64>, bool)> = match op.k {
        K::New => Some((lib(V::new), vec![], false)),
        K::Grow => {
            let res = quiet(|| guard(|| grow(&mut r, n, pat, 2)));
            match res {
                Ok((v, m)) => Some((v, m, false)),
                Err(p) => {
                    unexpected(p, "building a vector");
                    None
                }
            }
        }
        K::Build => {
            let mut keys: Vec<u32> = (0..n).map(|_| key_of(&mut r, pat, n)).collect();
            match op.a[4] % 4 {
                0 => keys.sort_unstable(),
                1 => keys.sort_unstable_by(|a, b| b.cmp(a)),
                2 => {
                    keys.sort_unstable();
                    let h = n / 2;
                    keys[h..].reverse();
                }
                _ => {}
            }
            let mut m = vec![];
            let res = quiet(|| {
                guard(|| {
                    keys.iter()
                        .map(|k| {
                            let e = Elem::new(*k);
                            m.push(e.val());
                            e
                        })
                        .collect::<V>()
                })
            });
            match res {
                Ok(v) => Some((v, m, false)),
                Err(p) => {
                    unexpected(p, "building a vector");
                    None
                }
            }
        }
        K::Const => {
            let e = Elem::new(op.a[2] as u32);
            let val = e.val();
            match guard(|| V::constant_vec_of_length(e, n)) {
                Ok(v) => Some((v, vec![val; n], true)),
                Err(p) => {
                    unexpected(p, "constant_vec_of_length");
                    None
                }
            }
        }
        K::Single => {
            let e = Elem::new(op.a[2] as u32);
            let val = e.val();
            match guard(|| V::singleton(e)) {
                Ok(v) => Some((v, vec![val], false)),
                Err(p) => {
                    unexpected(p, "singleton");
                    None
                }
            }
        }
        _ => {
            let mut m = vec![];
            let mut left = n;
            let res = guard(|| {
                std::iter::from_fn(|| {
                    callback(Site::Iter);
                    if left == 0 {
                        return None;
                    }
                    left -= 1;
                    let e = Elem::new(key_of(&mut r, pat, n));
                    m.push(e.val());
                    Some(e)
                })
                .collect::<V>()
            });
            match res {
                Ok(v) => Some((v, m, false)),
                Err(p) => {
                    unexpected(p, "collect");
                    None
                }
            }
        }
    };
    if let Some((v, m, selfshared)) = out {
        let s = Slot { v, m, fam: FAMS.fresh() };
        if selfshared {
            FAMS.spoil(s.fam);
        }
        verify(&s);
        let (i, old) = ctx.take(op.a[0]);
        drop_v(old.v, old.fam);
        ctx.put(i, s);
    }
}

fn clone_v(v: &V, m: &[u64], fam: usize) -> Option<Slot> {
    let c0 = clones();
    let i0 = th().incs.get();
    FAMS.cloned(fam);
    match guard(|| v.clone()) {
        Ok(c) => {
            cost(c0, 0, "clone of a vector");
            if clean() && th().incs.get() - i0 > 200 {
                raise("copies", &format!("clone of a vector made {} reference copies", th().incs.get() - i0));
            }
            Some(Slot { v: c, m: m.to_vec(), fam })
        }
        Err(p) => {
            unexpected(p, "clone of a vector");
            FAMS.dropped(fam);
            None
        }
    }
}

fn life(ctx: &mut Ctx, op: &Op) {
    match op.k {
        K::Clone => {
            let (i, s) = ctx.take(op.a[0]);
            let c = clone_v(&s.v, &s.m, s.fam);
            if let Some(c) = c {
                verify(&c);
                let (j, old) = ctx.take(op.a[1]);
                drop_v(old.v, old.fam);
                ctx.put(j, c);
            }
            verify(&s);
            ctx.put(i, s);
        }
        K::Drop => {
            let i = ctx.free(op.a[0]);
            if let Some(s) = ctx.slots[i].take() {
                bystander(&s.v, &s.m, "a handle about to be dropped");
                ctx.busy |= 1 << i;
                drop_v(s.v, s.fam);
                ctx.gone(i);
            }
        }
        K::Swap => {
            let (i, s) = ctx.take(op.a[0]);
            let (j, q) = ctx.take(op.a[1]);
            ctx.put(i, q);
            ctx.put(j, s);
        }
        K::Pub => {
            let (i, s) = ctx.take(op.a[0]);
            if let Some(c) = clone_v(&s.v, &s.m, s.fam) {
                ctx.set_cell(op.a[1], Some(Arc::new(Shared { v: c.v, m: c.m, fam: c.fam })));
            }
            ctx.put(i, s);
        }
        K::BClone => {
            if let Some(s) = ctx.cell(op.a[0]) {
                let c = clone_v(&s.v, &s.m, s.fam);
                drop_shared(Some(s));
                if let Some(c) = c {
                    verify(&c);
                    let (j, old) = ctx.take(op.a[1]);
                    drop_v(old.v, old.fam);
                    ctx.put(j, c);
                }
            }
        }
        K::BTake => {
            let got = {
                let mut c = ctx.board().0.borrow_mut();
                c[(op.a[0] % CELLS as u64) as usize].take()
            };
            if let Some(a) = got {
                match Arc::try_unwrap(a) {
                    Ok(s) => {
                        let (j, old) = ctx.take(op.a[1]);
                        drop_v(old.v, old.fam);
                        let s = Slot { v: s.v, m: s.m, fam: s.fam };
                        verify(&s);
                        ctx.put(j, s);
                    }
                    Err(a) => {
                        // someone is reading it: leave it to them
                        drop_shared(Some(a));
                    }
                }
            }
        }
        _ => {
            // leaking a handle on purpose
            let i = ctx.free(op.a[0]);
            if let Some(mut s) = ctx.slots[i].take() {
                probe("leaked_on_purpose");
                w().leak_ok.set(true);
                FAMS.spoil(s.fam);
                let n = s.m.len();
                let x = (op.a[2] % (n as u64 + 1)) as usize;
                match op.a[1] % 6 {
                    0 => {
                        std::mem::forget(s.v);
                        return;
                    }
                    1 => quiet(|| {
                        let mut it = lib(|| s.v.iter());
                        for _ in 0..x {
                            lib(|| it.next());
                        }
                        std::mem::forget(it);
                    }),
                    2 => quiet(|| {
                        let mut it = lib(|| s.v.iter_mut());
                        for _ in 0..x {
                            lib(|| it.next());
                        }
                        std::mem::forget(it);
                    }),
                    3 => quiet(|| {
                        let mut f = lib(|| s.v.focus_mut());
                        lib(|| f.get(x).map(|e| e.val()));
                        let (mut l, mut r) = lib(|| f.split_at(x));
                        lib(|| l.get(0).map(|e| e.val()));
                        lib(|| r.get(0).map(|e| e.val()));
                        std::mem::forget(l);
                        if op.a[3] % 2 == 0 {
                            std::mem::forget(r);
                        } else {
                            drop(r);
                        }
                        if op.a[3] % 3 == 0 {
                            std::mem::forget(f);
                        }
                    }),
                    4 => quiet(|| {
                        if let Some(g) = lib(|| s.v.get_mut_guarded(x)) {
                            std::mem::forget(g);
                        }
                    }),
                    _ => {
                        let mut it = lib(|| s.v.into_iter());
                        quiet(|| {
                            for _ in 0..x {
                                hush_opt(lib(|| it.next()));
                            }
                        });
                        std::mem::forget(it);
                        return;
                    }
                }
                verify(&s);
                ctx.slots[i] = Some(s);
            }
        }
    }
}

fn ends(ctx: &mut Ctx, op: &Op) {
    let (i, mut s) = ctx.take(op.a[0]);
    let (count, front, push) = match op.k {
        K::PushB => (1, false, true),
        K::PushF => (1, true, true),
        K::PopB => (1, false, false),
        K::PopF => (1, true, false),
        K::PushN => (op.a[1], op.a[2] % 2 == 1, true),
        _ => (op.a[1], op.a[2] % 2 == 1, false),
    };
    let mut r = Rng::new(op.a[3]);
    let top = s.m.len() + count as usize;
    let mut spent = 0;
    for k in 0..count {
        let c0 = clones();
        mark();
        let lim = allowed(s.fam, few());
        if push {
            let e = Elem::new(if count == 1 { op.a[1] as u32 } else { key_of(&mut r, op.a[4], 100) });
            let val = e.val();
            let v = &mut s.v;
            let res = guard(|| if front { v.push_front(e) } else { v.push_back(e) });
            spent += work();
            match res {
                Ok(()) => {
                    if front {
                        s.m.insert(0, val)
                    } else {
                        s.m.push(val)
                    }
                }
                Err(p) => {
                    if unexpected(p, "push") == Site::Drop {
                        scrap(s, op.a[3]);
                        return ctx.gone(i);
                    }
                    let mut new = s.m.clone();
                    if front {
                        new.insert(0, val)
                    } else {
                        new.push(val)
                    }
                    either(&mut s, new);
                    continue;
                }
            }
        } else {
            let v = &mut s.v;
            let res = guard(|| if front { v.pop_front() } else { v.pop_back() });
            spent += work();
            let want = if front { s.m.first().cloned() } else { s.m.last().cloned() };
            match res {
                Ok(e) => {
                    let got = e.as_ref().map(|e| e.val());
                    hush_opt(e);
                    if got != want {
                        raise("retval", &format!("pop returned {:?}, {:?} expected", got, want));
                    }
                    if front && want.is_some() {
                        s.m.remove(0);
                    } else {
                        s.m.pop();
                    }
                    if want.is_none() {
                        cost(c0, 0, "pop of an empty vector");
                        break;
                    }
                }
                Err(p) => {
                    if unexpected(p, "pop") == Site::Drop {
                        scrap(s, op.a[3]);
                        return ctx.gone(i);
                    }
                    let mut new = s.m.clone();
                    if front && !new.is_empty() {
                        new.remove(0);
                    } else {
                        new.pop();
                    }
                    either(&mut s, new);
                    continue;
                }
            }
        }
        cost(c0, lim, if push { "push" } else { "pop" });
        if s.v.len() != s.m.len() {
            raise("content", &format!("len() is {} after {} of {}, {} expected", s.v.len(), k + 1, op.k.name(), s.m.len()));
        }
    }
    spent_on(spent, top, count, 0, op.k.name());
    verify(&s);
    ctx.put(i, s);
}

fn structure(ctx: &mut Ctx, op: &Op) {
    let (i, mut s) = ctx.take(op.a[0]);
    let n = s.m.len();
    let c0 = clones();
    let seed = op.a[3] ^ mix(n as u64);
    // a panic here leaves the vector memory-safe, no more
    macro_rules! broke {
        ($p:expr, $what:expr) => {{
            unexpected($p, $what);
            scrap(s, seed);
            return ctx.gone(i);
        }};
    }
    match op.k {
        K::Append | K::Prepend => {
            let (j, q) = ctx.take(op.a[1]);
            let lim = allowed(s.fam, squared()) + allowed(q.fam, squared());
            let other = q.v;
            let v = &mut s.v;
            let res = guard(|| if op.k == K::Append { v.append(other) } else { v.prepend(other) });
            ctx.gone(j);
            FAMS.merged(s.fam, q.fam);
            match res {
                Ok(()) => {
                    if op.k == K::Append {
                        s.m.extend(q.m);
                    } else {
                        let mut m = q.m;
                        m.extend_from_slice(&s.m);
                        s.m = m;
                    }
                    effort(s.m.len(), 0, 1, op.k.name());
                    cost(c0, lim, op.k.name());
                }
                Err(p) => broke!(p, "append"),
            }
        }
        K::SelfApp => {
            if n > 30_000 {
                return ctx.put(i, s);
            }
            if let Some(c) = clone_v(&s.v, &s.m, s.fam) {
                FAMS.spoil(s.fam);
                let v = &mut s.v;
                let other = c.v;
                let res = guard(|| v.append(other));
                FAMS.merged(s.fam, c.fam);
                match res {
                    Ok(()) => {
                        s.m.extend(c.m);
                        cost(c0, squared() * 2, "append of an own clone");
                    }
                    Err(p) => broke!(p, "append"),
                }
            }
        }
        K::Split => {
            // now and then beyond the end
            let at = (op.a[1] % (n as u64 + 3)) as usize;
            let lim = allowed(s.fam, few());
            let v = &mut s.v;
            match guard(|| v.split_off(at)) {
                Ok(t) => {
                    effort(n, 0, 1, "split");
                    cost(c0, lim, "split");
                    FAMS.split(s.fam);
                    let mt = if at >= n { vec![] } else { s.m.split_off(at) };
                    let t = Slot { v: t, m: mt, fam: s.fam };
                    verify(&t);
                    let (j, old) = ctx.take(op.a[2]);
                    drop_v(old.v, old.fam);
                    ctx.put(j, t);
                }
                Err(p) => broke!(p, "split_off"),
            }
        }
        K::SliceStart => {
            let len = (op.a[1] % (n as u64 + 3)) as usize;
            let lim = allowed(s.fam, few());
            let v = &mut s.v;
            match guard(|| v.slice_from_start(len)) {
                Ok(()) => {
                    cost(c0, lim, "slice");
                    s.m.truncate(len)
                }
                Err(p) => broke!(p, "slice_from_start"),
            }
        }
        K::SliceEnd => {
            let start = (op.a[1] % (n as u64 + 3)) as usize;
            let lim = allowed(s.fam, few());
            let v = &mut s.v;
            match guard(|| v.slice_to_end(start)) {
                Ok(()) => {
                    cost(c0, lim, "slice");
                    s.m = if start >= n { vec![] } else { s.m.split_off(start) }
                }
                Err(p) => broke!(p, "slice_to_end"),
            }
        }
        K::Extract => {
            // bounds may lie beyond the end, or be the wrong way round
            let a = (op.a[1] % (n as u64 + 3)) as usize;
            let b = (op.a[4] % (n as u64 + 3)) as usize;
            let lim = allowed(s.fam, squared());
            let rg = bounds(a, b, op.a[5], n);
            let v = &mut s.v;
            match guard(|| v.extract_slice(rg)) {
                Ok(t) => {
                    effort(n, 0, 3, "extract_slice");
                    cost(c0, lim, "extract_slice");
                    FAMS.split(s.fam);
                    // the cut may leave two parts of one family side by side
                    let (x, y) = (a.min(n), b.min(n));
                    let mt: Vec<u64> = if x < y { s.m.drain(x..y).collect() } else { vec![] };
                    let t = Slot { v: t, m: mt, fam: s.fam };
                    verify(&t);
                    let (j, old) = ctx.take(op.a[2]);
                    drop_v(old.v, old.fam);
                    ctx.put(j, t);
                }
                Err(p) => broke!(p, "extract_slice"),
            }
        }
        K::Insert => {
            let at = (op.a[1] % (n as u64 + 2)) as usize;
            let e = Elem::new(op.a[2] as u32);
            let val = e.val();
            let lim = allowed(s.fam, squared());
            let v = &mut s.v;
            match guard(|| v.insert(at, e)) {
                Ok(()) => {
                    effort(n + 1, 0, 2, "insert");
                    cost(c0, lim, "insert");
                    s.m.insert(at.min(n), val)
                }
                Err(p) => broke!(p, "insert"),
            }
        }
        _ => {
            let at = (op.a[1] % (n as u64 + 2)) as usize;
            let lim = allowed(s.fam, squared());
            let v = &mut s.v;
            match guard(|| v.remove(at)) {
                Ok(e) => {
                    effort(n, 0, 3, "remove");
                    cost(c0, lim, "remove");
                    let got = e.as_ref().map(|e| e.val());
                    hush_opt(e);
                    let want = if at < n { Some(s.m.remove(at)) } else { None };
                    if got != want {
                        raise("retval", &format!("remove({}) returned {:?}, {:?} expected", at, got, want));
                    }
                }
                Err(p) => broke!(p, "remove"),
            }
        }
    }
    verify(&s);
    ctx.put(i, s);
}

/// Many cuts and concatenations in a row.
fn stir(ctx: &mut Ctx, op: &Op) {
    let (i, mut s) = ctx.take(op.a[0]);
    let mode = op.a[1] % 8;
    let small = (op.a[4] % 400).max(1) as usize;
    let top = 2 * s.m.len().max(small) + WIDTH;
    let same = (op.a[2] >> 8) % 3 != 0;
    let few = 2 + (small - 1) % WIDTH;
    let mut r = Rng::new(op.a[2] ^ 0x57);
    for turn in 0..op.a[3] {
        let n = s.m.len();
        let cut = match mode {
            // always the same few from one end
            2 | 4 if same => few.min(n),
            3 | 5 if same => n - few.min(n),
            0 | 1 => r.below(n + 1),
            2 | 4 => r.below(small.min(n) + 1),
            _ => n - r.below(small.min(n) + 1),
        };
        let v = &mut s.v;
        let m = &mut s.m;
        let r = &mut r;
        let res = quiet(|| {
            guard(|| match mode {
                // turn the vector round
                0 | 2 | 3 => {
                    let mut t = v.split_off(cut);
                    t.append(std::mem::replace(v, V::new()));
                    *v = t;
                    m.rotate_left(cut);
                }
                // cut it and put it together again
                1 => {
                    let t = v.split_off(cut);
                    v.append(t);
                }
                // move an end to the middle
                4 | 5 => {
                    let mut t = v.split_off(cut);
                    let mut mt = m.split_off(cut);
                    if mode == 5 {
                        std::mem::swap(v, &mut t);
                        std::mem::swap(m, &mut mt);
                    }
                    let at = r.below(mt.len() + 1);
                    let u = t.split_off(at);
                    let mu = mt.split_off(at);
                    t.append(std::mem::replace(v, V::new()));
                    mt.append(m);
                    t.append(u);
                    mt.extend(mu);
                    *v = t;
                    *m = mt;
                }
                // add short vectors, cut when it is long
                6 => {
                    let k = if same { few } else { 1 + r.below(small) };
                    let (t, mt) = grow(r, k, 0, 0);
                    if r.pct(50) {
                        v.append(t);
                        m.extend(mt);
                    } else {
                        v.prepend(t);
                        m.splice(0..0, mt);
                    }
                    if m.len() > top {
                        let k = r.below(m.len());
                        if r.pct(50) {
                            v.slice_from_start(k);
                            m.truncate(k);
                        } else {
                            v.slice_to_end(k);
                            m.drain(..k);
                        }
                    }
                }
                // one element at a time
                _ => {
                    if n > 0 {
                        let a = r.below(n);
                        let b = r.below(n);
                        if let Some(e) = v.remove(a) {
                            v.insert(b, e);
                        }
                        let x = m.remove(a);
                        m.insert(b, x);
                    }
                }
            })
        });
        if let Err(p) = res {
            unexpected(p, "cutting and concatenating");
            scrap(s, op.a[2]);
            return ctx.gone(i);
        }
        if turn % 64 == 63 {
            depth(&s.v, s.m.len());
        }
    }
    verify(&s);
    ctx.put(i, s);
}

fn write(ctx: &mut Ctx, op: &Op) {
    let (i, mut s) = ctx.take(op.a[0]);
    let n = s.m.len();
    let c0 = clones();
    let lim = allowed(s.fam, few());
    let idx = (op.a[1] % (n as u64 + 1)) as usize;
    let key = op.a[2] as u32;
    // what the write did: (position, old value seen, new value)
    let mut done: Option<(usize, u64, u64)> = None;
    let v = &mut s.v;
    let res: Result<bool, P> = match op.k {
        K::Set => guard(|| {
            let e = if op.a[3] % 2 == 0 && idx < n { Some(&mut v[idx]) } else { v.get_mut(idx) };
            e.map(|e| {
                let new = Elem::new(key);
                let nv = new.val();
                let old = std::mem::replace(e, new);
                done = Some((idx, old.val(), nv));
                hush(old);
            })
            .is_some()
        }),
        K::SetEnds => guard(|| {
            let front = op.a[3] % 2 == 0;
            let e = if front { v.front_mut() } else { v.back_mut() };
            e.map(|e| {
                let new = Elem::new(key);
                let nv = new.val();
                let old = std::mem::replace(e, new);
                done = Some((if front { 0 } else { n - 1 }, old.val(), nv));
                hush(old);
            })
            .is_some()
        }),
        _ => guard(|| match v.get_mut_guarded(idx) {
            Some(mut g) => {
                let seen = g.val();
                point(14, 0);
                let new = Elem::new(key);
                let nv = new.val();
                let old = std::mem::replace(&mut *g, new);
                if old.val() != seen {
                    raise("retval", "a guard showed two different elements");
                }
                done = Some((idx, seen, nv));
                hush(old);
                point(14, 1);
                if g.val() != nv {
                    raise("content", "a guard does not show the element written through it");
                }
                true
            }
            None => false,
        }),
    };
    if let Some((at, old, new)) = done {
        if s.m.get(at) != Some(&old) {
            raise("retval", &format!("writing at {} of {} reached element {:?}, {:?} expected", at, n, old, s.m.get(at)));
        }
        s.m[at] = new;
    }
    match res {
        Ok(some) => {
            let want = if op.k == K::SetEnds { n > 0 } else { idx < n };
            if some != want {
                raise("retval", &format!("mutable access at {} of {}: {}", idx, n, if some { "something" } else { "nothing" }));
            }
            effort(n, 1, 0, "write");
            cost(c0, lim, "write");
        }
        Err(p) => {
            if unexpected(p, "write") == Site::Drop {
                scrap(s, op.a[3]);
                return ctx.gone(i);
            }
        }
    }
    verify(&s);
    ctx.put(i, s);
}

fn reverse(ctx: &mut Ctx, op: &Op) {
    let (i, mut s) = ctx.take(op.a[0]);
    let n = s.m.len();
    let (a, b) = if op.k == K::Reverse { (0, n) } else { sub(op.a[1], op.a[2], n) };
    let c0 = clones();
    let lim = allowed(s.fam, (n + few() as usize) as u64);
    let rg = bounds(a, b, op.a[5], n);
    let v = &mut s.v;
    match guard(|| if op.k == K::Reverse { v.reverse() } else { v.reverse_range(rg) }) {
        Ok(()) => {
            cost(c0, lim, "reverse");
            s.m[a..b].reverse();
            verify(&s);
        }
        Err(p) => {
            if unexpected(p, "reverse") == Site::Drop {
                scrap(s, op.a[3]);
                return ctx.gone(i);
            }
            permuted(&mut s, a, b);
        }
    }
    ctx.put(i, s);
}

/// Positions outside the vector: the documented answer (clamp, None or panic), and no change.
fn misuse(ctx: &mut Ctx, op: &Op) {
    let (i, mut s) = ctx.take(op.a[0]);
    let n = s.m.len();
    let x = match op.a[1] % 5 {
        4 => usize::MAX - 1,
        3 => n + WIDTH,
        k => n + k as usize,
    };
    let mut dual: Option<Slot> = None;
    if op.a[2] % 11 == 4 || op.a[2] % 11 == 7 {
        let m = quiet(|| {
            let k = n / 2;
            let v: V = lib(|| (0..k).map(|q| Elem::new(q as u32)).collect());
            let m = content(&v).unwrap_or_default();
            (v, m)
        });
        dual = Some(Slot { v: m.0, m: m.1, fam: FAMS.fresh() });
    }
    let v = &mut s.v;
    // (must it panic?, result)
    let (must, res): (bool, Result<bool, P>) = match op.a[2] % 11 {
        0 => (true, guard(|| v[x].val() > 0)),
        1 => (true, guard(|| { v[x] = Elem::new(1); true })),
        2 => (true, guard(|| { v.reverse_range(0..x + 1); true })),
        3 => (true, guard(|| { v.sort_range(0..x + 1); true })),
        4 if n > 1 => {
            let d = dual.as_mut().unwrap();
            (true, guard(|| { v.dual_sort(&mut d.v); true }))
        }
        5 => (false, guard(|| v.get(x).is_none() && v.get_mut(x).is_none() && v.get_mut_guarded(x).is_none())),
        6 => (false, guard(|| v.remove(x).is_none() && v.split_off(x).is_empty())),
        7 if n > 1 => {
            let d = dual.as_mut().unwrap();
            (true, guard(|| { v.dual_sort_range(n / 2..n, &mut d.v); true }))
        }
        8 => {
            let y = x.max(1) - 1;
            (false, guard(|| v.extract_slice(x..).is_empty() && v.extract_slice(y..y).is_empty()))
        }
        9 => {
            let y = x.min(usize::MAX - 1);
            (false, guard(|| {
                v.slice_from_start(x);
                v.extract_slice(x..=y).is_empty()
            }))
        }
        // backwards: refused or empty, but never half done
        10 if n > 2 => {
            let at = x % (n - 1) + 1;
            let r = guard(|| v.extract_slice(at..at / 2).is_empty());
            (false, if let Err(P::Lib(_)) = r { Ok(true) } else { r })
        }
        _ => (false, Ok(true)),
    };
    match (must, res) {
        (true, Ok(_)) => raise("misuse", "an out-of-range position was accepted"),
        (true, Err(P::Lib(_))) => probe("misuse_answered_by_panic"),
        (false, Ok(true)) => probe("misuse_answered"),
        (false, Ok(false)) => raise("misuse", "an out-of-range position yielded something"),
        (false, Err(P::Lib(m))) => raise("panic", &format!("out-of-range access: {}", m)),
        (_, Err(P::Inj(site))) => {
            // cutting and joining may be interrupted half-way
            if site == Site::Drop || op.a[2] % 11 >= 8 {
                scrap(s, op.a[3]);
                if let Some(d) = dual {
                    scrap(d, 1);
                }
                return ctx.gone(i);
            }
        }
    }
    if let Some((_, text)) = diff(&s.v, &s.m) {
        raise("misuse", &format!("a refused operation changed the vector: {}", text));
    }
    if let Some(d) = dual {
        if let Some((_, text)) = diff(&d.v, &d.m) {
            raise("misuse", &format!("a refused operation changed the paired vector: {}", text));
        }
        drop_v(d.v, d.fam);
    }
    ctx.put(i, s);
}
