//! Random cases: what the threads do, how they interleave, which faults strike. Everything is
//! drawn from (seed, profile, index), so an index is a case.
use crate::case::{Case, Op, K};
use crate::rng::{mix, Rng};
use crate::WIDTH;

const CLONE: u8 = 0;
const DROP: u8 = 1;
const CMP: u8 = 2;
const PRED: u8 = 3;
const ITER: u8 = 4;

type Mix = &'static [(K, u32)];

const GENERIC: Mix = &[
    (K::Grow, 4), (K::Build, 2), (K::Const, 2), (K::Single, 1), (K::Collect, 2), (K::New, 1),
    (K::Clone, 14), (K::Drop, 8), (K::Swap, 2), (K::Pub, 4), (K::BClone, 6), (K::BTake, 3), (K::BRead, 6),
    (K::PushB, 5), (K::PushF, 5), (K::PopB, 5), (K::PopF, 5), (K::PushN, 6), (K::PopN, 6),
    (K::Append, 7), (K::Prepend, 5), (K::SelfApp, 2), (K::Split, 7), (K::SliceStart, 3), (K::SliceEnd, 3),
    (K::Extract, 4), (K::Insert, 6), (K::Remove, 6), (K::Set, 7), (K::SetEnds, 2), (K::Guard, 4),
    (K::Reverse, 2), (K::RevRange, 3), (K::Oob, 1), (K::Odd, 1), (K::Stir, 1), (K::Sort, 3), (K::SortRange, 3), (K::Dual, 3),
    (K::Get, 4), (K::Focus, 4), (K::Search, 3), (K::KeySearch, 2), (K::Eq, 2), (K::Iter, 4),
    (K::IterMut, 4), (K::IntoIter, 4), (K::FMut, 5), (K::FPar, 4),
];

fn special(prop: &str) -> Mix {
    match prop {
        "C01" => &[
            (K::Odd, 2),
            (K::Clone, 25), (K::BClone, 15), (K::BTake, 5), (K::BRead, 10), (K::Pub, 8), (K::Drop, 15),
            (K::Set, 15), (K::Guard, 6), (K::PushB, 6), (K::PushF, 6), (K::PopB, 6), (K::PopF, 6),
            (K::PushN, 6), (K::PopN, 6), (K::Append, 8), (K::Prepend, 6), (K::Split, 8), (K::SliceStart, 4),
            (K::SliceEnd, 4), (K::Insert, 6), (K::Remove, 6), (K::Sort, 4), (K::SortRange, 4), (K::RevRange, 4),
            (K::FMut, 8), (K::IterMut, 6), (K::IntoIter, 4), (K::FPar, 4), (K::Dual, 3),
        ],
        "C02" => &[
            (K::Odd, 4),
            (K::Grow, 6), (K::Const, 3), (K::Single, 1), (K::Collect, 3), (K::Clone, 10), (K::BClone, 6),
            (K::Drop, 4), (K::PushB, 8), (K::PushF, 8), (K::PopB, 8), (K::PopF, 8), (K::PushN, 10), (K::PopN, 10),
            (K::Append, 14), (K::Prepend, 12), (K::SelfApp, 4), (K::Split, 12), (K::SliceStart, 7), (K::SliceEnd, 7),
            (K::Extract, 8), (K::Insert, 10), (K::Remove, 10), (K::Set, 6), (K::SetEnds, 4), (K::Guard, 4),
            (K::Reverse, 3), (K::RevRange, 4), (K::Oob, 3),
        ],
        "C03" => &[
            (K::Odd, 3),
            (K::Grow, 4), (K::Build, 6), (K::Clone, 6), (K::BClone, 4), (K::Pub, 3), (K::BRead, 15), (K::Append, 5),
            (K::Prepend, 4), (K::Split, 4), (K::SliceEnd, 3), (K::Insert, 4), (K::Set, 4), (K::PopN, 4), (K::PushN, 4),
            (K::Const, 2), (K::Get, 12), (K::Focus, 25), (K::Search, 20), (K::KeySearch, 20), (K::Eq, 12), (K::Iter, 10),
        ],
        "C04" => &[
            (K::Odd, 2),
            (K::Grow, 6), (K::Clone, 12), (K::Drop, 4), (K::BClone, 6), (K::Append, 6), (K::Prepend, 4), (K::Split, 4),
            (K::PopN, 3), (K::PushN, 3), (K::Const, 3), (K::SelfApp, 3), (K::FMut, 35), (K::FPar, 35), (K::Focus, 2), (K::Set, 3),
        ],
        "C05" => &[
            (K::Odd, 3),
            (K::Grow, 5), (K::Const, 3), (K::Clone, 20), (K::Drop, 18), (K::BClone, 10), (K::BTake, 6), (K::Pub, 6), (K::BRead, 5),
            (K::PushN, 5), (K::PopN, 8), (K::PopB, 4), (K::PopF, 4), (K::Append, 8), (K::Prepend, 6), (K::SelfApp, 4), (K::Split, 8),
            (K::SliceStart, 6), (K::SliceEnd, 6), (K::Extract, 5), (K::Insert, 4), (K::Remove, 5), (K::Set, 5), (K::Guard, 6),
            (K::IntoIter, 14), (K::IterMut, 8), (K::FMut, 12), (K::FPar, 8), (K::Forget, 4), (K::Iter, 3), (K::Sort, 3), (K::RevRange, 3),
        ],
        "C06" => &[
            (K::Clone, 12), (K::Collect, 5), (K::Const, 5), (K::BClone, 6), (K::Grow, 3), (K::Drop, 5), (K::PushB, 5), (K::PushF, 5),
            (K::PopB, 5), (K::PopF, 5), (K::PushN, 4), (K::PopN, 4), (K::Append, 9), (K::Prepend, 7), (K::Split, 9), (K::SliceStart, 6),
            (K::SliceEnd, 6), (K::Extract, 7), (K::Insert, 9), (K::Remove, 9), (K::Set, 5), (K::Guard, 4), (K::Reverse, 3), (K::RevRange, 3),
            (K::Sort, 4), (K::SortRange, 4), (K::Dual, 5), (K::Search, 4), (K::KeySearch, 3), (K::Eq, 3), (K::IterMut, 5), (K::IntoIter, 8),
            (K::FMut, 6), (K::FPar, 6), (K::Oob, 6), (K::SelfApp, 2),
        ],
        "C07" => &[
            (K::Clone, 14), (K::BClone, 5), (K::Grow, 4), (K::Const, 3), (K::PushB, 12), (K::PushF, 12), (K::PopB, 12), (K::PopF, 12), (K::PushN, 10), (K::PopN, 10),
            (K::Sort, 12), (K::SortRange, 10), (K::Dual, 10), (K::Reverse, 8), (K::RevRange, 8), (K::IterMut, 10), (K::FMut, 10), (K::FPar, 8),
            (K::Set, 8), (K::SetEnds, 5), (K::Guard, 5), (K::Append, 3), (K::Split, 3), (K::Insert, 2),
        ],
        "C08" => &[
            (K::Odd, 5),
            (K::Grow, 5), (K::Build, 14), (K::Const, 2), (K::Clone, 10), (K::BClone, 5), (K::Append, 5), (K::Split, 4), (K::Prepend, 3), (K::Insert, 3),
            (K::Sort, 25), (K::SortRange, 22), (K::Dual, 30), (K::Set, 3), (K::Drop, 3), (K::SelfApp, 2),
        ],
        "C09" => &[
            (K::Odd, 3),
            (K::Grow, 6), (K::Const, 2), (K::Clone, 12), (K::BClone, 5), (K::Append, 5), (K::Prepend, 3), (K::Split, 3), (K::Insert, 3), (K::SelfApp, 2),
            (K::PopN, 3), (K::PushN, 3), (K::Set, 3), (K::Drop, 4), (K::BRead, 6), (K::Iter, 25), (K::IterMut, 25), (K::IntoIter, 25), (K::Guard, 2),
        ],
        "C10" => &[
            (K::Grow, 6), (K::Clone, 18), (K::Drop, 10), (K::BClone, 5), (K::BTake, 3), (K::Pub, 3), (K::PushB, 8), (K::PushF, 8), (K::PopB, 8), (K::PopF, 8),
            (K::PushN, 8), (K::PopN, 8), (K::Append, 10), (K::Prepend, 8), (K::Split, 8), (K::SliceStart, 6), (K::SliceEnd, 6), (K::Extract, 4),
            (K::Insert, 8), (K::Remove, 8), (K::Set, 8), (K::SetEnds, 3), (K::Guard, 4), (K::FMut, 4), (K::IterMut, 4), (K::RevRange, 3), (K::Sort, 3), (K::IntoIter, 3), (K::Focus, 2), (K::Iter, 2),
        ],
        "C13" => &[
            (K::Grow, 6), (K::Build, 2), (K::Const, 2), (K::Collect, 2), (K::Stir, 40), (K::Append, 12), (K::Prepend, 12), (K::SelfApp, 5), (K::Split, 12),
            (K::SliceStart, 6), (K::SliceEnd, 6), (K::Extract, 10), (K::Insert, 6), (K::Remove, 6), (K::PushN, 8), (K::PopN, 8), (K::Clone, 8), (K::BClone, 4), (K::Drop, 3),
        ],
        "C14" => &[
            (K::Grow, 6), (K::Build, 2), (K::Const, 3), (K::Collect, 3), (K::Stir, 16), (K::Clone, 14), (K::BClone, 5), (K::BTake, 4), (K::Drop, 8), (K::Pub, 4),
            (K::Append, 8), (K::Prepend, 8), (K::SelfApp, 2), (K::Split, 8), (K::SliceStart, 10), (K::SliceEnd, 10), (K::Extract, 8), (K::Insert, 8), (K::Remove, 8),
            (K::PushN, 6), (K::PopN, 12), (K::PopB, 6), (K::PopF, 6), (K::PushB, 3), (K::PushF, 3), (K::Set, 6), (K::SetEnds, 3), (K::Guard, 4),
            (K::FMut, 8), (K::FPar, 4), (K::IterMut, 6), (K::IntoIter, 8), (K::RevRange, 3), (K::Sort, 3), (K::Dual, 2),
        ],
        _ => &[
            // C11
            (K::Grow, 4), (K::Build, 14), (K::Const, 4), (K::Clone, 8), (K::BClone, 5), (K::Append, 4), (K::Split, 3), (K::Set, 3), (K::Insert, 3),
            (K::Sort, 22), (K::SortRange, 16), (K::Dual, 20), (K::Search, 16), (K::KeySearch, 12), (K::FPar, 3), (K::Reverse, 2), (K::Drop, 3),
        ],
    }
}

struct G {
    r: Rng,
    /// upper bound for vector lengths in this case
    max: usize,
    fault: u32,
    drop_fault: bool,
    lie: u32,
    nest: u32,
    forget: bool,
    threads: usize,
    pre: u32,
    fine: bool,
    far: bool,
    deep: bool,
}

impl G {
    fn size(&mut self) -> usize {
        let max = self.max;
        let r = &mut self.r;
        match r.below(10) {
            0 => r.below(4),
            1..=3 => {
                // around the places where a node, a spine level or a tree level fills up
                let base = [WIDTH, 2 * WIDTH, 3 * WIDTH, WIDTH * WIDTH, WIDTH * (WIDTH + 1), WIDTH * (WIDTH + 2), WIDTH * WIDTH * WIDTH][r.below(7)];
                let d = r.below(5) as i64 - 2;
                ((base as i64 + d).max(0) as usize).min(max)
            }
            4..=6 => r.log(max),
            _ => r.below(max + 1),
        }
    }

    fn slot(&mut self) -> u64 {
        // few slots, so that operations meet
        self.r.below(3 + self.r.clone().below(3)) as u64
    }

    fn seed(&mut self) -> u64 {
        self.r.next() >> 40
    }

    fn steps(&mut self) -> u64 {
        if self.r.pct(30) {
            0
        } else {
            self.r.log(120) as u64
        }
    }

    fn pos(&mut self) -> u64 {
        // reduced modulo the length by the interpreter; multiples of the width and both ends matter
        match self.r.below(6) {
            0 => self.r.log(3 * WIDTH) as u64,
            1 => (WIDTH * self.r.below(2 * WIDTH)) as u64 + self.r.below(3) as u64,
            2 => u64::MAX / 2 / 720720 * 720720 - 1 - self.r.below(20) as u64,
            _ => self.r.next() >> 32,
        }
    }

    fn key(&mut self) -> u64 {
        match self.r.below(3) {
            0 => self.r.below(4) as u64,
            1 => self.r.below(100) as u64,
            _ => self.r.next() >> 36,
        }
    }

    fn op(&mut self, k: K) -> Op {
        let h = self.slot();
        let pat = self.r.below(5) as u64;
        let bk = self.r.below(9) as u64;
        let mut a = [0u64; 6];
        a[0] = h;
        use K::*;
        match k {
            New => {}
            Grow => {
                a[1] = self.size() as u64;
                a[2] = self.seed();
                a[3] = pat;
            }
            Build => {
                a[1] = self.size() as u64;
                a[2] = self.seed();
                a[3] = pat;
                a[4] = self.r.below(5) as u64;
            }
            Const => {
                a[1] = self.size() as u64;
                a[2] = self.key();
            }
            Single => a[2] = self.key(),
            Collect => {
                a[1] = self.size().min(600) as u64;
                a[2] = self.seed();
                a[3] = pat;
            }
            Clone | Append | Prepend | Swap => a[1] = self.slot(),
            Drop | SelfApp | Reverse => {}
            Pub => a[1] = self.r.below(4) as u64,
            BClone | BTake => {
                a[0] = self.r.below(4) as u64;
                a[1] = self.slot();
            }
            BRead => {
                a[0] = self.r.below(4) as u64;
                a[1] = self.seed();
                a[2] = self.steps();
                a[5] = self.r.below(4) as u64;
            }
            PushB | PushF => a[1] = self.key(),
            PopB | PopF => {}
            PushN | PopN => {
                a[1] = 1 + self.r.log((self.max / 2).min(3 * WIDTH * WIDTH).max(4)) as u64;
                a[2] = self.r.below(2) as u64;
                a[3] = self.seed();
                a[4] = pat;
            }
            Split => {
                a[1] = self.pos();
                a[2] = self.slot();
                a[3] = self.seed();
            }
            SliceStart | SliceEnd => a[1] = self.pos(),
            Extract => {
                a[1] = self.pos();
                a[2] = self.slot();
                a[3] = self.seed();
                a[4] = self.pos();
                a[5] = bk;
            }
            Insert => {
                a[1] = self.pos();
                a[2] = self.key();
            }
            Remove => a[1] = self.pos(),
            Set => {
                a[1] = self.pos();
                a[2] = self.key();
                a[3] = self.r.below(2) as u64;
            }
            SetEnds => {
                a[2] = self.key();
                a[3] = self.r.below(2) as u64;
            }
            Guard => {
                a[1] = self.pos();
                a[2] = self.key();
            }
            RevRange => {
                a[1] = self.pos();
                a[2] = self.pos();
                a[3] = self.seed();
                a[5] = bk;
            }
            Odd => {
                a[0] = self.r.below(9) as u64;
                a[1] = self.seed();
                a[2] = self.r.log(60) as u64;
            }
            Stir => {
                a[1] = self.r.below(8) as u64;
                a[2] = self.seed();
                a[3] = match (self.deep, self.r.pct(50)) {
                    (true, true) => self.r.range(500, 1500),
                    (true, false) => self.r.log(1500),
                    _ => self.r.log(40),
                } as u64;
                a[4] = 1 + self.r.log(120) as u64;
            }
            Oob => {
                a[1] = self.r.below(5) as u64;
                a[2] = self.r.below(11) as u64;
            }
            Sort => {
                a[3] = self.r.below(8) as u64;
                a[4] = self.r.below(3) as u64;
            }
            SortRange => {
                a[1] = self.pos();
                a[2] = self.pos();
                a[3] = self.r.below(8) as u64;
                a[4] = self.r.below(3) as u64;
                a[5] = bk;
            }
            Dual => {
                a[1] = self.slot();
                a[2] = self.pos();
                a[3] = self.r.below(8) as u64;
                a[4] = self.r.below(6) as u64;
                a[5] = bk;
            }
            Get => a[1] = self.seed(),
            Focus | Iter => {
                a[1] = self.seed();
                a[2] = self.steps();
            }
            Search | KeySearch => {
                a[1] = self.seed();
                a[2] = self.r.below(9) as u64;
            }
            Eq => {
                a[1] = self.slot();
                a[2] = self.seed();
                a[3] = self.r.below(3) as u64;
            }
            IterMut | IntoIter => {
                a[1] = self.seed();
                a[2] = if self.r.pct(40) { 0 } else { 4 * self.r.log(200) as u64 + self.r.range(1, 3) as u64 };
            }
            FMut => {
                a[1] = self.seed();
                a[2] = self.r.log(60) as u64;
                a[3] = self.r.below(10) as u64;
            }
            FPar => {
                a[1] = self.r.below(3) as u64;
                a[2] = self.seed();
                a[3] = self.r.log(40) as u64;
            }
            Forget => {
                a[1] = self.r.below(6) as u64;
                a[2] = self.pos();
                a[3] = self.r.below(6) as u64;
            }
        }
        Op { k, a, pre: vec![], fault: vec![], lie: 0, nested: vec![] }
    }

    /// Callback kinds an operation is likely to make, most likely first.
    fn sites(k: K) -> &'static [u8] {
        use K::*;
        match k {
            Sort | SortRange | Dual => &[CMP, CMP, CLONE],
            Search => &[PRED],
            KeySearch => &[CMP],
            Eq => &[CMP, CMP, PRED],
            Collect => &[ITER],
            Drop | IntoIter => &[DROP, DROP, CLONE],
            SliceStart | SliceEnd => &[CLONE, DROP],
            _ => &[CLONE],
        }
    }

    fn adorn(&mut self, op: &mut Op) {
        // how many scheduling points the operation may have
        let long = matches!(op.k, K::Sort | K::SortRange | K::Dual | K::IterMut | K::IntoIter | K::FMut | K::PushN | K::PopN | K::Reverse | K::RevRange | K::Iter | K::Focus | K::BRead);
        if self.threads > 1 && self.r.pct(self.pre) {
            let k = if self.r.pct(60) { 1 } else { 1 + self.r.log(6) };
            for _ in 0..k {
                // in the instrumented build every access of the library counts
                let far = match (self.fine, long) {
                    (false, true) => 400,
                    (false, false) => 120,
                    (true, true) => 60_000,
                    (true, false) => 6_000,
                };
                let n = 1 + self.r.log(far) as u64;
                let stall = if self.r.pct(25) || (self.far && self.r.pct(60)) {
                    100_000
                } else {
                    self.r.log(30) as u32
                };
                op.pre.push((n, stall));
            }
        }
        if self.r.pct(self.fault) {
            let s = Self::sites(op.k);
            let mut site = s[self.r.below(s.len())];
            if site == DROP && !self.drop_fault {
                site = if s.contains(&CLONE) { CLONE } else { s[0] };
            }
            if self.drop_fault && self.r.pct(40) {
                site = DROP;
            }
            let n = 1 + match site {
                CLONE => {
                    if self.r.pct(60) {
                        self.r.below(WIDTH + 2)
                    } else {
                        self.r.log(6 * WIDTH)
                    }
                }
                CMP => self.r.log(if op.k == K::KeySearch || op.k == K::Eq { 12 } else { 2000.min(self.max * 8 + 4) }),
                PRED => self.r.log(14),
                ITER => self.r.log(self.max.min(600)),
                _ => self.r.log(80),
            } as u64;
            if !(site == DROP && !self.drop_fault) {
                op.fault.push((site, n));
            }
            if op.k == K::FPar && site == CLONE {
                // in one of the parts, or while splitting
                if self.r.pct(70) {
                    op.fault.clear();
                    op.a[4] = 1 + self.r.below(4) as u64;
                    op.a[5] = 1 + self.r.log(WIDTH * 2) as u64;
                }
            }
        }
        if self.r.pct(self.lie) && matches!(op.k, K::Sort | K::SortRange | K::Dual | K::Search | K::KeySearch | K::Eq) {
            op.lie = 1 + (self.r.next() >> 44);
            if self.max > 700 && matches!(op.k, K::Sort | K::SortRange | K::Dual) {
                // the work may grow with the square of the length
                op.lie = 0;
            }
        }
        if self.r.pct(self.nest) {
            for _ in 0..1 + self.r.below(2) {
                let s = Self::sites(op.k);
                let site = s[self.r.below(s.len())];
                let n = 1 + self.r.log(40) as u64;
                let k = *self.r.pick(&[
                    K::Clone, K::Clone, K::Drop, K::Drop, K::PushB, K::PushF, K::PopB, K::PopF, K::Set, K::Append, K::Split, K::Insert, K::Remove,
                    K::BClone, K::BTake, K::Pub, K::Iter, K::Get, K::Guard, K::SliceStart, K::IntoIter, K::RevRange, K::Focus,
                ]);
                let mut o = self.op(k);
                if matches!(k, K::IntoIter | K::Iter | K::Focus) {
                    o.a[2] = 1 + self.r.below(9) as u64;
                }
                op.nested.push((site, n, o));
            }
        }
    }
}

pub fn case(prop: &str, seed: u64, idx: u64) -> Case {
    let p = prop.bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
    let mut r = Rng::new(mix(seed) ^ mix(p).rotate_left(17) ^ mix(idx.wrapping_mul(0x2545_F491_4F6C_DD1D)));
    let narrow = WIDTH <= 16;
    let deep = prop == "C13" || prop == "C14" && r.pct(30);
    let class = if deep && r.pct(40) { r.range(14, 19) } else { r.below(20) };
    let max = if class < 8 {
        24
    } else if class < 16 {
        if narrow { 200 } else { 700 }
    } else if class < 19 {
        if narrow { 900 } else { 5500 }
    } else if narrow {
        3000
    } else {
        20_000
    };
    let rc = r.pct(25);
    let threads = if rc {
        1
    } else {
        match prop {
            "C01" => [1, 2, 2, 2, 3, 3, 4, 4][r.below(8)],
            _ => [1, 1, 2, 2, 2, 3, 3, 4][r.below(8)],
        }
    };
    let base_mix: Mix = if prop == "C14" && deep && r.pct(60) {
        special("C13")
    } else if r.pct(60) {
        special(prop)
    } else {
        GENERIC
    };
    // a subset of the operations, so that rare combinations get their turn
    let keep = [100, 70, 40][r.below(3)];
    let mut m: Vec<(K, u32)> = base_mix.iter().cloned().filter(|_| r.pct(keep)).collect();
    if m.len() < 3 {
        m = base_mix.to_vec();
    }
    let fault = match prop {
        "C06" | "C07" => [30, 60, 80][r.below(3)],
        "C05" => [0, 0, 30][r.below(3)],
        "C10" => 0,
        "C11" => [0, 0, 0, 10][r.below(4)],
        "C01" => [0, 0, 0, 25][r.below(4)],
        _ => [0, 0, 0, 0, 0, 10][r.below(6)],
    };
    let drop_fault = match prop {
        "C06" => r.pct(18),
        "C05" => r.pct(15),
        _ => false,
    };
    let lie = match prop {
        "C11" => [0, 0, 60][r.below(3)],
        "C06" | "C08" | "C03" => [0, 0, 0, 0, 0, 0, 0, 20][r.below(8)],
        _ => 0,
    };
    let nest = if rc || threads == 1 { [0, 30, 60][r.below(3)] } else { [0, 0, 0, 25][r.below(4)] };
    let nest = if prop == "C10" { 0 } else { nest };
    let mut g = G {
        r,
        max,
        fault,
        drop_fault,
        lie,
        nest,
        forget: prop == "C05",
        threads,
        pre: 0,
        fine: fine::instrumented(),
        far: prop == "C11",
        deep,
    };
    g.pre = [30, 60, 90][g.r.below(3)];
    let mut c = Case { rc, racy: false, salt: 0, pivot: 0, order: vec![], pre: vec![], threads: vec![] };
    c.salt = g.r.next() >> 32;
    if g.max <= 24 && g.r.pct(if prop == "C08" || prop == "C11" { 50 } else { 15 }) {
        c.pivot = 1 + g.r.below(5) as u64;
    }
    let forget_case = g.forget && g.r.pct(10);

    // the vectors everybody starts from
    let ncells = if threads > 1 { 1 + g.r.below(3) } else { g.r.below(3) };
    for b in 0..ncells {
        let k = if g.r.pct(15) { K::Const } else if g.r.pct(25) { K::Build } else { K::Grow };
        let mut o = g.op(k);
        o.a[0] = b as u64;
        c.pre.push(o);
        if g.r.pct(30) {
            let k = *g.r.pick(&[K::SelfApp, K::Append, K::Clone, K::Split, K::PopN, K::PushN, K::Insert, K::SliceEnd]);
            let mut o = g.op(k);
            o.a[0] = b as u64;
            c.pre.push(o);
        }
        c.pre.push(Op::new(K::Pub, &[b as u64, b as u64]));
        if g.r.pct(70) {
            // else the cell and thread 0 share it from the start
            c.pre.push(Op::new(K::Drop, &[b as u64]));
        }
    }
    let nops = if g.max <= 24 {
        g.r.range(4, 36)
    } else if g.max <= 1000 {
        g.r.range(3, 22)
    } else {
        g.r.range(2, 8)
    };
    let nops = nops / (if threads > 2 { 2 } else { 1 }) + 1;
    for t in 0..threads {
        let mut ops = vec![];
        if threads > 1 || g.r.pct(50) {
            for _ in 0..1 + g.r.below(2) {
                let last = t + 1 == threads && g.r.pct(40);
                let k = if last { K::BTake } else { K::BClone };
                let mut o = g.op(k);
                o.a[0] = g.r.below(ncells.max(1)) as u64;
                g.adorn(&mut o);
                ops.push(o);
            }
        } else {
            let mut o = g.op(if g.r.clone().pct(70) { K::Grow } else { K::Build });
            o.a[0] = 0;
            ops.push(o);
        }
        let total: u32 = m.iter().map(|x| x.1).sum();
        for _ in 0..nops {
            let mut x = g.r.below(total as usize) as u32;
            let mut k = m[0].0;
            for (q, wt) in &m {
                if x < *wt {
                    k = *q;
                    break;
                }
                x -= *wt;
            }
            if forget_case && g.r.pct(8) {
                k = K::Forget;
            } else if k == K::Forget && !forget_case {
                k = K::Drop;
            }
            let mut o = g.op(k);
            g.adorn(&mut o);
            // sharing must exist for copies to be made, and for copies to be interrupted
            let writes = matches!(o.k.group(), "edit" | "sort" | "fmut") || matches!(o.k, K::IterMut | K::IntoIter);
            let want = if !o.fault.is_empty() || !o.nested.is_empty() { 60 } else { 12 };
            if writes && g.r.pct(want) {
                let mut q = g.op(K::Clone);
                q.a[0] = o.a[0];
                if q.a[1] == q.a[0] {
                    q.a[1] += 1;
                }
                ops.push(q);
            }
            ops.push(o);
        }
        c.threads.push(ops);
    }
    if threads > 1 {
        for _ in 0..g.r.log(80) {
            c.order.push(g.r.below(12) as u32);
        }
    }
    c
}
