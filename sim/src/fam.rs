//! Which handles may share nodes. Deliberately conservative: a family counts as unshared only
//! when no clone of any of its data can be alive.
use std::cell::RefCell;

#[derive(Default)]
pub struct Fams {
    parent: Vec<usize>,
    live: Vec<i64>,
    cloned: Vec<bool>,
    sticky: Vec<bool>,
}

pub struct FamCell(RefCell<Fams>);
unsafe impl Sync for FamCell {}
pub static FAMS: FamCell = FamCell(RefCell::new(Fams { parent: vec![], live: vec![], cloned: vec![], sticky: vec![] }));

impl FamCell {
    fn with<R>(&self, f: impl FnOnce(&mut Fams) -> R) -> R {
        crate::heap::outside(|| f(&mut self.0.borrow_mut()))
    }
    pub fn reset(&self) {
        self.with(|s| *s = Fams::default())
    }
    pub fn fresh(&self) -> usize {
        self.with(|s| {
            s.parent.push(s.parent.len());
            s.live.push(1);
            s.cloned.push(false);
            s.sticky.push(false);
            s.parent.len() - 1
        })
    }
    pub fn cloned(&self, f: usize) {
        self.with(|s| {
            let r = s.root(f);
            s.live[r] += 1;
            s.cloned[r] = true;
        })
    }
    pub fn dropped(&self, f: usize) {
        self.with(|s| {
            let r = s.root(f);
            s.live[r] -= 1;
            s.settle(r);
        })
    }
    pub fn split(&self, f: usize) {
        self.with(|s| {
            let r = s.root(f);
            s.live[r] += 1;
        })
    }
    /// `b`'s data was moved into `a`'s handle; `b`'s handle is gone.
    pub fn merged(&self, a: usize, b: usize) {
        self.with(|s| {
            let (x, y) = (s.root(a), s.root(b));
            if x == y {
                if s.cloned[x] {
                    s.sticky[x] = true;
                }
                s.live[x] -= 1;
            } else {
                s.parent[y] = x;
                s.live[x] += s.live[y] - 1;
                s.cloned[x] |= s.cloned[y];
                s.sticky[x] |= s.sticky[y];
            }
            s.settle(x);
        })
    }
    /// One vector may hold the same node twice, or references were leaked.
    pub fn spoil(&self, f: usize) {
        self.with(|s| {
            let r = s.root(f);
            s.sticky[r] = true;
        })
    }
    pub fn unshared(&self, f: usize) -> bool {
        self.with(|s| {
            let r = s.root(f);
            !s.cloned[r] && !s.sticky[r]
        })
    }
}

impl Fams {
    fn root(&mut self, mut f: usize) -> usize {
        while self.parent[f] != f {
            f = self.parent[f];
        }
        f
    }
    fn settle(&mut self, r: usize) {
        if self.live[r] == 1 {
            self.cloned[r] = false;
        }
    }
}
