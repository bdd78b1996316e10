//! The element type put into the vectors: every instance is registered, so a second drop, a
//! drop of garbage, a late read or a leak of any single element is seen.
use crate::heap::outside;
use crate::world::{callback, th, w, Site};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

const LIVE: u8 = 1;
const DROPPED: u8 = 2;
const DEADBEEF: u32 = 0xDEAD_0E1E;

/// The part elements are searched by.
#[repr(transparent)]
#[derive(Debug)]
pub struct Key(pub u32);

#[repr(C)]
pub struct Elem {
    pub key: Key,
    uniq: u32,
    inst: u32,
    canary: u32,
}

fn seal(inst: u32, key: u32, uniq: u32) -> u32 {
    inst.wrapping_mul(0x9E37_79B1) ^ key.rotate_left(7) ^ uniq.wrapping_mul(0x85EB_CA6B) ^ 0x5EA1_ED00
}

fn register() -> u32 {
    outside(|| {
        let mut v = w().insts.borrow_mut();
        v.push(LIVE);
        w().live_elems.set(w().live_elems.get() + 1);
        (v.len() - 1) as u32
    })
}

impl Elem {
    pub fn new(key: u32) -> Elem {
        let _f = fine::set(false);
        let u = w().uniq.get() + 1;
        w().uniq.set(u);
        Elem::with(key, u)
    }
    pub fn with(key: u32, uniq: u32) -> Elem {
        let _f = fine::set(false);
        let inst = register();
        Elem { key: Key(key), uniq, inst, canary: seal(inst, key, uniq) }
    }
    #[inline]
    pub fn check(&self, what: &'static str) {
        let _f = fine::set(false);
        if self.canary != seal(self.inst, self.key.0, self.uniq) {
            let s = if self.canary == DEADBEEF { "an element that was already dropped" } else { "memory that holds no element" };
            crate::viol::raise("uaf", &format!("{} of {}", what, s));
        }
        let st = w().insts.borrow().get(self.inst as usize).cloned().unwrap_or(0);
        if st != LIVE {
            crate::viol::raise("uaf", &format!("{} of an element whose owner dropped it already", what));
        }
    }
    /// Value without any callback.
    #[inline]
    pub fn val(&self) -> u64 {
        self.check("read");
        (self.key.0 as u64) << 32 | self.uniq as u64
    }
}

impl Clone for Elem {
    fn clone(&self) -> Elem {
        let _f = fine::set(false);
        self.check("clone");
        callback(Site::Clone);
        self.check("clone");
        Elem::with(self.key.0, self.uniq)
    }
}

impl Drop for Elem {
    fn drop(&mut self) {
        let _f = fine::set(false);
        if self.canary != seal(self.inst, self.key.0, self.uniq) {
            if self.canary == DEADBEEF {
                crate::viol::raise("double_drop", "an element was dropped twice");
            }
            crate::viol::raise("uaf", "memory that holds no element was dropped as one");
        }
        {
            let mut v = w().insts.borrow_mut();
            match v.get_mut(self.inst as usize) {
                Some(s) if *s == LIVE => *s = DROPPED,
                Some(_) => {
                    drop(v);
                    crate::viol::raise("double_drop", "an element was dropped twice")
                }
                None => {
                    drop(v);
                    crate::viol::raise("uaf", "unknown element dropped")
                }
            }
        }
        self.canary = DEADBEEF;
        w().live_elems.set(w().live_elems.get() - 1);
        callback(Site::Drop);
    }
}

impl std::fmt::Debug for Elem {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.check("formatting");
        write!(f, "{}:{}", self.key.0, self.uniq)
    }
}

impl PartialEq for Elem {
    fn eq(&self, o: &Elem) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Elem {}
impl PartialOrd for Elem {
    fn partial_cmp(&self, o: &Elem) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Elem {
    fn cmp(&self, o: &Elem) -> Ordering {
        self.check("comparison");
        o.check("comparison");
        callback(Site::Cmp);
        if let Some(l) = lie(self.val(), o.val()) {
            return l;
        }
        self.val().cmp(&o.val())
    }
}
impl Hash for Elem {
    fn hash<H: Hasher>(&self, h: &mut H) {
        callback(Site::Pred);
        h.write_u64(self.val());
    }
}
impl Borrow<Key> for Elem {
    fn borrow(&self) -> &Key {
        self.check("borrow");
        &self.key
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> Ordering {
        callback(Site::Cmp);
        if let Some(l) = lie(self.0 as u64, o.0 as u64) {
            return l;
        }
        self.0.cmp(&o.0)
    }
}

/// The answer of an inconsistent comparator, when the current operation is given one.
pub fn lie(a: u64, b: u64) -> Option<Ordering> {
    let _f = fine::set(false);
    let t = th();
    let seed = t.lie.get();
    if seed == 0 || t.quiet.get() > 0 {
        return None;
    }
    let n = t.lies.get() + 1;
    t.lies.set(n);
    crate::world::probe("fault_inconsistent_answers");
    // three styles: random answers, constant answers, random but fixed per pair
    let h = match seed % 4 {
        0 => crate::rng::mix(seed ^ n),
        1 => seed >> 8,
        2 => crate::rng::mix(seed ^ a.wrapping_mul(31) ^ b),
        _ => {
            if n % 7 == 0 {
                crate::rng::mix(seed ^ n)
            } else {
                return Some(a.cmp(&b));
            }
        }
    };
    Some(match h % 3 {
        0 => Ordering::Less,
        1 => Ordering::Equal,
        _ => Ordering::Greater,
    })
}
