//! Element types other than `Elem`: zero-sized, over-aligned, large, plain and owning ones.
use crate::world::th;
use std::hash::{Hash, Hasher};

pub trait Odd: Clone + std::fmt::Debug + Ord + Hash {
    const NAME: &'static str;
    /// The value `x` stands for in this type; `code(make(x)) == code_of(x)`.
    fn make(x: u64) -> Self;
    fn code(&self) -> u64;
    fn code_of(x: u64) -> u64;
}

fn alive(d: i64) {
    th().odd_live.set(th().odd_live.get() + d);
}

/// No size, but it counts: one drop per instance.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Nothing(());
impl Clone for Nothing {
    fn clone(&self) -> Self {
        alive(1);
        Nothing(())
    }
}
impl Drop for Nothing {
    fn drop(&mut self) {
        alive(-1)
    }
}
impl Odd for Nothing {
    const NAME: &'static str = "zero-sized elements";
    fn make(_: u64) -> Self {
        alive(1);
        Nothing(())
    }
    fn code(&self) -> u64 {
        0
    }
    fn code_of(_: u64) -> u64 {
        0
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(128))]
pub struct Wide(u8);
impl Odd for Wide {
    const NAME: &'static str = "over-aligned elements";
    fn make(x: u64) -> Self {
        Wide(x as u8)
    }
    fn code(&self) -> u64 {
        if self as *const Wide as usize % 128 != 0 {
            crate::viol::raise("content", "an element of an over-aligned type lies at an unaligned address");
        }
        self.0 as u64
    }
    fn code_of(x: u64) -> u64 {
        x & 0xff
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Big([u64; 41]);
impl Odd for Big {
    const NAME: &'static str = "large elements";
    fn make(x: u64) -> Self {
        let mut a = [x; 41];
        a[40] = !x;
        Big(a)
    }
    fn code(&self) -> u64 {
        if self.0[40] != !self.0[0] || self.0[20] != self.0[0] {
            crate::viol::raise("content", "a large element is torn");
        }
        self.0[0]
    }
    fn code_of(x: u64) -> u64 {
        x
    }
}

impl Odd for u8 {
    const NAME: &'static str = "bytes";
    fn make(x: u64) -> Self {
        x as u8
    }
    fn code(&self) -> u64 {
        *self as u64
    }
    fn code_of(x: u64) -> u64 {
        x & 0xff
    }
}

impl Odd for (u64, u16) {
    const NAME: &'static str = "padded elements";
    fn make(x: u64) -> Self {
        (x, x as u16)
    }
    fn code(&self) -> u64 {
        self.0
    }
    fn code_of(x: u64) -> u64 {
        x
    }
}

impl Odd for Option<Box<u32>> {
    const NAME: &'static str = "boxes with a niche";
    fn make(x: u64) -> Self {
        if x % 5 == 0 {
            None
        } else {
            Some(Box::new(x as u32))
        }
    }
    fn code(&self) -> u64 {
        self.as_ref().map_or(0, |b| **b as u64)
    }
    fn code_of(x: u64) -> u64 {
        if x % 5 == 0 {
            0
        } else {
            x & 0xffff_ffff
        }
    }
}

/// Owns memory; two instances never share it.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Text(String);
impl Clone for Text {
    fn clone(&self) -> Self {
        alive(1);
        Text(self.0.clone())
    }
}
impl Drop for Text {
    fn drop(&mut self) {
        alive(-1)
    }
}
impl Hash for Text {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl Odd for Text {
    const NAME: &'static str = "strings";
    fn make(x: u64) -> Self {
        alive(1);
        Text(format!("{:020}", x))
    }
    fn code(&self) -> u64 {
        self.0.parse().unwrap_or(u64::MAX)
    }
    fn code_of(x: u64) -> u64 {
        x
    }
}
