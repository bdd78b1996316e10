//! A run as data: what each simulated thread does, where it is preempted, which faults hit it.
use std::fmt::Write as _;

macro_rules! kinds {
    ($($k:ident $name:literal $grp:literal,)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
        pub enum K { $($k),* }
        pub const ALL: &[K] = &[$(K::$k),*];
        impl K {
            pub fn name(self) -> &'static str { match self { $(K::$k => $name),* } }
            pub fn group(self) -> &'static str { match self { $(K::$k => $grp),* } }
        }
    };
}

// groups: life (clone, drop, hand over), edit, read, fmut, iter, sort
kinds! {
    New "new" "life",
    Grow "grow" "edit",
    Build "build" "edit",
    Const "const" "edit",
    Single "single" "edit",
    Collect "collect" "edit",
    Clone "clone" "life",
    Drop "drop" "life",
    Swap "swap" "life",
    Pub "pub" "life",
    BClone "bclone" "life",
    BTake "btake" "life",
    BRead "bread" "read",
    PushB "pushb" "edit",
    PushF "pushf" "edit",
    PopB "popb" "edit",
    PopF "popf" "edit",
    PushN "pushn" "edit",
    PopN "popn" "edit",
    Append "append" "edit",
    Prepend "prepend" "edit",
    SelfApp "selfapp" "edit",
    Split "split" "edit",
    SliceStart "slicestart" "edit",
    SliceEnd "sliceend" "edit",
    Extract "extract" "edit",
    Insert "insert" "edit",
    Remove "remove" "edit",
    Set "set" "edit",
    SetEnds "setends" "edit",
    Guard "guard" "edit",
    Reverse "reverse" "edit",
    RevRange "revrange" "edit",
    Oob "oob" "edit",
    Stir "stir" "edit",
    Odd "odd" "life",
    Sort "sort" "sort",
    SortRange "sortrange" "sort",
    Dual "dual" "sort",
    Get "get" "read",
    Focus "focus" "read",
    Search "search" "read",
    KeySearch "keysearch" "read",
    Eq "eq" "read",
    Iter "iter" "iter",
    IterMut "itermut" "iter",
    IntoIter "intoiter" "iter",
    FMut "fmut" "fmut",
    FPar "fpar" "fmut",
    Forget "forget" "life",
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    pub a: [u64; 6],
    /// preempt at the n-th scheduling point of the operation, and stay away for s decisions
    pub pre: Vec<(u64, u32)>,
    /// panic at the n-th callback of a kind (index into SITES)
    pub fault: Vec<(u8, u64)>,
    /// inconsistent answers (0: none)
    pub lie: u64,
    /// at the n-th callback of a kind, do another operation
    pub nested: Vec<(u8, u64, Op)>,
}

impl Op {
    pub fn new(k: K, a: &[u64]) -> Op {
        let mut b = [0; 6];
        b[..a.len()].copy_from_slice(a);
        Op { k, a: b, pre: vec![], fault: vec![], lie: 0, nested: vec![] }
    }

    pub fn text(&self) -> String {
        let mut s = String::from(self.k.name());
        let n = 6 - self.a.iter().rev().take_while(|x| **x == 0).count();
        for x in &self.a[..n] {
            let _ = write!(s, " {}", x);
        }
        for (n, st) in &self.pre {
            let _ = write!(s, " @{}+{}", n, st);
        }
        for (site, n) in &self.fault {
            let _ = write!(s, " !{}:{}", crate::world::SITES[*site as usize], n);
        }
        if self.lie != 0 {
            let _ = write!(s, " ~{}", self.lie);
        }
        for (site, n, op) in &self.nested {
            let _ = write!(s, " [{}:{} {}]", crate::world::SITES[*site as usize], n, op.text());
        }
        s
    }

    pub fn parse(line: &str) -> Option<Op> {
        let mut rest = line.trim();
        let name_end = rest.find(' ').unwrap_or(rest.len());
        let k = *ALL.iter().find(|k| k.name() == &rest[..name_end])?;
        let mut op = Op::new(k, &[]);
        rest = rest[name_end..].trim_start();
        let mut na = 0;
        while !rest.is_empty() {
            if let Some(r) = rest.strip_prefix('[') {
                let end = r.rfind(']')?;
                // nested operations do not nest again, so the next ']' closes
                let end = r.find(']').unwrap_or(end);
                let body = &r[..end];
                let sp = body.find(' ')?;
                let (site, n) = site_n(&body[..sp])?;
                op.nested.push((site, n, Op::parse(&body[sp + 1..])?));
                rest = r[end + 1..].trim_start();
                continue;
            }
            let end = rest.find(' ').unwrap_or(rest.len());
            let tok = &rest[..end];
            if let Some(t) = tok.strip_prefix('@') {
                let (n, s) = t.split_once('+')?;
                op.pre.push((n.parse().ok()?, s.parse().ok()?));
            } else if let Some(t) = tok.strip_prefix('!') {
                let (site, n) = site_n(t)?;
                op.fault.push((site, n));
            } else if let Some(t) = tok.strip_prefix('~') {
                op.lie = t.parse().ok()?;
            } else {
                if na >= 6 {
                    return None;
                }
                op.a[na] = tok.parse().ok()?;
                na += 1;
            }
            rest = rest[end..].trim_start();
        }
        Some(op)
    }
}

fn site_n(t: &str) -> Option<(u8, u64)> {
    let (s, n) = t.split_once(':')?;
    let i = crate::world::SITES.iter().position(|x| *x == s)?;
    Some((i as u8, n.parse().ok()?))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub rc: bool,
    /// model the plain reference counts of the single-threaded flavour as racing
    pub racy: bool,
    pub salt: u64,
    pub pivot: u64,
    pub order: Vec<u32>,
    pub pre: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
}

impl Case {
    pub fn text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "flavour {}", if self.rc { "rc" } else { "arc" });
        if self.racy {
            let _ = writeln!(s, "racy 1");
        }
        if self.salt != 0 {
            let _ = writeln!(s, "salt {}", self.salt);
        }
        if self.pivot != 0 {
            let _ = writeln!(s, "pivot {}", self.pivot);
        }
        let _ = writeln!(s, "threads {}", self.threads.len());
        let _ = write!(s, "order");
        for o in &self.order {
            let _ = write!(s, " {}", o);
        }
        s.push('\n');
        for op in &self.pre {
            let _ = writeln!(s, "pre {}", op.text());
        }
        for (i, t) in self.threads.iter().enumerate() {
            for op in t {
                let _ = writeln!(s, "t{} {}", i, op.text());
            }
        }
        s
    }

    pub fn parse(text: &str) -> Result<Case, String> {
        let mut c = Case { rc: false, racy: false, salt: 0, pivot: 0, order: vec![], pre: vec![], threads: vec![] };
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let (w, rest) = line.split_once(' ').unwrap_or((line, ""));
            let bad = || format!("cannot parse: {}", line);
            match w {
                "flavour" => c.rc = rest == "rc",
                "racy" => c.racy = rest == "1",
                "salt" => c.salt = rest.parse().map_err(|_| bad())?,
                "pivot" => c.pivot = rest.parse().map_err(|_| bad())?,
                "threads" => {
                    let n: usize = rest.parse().map_err(|_| bad())?;
                    if n > 6 {
                        return Err(bad());
                    }
                    c.threads = vec![vec![]; n]
                }
                "order" => {
                    for t in rest.split_whitespace() {
                        c.order.push(t.parse().map_err(|_| bad())?);
                    }
                }
                "pre" => c.pre.push(Op::parse(rest).ok_or_else(bad)?),
                _ if w.starts_with('t') => {
                    let i: usize = w[1..].parse().map_err(|_| bad())?;
                    let op = Op::parse(rest).ok_or_else(bad)?;
                    c.threads.get_mut(i).ok_or_else(bad)?.push(op);
                }
                _ => return Err(bad()),
            }
        }
        if c.threads.is_empty() {
            c.threads.push(vec![]);
        }
        Ok(c)
    }
}
