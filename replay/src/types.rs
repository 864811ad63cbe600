//! Tracked key / value / augmentation types: every object is registered, so that a double drop,
//! a leak, or the use of an object that is not alive is seen.
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use sweep_bptree::augment::group::FromRef;
use sweep_bptree::augment::Augmentation;

#[derive(Default)]
pub struct Reg {
    alive: Vec<u8>,
    pub live: usize,
    pub bad: Option<String>,
}
thread_local! {
    pub static REG: RefCell<Reg> = RefCell::new(Reg::default());
    pub static TRACK: Cell<bool> = const { Cell::new(true) };
}
const MAGIC: u32 = 0x5ee9_b7ee;

#[derive(Debug)]
pub struct Token {
    id: u32,
    magic: u32,
}
impl Token {
    pub fn new() -> Self {
        let id = REG.with(|r| {
            let mut r = r.borrow_mut();
            r.alive.push(1);
            r.live += 1;
            (r.alive.len() - 1) as u32
        });
        Token { id, magic: MAGIC }
    }
    #[inline]
    pub fn check(&self, what: &str) {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let ok = self.magic == MAGIC && r.alive.get(self.id as usize).copied() == Some(1);
            if !ok && r.bad.is_none() {
                r.bad = Some(format!("{what} of an object that is not alive (moved out, dropped or never written)"));
            }
        })
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        self.check("drop");
        REG.with(|r| {
            let mut r = r.borrow_mut();
            if let Some(a) = r.alive.get_mut(self.id as usize) {
                if *a == 1 {
                    *a = 0;
                    r.live -= 1;
                }
            }
        })
    }
}
pub fn reset_registry() {
    REG.with(|r| *r.borrow_mut() = Reg::default());
}
pub fn live() -> usize {
    REG.with(|r| r.borrow().live)
}
pub fn bad() -> Option<String> {
    REG.with(|r| r.borrow().bad.clone())
}

/// Key: ordered by `k` only.
pub struct TK {
    pub k: i64,
    t: Token,
}
impl TK {
    pub fn new(k: i64) -> Self {
        TK { k, t: Token::new() }
    }
}
impl std::fmt::Debug for TK {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.k)
    }
}
impl Clone for TK {
    fn clone(&self) -> Self {
        self.t.check("clone of a key");
        TK::new(self.k)
    }
}
impl PartialEq for TK {
    fn eq(&self, o: &Self) -> bool {
        self.t.check("comparison of a key");
        o.t.check("comparison of a key");
        self.k == o.k
    }
}
impl Eq for TK {}
impl PartialOrd for TK {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TK {
    fn cmp(&self, o: &Self) -> Ordering {
        self.t.check("comparison of a key");
        o.t.check("comparison of a key");
        self.k.cmp(&o.k)
    }
}
impl Borrow<i64> for TK {
    fn borrow(&self) -> &i64 {
        self.t.check("borrow of a key");
        &self.k
    }
}

/// Value: `tag` is fixed at construction, `cell` may be written through a mutable lookup.
pub struct TV {
    pub tag: u64,
    pub cell: u64,
    t: Token,
}
impl TV {
    pub fn new(tag: u64) -> Self {
        TV { tag, cell: 0, t: Token::new() }
    }
    pub fn pair(&self) -> (u64, u64) {
        self.t.check("read of a value");
        (self.tag, self.cell)
    }
}
impl Clone for TV {
    fn clone(&self) -> Self {
        self.t.check("clone of a value");
        TV { tag: self.tag, cell: self.cell, t: Token::new() }
    }
}

fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// An augmentation that depends on everything it is given, in order, and owns a tracked object.
#[derive(Debug)]
pub struct Digest {
    pub n: usize,
    pub h: u64,
    t: Token,
}
impl Clone for Digest {
    fn clone(&self) -> Self {
        self.t.check("clone of an augmentation");
        Digest { n: self.n, h: self.h, t: Token::new() }
    }
}
impl Default for Digest {
    fn default() -> Self {
        Digest { n: 0, h: 7, t: Token::new() }
    }
}
impl Augmentation<TK, TV> for Digest {
    fn from_leaf(keys: &[TK], values: &[TV]) -> Self {
        let mut h = 7;
        for k in keys {
            k.t.check("digest of a key");
            h = mix(h, k.k as u64);
        }
        for v in values {
            h = mix(h, v.pair().0);
        }
        Digest { n: keys.len(), h: if keys.is_empty() && values.is_empty() { 7 } else { h }, t: Token::new() }
    }
    fn from_inner(keys: &[TK], augs: &[Self]) -> Self {
        let mut h = 11;
        let mut n = 0;
        for k in keys {
            k.t.check("digest of a separator");
            h = mix(h, k.k as u64);
        }
        for a in augs {
            a.t.check("digest of an augmentation");
            h = mix(h, a.h);
            n += a.n;
        }
        Digest { n, h, t: Token::new() }
    }
}

thread_local! { pub static GROUP: Cell<i64> = const { Cell::new(10) }; }

/// A group that owns a tracked object.
pub struct TG {
    pub g: i64,
    t: Token,
}
impl TG {
    pub fn new(g: i64) -> Self {
        TG { g, t: Token::new() }
    }
}
impl std::fmt::Debug for TG {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.g)
    }
}
impl Clone for TG {
    fn clone(&self) -> Self {
        self.t.check("clone of a group");
        TG::new(self.g)
    }
}
impl PartialEq for TG {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for TG {}
impl PartialOrd for TG {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TG {
    fn cmp(&self, o: &Self) -> Ordering {
        self.t.check("comparison of a group");
        o.t.check("comparison of a group");
        self.g.cmp(&o.g)
    }
}
pub fn group_of(k: i64) -> i64 {
    k.div_euclid(GROUP.with(|g| g.get()))
}
impl FromRef<TK> for TG {
    fn from_ref(k: &TK) -> Self {
        k.t.check("group of a key");
        TG::new(group_of(k.k))
    }
}
