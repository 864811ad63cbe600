//! Runs one history against the real crate and a BTreeMap model.
use crate::ops::{Op, Rng, Trace};
use crate::types::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::group::{ExtractGroupSize, FromRef, GroupCount};
use sweep_bptree::augment::Augmentation;
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet, NodeStoreVec};

#[derive(Debug, Clone)]
pub struct Viol {
    pub props: Vec<&'static str>,
    pub msg: String,
    pub op: usize,
}
type R = Result<(), Viol>;
fn v(props: &[&'static str], msg: String) -> Viol {
    let mut p: Vec<&'static str> = props.to_vec();
    p.sort();
    p.dedup();
    Viol { props: p, msg, op: 0 }
}
macro_rules! ensure {
    ($c:expr, $p:expr, $($a:tt)*) => { if !($c) { return Err(v(&$p[..], format!($($a)*))); } };
}
pub type Model = BTreeMap<i64, (u64, u64)>;
pub type Tree<A> = BPlusTree<NodeStoreVec<TK, TV, A>>;

thread_local! { pub static WANT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// A violation that concerns another property and leaves the container usable does not end a
/// history that looks for violations of one property.
fn passable(e: &Viol) -> bool {
    WANT.with(|w| {
        let w = w.borrow();
        !w.is_empty() && !e.props.iter().any(|p| *p == w.as_str()) && !e.props.iter().any(|p| ["C02", "C03", "C05", "C06", "C15"].contains(p))
    })
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub foreign: u64,
    pub ops: u64,
    pub full: u64,
    pub nodes: u64,
    pub max_len: usize,
    pub max_depth: usize,
    pub queries: u64,
}

pub trait AugX: Augmentation<TK, TV> + Sized + 'static {
    const PROP: &'static str;
    fn same(a: &Self, b: &Self) -> bool;
    fn show(a: &Self) -> String;
    fn query(_st: &mut St<Self>, _r: &mut Rng) -> R {
        Ok(())
    }
    fn rem_by(_st: &mut St<Self>, _r: &mut Rng) -> R {
        Ok(())
    }
    fn mut_by(_st: &mut St<Self>, _r: &mut Rng) -> R {
        Ok(())
    }
    /// the same through the map
    fn map_probe(_m: &mut BPlusTreeMap<TK, TV, Self>, _model: &mut Model, _k: i64, _r: &mut Rng) -> R {
        Ok(())
    }
    /// what the root augmentation must say about the contents
    fn root(_a: &Self, _m: &Model) -> R {
        Ok(())
    }
}
impl AugX for () {
    const PROP: &'static str = "C07";
    fn same(_: &Self, _: &Self) -> bool {
        true
    }
    fn show(_: &Self) -> String {
        "()".into()
    }
}
impl AugX for Digest {
    const PROP: &'static str = "C07";
    fn same(a: &Self, b: &Self) -> bool {
        a.n == b.n && a.h == b.h
    }
    fn show(a: &Self) -> String {
        format!("digest of {} entries", a.n)
    }
    fn root(a: &Self, m: &Model) -> R {
        ensure!(a.n == m.len(), ["C07"], "root augmentation covers {} entries, the container has {}", a.n, m.len());
        Ok(())
    }
}
impl AugX for Count {
    const PROP: &'static str = "C08";
    fn same(a: &Self, b: &Self) -> bool {
        a.count() == b.count()
    }
    fn show(a: &Self) -> String {
        format!("{}", a.count())
    }
    fn root(a: &Self, m: &Model) -> R {
        ensure!(a.count() == m.len(), ["C08", "C07"], "root count {} but {} entries", a.count(), m.len());
        Ok(())
    }
    fn map_probe(m: &mut BPlusTreeMap<TK, TV, Self>, model: &mut Model, k: i64, r: &mut Rng) -> R {
        let n = model.len();
        let i = [0, n, n + 1, n.saturating_sub(1), r.below(n as i64 + 1) as usize][r.below(5) as usize];
        let want = model.iter().nth(i).map(|(k, x)| (*k, *x));
        let got = m.get_by_augmentation(i).map(|(k, x)| (k.k, x.pair()));
        ensure!(got == want, ["C08"], "map entry at index {i} of {n}: got {got:?}, expected {want:?}");
        let at = model.range(..k).count();
        let got = m.rank_by_augmentation(&TK::new(k));
        ensure!(got == if model.contains_key(&k) { Ok(at) } else { Err(at) }, ["C08"], "rank of {k} in a map: got {got:?}, expected {at}");
        if r.below(3) == 0 {
            let got = m.get_mut_by_augmentation(i).map(|x| {
                let p = x.pair();
                x.cell = 9;
                p
            });
            ensure!(got == want.map(|w| w.1), ["C08"], "mutable map entry at index {i} of {n}: got {got:?}, expected {want:?}");
            if let Some((k, _)) = want {
                model.get_mut(&k).unwrap().1 = 9;
            }
        }
        if r.below(3) == 0 {
            let want = model.iter().nth(i).map(|(k, x)| (*k, *x));
            let got = m.remove_by_augmentation(i).map(|(k, x)| (k.k, x.pair()));
            ensure!(got == want, ["C08"], "removing from a map by index {i} of {n}: got {got:?}, expected {want:?}");
            if let Some((k, _)) = want {
                model.remove(&k);
            }
        }
        Ok(())
    }
    fn query(st: &mut St<Self>, r: &mut Rng) -> R {
        st.refresh();
        let n = st.keys.len();
        for _ in 0..4 {
            let i = match r.below(6) {
                0 => n,
                1 => n + 1 + r.below(5) as usize,
                2 => 0,
                3 => n.saturating_sub(1),
                _ => r.below(n as i64) as usize,
            };
            let got = st.tree.get_by_augmentation(i).map(|(k, v)| (k.k, v.pair()));
            let want = st.keys.get(i).map(|k| (*k, st.model[k]));
            ensure!(got == want, ["C08"], "entry at index {i} of {n}: got {got:?}, expected {want:?}");
            let k = st.some_key(r);
            let want = st.keys.binary_search(&k);
            let tk = TK::new(k);
            let got = st.tree.rank_by_augmentation(&tk);
            ensure!(got == want, ["C08"], "rank of {k}: got {got:?}, expected {want:?}");
        }
        Ok(())
    }
    fn rem_by(st: &mut St<Self>, r: &mut Rng) -> R {
        st.refresh();
        let n = st.keys.len();
        let i = if r.below(6) == 0 { n } else { r.below(n as i64 + 1) as usize };
        let want = st.keys.get(i).map(|k| (*k, st.model[k]));
        let got = st.tree.remove_by_augmentation(i).map(|(k, v)| (k.k, v.pair()));
        ensure!(got == want, ["C08"], "remove by index {i} of {n}: got {got:?}, expected {want:?}");
        if let Some((k, _)) = want {
            st.model.remove(&k);
            st.dirty("C08");
            st.dirty("C03");
            st.after_mutation(k)?;
        }
        Ok(())
    }
    fn mut_by(st: &mut St<Self>, r: &mut Rng) -> R {
        st.refresh();
        let n = st.keys.len();
        let i = r.below(n as i64 + 1) as usize;
        let want = st.keys.get(i).copied();
        let x = r.next();
        match (st.tree.get_mut_by_augmentation(i), want) {
            (Some(tv), Some(k)) => {
                ensure!(tv.pair() == st.model[&k], ["C08"], "mutable entry at index {i}: not the entry of key {k}");
                tv.cell = x;
                st.model.get_mut(&k).unwrap().1 = x;
            }
            (None, None) => {}
            (g, w) => return Err(v(&["C08"], format!("mutable entry at index {i} of {n}: got {}, expected {w:?}", g.is_some()))),
        }
        st.dirty("C08");
        Ok(())
    }
}
impl AugX for GroupCount<TG> {
    const PROP: &'static str = "C09";
    fn same(a: &Self, b: &Self) -> bool {
        Self::show(a) == Self::show(b)
    }
    fn show(a: &Self) -> String {
        format!("{a:?}")
    }
    fn root(a: &Self, m: &Model) -> R {
        // counting is linear: only for small containers here, in `query` otherwise
        if m.len() < 200 {
            let n = m.keys().map(|k| group_of(*k)).collect::<BTreeSet<_>>().len();
            ensure!(a.group_count() == n, ["C09"], "group count {} but {n} groups", a.group_count());
        }
        Ok(())
    }
    fn map_probe(m: &mut BPlusTreeMap<TK, TV, Self>, model: &mut Model, k: i64, r: &mut Rng) -> R {
        let g = group_of(k);
        let of: Vec<i64> = model.keys().copied().filter(|x| group_of(*x) == g).collect();
        let off = r.below(of.len() as i64 + 2) as usize;
        let want = of.get(off).map(|k| (*k, model[k]));
        let got = m.get_by_augmentation((TG::new(g), off)).map(|(k, x)| (k.k, x.pair()));
        ensure!(got == want, ["C09"], "map: group {g} offset {off}: got {got:?}, expected {want:?}");
        let got = m.descend_visit(ExtractGroupSize::new(TG::new(g)));
        ensure!(got.unwrap_or(0) == of.len(), ["C09"], "map: size of group {g}: got {got:?}, expected {}", of.len());
        let at = of.iter().filter(|x| **x < k).count();
        let got = match m.rank_by_augmentation(&TK::new(k)) {
            Ok(x) => (true, x.map(|(g, n): (TG, usize)| (g.g, n))),
            Err(x) => (false, x.map(|(g, n): (TG, usize)| (g.g, n))),
        };
        let want = (model.contains_key(&k), Some((g, at)));
        ensure!(got == want || model.is_empty(), ["C09"], "map: rank of {k}: got {got:?}, expected {want:?}");
        if r.below(3) == 0 {
            let want = of.get(off).map(|k| (*k, model[k]));
            let got = m.remove_by_augmentation((TG::new(g), off)).map(|(k, x)| (k.k, x.pair()));
            ensure!(got == want, ["C09"], "map: removing group {g} offset {off}: got {got:?}, expected {want:?}");
            if let Some((k, _)) = want {
                model.remove(&k);
            }
        }
        Ok(())
    }
    fn query(st: &mut St<Self>, r: &mut Rng) -> R {
        st.refresh();
        let n = st.groups;
        ensure!(st.tree.root_augmentation().group_count() == n, ["C09"], "group count {} but {n} groups", st.tree.root_augmentation().group_count());
        for _ in 0..4 {
            let k = st.some_key(r);
            let g = group_of(k);
            let lo = st.keys.partition_point(|x| group_of(*x) < g);
            let hi = st.keys.partition_point(|x| group_of(*x) <= g);
            let size = hi - lo;
            let off = match r.below(6) {
                0 => size,
                1 => size + 1,
                2 => size.saturating_sub(1),
                3 => 0,
                _ => r.below(size as i64 + 1) as usize,
            };
            let got = st.tree.get_by_augmentation((TG::new(g), off)).map(|(k, v)| (k.k, v.pair()));
            let want = if off < size { Some((st.keys[lo + off], st.model[&st.keys[lo + off]])) } else { None };
            ensure!(got == want, ["C09"], "group {g} (of size {size}) offset {off}: got {got:?}, expected {want:?}");
            let got = st.tree.descend_visit(ExtractGroupSize::new(TG::new(g)));
            ensure!(got.unwrap_or(0) == size, ["C09"], "size of group {g}: got {got:?}, expected {size}");
            let tk = TK::new(k);
            let fix = |x: Option<(TG, usize)>| x.map(|(g, n)| (g.g, n));
            let got = match st.tree.rank_by_augmentation(&tk) {
                Ok(x) => Ok(fix(x)),
                Err(x) => Err(fix(x)),
            };
            let at = st.keys.partition_point(|x| *x < k);
            let want = if st.model.contains_key(&k) { Ok(Some((g, at - lo))) } else { Err(Some((g, at - lo))) };
            ensure!(got == want, ["C09"], "rank of {k}: got {got:?}, expected {want:?}");
        }
        Ok(())
    }
    fn rem_by(st: &mut St<Self>, r: &mut Rng) -> R {
        st.refresh();
        let k = st.some_key(r);
        let g = group_of(k);
        let lo = st.keys.partition_point(|x| group_of(*x) < g);
        let hi = st.keys.partition_point(|x| group_of(*x) <= g);
        let off = r.below((hi - lo) as i64 + 1) as usize;
        let want = if off < hi - lo { Some((st.keys[lo + off], st.model[&st.keys[lo + off]])) } else { None };
        let got = st.tree.remove_by_augmentation((TG::new(g), off)).map(|(k, v)| (k.k, v.pair()));
        ensure!(got == want, ["C09"], "remove by group {g} offset {off}: got {got:?}, expected {want:?}");
        if let Some((k, _)) = want {
            st.model.remove(&k);
            st.dirty("C09");
            st.dirty("C03");
            st.after_mutation(k)?;
        }
        Ok(())
    }
    fn mut_by(st: &mut St<Self>, r: &mut Rng) -> R {
        st.refresh();
        let k = st.some_key(r);
        let g = group_of(k);
        let lo = st.keys.partition_point(|x| group_of(*x) < g);
        let hi = st.keys.partition_point(|x| group_of(*x) <= g);
        let off = r.below((hi - lo) as i64 + 1) as usize;
        let want = if off < hi - lo { Some(st.keys[lo + off]) } else { None };
        let x = r.next();
        match (st.tree.get_mut_by_augmentation((TG::new(g), off)), want) {
            (Some(tv), Some(k)) => {
                ensure!(tv.pair() == st.model[&k], ["C09"], "mutable entry of group {g} offset {off}: not the entry of key {k}");
                tv.cell = x;
                st.model.get_mut(&k).unwrap().1 = x;
            }
            (None, None) => {}
            (a, w) => return Err(v(&["C09"], format!("mutable entry of group {g} offset {off}: got {}, expected {w:?}", a.is_some()))),
        }
        st.dirty("C09");
        Ok(())
    }
}

pub struct St<A: AugX> {
    pub tree: Tree<A>,
    pub model: Model,
    pub keys: Vec<i64>,
    pub groups: usize,
    pub fresh: bool,
    incremental: bool,
    cursors: Vec<Option<(Cursor<TK>, i64)>>,
    tag: u64,
    last_mut: Vec<&'static str>,
    pub stats: Stats,
}

// ---- visitors used to look at the nodes -------------------------------------------------------
struct NodeInfo<A> {
    keys: Vec<i64>,
    augs: Vec<A>,
    agg: A,
    leaf: Option<Vec<(u64, u64)>>,
}
struct At<'a> {
    path: &'a [usize],
    level: usize,
}
impl<'a, A: AugX> DescendVisit<TK, TV, A> for At<'a> {
    type Result = NodeInfo<A>;
    fn visit_inner(&mut self, keys: &[TK], augs: &[A]) -> DescendVisitResult<NodeInfo<A>> {
        let l = self.level;
        self.level += 1;
        if l < self.path.len() {
            DescendVisitResult::GoDown(self.path[l])
        } else {
            DescendVisitResult::Complete(NodeInfo { keys: keys.iter().map(|k| k.k).collect(), augs: augs.to_vec(), agg: A::from_inner(keys, augs), leaf: None })
        }
    }
    fn visit_leaf(&mut self, keys: &[TK], values: &[TV]) -> Option<NodeInfo<A>> {
        if self.level < self.path.len() {
            return None;
        }
        Some(NodeInfo { keys: keys.iter().map(|k| k.k).collect(), augs: vec![], agg: A::from_leaf(keys, values), leaf: Some(values.iter().map(|v| v.pair()).collect()) })
    }
}
struct Pick {
    k: i64,
    path: Vec<usize>,
    widths: Vec<usize>,
}
impl<A: AugX> DescendVisit<TK, TV, A> for Pick {
    type Result = ();
    fn visit_inner(&mut self, keys: &[TK], _a: &[A]) -> DescendVisitResult<()> {
        let i = keys.partition_point(|x| x.k <= self.k);
        self.path.push(i);
        self.widths.push(keys.len());
        DescendVisitResult::GoDown(i)
    }
    fn visit_leaf(&mut self, _: &[TK], _: &[TV]) -> Option<()> {
        Some(())
    }
}

impl<A: AugX> St<A> {
    fn new() -> Self {
        St {
            tree: BPlusTree::new(NodeStoreVec::new()),
            model: BTreeMap::new(),
            keys: vec![],
            groups: 0,
            fresh: false,
            incremental: true,
            cursors: (0..6).map(|_| None).collect(),
            tag: 1,
            last_mut: vec![],
            stats: Stats::default(),
        }
    }
    pub fn dirty(&mut self, p: &'static str) {
        self.fresh = false;
        if !self.last_mut.contains(&p) {
            self.last_mut.push(p);
        }
    }
    pub fn refresh(&mut self) {
        if !self.fresh {
            self.keys = self.model.keys().copied().collect();
            let mut n = 0;
            let mut last = None;
            for k in &self.keys {
                let g = group_of(*k);
                if last != Some(g) {
                    n += 1;
                    last = Some(g);
                }
            }
            self.groups = n;
            self.fresh = true;
        }
        self.stats.queries += 1;
    }
    /// a key that is present, a neighbour of one, or outside
    pub fn some_key(&mut self, r: &mut Rng) -> i64 {
        if self.keys.is_empty() {
            return r.below(20) - 3;
        }
        let n = self.keys.len() as i64;
        let k = match r.below(8) {
            0 => self.keys[0],
            1 => self.keys[n as usize - 1],
            _ => self.keys[r.below(n) as usize],
        };
        k + [0, 0, 0, 1, -1, 2][r.below(6) as usize]
    }
    fn tags(&self, more: &[&'static str]) -> Vec<&'static str> {
        let mut t = self.last_mut.clone();
        t.extend_from_slice(more);
        t
    }

    /// of a container as bulk construction left it: the same augmentation results as inserting one by one
    fn aug_tags(&self) -> Vec<&'static str> {
        if self.last_mut == ["C06"] {
            vec!["C07", "C06"]
        } else {
            vec!["C07"]
        }
    }

    fn full(&mut self) -> R {
        let parts: [fn(&mut Self) -> R; 4] = [Self::full_contents, Self::full_back, Self::full_ends, Self::shape];
        let mut first = Ok(());
        for p in parts {
            if let Err(e) = p(self) {
                if !passable(&e) {
                    return Err(e);
                }
                if first.is_ok() {
                    first = Err(e);
                }
            }
        }
        if let Err(e) = A::root(self.tree.root_augmentation(), &self.model) {
            if !passable(&e) {
                return Err(e);
            }
            first = Err(e);
        }
        if first.is_ok() {
            self.last_mut.clear();
        }
        first
    }
    fn full_contents(&mut self) -> R {
        self.stats.full += 1;
        let n = self.model.len();
        self.stats.max_len = self.stats.max_len.max(n);
        let len = self.tree.len();
        ensure!(len == n && self.tree.is_empty() == (n == 0), self.tags(&[]), "length {len}, expected {n}");
        // contents from the front
        let mut fwd: Vec<(i64, (u64, u64))> = Vec::with_capacity(n);
        let mut c04 = None;
        {
            let mut it = self.tree.iter();
            let mut left = n;
            loop {
                if it.len() != left || it.size_hint() != (left, Some(left)) {
                    c04 = Some(format!("forward iteration reports {:?} remaining, expected {left}", it.size_hint()));
                }
                match it.next() {
                    Some((k, x)) => {
                        fwd.push((k.k, x.pair()));
                        if left == 0 {
                            c04 = Some("forward iteration yields more entries than its length".into());
                            break;
                        }
                        left -= 1;
                    }
                    None => break,
                }
            }
            if it.next().is_some() {
                c04 = Some("forward iteration restarts after its end".into());
            }
        }
        let want: Vec<(i64, (u64, u64))> = self.model.iter().map(|(k, x)| (*k, *x)).collect();
        let fwd_ok = fwd == want;
        // lookups, in a scattered order
        let mut get_bad: Option<(i64, Option<(u64, u64)>)> = None;
        if n > 0 {
            let step = 7919 % n.max(1);
            let step = (step.max(1)..).find(|s| gcd(*s, n) == 1).unwrap();
            let mut i = 0;
            let todo = if n > 30_000 { 6000 } else { n };
            for _ in 0..todo {
                let (k, x) = want[i];
                let g = self.tree.get(&k).map(|t| t.pair());
                if g != Some(x) {
                    get_bad = Some((k, g));
                    break;
                }
                for d in [k - 1, k + 1] {
                    if !self.model.contains_key(&d) {
                        let g = self.tree.get(&d).map(|t| t.pair());
                        if g.is_some() {
                            get_bad = Some((d, g));
                        }
                    }
                }
                i = (i + step) % n;
            }
        } else if let Some(g) = self.tree.get(&0) {
            get_bad = Some((0, Some(g.pair())));
        }
        let show = |x: &[(i64, (u64, u64))]| {
            let d = x.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(x.len().min(want.len()));
            format!("first difference at position {d}: got {:?}, expected {:?}; {} entries, expected {}", x.get(d), want.get(d), x.len(), want.len())
        };
        if !fwd_ok {
            let sorted = fwd.windows(2).all(|w| w[0].0 < w[1].0);
            let more: &[&'static str] = if get_bad.is_none() || !sorted || fwd.len() != n { &["C04"] } else { &[] };
            return Err(v(&self.tags(more), format!("contents by iteration: {}", show(&fwd))));
        }
        if let Some((k, g)) = get_bad {
            return Err(v(&self.tags(&["C01"]), format!("lookup of {k}: got {g:?}, expected {:?}", self.model.get(&k))));
        }
        if let Some(m) = c04 {
            return Err(v(&["C04"], m));
        }
        Ok(())
    }
    fn full_back(&mut self) -> R {
        let want: Vec<(i64, (u64, u64))> = self.model.iter().map(|(k, x)| (*k, *x)).collect();
        let n = want.len();
        let show = |x: &[(i64, (u64, u64))]| {
            let d = x.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(x.len().min(want.len()));
            format!("first difference at position {d}: got {:?}, expected {:?}; {} entries, expected {}", x.get(d), want.get(d), x.len(), want.len())
        };
        {
            let mut it = self.tree.iter();
            let mut left = n;
            let mut back = Vec::with_capacity(n);
            loop {
                ensure!(it.len() == left, ["C04"], "backward iteration reports {} remaining, expected {left}", it.len());
                match it.next_back() {
                    Some((k, x)) => {
                        back.push((k.k, x.pair()));
                        ensure!(left > 0, ["C04"], "backward iteration yields more entries than its length");
                        left -= 1;
                    }
                    None => break,
                }
            }
            back.reverse();
            ensure!(back == want, self.tags(&["C04"]), "contents by backward iteration (reversed): {}", show(&back));
            ensure!(it.next_back().is_none() && it.next().is_none(), ["C04"], "backward iteration restarts after its end");
        }
        Ok(())
    }
    fn full_ends(&mut self) -> R {
        let want = [self.model.iter().next().map(|(k, x)| (*k, *x)), self.model.iter().next_back().map(|(k, x)| (*k, *x))];
        let f = self.tree.first().map(|(k, x)| (k.k, x.pair()));
        let l = self.tree.last().map(|(k, x)| (k.k, x.pair()));
        ensure!(f == want[0], self.tags(&["C04"]), "first: got {f:?}, expected {:?}", want[0]);
        ensure!(l == want[1], self.tags(&["C04"]), "last: got {l:?}, expected {:?}", want[1]);
        Ok(())
    }

    fn shape(&mut self) -> R {
        let mut depth = None;
        let mut content = Vec::new();
        let mut path = vec![];
        let root = self.walk(&mut path, None, None, &mut depth, &mut content)?;
        self.stats.max_depth = self.stats.max_depth.max(depth.unwrap_or(0));
        ensure!(
            A::same(&root, self.tree.root_augmentation()) || (self.model.is_empty() && A::same(&A::default(), self.tree.root_augmentation())),
            self.aug_tags(),
            "root augmentation is {}, recomputed {}",
            A::show(self.tree.root_augmentation()),
            A::show(&root)
        );
        let same = content.iter().copied().eq(self.model.iter().map(|(k, x)| (*k, *x)));
        ensure!(same, self.tags(&["C16", "C11"]), "the leaves reached by visitors do not hold the contents");
        Ok(())
    }
    fn walk(&mut self, path: &mut Vec<usize>, lo: Option<i64>, hi: Option<i64>, depth: &mut Option<usize>, content: &mut Vec<(i64, (u64, u64))>) -> Result<A, Viol> {
        self.stats.nodes += 1;
        let info = match self.tree.descend_visit(At { path, level: 0 }) {
            Some(i) => i,
            None => return Err(v(&["C11", "C16"], format!("no node at path {path:?}"))),
        };
        ensure!(info.keys.windows(2).all(|w| w[0] < w[1]), self.tags(&["C11"]), "keys of the node at {path:?} are not strictly ascending: {:?}", info.keys);
        for k in &info.keys {
            ensure!(lo.is_none_or(|l| l <= *k) && hi.is_none_or(|h| *k < h), self.tags(&["C11"]), "key {k} of the node at {path:?} outside its separators {lo:?}..{hi:?}");
        }
        ensure!(info.keys.len() <= 64, ["C11"], "node at {path:?} over capacity");
        if !path.is_empty() {
            let min = if self.incremental { 16 } else { 1 };
            ensure!(info.keys.len() >= min, ["C11"], "node at {path:?} has {} keys, at least {min} expected", info.keys.len());
        }
        if let Some(vals) = info.leaf {
            ensure!(vals.len() == info.keys.len(), ["C16", "C11"], "leaf at {path:?}: {} keys, {} values", info.keys.len(), vals.len());
            ensure!(*depth.get_or_insert(path.len()) == path.len(), ["C11"], "leaf at {path:?} at another depth than {depth:?}");
            content.extend(info.keys.iter().copied().zip(vals));
            return Ok(info.agg);
        }
        ensure!(!info.keys.is_empty(), ["C11"], "inner node at {path:?} without a key");
        ensure!(info.augs.len() == info.keys.len() + 1, ["C16", "C11"], "inner node at {path:?}: {} keys, {} augmentations", info.keys.len(), info.augs.len());
        for (i, a) in info.augs.iter().enumerate() {
            let l = if i == 0 { lo } else { Some(info.keys[i - 1]) };
            let h = info.keys.get(i).copied().or(hi);
            path.push(i);
            let got = self.walk(path, l, h, depth, content)?;
            ensure!(A::same(a, &got), self.aug_tags(), "augmentation kept for {path:?} is {}, recomputed {}", A::show(a), A::show(&got));
            path.pop();
        }
        Ok(info.agg)
    }
    /// freshness along the path of k and its neighbours
    fn path_fresh(&mut self, k: i64) -> R {
        let mut p = Pick { k, path: vec![], widths: vec![] };
        {
            struct Wrap<'a>(&'a mut Pick);
            impl<'a, A: AugX> DescendVisit<TK, TV, A> for Wrap<'a> {
                type Result = ();
                fn visit_inner(&mut self, k: &[TK], a: &[A]) -> DescendVisitResult<()> {
                    self.0.visit_inner(k, a)
                }
                fn visit_leaf(&mut self, k: &[TK], v: &[TV]) -> Option<()> {
                    <Pick as DescendVisit<TK, TV, A>>::visit_leaf(self.0, k, v)
                }
            }
            self.tree.descend_visit(Wrap(&mut p));
        }
        let root = self.tree.descend_visit(At { path: &[], level: 0 }).unwrap();
        ensure!(
            A::same(&root.agg, self.tree.root_augmentation()) || self.model.is_empty(),
            ["C07"],
            "root augmentation is {}, recomputed {}",
            A::show(self.tree.root_augmentation()),
            A::show(&root.agg)
        );
        let mut cur = root;
        let mut path: Vec<usize> = vec![];
        for d in 0..p.path.len() {
            let i = p.path[d];
            let mut next = None;
            for j in [i.wrapping_sub(1), i, i + 1] {
                if j == usize::MAX || j > p.widths[d] {
                    continue;
                }
                path.push(j);
                let Some(child) = self.tree.descend_visit(At { path: &path, level: 0 }) else {
                    return Err(v(&["C16"], format!("no node at {path:?}")));
                };
                let kept = &cur.augs[j];
                ensure!(A::same(kept, &child.agg), ["C07"], "augmentation kept for {path:?} is {}, recomputed {}", A::show(kept), A::show(&child.agg));
                path.pop();
                if j == i {
                    next = Some(child);
                }
            }
            path.push(i);
            cur = next.unwrap();
        }
        Ok(())
    }

    pub fn after_mutation(&mut self, k: i64) -> R {
        ensure!(self.tree.len() == self.model.len(), self.tags(&[]), "length {} after the operation on {k}, expected {}", self.tree.len(), self.model.len());
        let want = self.model.get(&k).copied();
        let got = self.tree.get(&k).map(|t| t.pair());
        let pred = self.model.range(..k).next_back().map(|(a, b)| (*a, *b));
        let succ = self.model.range((Excluded(k), Unbounded)).next().map(|(a, b)| (*a, *b));
        let mut bad = None;
        if got != want {
            bad = Some(format!("lookup of {k}: got {got:?}, expected {want:?}"));
        }
        for (a, b) in [pred, succ].into_iter().flatten() {
            let g = self.tree.get(&a).map(|t| t.pair());
            if g != Some(b) {
                bad = Some(format!("lookup of {a}: got {g:?}, expected {b:?}"));
            }
        }
        if let Some(m) = bad {
            self.full()?;
            // the contents are right: only the lookup was wrong
            return Err(v(&["C01"], m));
        }
        if std::mem::size_of::<A>() > 0 && (self.model.len() < 5000 || k % 16 == 0) {
            self.path_fresh(k)?;
        }
        A::root(self.tree.root_augmentation(), &self.model)
    }

    fn ins(&mut self, k: i64) -> R {
        self.tag += 1;
        let t = self.tag;
        let got = self.tree.insert(TK::new(k), TV::new(t)).map(|x| x.pair());
        let want = self.model.insert(k, (t, 0));
        ensure!(got == want, ["C02"], "insert of {k} returned {got:?}, expected {want:?}");
        self.dirty("C02");
        self.after_mutation(k)
    }
    fn rem(&mut self, k: i64) -> R {
        let got = if k % 2 == 0 { self.tree.remove(&k).map(|x| x.pair()) } else { self.tree.remove(&TK::new(k)).map(|x| x.pair()) };
        let want = self.model.remove(&k);
        ensure!(got == want, ["C03"], "remove of {k} returned {got:?}, expected {want:?}");
        self.dirty("C03");
        self.after_mutation(k)
    }
    fn load(&mut self, data: Vec<(i64, u64)>) {
        self.model = data.iter().map(|(k, t)| (*k, (*t, 0))).collect();
        self.tree = BPlusTree::bulk_load(data.into_iter().map(|(k, t)| (TK::new(k), TV::new(t))).collect());
        self.incremental = false;
        self.dirty("C06");
    }

    pub fn step(&mut self, op: &Op) -> R {
        self.stats.ops += 1;
        match op {
            Op::Ins(k) => self.ins(*k)?,
            Op::Rem(k) => self.rem(*k)?,
            Op::InsRange(s, n, st) => {
                for i in 0..*n {
                    self.stats.ops += 1;
                    self.ins(s + i * st)?;
                }
            }
            Op::RemRange(s, n, st) => {
                for i in 0..*n {
                    self.stats.ops += 1;
                    self.rem(s + i * st)?;
                }
            }
            Op::Get(k) => {
                let want = self.model.get(k).copied();
                let got = self.tree.get(k).map(|x| x.pair());
                if got != want {
                    self.full()?;
                    return Err(v(&["C01"], format!("lookup of {k}: got {got:?}, expected {want:?}")));
                }
                let tk = TK::new(*k);
                let got = self.tree.get(&tk).map(|x| x.pair());
                ensure!(got == want, ["C01"], "second lookup of {k}: got {got:?}, expected {want:?}");
            }
            Op::GetMut(k) => {
                let want = self.model.get(k).copied();
                self.tag += 1;
                let t = self.tag;
                let got = self.tree.get_mut(k).map(|x| {
                    let p = x.pair();
                    x.cell = t;
                    p
                });
                if got != want {
                    self.full()?;
                    return Err(v(&["C01"], format!("mutable lookup of {k}: got {got:?}, expected {want:?}")));
                }
                if got.is_some() {
                    self.model.get_mut(k).unwrap().1 = t;
                    self.dirty("C01");
                    let got = self.tree.get(k).map(|x| x.pair());
                    ensure!(got == self.model.get(k).copied(), ["C01"], "lookup of {k} after a mutable lookup: got {got:?}");
                }
            }
            Op::Bulk(s, n, st, rep) => {
                let rep = (*rep).max(1);
                let mut d = vec![];
                for i in 0..*n {
                    for _ in 0..rep {
                        self.tag += 1;
                        d.push((s + i * st, self.tag));
                    }
                }
                self.load(d);
                ensure!(self.tree.len() == self.model.len(), ["C06"], "bulk loaded {} entries, length {}", self.model.len(), self.tree.len());
            }
            Op::Collect(n, range, seed) => self.collect(*n, *range, *seed)?,
            Op::Full => self.full()?,
            Op::IterMix(s) => self.iter_mix(*s)?,
            Op::IntoIter(mode, s) => self.into_iter(*mode, *s)?,
            Op::Clear => {
                self.tree.clear();
                self.model.clear();
                self.incremental = true;
                self.dirty("C15");
                let d = A::default();
                let a = self.tree.root_augmentation();
                ensure!(self.tree.len() == 0 && self.tree.is_empty(), ["C15"], "length {} after clear", self.tree.len());
                ensure!(A::same(a, &d) || A::same(a, &A::from_leaf(&[], &[])), ["C15", "C07"], "augmentation {} after clear", A::show(a));
                ensure!(self.tree.iter().next().is_none() && self.tree.first().is_none() && self.tree.last().is_none(), ["C15"], "entries left after clear");
            }
            Op::CloneMut(s) => self.clone_mut(*s)?,
            Op::CurNew(c, k) => {
                let tk = TK::new(*k);
                let want = self.model.get(k).copied();
                let res = self.tree.get_cursor(&tk);
                ensure!(res.is_some(), ["C10"], "get_cursor({k}) gave no cursor");
                let (cur, x) = res.unwrap();
                let x = x.map(|x| x.pair());
                ensure!(cur.key().k == *k && x == want, ["C10"], "get_cursor({k}): key {}, value {x:?}, expected {want:?}", cur.key().k);
                self.cursors[*c as usize % 6] = Some((cur, *k));
            }
            Op::CurFirst(c) | Op::CurLast(c) => {
                let first = matches!(op, Op::CurFirst(_));
                let want = if first { self.model.iter().next() } else { self.model.iter().next_back() }.map(|(k, x)| (*k, *x));
                let got = if first { Cursor::first(&self.tree) } else { Cursor::last(&self.tree) };
                let g = got.as_ref().map(|(c, x)| (c.key().k, x.pair()));
                ensure!(g == want, ["C10"], "{} cursor: got {g:?}, expected {want:?}", if first { "first" } else { "last" });
                if first {
                    let g = self.tree.cursor_first().map(|c| c.key().k);
                    ensure!(g == want.map(|w| w.0), ["C10"], "cursor_first: got {g:?}, expected {want:?}");
                }
                self.cursors[*c as usize % 6] = got.map(|(cur, _)| {
                    let k = cur.key().k;
                    (cur, k)
                });
            }
            Op::CurNext(c) | Op::CurPrev(c) => {
                let c = *c as usize % 6;
                let fw = matches!(op, Op::CurNext(_));
                if let Some((cur, k)) = &self.cursors[c] {
                    let k = *k;
                    let want = if fw { self.model.range((Excluded(k), Unbounded)).next() } else { self.model.range(..k).next_back() }.map(|(a, b)| (*a, *b));
                    let got = if fw { cur.next_with_value(&self.tree) } else { cur.prev_with_value(&self.tree) };
                    let g = got.as_ref().map(|(c, x)| (c.key().k, x.pair()));
                    let plain = if fw { cur.next(&self.tree) } else { cur.prev(&self.tree) }.map(|c| c.key().k);
                    let name = if fw { "next" } else { "prev" };
                    ensure!(g == want, ["C10"], "{name} of the cursor at {k}: got {g:?}, expected {want:?}");
                    ensure!(plain == want.map(|w| w.0), ["C10"], "{name} (without value) of the cursor at {k}: got {plain:?}, expected {want:?}");
                    if let Some((n, _)) = got {
                        let nk = n.key().k;
                        let x = n.value(&self.tree).map(|x| x.pair());
                        ensure!(x == want.map(|w| w.1), ["C10"], "value of the cursor moved to {nk}: got {x:?}, expected {want:?}");
                        self.cursors[c] = Some((n, nk));
                    }
                }
            }
            Op::CurVal(c) => {
                if let Some((cur, k)) = &self.cursors[*c as usize % 6] {
                    let want = self.model.get(k).copied();
                    let got = cur.value(&self.tree).map(|x| x.pair());
                    ensure!(got == want && cur.key().k == *k, ["C10"], "value of the cursor at {k}: got {got:?}, expected {want:?}");
                    ensure!(cur.exists(&self.tree) == want.is_some(), ["C10"], "exists of the cursor at {k} is wrong");
                }
            }
            Op::Query(s) => A::query(self, &mut Rng(*s as u64))?,
            Op::RemBy(s) => A::rem_by(self, &mut Rng(*s as u64))?,
            Op::MutBy(s) => A::mut_by(self, &mut Rng(*s as u64))?,
            Op::Visit(s) => self.visit(*s)?,
            Op::Union(n, range, s) => self.union(*n, *range, *s)?,
            Op::Conc(s) => self.conc(*s)?,
        }
        Ok(())
    }

    fn iter_mix(&mut self, s: i64) -> R {
        let mut r = Rng(s as u64);
        let want: Vec<(i64, (u64, u64))> = self.model.iter().map(|(k, x)| (*k, *x)).collect();
        let (mut a, mut b) = (0usize, want.len());
        let mut it = self.tree.iter();
        let bias = r.below(101);
        let run = 1 + r.below(90);
        let mut dir = true;
        let limit = if want.len() > 5000 { 1500 } else { usize::MAX };
        let mut steps = 0;
        let mut past = 0;
        while past < 3 && steps < limit {
            if steps % run as usize == 0 {
                dir = r.below(100) < bias;
            }
            steps += 1;
            let left = b - a;
            ensure!(it.len() == left && it.size_hint() == (left, Some(left)), ["C04"], "mixed iteration reports {:?} remaining, expected {left}", it.size_hint());
            let got = if dir { it.next() } else { it.next_back() }.map(|(k, x)| (k.k, x.pair()));
            let exp = if a == b {
                past += 1;
                None
            } else if dir {
                a += 1;
                Some(want[a - 1])
            } else {
                b -= 1;
                Some(want[b])
            };
            ensure!(got == exp, ["C04"], "mixed iteration, {}: got {got:?}, expected {exp:?} ({a} from the front, {} from the back of {})", if dir { "next" } else { "next_back" }, want.len() - b, want.len());
            if steps == 40 && want.len() < 3000 {
                let rest: Vec<(i64, (u64, u64))> = it.clone().map(|(k, x)| (k.k, x.pair())).collect();
                ensure!(rest == want[a..b], ["C04"], "clone of a mixed iteration does not yield the rest");
                let mut rest: Vec<(i64, (u64, u64))> = it.clone().rev().map(|(k, x)| (k.k, x.pair())).collect();
                rest.reverse();
                ensure!(rest == want[a..b], ["C04"], "clone of a mixed iteration, reversed, does not yield the rest");
            }
        }
        Ok(())
    }

    fn into_iter(&mut self, mode: i64, s: i64) -> R {
        let mut r = Rng(s as u64);
        let before = live();
        let t = if mode == 0 {
            self.tree.clone()
        } else {
            std::mem::replace(&mut self.tree, BPlusTree::new(NodeStoreVec::new()))
        };
        let want: Vec<(i64, (u64, u64))> = self.model.iter().map(|(k, x)| (*k, *x)).collect();
        let (mut a, mut b) = (0usize, want.len());
        let bias = [0, 100, 50, r.below(101)][r.below(4) as usize];
        let run = 1 + r.below(90);
        let stop = if r.below(2) == 0 { r.below(want.len() as i64 + 1) as usize } else { usize::MAX };
        let mut it = t.into_iter();
        let mut dir = true;
        let mut steps = 0;
        let mut past = 0;
        while past < 3 && steps < stop {
            if steps % run as usize == 0 {
                dir = r.below(100) < bias;
            }
            steps += 1;
            let left = b - a;
            ensure!(it.len() == left && it.size_hint() == (left, Some(left)), ["C05"], "owned iteration reports {:?} remaining, expected {left}", it.size_hint());
            let got = if dir { it.next() } else { it.next_back() }.map(|(k, x)| (k.k, x.pair()));
            let exp = if a == b {
                past += 1;
                None
            } else if dir {
                a += 1;
                Some(want[a - 1])
            } else {
                b -= 1;
                Some(want[b])
            };
            ensure!(got == exp, ["C05"], "owned iteration, {}: got {got:?}, expected {exp:?} ({a} from the front, {} from the back of {})", if dir { "next" } else { "next_back" }, want.len() - b, want.len());
        }
        drop(it);
        if mode == 0 {
            ensure!(live() == before, ["C12"], "a consumed clone left {} objects alive", live() as i64 - before as i64);
        } else {
            let cur = self.cursors.iter().flatten().count();
            // the empty tree put in its place owns one augmentation
            let own = aug_objects(self.tree.root_augmentation());
            ensure!(live() == cur + own, ["C12"], "a consumed container left {} objects alive", live() as i64 - (cur + own) as i64);
            self.model.clear();
            self.incremental = true;
            self.dirty("C05");
        }
        Ok(())
    }

    fn clone_mut(&mut self, s: i64) -> R {
        let mut r = Rng(s as u64);
        let before = live();
        let mut t = self.tree.clone();
        let same = |t: &Tree<A>, m: &Model| t.len() == m.len() && t.iter().map(|(k, x)| (k.k, x.pair())).eq(m.iter().map(|(k, x)| (*k, *x)));
        ensure!(same(&t, &self.model), ["C15"], "the clone's contents differ");
        ensure!(A::same(t.root_augmentation(), self.tree.root_augmentation()), ["C15"], "the clone's augmentation differs");
        let mut m = self.model.clone();
        self.refresh();
        let aug = A::show(self.tree.root_augmentation());
        for _ in 0..r.below(80) {
            let k = self.some_key(&mut r);
            match r.below(4) {
                0 => {
                    self.tag += 1;
                    let got = t.insert(TK::new(k), TV::new(self.tag)).map(|x| x.pair());
                    let want = m.insert(k, (self.tag, 0));
                    ensure!(got == want, ["C15"], "insert of {k} into the clone returned {got:?}, expected {want:?}");
                }
                3 => {
                    if let Some(x) = t.get_mut(&k) {
                        x.cell = 99;
                        m.get_mut(&k).map(|x| x.1 = 99);
                    }
                }
                _ => {
                    let got = t.remove(&k).map(|x| x.pair());
                    let want = m.remove(&k);
                    ensure!(got == want, ["C15"], "remove of {k} from the clone returned {got:?}, expected {want:?}");
                }
            }
        }
        ensure!(same(&t, &m), ["C15"], "the clone's contents are wrong after operations on it");
        ensure!(same(&self.tree, &self.model), ["C15"], "operations on the clone changed the original");
        ensure!(A::show(self.tree.root_augmentation()) == aug, ["C15"], "operations on the clone changed the original's augmentation");
        if r.below(4) == 0 {
            self.tree = t;
            self.model = m;
            self.dirty("C15");
        } else {
            drop(t);
            ensure!(live() == before, ["C12"], "a dropped clone left {} objects alive", live() as i64 - before as i64);
            ensure!(same(&self.tree, &self.model), ["C15"], "dropping the clone changed the original");
        }
        Ok(())
    }

    fn visit(&mut self, s: i64) -> R {
        struct Vi<A> {
            r: Rng,
            stop: usize,
            how: i64,
            lo: Option<i64>,
            hi: Option<i64>,
            expect: Option<A>,
            level: usize,
            bad: Option<String>,
            leaf: Option<Vec<(i64, (u64, u64))>>,
            leaf_none: bool,
        }
        struct W<'a, A>(&'a mut Vi<A>);
        impl<'a, A: AugX> DescendVisit<TK, TV, A> for W<'a, A> {
            type Result = u64;
            fn visit_inner(&mut self, keys: &[TK], augs: &[A]) -> DescendVisitResult<u64> {
                let m = &mut *self.0;
                if augs.len() != keys.len() + 1 {
                    m.bad = Some(format!("{} separators and {} augmentations shown", keys.len(), augs.len()));
                    return DescendVisitResult::Cancel;
                }
                let agg = A::from_inner(keys, augs);
                if let Some(e) = &m.expect {
                    if !A::same(e, &agg) {
                        m.bad = Some(format!("at level {} another node than the requested child is shown", m.level));
                    }
                }
                for k in keys {
                    if m.lo.is_some_and(|l| k.k < l) || m.hi.is_some_and(|h| k.k >= h) {
                        m.bad = Some(format!("separator {} outside the requested child", k.k));
                    }
                }
                if m.level == m.stop {
                    match m.how {
                        0 => return DescendVisitResult::Cancel,
                        1 => return DescendVisitResult::Complete(777),
                        _ => {}
                    }
                }
                m.level += 1;
                let i = match m.r.below(5) {
                    0 => 0,
                    1 => keys.len(),
                    _ => m.r.below(keys.len() as i64 + 1) as usize,
                };
                if i > 0 {
                    m.lo = Some(keys[i - 1].k);
                }
                if i < keys.len() {
                    m.hi = Some(keys[i].k);
                }
                m.expect = Some(augs[i].clone());
                DescendVisitResult::GoDown(i)
            }
            fn visit_leaf(&mut self, keys: &[TK], values: &[TV]) -> Option<u64> {
                let m = &mut *self.0;
                if keys.len() != values.len() {
                    m.bad = Some(format!("leaf shown with {} keys and {} values", keys.len(), values.len()));
                    return None;
                }
                let agg = A::from_leaf(keys, values);
                if let Some(e) = &m.expect {
                    if !A::same(e, &agg) {
                        m.bad = Some("another leaf than the requested child is shown".into());
                    }
                }
                m.leaf = Some(keys.iter().map(|k| k.k).zip(values.iter().map(|x| x.pair())).collect());
                if m.leaf_none {
                    None
                } else {
                    Some(555)
                }
            }
        }
        let mut r = Rng(s as u64);
        for _ in 0..3 {
            let mut m = Vi { r: Rng(r.next()), stop: r.below(3) as usize, how: r.below(4), lo: None, hi: None, expect: Some(self.tree.root_augmentation().clone()), level: 0, bad: None, leaf: None, leaf_none: r.below(3) == 0 };
            if self.model.is_empty() {
                m.expect = None;
            }
            let got = self.tree.descend_visit(W(&mut m));
            if let Some(b) = m.bad {
                return Err(v(&["C16"], b));
            }
            match &m.leaf {
                Some(l) => {
                    let want = if m.leaf_none { None } else { Some(555) };
                    ensure!(got == want, ["C16"], "visit returned {got:?}, the leaf's result is {want:?}");
                    let exp: Vec<(i64, (u64, u64))> = self
                        .model
                        .range((m.lo.map_or(Unbounded, Included), m.hi.map_or(Unbounded, Excluded)))
                        .map(|(k, x)| (*k, *x))
                        .collect();
                    ensure!(*l == exp, ["C16"], "the leaf shown for separators {:?}..{:?} does not hold the entries between them", m.lo, m.hi);
                }
                None => {
                    let want = if m.how == 0 { None } else { Some(777) };
                    ensure!(got == want && m.how < 2, ["C16"], "visit stopped early returned {got:?}, expected {want:?}");
                }
            }
        }
        // a visitor that asks for a child that does not exist
        struct Astray {
            left: usize,
            past: usize,
            asked: bool,
            after: bool,
        }
        struct X<'a>(&'a mut Astray);
        impl<'a, A: AugX> DescendVisit<TK, TV, A> for X<'a> {
            type Result = ();
            fn visit_inner(&mut self, keys: &[TK], _: &[A]) -> DescendVisitResult<()> {
                if self.0.asked {
                    self.0.after = true;
                    return DescendVisitResult::Cancel;
                }
                if self.0.left == 0 {
                    self.0.asked = true;
                    return DescendVisitResult::GoDown(keys.len().saturating_add(self.0.past));
                }
                self.0.left -= 1;
                DescendVisitResult::GoDown(self.0.left % (keys.len() + 1))
            }
            fn visit_leaf(&mut self, _: &[TK], _: &[TV]) -> Option<()> {
                self.0.after |= self.0.asked;
                None
            }
        }
        let past = [1, 1, 2, 70, usize::MAX][r.below(5) as usize];
        let mut m = Astray { left: r.below(2) as usize, past, asked: false, after: false };
        let hook = std::panic::take_hook();
        std::panic::set_hook(Box::new(|_| {}));
        let end = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.tree.descend_visit(X(&mut m)).is_some()));
        std::panic::set_hook(hook);
        ensure!(!m.asked || (end.is_err() && !m.after), ["C16"], "asked for the child {past} past the last one, the visit goes on");
        ensure!(m.asked || end.is_ok_and(|x| !x), ["C16"], "a visit that asks for existing children only does not end with the leaf's answer");
        ensure!(self.tree.len() == self.model.len(), ["C16"], "visiting changed the length");
        Ok(())
    }

    fn collect(&mut self, n: i64, range: i64, seed: i64) -> R {
        let mut r = Rng(seed as u64);
        let mut model: Model = BTreeMap::new();
        let mut seq = vec![];
        for _ in 0..n {
            self.tag += 1;
            let k = r.below(range);
            seq.push((k, self.tag));
            model.insert(k, (self.tag, 0));
        }
        let before = live();
        {
            let mut m: BPlusTreeMap<TK, TV, A> = seq.iter().map(|(k, t)| (TK::new(*k), TV::new(*t))).collect();
            let same = |m: &BPlusTreeMap<TK, TV, A>, model: &Model| m.len() == model.len() && m.is_empty() == model.is_empty() && m.iter().map(|(k, x)| (k.k, x.pair())).eq(model.iter().map(|(k, x)| (*k, *x)));
            ensure!(same(&m, &model), ["C06"], "collecting {n} entries with keys below {range} gives other contents ({} entries, expected {})", m.len(), model.len());
            A::root(m.root_augmentation(), &model).map_err(|e| v(&["C06", A::PROP], e.msg))?;
            let rev: Vec<i64> = m.iter().rev().map(|(k, _)| k.k).collect();
            ensure!(rev.iter().rev().eq(model.keys()), ["C04"], "reversed map iteration is wrong");
            ensure!(m.iter().len() == model.len(), ["C04"], "map iteration length");
            for _ in 0..200 {
                let k = r.below(range + 2) - 1;
                match r.below(6) {
                    0 => {
                        self.tag += 1;
                        let got = m.insert(TK::new(k), TV::new(self.tag)).map(|x| x.pair());
                        let want = model.insert(k, (self.tag, 0));
                        ensure!(got == want, ["C02"], "map insert of {k} returned {got:?}, expected {want:?}");
                    }
                    1 => {
                        let got = m.remove(&k).map(|x| x.pair());
                        let want = model.remove(&k);
                        ensure!(got == want, ["C03"], "map remove of {k} returned {got:?}, expected {want:?}");
                    }
                    2 => {
                        let got = m.get_mut(&k).map(|x| {
                            let p = x.pair();
                            x.cell = 5;
                            p
                        });
                        ensure!(got == model.get(&k).copied(), ["C01"], "map get_mut of {k}: {got:?}, expected {:?}", model.get(&k));
                        model.get_mut(&k).map(|x| x.1 = 5);
                    }
                    _ => {
                        let got = m.get(&k).map(|x| x.pair());
                        ensure!(got == model.get(&k).copied(), ["C01"], "map get of {k}: {got:?}, expected {:?}", model.get(&k));
                    }
                }
                ensure!(m.len() == model.len() && m.is_empty() == model.is_empty(), ["C02", "C03", "C06"], "map length {} ({}), expected {}", m.len(), m.is_empty(), model.len());
                A::map_probe(&mut m, &mut model, k, &mut r)?;
                A::root(m.root_augmentation(), &model)?;
            }
            ensure!(same(&m, &model), ["C02", "C03"], "map contents are wrong after insertions and removals");
        }
        ensure!(live() == before, ["C12"], "a dropped map left {} objects alive", live() as i64 - before as i64);
        {
            // sets
            let s: BPlusTreeSet<TK> = seq.iter().map(|(k, _)| TK::new(*k)).collect();
            let mut ms: BTreeSet<i64> = seq.iter().map(|(k, _)| *k).collect();
            ensure!(s.len() == ms.len() && s.iter().map(|k| k.k).eq(ms.iter().copied()), ["C06"], "collecting a set gives other elements");
            let back: Vec<i64> = s.into_iter().map(|k| k.k).collect();
            ensure!(back.iter().eq(ms.iter()), ["C05"], "consuming a set gives other elements");
            let mut s: BPlusTreeSet<TK> = BPlusTreeSet::new();
            ms.clear();
            for (k, t) in &seq {
                if t % 3 == 0 {
                    let got = s.remove(k);
                    ensure!(got == ms.remove(k), ["C03"], "set remove of {k} returned {got}");
                } else {
                    let got = s.insert(TK::new(*k));
                    ensure!(got == ms.insert(*k), ["C02"], "set insert of {k} returned {got}");
                }
                let g = s.contains(k);
                ensure!(g == ms.contains(k), ["C01"], "set contains {k} is {g}");
                let g = s.contains(&(k + 1));
                ensure!(g == ms.contains(&(k + 1)), ["C01"], "set contains {} is {g}", k + 1);
            }
            ensure!(s.len() == ms.len() && s.is_empty() == ms.is_empty(), ["C02", "C03"], "set length {}, expected {}", s.len(), ms.len());
            ensure!(s.first().map(|k| k.k) == ms.first().copied() && s.last().map(|k| k.k) == ms.last().copied(), ["C04"], "set first/last");
            ensure!(s.iter().rev().map(|k| k.k).eq(ms.iter().rev().copied()) && s.iter().len() == ms.len(), ["C04"], "reversed set iteration");
            let mut it = s.iter();
            let mut exp: std::collections::VecDeque<i64> = ms.iter().copied().collect();
            while !exp.is_empty() {
                ensure!(it.len() == exp.len(), ["C04"], "set iteration length");
                let (g, w) = if r.below(2) == 0 { (it.next(), exp.pop_front()) } else { (it.next_back(), exp.pop_back()) };
                ensure!(g.map(|k| k.k) == w, ["C04"], "mixed set iteration: {:?}, expected {w:?}", g.map(|k| k.k));
            }
            s.clear();
            ensure!(s.is_empty() && s.iter().next().is_none() && !s.contains(&1), ["C15"], "set not empty after clear");
            let mut it = ms.iter().map(|k| TK::new(*k)).collect::<BPlusTreeSet<TK>>().into_iter();
            let mut exp: std::collections::VecDeque<i64> = ms.iter().copied().collect();
            while !exp.is_empty() {
                ensure!(it.len() == exp.len(), ["C05"], "consumed set length");
                let (g, w) = if r.below(2) == 0 { (it.next(), exp.pop_front()) } else { (it.next_back(), exp.pop_back()) };
                ensure!(g.as_ref().map(|k| k.k) == w, ["C05"], "mixed consumption of a set: expected {w:?}");
            }
            ensure!(it.next().is_none() && it.next_back().is_none(), ["C05"], "consumed set restarts");
        }
        ensure!(live() == before, ["C12"], "a dropped set left {} objects alive", live() as i64 - before as i64);
        Ok(())
    }

    fn union(&mut self, n: i64, range: i64, seed: i64) -> R {
        let mut r = Rng(seed as u64);
        let mut a: BPlusTreeSet<i64> = BPlusTreeSet::new();
        let mut ma = BTreeSet::new();
        let na = [0, 1, 3, 200, 70][r.below(5) as usize];
        let range = range.min([3, 300, 100000][r.below(3) as usize]).max(1);
        let shift = [0, 0, range, -range, range / 2][r.below(5) as usize];
        for _ in 0..na {
            let k = r.below(range);
            a.insert(k);
            ma.insert(k);
        }
        for _ in 0..n / 4 {
            let k = r.below(range);
            a.remove(&k);
            ma.remove(&k);
        }
        let mb: BTreeSet<i64> = (0..n).map(|_| r.below(range) + shift).collect();
        let b: BPlusTreeSet<i64> = mb.iter().copied().collect();
        for (x, y, mx, my) in [(&a, &b, &ma, &mb), (&b, &a, &mb, &ma)] {
            let want: Vec<i64> = mx.union(my).copied().collect();
            let got: Vec<i64> = x.union(y).copied().collect();
            ensure!(got == want, ["C14"], "union of {mx:?} and {my:?} iterates as {got:?}");
            let mut it = x.union(y);
            let split = r.below(want.len() as i64 + 1) as usize;
            for i in 0..=want.len() {
                let (lo, hi) = it.size_hint();
                let left = want.len() - i;
                ensure!(lo <= left && hi.is_none_or(|h| left <= h), ["C14"], "union of {mx:?} and {my:?}: size hint ({lo},{hi:?}) with {left} to come");
                if i == split {
                    let mn = it.clone().min().copied();
                    ensure!(mn == want.get(i).copied(), ["C14"], "union of {mx:?} and {my:?}: minimum of the rest is {mn:?}, expected {:?}", want.get(i));
                    ensure!(it.clone().copied().eq(want[i..].iter().copied()), ["C14"], "clone of a union iterator yields something else");
                }
                let g = it.next().copied();
                ensure!(g == want.get(i).copied(), ["C14"], "union of {mx:?} and {my:?}: element {i} is {g:?}, expected {:?}", want.get(i));
            }
            ensure!(it.next().is_none(), ["C14"], "union restarts after its end");
        }
        Ok(())
    }

    fn conc(&mut self, seed: i64) -> R {
        let mut r = Rng(seed as u64);
        let mut keys: Vec<(i64, u64)> = self.model.iter().take(6000).map(|(k, x)| (*k, x.0)).collect();
        let model: BTreeMap<i64, u64> = keys.iter().copied().collect();
        let sorted: Vec<i64> = model.keys().copied().collect();
        r.shuffle(&mut keys);
        let mut tree: BPlusTree<NodeStoreVec<i64, u64, Count>> = BPlusTree::new(NodeStoreVec::new());
        for (k, t) in &keys {
            tree.insert(*k, *t);
        }
        let tree = &tree;
        let (model, sorted) = (&model, &sorted);
        let n = sorted.len();
        let bad: Vec<Option<String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..4)
                .map(|t| {
                    let mut r = Rng(seed as u64 ^ (t * 77));
                    sc.spawn(move || -> Option<String> {
                        for _ in 0..600 {
                            let k = if n > 0 { sorted[r.below(n as i64) as usize] + [0, 0, 1, -1][r.below(4) as usize] } else { r.below(5) };
                            let g = tree.get(&k).copied();
                            if g != model.get(&k).copied() {
                                return Some(format!("concurrent lookup of {k}: {g:?}, expected {:?}", model.get(&k)));
                            }
                            match r.below(8) {
                                0 => {
                                    let g = tree.rank_by_augmentation(&k);
                                    if g != sorted.binary_search(&k) {
                                        return Some(format!("concurrent rank of {k}: {g:?}"));
                                    }
                                }
                                1 => {
                                    let i = r.below(n as i64 + 2) as usize;
                                    let g = tree.get_by_augmentation(i).map(|x| *x.0);
                                    if g != sorted.get(i).copied() {
                                        return Some(format!("concurrent index {i}: {g:?}"));
                                    }
                                }
                                2 => {
                                    if let Some((c, x)) = tree.get_cursor(&k) {
                                        if x.copied() != model.get(&k).copied() {
                                            return Some(format!("concurrent cursor at {k}: {x:?}"));
                                        }
                                        let g = c.next(tree).map(|c| *c.key());
                                        let w = model.range((Excluded(k), Unbounded)).next().map(|x| *x.0);
                                        if g != w {
                                            return Some(format!("concurrent cursor next of {k}: {g:?}, expected {w:?}"));
                                        }
                                        let g = c.prev(tree).map(|c| *c.key());
                                        let w = model.range(..k).next_back().map(|x| *x.0);
                                        if g != w {
                                            return Some(format!("concurrent cursor prev of {k}: {g:?}, expected {w:?}"));
                                        }
                                    }
                                }
                                3 => {
                                    if r.below(8) == 0 && !tree.iter().map(|x| *x.0).eq(sorted.iter().copied()) {
                                        return Some("concurrent iteration".into());
                                    }
                                }
                                _ => {}
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Some("a reading thread panicked".into()))).collect()
        });
        for b in bad.into_iter().flatten() {
            // a lookup that is wrong without concurrency is not a violation of C13
            let alone = sorted.iter().all(|k| tree.get(k).copied() == model.get(k).copied()) && tree.iter().map(|x| *x.0).eq(sorted.iter().copied());
            ensure!(!alone, ["C13"], "{b}");
        }
        Ok(())
    }
}

fn aug_objects<A: Clone>(a: &A) -> usize {
    let b = live();
    let c = a.clone();
    let n = live() - b;
    drop(c);
    n
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn run_kind<A: AugX>(tr: &Trace, dense_from: usize, log: &mut dyn FnMut(usize)) -> (R, Stats)
where
{
    reset_registry();
    GROUP.with(|g| g.set(tr.group.max(1)));
    let mut st: St<A> = St::new();
    let mut res = Ok(());
    for (i, op) in tr.ops.iter().enumerate() {
        log(i);
        let mut x = st.step(op);
        if x.is_ok() && i >= dense_from {
            x = st.full();
        }
        if x.is_ok() {
            if let Some(b) = bad() {
                x = Err(v(&["C12"], b));
            }
        }
        if let Err(mut e) = x {
            if passable(&e) {
                st.stats.foreign += 1;
                continue;
            }
            e.op = i;
            res = Err(e);
            break;
        }
    }
    let stats = st.stats.clone();
    if res.is_err() {
        // the container may be damaged: do not run its destructor
        let extra = bad();
        std::mem::forget(st);
        if let (Some(b), Err(e)) = (extra, &mut res) {
            e.props.push("C12");
            e.msg = format!("{}; {b}", e.msg);
        }
        return (res, stats);
    }
    log(tr.ops.len());
    drop(st);
    if let Some(b) = bad() {
        res = Err(Viol { props: vec!["C12"], msg: format!("when the container is dropped: {b}"), op: tr.ops.len() });
    } else if live() != 0 {
        res = Err(Viol { props: vec!["C12"], msg: format!("{} objects were never dropped", live()), op: tr.ops.len() });
    }
    (res, stats)
}

pub fn run(tr: &Trace, want: &str, dense_from: usize, log: &mut dyn FnMut(usize)) -> (R, Stats) {
    WANT.with(|w| *w.borrow_mut() = want.to_string());
    match tr.kind.as_str() {
        "digest" => run_kind::<Digest>(tr, dense_from, log),
        "count" => run_kind::<Count>(tr, dense_from, log),
        "group" => run_kind::<GroupCount<TG>>(tr, dense_from, log),
        _ => run_kind::<()>(tr, dense_from, log),
    }
}
#[allow(dead_code)]
fn _uses(_: &dyn Fn(&TK) -> TG) {
    let _ = <TG as FromRef<TK>>::from_ref;
}
