//@ raw
// ======================= augmentations that describe the keys below a node ==========================

/// slices, iterated
pub struct SliceIter<'a, T> { pub s: &'a [T], pub lo: usize, pub hi: usize }
impl<'a, T> SliceIter<'a, T> {
    pub open spec fn at(&self) -> int { self.lo as int }
    pub open spec fn over(&self, s: Seq<T>) -> bool { self.s@ == s && self.hi == s.len() && self.lo <= self.hi }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).hi <= old(self).s@.len(),
        ensures final(self).s == old(self).s, final(self).hi == old(self).hi,
            old(self).lo < old(self).hi ==> r is Some && *(r->0) == old(self).s@[old(self).lo as int] && final(self).lo == old(self).lo + 1,
            old(self).lo >= old(self).hi ==> r is None && final(self).lo == old(self).lo,
    { if self.lo < self.hi { let i = self.lo; self.lo = i + 1; Some(&self.s[i]) } else { None } }
    pub fn enumerate(self) -> (r: EnumSlice<'a, T>)
        ensures r.n == 0, r.it == self
    { EnumSlice { n: 0, it: self } }
    pub fn rev(self) -> (r: RevSlice<'a, T>)
        ensures r.it == self
    { RevSlice { it: self } }
}
pub struct EnumSlice<'a, T> { pub n: usize, pub it: SliceIter<'a, T> }
impl<'a, T> EnumSlice<'a, T> {
    pub open spec fn at(&self) -> int { self.it.lo as int }
    pub open spec fn over(&self, s: Seq<T>) -> bool { self.it.over(s) && self.n == self.it.lo }
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        requires old(self).it.hi <= old(self).it.s@.len(), old(self).n <= old(self).it.lo,
        ensures final(self).it.s == old(self).it.s, final(self).it.hi == old(self).it.hi,
            old(self).it.lo < old(self).it.hi ==> r is Some && *(r->0).1 == old(self).it.s@[old(self).it.lo as int] && (r->0).0 == old(self).n && final(self).it.lo == old(self).it.lo + 1 && final(self).n == old(self).n + 1,
            old(self).it.lo >= old(self).it.hi ==> r is None && final(self).it.lo == old(self).it.lo && final(self).n == old(self).n,
    { match self.it.next() { Some(x) => { let i = self.n; self.n = i + 1; Some((i, x)) } None => None } }
}
pub struct RevSlice<'a, T> { pub it: SliceIter<'a, T> }
impl<'a, T> RevSlice<'a, T> {
    /// the items before `at` are still to come, the last of them first
    pub open spec fn at(&self) -> int { self.it.hi as int }
    pub open spec fn over(&self, s: Seq<T>) -> bool { self.it.s@ == s && self.it.lo == 0 && self.it.hi <= s.len() }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).it.hi <= old(self).it.s@.len(),
        ensures final(self).it.s == old(self).it.s, final(self).it.lo == old(self).it.lo,
            old(self).it.lo < old(self).it.hi ==> r is Some && *(r->0) == old(self).it.s@[old(self).it.hi - 1] && final(self).it.hi == old(self).it.hi - 1,
            old(self).it.lo >= old(self).it.hi ==> r is None && final(self).it.hi == old(self).it.hi,
    { if self.it.lo < self.it.hi { let i = self.it.hi - 1; self.it.hi = i; Some(&self.it.s[i]) } else { None } }
}
pub trait VIter<T> { spec fn items(&self) -> Seq<T>; fn viter<'a>(&'a self) -> (r: SliceIter<'a, T>) ensures r.s@ == self.items(), r.lo == 0, r.hi == self.items().len(); }
impl<T> VIter<T> for [T] {
    open spec fn items(&self) -> Seq<T> { self@ }
    fn viter<'a>(&'a self) -> (r: SliceIter<'a, T>) { SliceIter { s: self, lo: 0, hi: self.len() } }
}
impl<'a, T> VIntoIter for &'a [T] {
    type It = SliceIter<'a, T>;
    open spec fn vit(self, i: SliceIter<'a, T>) -> bool { i.s == self && i.lo == 0 && i.hi == self@.len() }
    fn vinto_iter(self) -> (r: SliceIter<'a, T>) { SliceIter { s: self, lo: 0, hi: self.len() } }
}
impl<'a, T> VIntoIter for SliceIter<'a, T> { type It = SliceIter<'a, T>; open spec fn vit(self, i: SliceIter<'a, T>) -> bool { i == self } fn vinto_iter(self) -> (r: SliceIter<'a, T>) { self } }
impl<'a, T> VIntoIter for EnumSlice<'a, T> { type It = EnumSlice<'a, T>; open spec fn vit(self, i: EnumSlice<'a, T>) -> bool { i == self } fn vinto_iter(self) -> (r: EnumSlice<'a, T>) { self } }
impl<'a, T> VIntoIter for RevSlice<'a, T> { type It = RevSlice<'a, T>; open spec fn vit(self, i: RevSlice<'a, T>) -> bool { i == self } fn vinto_iter(self) -> (r: RevSlice<'a, T>) { self } }
/// `+` on `usize` in a release build
pub open spec fn wrapped(a: usize, b: usize) -> usize { if a + b <= usize::MAX { (a + b) as usize } else { (a + b - usize::MAX - 1) as usize } }
pub open spec fn wrapped_sub(a: usize, b: usize) -> usize { if a >= b { (a - b) as usize } else { (usize::MAX - (b - a) + 1) as usize } }
/// an operand of `+` or `-`
pub trait Us: Sized { spec fn us(self) -> usize; fn get(self) -> (r: usize) ensures r == self.us(); }
impl Us for usize { open spec fn us(self) -> usize { self } fn get(self) -> (r: usize) { self } }
impl<'a> Us for &'a usize { open spec fn us(self) -> usize { *self } fn get(self) -> (r: usize) { *self } }
pub fn wadd<A: Us, B: Us>(a: A, b: B) -> (r: usize)
    ensures r == wrapped(a.us(), b.us())
{ let (a, b) = (a.get(), b.get()); if b <= usize::MAX - a { a + b } else { b - (usize::MAX - a) - 1 } }
pub fn wsub<A: Us, B: Us>(a: A, b: B) -> (r: usize)
    ensures r == wrapped_sub(a.us(), b.us())
{ let (a, b) = (a.get(), b.get()); if b <= a { a - b } else { usize::MAX - (b - a) + 1 } }

pub trait Says<K: Key, V>: Augmentation<K, V> {
    /// self describes the sequence of keys ks
    spec fn says(self, ks: Seq<K>) -> bool;
}
/// the i-th of the parts c[i] .. c[i + 1] of ks is not empty, and augs[i] describes it
pub open spec fn part<K: Key, V, A: Says<K, V>>(augs: Seq<A>, ks: Seq<K>, c: Seq<int>, i: int) -> bool {
    0 <= c[i] && c[i] < c[i + 1] && c[i + 1] <= ks.len() && augs[i].says(ks.subrange(c[i], c[i + 1]))
}
/// augs describe the parts of ks, one after the other
pub open spec fn cuts<K: Key, V, A: Says<K, V>>(augs: Seq<A>, ks: Seq<K>, c: Seq<int>) -> bool {
    &&& c.len() == augs.len() + 1 && c[0] == 0 && c[augs.len() as int] == ks.len()
    &&& sorted(ks) && ks.len() <= usize::MAX
    &&& forall|i: int| 0 <= i < augs.len() ==> #[trigger] part::<K, V, A>(augs, ks, c, i)
}
/// An augmentation that says something about the sequence of the keys below a node, whatever the shape of the tree.
pub trait SeqAug<K: Key, V>: Says<K, V> {
    proof fn says_leaf(ks: Seq<K>, vs: Seq<V>)
        requires sorted(ks), ks.len() == vs.len(), ks.len() <= usize::MAX,
        ensures Self::leaf_spec(ks, vs).says(ks);
    proof fn says_inner(seps: Seq<K>, augs: Seq<Self>, ks: Seq<K>, c: Seq<int>)
        requires cuts::<K, V, Self>(augs, ks, c),
        ensures Self::inner_spec(seps, augs).says(ks);
    proof fn says_none()
        ensures Self::default_spec().says(Seq::empty());
}
pub open spec fn moved(o: Option<int>, by: int) -> Option<int> { match o { Some(i) => Some(i + by), None => None } }
pub trait SearchAugmentation<K: Key, V>: SeqAug<K, V> {
    type Query;
    /// which of the keys the query picks
    spec fn picks(q: Self::Query, ks: Seq<K>) -> Option<int>;
    fn locate_in_leaf(query: Self::Query, keys: &[K], values: &[V]) -> (r: Option<usize>)
        requires sorted(keys@), keys@.len() == values@.len(),
        ensures (r is Some) == (Self::picks(query, keys@) is Some), r is Some ==> Self::picks(query, keys@) == Some(r->0 as int) && r->0 < keys@.len();
    fn locate_in_inner(query: Self::Query, keys: &[K], augs: &[Self]) -> (r: Option<(usize, Self::Query)>)
        ensures forall|ks: Seq<K>, c: Seq<int>| #[trigger] cuts::<K, V, Self>(augs@, ks, c) ==> match r {
            None => Self::picks(query, ks) is None,
            Some((i, q)) => i < augs@.len() && Self::picks(query, ks) == moved(Self::picks(q, ks.subrange(c[i as int], c[i + 1])), c[i as int]),
        };
}
pub trait RankSpec<K: Key, V>: SeqAug<K, V> {
    type Rank;
    /// the rank after the keys pre
    spec fn so_far(r: Self::Rank, pre: Seq<K>) -> bool;
    /// the rank of k, if pre are the keys below k
    spec fn ranks(r: Self::Rank, k: K, pre: Seq<K>) -> bool;
}
/// ks follow the keys pre, and augs describe the parts of ks
pub open spec fn folds<K: Key, V, A: RankSpec<K, V>>(k: K, rank: A::Rank, augs: Seq<A>, pre: Seq<K>, ks: Seq<K>, c: Seq<int>) -> bool {
    &&& A::so_far(rank, pre) && cuts::<K, V, A>(augs, ks, c) && sorted(pre + ks) && pre.len() + ks.len() <= usize::MAX
    &&& forall|i: int| 0 <= i < pre.len() + ks.len() ==> (#[trigger] (pre + ks)[i]).ord() <= k.ord()
}
/// the leaf holds ks, after the keys pre, and k belongs at slot
pub open spec fn lands<K: Key, V, A: RankSpec<K, V>>(k: K, rank: A::Rank, slot: Result<usize, usize>, pre: Seq<K>, ks: Seq<K>) -> bool {
    &&& A::so_far(rank, pre) && sorted(pre + ks) && pre.len() + ks.len() <= usize::MAX
    &&& is_pos(ks, k.ord(), slot_of(slot)) && is_pos(pre + ks, k.ord(), pre.len() + slot_of(slot))
    &&& (slot is Ok) == hask(ks, k.ord()) && (ks.len() == 0 ==> pre.len() == 0)
}
pub open spec fn slot_of(r: Result<usize, usize>) -> int { match r { Ok(i) => i as int, Err(i) => i as int } }
pub trait RankAugmentation<K: Key, V>: RankSpec<K, V> {
    fn initial_value() -> (r: Self::Rank)
        ensures Self::so_far(r, Seq::empty());
    fn fold_inner(k: &K, rank: Self::Rank, augs: &[Self]) -> (r: Self::Rank)
        requires exists|pre: Seq<K>, ks: Seq<K>, c: Seq<int>| #[trigger] folds::<K, V, Self>(*k, rank, augs@, pre, ks, c),
        ensures forall|pre: Seq<K>, ks: Seq<K>, c: Seq<int>| #[trigger] folds::<K, V, Self>(*k, rank, augs@, pre, ks, c) ==> Self::so_far(r, pre + ks);
    fn fold_leaf(k: &K, rank: Self::Rank, slot: Result<usize, usize>, keys: &[K]) -> (r: Result<Self::Rank, Self::Rank>)
        requires exists|pre: Seq<K>| #[trigger] lands::<K, V, Self>(*k, rank, slot, pre, keys@),
        ensures (r is Ok) == (slot is Ok),
            forall|pre: Seq<K>| #[trigger] lands::<K, V, Self>(*k, rank, slot, pre, keys@) ==> Self::ranks(match r { Ok(x) => x, Err(x) => x }, *k, pre + keys@.take(slot_of(slot)));
}
