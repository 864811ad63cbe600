//@ raw
// ======================= merging two iterators ======================================================

/// A fused iterator: `rest` is what it will still yield.
pub trait PIter: Sized {
    type Item;
    spec fn rest(&self) -> Seq<Self::Item>;
    spec fn ok(&self) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).ok(),
        ensures final(self).ok(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1);
}
/// one that knows its length
pub trait PExact: PIter {
    fn len(&self) -> (r: usize)
        requires self.ok(), self.rest().len() <= usize::MAX,
        ensures r == self.rest().len();
}
/// What is compared: its rank is the place in the order.
pub trait Ranked: Sized {
    spec fn rk(self) -> real;
    fn cmp(&self, o: &Self) -> (r: Ordering)
        ensures (r is Less) == (self.rk() < o.rk()), (r is Greater) == (self.rk() > o.rk());
}
impl<'a, K: Key> Ranked for &'a K {
    open spec fn rk(self) -> real { self.ord() }
    fn cmp(&self, o: &Self) -> (r: Ordering) { K::cmp(*self, *o) }
}
pub fn max(a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { b } else { a },
{ if a < b { b } else { a } }

pub open spec fn up<T: Ranked>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).rk() < (#[trigger] s[j]).rk() }
/// the union of two ascending sequences
pub open spec fn both<T: Ranked>(a: Seq<T>, b: Seq<T>) -> Seq<T>
    decreases a.len() + b.len(),
{
    if a.len() == 0 { b }
    else if b.len() == 0 { a }
    else if a[0].rk() < b[0].rk() { seq![a[0]] + both(a.skip(1), b) }
    else if b[0].rk() < a[0].rk() { seq![b[0]] + both(a, b.skip(1)) }
    else { seq![a[0]] + both(a.skip(1), b.skip(1)) }
}
pub open spec fn ranked_in<T: Ranked>(s: Seq<T>, x: real) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).rk() == x }
//@ struct merge_iter.rs Peeked
//@ generics <I: PIter>
//@ struct merge_iter.rs MergeIterInner
//@ generics <I: PIter>
//@ raw
impl<I: PIter> MergeIterInner<I> where I::Item: Ranked {
    /// what is left of the one and the other
    pub open spec fn left(&self) -> Seq<I::Item> { match self.peeked { Some(Peeked::A(x)) => seq![x] + self.a.rest(), _ => self.a.rest() } }
    pub open spec fn right(&self) -> Seq<I::Item> { match self.peeked { Some(Peeked::B(x)) => seq![x] + self.b.rest(), _ => self.b.rest() } }
    pub open spec fn wf(&self) -> bool { self.a.ok() && self.b.ok() && self.left().len() <= usize::MAX && self.right().len() <= usize::MAX }
//@ fn merge_iter.rs MergeIterInner::new
//@ props C14
//@ params a b
//@ ret r
//@ spec
    requires a.ok(), b.ok(), a.rest().len() <= usize::MAX, b.rest().len() <= usize::MAX,
    ensures r.wf(), r.left() == a.rest(), r.right() == b.rest(),
//@ fn merge_iter.rs MergeIterInner::nexts
//@ props C14
//@ params self cmp
//@ ret r
//@ generics <Cmp: Fn(&I::Item, &I::Item) -> Ordering>
//@ spec
    requires old(self).wf(), forall|x: &I::Item, y: &I::Item| #[trigger] cmp.requires((x, y)),
        forall|x: &I::Item, y: &I::Item, o: Ordering| #[trigger] cmp.ensures((x, y), o) ==> (o is Less) == (x.rk() < y.rk()) && (o is Greater) == (x.rk() > y.rk()),
    ensures final(self).wf(), ({
        let (a, b) = (old(self).left(), old(self).right());
        let l = a.len() > 0 && (b.len() == 0 || a[0].rk() <= b[0].rk());
        let u = b.len() > 0 && (a.len() == 0 || b[0].rk() <= a[0].rk());
        &&& r.0 == if l { Some(a[0]) } else { None }
        &&& r.1 == if u { Some(b[0]) } else { None }
        &&& final(self).left() == if l { a.skip(1) } else { a }
        &&& final(self).right() == if u { b.skip(1) } else { b }
    }),
//@ raw
}
impl<I: PExact> MergeIterInner<I> where I::Item: Ranked {
//@ fn merge_iter.rs MergeIterInner::lens
//@ props C14
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.0 == self.left().len(), r.1 == self.right().len(),
//@ raw
}
impl<I: PIter> Peeked<I> where I::Item: Value {
//@ fn merge_iter.rs Peeked::Clone::clone
//@ props C14
//@ params self
//@ ret r
//@ spec
    ensures r == *self,
//@ raw
}
impl<I: PIter> Value for Option<Peeked<I>> where I::Item: Value { fn clone(&self) -> (r: Self) { match self { Some(p) => Some(Peeked::<I>::clone(p)), None => None } } }
impl<I: PIter + Value> MergeIterInner<I> where I::Item: Value {
//@ fn merge_iter.rs MergeIterInner::Clone::clone
//@ props C14
//@ params self
//@ ret r
//@ spec
    ensures r == *self,
//@ raw
}
proof fn both_in<T: Ranked>(a: Seq<T>, b: Seq<T>)
    requires up(a), up(b),
    ensures up(both(a, b)), forall|x: real| #[trigger] ranked_in(both(a, b), x) == (ranked_in(a, x) || ranked_in(b, x)),
        both(a, b).len() >= a.len(), both(a, b).len() >= b.len(), both(a, b).len() <= a.len() + b.len(),
    decreases a.len() + b.len(),
{
    if a.len() == 0 { assert forall|x: real| ranked_in(a, x) implies false by {} }
    else if b.len() == 0 { assert forall|x: real| ranked_in(b, x) implies false by {} }
    else {
        let first = if b[0].rk() < a[0].rk() { b[0] } else { a[0] };
        let a2 = if b[0].rk() < a[0].rk() { a } else { a.skip(1) };
        let b2 = if a[0].rk() < b[0].rk() { b } else { b.skip(1) };
        both_in(a2, b2);
        let s = both(a2, b2);
        assert(both(a, b) =~= seq![first] + s);
        tail_in(a);
        tail_in(b);
        one_in(first, s);
        assert forall|j: int| 0 <= j < s.len() implies first.rk() < (#[trigger] s[j]).rk() by {
            let x = s[j].rk();
            assert(ranked_in(s, x));
            if ranked_in(a2, x) { let k = choose|k: int| 0 <= k < a2.len() && (#[trigger] a2[k]).rk() == x; if a2 == a { assert(a[0].rk() <= x); } else { assert(a2[k] == a[k + 1]); } }
            else { let k = choose|k: int| 0 <= k < b2.len() && (#[trigger] b2[k]).rk() == x; if b2 == b { assert(b[0].rk() <= x); } else { assert(b2[k] == b[k + 1]); } }
        }
        assert forall|i: int, j: int| 0 <= i < j < both(a, b).len() implies (#[trigger] both(a, b)[i]).rk() < (#[trigger] both(a, b)[j]).rk() by {
            assert(both(a, b)[j] == s[j - 1]);
            if i > 0 { assert(both(a, b)[i] == s[i - 1]); }
        }
    }
}
proof fn tail_in<T: Ranked>(a: Seq<T>)
    requires a.len() > 0, up(a),
    ensures up(a.skip(1)), forall|x: real| #[trigger] ranked_in(a, x) == (x == a[0].rk() || ranked_in(a.skip(1), x)),
{
    assert forall|x: real| #[trigger] ranked_in(a, x) == (x == a[0].rk() || ranked_in(a.skip(1), x)) by {
        if ranked_in(a, x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).rk() == x; if i > 0 { assert(a.skip(1)[i - 1] == a[i]); } }
        if ranked_in(a.skip(1), x) { let i = choose|i: int| 0 <= i < a.skip(1).len() && (#[trigger] a.skip(1)[i]).rk() == x; assert(a[i + 1] == a.skip(1)[i]); }
        if x == a[0].rk() { let v = a[0]; }
    }
}
proof fn one_in<T: Ranked>(f: T, s: Seq<T>)
    ensures forall|x: real| #[trigger] ranked_in(seq![f] + s, x) == (x == f.rk() || ranked_in(s, x)),
{
    let a = seq![f] + s;
    assert forall|x: real| #[trigger] ranked_in(a, x) == (x == f.rk() || ranked_in(s, x)) by {
        if ranked_in(a, x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).rk() == x; if i > 0 { assert(s[i - 1] == a[i]); } }
        if ranked_in(s, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).rk() == x; assert(a[i + 1] == s[i]); }
        if x == f.rk() { assert(a[0] == f); }
    }
}
/// references to what a sequence holds
pub open spec fn refs<'a, K>(ks: Seq<K>) -> Seq<&'a K> { Seq::new(ks.len(), |i: int| &ks[i]) }
impl AugClone for () { fn clone(&self) -> (r: Self) { () } }
/// the augmentation that is none
impl<K: Key, V> Augmentation<K, V> for () {
    open spec fn leaf_spec(keys: Seq<K>, values: Seq<V>) -> Self { () }
    open spec fn inner_spec(keys: Seq<K>, augs: Seq<Self>) -> Self { () }
    open spec fn default_spec() -> Self { () }
    open spec fn value_free() -> bool { true }
    proof fn value_free_ok(keys: Seq<K>, a: Seq<V>, b: Seq<V>) {}
    fn default() -> (r: Self) { () }
//@ fn augment/mod.rs ()::Augmentation::from_leaf
//@ props C14
//@ opt traitfn
//@ params keys values
//@ ret r
//@ spec
//@ fn augment/mod.rs ()::Augmentation::from_inner
//@ props C14
//@ opt traitfn
//@ params keys augs
//@ ret r
//@ spec
//@ raw
}
//@ struct set.rs/iter SetIter
//@ generics <'a, K: Key>
//@ struct set.rs/iter Union
//@ generics <'a, K: Key>
//@ struct set.rs/iter SetIntoIter
//@ generics <K: Key>
//@ struct set.rs BPlusTreeSet
//@ generics <K: Key>
//@ raw
/// without the least key
proof fn keys_rest<K: Key, V>(m: Map<real, (K, V)>, x: real)
    requires keyed(m), is_min(m, x),
    ensures keys(m).len() > 0, keys(m)[0] == m[x].0, keys(m.remove(x)) == keys(m).skip(1), keyed(m.remove(x)),
{
    listed(m);
    let m2 = m.remove(x);
    assert forall|y: real| #[trigger] m2.contains_key(y) implies m2[y].0.ord() == y by { assert(m.contains_key(y)); }
    listed(m2);
    let (a, b) = (keys(m), keys(m2));
    assert(hask(a, x));
    let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).ord() == x;
    if i > 0 { assert(a[0].ord() < a[i].ord()); assert(m.contains_key(a[0].ord())); }
    let t = a.skip(1);
    assert forall|p: int, q: int| 0 <= p < q < t.len() implies (#[trigger] t[p]).ord() < (#[trigger] t[q]).ord() by { assert(t[p] == a[p + 1] && t[q] == a[q + 1]); }
    assert forall|j: int| 0 <= j < t.len() implies b.contains(#[trigger] t[j]) by {
        let k = a[j + 1];
        assert(a[0].ord() < a[j + 1].ord());
        assert(m2.contains_key(k.ord()));
        assert(hask(b, k.ord()));
        let q = choose|q: int| 0 <= q < b.len() && (#[trigger] b[q]).ord() == k.ord();
        assert(b[q] == k);
    }
    assert forall|j: int| 0 <= j < b.len() implies t.contains(#[trigger] b[j]) by {
        let k = b[j];
        assert(m2.contains_key(k.ord()));
        assert(m.contains_key(k.ord()));
        assert(hask(a, k.ord()));
        let q = choose|q: int| 0 <= q < a.len() && (#[trigger] a[q]).ord() == k.ord();
        assert(a[q] == k && q > 0);
        assert(t[q - 1] == k);
    }
    same_list(t, b);
}
proof fn rng_keyed<K: Key, V>(m: Map<real, (K, V)>, lo: real, hi: real)
    requires keyed(m),
    ensures keyed(rng(m, lo, hi)), lists(rng(m, lo, hi), keys(rng(m, lo, hi))),
{
    rng_next(m, lo, hi);
    let r = rng(m, lo, hi);
    assert forall|x: real| #[trigger] r.contains_key(x) implies r[x].0.ord() == x by { assert(m.contains_key(x)); }
    listed(r);
}
impl<'a, K: Key + 'a> PIter for SetIter<'a, K> {
    type Item = &'a K;
    open spec fn rest(&self) -> Seq<&'a K> { refs(keys(self.inner.rem())) }
    open spec fn ok(&self) -> bool { self.inner.wf() }
//@ fn set.rs/iter SetIter::Iterator::next
//@ props C04 C14
//@ opt traitfn
//@ params self
//@ ret r
//@ spec
//@ at start
    proof {
        tree_keyed(self.inner.tree.im(), self.inner.tree.lm(), self.inner.tree.gg(), self.inner.tree.m());
        rng_keyed(self.inner.tree.m(), self.inner.lo(), self.inner.hi());
        assert forall|x: real| #[trigger] is_min(self.inner.rem(), x) implies keys(self.inner.rem()).len() > 0 && keys(self.inner.rem())[0] == self.inner.rem()[x].0
            && keys(self.inner.rem().remove(x)) == keys(self.inner.rem()).skip(1) && refs(keys(self.inner.rem())).skip(1) =~= refs(keys(self.inner.rem()).skip(1)) by { keys_rest(self.inner.rem(), x); }
    }
//@ raw
}
impl<'a, K: Key + 'a> PExact for SetIter<'a, K> {
    /// `ExactSizeIterator::len`, as the standard library defines it
    fn len(&self) -> (r: usize) {
        proof {
            tree_keyed(self.inner.tree.im(), self.inner.tree.lm(), self.inner.tree.gg(), self.inner.tree.m());
            rng_keyed(self.inner.tree.m(), self.inner.lo(), self.inner.hi());
        }
        self.size_hint().0
    }
}
impl<'a, K: Key + 'a> SetIter<'a, K> {
//@ fn set.rs/iter SetIter::Iterator::size_hint
//@ props C04 C14
//@ params self
//@ ret r
//@ spec
    requires self.inner.wf(),
    ensures r.0 == self.inner.rem().len(), r.1 == Some(r.0),
//@ fn set.rs/iter SetIter::DoubleEndedIterator::next_back
//@ props C04
//@ params self
//@ ret r
//@ spec
    requires old(self).inner.wf(),
    ensures final(self).inner.wf(), final(self).inner.tree == old(self).inner.tree,
        r is None ==> old(self).inner.rem().len() == 0 && final(self).inner.rem() == old(self).inner.rem(),
        r is Some ==> ({ let x = (r->0).ord(); is_max(old(self).inner.rem(), x) && old(self).inner.rem()[x].0 == *(r->0) && final(self).inner.rem() == old(self).inner.rem().remove(x) }),
//@ raw
}
impl<'a, T: Key + 'a> PIter for Union<'a, T> {
    type Item = &'a T;
    open spec fn rest(&self) -> Seq<&'a T> { both(self.0.left(), self.0.right()) }
    open spec fn ok(&self) -> bool { self.0.wf() && up(self.0.left()) && up(self.0.right()) }
//@ fn set.rs/iter Union::Iterator::next
//@ props C14
//@ opt traitfn
//@ params self
//@ ret r
//@ spec
//@ raw
}
impl<'a, K: Key + 'a> SetIter<'a, K> {
//@ fn set.rs/iter SetIter::Clone::clone
//@ props C04 C14
//@ params self
//@ ret r
//@ spec
    ensures r == *self,
//@ raw
}
impl<'a, K: Key + 'a> Value for SetIter<'a, K> { fn clone(&self) -> (r: Self) { SetIter::<'a, K>::clone(self) } }
impl<'a, T: Key + 'a> Union<'a, T> {
//@ fn set.rs/iter Union::Clone::clone
//@ props C14
//@ params self
//@ ret r
//@ spec
    ensures r == *self,
//@ fn set.rs/iter Union::Iterator::size_hint
//@ props C14
//@ params self
//@ ret r
//@ spec
    requires self.ok(), self.0.left().len() + self.0.right().len() <= usize::MAX,
    ensures r.0 <= self.rest().len(), r.1 is Some, r.1->0 >= self.rest().len(),
//@ at start
    proof { both_in(self.0.left(), self.0.right()); }
//@ fn set.rs/iter Union::Iterator::min
//@ props C14
//@ params self
//@ ret r
//@ spec
    requires self.ok(),
    ensures r == (if self.rest().len() == 0 { None } else { Some(self.rest()[0]) }),
//@ raw
}
// ----------------------- sorting -----------------------------------------------------------------------------
/// a total order given by ranks
pub open spec fn ranks_by<T, F: Fn(&T, &T) -> Ordering>(f: F, rk: spec_fn(T) -> real) -> bool {
    forall|x: &T, y: &T, o: Ordering| #[trigger] f.ensures((x, y), o) ==> (o is Less) == (rk(*x) < rk(*y)) && (o is Greater) == (rk(*x) > rk(*y))
}
/// `b` is `a` in another order: `p` tells where each one was
pub open spec fn arranged<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool {
    &&& a.len() == b.len() == p.len()
    &&& forall|i: int| 0 <= i < b.len() ==> 0 <= #[trigger] p[i] < a.len() && b[i] == a[p[i]]
    &&& forall|j: int| 0 <= j < a.len() ==> p.contains(j)
    &&& p.no_duplicates()
}
pub open spec fn in_order<T>(b: Seq<T>, p: Seq<int>, rk: spec_fn(T) -> real, stable: bool) -> bool {
    forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] rk(b[i]) < #[trigger] rk(b[j]) || (rk(b[i]) == rk(b[j]) && (stable ==> p[i] < p[j]))
}
/// Sorting pairs by their keys.
pub trait VSort<K: Key, V> {
    spec fn all(&self) -> Seq<(K, V)>;
    /// `slice::sort_by`: stable
    fn vsort_by<F: Fn(&(K, V), &(K, V)) -> Ordering>(&mut self, f: F)
        requires forall|x: &(K, V), y: &(K, V)| #[trigger] f.requires((x, y)), ranks_by(f, key_rank::<K, V>()),
        ensures exists|p: Seq<int>| #[trigger] arranged(old(self).all(), final(self).all(), p) && in_order(final(self).all(), p, key_rank::<K, V>(), true);
    /// `slice::sort_unstable_by`
    fn vsort_unstable_by<F: Fn(&(K, V), &(K, V)) -> Ordering>(&mut self, f: F)
        requires forall|x: &(K, V), y: &(K, V)| #[trigger] f.requires((x, y)), ranks_by(f, key_rank::<K, V>()),
        ensures exists|p: Seq<int>| #[trigger] arranged(old(self).all(), final(self).all(), p) && in_order(final(self).all(), p, key_rank::<K, V>(), false);
}
impl<K: Key, V> VSort<K, V> for Vec<(K, V)> {
    open spec fn all(&self) -> Seq<(K, V)> { self@ }
    #[verifier::external_body]
    fn vsort_by<F: Fn(&(K, V), &(K, V)) -> Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn vsort_unstable_by<F: Fn(&(K, V), &(K, V)) -> Ordering>(&mut self, f: F) { unimplemented!() }
}
impl<T> DataIter<T> {
    /// `Iterator::collect` into a vector
    #[verifier::external_body]
    pub fn vcollect(self) -> (r: Vec<T>) ensures r@ == self.rest@ { unimplemented!() }
    /// `Iterator::map`, then `collect` into a vector
    #[verifier::external_body]
    pub fn vmap_collect<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures r@.len() == self.rest@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self.rest@[i],), #[trigger] r@[i]),
    { unimplemented!() }
}
pub open spec fn key_rank<K: Key, V>() -> spec_fn((K, V)) -> real { |e: (K, V)| e.0.ord() }
/// where the last with the rank is
pub open spec fn last_at<K: Key, V>(s: Seq<(K, V)>, x: real, i: int) -> bool {
    0 <= i < s.len() && s[i].0.ord() == x && forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0.ord() != x
}
proof fn last_there<K: Key, V>(s: Seq<(K, V)>, x: real, n: int)
    requires 0 <= n < s.len(), s[n].0.ord() == x,
    ensures exists|i: int| last_at(s, x, i),
    decreases s.len() - n,
{
    if forall|j: int| n < j < s.len() ==> (#[trigger] s[j]).0.ord() != x { assert(last_at(s, x, n)); }
    else { let j = choose|j: int| n < j < s.len() && (#[trigger] s[j]).0.ord() == x; last_there(s, x, j); }
}
/// what a sequence of pairs makes: for each key there, the last pair with it
proof fn mkf_last<K: Key, V>(b: Map<real, (K, V)>, s: Seq<(K, V)>, x: real)
    ensures (exists|i: int| last_at(s, x, i)) ==> mkf(b, s).contains_key(x), forall|i: int| #[trigger] last_at(s, x, i) ==> mkf(b, s)[x] == s[i] && mkf(b, s).contains_key(x),
        (forall|i: int| !last_at(s, x, i)) ==> mkf(b, s).contains_key(x) == b.contains_key(x) && (b.contains_key(x) ==> mkf(b, s)[x] == b[x]),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        let b1 = b.insert(s[0].0.ord(), s[0]);
        mkf_last(b1, t, x);
        assert forall|i: int| #[trigger] last_at(s, x, i) implies mkf(b, s).contains_key(x) && mkf(b, s)[x] == s[i] by {
            if i > 0 {
                assert(t[i - 1] == s[i]);
                assert forall|j: int| i - 1 < j < t.len() implies (#[trigger] t[j]).0.ord() != x by { assert(t[j] == s[j + 1]); }
                assert(last_at(t, x, i - 1));
            } else {
                assert forall|k: int| !last_at(t, x, k) by { if last_at(t, x, k) { assert(t[k] == s[k + 1]); } }
            }
        }
        if forall|i: int| !last_at(s, x, i) {
            if s[0].0.ord() == x { last_there(s, x, 0); }
            assert forall|k: int| !last_at(t, x, k) by { if last_at(t, x, k) { assert(t[k] == s[k + 1]); last_there(s, x, k + 1); } }
        }
    }
}
pub open spec fn some_key<K: Key>(s: Seq<K>, x: real) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ord() == x }
pub open spec fn paired<K: Key>(s: Seq<K>, a: Seq<(K, ())>) -> bool { s.len() == a.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] a[i] == (s[i], ()) }
proof fn paired_in<K: Key>(s: Seq<K>, a: Seq<(K, ())>)
    requires paired(s, a),
    ensures forall|x: real| #[trigger] key_in(a, x) == some_key(s, x),
{
    assert forall|x: real| #[trigger] key_in(a, x) == some_key(s, x) by {
        if some_key(s, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ord() == x; assert(a[i] == (s[i], ())); }
        if key_in(a, x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0.ord() == x; }
    }
}
pub open spec fn key_in<K: Key, V>(s: Seq<(K, V)>, x: real) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.ord() == x }
proof fn mk_has<K: Key, V>(s: Seq<(K, V)>)
    ensures forall|x: real| #[trigger] mk(s).contains_key(x) == key_in(s, x),
{
    assert forall|x: real| #[trigger] mk(s).contains_key(x) == key_in(s, x) by {
        mkf_last(Map::empty(), s, x);
        if key_in(s, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.ord() == x; last_there(s, x, i); }
        else { assert forall|i: int| !last_at(s, x, i) by { } }
    }
}
proof fn sorted_up<K: Key, V>(a: Seq<(K, V)>, b: Seq<(K, V)>, p: Seq<int>, stable: bool)
    requires arranged(a, b, p), in_order(b, p, key_rank::<K, V>(), stable),
    ensures nondec(b), forall|x: real| #[trigger] key_in(a, x) == key_in(b, x),
{
    let rk = key_rank::<K, V>();
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0.ord() <= (#[trigger] b[j]).0.ord() by { assert(rk(b[i]) <= rk(b[j])); }
    assert forall|x: real| #[trigger] key_in(a, x) == key_in(b, x) by {
        if key_in(a, x) {
            let j = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0.ord() == x;
            assert(p.contains(j));
            let k = choose|k: int| 0 <= k < p.len() && p[k] == j;
            assert(b[k] == a[j]);
        }
        if key_in(b, x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0.ord() == x; assert(a[p[i]] == b[i]); }
    }
}
/// the references to the keys there, in order
proof fn refs_up<'a, K: Key, V>(m: Map<real, (K, V)>)
    requires keyed(m),
    ensures up(refs::<'a, K>(keys(m))), refs::<'a, K>(keys(m)).len() == m.len(), forall|x: real| #[trigger] ranked_in(refs::<'a, K>(keys(m)), x) == m.contains_key(x),
{
    listed(m);
    let ks = keys(m);
    let s = refs::<'a, K>(ks);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).rk() < (#[trigger] s[j]).rk() by { assert(ks[i].ord() < ks[j].ord()); }
    assert forall|x: real| #[trigger] ranked_in(s, x) == m.contains_key(x) by {
        if ranked_in(s, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).rk() == x; assert(ks[i].ord() == x); assert(m.contains_key(ks[i].ord())); }
        if m.contains_key(x) { assert(hask(ks, x)); let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).ord() == x; assert(s[i].rk() == x); }
    }
}
/// sorting that keeps the order of equal keys does not change what is made
proof fn sorted_makes_the_same<K: Key, V>(a: Seq<(K, V)>, b: Seq<(K, V)>, p: Seq<int>)
    requires arranged(a, b, p), in_order(b, p, key_rank::<K, V>(), true),
    ensures mk(a) == mk(b), nondec(b),
{
    let rk = key_rank::<K, V>();
    assert forall|x: real| #![trigger mk(a).contains_key(x)] #![trigger mk(a)[x]] mk(a).contains_key(x) == mk(b).contains_key(x) && (mk(a).contains_key(x) ==> mk(a)[x] == mk(b)[x]) by {
        mkf_last(Map::empty(), a, x);
        mkf_last(Map::empty(), b, x);
        if exists|i: int| last_at(b, x, i) {
            let i = choose|i: int| last_at(b, x, i);
            assert(last_at(a, x, p[i])) by {
                assert forall|j: int| p[i] < j < a.len() implies (#[trigger] a[j]).0.ord() != x by {
                    assert(p.contains(j));
                    let k = choose|k: int| 0 <= k < p.len() && p[k] == j;
                    assert(b[k] == a[j]);
                    if b[k].0.ord() == x { assert(k < i); assert(rk(b[k]) == rk(b[i])); }
                }
            }
        } else if exists|j: int| last_at(a, x, j) {
            let j = choose|j: int| last_at(a, x, j);
            assert(p.contains(j));
            let k = choose|k: int| 0 <= k < p.len() && p[k] == j;
            assert(b[k] == a[j]);
            last_there(b, x, k);
        }
    }
    assert(mk(a) =~= mk(b));
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0.ord() <= (#[trigger] b[j]).0.ord() by { assert(rk(b[i]) <= rk(b[j])); }
}
impl<K: Key> SetIntoIter<K> {
//@ fn set.rs/iter SetIntoIter::Iterator::size_hint
//@ props C05
//@ params self
//@ ret r
//@ spec
    requires self.inner.wf(),
    ensures r.0 == self.inner.rem().len(), r.1 == Some(r.0),
//@ fn set.rs/iter SetIntoIter::Iterator::next
//@ props C05
//@ params self
//@ ret r
//@ spec
    requires old(self).inner.wf(),
        old(self).inner.owns(), //[C12]
    ensures final(self).inner.wf(), final(self).inner.s == old(self).inner.s,
        final(self).inner.owns(), //[C12]
        r is None ==> old(self).inner.rem().len() == 0 && final(self).inner.rem() == old(self).inner.rem(),
        r is Some ==> ({ let x = (r->0).ord(); is_min(old(self).inner.rem(), x) && old(self).inner.rem()[x].0 == r->0 && final(self).inner.rem() == old(self).inner.rem().remove(x) }),
//@ fn set.rs/iter SetIntoIter::DoubleEndedIterator::next_back
//@ props C05
//@ params self
//@ ret r
//@ spec
    requires old(self).inner.wf(),
        old(self).inner.owns(), //[C12]
    ensures final(self).inner.wf(), final(self).inner.s == old(self).inner.s,
        final(self).inner.owns(), //[C12]
        r is None ==> old(self).inner.rem().len() == 0 && final(self).inner.rem() == old(self).inner.rem(),
        r is Some ==> ({ let x = (r->0).ord(); is_max(old(self).inner.rem(), x) && old(self).inner.rem()[x].0 == r->0 && final(self).inner.rem() == old(self).inner.rem().remove(x) }),
//@ raw
}
impl<K: Key> BPlusTreeSet<K> {
    pub open spec fn wf(&self) -> bool { self.tree.wf() }
    /// the members, ascending
    pub open spec fn members(&self) -> Seq<K> { keys(self.tree.m()) }
    pub open spec fn has(&self, x: real) -> bool { self.tree.m().contains_key(x) }
//@ fn set.rs BPlusTreeSet::new
//@ props C02
//@ ret r
//@ spec
    ensures r.wf(), forall|x: real| !r.has(x), r.tree.gg().h == 0, r.tree.gg().fresh,
//@ fn set.rs BPlusTreeSet::Default::default
//@ props C02
//@ ret r
//@ spec
    ensures r.wf(), forall|x: real| !r.has(x), r.tree.gg().h == 0, r.tree.gg().fresh,
//@ fn set.rs BPlusTreeSet::len
//@ props C02 C03 C06
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == self.tree.m().len(),
//@ fn set.rs BPlusTreeSet::is_empty
//@ props C02 C03 C06
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == (self.tree.m().len() == 0),
//@ fn set.rs BPlusTreeSet::insert
//@ props C02
//@ params self k
//@ ret r
//@ spec
    requires old(self).wf(), old(self).tree.len < usize::MAX,
    ensures final(self).wf(), r == !old(self).has(k.ord()), forall|x: real| final(self).has(x) == (x == k.ord() || old(self).has(x)), //[C02]
//@ fn set.rs BPlusTreeSet::remove
//@ props C03
//@ params self k
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), r == old(self).has(k.ord()), forall|x: real| final(self).has(x) == (x != k.ord() && old(self).has(x)), //[C03]
//@ fn set.rs BPlusTreeSet::contains
//@ props C01
//@ params self k
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == self.has(k.ord()),
//@ fn set.rs BPlusTreeSet::clear
//@ props C15
//@ params self
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), forall|x: real| !final(self).has(x),
//@ fn set.rs BPlusTreeSet::first
//@ props C04
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures (r is None) == (self.tree.m().len() == 0), r is Some ==> is_min(self.tree.m(), (r->0).ord()) && self.tree.m()[(r->0).ord()].0 == *(r->0),
//@ fn set.rs BPlusTreeSet::last
//@ props C04
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures (r is None) == (self.tree.m().len() == 0), r is Some ==> is_max(self.tree.m(), (r->0).ord()) && self.tree.m()[(r->0).ord()].0 == *(r->0),
//@ fn set.rs BPlusTreeSet::iter
//@ props C04
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.ok(), r.rest() == refs(self.members()), r.inner.tree == &self.tree,
//@ fn set.rs BPlusTreeSet::union
//@ props C14
//@ params self other
//@ ret r
//@ spec
    requires self.wf(), other.wf(),
    ensures r.ok(), r.rest() == both(refs(self.members()), refs(other.members())),
        up(r.rest()), forall|x: real| #[trigger] ranked_in(r.rest(), x) == (self.has(x) || other.has(x)),
//@ at start
    proof {
        tree_keyed(self.tree.im(), self.tree.lm(), self.tree.gg(), self.tree.m());
        tree_keyed(other.tree.im(), other.tree.lm(), other.tree.gg(), other.tree.m());
        refs_up::<K, ()>(self.tree.m());
        refs_up::<K, ()>(other.tree.m());
        both_in::<&'a K>(refs(self.members()), refs(other.members()));
    }
//@ fn set.rs BPlusTreeSet::IntoIterator::into_iter
//@ props C05
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.inner.wf(), r.inner.s@ == self.tree.src(), r.inner.rem() == self.tree.m(),
        r.inner.owns(), //[C12]
//@ fn set.rs BPlusTreeSet::FromIterator::from_iter
//@ props C06
//@ opt data
//@ params iter
//@ ret r
//@ generics <T: IntoData<K>>
//@ closure 0 |k: K| -> (e: (K, ())) ensures e == (k, ())
//@ closure 1 |x: &(K, ()), y: &(K, ())| -> (o: Ordering) ensures (o is Less) == (x.0.ord() < y.0.ord()), (o is Greater) == (x.0.ord() > y.0.ord())
//@ spec
    ensures r.wf(), r.tree.gg().fresh, forall|x: real| #[trigger] r.has(x) == some_key(iter.items(), x),
//@ at start
    let ghost all = iter.items();
//@ at before call bulk_load#0
    proof {
        assert forall|a: Seq<(K, ())>, p: Seq<int>, u: bool| #[trigger] arranged(a, items@, p) && #[trigger] in_order(items@, p, key_rank::<K, ()>(), u) && paired(all, a) implies nondec(items@)
            && forall|x: real| #[trigger] key_in(items@, x) == some_key(all, x) by {
            sorted_up(a, items@, p, u);
            paired_in(all, a);
            assert forall|x: real| #[trigger] key_in(items@, x) == some_key(all, x) by { assert(key_in(a, x) == some_key(all, x)); }
        }
        mk_has(items@);
    }
//@ raw
}
