//@ raw
// ======================= iterators ==================================================================

/// the entries with keys in [lo, hi)
pub open spec fn rng<K: Key, V>(m: Map<real, (K, V)>, lo: real, hi: real) -> Map<real, (K, V)> { m.restrict(m.dom().filter(|x: real| lo <= x && x < hi)) }
/// taking the least (greatest) entry leaves the rest
pub proof fn rng_next<K: Key, V>(m: Map<real, (K, V)>, lo: real, hi: real)
    ensures
        forall|x: real| #[trigger] rng(m, lo, hi).contains_key(x) <==> m.contains_key(x) && lo <= x < hi,
        forall|x: real| m.contains_key(x) && lo <= x < hi ==> #[trigger] rng(m, lo, hi)[x] == m[x],
        rng(m, lo, hi).len() == 0 <==> forall|x: real| #[trigger] m.contains_key(x) ==> !(lo <= x < hi),
        m.contains_key(lo) && lo < hi <= 1real ==> is_min(rng(m, lo, hi), lo) && forall|y: real| is_next(m, lo, y) || (y == 1real && forall|z: real| #[trigger] m.contains_key(z) ==> z <= lo)
            ==> #[trigger] rng(m, y, hi) == rng(m, lo, hi).remove(lo) && rng(m, y, hi).len() + 1 == rng(m, lo, hi).len(),
        lo < hi <= 1real ==> forall|y: real| is_prev(m, hi, y) && lo <= y ==> is_max(rng(m, lo, hi), y) && #[trigger] rng(m, lo, y) == rng(m, lo, hi).remove(y) && rng(m, lo, y).len() + 1 == rng(m, lo, hi).len(),
{
    let s = rng(m, lo, hi);
    if s.len() == 0 { assert(s =~= Map::<real, (K, V)>::empty()); }
    else {
        let x = s.dom().choose();
        assert(s.dom().contains(x)) by { if forall|y: real| !s.dom().contains(y) { assert(s.dom() =~= Set::empty()); } }
        assert(s.contains_key(x));
    }
    assert forall|x: real| #[trigger] m.contains_key(x) && lo <= x < hi implies s.len() != 0 by { assert(s.contains_key(x)); if s.len() == 0 { assert(s =~= Map::<real, (K, V)>::empty()); } }
    if m.contains_key(lo) && lo < hi <= 1real {
        assert forall|y: real| is_next(m, lo, y) || (y == 1real && forall|z: real| #[trigger] m.contains_key(z) ==> z <= lo)
            implies #[trigger] rng(m, y, hi) == s.remove(lo) && rng(m, y, hi).len() + 1 == s.len() by {
            assert(rng(m, y, hi) =~= s.remove(lo)) by { assert forall|z: real| #[trigger] rng(m, y, hi).contains_key(z) == s.remove(lo).contains_key(z) by {} }
        }
    }
    if lo < hi <= 1real {
        assert forall|y: real| is_prev(m, hi, y) && lo <= y implies is_max(s, y) && #[trigger] rng(m, lo, y) == s.remove(y) && rng(m, lo, y).len() + 1 == s.len() by {
            assert(rng(m, lo, y) =~= s.remove(y)) by { assert forall|z: real| #[trigger] rng(m, lo, y).contains_key(z) == s.remove(y).contains_key(z) by {} }
        }
    }
}
/// the whole map
pub proof fn rng_all<K: Key, V, A: Augmentation<K, V>>(t: &BPlusTree<K, V, A>)
    requires t.wf(),
    ensures
        forall|x: real| #[trigger] t.m().contains_key(x) ==> 0real < x < 1real,
        forall|lo: real| (forall|x: real| #[trigger] t.m().contains_key(x) ==> lo <= x) ==> #[trigger] rng(t.m(), lo, 1real) == t.m(),
{
    assert forall|lo: real| (forall|x: real| #[trigger] t.m().contains_key(x) ==> lo <= x) implies #[trigger] rng(t.m(), lo, 1real) == t.m() by { assert(rng(t.m(), lo, 1real) =~= t.m()); }
}
/// how the entries follow each other, seen from a leaf
pub open spec fn walk<K: Key, V>(lm: LM<K, V>, m: Map<real, (K, V)>, l: LeafNode<K, V>) -> bool {
    &&& l.wf() && (m.len() > 0 ==> l.size > 0)
    &&& forall|p: int| #![trigger l.vs()[p]] 0 <= p < l.size ==> ({
            let x = l.ks()[p].ord();
            &&& m.contains_key(x) && m[x] == (l.ks()[p], l.vs()[p])
            &&& p + 1 < l.size ==> is_next(m, x, l.ks()[p + 1].ord())
            &&& p > 0 ==> is_prev(m, x, l.ks()[p - 1].ord())
            &&& p + 1 == l.size ==> match l.next { None => forall|z: real| #[trigger] m.contains_key(z) ==> z <= x, Some(n) => lm.contains_key(n) && lm[n].size > 0 && is_next(m, x, lm[n].ks()[0].ord()) }
            &&& p == 0 ==> match l.prev { None => forall|z: real| #[trigger] m.contains_key(z) ==> z >= x, Some(n) => lm.contains_key(n) && lm[n].size > 0 && is_prev(m, x, lm[n].ks()[lm[n].size - 1].ord()) }
        })
}
pub proof fn walks<K: Key, V, A: Augmentation<K, V>>(t: &BPlusTree<K, V, A>)
    requires t.wf(),
    ensures forall|id: LeafNodeId| #[trigger] t.lm().contains_key(id) ==> walk(t.lm(), t.m(), t.lm()[id]),
{
    let (im, lm, g, m) = (t.im(), t.lm(), t.gg(), t.m());
    assert forall|id: LeafNodeId| #[trigger] lm.contains_key(id) implies walk(lm, m, lm[id]) by {
        let l = lm[id];
        assert(leaf_ok(lm, g, m, id));
        leaf_sorted(lm, g, m, id);
        if m.len() > 0 { leaf_filled(im, lm, g, m, id); }
        assert forall|p: int| #![trigger l.vs()[p]] 0 <= p < l.size implies ({
            let x = l.ks()[p].ord();
            &&& m.contains_key(x) && m[x] == (l.ks()[p], l.vs()[p])
            &&& p + 1 < l.size ==> is_next(m, x, l.ks()[p + 1].ord())
            &&& p > 0 ==> is_prev(m, x, l.ks()[p - 1].ord())
            &&& p + 1 == l.size ==> match l.next { None => forall|z: real| #[trigger] m.contains_key(z) ==> z <= x, Some(n) => lm.contains_key(n) && lm[n].size > 0 && is_next(m, x, lm[n].ks()[0].ord()) }
            &&& p == 0 ==> match l.prev { None => forall|z: real| #[trigger] m.contains_key(z) ==> z >= x, Some(n) => lm.contains_key(n) && lm[n].size > 0 && is_prev(m, x, lm[n].ks()[lm[n].size - 1].ord()) }
        }) by {
            let x = l.ks()[p].ord();
            leaf_entry(lm, g, m, id, p);
            next_key(im, lm, g, m, id, x);
            if p + 1 < l.size { let v = l.vs()[p + 1]; assert(x < l.ks()[p + 1].ord()); }
            if p > 0 { let v = l.vs()[p - 1]; assert(l.ks()[p - 1].ord() < x); }
        }
    }
}
pub open spec fn in_tree<K: Key, V>(lm: LM<K, V>, l: LeafNode<K, V>) -> bool { exists|id: LeafNodeId| #[trigger] lm.contains_key(id) && lm[id] == l }
//@ struct tree/iterator.rs Iter
//@ raw
impl<'a, K: Key, V, A: Augmentation<K, V>> Iter<'a, K, V, A> {
    /// the bounds of what is left
    pub open spec fn lo(&self) -> real { match self.leaf { None => 1real, Some(l) => if self.leaf_offset < l.size { l.ks()[self.leaf_offset as int].ord() } else { 1real } } }
    pub open spec fn hi(&self) -> real { match self.end { None => 1real, Some(e) => e.0.ks()[e.1 as int].ord() } }
    /// the entries that have not been returned
    pub open spec fn rem(&self) -> Map<real, (K, V)> { rng(self.tree.m(), self.lo(), self.hi()) }
    pub open spec fn wf(&self) -> bool {
        &&& self.tree.wf()
        &&& self.len == self.rem().len()
        &&& self.leaf is Some ==> in_tree(self.tree.lm(), *self.leaf->0)
        &&& self.end is Some ==> in_tree(self.tree.lm(), *(self.end->0).0) && (self.end->0).1 < (self.end->0).0.size
    }
    /// what the functions below need to know of the tree
    pub proof fn known(&self)
        requires self.wf(),
        ensures forall|id: LeafNodeId| #[trigger] self.tree.lm().contains_key(id) ==> walk(self.tree.lm(), self.tree.m(), self.tree.lm()[id]),
            self.hi() <= 1real, self.hi() < 1real ==> self.end is Some && self.tree.m().contains_key(self.hi()),
    {
        walks(self.tree); rng_all(self.tree);
        if self.end is Some { let v = (self.end->0).0.vs()[(self.end->0).1 as int]; }
    }
//@ fn tree/iterator.rs Iter::new
//@ props C04
//@ params tree
//@ ret r
//@ spec
    requires tree.wf(),
    ensures r.wf(), r.tree == tree, r.rem() == tree.m(),
//@ at start
    proof { rng_all(tree); end_leaves(tree); walks(tree); }
//@ fn tree/iterator.rs Iter::Iterator::size_hint
//@ props C04
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.0 == self.rem().len(), r.1 == Some(r.0),
//@ fn tree/iterator.rs Iter::Iterator::next
//@ props C04
//@ params self
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).tree == old(self).tree,
        r is None ==> old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
        r is Some ==> ({ let x = (r->0).0.ord(); is_min(old(self).rem(), x) && old(self).rem()[x] == (*(r->0).0, *(r->0).1) && final(self).rem() == old(self).rem().remove(x) }),
//@ at start
    proof { self.known(); rng_all(self.tree); rng_next(self.tree.m(), self.lo(), self.hi()); }
//@ fn tree/iterator.rs Iter::DoubleEndedIterator::next_back
//@ props C04
//@ params self
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).tree == old(self).tree,
        r is None ==> old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
        r is Some ==> ({ let x = (r->0).0.ord(); is_max(old(self).rem(), x) && old(self).rem()[x] == (*(r->0).0, *(r->0).1) && final(self).rem() == old(self).rem().remove(x) }),
//@ at start
    proof { self.known(); rng_all(self.tree); rng_next(self.tree.m(), self.lo(), self.hi()); end_leaves(self.tree); }
//@ raw
}
