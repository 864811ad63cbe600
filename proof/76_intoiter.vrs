//@ raw
// ======================= the consuming iterator =====================================================

/// the tree the iterator has been made from
pub ghost struct Src<K, V, A> { pub im: IM<K, A>, pub lm: LM<K, V>, pub g: G, pub m: Map<real, (K, V)> }
impl<K: Key, V, A: Augmentation<K, V>> BPlusTree<K, V, A> {
    pub open spec fn src(&self) -> Src<K, V, A> { Src { im: self.im(), lm: self.lm(), g: self.gg(), m: self.m() } }
}
impl<K: Key, V, A: Augmentation<K, V>> Src<K, V, A> {
    pub open spec fn wf(&self) -> bool { tree(self.im, self.lm, self.g, self.m) && settled(self.g) }
    /// where the keys from position p on begin
    pub open spec fn at(&self, p: (LeafNodeId, usize)) -> real { if p.1 < self.lm[p.0].size { self.lm[p.0].ks()[p.1 as int].ord() } else { self.g.rg[NodeId::Leaf(p.0)].hi } }
    pub open spec fn is_leaf(&self, id: LeafNodeId) -> bool { self.g.rg.contains_key(NodeId::Leaf(id)) }
}
/// the entries of a leaf, one after the other, and where the leaf ends
pub open spec fn steps<K: Key, V, A: Augmentation<K, V>>(s: Src<K, V, A>, id: LeafNodeId) -> bool {
    let l = s.lm[id];
    let m = s.m;
    &&& s.lm.contains_key(id) && l.wf() && (m.len() > 0 ==> l.size > 0)
    &&& forall|p: int| #![trigger l.ks()[p]] #![trigger l.slot_key@[p]] 0 <= p < l.size ==> m.contains_key(l.ks()[p].ord()) && m[l.ks()[p].ord()] == (l.ks()[p], l.vs()[p]) && l.ks()[p] == l.slot_key@[p].val() && l.vs()[p] == l.slot_value@[p].val()
    &&& forall|p: usize| #![trigger s.at((id, p))] p <= l.size ==> step_at(s, id, p)
}
pub open spec fn step_at<K: Key, V, A: Augmentation<K, V>>(s: Src<K, V, A>, id: LeafNodeId, p: usize) -> bool {
    let l = s.lm[id];
    let m = s.m;
    let y = s.at((id, p));
    let r = s.g.rg[NodeId::Leaf(id)];
    &&& 0real <= y <= 1real
    &&& p < l.size ==> forall|q: usize| q == p + 1 ==> no_between(m, l.ks()[p as int].ord(), #[trigger] s.at((id, q))) && l.ks()[p as int].ord() < s.at((id, q))
    &&& p > 0 ==> is_prev(m, y, l.ks()[p - 1].ord())
    &&& p == l.size ==> y == r.hi && match l.next { None => y == 1real, Some(n) => s.is_leaf(n) && s.lm[n].size > 0 && s.g.rg[NodeId::Leaf(n)].lo == y }
    &&& p == 0 ==> r.lo <= y && no_in(m, r.lo, y) && match l.prev { None => r.lo == 0real, Some(n) => s.is_leaf(n) && s.lm[n].size > 0 && s.g.rg[NodeId::Leaf(n)].hi == r.lo }
}
/// no key strictly between x and y; no key in [x, y)
pub open spec fn no_between<K: Key, V>(m: Map<real, (K, V)>, x: real, y: real) -> bool { forall|z: real| #[trigger] m.contains_key(z) && x < z ==> y <= z }
pub open spec fn no_in<K: Key, V>(m: Map<real, (K, V)>, x: real, y: real) -> bool { forall|z: real| #[trigger] m.contains_key(z) && x <= z ==> y <= z }
/// how what is left changes when the bounds move
pub proof fn rng_moves<K: Key, V>(m: Map<real, (K, V)>, lo: real, hi: real)
    ensures
        forall|x: real| #[trigger] rng(m, lo, hi).contains_key(x) <==> m.contains_key(x) && lo <= x < hi,
        forall|x: real| m.contains_key(x) && lo <= x < hi ==> #[trigger] rng(m, lo, hi)[x] == m[x],
        rng(m, lo, hi).len() == 0 <==> forall|x: real| #[trigger] m.contains_key(x) ==> !(lo <= x < hi),
        forall|y: real| lo <= y && no_in(m, lo, y) ==> #[trigger] rng(m, y, hi) == rng(m, lo, hi),
        forall|y: real| y <= hi && no_in(m, y, hi) ==> #[trigger] rng(m, lo, y) == rng(m, lo, hi),
        m.contains_key(lo) && lo < hi ==> is_min(rng(m, lo, hi), lo) && forall|y: real| lo < y && no_between(m, lo, y)
            ==> #[trigger] rng(m, y, hi) == rng(m, lo, hi).remove(lo) && rng(m, y, hi).len() + 1 == rng(m, lo, hi).len(),
        forall|y: real| is_prev(m, hi, y) && lo <= y ==> is_max(rng(m, lo, hi), y) && #[trigger] rng(m, lo, y) == rng(m, lo, hi).remove(y) && rng(m, lo, y).len() + 1 == rng(m, lo, hi).len(),
{
    rng_next(m, lo, hi);
    let s = rng(m, lo, hi);
    assert forall|y: real| lo <= y && no_in(m, lo, y) implies #[trigger] rng(m, y, hi) == s by { assert(rng(m, y, hi) =~= s); }
    assert forall|y: real| y <= hi && no_in(m, y, hi) implies #[trigger] rng(m, lo, y) == s by { assert(rng(m, lo, y) =~= s) by { assert forall|z: real| #[trigger] rng(m, lo, y).contains_key(z) == s.contains_key(z) by {} } }
    if m.contains_key(lo) && lo < hi {
        assert forall|y: real| lo < y && no_between(m, lo, y) implies #[trigger] rng(m, y, hi) == s.remove(lo) && rng(m, y, hi).len() + 1 == s.len() by {
            assert(rng(m, y, hi) =~= s.remove(lo)) by { assert forall|z: real| #[trigger] rng(m, y, hi).contains_key(z) == s.remove(lo).contains_key(z) by {} }
        }
    }
    assert forall|y: real| is_prev(m, hi, y) && lo <= y implies is_max(s, y) && #[trigger] rng(m, lo, y) == s.remove(y) && rng(m, lo, y).len() + 1 == s.len() by {
        assert(rng(m, lo, y) =~= s.remove(y)) by { assert forall|z: real| #[trigger] rng(m, lo, y).contains_key(z) == s.remove(y).contains_key(z) by {} }
    }
}
pub proof fn all_steps<K: Key, V, A: Augmentation<K, V>>(s: Src<K, V, A>)
    requires s.wf(),
    ensures forall|id: LeafNodeId| #[trigger] s.is_leaf(id) ==> steps(s, id),
{
    assert forall|id: LeafNodeId| #[trigger] s.is_leaf(id) implies steps(s, id) by { one_steps(s, id); }
}
proof fn one_steps<K: Key, V, A: Augmentation<K, V>>(s: Src<K, V, A>, id: LeafNodeId)
    requires s.wf(), s.is_leaf(id),
    ensures steps(s, id),
{
    let (im, lm, g, m) = (s.im, s.lm, s.g, s.m);
    let l = lm[id];
    let r = g.rg[NodeId::Leaf(id)];
    assert(leaf_ok(lm, g, m, id));
    leaf_sorted(lm, g, m, id);
    get_links(g, id, l.prev, l.next);
    if m.len() > 0 { leaf_filled(im, lm, g, m, id); }
    all_linked_full(im, lm, g, m);
    assert forall|p: int| #![trigger l.ks()[p]] #![trigger l.slot_key@[p]] 0 <= p < l.size implies m.contains_key(l.ks()[p].ord()) && m[l.ks()[p].ord()] == (l.ks()[p], l.vs()[p]) && l.ks()[p] == l.slot_key@[p].val() && l.vs()[p] == l.slot_value@[p].val() by { leaf_entry(lm, g, m, id, p); }
    assert forall|p: usize| #![trigger s.at((id, p))] p <= l.size implies step_at(s, id, p) by { one_step(s, id, p); }
}
proof fn one_step<K: Key, V, A: Augmentation<K, V>>(s: Src<K, V, A>, id: LeafNodeId, p: usize)
    requires s.wf(), s.is_leaf(id), p <= s.lm[id].size,
    ensures step_at(s, id, p),
{
    let (im, lm, g, m) = (s.im, s.lm, s.g, s.m);
    let l = lm[id];
    let r = g.rg[NodeId::Leaf(id)];
    let y = s.at((id, p));
    assert(leaf_ok(lm, g, m, id));
    leaf_sorted(lm, g, m, id);
    get_links(g, id, l.prev, l.next);
    if l.next is Some { let n = l.next->0; assert(leaf_ok(lm, g, m, n)); get_links(g, n, lm[n].prev, lm[n].next); linked_full(lm, g, m, n); }
    if l.prev is Some { let n = l.prev->0; assert(leaf_ok(lm, g, m, n)); get_links(g, n, lm[n].prev, lm[n].next); linked_full(lm, g, m, n); }
    if l.size > 0 { range_ends(m, l.ks(), l.vs(), r.lo, r.hi); }
    else { assert forall|z: real| #[trigger] m.contains_key(z) implies !(r.lo <= z < r.hi) by { leaf_has(lm, g, m, id, z); } }
    if p < l.size {
        let x = l.ks()[p as int].ord();
        leaf_entry(lm, g, m, id, p as int);
        assert forall|q: usize| q == p + 1 implies no_between(m, x, #[trigger] s.at((id, q))) && x < s.at((id, q)) by {
            if q < l.size { assert(x < l.ks()[q as int].ord()); range_next_at(m, l.ks(), l.vs(), r.lo, r.hi, x, q as int); }
        }
        if p > 0 { assert(l.ks()[p - 1].ord() < x); range_prev_at(m, l.ks(), l.vs(), r.lo, r.hi, x, p - 1); }
    } else if p > 0 {
        leaf_entry(lm, g, m, id, p - 1);
    }
}
/// one slot for each key
proof fn only_at<K: Key, V, A: Augmentation<K, V>>(s: Src<K, V, A>, id: LeafNodeId, p: int)
    requires s.wf(), s.is_leaf(id),
    ensures 0 <= p < s.lm[id].size ==> forall|b: LeafNodeId, q: int| s.is_leaf(b) && 0 <= q < s.lm[b].size && (#[trigger] s.lm[b].ks()[q]).ord() == s.lm[id].ks()[p].ord() ==> b == id && q == p,
{
    if 0 <= p < s.lm[id].size {
        leaf_entry(s.lm, s.g, s.m, id, p);
        leaf_sorted(s.lm, s.g, s.m, id);
        assert forall|b: LeafNodeId, q: int| s.is_leaf(b) && 0 <= q < s.lm[b].size && (#[trigger] s.lm[b].ks()[q]).ord() == s.lm[id].ks()[p].ord() implies b == id && q == p by {
            leaf_entry(s.lm, s.g, s.m, b, q);
            assert(leaf_ok(s.lm, s.g, s.m, b) && leaf_ok(s.lm, s.g, s.m, id));
            if b != id { assert(disjoint(s.g.rg[NodeId::Leaf(b)], s.g.rg[NodeId::Leaf(id)])); }
        }
    }
}
//@ struct tree/iterator.rs IntoIter
//@ ghost pub s: Ghost<Src<K, V, A>>
//@ raw
impl<K: Key, V, A: Augmentation<K, V>> IntoIter<K, V, A> {
    pub open spec fn lo(&self) -> real { self.s@.at(self.pos) }
    pub open spec fn hi(&self) -> real { self.s@.at(self.end) }
    /// the entries that have not been returned
    pub open spec fn rem(&self) -> Map<real, (K, V)> { rng(self.s@.m, self.lo(), self.hi()) }
    /// the slots that have not been taken are as they were
    pub open spec fn intact(&self, id: LeafNodeId) -> bool {
        let l = self.node_store.lm()[id];
        let o = self.s@.lm[id];
        &&& self.node_store.lm().contains_key(id) && l.size == o.size && l.same_links(&o)
        &&& forall|p: int| #![trigger l.slot_key@[p]] #![trigger l.slot_value@[p]] 0 <= p < l.size && self.lo() <= o.ks()[p].ord() < self.hi() ==> l.slot_key@[p] == o.slot_key@[p] && l.slot_value@[p] == o.slot_value@[p]
    }
    /// what is left belongs to the iterator: the slots that have not been taken, and the inner nodes
    pub open spec fn owns(&self) -> bool {
        &&& forall|id: LeafNodeId| #[trigger] self.node_store.lm().contains_key(id) ==> self.s@.is_leaf(id) && self.node_store.lm()[id].tail() && self.taken(id)
        &&& forall|id: InnerNodeId| #[trigger] self.node_store.im().contains_key(id) ==> self.node_store.im()[id].drop_ok()
    }
    /// what has been returned is gone from its slot
    pub open spec fn taken(&self, id: LeafNodeId) -> bool {
        let l = self.node_store.lm()[id];
        let o = self.s@.lm[id];
        forall|p: int| #![trigger l.slot_key@[p]] #![trigger l.slot_value@[p]] 0 <= p < o.size && !(self.lo() <= o.ks()[p].ord() < self.hi()) ==> l.slot_key@[p] is Uninit && l.slot_value@[p] is Uninit
    }
    /// nothing is left that the destructors of the nodes do not drop
    pub open spec fn all_dropped(&self) -> bool {
        &&& forall|id: LeafNodeId| #[trigger] self.node_store.lm().contains_key(id) ==> self.node_store.lm()[id].drop_ok()
        &&& forall|id: InnerNodeId| #[trigger] self.node_store.im().contains_key(id) ==> self.node_store.im()[id].drop_ok()
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.s@.wf()
        &&& self.len == self.rem().len()
        &&& self.s@.is_leaf(self.pos.0) && self.pos.1 <= self.s@.lm[self.pos.0].size
        &&& self.s@.is_leaf(self.end.0) && self.end.1 <= self.s@.lm[self.end.0].size
        &&& forall|id: LeafNodeId| #[trigger] self.s@.is_leaf(id) ==> self.intact(id)
    }
    /// `ExactSizeIterator::len`, as the standard library defines it
    pub fn len(&self) -> (r: usize)
        requires self.wf(),
        ensures r == self.len,
    { self.size_hint().0 }
//@ fn tree/iterator.rs IntoIter::from_parts
//@ props C05 C12
//@ params node_store first_leaf_id last_leaf_id len
//@ ret r
//@ spec
    requires node_store.lm().contains_key(last_leaf_id),
    ensures r.node_store == node_store, r.len == len, r.pos == (first_leaf_id, 0usize), r.end == (last_leaf_id, node_store.lm()[last_leaf_id].size as usize),
//@ fn tree/iterator.rs IntoIter::Iterator::size_hint
//@ props C05
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.0 == self.rem().len(), r.1 == Some(r.0),
//@ fn tree/iterator.rs IntoIter::Iterator::next
//@ props C05 C12
//@ params self
//@ ret r
//@ spec
    requires old(self).wf(),
        old(self).owns(), //[C12]
    ensures final(self).wf(), final(self).s == old(self).s,
        final(self).owns(), //[C12]
        r is None ==> old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
        r is Some ==> ({ let x = (r->0).0.ord(); is_min(old(self).rem(), x) && old(self).rem()[x] == r->0 && final(self).rem() == old(self).rem().remove(x) }),
    decreases (if old(self).pos.1 < old(self).s@.lm[old(self).pos.0].size { 0int } else { 1int }),
//@ at start
    proof { all_steps(self.s@); rng_moves(self.s@.m, self.lo(), self.hi()); only_at(self.s@, self.pos.0, self.pos.1 as int); }
//@ fn tree/iterator.rs IntoIter::DoubleEndedIterator::next_back
//@ props C05 C12
//@ params self
//@ ret r
//@ spec
    requires old(self).wf(),
        old(self).owns(), //[C12]
    ensures final(self).wf(), final(self).s == old(self).s,
        final(self).owns(), //[C12]
        r is None ==> old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
        r is Some ==> ({ let x = (r->0).0.ord(); is_max(old(self).rem(), x) && old(self).rem()[x] == r->0 && final(self).rem() == old(self).rem().remove(x) }),
    decreases (if old(self).end.1 > 0 { 0int } else { 1int }),
//@ at start
    proof { all_steps(self.s@); rng_moves(self.s@.m, self.lo(), self.hi()); only_at(self.s@, self.end.0, self.end.1 - 1); }
//@ fn tree/iterator.rs IntoIter::Drop::drop
//@ props C12 C05
//@ params self
//@ spec
    requires old(self).wf(),
        old(self).owns(), //[C12]
    ensures final(self).rem().len() == 0,
        final(self).all_dropped(), //[C12]
//@ loop 0
    invariant self.wf(),
        self.owns(), //[C12]
    ensures self.rem().len() == 0,
    decreases self.rem().len(),
//@ at after loop 0
    proof { none_left(self); }
//@ fn tree/iterator.rs IntoIter::new
//@ props C05 C12
//@ params tree
//@ ret r
//@ spec
    requires tree.wf(),
    ensures r.wf(), r.s@ == tree.src(), r.rem() == tree.m(),
        r.owns(), //[C12]
//@ at start
    let ghost s0 = tree.src();
    proof { all_steps(s0); src_all(&tree); }
//@ at end
    proof { __ret.s@ = s0; }
//@ raw
}
/// no slot is left that holds something
proof fn none_left<K: Key, V, A: Augmentation<K, V>>(t: &IntoIter<K, V, A>)
    requires t.wf(), t.owns(),
    ensures t.rem().len() == 0 ==> t.all_dropped(),
{
    let s = t.s@;
    all_steps(s);
    rng_moves(s.m, t.lo(), t.hi());
    if t.rem().len() == 0 {
        assert forall|id: LeafNodeId| #[trigger] t.node_store.lm().contains_key(id) implies t.node_store.lm()[id].drop_ok() by {
            let l = t.node_store.lm()[id];
            assert(steps(s, id));
            assert(t.intact(id));
            assert forall|p: int| #![trigger l.slot_key@[p]] #![trigger l.slot_value@[p]] 0 <= p < LEAF_N implies l.slot_key@[p] is Uninit && l.slot_value@[p] is Uninit by {
                if p < l.size { assert(s.m.contains_key(s.lm[id].ks()[p].ord())); }
            }
        }
    }
}
/// a whole tree, between its first and its last leaf
pub proof fn src_all<K: Key, V, A: Augmentation<K, V>>(t: &BPlusTree<K, V, A>)
    requires t.wf(),
    ensures
        forall|id: LeafNodeId| #[trigger] t.src().is_leaf(id) ==> t.lm().contains_key(id),
        forall|id: LeafNodeId| #[trigger] t.lm().contains_key(id) ==> t.src().is_leaf(id) && t.lm()[id].tail(),
        forall|id: InnerNodeId| #[trigger] t.im().contains_key(id) ==> t.im()[id].drop_ok(),
        forall|x: real, lo: real, hi: real| #[trigger] t.m().contains_key(x) && #[trigger] rng(t.m(), lo, hi) == t.m() ==> lo <= x < hi,
        forall|a: LeafNodeId, b: LeafNodeId| #![trigger t.gg().rg.contains_key(NodeId::Leaf(a)), t.gg().rg.contains_key(NodeId::Leaf(b))] t.gg().rg.contains_key(NodeId::Leaf(a)) && t.gg().rg.contains_key(NodeId::Leaf(b)) && t.gg().rg[NodeId::Leaf(a)].lo == 0real && t.gg().rg[NodeId::Leaf(b)].hi == 1real
            ==> rng(t.m(), t.src().at((a, 0usize)), t.src().at((b, t.lm()[b].size as usize))) == t.m(),
{
    let s = t.src();
    all_steps(s);
    assert forall|id: LeafNodeId| #[trigger] s.is_leaf(id) implies t.lm().contains_key(id) by { assert(steps(s, id)); }
    assert forall|id: LeafNodeId| #[trigger] t.lm().contains_key(id) implies s.is_leaf(id) && t.lm()[id].tail() by { assert(leaf_ok(t.lm(), t.gg(), t.m(), id)); }
    assert forall|x: real, lo: real, hi: real| #[trigger] t.m().contains_key(x) && #[trigger] rng(t.m(), lo, hi) == t.m() implies lo <= x < hi by { rng_moves(t.m(), lo, hi); assert(rng(t.m(), lo, hi).contains_key(x)); }
    assert forall|a: LeafNodeId, b: LeafNodeId| #![trigger t.gg().rg.contains_key(NodeId::Leaf(a)), t.gg().rg.contains_key(NodeId::Leaf(b))] t.gg().rg.contains_key(NodeId::Leaf(a)) && t.gg().rg.contains_key(NodeId::Leaf(b)) && t.gg().rg[NodeId::Leaf(a)].lo == 0real && t.gg().rg[NodeId::Leaf(b)].hi == 1real
        implies rng(t.m(), s.at((a, 0)), s.at((b, t.lm()[b].size as usize))) == t.m() by {
        assert(s.is_leaf(a) && s.is_leaf(b));
        assert(step_at(s, a, 0)); assert(step_at(s, b, t.lm()[b].size as usize));
        assert(rng(t.m(), s.at((a, 0)), 1real) =~= t.m());
    }
}
impl<K: Key, V, A: Augmentation<K, V>> BPlusTree<K, V, A> {
//@ fn tree/mod.rs BPlusTree::iter
//@ props C04
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.tree == self, r.rem() == self.m(),
//@ fn tree/mod.rs BPlusTree::into_parts
//@ props C05 C12
//@ drops node_store=1 root_augmentation=1
//@ params self
//@ ret r
//@ spec
    ensures r.0 == self.node_store, r.1 == self.root, r.2 == self.len,
//@ fn tree/mod.rs BPlusTree::IntoIterator::into_iter
//@ props C05
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.s@ == self.src(), r.rem() == self.m(),
        r.owns(), //[C12]
//@ fn tree/mod.rs BPlusTree::Drop::drop
//@ props C12 C05
//@ drops node_store=1 root_augmentation=0
//@ params self
//@ spec
    requires old(self).wf(),
//@ at start
    let ghost s0 = self.src();
    proof { all_steps(s0); src_all(self); }
//@ at before call drop
    proof { __d.s@ = s0; }
//@ raw
}
