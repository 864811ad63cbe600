//@ raw
// ======================= lookups ====================================================================

pub open spec fn lookup<K: Key, V>(m: Map<real, (K, V)>, x: real) -> Option<V> { if m.contains_key(x) { Some(m[x].1) } else { None } }
/// the optional reference r shows what lookup finds
pub open spec fn shows<V>(r: Option<&V>, o: Option<V>) -> bool { (r is Some) == (o is Some) && (r is Some ==> *(r->0) == o->0) }
pub open spec fn is_min<K: Key, V>(m: Map<real, (K, V)>, x: real) -> bool { m.contains_key(x) && forall|y: real| #[trigger] m.contains_key(y) ==> x <= y }
pub open spec fn is_max<K: Key, V>(m: Map<real, (K, V)>, x: real) -> bool { m.contains_key(x) && forall|y: real| #[trigger] m.contains_key(y) ==> y <= x }
/// y is the next larger (smaller) key after x
pub open spec fn is_next<K: Key, V>(m: Map<real, (K, V)>, x: real, y: real) -> bool { m.contains_key(y) && x < y && forall|z: real| #[trigger] m.contains_key(z) && x < z ==> y <= z }
pub open spec fn is_prev<K: Key, V>(m: Map<real, (K, V)>, x: real, y: real) -> bool { m.contains_key(y) && y < x && forall|z: real| #[trigger] m.contains_key(z) && z < x ==> z <= y }

/// a leaf whose own keys bracket x covers x
pub proof fn cache_hit<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, x: real)
    requires tree(im, lm, g, m), g.pend is None, lm.contains_key(id), 0real < x < 1real, g.under is None,
        !(lm[id].prev is Some && x < lm[id].ks()[0].ord()) && !(lm[id].next is Some && x > lm[id].ks()[lm[id].size - 1].ord()),
    ensures g.rg.contains_key(NodeId::Leaf(id)), g.rg[NodeId::Leaf(id)].lo <= x < g.rg[NodeId::Leaf(id)].hi,
{
    assert(leaf_ok(lm, g, m, id));
    get_links(g, id, lm[id].prev, lm[id].next);
    reveal(lc);
    if lm[id].prev is Some || lm[id].next is Some {
        linked_full(lm, g, m, id);
        assert(lm[id].ks()[0].ord() >= g.rg[NodeId::Leaf(id)].lo);
        assert(lm[id].ks()[lm[id].size - 1].ord() < g.rg[NodeId::Leaf(id)].hi);
    }
}
/// any leaf that try_cache may return covers x
pub proof fn cache_hits<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, x: real)
    requires tree(im, lm, g, m), g.pend is None, 0real < x < 1real, g.under is None,
    ensures
        forall|id: LeafNodeId| #[trigger] lm.contains_key(id) ==> lm[id].wf() && ((lm[id].prev is Some || lm[id].next is Some) ==> lm[id].size > 0),
        forall|id: LeafNodeId| #[trigger] lm.contains_key(id) && !(lm[id].prev is Some && x < lm[id].ks()[0].ord()) && !(lm[id].next is Some && x > lm[id].ks()[lm[id].size - 1].ord())
            ==> g.rg.contains_key(NodeId::Leaf(id)) && g.rg[NodeId::Leaf(id)].lo <= x < g.rg[NodeId::Leaf(id)].hi,
{
    all_linked_full(im, lm, g, m);
    assert forall|id: LeafNodeId| #[trigger] lm.contains_key(id) && !(lm[id].prev is Some && x < lm[id].ks()[0].ord()) && !(lm[id].next is Some && x > lm[id].ks()[lm[id].size - 1].ord())
        implies g.rg.contains_key(NodeId::Leaf(id)) && g.rg[NodeId::Leaf(id)].lo <= x < g.rg[NodeId::Leaf(id)].hi by { cache_hit(im, lm, g, m, id, x); }
}
/// a leaf with a neighbour is not the root, so it has keys
pub proof fn linked_full<K: Key, V>(lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId)
    requires leaf_ok(lm, g, m, id), g.pend is None, g.under is None, lm[id].prev is Some || lm[id].next is Some, ranges_ok(g), g.rg.contains_key(NodeId::Leaf(id)),
    ensures lm[id].size > 0,
{
    get_links(g, id, lm[id].prev, lm[id].next);
    assert(g.rg[NodeId::Leaf(id)] != (R { h: g.h, lo: 0real, hi: 1real }));
    assert(g.root != NodeId::Leaf(id));
}
/// the child found by locate_child covers the key
pub proof fn child_covers<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: InnerNodeId, x: real)
    requires tree(im, lm, g, m), g.pend is None, g.rg.contains_key(NodeId::Inner(id)), g.rg[NodeId::Inner(id)].lo <= x < g.rg[NodeId::Inner(id)].hi,
    ensures forall|i: int| #[trigger] at_child(im[id].ks(), x, i) ==> ({
        let c = im[id].cs()[i];
        g.rg.contains_key(c) && g.rg[c].lo <= x < g.rg[c].hi && g.rg[c].h == g.rg[NodeId::Inner(id)].h - 1
    }),
{
    assert(inner_ok(im, lm, g, id));
    assert forall|i: int| #[trigger] at_child(im[id].ks(), x, i) implies ({
        let c = im[id].cs()[i];
        g.rg.contains_key(c) && g.rg[c].lo <= x < g.rg[c].hi && g.rg[c].h == g.rg[NodeId::Inner(id)].h - 1
    }) by { child_range(im, lm, g, m, id, i, x); }
}
/// what `try_cache` needs of the leaves
pub proof fn all_linked_full<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>)
    requires tree(im, lm, g, m), g.pend is None, g.under is None,
    ensures forall|id: LeafNodeId| #[trigger] lm.contains_key(id) ==> lm[id].wf() && ((lm[id].prev is Some || lm[id].next is Some) ==> lm[id].size > 0),
{
    assert forall|id: LeafNodeId| #[trigger] lm.contains_key(id) implies lm[id].wf() && ((lm[id].prev is Some || lm[id].next is Some) ==> lm[id].size > 0) by {
        assert(leaf_ok(lm, g, m, id));
        if lm[id].prev is Some || lm[id].next is Some { linked_full(lm, g, m, id); }
    }
}
/// a leaf of a tree that has entries has some
pub proof fn leaf_filled<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId)
    requires tree(im, lm, g, m), g.pend is None, g.under is None, m.len() > 0, g.rg.contains_key(NodeId::Leaf(id)),
    ensures lm[id].size > 0,
{
    assert(leaf_ok(lm, g, m, id));
    if g.root == NodeId::Leaf(id) {
        let x = m.dom().choose();
        assert(m.dom().contains(x)) by { if forall|y: real| !m.dom().contains(y) { assert(m.dom() =~= Set::empty()); } }
        assert(m.contains_key(x));
        reveal(lc);
        assert(hask(lm[id].ks(), x));
    }
}
/// the first key of the first leaf, the last key of the last leaf
pub proof fn end_keys<K: Key, V>(lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId)
    requires leaf_ok(lm, g, m, id), lm[id].size > 0, forall|x: real| #[trigger] m.contains_key(x) ==> 0real < x && x < 1real,
    ensures
        g.rg[NodeId::Leaf(id)].lo == 0real ==> is_min(m, lm[id].ks()[0].ord()),
        g.rg[NodeId::Leaf(id)].hi == 1real ==> is_max(m, lm[id].ks()[lm[id].size - 1].ord()),
{
    reveal(lc);
    let ks = lm[id].ks();
    assert(m.contains_key(ks[0].ord()));
    assert(m.contains_key(ks[ks.len() - 1].ord()));
    assert forall|y: real| #[trigger] m.contains_key(y) && g.rg[NodeId::Leaf(id)].lo == 0real implies ks[0].ord() <= y by {
        if y < g.rg[NodeId::Leaf(id)].hi { assert(hask(ks, y)); let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == y; if j > 0 { assert(ks[0].ord() < ks[j].ord()); } }
    }
    assert forall|y: real| #[trigger] m.contains_key(y) && g.rg[NodeId::Leaf(id)].hi == 1real implies y <= ks[ks.len() - 1].ord() by {
        if g.rg[NodeId::Leaf(id)].lo <= y { assert(hask(ks, y)); let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == y; if j < ks.len() - 1 { assert(ks[j].ord() < ks[ks.len() - 1].ord()); } }
    }
}
/// an entry of a leaf is an entry of the tree
pub proof fn leaf_entry<K: Key, V>(lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, i: int)
    requires leaf_ok(lm, g, m, id), 0 <= i < lm[id].size,
    ensures m.contains_key(lm[id].ks()[i].ord()), m[lm[id].ks()[i].ord()] == (lm[id].ks()[i], lm[id].vs()[i]),
        g.rg[NodeId::Leaf(id)].lo <= lm[id].ks()[i].ord() < g.rg[NodeId::Leaf(id)].hi,
{
    reveal(lc);
    assert(lm[id].ks()[i] == lm[id].ks()[i]);
}
/// the value of one entry changes
pub proof fn step_value<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, p: int, v: V, l2: LeafNode<K, V>, g2: G)
    requires tree(im, lm, g, m), g.rg.contains_key(NodeId::Leaf(id)), settled(g), 0 <= p < lm[id].size,
        l2.tail(), //[C12]
        l2.wf(), l2.size == lm[id].size, l2.same_links(&lm[id]), l2.ks() == lm[id].ks(), l2.vs() == lm[id].vs().update(p, v),
        g2 == (G { fresh: g.fresh && A::value_free(), ..g }),
    ensures
        m.contains_key(lm[id].ks()[p].ord()), m[lm[id].ks()[p].ord()] == (lm[id].ks()[p], lm[id].vs()[p]),
        tree(im, lm.insert(id, l2), g2, m.insert(lm[id].ks()[p].ord(), (lm[id].ks()[p], v))),
        g2.fresh ==> aug_of(im, lm.insert(id, l2), g.root) == aug_of(im, lm, g.root),
        m.insert(lm[id].ks()[p].ord(), (lm[id].ks()[p], v)).len() == m.len(),
{
    let x = lm[id].ks()[p].ord();
    let lm2 = lm.insert(id, l2);
    let m2 = m.insert(x, (lm[id].ks()[p], v));
    assert(leaf_ok(lm, g, m, id));
    let r = g.rg[NodeId::Leaf(id)];
    lc_update(m, lm[id].ks(), lm[id].vs(), r.lo, r.hi, p, v);
    let gd = G { dirty: Some(NodeId::Leaf(id)), ..g };
    assert(lm[id].ks().len() == lm[id].size);
    assert(0real < x);
    step_leaf(im, lm, g, m, id, l2, gd, m2, x);
    A::value_free_ok(lm[id].ks(), lm[id].vs(), l2.vs());
    assert(ranges_ok(g2));
    assert(m2.dom() =~= m.dom());
    assert forall|q: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(q)) implies inner_ok(im, lm2, g2, q) by {
        assert(inner_ok(im, lm2, gd, q));
        assert(inner_ok(im, lm, g, q));
        kids(im, lm, g, q);
        assert forall|j: int| 0 <= j <= im[q].size implies same_child(im, lm, g, im, lm2, g2, #[trigger] im[q].cs()[j]) by {
            match im[q].cs()[j] { NodeId::Leaf(o) => {} NodeId::Inner(o) => {} }
        }
        other_inner(im, lm, g, q, im, lm2, g2);
    }
    assert forall|q: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(q)) implies leaf_ok(lm2, g2, m2, q) by {
        assert(leaf_ok(lm2, gd, m2, q));
        same_links_ok(gd, g2, q, lm2[q].prev, lm2[q].next);
    }
}
/// step_value for the leaf as a mutable borrow will leave it
pub proof fn step_value_if<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, p: int, l2: LeafNode<K, V>, g2: G)
    requires tree(im, lm, g, m), g.rg.contains_key(NodeId::Leaf(id)), settled(g),
        g2 == (G { fresh: g.fresh && A::value_free(), ..g }),
    ensures
        0 <= p < lm[id].size && l2.wf() && l2.tail() && l2.size == lm[id].size && l2.same_links(&lm[id]) && l2.ks() == lm[id].ks() && l2.vs() == lm[id].vs().update(p, l2.vs()[p]) ==> ({
            let x = lm[id].ks()[p].ord();
            let m2 = m.insert(x, (lm[id].ks()[p], l2.vs()[p]));
            &&& m.contains_key(x) && m[x] == (lm[id].ks()[p], lm[id].vs()[p])
            &&& tree(im, lm.insert(id, l2), g2, m2) && the_m(im, lm.insert(id, l2), g2) == m2
            &&& g2.fresh ==> aug_of(im, lm.insert(id, l2), g.root) == aug_of(im, lm, g.root)
            &&& m2.len() == m.len()
        }),
{
    if 0 <= p < lm[id].size && l2.wf() && l2.tail() && l2.size == lm[id].size && l2.same_links(&lm[id]) && l2.ks() == lm[id].ks() && l2.vs() == lm[id].vs().update(p, l2.vs()[p]) {
        let x = lm[id].ks()[p].ord();
        let m2 = m.insert(x, (lm[id].ks()[p], l2.vs()[p]));
        step_value(im, lm, g, m, id, p, l2.vs()[p], l2, g2);
        one_content(im, lm.insert(id, l2), g2, m2, the_m(im, lm.insert(id, l2), g2));
    }
}
/// nothing changed (the leaf is written back as it was, or only its unused slots changed)
pub proof fn step_same<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, l2: LeafNode<K, V>)
    requires tree(im, lm, g, m), g.rg.contains_key(NodeId::Leaf(id)), settled(g),
    ensures
        l2.wf() && l2.tail() && l2.size == lm[id].size && l2.same_links(&lm[id]) && l2.ks() == lm[id].ks() && l2.vs() == lm[id].vs() ==> ({
            &&& tree(im, lm.insert(id, l2), g, m) && the_m(im, lm.insert(id, l2), g) == m
            &&& aug_of(im, lm.insert(id, l2), g.root) == aug_of(im, lm, g.root)
        }),
{
    if l2.wf() && l2.tail() && l2.size == lm[id].size && l2.same_links(&lm[id]) && l2.ks() == lm[id].ks() && l2.vs() == lm[id].vs() {
        let lm2 = lm.insert(id, l2);
        assert forall|q: InnerNodeId| #[trigger] g.rg.contains_key(NodeId::Inner(q)) implies inner_ok(im, lm2, g, q) by {
            assert(inner_ok(im, lm, g, q));
            kids(im, lm, g, q);
            assert forall|j: int| 0 <= j <= im[q].size implies same_child(im, lm, g, im, lm2, g, #[trigger] im[q].cs()[j]) by {
                match im[q].cs()[j] { NodeId::Leaf(o) => {} NodeId::Inner(o) => {} }
            }
            other_inner(im, lm, g, q, im, lm2, g);
        }
        assert forall|q: LeafNodeId| #[trigger] g.rg.contains_key(NodeId::Leaf(q)) implies leaf_ok(lm2, g, m, q) by { assert(leaf_ok(lm, g, m, q)); }
        assert(leaf_ok(lm, g, m, id));
        one_content(im, lm2, g, m, the_m(im, lm2, g));
    }
}
impl<K: Key, V, A: Augmentation<K, V>> BPlusTree<K, V, A> {
    pub open spec fn covers(&self, n: NodeId, x: real) -> bool { self.gg().rg.contains_key(n) && self.gg().rg[n].lo <= x < self.gg().rg[n].hi }
    /// at rest, in the middle of a lookup
    pub open spec fn rest(&self) -> bool { self.holds(self.m()) && settled(self.gg()) }
    /// what a caller may do through a mutable reference to the value of the key at x
    pub open spec fn set_value(&self, f: &Self, x: real, v: V) -> bool {
        &&& self.m().contains_key(x)
        &&& f.m() == self.m().insert(x, (self.m()[x].0, v))
        &&& f.gg() == (G { fresh: self.gg().fresh && A::value_free(), ..self.gg() })
    }
    pub open spec fn same_tree(&self, f: &Self) -> bool { f.m() == self.m() && f.gg() == self.gg() }
//@ fn tree/mod.rs BPlusTree::new
//@ props C02
//@ params node_store
//@ ret r
//@ spec
    requires node_store.lm() =~= IMap::empty(), node_store.im() =~= IMap::empty(),
    ensures r.wf(), r.m() == Map::<real, (K, V)>::empty(), r.gg().h == 0, r.gg().fresh, r.gg().strict,
//@ at end
    proof {
        let m = Map::<real, (K, V)>::empty();
        let n = __ret.root;
        let g = G { h: 0, root: n, rg: Map::empty().insert(n, R { h: 0, lo: 0real, hi: 1real }), pend: None, dirty: None, under: None, fresh: true, strict: true };
        __ret.g@ = g;
        let id = n->Leaf_0;
        mk_links(g, id, None, None);
        assert(leaf_ok(__ret.lm(), g, m, id)) by { reveal(lc); }
        assert(tree(__ret.im(), __ret.lm(), g, m));
        __ret.wf_m(m);
    }
//@ fn tree/mod.rs BPlusTree::find_in_leaf
//@ props C01
//@ params self leaf_id k
//@ ret r
//@ spec
    requires self.rest(), self.covers(NodeId::Leaf(leaf_id), k.ord()),
    ensures shows(r, lookup(self.m(), k.ord())),
//@ at start
    proof { assert(leaf_ok(self.lm(), self.gg(), self.m(), leaf_id)); leaf_sorted(self.lm(), self.gg(), self.m(), leaf_id); leaf_has(self.lm(), self.gg(), self.m(), leaf_id, k.ord()); }
//@ fn tree/mod.rs BPlusTree::find_in_leaf_and_cache_it
//@ props C01 C13
//@ params self leaf_id k
//@ ret r
//@ spec
    requires self.rest(), self.covers(NodeId::Leaf(leaf_id), k.ord()),
    ensures shows(r, lookup(self.m(), k.ord())),
//@ at start
    proof { assert(leaf_ok(self.lm(), self.gg(), self.m(), leaf_id)); leaf_sorted(self.lm(), self.gg(), self.m(), leaf_id); leaf_has(self.lm(), self.gg(), self.m(), leaf_id, k.ord()); }
//@ fn tree/mod.rs BPlusTree::find_descend
//@ props C01
//@ params self node_id k
//@ ret r
//@ spec
    requires self.rest(), self.covers(node_id, k.ord()),
    ensures shows(r, lookup(self.m(), k.ord())),
//@ loop 0
    invariant self.rest(), self.covers(node_id, k.ord()),
    decreases self.gg().rg[node_id].h,
//@ at before call get_inner
    proof { node_there(self.im(), self.lm(), self.gg(), self.m(), node_id); child_covers(self.im(), self.lm(), self.gg(), self.m(), inner_id, k.ord()); }
//@ fn tree/mod.rs BPlusTree::get
//@ props C01 C13
//@ params self k
//@ ret r
//@ spec
    requires self.wf(),
    ensures shows(r, lookup(self.m(), k.ord())),
//@ at start
    proof { k.ord_bounds(); cache_hits(self.im(), self.lm(), self.gg(), self.m(), k.ord()); }
//@ fn tree/mod.rs BPlusTree::find_in_leaf_mut
//@ props C01
//@ params self leaf_id k
//@ ret r
//@ spec
    requires old(self).rest(), old(self).covers(NodeId::Leaf(leaf_id), k.ord()),
    ensures
        (r is Some) == old(self).m().contains_key(k.ord()),
        r is Some ==> *(r->0) == old(self).m()[k.ord()].1 && old(self).set_value(final(self), k.ord(), *final(r->0)),
        r is None ==> old(self).same_tree(final(self)),
        final(self).rest(), final(self).len == old(self).len, final(self).root_augmentation == old(self).root_augmentation,
        final(self).gg().fresh ==> aug_of(final(self).im(), final(self).lm(), old(self).gg().root) == aug_of(old(self).im(), old(self).lm(), old(self).gg().root),
//@ at start
    let ghost m = self.m();
    let ghost g = self.gg();
    let ghost im = self.im();
    let ghost lm = self.lm();
    let ghost g2 = G { fresh: g.fresh && A::value_free(), ..g };
    proof {
        assert(leaf_ok(lm, g, m, leaf_id)); leaf_sorted(lm, g, m, leaf_id); leaf_has(lm, g, m, leaf_id, k.ord()); all_pos(lm[leaf_id].ks(), k.ord());
        self.holds_m(m);
        if m.contains_key(k.ord()) { self.g@ = g2; }
    }
//@ at before call locate_slot_mut
    proof {
        let p = pos(lm[leaf_id].ks(), k.ord());
        step_value_if(im, lm, g, m, leaf_id, p, *final(leaf_node), g2);
        step_same(im, lm, g, m, leaf_id, *final(leaf_node));
    }
//@ fn tree/mod.rs BPlusTree::find_in_leaf_mut_and_cache_it
//@ props C01
//@ params self leaf_id k
//@ ret r
//@ spec
    requires old(self).rest(), old(self).covers(NodeId::Leaf(leaf_id), k.ord()),
    ensures
        (r is Some) == old(self).m().contains_key(k.ord()),
        r is Some ==> *(r->0) == old(self).m()[k.ord()].1 && old(self).set_value(final(self), k.ord(), *final(r->0)),
        r is None ==> old(self).same_tree(final(self)),
        final(self).rest(), final(self).len == old(self).len, final(self).root_augmentation == old(self).root_augmentation,
        final(self).gg().fresh ==> aug_of(final(self).im(), final(self).lm(), old(self).gg().root) == aug_of(old(self).im(), old(self).lm(), old(self).gg().root),
//@ at start
    let ghost m = self.m();
    let ghost g = self.gg();
    let ghost im = self.im();
    let ghost lm = self.lm();
    let ghost g2 = G { fresh: g.fresh && A::value_free(), ..g };
    proof {
        assert(leaf_ok(lm, g, m, leaf_id)); leaf_sorted(lm, g, m, leaf_id); leaf_has(lm, g, m, leaf_id, k.ord()); all_pos(lm[leaf_id].ks(), k.ord());
        self.holds_m(m);
        if m.contains_key(k.ord()) { self.g@ = g2; }
    }
//@ at before call locate_slot_mut
    proof {
        let p = pos(lm[leaf_id].ks(), k.ord());
        step_value_if(im, lm, g, m, leaf_id, p, *final(leaf_node), g2);
        step_same(im, lm, g, m, leaf_id, *final(leaf_node));
    }
//@ fn tree/mod.rs BPlusTree::find_descend_mut
//@ props C01
//@ params self node_id k
//@ ret r
//@ spec
    requires old(self).rest(), old(self).covers(node_id, k.ord()),
    ensures
        (r is Some) == old(self).m().contains_key(k.ord()),
        r is Some ==> *(r->0) == old(self).m()[k.ord()].1 && old(self).set_value(final(self), k.ord(), *final(r->0)),
        r is None ==> old(self).same_tree(final(self)),
        final(self).rest(), final(self).len == old(self).len, final(self).root_augmentation == old(self).root_augmentation,
        final(self).gg().fresh ==> aug_of(final(self).im(), final(self).lm(), old(self).gg().root) == aug_of(old(self).im(), old(self).lm(), old(self).gg().root),
    decreases old(self).gg().rg[node_id].h,
//@ at before call get_inner
    proof { node_there(self.im(), self.lm(), self.gg(), self.m(), node_id); child_covers(self.im(), self.lm(), self.gg(), self.m(), inner_id, k.ord()); }
//@ fn tree/mod.rs BPlusTree::get_mut
//@ props C01
//@ params self k
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        (r is Some) == old(self).m().contains_key(k.ord()),
        r is Some ==> *(r->0) == old(self).m()[k.ord()].1 && old(self).set_value(final(self), k.ord(), *final(r->0)),
        r is None ==> old(self).same_tree(final(self)),
        final(self).wf(),
//@ at start
    proof { k.ord_bounds(); cache_hits(self.im(), self.lm(), self.gg(), self.m(), k.ord()); }
//@ fn tree/mod.rs BPlusTree::first
//@ props C04
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures (r is None) == (self.m().len() == 0), r is Some ==> is_min(self.m(), (r->0).0.ord()) && self.m()[(r->0).0.ord()] == (*(r->0).0, *(r->0).1),
//@ loop 0
    invariant self.wf(), self.m().len() > 0, self.gg().rg.contains_key(node_id), self.gg().rg[node_id].lo == 0real,
    decreases self.gg().rg[node_id].h,
//@ at before call get_inner
    proof { node_there(self.im(), self.lm(), self.gg(), self.m(), node_id); child_range(self.im(), self.lm(), self.gg(), self.m(), inner_id, 0, 0real); }
//@ at before call get_leaf
    proof {
        node_there(self.im(), self.lm(), self.gg(), self.m(), node_id);
        leaf_filled(self.im(), self.lm(), self.gg(), self.m(), leaf_id);
        end_keys(self.lm(), self.gg(), self.m(), leaf_id);
        leaf_entry(self.lm(), self.gg(), self.m(), leaf_id, 0);
    }
//@ fn tree/mod.rs BPlusTree::last
//@ props C04
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures (r is None) == (self.m().len() == 0), r is Some ==> is_max(self.m(), (r->0).0.ord()) && self.m()[(r->0).0.ord()] == (*(r->0).0, *(r->0).1),
//@ loop 0
    invariant self.wf(), self.m().len() > 0, self.gg().rg.contains_key(node_id), self.gg().rg[node_id].hi == 1real,
    decreases self.gg().rg[node_id].h,
//@ at before call get_inner
    proof { node_there(self.im(), self.lm(), self.gg(), self.m(), node_id); child_range(self.im(), self.lm(), self.gg(), self.m(), inner_id, self.im()[inner_id].size as int, 0real); }
//@ at before call get_leaf
    proof {
        node_there(self.im(), self.lm(), self.gg(), self.m(), node_id);
        leaf_filled(self.im(), self.lm(), self.gg(), self.m(), leaf_id);
        end_keys(self.lm(), self.gg(), self.m(), leaf_id);
        leaf_entry(self.lm(), self.gg(), self.m(), leaf_id, self.lm()[leaf_id].size - 1);
    }
//@ fn tree/mod.rs BPlusTree::first_leaf
//@ props C04 C05 C10
//@ params self
//@ ret r
//@ spec
    requires self.rest(),
    ensures r is Some, self.gg().rg.contains_key(NodeId::Leaf(r->0)), self.gg().rg[NodeId::Leaf(r->0)].lo == 0real,
//@ loop 0
    invariant_except_break self.gg().rg.contains_key(NodeId::Inner(node_id)), self.gg().rg[NodeId::Inner(node_id)].lo == 0real,
    invariant self.rest(),
    ensures result is Some, self.gg().rg.contains_key(NodeId::Leaf(result->0)), self.gg().rg[NodeId::Leaf(result->0)].lo == 0real,
    decreases self.gg().rg[NodeId::Inner(node_id)].h,
//@ at before call get_inner
    proof { node_there(self.im(), self.lm(), self.gg(), self.m(), NodeId::Inner(node_id)); child_range(self.im(), self.lm(), self.gg(), self.m(), node_id, 0, 0real); }
//@ fn tree/mod.rs BPlusTree::last_leaf
//@ props C04 C05 C10
//@ params self
//@ ret r
//@ spec
    requires self.rest(),
    ensures r is Some, self.gg().rg.contains_key(NodeId::Leaf(r->0)), self.gg().rg[NodeId::Leaf(r->0)].hi == 1real,
//@ loop 0
    invariant_except_break self.gg().rg.contains_key(NodeId::Inner(node_id)), self.gg().rg[NodeId::Inner(node_id)].hi == 1real,
    invariant self.rest(),
    ensures result is Some, self.gg().rg.contains_key(NodeId::Leaf(result->0)), self.gg().rg[NodeId::Leaf(result->0)].hi == 1real,
    decreases self.gg().rg[NodeId::Inner(node_id)].h,
//@ at before call get_inner
    proof { node_there(self.im(), self.lm(), self.gg(), self.m(), NodeId::Inner(node_id)); child_range(self.im(), self.lm(), self.gg(), self.m(), node_id, self.im()[node_id].size as int, 0real); }
//@ fn tree/mod.rs BPlusTree::locate_leaf
//@ props C04 C10 C13
//@ params self k
//@ ret r
//@ spec
    requires self.rest(),
    ensures r is Some, self.covers(NodeId::Leaf(r->0), k.ord()),
//@ at start
    proof { k.ord_bounds(); cache_hits(self.im(), self.lm(), self.gg(), self.m(), k.ord()); }
//@ loop 0
    invariant_except_break self.covers(NodeId::Inner(node_id), k.ord()),
    invariant self.rest(),
    ensures result is Some, self.covers(NodeId::Leaf(result->0), k.ord()),
    decreases self.gg().rg[NodeId::Inner(node_id)].h,
//@ at before call get_inner
    proof { node_there(self.im(), self.lm(), self.gg(), self.m(), NodeId::Inner(node_id)); child_covers(self.im(), self.lm(), self.gg(), self.m(), node_id, k.ord()); }
//@ raw
}
