//@ raw
// ======================= cursors ====================================================================

/// the keys of m in [lo, hi) are the keys ks
proof fn range_next<K: Key, V>(m: Map<real, (K, V)>, ks: Seq<K>, vs: Seq<V>, lo: real, hi: real, x: real)
    requires lc(m, ks, vs, lo, hi), lo <= x < hi,
    ensures
        ks.len() == 0 || ks[ks.len() - 1].ord() <= x ==> forall|z: real| #[trigger] m.contains_key(z) && x < z ==> z >= hi,
{
    reveal(lc);
    if ks.len() == 0 || ks[ks.len() - 1].ord() <= x {
        assert forall|z: real| #[trigger] m.contains_key(z) && x < z implies z >= hi by {
            if z < hi { assert(hask(ks, z)); let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == z; if j < ks.len() - 1 { assert(ks[j].ord() < ks[ks.len() - 1].ord()); } }
        }
    }
}
proof fn range_prev<K: Key, V>(m: Map<real, (K, V)>, ks: Seq<K>, vs: Seq<V>, lo: real, hi: real, x: real)
    requires lc(m, ks, vs, lo, hi), lo <= x < hi,
    ensures
        ks.len() == 0 || ks[0].ord() >= x ==> forall|z: real| #[trigger] m.contains_key(z) && z < x ==> z < lo,
{
    reveal(lc);
    if ks.len() == 0 || ks[0].ord() >= x {
        assert forall|z: real| #[trigger] m.contains_key(z) && z < x implies z < lo by {
            if z >= lo { assert(hask(ks, z)); let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == z; if j > 0 { assert(ks[0].ord() < ks[j].ord()); } }
        }
    }
}
proof fn range_next_at<K: Key, V>(m: Map<real, (K, V)>, ks: Seq<K>, vs: Seq<V>, lo: real, hi: real, x: real, p: int)
    requires lc(m, ks, vs, lo, hi), lo <= x < hi, 0 <= p < ks.len(), ks[p].ord() > x, p > 0 ==> ks[p - 1].ord() <= x,
    ensures is_next(m, x, ks[p].ord()), m[ks[p].ord()] == (ks[p], vs[p]),
{
    reveal(lc);
    assert forall|z: real| #[trigger] m.contains_key(z) && x < z implies ks[p].ord() <= z by {
        if z < hi { assert(hask(ks, z)); let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == z; if j < p - 1 { assert(ks[j].ord() < ks[p - 1].ord()); } if j > p { assert(ks[p].ord() < ks[j].ord()); } }
    }
}
proof fn range_prev_at<K: Key, V>(m: Map<real, (K, V)>, ks: Seq<K>, vs: Seq<V>, lo: real, hi: real, x: real, p: int)
    requires lc(m, ks, vs, lo, hi), lo <= x < hi, 0 <= p < ks.len(), ks[p].ord() < x, p + 1 < ks.len() ==> ks[p + 1].ord() >= x,
    ensures is_prev(m, x, ks[p].ord()), m[ks[p].ord()] == (ks[p], vs[p]),
{
    reveal(lc);
    assert forall|z: real| #[trigger] m.contains_key(z) && z < x implies z <= ks[p].ord() by {
        if z >= lo { assert(hask(ks, z)); let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == z; if j > p + 1 { assert(ks[p + 1].ord() < ks[j].ord()); } if j < p { assert(ks[j].ord() < ks[p].ord()); } }
    }
}
/// the ends of a range that has keys
proof fn range_ends<K: Key, V>(m: Map<real, (K, V)>, ks: Seq<K>, vs: Seq<V>, lo: real, hi: real)
    requires lc(m, ks, vs, lo, hi), ks.len() > 0,
    ensures
        lo <= ks[0].ord(), ks[ks.len() - 1].ord() < hi,
        forall|z: real| #[trigger] m.contains_key(z) && z >= lo ==> ks[0].ord() <= z,
        forall|z: real| #[trigger] m.contains_key(z) && z < hi ==> z <= ks[ks.len() - 1].ord(),
        m.contains_key(ks[0].ord()), m[ks[0].ord()] == (ks[0], vs[0]),
        m.contains_key(ks[ks.len() - 1].ord()), m[ks[ks.len() - 1].ord()] == (ks[ks.len() - 1], vs[ks.len() - 1]),
{
    reveal(lc);
    let q = ks.len() - 1;
    assert(ks[0] == ks[0]); assert(ks[q] == ks[q]);
    assert forall|z: real| #[trigger] m.contains_key(z) && z >= lo implies ks[0].ord() <= z by {
        if z < hi { assert(hask(ks, z)); let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == z; if j > 0 { assert(ks[0].ord() < ks[j].ord()); } }
        else if q > 0 { assert(ks[0].ord() < ks[q].ord()); }
    }
    assert forall|z: real| #[trigger] m.contains_key(z) && z < hi implies z <= ks[q].ord() by {
        if z >= lo { assert(hask(ks, z)); let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == z; if j < q { assert(ks[j].ord() < ks[q].ord()); } }
        else if q > 0 { assert(ks[0].ord() < ks[q].ord()); }
    }
}
/// what the leaf that covers x says of the entry at x
pub open spec fn here<K: Key, V>(lm: LM<K, V>, m: Map<real, (K, V)>, id: LeafNodeId, x: real) -> bool {
    let l = lm[id];
    &&& lm.contains_key(id)
    &&& forall|p: int| #![trigger l.vs()[p]] 0 <= p < l.size ==> m.contains_key(l.ks()[p].ord()) && m[l.ks()[p].ord()] == (l.ks()[p], l.vs()[p])
    &&& m.contains_key(x) == hask(l.ks(), x)
}
/// what it says of the entries next to x
pub open spec fn near<K: Key, V>(lm: LM<K, V>, m: Map<real, (K, V)>, id: LeafNodeId, x: real) -> bool {
    let l = lm[id];
    &&& forall|p: int| #![trigger l.vs()[p]] 0 <= p < l.size && l.ks()[p].ord() > x && (p > 0 ==> l.ks()[p - 1].ord() <= x) ==> is_next(m, x, l.ks()[p].ord()) && m[l.ks()[p].ord()] == (l.ks()[p], l.vs()[p])
    &&& l.size == 0 || l.ks()[l.size - 1].ord() <= x ==> match l.next {
            None => forall|z: real| #[trigger] m.contains_key(z) ==> z <= x,
            Some(n) => is_next(m, x, lm[n].ks()[0].ord()),
        }
    &&& forall|p: int| #![trigger l.vs()[p]] 0 <= p < l.size && l.ks()[p].ord() < x && (p + 1 < l.size ==> l.ks()[p + 1].ord() >= x) ==> is_prev(m, x, l.ks()[p].ord()) && m[l.ks()[p].ord()] == (l.ks()[p], l.vs()[p])
    &&& l.size == 0 || l.ks()[0].ord() >= x ==> match l.prev {
            None => forall|z: real| #[trigger] m.contains_key(z) ==> z >= x,
            Some(n) => is_prev(m, x, lm[n].ks()[lm[n].size - 1].ord()),
        }
}
/// the leaves on both sides
pub open spec fn sides<K: Key, V>(lm: LM<K, V>, m: Map<real, (K, V)>, id: LeafNodeId) -> bool {
    let l = lm[id];
    &&& l.next is Some ==> ({ let n = l.next->0; lm.contains_key(n) && lm[n].wf() && lm[n].size > 0 && m.contains_key(lm[n].ks()[0].ord()) && m[lm[n].ks()[0].ord()] == (lm[n].ks()[0], lm[n].vs()[0]) })
    &&& l.prev is Some ==> ({ let n = l.prev->0; let p = lm[n].size - 1; lm.contains_key(n) && lm[n].wf() && lm[n].size > 0 && m.contains_key(lm[n].ks()[p].ord()) && m[lm[n].ks()[p].ord()] == (lm[n].ks()[p], lm[n].vs()[p]) })
}
proof fn next_key<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, x: real)
    requires tree(im, lm, g, m), settled(g), g.rg.contains_key(NodeId::Leaf(id)), g.rg[NodeId::Leaf(id)].lo <= x < g.rg[NodeId::Leaf(id)].hi,
    ensures near(lm, m, id, x), sides(lm, m, id),
{
    assert(leaf_ok(lm, g, m, id));
    let l = lm[id];
    let r = g.rg[NodeId::Leaf(id)];
    get_links(g, id, l.prev, l.next);
    all_linked_full(im, lm, g, m);
    assert(l.ks().len() == l.size);
    range_next(m, l.ks(), l.vs(), r.lo, r.hi, x);
    range_prev(m, l.ks(), l.vs(), r.lo, r.hi, x);
    if l.next is Some {
        let n = l.next->0;
        assert(leaf_ok(lm, g, m, n));
        get_links(g, n, lm[n].prev, lm[n].next);
        assert(lm[n].ks().len() == lm[n].size);
        range_ends(m, lm[n].ks(), lm[n].vs(), g.rg[NodeId::Leaf(n)].lo, g.rg[NodeId::Leaf(n)].hi);
    }
    if l.prev is Some {
        let n = l.prev->0;
        assert(leaf_ok(lm, g, m, n));
        get_links(g, n, lm[n].prev, lm[n].next);
        assert(lm[n].ks().len() == lm[n].size);
        range_ends(m, lm[n].ks(), lm[n].vs(), g.rg[NodeId::Leaf(n)].lo, g.rg[NodeId::Leaf(n)].hi);
    }
    assert forall|p: int| #![trigger l.vs()[p]] 0 <= p < l.size && l.ks()[p].ord() > x && (p > 0 ==> l.ks()[p - 1].ord() <= x) implies is_next(m, x, l.ks()[p].ord()) && m[l.ks()[p].ord()] == (l.ks()[p], l.vs()[p]) by {
        range_next_at(m, l.ks(), l.vs(), r.lo, r.hi, x, p);
    }
    assert forall|p: int| #![trigger l.vs()[p]] 0 <= p < l.size && l.ks()[p].ord() < x && (p + 1 < l.size ==> l.ks()[p + 1].ord() >= x) implies is_prev(m, x, l.ks()[p].ord()) && m[l.ks()[p].ord()] == (l.ks()[p], l.vs()[p]) by {
        range_prev_at(m, l.ks(), l.vs(), r.lo, r.hi, x, p);
    }
}
/// `here` for every leaf that covers x
proof fn heres<K: Key, V, A: Augmentation<K, V>>(t: &BPlusTree<K, V, A>, x: real)
    requires t.wf(),
    ensures forall|id: LeafNodeId| #[trigger] t.lm().contains_key(id) ==> t.lm()[id].wf() && sorted(t.lm()[id].ks()),
        forall|id: LeafNodeId| #[trigger] t.covers(NodeId::Leaf(id), x) ==> here(t.lm(), t.m(), id, x),
{
    let (im, lm, g, m) = (t.im(), t.lm(), t.gg(), t.m());
    assert forall|id: LeafNodeId| #[trigger] lm.contains_key(id) implies lm[id].wf() && sorted(lm[id].ks()) by { assert(leaf_ok(lm, g, m, id)); leaf_sorted(lm, g, m, id); }
    assert forall|id: LeafNodeId| #[trigger] t.covers(NodeId::Leaf(id), x) implies here(lm, m, id, x) by {
        assert(leaf_ok(lm, g, m, id));
        leaf_has(lm, g, m, id, x);
        assert forall|p: int| #![trigger lm[id].vs()[p]] 0 <= p < lm[id].size implies m.contains_key(lm[id].ks()[p].ord()) && m[lm[id].ks()[p].ord()] == (lm[id].ks()[p], lm[id].vs()[p]) by { leaf_entry(lm, g, m, id, p); }
    }
}
/// `near` for every leaf that covers x
proof fn next_keys<K: Key, V, A: Augmentation<K, V>>(t: &BPlusTree<K, V, A>, x: real)
    requires t.wf(),
    ensures forall|id: LeafNodeId| #[trigger] t.covers(NodeId::Leaf(id), x) ==> near(t.lm(), t.m(), id, x) && sides(t.lm(), t.m(), id),
{
    let (im, lm, g, m) = (t.im(), t.lm(), t.gg(), t.m());
    assert forall|id: LeafNodeId| #[trigger] t.covers(NodeId::Leaf(id), x) implies near(lm, m, id, x) && sides(lm, m, id) by { next_key(im, lm, g, m, id, x); }
}
//@ struct tree/cursor.rs Cursor
//@ raw
impl<K: Key> Cursor<K> {
    /// the cursor's key is the least greater key of m
    pub open spec fn to_next<V>(r: Option<(Self, &V)>, m: Map<real, (K, V)>, x: real) -> bool {
        match r { Some(c) => is_next(m, x, c.0.k.ord()) && *c.1 == m[c.0.k.ord()].1, None => forall|z: real| #[trigger] m.contains_key(z) ==> z <= x }
    }
    pub open spec fn to_prev<V>(r: Option<(Self, &V)>, m: Map<real, (K, V)>, x: real) -> bool {
        match r { Some(c) => is_prev(m, x, c.0.k.ord()) && *c.1 == m[c.0.k.ord()].1, None => forall|z: real| #[trigger] m.contains_key(z) ==> z >= x }
    }
//@ fn tree/cursor.rs Cursor::new
//@ props C10
//@ params k leaf_id offset
//@ ret r
//@ spec
    ensures r.k == k,
//@ fn tree/cursor.rs Cursor::key
//@ props C10
//@ params self
//@ ret r
//@ spec
    ensures *r == self.k,
//@ fn tree/cursor.rs Cursor::first
//@ props C10
//@ params tree
//@ ret r
//@ generics <'b, V, A: Augmentation<K, V>>
//@ spec
    requires tree.wf(),
    ensures (r is None) == (tree.m().len() == 0),
        r is Some ==> is_min(tree.m(), (r->0).0.k.ord()) && *(r->0).1 == tree.m()[(r->0).0.k.ord()].1,
//@ at start
    proof { end_leaves(tree); }
//@ fn tree/cursor.rs Cursor::last
//@ props C10
//@ params tree
//@ ret r
//@ generics <'b, V, A: Augmentation<K, V>>
//@ spec
    requires tree.wf(),
    ensures (r is None) == (tree.m().len() == 0),
        r is Some ==> is_max(tree.m(), (r->0).0.k.ord()) && *(r->0).1 == tree.m()[(r->0).0.k.ord()].1,
//@ at start
    proof { end_leaves(tree); }
//@ fn tree/cursor.rs Cursor::locate_leaf
//@ props C10
//@ params self tree
//@ ret r
//@ generics <'b, V, A: Augmentation<K, V>>
//@ spec
    requires tree.wf(),
    ensures r is Some, tree.covers(NodeId::Leaf((r->0).0), self.k.ord()), *(r->0).1 == tree.lm()[(r->0).0],
//@ at start
    proof { self.k.ord_bounds(); cache_hits(tree.im(), tree.lm(), tree.gg(), tree.m(), self.k.ord()); heres(tree, self.k.ord()); }
//@ fn tree/cursor.rs Cursor::prev_with_value
//@ props C10
//@ params self tree
//@ ret r
//@ generics <'a, 'b, V, A: Augmentation<K, V>>
//@ spec
    requires tree.wf(),
    ensures Self::to_prev(r, tree.m(), self.k.ord()),
//@ at start
    proof { heres(tree, self.k.ord()); next_keys(tree, self.k.ord()); }
//@ fn tree/cursor.rs Cursor::prev
//@ props C10
//@ params self tree
//@ ret r
//@ generics <V, A: Augmentation<K, V>>
//@ spec
    requires tree.wf(),
    ensures match r { Some(c) => is_prev(tree.m(), self.k.ord(), c.k.ord()), None => forall|z: real| #[trigger] tree.m().contains_key(z) ==> z >= self.k.ord() },
//@ fn tree/cursor.rs Cursor::next_with_value
//@ props C10
//@ params self tree
//@ ret r
//@ generics <'a, 'b, V, A: Augmentation<K, V>>
//@ spec
    requires tree.wf(),
    ensures Self::to_next(r, tree.m(), self.k.ord()),
//@ at start
    proof { heres(tree, self.k.ord()); next_keys(tree, self.k.ord()); }
//@ fn tree/cursor.rs Cursor::next
//@ props C10
//@ params self tree
//@ ret r
//@ generics <V, A: Augmentation<K, V>>
//@ spec
    requires tree.wf(),
    ensures match r { Some(c) => is_next(tree.m(), self.k.ord(), c.k.ord()), None => forall|z: real| #[trigger] tree.m().contains_key(z) ==> z <= self.k.ord() },
//@ fn tree/cursor.rs Cursor::value
//@ props C10
//@ params self tree
//@ ret r
//@ generics <'a, 'b, V, A: Augmentation<K, V>>
//@ spec
    requires tree.wf(),
    ensures shows(r, lookup(tree.m(), self.k.ord())),
//@ at start
    proof { heres(tree, self.k.ord()); }
//@ fn tree/cursor.rs Cursor::exists
//@ props C10
//@ params self tree
//@ ret r
//@ generics <V, A: Augmentation<K, V>>
//@ spec
    requires tree.wf(),
    ensures r == tree.m().contains_key(self.k.ord()),
//@ raw
}
/// the first and the last leaf
proof fn end_leaves<K: Key, V, A: Augmentation<K, V>>(t: &BPlusTree<K, V, A>)
    requires t.wf(),
    ensures
        forall|id: LeafNodeId| #[trigger] t.gg().rg.contains_key(NodeId::Leaf(id)) ==> t.lm().contains_key(id) && t.lm()[id].wf() && (t.lm()[id].size == 0) == (t.m().len() == 0),
        forall|id: LeafNodeId| #[trigger] t.gg().rg.contains_key(NodeId::Leaf(id)) && t.lm()[id].size > 0 && t.gg().rg[NodeId::Leaf(id)].lo == 0real
            ==> is_min(t.m(), t.lm()[id].ks()[0].ord()) && t.m()[t.lm()[id].ks()[0].ord()] == (t.lm()[id].ks()[0], t.lm()[id].vs()[0]),
        forall|id: LeafNodeId| #[trigger] t.gg().rg.contains_key(NodeId::Leaf(id)) && t.lm()[id].size > 0 && t.gg().rg[NodeId::Leaf(id)].hi == 1real
            ==> ({ let p = t.lm()[id].size - 1; is_max(t.m(), t.lm()[id].ks()[p].ord()) && t.m()[t.lm()[id].ks()[p].ord()] == (t.lm()[id].ks()[p], t.lm()[id].vs()[p]) }),
{
    let (im, lm, g, m) = (t.im(), t.lm(), t.gg(), t.m());
    assert forall|id: LeafNodeId| #[trigger] g.rg.contains_key(NodeId::Leaf(id)) implies lm.contains_key(id) && lm[id].wf() && (lm[id].size == 0) == (m.len() == 0) by {
        assert(leaf_ok(lm, g, m, id));
        if m.len() > 0 { leaf_filled(im, lm, g, m, id); }
        else if lm[id].size > 0 { leaf_entry(lm, g, m, id, 0); }
    }
    assert forall|id: LeafNodeId| #[trigger] g.rg.contains_key(NodeId::Leaf(id)) && lm[id].size > 0 implies ({
        let p = lm[id].size - 1;
        &&& g.rg[NodeId::Leaf(id)].lo == 0real ==> is_min(m, lm[id].ks()[0].ord()) && m[lm[id].ks()[0].ord()] == (lm[id].ks()[0], lm[id].vs()[0])
        &&& g.rg[NodeId::Leaf(id)].hi == 1real ==> is_max(m, lm[id].ks()[p].ord()) && m[lm[id].ks()[p].ord()] == (lm[id].ks()[p], lm[id].vs()[p])
    }) by {
        assert(leaf_ok(lm, g, m, id));
        end_keys(lm, g, m, id);
        leaf_entry(lm, g, m, id, 0);
        leaf_entry(lm, g, m, id, lm[id].size - 1);
    }
}
