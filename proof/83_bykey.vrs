//@ raw
// ======================= finding, removing and ranking by augmentation ==============================

/// the keys of a tree
pub proof fn tree_keyed<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>)
    requires tree(im, lm, g, m), g.pend is None,
    ensures keyed(m), lists(m, keys(m)),
{
    assert forall|x: real| #[trigger] m.contains_key(x) implies m[x].0.ord() == x by {
        let l = find_leaf(im, lm, g, m, g.root, x);
        assert(leaf_ok(lm, g, m, l));
        reveal(lc);
        assert(hask(lm[l].ks(), x));
    }
    listed(m);
}
/// the keys below node n
pub open spec fn below<K: Key, V, A: Augmentation<K, V>>(t: &BPlusTree<K, V, A>, n: NodeId) -> Seq<K> { within(keys(t.m()), t.gg().rg[n].lo, t.gg().rg[n].hi) }
/// the i-th child of node n holds the part of the keys between two cuts
proof fn child_within<K: Key, V, A: SeqAug<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, all: Seq<K>, id: InnerNodeId, i: int)
    requires tree(im, lm, g, m), settled(g), g.fresh, lists(m, all), all.len() <= usize::MAX, g.rg.contains_key(NodeId::Inner(id)), 0 <= i <= im[id].size,
    ensures ({
        let r = g.rg[NodeId::Inner(id)];
        let rc = g.rg[im[id].cs()[i]];
        let c = child_cuts(all, im[id], r);
        &&& g.rg.contains_key(im[id].cs()[i])
        &&& c[i] == pos(all, rc.lo) - pos(all, r.lo) && c[i + 1] == pos(all, rc.hi) - pos(all, r.lo)
        &&& 0 <= c[i] <= c[i + 1] <= within(all, r.lo, r.hi).len()
        &&& within(all, r.lo, r.hi).subrange(c[i], c[i + 1]) == within(all, rc.lo, rc.hi)
        &&& 0 <= pos(all, r.lo) <= pos(all, rc.lo) <= pos(all, rc.hi) <= pos(all, r.hi) <= all.len()
    }),
{
    let r = g.rg[NodeId::Inner(id)];
    assert(inner_ok(im, lm, g, id));
    kids(im, lm, g, id);
    child_range(im, lm, g, m, id, i, 0real);
    let rc = g.rg[im[id].cs()[i]];
    assert(r.lo <= rc.lo && rc.hi <= r.hi) by { reveal(ic); }
    pos_mono(all, r.lo, rc.lo);
    pos_mono(all, rc.lo, rc.hi);
    pos_mono(all, rc.hi, r.hi);
    let c = child_cuts(all, im[id], r);
    assert(within(all, r.lo, r.hi).subrange(c[i], c[i + 1]) =~= within(all, rc.lo, rc.hi));
}
/// the root covers all keys
proof fn all_within<K: Key, V>(m: Map<real, (K, V)>, all: Seq<K>)
    requires lists(m, all), forall|x: real| #[trigger] m.contains_key(x) ==> 0real < x && x < 1real,
    ensures within(all, 0real, 1real) == all, pos(all, 0real) == 0,
{
    has_pos(all, 0real);
    has_pos(all, 1real);
    if pos(all, 0real) > 0 { assert(all[0].ord() < 0real); assert(m.contains_key(all[0].ord())); }
    if pos(all, 1real) < all.len() { let k = all[pos(all, 1real)]; assert(k.ord() >= 1real); assert(m.contains_key(k.ord())); }
    assert(within(all, 0real, 1real) =~= all);
}
/// what the augmentation of an up-to-date tree says
pub proof fn root_says<K: Key, V, A: SeqAug<K, V>>(t: &BPlusTree<K, V, A>)
    requires t.wf(), t.gg().fresh,
    ensures t.root_augmentation.says(keys(t.m())), lists(t.m(), keys(t.m())), keys(t.m()).len() == t.len,
{
    let (im, lm, g, m) = (t.im(), t.lm(), t.gg(), t.m());
    let all = keys(m);
    tree_keyed(im, lm, g, m);
    node_says(im, lm, g, m, all, g.root);
    all_within(m, all);
    assert(g.rg[g.root] == (R { h: g.h, lo: 0real, hi: 1real }));
    A::says_none();
    if m.len() == 0 { assert(all =~= Seq::empty()); }
}
/// the search among the keys below node n finds what the search among all finds
pub open spec fn seeks<K: Key, V, A: SearchAugmentation<K, V>>(t: &BPlusTree<K, V, A>, q0: A::Query, n: NodeId, q: A::Query) -> bool {
    A::picks(q0, keys(t.m())) == moved(A::picks(q, below(t, n)), pos(keys(t.m()), t.gg().rg[n].lo))
}
pub proof fn seeks_root<K: Key, V, A: SearchAugmentation<K, V>>(t: &BPlusTree<K, V, A>, q: A::Query)
    requires t.wf(), t.gg().fresh,
    ensures seeks(t, q, t.root, q), lists(t.m(), keys(t.m())), keys(t.m()).len() <= usize::MAX,
{
    let m = t.m();
    tree_keyed(t.im(), t.lm(), t.gg(), m);
    all_within(m, keys(m));
    assert(t.gg().rg[t.gg().root] == (R { h: t.gg().h, lo: 0real, hi: 1real }));
}
pub open spec fn found<K: Key, V, A: SearchAugmentation<K, V>>(t: &BPlusTree<K, V, A>, q: A::Query, leaf: LeafNodeId, offset: int) -> bool {
    &&& A::picks(q, keys(t.m())) is Some
    &&& 0 <= A::picks(q, keys(t.m()))->0 < keys(t.m()).len()
    &&& t.lm()[leaf].ks()[offset] == keys(t.m())[A::picks(q, keys(t.m()))->0]
}
impl<K: Key, V, A: SearchAugmentation<K, V>> BPlusTree<K, V, A> {
    /// the key a query picks
    pub open spec fn picked(&self, q: A::Query) -> Option<K> {
        match A::picks(q, keys(self.m())) { Some(i) => Some(keys(self.m())[i]), None => None }
    }
//@ fn tree/mod.rs BPlusTree::get_ref_by_augmentation
//@ props C08 C09
//@ params self query0
//@ ret r
//@ generics
//@ subst query0: Q => query0: A::Query
//@ spec
    requires self.wf(), self.gg().fresh,
    ensures (r is Some) == (A::picks(query0, keys(self.m())) is Some),
        r is Some ==> (r->0).tree == self && ref_ok(self.im(), self.lm(), self.gg(), (r->0).inner_stack, (r->0).leaf_id, (r->0).offset as int)
            && found(self, query0, (r->0).leaf_id, (r->0).offset as int),
//@ at start
    proof { seeks_root(self, query0); chain_empty(self.im(), self.gg()); }
//@ loop 0
    invariant self.wf(), self.gg().fresh, self.gg().rg.contains_key(node_id), self.gg().rg[node_id].h == self.gg().h - stack.es().len(),
        stack.wf(), chain(self.im(), self.gg(), stack.es(), node_id), seeks(self, query0, node_id, query),
        lists(self.m(), keys(self.m())), keys(self.m()).len() <= usize::MAX,
    decreases self.gg().rg[node_id].h,
//@ at before call get_inner
    proof {
        let (im, lm, g, m) = (self.im(), self.lm(), self.gg(), self.m());
        node_there(im, lm, g, m, node_id);
        node_says(im, lm, g, m, keys(m), node_id);
        assert(im[inner_id].augs().len() == im[inner_id].size + 1);
        assert forall|i: int| 0 <= i <= im[inner_id].size implies ({
            let c = child_cuts(keys(m), im[inner_id], g.rg[node_id]);
            let rc = g.rg[#[trigger] im[inner_id].cs()[i]];
            &&& g.rg.contains_key(im[inner_id].cs()[i]) && rc.h == g.rg[node_id].h - 1
            &&& c[i] == pos(keys(m), rc.lo) - pos(keys(m), g.rg[node_id].lo)
            &&& below(self, node_id).subrange(c[i], c[i + 1]) == below(self, im[inner_id].cs()[i])
        }) by { child_range(im, lm, g, m, inner_id, i, 0real); child_within(im, lm, g, m, keys(m), inner_id, i); }
    }
//@ at loopstart 0
    let ghost __es = stack.es();
//@ at arm Inner end
    proof { chain_push(self.im(), self.lm(), self.gg(), self.m(), __es, inner_id, stack.es().last()); }
//@ at before call get_leaf
    proof {
        let (im, lm, g, m) = (self.im(), self.lm(), self.gg(), self.m());
        node_there(im, lm, g, m, node_id);
        assert(leaf_ok(lm, g, m, leaf_id));
        leaf_within(lm, g, m, keys(m), leaf_id);
        let r = g.rg[node_id];
        pos_mono(keys(m), 0real, r.lo);
        pos_mono(keys(m), r.lo, r.hi);
    }
//@ fn tree/mod.rs BPlusTree::get_by_augmentation
//@ props C08 C09
//@ params self query
//@ ret r
//@ generics
//@ subst query: Q => query: A::Query
//@ spec
    requires self.wf(), self.gg().fresh,
    ensures (r is Some) == (self.picked(query) is Some), //[C08 C09]
        r is Some ==> *(r->0).0 == self.picked(query)->0 && self.m().contains_key((r->0).0.ord()) && (*(r->0).0, *(r->0).1) == self.m()[(r->0).0.ord()], //[C08 C09]
//@ fn tree/mod.rs BPlusTree::get_mut_by_augmentation
//@ props C08 C09
//@ params self query
//@ ret r
//@ generics
//@ subst query: Q => query: A::Query
//@ spec
    requires old(self).wf(), old(self).gg().fresh,
    ensures (r is Some) == (old(self).picked(query) is Some), //[C08 C09]
        r is Some ==> ({ let x = (old(self).picked(query)->0).ord(); *(r->0) == old(self).m()[x].1 && old(self).set_value(final(self), x, *final(r->0)) }), //[C08 C09]
        r is None ==> final(self).m() == old(self).m() && final(self).gg() == old(self).gg(),
        final(self).wf(),
//@ fn tree/mod.rs BPlusTree::remove_by_augmentation
//@ props C08 C09
//@ params self query
//@ ret r
//@ generics
//@ subst query: Q => query: A::Query
//@ spec
    requires old(self).wf(), old(self).gg().fresh,
    ensures (r is Some) == (old(self).picked(query) is Some), //[C08 C09]
        r is Some ==> ({ let x = (old(self).picked(query)->0).ord(); old(self).m().contains_key(x) && r->0 == old(self).m()[x] && final(self).m() == old(self).m().remove(x) }), //[C08 C09]
        r is None ==> final(self).m() == old(self).m() && final(self).gg() == old(self).gg(),
        final(self).wf(), final(self).gg().fresh,
//@ raw
}
/// the rank of the keys before node n
pub open spec fn ranked<K: Key, V, A: RankAugmentation<K, V>>(t: &BPlusTree<K, V, A>, n: NodeId, rank: A::Rank) -> bool {
    A::so_far(rank, keys(t.m()).take(pos(keys(t.m()), t.gg().rg[n].lo)))
}
/// what folding the augmentations of the children before child i needs and gives
proof fn child_folds<K: Key, V, A: RankAugmentation<K, V>>(t: &BPlusTree<K, V, A>, id: InnerNodeId, i: int, k: K, rank: A::Rank)
    requires t.wf(), t.gg().fresh, t.covers(NodeId::Inner(id), k.ord()), ranked(t, NodeId::Inner(id), rank), at_child(t.im()[id].ks(), k.ord(), i),
    ensures ({
        let all = keys(t.m());
        let pre = all.take(pos(all, t.gg().rg[NodeId::Inner(id)].lo));
        let n = t.im()[id];
        let c = child_cuts(all, n, t.gg().rg[NodeId::Inner(id)]);
        let ks = below(t, NodeId::Inner(id)).take(c[i]);
        &&& folds::<K, V, A>(k, rank, n.augs().subrange(0, i), pre, ks, c.take(i + 1))
        &&& pre + ks == all.take(pos(all, t.gg().rg[n.cs()[i]].lo))
        &&& n.augs().len() == n.size + 1 && i <= n.size
        &&& t.covers(n.cs()[i], k.ord()) && t.gg().rg[n.cs()[i]].h == t.gg().rg[NodeId::Inner(id)].h - 1
    }),
{
    let (im, lm, g, m) = (t.im(), t.lm(), t.gg(), t.m());
    let all = keys(m);
    let nd = NodeId::Inner(id);
    let r = g.rg[nd];
    tree_keyed(im, lm, g, m);
    node_there(im, lm, g, m, nd);
    node_says(im, lm, g, m, all, nd);
    child_covers(im, lm, g, m, id, k.ord());
    child_range(im, lm, g, m, id, i, k.ord());
    child_within(im, lm, g, m, all, id, i);
    let n = im[id];
    let rc = g.rg[n.cs()[i]];
    let w = below(t, nd);
    let c = child_cuts(all, n, r);
    let pre = all.take(pos(all, r.lo));
    let ks = w.take(c[i]);
    let c2 = c.take(i + 1);
    let augs2 = n.augs().subrange(0, i);
    assert(pre + ks =~= all.take(pos(all, rc.lo)));
    assert forall|j: int| 0 <= j < augs2.len() implies #[trigger] part::<K, V, A>(augs2, ks, c2, j) by {
        assert(part::<K, V, A>(n.augs(), w, c, j));
        child_within(im, lm, g, m, all, id, j);
        child_range(im, lm, g, m, id, j, 0real);
        assert(c2[j] == c[j] && c2[j + 1] == c[j + 1]);
        reveal(ic);
        assert(inner_ok(im, lm, g, id));
        assert(bnd(n.ks(), r.lo, r.hi, j + 1) <= bnd(n.ks(), r.lo, r.hi, i));
        pos_mono(all, bnd(n.ks(), r.lo, r.hi, j + 1), rc.lo);
        assert(w.subrange(c[j], c[j + 1]) =~= ks.subrange(c[j], c[j + 1]));
    }
    assert forall|a: int, b: int| 0 <= a < b < ks.len() implies (#[trigger] ks[a]).ord() < (#[trigger] ks[b]).ord() by { assert(ks[a] == w[a] && ks[b] == w[b]); }
    assert(cuts::<K, V, A>(augs2, ks, c2));
    has_pos(all, rc.lo);
    assert forall|j: int| 0 <= j < pre.len() + ks.len() implies (#[trigger] (pre + ks)[j]).ord() <= k.ord() by { assert((pre + ks)[j] == all[j]); }
    assert forall|a: int, b: int| 0 <= a < b < (pre + ks).len() implies (#[trigger] (pre + ks)[a]).ord() < (#[trigger] (pre + ks)[b]).ord() by { assert((pre + ks)[a] == all[a] && (pre + ks)[b] == all[b]); }
}
proof fn lands_at<K: Key, V, A: RankAugmentation<K, V>>(all: Seq<K>, k: K, rank: A::Rank, slot: Result<usize, usize>, lo: int, hi: int, p: int)
    requires sorted(all), all.len() <= usize::MAX, 0 <= lo <= p <= hi <= all.len(), is_pos(all, k.ord(), p), is_pos(all.subrange(lo, hi), k.ord(), slot_of(slot)),
        (slot is Ok) == hask(all.subrange(lo, hi), k.ord()), A::so_far(rank, all.take(lo)), lo == hi ==> lo == 0,
    ensures lands::<K, V, A>(k, rank, slot, all.take(lo), all.subrange(lo, hi)), all.take(lo) + all.subrange(lo, hi).take(slot_of(slot)) == all.take(p),
{
    let x = k.ord();
    let pre = all.take(lo);
    let ks = all.subrange(lo, hi);
    let i = slot_of(slot);
    assert(pre + ks =~= all.take(hi));
    assert forall|a: int, b: int| 0 <= a < b < (pre + ks).len() implies (#[trigger] (pre + ks)[a]).ord() < (#[trigger] (pre + ks)[b]).ord() by { assert((pre + ks)[a] == all[a] && (pre + ks)[b] == all[b]); }
    assert forall|j: int| 0 <= j < ks.len() implies ks[j] == #[trigger] all[lo + j] by { }
    assert(lo + i == p) by {
        if lo + i < p { assert(all[lo + i].ord() < x); assert(ks[i] == all[lo + i]); assert(ks[i].ord() >= x); }
        if p < lo + i { assert(all[p].ord() >= x); assert(ks[p - lo] == all[lo + (p - lo)]); assert(ks[p - lo].ord() < x); }
    }
    assert forall|j: int| 0 <= j < lo + i implies (#[trigger] (pre + ks)[j]).ord() < x by { assert((pre + ks)[j] == all[j]); }
    assert forall|j: int| lo + i <= j < (pre + ks).len() implies (#[trigger] (pre + ks)[j]).ord() >= x by { assert((pre + ks)[j] == all[j]); }
    assert(is_pos(pre + ks, x, lo + i));
    assert(pre + ks.take(i) =~= all.take(p));
}
/// what folding a leaf needs and gives
proof fn leaf_lands<K: Key, V, A: RankAugmentation<K, V>>(t: &BPlusTree<K, V, A>, id: LeafNodeId, k: K, rank: A::Rank)
    requires t.wf(), t.gg().fresh, t.covers(NodeId::Leaf(id), k.ord()), ranked(t, NodeId::Leaf(id), rank),
    ensures ({
        let all = keys(t.m());
        let pre = all.take(pos(all, t.gg().rg[NodeId::Leaf(id)].lo));
        let ks = t.lm()[id].ks();
        &&& sorted(ks) && t.m().contains_key(k.ord()) == hask(ks, k.ord())
        &&& forall|slot: Result<usize, usize>| #[trigger] is_pos(ks, k.ord(), slot_of(slot)) && (slot is Ok) == hask(ks, k.ord()) ==> lands::<K, V, A>(k, rank, slot, pre, ks)
                && pre + ks.take(slot_of(slot)) == all.take(pos(all, k.ord()))
    }),
{
    let (im, lm, g, m) = (t.im(), t.lm(), t.gg(), t.m());
    let all = keys(m);
    let nd = NodeId::Leaf(id);
    let r = g.rg[nd];
    let x = k.ord();
    tree_keyed(im, lm, g, m);
    node_there(im, lm, g, m, nd);
    assert(leaf_ok(lm, g, m, id));
    leaf_within(lm, g, m, all, id);
    node_says(im, lm, g, m, all, nd);
    pos_mono(all, 0real, r.lo);
    all_within(m, all);
    assert(g.rg[g.root] == (R { h: g.h, lo: 0real, hi: 1real }));
    leaf_has(lm, g, m, id, x);
    pos_mono(all, r.lo, x);
    pos_mono(all, x, r.hi);
    let (lo, hi, p) = (pos(all, r.lo), pos(all, r.hi), pos(all, x));
    let pre = all.take(lo);
    let ks = lm[id].ks();
    has_pos(all, x);
    has_pos(all, r.lo);
    assert(ks == all.subrange(lo, hi));
    assert forall|slot: Result<usize, usize>| #[trigger] is_pos(ks, x, slot_of(slot)) && (slot is Ok) == hask(ks, x) implies lands::<K, V, A>(k, rank, slot, pre, ks) && pre + ks.take(slot_of(slot)) == all.take(p) by {
        lands_at::<K, V, A>(all, k, rank, slot, lo, hi, p);
    }
}
impl<K: Key, V, A: RankAugmentation<K, V>> BPlusTree<K, V, A> {
//@ fn tree/mod.rs BPlusTree::rank_by_augmentation
//@ props C08 C09
//@ params self k
//@ ret r
//@ generics
//@ subst Result < R, R > => Result<A::Rank, A::Rank>
//@ spec
    requires self.wf(), self.gg().fresh,
    ensures (r is Ok) == self.m().contains_key(k.ord()), //[C08 C09]
        A::ranks(match r { Ok(x) => x, Err(x) => x }, *k, keys(self.m()).take(pos(keys(self.m()), k.ord()))), //[C08 C09]
//@ at start
    proof { k.ord_bounds(); tree_keyed(self.im(), self.lm(), self.gg(), self.m()); all_within(self.m(), keys(self.m())); assert(self.gg().rg[self.gg().root] == (R { h: self.gg().h, lo: 0real, hi: 1real })); assert(keys(self.m()).take(0) =~= Seq::empty()); }
//@ loop 0
    invariant self.wf(), self.gg().fresh, self.covers(node_id, k.ord()), ranked(self, node_id, rank),
    decreases self.gg().rg[node_id].h,
//@ at before call get_inner
    proof {
        node_there(self.im(), self.lm(), self.gg(), self.m(), node_id);
        assert forall|i: int| #[trigger] at_child(self.im()[inner_id].ks(), k.ord(), i) implies ({
            let all = keys(self.m());
            let pre = all.take(pos(all, self.gg().rg[NodeId::Inner(inner_id)].lo));
            let n = self.im()[inner_id];
            let c = child_cuts(all, n, self.gg().rg[NodeId::Inner(inner_id)]);
            let ks = below(self, NodeId::Inner(inner_id)).take(c[i]);
            &&& folds::<K, V, A>(*k, rank, n.augs().subrange(0, i), pre, ks, c.take(i + 1))
            &&& pre + ks == all.take(pos(all, self.gg().rg[n.cs()[i]].lo))
            &&& n.augs().len() == n.size + 1 && i <= n.size
            &&& self.covers(n.cs()[i], k.ord()) && self.gg().rg[n.cs()[i]].h == self.gg().rg[NodeId::Inner(inner_id)].h - 1
        }) by { child_folds(self, inner_id, i, *k, rank); }
    }
//@ at before call get_leaf
    proof { node_there(self.im(), self.lm(), self.gg(), self.m(), node_id); leaf_lands(self, leaf_id, *k, rank); }
//@ at before call fold_leaf
    proof {
        let ks = self.lm()[leaf_id].ks();
        assert(is_pos(ks, k.ord(), slot_of(slot)));
        assert(slot is Ok ==> hask(ks, k.ord()));
        assert((slot is Ok) == hask(ks, k.ord()));
    }
//@ raw
}

/// The root augmentation of an up-to-date tree counts its keys
pub proof fn root_counts<K: Key, V>(t: &BPlusTree<K, V, Count>)
    requires t.wf(), t.gg().fresh,
    ensures t.root_augmentation.0 == t.m().len(), //[C08 C09]
{
    root_says::<K, V, Count>(t);
}
