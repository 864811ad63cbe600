//@ struct tree/mod.rs Statistic
//@ raw
impl Statistic {
//@ fn tree/mod.rs Statistic::Default::default
//@ ret r
//@ spec
    ensures true,
//@ raw
}
//@ struct tree/mod.rs BPlusTree
//@ ghost pub g: Ghost<G>
//@ struct tree/mod.rs DescendInsertResult
//@ raw
pub open spec fn settled(g: G) -> bool { g.pend is None && g.dirty is None && g.under is None }
pub open spec fn aug_ok<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, a: A) -> bool {
    g.fresh ==> a == aug_of(im, lm, g.root) || (m.len() == 0 && a == A::default_spec())
}
/// the path the stack holds, from the root to `cur`
#[verifier::opaque]
pub open spec fn chain<K: Key, A>(im: IM<K, A>, g: G, es: Seq<StackEntry>, cur: NodeId) -> bool {
    &&& es.len() <= g.h
    &&& cur == (if es.len() > 0 { es.last().child_id } else { g.root })
    &&& forall|i: int| 0 <= i < es.len() ==> ({
        let e = #[trigger] es[i];
        &&& NodeId::Inner(e.id) == (if i > 0 { es[i - 1].child_id } else { g.root })
        &&& g.rg.contains_key(NodeId::Inner(e.id)) && g.rg[NodeId::Inner(e.id)].h == g.h - i
        &&& e.offset <= im[e.id].size && e.child_id == im[e.id].cs()[e.offset as int]
    })
}
pub proof fn chain_empty<K: Key, A>(im: IM<K, A>, g: G)
    requires g.h >= 0,
    ensures forall|es: Seq<StackEntry>| es.len() == 0 ==> #[trigger] chain(im, g, es, g.root),
{
    reveal(chain);
}
pub proof fn chain_push<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, es: Seq<StackEntry>, id: InnerNodeId, e: StackEntry)
    requires tree(im, lm, g, m), g.pend is None, chain(im, g, es, NodeId::Inner(id)), g.rg.contains_key(NodeId::Inner(id)), g.rg[NodeId::Inner(id)].h == g.h - es.len(),
        e.id == id, e.offset <= im[id].size, e.child_id == im[id].cs()[e.offset as int],
    ensures chain(im, g, es.push(e), e.child_id), g.rg.contains_key(e.child_id), g.rg[e.child_id].h == g.h - es.len() - 1,
{
    reveal(chain);
    assert(inner_ok(im, lm, g, id));
    kids(im, lm, g, id);
    let es2 = es.push(e);
    assert(es2.last() == e);
    assert forall|i: int| 0 <= i < es2.len() implies ({
        let e = #[trigger] es2[i];
        &&& NodeId::Inner(e.id) == (if i > 0 { es2[i - 1].child_id } else { g.root })
        &&& g.rg.contains_key(NodeId::Inner(e.id)) && g.rg[NodeId::Inner(e.id)].h == g.h - i
        &&& e.offset <= im[e.id].size && e.child_id == im[e.id].cs()[e.offset as int]
    }) by {
        if i < es.len() { assert(es2[i] == es[i]); if i > 0 { assert(es2[i - 1] == es[i - 1]); } }
        else if i > 0 { assert(es2[i - 1] == es[i - 1]); }
    }
}
/// what the top entry of the path says
pub proof fn chain_top<K: Key, A>(im: IM<K, A>, g: G, es: Seq<StackEntry>, cur: NodeId)
    requires chain(im, g, es, cur), es.len() > 0,
    ensures ({ let e = es.last();
        &&& g.rg.contains_key(NodeId::Inner(e.id)) && g.rg[NodeId::Inner(e.id)].h == g.h - es.len() + 1
        &&& e.offset <= im[e.id].size && e.child_id == im[e.id].cs()[e.offset as int] && cur == e.child_id
        &&& es.len() == 1 ==> NodeId::Inner(e.id) == g.root
    }),
{
    reveal(chain);
}
/// the path up to the top entry, when only nodes at or below it have changed
pub proof fn chain_pop<K: Key, A>(im: IM<K, A>, g: G, es: Seq<StackEntry>, cur: NodeId, im2: IM<K, A>, g2: G)
    requires chain(im, g, es, cur), es.len() > 0, g2.h == g.h, g2.root == g.root,
        forall|n: InnerNodeId| #[trigger] g.rg.contains_key(NodeId::Inner(n)) && g.rg[NodeId::Inner(n)].h > g.rg[NodeId::Inner(es.last().id)].h ==> im2[n] == im[n] && g2.rg.contains_key(NodeId::Inner(n)) && g2.rg[NodeId::Inner(n)].h == g.rg[NodeId::Inner(n)].h,
    ensures chain(im2, g2, es.drop_last(), NodeId::Inner(es.last().id)),
{
    reveal(chain);
    let es2 = es.drop_last();
    assert(es[es.len() - 1] == es.last());
    if es.len() > 1 { assert(es2.last() == es[es.len() - 2]); }
    assert forall|i: int| 0 <= i < es2.len() implies ({
        let e = #[trigger] es2[i];
        &&& NodeId::Inner(e.id) == (if i > 0 { es2[i - 1].child_id } else { g2.root })
        &&& g2.rg.contains_key(NodeId::Inner(e.id)) && g2.rg[NodeId::Inner(e.id)].h == g2.h - i
        &&& e.offset <= im2[e.id].size && e.child_id == im2[e.id].cs()[e.offset as int]
    }) by {
        assert(es2[i] == es[i]);
        if i > 0 { assert(es2[i - 1] == es[i - 1]); }
    }
}
/// the path, when no inner node has changed
pub proof fn chain_frame<K: Key, A>(im: IM<K, A>, g: G, es: Seq<StackEntry>, cur: NodeId, im2: IM<K, A>, g2: G)
    requires chain(im, g, es, cur), g2.h == g.h, g2.root == g.root,
        forall|n: InnerNodeId| #[trigger] g.rg.contains_key(NodeId::Inner(n)) ==> im2[n] == im[n] && g2.rg.contains_key(NodeId::Inner(n)) && g2.rg[NodeId::Inner(n)].h == g.rg[NodeId::Inner(n)].h,
    ensures chain(im2, g2, es, cur),
{
    reveal(chain);
}
/// where a key belongs among the children
pub proof fn child_range<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: InnerNodeId, i: int, x: real)
    requires tree(im, lm, g, m), g.pend is None, g.rg.contains_key(NodeId::Inner(id)), 0 <= i <= im[id].size,
    ensures
        g.rg.contains_key(im[id].cs()[i]), g.rg[im[id].cs()[i]].h == g.rg[NodeId::Inner(id)].h - 1,
        ({ let r = g.rg[NodeId::Inner(id)]; let ks = im[id].ks();
           r.lo <= x < r.hi && (i > 0 ==> ks[i - 1].ord() <= x) && (i < im[id].size ==> x < ks[i].ord()) ==> g.rg[im[id].cs()[i]].lo <= x < g.rg[im[id].cs()[i]].hi }),
        g.rg[im[id].cs()[i]].lo == bnd(im[id].ks(), g.rg[NodeId::Inner(id)].lo, g.rg[NodeId::Inner(id)].hi, i),
        g.rg[im[id].cs()[i]].hi == bnd(im[id].ks(), g.rg[NodeId::Inner(id)].lo, g.rg[NodeId::Inner(id)].hi, i + 1),
{
    assert(inner_ok(im, lm, g, id));
    kids(im, lm, g, id);
    reveal(ic);
    assert(crange(g, im[id].cs()[i]).lo == bnd(im[id].ks(), g.rg[NodeId::Inner(id)].lo, g.rg[NodeId::Inner(id)].hi, i));
}
pub proof fn node_sorted<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, id: InnerNodeId)
    requires inner_ok(im, lm, g, id),
    ensures sorted(im[id].ks()),
{
    reveal(ic);
}
pub proof fn leaf_sorted<K: Key, V>(lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId)
    requires leaf_ok(lm, g, m, id),
    ensures sorted(lm[id].ks()),
{
    reveal(lc);
}
/// a key in the range of a leaf is in the tree exactly if it is in the leaf
pub proof fn leaf_has<K: Key, V>(lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, x: real)
    requires leaf_ok(lm, g, m, id), g.rg[NodeId::Leaf(id)].lo <= x < g.rg[NodeId::Leaf(id)].hi,
    ensures m.contains_key(x) == hask(lm[id].ks(), x),
        forall|i: int| 0 <= i < lm[id].size && (#[trigger] lm[id].ks()[i]).ord() == x ==> m.contains_key(x) && m[x] == (lm[id].ks()[i], lm[id].vs()[i]),
        forall|i: int| #[trigger] is_pos(lm[id].ks(), x, i) && hask(lm[id].ks(), x) ==> i < lm[id].size && lm[id].ks()[i].ord() == x,
{
    reveal(lc);
    assert forall|i: int| #[trigger] is_pos(lm[id].ks(), x, i) && hask(lm[id].ks(), x) implies i < lm[id].size && lm[id].ks()[i].ord() == x by {
        let ks = lm[id].ks();
        let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == x;
        if j < i { assert(ks[j].ord() < x); }
        if i < j { assert(ks[i].ord() >= x); assert(ks[i].ord() < ks[j].ord()); }
    }
}

pub open spec fn the_m<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G) -> Map<real, (K, V)> { choose|m: Map<real, (K, V)>| tree(im, lm, g, m) }
/// what inserting (k, v) below node n does
pub open spec fn ins_m<K: Key, V>(m: Map<real, (K, V)>, k: K, v: V) -> Map<real, (K, V)> {
    if m.contains_key(k.ord()) { m.insert(k.ord(), (m[k.ord()].0, v)) } else { m.insert(k.ord(), (k, v)) }
}
pub open spec fn ins_post<K: Key, V, A: Augmentation<K, V>>(o: &BPlusTree<K, V, A>, f: &BPlusTree<K, V, A>, n: NodeId, k: K, v: V, r: DescendInsertResult<K, V>) -> bool {
    let m = o.m();
    let g = o.gg();
    &&& f.len == o.len && f.root == o.root
    &&& f.holds(ins_m(m, k, v))
    &&& match r {
        DescendInsertResult::Inserted => !m.contains_key(k.ord()) && f.gg() == (G { rg: f.gg().rg, dirty: Some(n), ..g }),
        DescendInsertResult::Updated(p) => m.contains_key(k.ord()) && p == m[k.ord()].1 && f.gg() == (G { rg: f.gg().rg, dirty: Some(n), ..g }),
        DescendInsertResult::Split(key, right) => !m.contains_key(k.ord()) && f.gg() == (G { rg: f.gg().rg, pend: Some((n, right)), dirty: Some(n), ..g })
            && f.gg().rg[right].lo == key.ord(),
    }
}
/// a node of the tree is there
pub proof fn node_there<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, n: NodeId)
    requires tree(im, lm, g, m), g.rg.contains_key(n),
    ensures match n { NodeId::Inner(i) => im.contains_key(i) && im[i].wf() && sorted(im[i].ks()), NodeId::Leaf(l) => lm.contains_key(l) && lm[l].wf() && sorted(lm[l].ks()) },
        n is Inner ==> g.rg[n].h >= 1,
{
    match n {
        NodeId::Inner(i) => { assert(inner_ok(im, lm, g, i)); node_sorted(im, lm, g, i); }
        NodeId::Leaf(l) => { assert(leaf_ok(lm, g, m, l)); leaf_sorted(lm, g, m, l); }
    }
}
impl<K: Key, V, A: Augmentation<K, V>> BPlusTree<K, V, A> {
    pub open spec fn im(&self) -> IM<K, A> { self.node_store.im() }
    pub open spec fn lm(&self) -> LM<K, V> { self.node_store.lm() }
    pub open spec fn gg(&self) -> G { self.g@ }
    /// the nodes form a tree that holds m (perhaps in the middle of an operation)
    pub open spec fn holds(&self, m: Map<real, (K, V)>) -> bool { tree(self.im(), self.lm(), self.gg(), m) && self.gg().root == self.root }
    /// the entries, by position of their key in the order
    pub open spec fn m(&self) -> Map<real, (K, V)> { the_m(self.im(), self.lm(), self.gg()) }
    pub open spec fn ok(&self, m: Map<real, (K, V)>) -> bool {
        &&& self.holds(m)
        &&& settled(self.gg())
        &&& self.len == m.len()
        &&& aug_ok(self.im(), self.lm(), self.gg(), m, self.root_augmentation) //[C07 C08 C09]
        &&& self.gg().h <= MAX_DEPTH
    }
    /// A tree as the public functions take and leave it.
    pub open spec fn wf(&self) -> bool { self.ok(self.m()) }
    pub proof fn wf_m(&self, m: Map<real, (K, V)>)
        requires self.ok(m),
        ensures self.wf(), self.m() == m,
    {
        let m2 = self.m();
        assert(tree(self.im(), self.lm(), self.gg(), m2));
        one_content(self.im(), self.lm(), self.gg(), m, m2);
    }
    pub proof fn holds_m(&self, m: Map<real, (K, V)>)
        requires self.holds(m),
        ensures self.m() == m,
    {
        one_content(self.im(), self.lm(), self.gg(), m, self.m());
    }

//@ fn tree/mod.rs BPlusTree::node_store
//@ params self
//@ ret r
//@ spec
    ensures *r == self.node_store,
//@ fn tree/mod.rs BPlusTree::len
//@ props C02 C03 C06
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == self.m().len(),
//@ fn tree/mod.rs BPlusTree::is_empty
//@ props C02 C03 C06
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == (self.m().len() == 0),
//@ fn tree/mod.rs BPlusTree::root_augmentation
//@ props C07 C08 C09
//@ params self
//@ ret r
//@ spec
    ensures *r == self.root_augmentation,
//@ fn tree/mod.rs BPlusTree::new_augmentation_for_id
//@ props C07
//@ params node_store id
//@ ret r
//@ spec
    requires match id { NodeId::Inner(i) => node_store.im().contains_key(i) && node_store.im()[i].wf(), NodeId::Leaf(l) => node_store.lm().contains_key(l) && node_store.lm()[l].wf() },
    ensures r == aug_of(node_store.im(), node_store.lm(), id),
//@ fn tree/mod.rs BPlusTree::insert_leaf
//@ props C02 C04 C11
//@ params self id k v
//@ ret r
//@ spec
    requires
        old(self).holds(old(self).m()), settled(old(self).gg()),
        old(self).gg().rg.contains_key(NodeId::Leaf(id)),
        old(self).gg().rg[NodeId::Leaf(id)].lo <= k.ord() < old(self).gg().rg[NodeId::Leaf(id)].hi,
    ensures
        final(self).im() == old(self).im(),
        ins_post(old(self), final(self), NodeId::Leaf(id), k, v, r),
        r is Split || final(self).gg().rg == old(self).gg().rg,
        forall|n: InnerNodeId| #[trigger] old(self).gg().rg.contains_key(NodeId::Inner(n)) ==> final(self).gg().rg.contains_key(NodeId::Inner(n)) && final(self).gg().rg[NodeId::Inner(n)] == old(self).gg().rg[NodeId::Inner(n)],
//@ at start
    let ghost m = self.m();
    let ghost g = self.gg();
    let ghost im = self.im();
    let ghost lm = self.lm();
    let ghost v0 = v;
    proof {
        assert(leaf_ok(lm, g, m, id));
        get_links(g, id, lm[id].prev, lm[id].next);
        leaf_sorted(lm, g, m, id);
        leaf_has(lm, g, m, id, k.ord());
        all_pos(lm[id].ks(), k.ord());
        k.ord_bounds();
    }
//@ at arm Inserted
    proof {
        let p = pos(lm[id].ks(), k.ord());
        let l2 = self.lm()[id];
        lc_insert(m, lm[id].ks(), lm[id].vs(), g.rg[NodeId::Leaf(id)].lo, g.rg[NodeId::Leaf(id)].hi, k, v, p);
        let g2 = G { dirty: Some(NodeId::Leaf(id)), ..g };
        assert(l2.ks() == lm[id].ks().insert(p, k));
        assert(l2.vs() == lm[id].vs().insert(p, v));
        assert(self.lm() =~= lm.insert(id, l2));
        assert(l2.ks().len() == l2.size);
        assert(lm[id].ks().len() == lm[id].size);
        step_leaf(im, lm, g, m, id, l2, g2, m.insert(k.ord(), (k, v)), k.ord());
        assert(self.im() =~= im);
        self.g@ = g2;
    }
//@ at arm Updated
    proof {
        let p = pos(lm[id].ks(), k.ord());
        let l2 = self.lm()[id];
        assert(hask(lm[id].ks(), k.ord()));
        assert(is_pos(lm[id].ks(), k.ord(), p));
        lc_update(m, lm[id].ks(), lm[id].vs(), g.rg[NodeId::Leaf(id)].lo, g.rg[NodeId::Leaf(id)].hi, p, v0);
        let g2 = G { dirty: Some(NodeId::Leaf(id)), ..g };
        assert(l2.ks() == lm[id].ks());
        assert(l2.vs() == lm[id].vs().update(p, v0));
        assert(self.lm() =~= lm.insert(id, l2));
        assert(l2.ks().len() == l2.size);
        assert(lm[id].ks().len() == lm[id].size);
        step_leaf(im, lm, g, m, id, l2, g2, m.insert(k.ord(), (lm[id].ks()[p], v0)), k.ord());
        assert(self.im() =~= im);
        self.g@ = g2;
    }
//@ at before call assign_leaf
    let ghost r2 = *r_leaf;
//@ at arm IsFull end
    proof {
        let p = idx as int;
        let l2 = self.lm()[id];
        let r = g.rg[NodeId::Leaf(id)];
        let ks = lm[id].ks().insert(p, k);
        let n = l2.size as int;
        let lo = ks[n].ord();
        let g2 = G { rg: g.rg.insert(NodeId::Leaf(id), R { h: 0, lo: r.lo, hi: lo }).insert(NodeId::Leaf(right_id), R { h: 0, lo: lo, hi: r.hi }),
                    pend: Some((NodeId::Leaf(id), NodeId::Leaf(right_id))), dirty: Some(NodeId::Leaf(id)), ..g };
        assert(self.lm() =~= (match lm[id].next { Some(nx) => lm.insert(id, l2).insert(nx, LeafNode { prev: Some(right_id), ..lm[nx] }).insert(right_id, r2), None => lm.insert(id, l2).insert(right_id, r2) }));
        assert(self.im() =~= im);
        assert(lm[id].ks().len() == lm[id].size);
        step_leaf_split(im, lm, g, m, id, right_id, l2, r2, self.lm(), g2, k, v, p);
        self.g@ = g2;
    }
//@ fn tree/mod.rs BPlusTree::insert_inner
//@ props C02 C07 C11
//@ params self id k v
//@ ret r
//@ spec
    requires
        old(self).holds(old(self).m()), settled(old(self).gg()), old(self).gg().h <= MAX_DEPTH,
        old(self).gg().root == NodeId::Inner(id),
    ensures
        ins_post(old(self), final(self), old(self).root, k, v, r),
//@ at start
    let ghost m = self.m();
    let ghost g0 = self.gg();
    let ghost im = self.im();
    let ghost lm = self.lm();
    let ghost m1 = ins_m(m, k, v);
    let ghost mut cur = NodeId::Inner(id);
    proof { chain_empty(im, g0); k.ord_bounds(); }
//@ loop 0
    invariant_except_break
        *self == *old(self),
        chain(im, g0, stack.es(), NodeId::Inner(id)), g0.rg.contains_key(NodeId::Inner(id)), stack.es().len() == g0.h - g0.rg[NodeId::Inner(id)].h,
        g0.rg[NodeId::Inner(id)].lo <= k.ord() < g0.rg[NodeId::Inner(id)].hi,
    invariant
        stack.wf(), old(self).holds(m), settled(g0), g0.h <= MAX_DEPTH, m == old(self).m(), g0 == old(self).gg(), im == old(self).im(), lm == old(self).lm(),
    ensures
        cur is Leaf, chain(im, g0, stack.es(), cur), ins_post(old(self), self, cur, k, v, __lv0),
        self.im() == im, stack.es().len() == g0.h,
        forall|n: InnerNodeId| #[trigger] g0.rg.contains_key(NodeId::Inner(n)) ==> self.gg().rg.contains_key(NodeId::Inner(n)) && self.gg().rg[NodeId::Inner(n)] == g0.rg[NodeId::Inner(n)],
//@ at before call get_inner
    proof { node_there(im, lm, g0, m, NodeId::Inner(id)); }
//@ at after call push
    proof {
        chain_push(im, lm, g0, m, __es, id, StackEntry { id: id, offset: child_idx, child_id: child_id });
        child_range(im, lm, g0, m, id, child_idx as int, k.ord());
    }
//@ at before call push
    let ghost __es = stack.es();
//@ at arm Leaf
    proof { cur = child_id; }
//@ at after loop 0
    proof { chain_frame(im, g0, stack.es(), cur, self.im(), self.gg()); }
//@ loop 1
    invariant
        stack.wf(), stack.es().len() <= g0.h, g0 == old(self).gg(), settled(g0), g0.root == old(self).root, m == old(self).m(),
        chain(self.im(), self.gg(), stack.es(), cur),
        ins_post(old(self), self, cur, k, v, r),
//@ at before call pop
    let ghost __es1 = stack.es();
    let ghost ima = self.im();
    let ghost lma = self.lm();
    let ghost ga = self.gg();
    let ghost m1 = ins_m(m, k, v);
    proof {
        if __es1.len() > 0 { chain_top(ima, ga, __es1, cur); node_there(ima, lma, ga, m1, NodeId::Inner(__es1.last().id)); kids(ima, lma, ga, __es1.last().id); node_there(ima, lma, ga, m1, cur); }
        else { reveal(chain); }
    }
//@ at arm Split
    proof {
        node_there(ima, lma, ga, m1, right_child);
        let c = ima[id].cs()[child_idx as int];
        assert(ima.contains_key(id));
    }
//@ at after call insert_at
    proof {
        let n2 = self.im()[id];
        let g2 = G { pend: None, dirty: Some(NodeId::Inner(id)), ..ga };
        assert(self.im() =~= ima.insert(id, n2));
        assert(self.lm() =~= lma);
        step_insert(ima, lma, ga, m1, id, child_idx as int, key, right_child, n2, g2);
        chain_pop(ima, ga, __es1, cur, self.im(), g2);
        self.g@ = g2;
        cur = NodeId::Inner(id);
    }
//@ at before call add_inner
    let ghost r2 = *new_node;
//@ at after call add_inner
    proof {
        let n2 = self.im()[id];
        let r = ga.rg[NodeId::Inner(id)];
        let mid = prompt_k;
        let g2 = G { rg: ga.rg.insert(NodeId::Inner(id), R { h: r.h, lo: r.lo, hi: mid.ord() }).insert(NodeId::Inner(new_node_id), R { h: r.h, lo: mid.ord(), hi: r.hi }),
            pend: Some((NodeId::Inner(id), NodeId::Inner(new_node_id))), dirty: Some(NodeId::Inner(id)), ..ga };
        assert(self.im() =~= ima.insert(id, n2).insert(new_node_id, r2));
        assert(self.lm() =~= lma);
        assert(ima[id].ks().len() == ima[id].size);
        step_split_inner(ima, lma, ga, m1, id, child_idx as int, key, right_child, new_node_id, n2, r2, mid, self.im(), g2);
        chain_pop(ima, ga, __es1, cur, self.im(), g2);
        self.g@ = g2;
        cur = NodeId::Inner(id);
    }
//@ at after call set_augmentation#1
    proof {
        let n2 = self.im()[id];
        let g2 = G { dirty: Some(NodeId::Inner(id)), ..ga };
        assert(self.im() =~= ima.insert(id, n2));
        assert(self.lm() =~= lma);
        step_refresh(ima, lma, ga, m1, id, child_idx as int, n2, g2);
        chain_pop(ima, ga, __es1, cur, self.im(), g2);
        self.g@ = g2;
        cur = NodeId::Inner(id);
    }
//@ at after call set_augmentation#2
    proof {
        let n2 = self.im()[id];
        let g2 = G { dirty: Some(NodeId::Inner(id)), ..ga };
        assert(self.im() =~= ima.insert(id, n2));
        assert(self.lm() =~= lma);
        step_refresh(ima, lma, ga, m1, id, child_idx as int, n2, g2);
        chain_pop(ima, ga, __es1, cur, self.im(), g2);
        self.g@ = g2;
        cur = NodeId::Inner(id);
    }
//@ fn tree/mod.rs BPlusTree::descend_insert
//@ props C02 C07 C11
//@ params self node_id k v
//@ ret r
//@ spec
    requires
        old(self).holds(old(self).m()), settled(old(self).gg()), old(self).gg().h <= MAX_DEPTH,
        old(self).gg().root == node_id,
    ensures
        ins_post(old(self), final(self), old(self).root, k, v, r),
//@ at start
    proof { k.ord_bounds(); }
//@ fn tree/mod.rs BPlusTree::insert
//@ props C02 C07 C11
//@ params self k v
//@ ret r
//@ spec
    requires old(self).wf(), old(self).len < usize::MAX,
    ensures
        final(self).wf(),
        final(self).m() == ins_m(old(self).m(), k, v), //[C02]
        r == (if old(self).m().contains_key(k.ord()) { Some(old(self).m()[k.ord()].1) } else { None }), //[C02]
        final(self).gg().fresh == old(self).gg().fresh, //[C07 C08 C09]
        final(self).gg().strict == old(self).gg().strict, //[C11]
//@ at start
    let ghost m = self.m();
    let ghost m2 = ins_m(m, k, v);
//@ at before call new_augmentation_for_id
    let ghost g1 = self.gg();
    proof { node_there(self.im(), self.lm(), g1, m2, node_id); }
//@ at arm Inserted end
    proof {
        let g2 = G { dirty: None, ..g1 };
        step_root_clean(self.im(), self.lm(), g1, m2, g2);
        self.g@ = g2;
    }
//@ at arm Updated
    let ghost g1 = self.gg();
    proof { node_there(self.im(), self.lm(), g1, m2, node_id); }
//@ at arm Updated end
    proof {
        let g2 = G { dirty: None, ..g1 };
        step_root_clean(self.im(), self.lm(), g1, m2, g2);
        self.g@ = g2;
    }
//@ at arm Split
    let ghost g1 = self.gg();
    let ghost im1 = self.im();
    proof { node_there(self.im(), self.lm(), g1, m2, node_id); node_there(self.im(), self.lm(), g1, m2, new_child_id); }
//@ at before call add_inner
    let ghost n = *new_root;
//@ at arm Split end
    proof {
        let q = new_root_id;
        let g2 = G { h: g1.h + 1, root: NodeId::Inner(q), rg: g1.rg.insert(NodeId::Inner(q), R { h: g1.h + 1, lo: 0real, hi: 1real }), pend: None, dirty: None, ..g1 };
        assert(n.cs() =~= seq![g1.root, new_child_id]);
        assert(n.ks() =~= seq![k]);
        assert(n.augs() =~= seq![aug_of(im1, self.lm(), g1.root), aug_of(im1, self.lm(), new_child_id)]);
        step_new_root(im1, self.lm(), g1, m2, k, new_child_id, q, n, g2);
        assert(self.im() =~= im1.insert(q, n));
        self.g@ = g2;
    }
//@ at end
    proof { height_bound(self.im(), self.lm(), self.gg(), m2); self.wf_m(m2); }
//@ raw
}
