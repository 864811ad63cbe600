//@ raw
// ======================= clone ======================================================================

pub open spec fn same_leaf<K: Key, V>(a: LeafNode<K, V>, b: LeafNode<K, V>) -> bool {
    b.wf() && b.tail() && b.size == a.size && b.ks() == a.ks() && b.vs() == a.vs() && b.prev == a.prev && b.next == a.next
}
pub open spec fn same_inner<K: Key, A>(a: InnerNode<K, A>, b: InnerNode<K, A>) -> bool {
    b.wf() && b.tail() && b.size == a.size && b.ks() == a.ks() && b.cs() == a.cs() && b.augs() == a.augs()
}
pub open spec fn same_nodes<K: Key, V, A>(im: IM<K, A>, lm: LM<K, V>, im2: IM<K, A>, lm2: LM<K, V>) -> bool {
    &&& forall|id: InnerNodeId| #![trigger im2.contains_key(id)] #![trigger im.contains_key(id)] im2.contains_key(id) == im.contains_key(id) && (im.contains_key(id) ==> same_inner(im[id], im2[id]))
    &&& forall|id: LeafNodeId| #![trigger lm2.contains_key(id)] #![trigger lm.contains_key(id)] lm2.contains_key(id) == lm.contains_key(id) && (lm.contains_key(id) ==> same_leaf(lm[id], lm2[id]))
}
/// trees are equal when their nodes are
pub proof fn tree_same<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, im2: IM<K, A>, lm2: LM<K, V>, g: G, m: Map<real, (K, V)>)
    requires tree(im, lm, g, m), g.pend is None, same_nodes(im, lm, im2, lm2),
    ensures tree(im2, lm2, g, m),
        forall|n: NodeId| #[trigger] g.rg.contains_key(n) ==> aug_of(im2, lm2, n) == aug_of(im, lm, n),
{
    assert forall|n: NodeId| #[trigger] g.rg.contains_key(n) implies aug_of(im2, lm2, n) == aug_of(im, lm, n) by {
        match n {
            NodeId::Inner(i) => { assert(inner_ok(im, lm, g, i)); assert(im2.contains_key(i)); }
            NodeId::Leaf(l) => { assert(leaf_ok(lm, g, m, l)); assert(lm2.contains_key(l)); }
        }
    }
    assert forall|id: InnerNodeId| #[trigger] g.rg.contains_key(NodeId::Inner(id)) implies inner_ok(im2, lm2, g, id) by {
        assert(inner_ok(im, lm, g, id));
        assert(im2.contains_key(id));
        kids(im, lm, g, id);
        assert(af(im2, lm2, g, im2[id])) by {
            reveal(af);
            assert forall|i: int| g.fresh && 0 <= i <= im2[id].size implies g.dirty == Some(im2[id].cs()[i]) || #[trigger] im2[id].augs()[i] == aug_of(im2, lm2, im2[id].cs()[i]) by {
                assert(g.rg.contains_key(im[id].cs()[i]));
                assert(g.dirty == Some(im[id].cs()[i]) || im[id].augs()[i] == aug_of(im, lm, im[id].cs()[i]));
            }
        }
    }
    assert forall|id: LeafNodeId| #[trigger] g.rg.contains_key(NodeId::Leaf(id)) implies leaf_ok(lm2, g, m, id) by {
        assert(leaf_ok(lm, g, m, id));
        assert(lm2.contains_key(id));
    }
    assert forall|id: LeafNodeId| #[trigger] lm2.contains_key(id) implies g.rg.contains_key(NodeId::Leaf(id)) by { assert(lm.contains_key(id)); }
    assert forall|id: InnerNodeId| #[trigger] im2.contains_key(id) implies im2[id].wf() by { assert(im.contains_key(id)); }
}
impl<K: Key, V: Value> LeafNode<K, V> {
//@ fn tree/leaf_node.rs LeafNode::Clone::clone
//@ props C15 C12
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures
        r.tail(), //[C12]
        r.wf(), //[C12]
        same_leaf(*self, r),
//@ loop 0
    invariant self.wf(), __it0.end == self.size, __it0.cur <= __it0.end,
        forall|j: int| __it0.cur <= j < new_key@.len() ==> (#[trigger] new_key@[j]) is Uninit,
        forall|j: int| 0 <= j < __it0.cur ==> (#[trigger] new_key@[j]) == self.slot_key@[j],
    ensures __it0.cur == __it0.end,
    decreases __it0.end - __it0.cur,
//@ loop 1
    invariant self.wf(), __it1.end == self.size, __it1.cur <= __it1.end,
        forall|j: int| __it1.cur <= j < new_value@.len() ==> (#[trigger] new_value@[j]) is Uninit,
        forall|j: int| 0 <= j < __it1.cur ==> (#[trigger] new_value@[j]) == self.slot_value@[j],
    ensures __it1.cur == __it1.end,
    decreases __it1.end - __it1.cur,
//@ at end
    proof {
        assert(__ret.ks() =~= self.ks());
        assert(__ret.vs() =~= self.vs());
    }
//@ raw
}
impl<K: Key, V: Value> VClone for LeafNode<K, V> {
    open spec fn clonable(&self) -> bool { self.wf() }
    open spec fn cloned(&self, r: Self) -> bool { same_leaf(*self, r) }
    fn clone(&self) -> (r: Self) { LeafNode::clone(self) }
}
impl<K: Key, A: AugClone> InnerNode<K, A> {
//@ fn tree/inner_node.rs InnerNode::Clone::clone
//@ props C15 C12
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures
        r.tail(), //[C12]
        r.wf(), //[C12]
        same_inner(*self, r),
//@ loop 0
    invariant self.wf(), __it0.end == self.size, __it0.cur <= __it0.end,
        forall|j: int| __it0.cur <= j < new_key@.len() ==> (#[trigger] new_key@[j]) is Uninit,
        forall|j: int| 0 <= j < __it0.cur ==> (#[trigger] new_key@[j]) == self.slot_key@[j],
    ensures __it0.cur == __it0.end,
    decreases __it0.end - __it0.cur,
//@ loop 1
    invariant self.wf(), __it1.end == self.size + 1, __it1.cur <= __it1.end,
        forall|j: int| __it1.cur <= j < new_augmentation@.len() ==> (#[trigger] new_augmentation@[j]) is Uninit,
        forall|j: int| 0 <= j < __it1.cur ==> (#[trigger] new_augmentation@[j]) == self.augmentations@[j],
    ensures __it1.cur == __it1.end,
    decreases __it1.end - __it1.cur,
//@ at end
    proof {
        assert(__ret.ks() =~= self.ks());
        assert(__ret.cs() =~= self.cs());
        assert(__ret.augs() =~= self.augs());
    }
//@ raw
}
impl<K: Key, A: AugClone> VClone for InnerNode<K, A> {
    open spec fn clonable(&self) -> bool { self.wf() }
    open spec fn cloned(&self, r: Self) -> bool { same_inner(*self, r) }
    fn clone(&self) -> (r: Self) { InnerNode::clone(self) }
}
impl<K: Key, V: Value, A: Augmentation<K, V>> NodeStoreVec<K, V, A> {
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::Clone::clone
//@ props C15 C12
//@ params self
//@ ret r
//@ spec
    requires forall|id: InnerNodeId| #[trigger] self.im().contains_key(id) ==> self.im()[id].wf(),
        forall|id: LeafNodeId| #[trigger] self.lm().contains_key(id) ==> self.lm()[id].wf(),
    ensures same_nodes(self.im(), self.lm(), r.im(), r.lm()), r.inext() == self.inext(), r.lnext() == self.lnext(),
//@ at start
    proof {
        assert(self.inner_nodes.len() == self.inner_nodes@.len() && self.leaf_nodes.len() == self.leaf_nodes@.len());
        assert forall|i: int| 0 <= i < self.inner_nodes@.len() implies (#[trigger] self.inner_nodes@[i]).clonable() by { assert(self.im().contains_key(InnerNodeId(i as usize)) == (self.inner_nodes@[i] is Some)); }
        assert forall|i: int| 0 <= i < self.leaf_nodes@.len() implies (#[trigger] self.leaf_nodes@[i]).clonable() by { assert(self.lm().contains_key(LeafNodeId(i as usize)) == (self.leaf_nodes@[i] is Some)); }
    }
//@ raw
}
impl<'a, K: Key, V, A: Augmentation<K, V>> Iter<'a, K, V, A> {
//@ fn tree/iterator.rs Iter::Clone::clone
//@ props C04
//@ params self
//@ ret r
//@ spec
    ensures r == *self,
//@ raw
}
impl Statistic {
//@ fn tree/mod.rs Statistic::Clone::clone
//@ params self
//@ ret r
//@ spec
    ensures r == *self,
//@ raw
}
impl<K: Key, V: Value, A: Augmentation<K, V>> BPlusTree<K, V, A> {
//@ fn tree/mod.rs BPlusTree::Clone::clone
//@ props C15
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.m() == self.m(), r.len == self.len, r.root_augmentation == self.root_augmentation, r.gg() == self.gg(),
        same_nodes(self.im(), self.lm(), r.im(), r.lm()),
//@ at start
    proof {
        assert forall|id: LeafNodeId| #[trigger] self.lm().contains_key(id) implies self.lm()[id].wf() by { assert(leaf_ok(self.lm(), self.gg(), self.m(), id)); }
    }
//@ at end
    proof {
        __ret.g@ = self.gg();
        tree_same(self.im(), self.lm(), __ret.im(), __ret.lm(), self.gg(), self.m());
        assert(self.gg().rg.contains_key(self.gg().root));
        __ret.wf_m(self.m());
    }
//@ raw
}
