//@ struct tree/node_stores/vec_backed.rs NodeStoreVec
//@ raw
impl<K: Key, V, A: Augmentation<K, V>> KeptFromDrop for NodeStoreVec<K, V, A> { }
pub type IM<K, A> = IMap<InnerNodeId, InnerNode<K, A>>;
pub type LM<K, V> = IMap<LeafNodeId, LeafNode<K, V>>;
impl<K: Key, V, A: Augmentation<K, V>> NodeStoreVec<K, V, A> {
    /// live inner nodes and leaves
    pub open spec fn im(&self) -> IM<K, A> {
        IMap::new(|id: InnerNodeId| id.0 < self.inner_nodes@.len() && self.inner_nodes@[id.0 as int] is Some, |id: InnerNodeId| *self.inner_nodes@[id.0 as int]->0)
    }
    pub open spec fn lm(&self) -> LM<K, V> {
        IMap::new(|id: LeafNodeId| id.0 < self.leaf_nodes@.len() && self.leaf_nodes@[id.0 as int] is Some, |id: LeafNodeId| *self.leaf_nodes@[id.0 as int]->0)
    }
    /// number of ids ever handed out
    pub open spec fn inext(&self) -> nat { self.inner_nodes@.len() }
    pub open spec fn lnext(&self) -> nat { self.leaf_nodes@.len() }

//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::Default::default
//@ ret r
//@ spec
    ensures r.inext() == 0, r.lnext() == 0, r.im() =~= IMap::empty(), r.lm() =~= IMap::empty(),
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::new
//@ ret r
//@ spec
    ensures r.inext() == 0, r.lnext() == 0, r.im() =~= IMap::empty(), r.lm() =~= IMap::empty(),
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::inner_n
//@ ret r
//@ spec
    ensures r == INNER_N,
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::leaf_n
//@ ret r
//@ spec
    ensures r == LEAF_N,
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::new_empty_leaf
//@ params self
//@ ret r
//@ spec
    ensures r.0.0 == old(self).lnext(), final(self).lnext() == old(self).lnext() + 1, final(self).inext() == old(self).inext(),
        final(self).im() =~= old(self).im(), final(self).lm() =~= old(self).lm().insert(r.0, *final(r.1)),
        r.1.size == 0, r.1.prev is None, r.1.next is None, r.1.wf(),
        r.1.blank(), //[C12]
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::add_inner
//@ params self node
//@ ret r
//@ spec
    ensures r.0 == old(self).inext(), final(self).inext() == old(self).inext() + 1, final(self).lnext() == old(self).lnext(),
        final(self).im() =~= old(self).im().insert(r, *node), final(self).lm() =~= old(self).lm(),
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::get_inner
//@ params self id
//@ ret r
//@ spec
    requires self.im().contains_key(id),
    ensures *r == self.im()[id],
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::try_get_inner
//@ params self id
//@ ret r
//@ spec
    ensures (r is Some) == self.im().contains_key(id), r is Some ==> *(r->0) == self.im()[id],
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::get_mut_inner
//@ params self id
//@ ret r
//@ spec
    requires old(self).im().contains_key(id),
    ensures *r == old(self).im()[id], final(self).im() =~= old(self).im().insert(id, *final(r)), final(self).lm() =~= old(self).lm(),
        final(self).inext() == old(self).inext(), final(self).lnext() == old(self).lnext(),
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::take_inner
//@ params self id
//@ ret r
//@ spec
    requires old(self).im().contains_key(id),
    ensures *r == old(self).im()[id], final(self).im() =~= old(self).im().remove(id), final(self).lm() =~= old(self).lm(),
        final(self).inext() == old(self).inext(), final(self).lnext() == old(self).lnext(),
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::put_back_inner
//@ params self id node
//@ spec
    requires id.0 < old(self).inext(),
        !old(self).im().contains_key(id), //[C12]
    ensures final(self).im() =~= old(self).im().insert(id, *node), final(self).lm() =~= old(self).lm(),
        final(self).inext() == old(self).inext(), final(self).lnext() == old(self).lnext(),
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::reserve_leaf
//@ params self
//@ ret r
//@ spec
    ensures r.0 == old(self).lnext(), final(self).lnext() == old(self).lnext() + 1, final(self).inext() == old(self).inext(),
        final(self).im() =~= old(self).im(), final(self).lm() =~= old(self).lm(),
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::get_leaf
//@ params self id
//@ ret r
//@ spec
    requires self.lm().contains_key(id),
    ensures *r == self.lm()[id],
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::try_get_leaf
//@ params self id
//@ ret r
//@ spec
    ensures (r is Some) == self.lm().contains_key(id), r is Some ==> *(r->0) == self.lm()[id],
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::get_mut_leaf
//@ params self id
//@ ret r
//@ spec
    requires old(self).lm().contains_key(id),
    ensures *r == old(self).lm()[id], final(self).lm() =~= old(self).lm().insert(id, *final(r)), final(self).im() =~= old(self).im(),
        final(self).inext() == old(self).inext(), final(self).lnext() == old(self).lnext(),
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::take_leaf
//@ params self id
//@ ret r
//@ spec
    requires old(self).lm().contains_key(id),
    ensures *r == old(self).lm()[id], final(self).lm() =~= old(self).lm().remove(id), final(self).im() =~= old(self).im(),
        final(self).inext() == old(self).inext(), final(self).lnext() == old(self).lnext(),
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::assign_leaf
//@ params self id leaf
//@ spec
    requires id.0 < old(self).lnext(),
        !old(self).lm().contains_key(id), //[C12]
    ensures final(self).lm() =~= old(self).lm().insert(id, *leaf), final(self).im() =~= old(self).im(),
        final(self).inext() == old(self).inext(), final(self).lnext() == old(self).lnext(),
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::cache_leaf
//@ params self leaf_id
//@ spec
    ensures true,
//@ fn tree/node_stores/vec_backed.rs NodeStoreVec::NodeStore::try_cache
//@ props C01 C13 C10
//@ params self k
//@ ret r
//@ spec
    requires forall|id: LeafNodeId| #[trigger] self.lm().contains_key(id) ==> self.lm()[id].wf() && ((self.lm()[id].prev is Some || self.lm()[id].next is Some) ==> self.lm()[id].size > 0),
    ensures r is Some ==> self.lm().contains_key(r->0) && ({ let l = self.lm()[r->0];
        !(l.prev is Some && k.ord() < l.ks()[0].ord()) && !(l.next is Some && k.ord() > l.ks()[l.size - 1].ord()) }),
//@ raw
}
