//@ struct tree/inner_node.rs InnerNode
//@ struct tree/inner_node.rs InnerMergeResult
//@ raw
impl<K: Key, A> Node for InnerNode<K, A> {
    open spec fn blank(&self) -> bool { all_uninit(self.slot_key@) && all_uninit(self.augmentations@) }
    /// what `InnerNode::Drop::drop` requires
    open spec fn drop_ok(&self) -> bool { self.wf() && self.tail() }
}
/// child i is the one that covers x
pub open spec fn at_child<K: Key>(ks: Seq<K>, x: real, i: int) -> bool {
    &&& 0 <= i <= ks.len()
    &&& i > 0 ==> ks[i - 1].ord() <= x
    &&& i < ks.len() ==> x < ks[i].ord()
}
impl<K: Key, A> InnerNode<K, A> {
    /// keys below `size`, children and augmentations up to `size` are initialised
    pub open spec fn wf(&self) -> bool {
        &&& self.size <= INNER_N
        &&& forall|i: int| 0 <= i < self.size ==> (#[trigger] self.slot_key@[i]).is_init()
        &&& forall|i: int| 0 <= i <= self.size ==> (#[trigger] self.child_id@[i]).is_init()
        &&& forall|i: int| 0 <= i <= self.size ==> (#[trigger] self.augmentations@[i]).is_init()
    }
    /// the other slots for keys and augmentations hold nothing
    pub open spec fn tail(&self) -> bool {
        &&& forall|i: int| self.size <= i < INNER_N ==> (#[trigger] self.slot_key@[i]) is Uninit
        &&& forall|i: int| self.size < i < INNER_C ==> (#[trigger] self.augmentations@[i]) is Uninit
    }
    pub open spec fn ks(&self) -> Seq<K> { pre(self.slot_key@, self.size as nat) }
    pub open spec fn cs(&self) -> Seq<NodeId> { pre(self.child_id@, (self.size + 1) as nat) }
    pub open spec fn augs(&self) -> Seq<A> { pre(self.augmentations@, (self.size + 1) as nat) }

//@ fn tree/inner_node.rs InnerNode::Drop::drop
//@ props C12
//@ params self
//@ spec
    requires
        old(self).drop_ok(), //[C12]
    ensures
        final(self).blank(), //[C12]
//@ loop 0
    invariant self.size == old(self).size <= INNER_N, self.augmentations == old(self).augmentations,
        __d0 <= __e0, __e0 == self.size, //[C12]
        forall|i: int| __d0 <= i < self.size ==> (#[trigger] self.slot_key@[i]).is_init(),
        forall|i: int| (0 <= i < __d0 || self.size <= i < INNER_N) ==> (#[trigger] self.slot_key@[i]) is Uninit,
    decreases __e0 - __d0,
//@ loop 1
    invariant self.size == old(self).size <= INNER_N, all_uninit(self.slot_key@),
        __d1 <= __e1, __e1 == self.size + 1, //[C12]
        forall|i: int| __d1 <= i <= self.size ==> (#[trigger] self.augmentations@[i]).is_init(),
        forall|i: int| (0 <= i < __d1 || self.size < i < INNER_C) ==> (#[trigger] self.augmentations@[i]) is Uninit,
    decreases __e1 - __d1,
//@ fn tree/inner_node.rs InnerNode::len
//@ params self
//@ ret r
//@ spec
    ensures r == self.size,
//@ fn tree/inner_node.rs InnerNode::is_empty
//@ params self
//@ ret r
//@ spec
    ensures r == (self.size == 0),
//@ fn tree/inner_node.rs InnerNode::max_capacity
//@ ret r
//@ spec
    ensures r == INNER_N,
//@ fn tree/inner_node.rs InnerNode::split_origin_size
//@ ret r
//@ spec
    ensures r == INNER_N / 2,
//@ fn tree/inner_node.rs InnerNode::split_new_size
//@ ret r
//@ spec
    ensures r == INNER_N - INNER_N / 2,
//@ fn tree/inner_node.rs InnerNode::minimum_size
//@ ret r
//@ spec
    ensures r == MIN_N,
//@ fn tree/inner_node.rs InnerNode::able_to_lend
//@ params self
//@ ret r
//@ spec
    ensures r == (self.size > MIN_N),
//@ fn tree/inner_node.rs InnerNode::is_full
//@ params self
//@ ret r
//@ spec
    ensures r == (self.size == INNER_N),
//@ fn tree/inner_node.rs InnerNode::empty
//@ ret r
//@ spec
    ensures
        r.blank(), //[C12]
        r.size == 0,
//@ fn tree/inner_node.rs InnerNode::new
//@ props C02 C11
//@ params slot_keys child_id augmentations
//@ ret r
//@ generics <I: VInto<NodeId>, const N1: usize, const C1: usize>
//@ spec
    requires N1 <= INNER_N, C1 == N1 + 1,
    ensures
        r.tail(), //[C12]
        r.wf(), r.size == N1, r.ks() =~= slot_keys@, r.cs() =~= child_id@.map_values(|i: I| i.into_s()), r.augs() =~= augmentations@,
//@ fn tree/inner_node.rs InnerNode::new_from_iter
//@ props C02 C06 C11
//@ opt data
//@ params keys childs augmentations
//@ ret r
//@ spec
    requires keys.items().len() <= INNER_N, childs.items().len() == keys.items().len() + 1, augmentations.items().len() == keys.items().len() + 1,
    ensures
        r.tail(), //[C12]
        r.wf(), r.size == keys.items().len(), r.ks() =~= keys.items(), r.cs() =~= childs.items(), r.augs() =~= augmentations.items(),
//@ at start
    let ghost k0 = keys.items();
    let ghost c0 = childs.items();
    let ghost a0 = augmentations.items();
//@ loop 0
    invariant_except_break key_size == __it0.n,
    invariant all_uninit(node.augmentations@), forall|i: int| key_size <= i < INNER_N ==> (#[trigger] node.slot_key@[i]) is Uninit,
        key_size <= k0.len(), k0.len() <= INNER_N, __it0.inner.rest@ =~= k0.skip(__it0.n as int), key_size == __it0.n,
        forall|i: int| 0 <= i < key_size ==> (#[trigger] node.slot_key@[i]) == MaybeUninit::Init(k0[i]),
    ensures key_size == k0.len(),
//@ loop 1
    invariant all_uninit(node.augmentations@), forall|i: int| k0.len() <= i < INNER_N ==> (#[trigger] node.slot_key@[i]) is Uninit,
        child_size <= c0.len(), c0.len() <= INNER_C, __it1.inner.rest@ =~= c0.skip(__it1.n as int), child_size == __it1.n,
        forall|i: int| 0 <= i < child_size ==> (#[trigger] node.child_id@[i]) == MaybeUninit::Init(c0[i]),
        forall|i: int| 0 <= i < k0.len() ==> (#[trigger] node.slot_key@[i]) == MaybeUninit::Init(k0[i]),
    ensures child_size == c0.len(),
//@ loop 2
    invariant forall|i: int| __it2.n <= i < INNER_C ==> (#[trigger] node.augmentations@[i]) is Uninit, forall|i: int| k0.len() <= i < INNER_N ==> (#[trigger] node.slot_key@[i]) is Uninit,
        __it2.n <= a0.len(), a0.len() <= INNER_C, __it2.inner.rest@ =~= a0.skip(__it2.n as int),
        forall|i: int| 0 <= i < __it2.n ==> (#[trigger] node.augmentations@[i]) == MaybeUninit::Init(a0[i]),
        forall|i: int| 0 <= i < c0.len() ==> (#[trigger] node.child_id@[i]) == MaybeUninit::Init(c0[i]),
        forall|i: int| 0 <= i < k0.len() ==> (#[trigger] node.slot_key@[i]) == MaybeUninit::Init(k0[i]),
    ensures __it2.n == a0.len(),
//@ fn tree/inner_node.rs InnerNode::keys
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r@ =~= self.ks(),
//@ fn tree/inner_node.rs InnerNode::augmentations
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r@ =~= self.augs(),
//@ fn tree/inner_node.rs InnerNode::key
//@ params self idx
//@ ret r
//@ spec
    requires self.wf(), idx < self.size,
    ensures *r == self.ks()[idx as int],
//@ fn tree/inner_node.rs InnerNode::child_id
//@ params self idx
//@ ret r
//@ spec
    requires self.wf(), idx <= self.size,
    ensures r == self.cs()[idx as int],
//@ fn tree/inner_node.rs InnerNode::set_key
//@ props C03
//@ params self idx key
//@ ret r
//@ spec
    requires old(self).wf(), idx < old(self).size,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).size == old(self).size, r == old(self).ks()[idx as int],
        final(self).ks() =~= old(self).ks().update(idx as int, key),
        final(self).cs() =~= old(self).cs(), final(self).augs() =~= old(self).augs(),
//@ fn tree/inner_node.rs InnerNode::set_augmentation
//@ props C07
//@ params self idx a
//@ spec
    requires old(self).wf(), idx <= old(self).size,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).size == old(self).size,
        final(self).ks() =~= old(self).ks(), final(self).cs() =~= old(self).cs(),
        final(self).augs() =~= old(self).augs().update(idx as int, a),
//@ fn tree/inner_node.rs InnerNode::locate_child
//@ props C01 C02 C03
//@ params self k
//@ ret r
//@ spec
    requires self.wf(), sorted(self.ks()),
    ensures r.0 <= self.size, r.1 == self.cs()[r.0 as int],
        at_child(self.ks(), k.ord(), r.0 as int),
//@ fn tree/inner_node.rs InnerNode::insert_at
//@ props C02 C07
//@ params self slot key right_child right_child_augmentation
//@ spec
    requires old(self).wf(), slot <= old(self).size, old(self).size < INNER_N,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).size == old(self).size + 1,
        final(self).ks() =~= old(self).ks().insert(slot as int, key),
        final(self).cs() =~= old(self).cs().insert(slot + 1, right_child),
        final(self).augs() =~= old(self).augs().insert(slot + 1, right_child_augmentation),
//@ fn tree/inner_node.rs InnerNode::split
//@ props C02 C07 C11
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(200)]
//@ params self child_idx k new_child_id new_child_augmentation
//@ ret r
//@ spec
    requires old(self).wf(), old(self).size == INNER_N, child_idx <= INNER_N,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        r.1.tail(), //[C12]
        final(self).wf(), r.1.wf(), final(self).size + r.1.size == INNER_N,
        final(self).size >= MIN_N, r.1.size >= MIN_N, //[C11]
        ({
            let ks = old(self).ks().insert(child_idx as int, k);
            let cs = old(self).cs().insert(child_idx + 1, new_child_id);
            let augs = old(self).augs().insert(child_idx + 1, new_child_augmentation);
            let n = final(self).size as int;
            &&& r.0 == ks[n]
            &&& final(self).ks() =~= ks.take(n)
            &&& final(self).cs() =~= cs.take(n + 1)
            &&& final(self).augs() =~= augs.take(n + 1)
            &&& r.1.ks() =~= ks.skip(n + 1)
            &&& r.1.cs() =~= cs.skip(n + 1)
            &&& r.1.augs() =~= augs.skip(n + 1)
        }),
//@ fn tree/inner_node.rs InnerNode::remove_slot_with_right
//@ props C03 C07
//@ params self slot
//@ ret r
//@ spec
    requires old(self).wf(), slot < old(self).size,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).size == old(self).size - 1,
        final(self).size < MIN_N ==> r.0 is UnderSize, //[C03 C11]
        r.0 is UnderSize ==> final(self).size <= MIN_N, //[C03 C11]
        r.1 == old(self).ks()[slot as int],
        final(self).ks() =~= old(self).ks().remove(slot as int),
        final(self).cs() =~= old(self).cs().remove(slot + 1),
        final(self).augs() =~= old(self).augs().remove(slot + 1),
//@ fn tree/inner_node.rs InnerNode::merge_next
//@ props C03 C07
//@ params self slot_key right
//@ spec
    requires old(self).wf(), right.wf(), old(self).size + right.size < INNER_N,
        old(self).tail(), //[C12]
        right.tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).size == old(self).size + right.size + 1,
        final(self).ks() =~= old(self).ks().push(slot_key) + right.ks(),
        final(self).cs() =~= old(self).cs() + right.cs(),
        final(self).augs() =~= old(self).augs() + right.augs(),
//@ fn tree/inner_node.rs InnerNode::pop
//@ props C03 C07
//@ params self
//@ ret r
//@ spec
    requires old(self).wf(), old(self).size > 0,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).size == old(self).size - 1,
        r.0 == old(self).ks().last(), r.1 == old(self).cs().last(), r.2 == old(self).augs().last(),
        final(self).ks() =~= old(self).ks().drop_last(), final(self).cs() =~= old(self).cs().drop_last(), final(self).augs() =~= old(self).augs().drop_last(),
//@ fn tree/inner_node.rs InnerNode::pop_front
//@ props C03 C07
//@ params self
//@ ret r
//@ spec
    requires old(self).wf(), old(self).size > 0,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).size == old(self).size - 1,
        r.0 == old(self).ks()[0], r.1 == old(self).cs()[0], r.2 == old(self).augs()[0],
        final(self).ks() =~= old(self).ks().skip(1), final(self).cs() =~= old(self).cs().skip(1), final(self).augs() =~= old(self).augs().skip(1),
//@ fn tree/inner_node.rs InnerNode::push
//@ props C03 C07
//@ params self k child augmentation
//@ spec
    requires old(self).wf(), old(self).size < INNER_N,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).size == old(self).size + 1,
        final(self).ks() =~= old(self).ks().push(k), final(self).cs() =~= old(self).cs().push(child), final(self).augs() =~= old(self).augs().push(augmentation),
//@ fn tree/inner_node.rs InnerNode::push_front
//@ props C03 C07
//@ params self k child augmentation
//@ spec
    requires old(self).wf(), old(self).size < INNER_N,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).size == old(self).size + 1,
        final(self).ks() =~= seq![k] + old(self).ks(), final(self).cs() =~= seq![child] + old(self).cs(), final(self).augs() =~= seq![augmentation] + old(self).augs(),
//@ raw
}
