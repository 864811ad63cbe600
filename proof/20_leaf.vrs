//@ struct tree/leaf_node.rs LeafNode
//@ struct tree/leaf_node.rs LeafUpsertResult
//@ struct tree/leaf_node.rs LeafDeleteResult
//@ raw
pub open spec fn pre<T>(s: Seq<MaybeUninit<T>>, n: nat) -> Seq<T> { Seq::new(n, |i: int| s[i].val()) }
impl<K: Key, V> Node for LeafNode<K, V> {
    /// no slot holds anything
    open spec fn blank(&self) -> bool { all_uninit(self.slot_key@) && all_uninit(self.slot_value@) }
    /// a leaf has no destructor
    open spec fn drop_ok(&self) -> bool { self.blank() }
}
impl<K: Key, V> LeafNode<K, V> {
    /// slots below `size` are initialised
    pub open spec fn wf(&self) -> bool {
        &&& self.size <= LEAF_N
        &&& forall|i: int| 0 <= i < self.size ==> (#[trigger] self.slot_key@[i]).is_init()
        &&& forall|i: int| 0 <= i < self.size ==> (#[trigger] self.slot_value@[i]).is_init()
    }
    /// the other slots hold nothing
    pub open spec fn tail(&self) -> bool {
        &&& forall|i: int| self.size <= i < LEAF_N ==> (#[trigger] self.slot_key@[i]) is Uninit
        &&& forall|i: int| self.size <= i < LEAF_N ==> (#[trigger] self.slot_value@[i]) is Uninit
    }
    pub open spec fn ks(&self) -> Seq<K> { pre(self.slot_key@, self.size as nat) }
    pub open spec fn vs(&self) -> Seq<V> { pre(self.slot_value@, self.size as nat) }
    pub open spec fn same_links(&self, o: &Self) -> bool { self.prev == o.prev && self.next == o.next }

//@ fn tree/leaf_node.rs LeafNode::new
//@ ret r
//@ spec
    ensures
        r.blank(), //[C12]
        r.size == 0, r.prev is None, r.next is None, r.wf(),
//@ fn tree/leaf_node.rs LeafNode::len
//@ params self
//@ ret r
//@ spec
    ensures r == self.size,
//@ fn tree/leaf_node.rs LeafNode::is_empty
//@ params self
//@ ret r
//@ spec
    ensures r == (self.size == 0),
//@ fn tree/leaf_node.rs LeafNode::split_origin_size
//@ ret r
//@ spec
    ensures r == LEAF_N / 2,
//@ fn tree/leaf_node.rs LeafNode::max_capacity
//@ ret r
//@ spec
    ensures r == LEAF_N,
//@ fn tree/leaf_node.rs LeafNode::minimum_size
//@ ret r
//@ spec
    ensures r == LEAF_N / 4,
//@ fn tree/leaf_node.rs LeafNode::is_full
//@ params self
//@ ret r
//@ spec
    ensures r == (self.size == LEAF_N),
//@ fn tree/leaf_node.rs LeafNode::able_to_lend
//@ params self
//@ ret r
//@ spec
    ensures r == (self.size > LEAF_N / 4),
//@ fn tree/leaf_node.rs LeafNode::is_size_minimum
//@ params self
//@ ret r
//@ spec
    ensures r == (self.size == LEAF_N / 4),
//@ fn tree/leaf_node.rs LeafNode::in_range
//@ props C01 C10
//@ params self k
//@ ret r
//@ spec
    requires self.wf(), (self.prev is Some || self.next is Some) ==> self.size > 0,
    ensures r == (!(self.prev is Some && k.ord() < self.ks()[0].ord())
              && !(self.next is Some && k.ord() > self.ks()[self.size - 1].ord())),
//@ fn tree/leaf_node.rs LeafNode::key_range
//@ props C06
//@ params self
//@ ret r
//@ spec
    requires self.wf(), self.size > 0,
    ensures (r.0 is Some) == (self.prev is Some), (r.1 is Some) == (self.next is Some),
        r.0 is Some ==> (r.0->0).ord() == self.ks()[0].ord(),
        r.1 is Some ==> (r.1->0).ord() == self.ks()[self.size - 1].ord(),
//@ fn tree/leaf_node.rs LeafNode::set_prev
//@ params self id
//@ spec
    ensures *final(self) == (LeafNode { prev: id, ..*old(self) }),
//@ fn tree/leaf_node.rs LeafNode::prev
//@ params self
//@ ret r
//@ spec
    ensures r == self.prev,
//@ fn tree/leaf_node.rs LeafNode::set_next
//@ params self id
//@ spec
    ensures *final(self) == (LeafNode { next: id, ..*old(self) }),
//@ fn tree/leaf_node.rs LeafNode::next
//@ params self
//@ ret r
//@ spec
    ensures r == self.next,
//@ fn tree/leaf_node.rs LeafNode::data_at
//@ props C04 C08 C10
//@ params self slot
//@ ret r
//@ spec
    requires slot < self.size, self.wf(),
    ensures *r.0 == self.ks()[slot as int], *r.1 == self.vs()[slot as int],
//@ fn tree/leaf_node.rs LeafNode::value_at_mut
//@ props C08 C09
//@ params self slot
//@ ret r
//@ spec
    requires slot < old(self).size, old(self).wf(),
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        *r == old(self).vs()[slot as int],
        final(self).wf(), final(self).size == old(self).size, final(self).same_links(old(self)),
        final(self).ks() =~= old(self).ks(),
        final(self).vs() =~= old(self).vs().update(slot as int, *final(r)),
//@ fn tree/leaf_node.rs LeafNode::try_data_at
//@ props C10
//@ params self idx
//@ ret r
//@ spec
    requires self.wf(),
    ensures (r is Some) == (idx < self.size),
        r is Some ==> *(r->0).0 == self.ks()[idx as int] && *(r->0).1 == self.vs()[idx as int],
//@ fn tree/leaf_node.rs LeafNode::keys
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r@ =~= self.ks(),
//@ fn tree/leaf_node.rs LeafNode::values
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r@ =~= self.vs(),
//@ fn tree/leaf_node.rs LeafNode::locate_slot
//@ props C01 C02 C03
//@ params self k
//@ ret r
//@ spec
    requires self.wf(),
    ensures
        r is Ok ==> (r->Ok_0 < self.size && self.ks()[r->Ok_0 as int].ord() == k.ord()),
        r is Err ==> r->Err_0 <= self.size,
        sorted(self.ks()) ==> (match r {
            Ok(i) => is_pos(self.ks(), k.ord(), i as int),
            Err(i) => is_pos(self.ks(), k.ord(), i as int) && !hask(self.ks(), k.ord()) && (i < self.size ==> self.ks()[i as int].ord() > k.ord()),
        }),
//@ fn tree/leaf_node.rs LeafNode::locate_slot_with_value
//@ props C01 C10
//@ params self k
//@ ret r
//@ spec
    requires self.wf(),
    ensures
        r.1 is Some ==> (r.0 < self.size && self.ks()[r.0 as int].ord() == k.ord() && *(r.1->0) == self.vs()[r.0 as int]),
        r.0 <= self.size,
        sorted(self.ks()) ==> is_pos(self.ks(), k.ord(), r.0 as int) && (r.1 is Some) == hask(self.ks(), k.ord())
            && (r.1 is None && r.0 < self.size ==> self.ks()[r.0 as int].ord() > k.ord()),
//@ fn tree/leaf_node.rs LeafNode::locate_slot_mut
//@ props C01
//@ params self k
//@ ret r
//@ spec
    requires old(self).wf(),
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        r.1 is Some ==> (r.0 < old(self).size && old(self).ks()[r.0 as int].ord() == k.ord()
            && *(r.1->0) == old(self).vs()[r.0 as int]
            && final(self).vs() =~= old(self).vs().update(r.0 as int, *final(r.1->0))),
        r.1 is None ==> final(self).vs() =~= old(self).vs(),
        final(self).wf(), final(self).size == old(self).size, final(self).same_links(old(self)),
        final(self).ks() =~= old(self).ks(),
        r.0 <= old(self).size,
        sorted(old(self).ks()) ==> is_pos(old(self).ks(), k.ord(), r.0 as int) && (r.1 is Some) == hask(old(self).ks(), k.ord()),
//@ fn tree/leaf_node.rs LeafNode::try_upsert
//@ props C02
//@ params self k v
//@ ret r
//@ spec
    requires old(self).wf(), sorted(old(self).ks()),
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).same_links(old(self)),
        is_pos(old(self).ks(), k.ord(), pos(old(self).ks(), k.ord())),
        match r {
            LeafUpsertResult::Inserted => !hask(old(self).ks(), k.ord()) && old(self).size < LEAF_N
                && final(self).ks() =~= old(self).ks().insert(pos(old(self).ks(), k.ord()), k)
                && final(self).vs() =~= old(self).vs().insert(pos(old(self).ks(), k.ord()), v),
            LeafUpsertResult::Updated(p) => hask(old(self).ks(), k.ord())
                && p == old(self).vs()[pos(old(self).ks(), k.ord())]
                && old(self).ks()[pos(old(self).ks(), k.ord())].ord() == k.ord()
                && final(self).ks() =~= old(self).ks()
                && final(self).vs() =~= old(self).vs().update(pos(old(self).ks(), k.ord()), v),
            LeafUpsertResult::IsFull(i, k1, v1) => !hask(old(self).ks(), k.ord()) && old(self).size == LEAF_N
                && *final(self) == *old(self) && k1 == k && v1 == v && i == pos(old(self).ks(), k.ord()),
        },
//@ at start
    proof { all_pos(self.ks(), k.ord()); }
//@ fn tree/leaf_node.rs LeafNode::split_new_leaf
//@ props C02 C11 C04
//@ params self insert_idx item new_leaf_id self_leaf_id
//@ ret r
//@ spec
    requires old(self).wf(), old(self).size == LEAF_N, insert_idx <= LEAF_N,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        r.tail(), //[C12]
        final(self).wf(), r.wf(),
        final(self).size + r.size == LEAF_N + 1,
        final(self).size >= LEAF_N / 4, r.size >= LEAF_N / 4, //[C11]
        final(self).ks() =~= old(self).ks().insert(insert_idx as int, item.0).take(final(self).size as int),
        final(self).vs() =~= old(self).vs().insert(insert_idx as int, item.1).take(final(self).size as int),
        r.ks() =~= old(self).ks().insert(insert_idx as int, item.0).skip(final(self).size as int),
        r.vs() =~= old(self).vs().insert(insert_idx as int, item.1).skip(final(self).size as int),
        final(self).prev == old(self).prev, final(self).next == Some(new_leaf_id), r.prev == Some(self_leaf_id), r.next == old(self).next,
//@ fn tree/leaf_node.rs LeafNode::try_delete_at
//@ props C03
//@ params self idx
//@ ret r
//@ spec
    requires old(self).wf(), idx < old(self).size,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).same_links(old(self)),
        match r {
            LeafDeleteResult::Done(item) => old(self).size > LEAF_N / 4
                && item.0 == old(self).ks()[idx as int] && item.1 == old(self).vs()[idx as int]
                && final(self).ks() =~= old(self).ks().remove(idx as int) && final(self).vs() =~= old(self).vs().remove(idx as int),
            LeafDeleteResult::UnderSize(i) => i == idx && *final(self) == *old(self) && old(self).size <= LEAF_N / 4,
        },
//@ fn tree/leaf_node.rs LeafNode::pop
//@ props C03
//@ params self
//@ ret r
//@ spec
    requires old(self).wf(), old(self).size > LEAF_N / 4,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).same_links(old(self)),
        r.0 == old(self).ks().last(), r.1 == old(self).vs().last(),
        final(self).ks() =~= old(self).ks().drop_last(), final(self).vs() =~= old(self).vs().drop_last(),
//@ fn tree/leaf_node.rs LeafNode::pop_front
//@ props C03
//@ params self
//@ ret r
//@ spec
    requires old(self).wf(), old(self).size > LEAF_N / 4,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).same_links(old(self)),
        r.0 == old(self).ks()[0], r.1 == old(self).vs()[0],
        final(self).ks() =~= old(self).ks().skip(1), final(self).vs() =~= old(self).vs().skip(1),
//@ fn tree/leaf_node.rs LeafNode::delete_with_push
//@ props C03
//@ params self idx item
//@ ret r
//@ spec
    requires old(self).wf(), idx < old(self).size,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).same_links(old(self)),
        r.0 == old(self).ks()[idx as int], r.1 == old(self).vs()[idx as int],
        final(self).ks() =~= old(self).ks().remove(idx as int).push(item.0), final(self).vs() =~= old(self).vs().remove(idx as int).push(item.1),
//@ fn tree/leaf_node.rs LeafNode::delete_with_push_front
//@ props C03
//@ params self idx item
//@ ret r
//@ spec
    requires old(self).wf(), idx < old(self).size,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).same_links(old(self)),
        r.0 == old(self).ks()[idx as int], r.1 == old(self).vs()[idx as int],
        final(self).ks() =~= seq![item.0] + old(self).ks().remove(idx as int), final(self).vs() =~= seq![item.1] + old(self).vs().remove(idx as int),
//@ fn tree/leaf_node.rs LeafNode::extend
//@ props C03 C04
//@ params self data
//@ spec
    requires old(self).wf(), inited(data.0@), inited(data.1@), data.0@.len() == data.1@.len(), old(self).size + data.0@.len() <= LEAF_N,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        all_uninit(final(data.0)@), //[C12]
        all_uninit(final(data.1)@), //[C12]
        final(self).wf(), final(self).same_links(old(self)),
        final(self).ks() =~= old(self).ks() + vals(old(data.0)@), final(self).vs() =~= old(self).vs() + vals(old(data.1)@),
        final(data.0)@.len() == old(data.0)@.len(), final(data.1)@.len() == old(data.1)@.len(),
//@ fn tree/leaf_node.rs LeafNode::merge_right_delete_first
//@ props C03 C04
//@ params self delete_idx right
//@ ret r
//@ spec
    requires old(self).wf(), old(right).wf(), delete_idx < old(right).size, old(self).size + old(right).size <= LEAF_N,
        old(self).tail(), //[C12]
        old(right).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(right).blank(), //[C12]
        final(self).wf(), final(self).prev == old(self).prev, final(self).next == old(right).next,
        final(right).size == 0, //[aux]
        final(right).next == old(right).next, //[aux]
        r.0 == old(right).ks()[delete_idx as int], r.1 == old(right).vs()[delete_idx as int],
        final(self).ks() =~= old(self).ks() + old(right).ks().remove(delete_idx as int),
        final(self).vs() =~= old(self).vs() + old(right).vs().remove(delete_idx as int),
//@ fn tree/leaf_node.rs LeafNode::merge_right
//@ props C03 C04
//@ params self right
//@ spec
    requires old(self).wf(), old(right).wf(), old(self).size + old(right).size <= LEAF_N,
        old(self).tail(), //[C12]
        old(right).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(right).blank(), //[C12]
        final(self).wf(), final(self).prev == old(self).prev, final(self).next == old(right).next,
        final(right).size == 0, //[aux]
        final(right).next == old(right).next, //[aux]
        final(self).ks() =~= old(self).ks() + old(right).ks(), final(self).vs() =~= old(self).vs() + old(right).vs(),
//@ fn tree/leaf_node.rs LeafNode::take_data
//@ props C05 C12
//@ params self slot
//@ ret r
//@ spec
    requires slot < old(self).size <= LEAF_N,
        old(self).slot_key@[slot as int].is_init() && old(self).slot_value@[slot as int].is_init(), //[C12 +]
    ensures r.0 == old(self).slot_key@[slot as int].val(), r.1 == old(self).slot_value@[slot as int].val(),
        final(self).size == old(self).size, final(self).same_links(old(self)),
        final(self).slot_key@ =~= old(self).slot_key@.update(slot as int, MaybeUninit::Uninit),
        final(self).slot_value@ =~= old(self).slot_value@.update(slot as int, MaybeUninit::Uninit),
//@ fn tree/leaf_node.rs LeafNode::delete_at
//@ props C03
//@ params self idx
//@ ret r
//@ spec
    requires old(self).wf(), idx < old(self).size,
        old(self).tail(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).same_links(old(self)),
        r.0 == old(self).ks()[idx as int], r.1 == old(self).vs()[idx as int],
        final(self).ks() =~= old(self).ks().remove(idx as int), final(self).vs() =~= old(self).vs().remove(idx as int),
//@ fn tree/leaf_node.rs LeafNode::set_data
//@ props C06
//@ params self data
//@ spec
    requires old(self).size == 0, old(data).ok(),
        old(self).blank(), //[C12]
    ensures
        final(self).tail(), //[C12]
        final(self).wf(), final(self).same_links(old(self)), final(data).ok(),
        ({ let all = old(data).rest(); let n = if all.len() < LEAF_N { all.len() as int } else { LEAF_N as int };
           &&& final(self).size == n
           &&& final(self).ks() =~= all.take(n).map_values(|e: (K, V)| e.0)
           &&& final(self).vs() =~= all.take(n).map_values(|e: (K, V)| e.1)
           &&& final(data).rest() =~= all.skip(n) }),
//@ loop 0
    invariant_except_break __it0.cur == self.size, __it0.end == LEAF_N,
    invariant data.ok(), self.wf(), self.size <= old(data).rest().len(), self.same_links(old(self)),
        data.rest() =~= old(data).rest().skip(self.size as int),
        self.tail(),
        forall|i: int| 0 <= i < self.size ==> (#[trigger] self.slot_key@[i]).val() == old(data).rest()[i].0,
        forall|i: int| 0 <= i < self.size ==> (#[trigger] self.slot_value@[i]).val() == old(data).rest()[i].1,
    ensures self.size == LEAF_N || data.rest().len() == 0,
//@ raw
}
