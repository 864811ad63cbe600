//@ raw
// ======================= smaller tree functions =====================================================

impl<K: Key, V, A: Augmentation<K, V>> BPlusTree<K, V, A> {
//@ fn tree/mod.rs BPlusTree::cursor_first
//@ props C10
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures (r is None) == (self.m().len() == 0), r is Some ==> is_min(self.m(), (r->0).k.ord()),
//@ fn tree/mod.rs BPlusTree::get_cursor
//@ props C10
//@ params self k
//@ ret r
//@ spec
    requires self.wf(),
    ensures r is Some, (r->0).0.k.ord() == k.ord(), shows((r->0).1, lookup(self.m(), k.ord())),
//@ at start
    proof { k.ord_bounds(); heres(self, k.ord()); }
//@ loop 0
    invariant_except_break self.covers(NodeId::Inner(node_id), k.ord()),
    invariant self.rest(),
    ensures result is Some, self.covers(NodeId::Leaf(result->0), k.ord()),
    decreases self.gg().rg[NodeId::Inner(node_id)].h,
//@ at before call get_inner
    proof { node_there(self.im(), self.lm(), self.gg(), self.m(), NodeId::Inner(node_id)); child_covers(self.im(), self.lm(), self.gg(), self.m(), node_id, k.ord()); }
//@ at before call get_leaf
    proof { assert(self.covers(NodeId::Leaf(leaf_id), k.ord())); }
//@ fn tree/mod.rs BPlusTree::clear
//@ props C15 C07
//@ params self
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).m() == Map::<real, (K, V)>::empty(), final(self).gg().h == 0, final(self).gg().fresh, final(self).gg().strict,
//@ fn tree/mod.rs BPlusTree::get_by_ref
//@ props C08 C09
//@ params entry_ref
//@ ret r
//@ spec
    requires entry_ref.tree.rest(), ref_ok(entry_ref.tree.im(), entry_ref.tree.lm(), entry_ref.tree.gg(), entry_ref.inner_stack, entry_ref.leaf_id, entry_ref.offset as int),
    ensures r is Some, ({ let t = entry_ref.tree; let x = t.lm()[entry_ref.leaf_id].ks()[entry_ref.offset as int].ord(); t.m().contains_key(x) && (*(r->0).0, *(r->0).1) == t.m()[x] && (r->0).0.ord() == x && *(r->0).0 == t.lm()[entry_ref.leaf_id].ks()[entry_ref.offset as int] }),
//@ at start
    proof { let t = entry_ref.tree; leaf_entry(t.lm(), t.gg(), t.m(), entry_ref.leaf_id, entry_ref.offset as int); }
//@ fn tree/mod.rs BPlusTree::get_mut_by_ref
//@ props C08 C09
//@ params entry_ref
//@ ret r
//@ spec
    requires entry_ref.tree.wf(), ref_ok(entry_ref.tree.im(), entry_ref.tree.lm(), entry_ref.tree.gg(), entry_ref.inner_stack, entry_ref.leaf_id, entry_ref.offset as int),
    ensures ({ let t = *old(entry_ref.tree); let f = *final(entry_ref.tree); let x = t.lm()[entry_ref.leaf_id].ks()[entry_ref.offset as int].ord();
        t.m().contains_key(x) && *r == t.m()[x].1 && t.set_value(&f, x, *final(r)) && f.wf() }),
//@ at start
    let ghost t0 = *entry_ref.tree;
    let ghost g2 = G { fresh: t0.gg().fresh && A::value_free(), ..t0.gg() };
    proof { leaf_entry(t0.lm(), t0.gg(), t0.m(), entry_ref.leaf_id, entry_ref.offset as int); }
//@ at before call value_at_mut
    proof {
        tree.g@ = g2;
        step_value_if(t0.im(), t0.lm(), t0.gg(), t0.m(), leaf_id, slot as int, *final(leaf), g2);
    }
//@ raw
}
