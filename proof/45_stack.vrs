//@ const tree/entry_ref.rs N
//@ struct tree/entry_ref.rs StackEntry
//@ attr #[derive(Clone, Copy)]
//@ struct tree/entry_ref.rs VisitStack
//@ struct tree/entry_ref.rs EntryRefDetached
//@ struct tree/entry_ref.rs EntryRef
//@ raw
impl StackEntry {
//@ fn tree/entry_ref.rs StackEntry::invalid
//@ ret r
//@ spec
    ensures true,
//@ raw
}
impl VisitStack {
    pub open spec fn wf(&self) -> bool { self.len <= MAX_DEPTH }
    /// the entries pushed and not popped, oldest first
    pub open spec fn es(&self) -> Seq<StackEntry> { self.stack@.take(self.len as int) }
//@ fn tree/entry_ref.rs VisitStack::new
//@ ret r
//@ spec
    ensures r.wf(), r.es().len() == 0, r.len == 0,
//@ fn tree/entry_ref.rs VisitStack::push
//@ params self id offset child_id
//@ spec
    requires old(self).wf(), old(self).len < MAX_DEPTH,
    ensures final(self).wf(), final(self).len == old(self).len + 1,
        final(self).es() =~= old(self).es().push(StackEntry { id: id, offset: offset, child_id: child_id }),
//@ fn tree/entry_ref.rs VisitStack::pop
//@ params self
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        old(self).es().len() == 0 ==> r is None && final(self).es() =~= old(self).es(),
        old(self).es().len() > 0 ==> r == Some((old(self).es().last().id, old(self).es().last().offset, old(self).es().last().child_id))
            && final(self).es() =~= old(self).es().drop_last(),
//@ raw
}
impl EntryRefDetached {
//@ fn tree/entry_ref.rs EntryRefDetached::into_ref
//@ params self tree
//@ ret r
//@ spec
    ensures r.inner_stack == self.inner_stack, r.leaf_id == self.leaf_id, r.offset == self.offset, r.tree == tree,
//@ raw
}
impl<TR> EntryRef<TR> {
//@ fn tree/entry_ref.rs EntryRef::new
//@ params tree inner_visit leaf_id offset
//@ ret r
//@ spec
    ensures r.inner_stack == inner_visit, r.leaf_id == leaf_id, r.offset == offset, r.tree == tree,
//@ fn tree/entry_ref.rs EntryRef::into_detached
//@ params self
//@ ret r
//@ spec
    ensures r.inner_stack == self.inner_stack, r.leaf_id == self.leaf_id, r.offset == self.offset,
//@ raw
}
