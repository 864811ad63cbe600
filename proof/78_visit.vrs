//@ struct tree/visit.rs DescendVisitResult
//@ raw
// ======================= descending visitors ========================================================

/// A visitor: what it answers, and what it is afterwards, as functions of what it was and of what it
/// is shown. (A specification value may hold anything, also the answers of an oracle: this covers
/// every visitor, also one that asks for a child that does not exist.)
pub trait DescendVisit<K: Key, V, A: Augmentation<K, V>>: Sized {
    type Result;
    spec fn inner_next(self, keys: Seq<K>, augs: Seq<A>) -> Self;
    spec fn inner_says(self, keys: Seq<K>, augs: Seq<A>) -> DescendVisitResult<Self::Result>;
    spec fn leaf_says(self, keys: Seq<K>, values: Seq<V>) -> Option<Self::Result>;
    fn visit_inner(&mut self, keys: &[K], augs: &[A]) -> (r: DescendVisitResult<Self::Result>)
        requires augs@.len() == keys@.len() + 1,
        ensures *final(self) == old(self).inner_next(keys@, augs@), r == old(self).inner_says(keys@, augs@);
    fn visit_leaf(&mut self, keys: &[K], values: &[V]) -> (r: Option<Self::Result>)
        requires keys@.len() == values@.len(), sorted(keys@),
        ensures r == old(self).leaf_says(keys@, values@);
}
/// what a visitor gets when it is led down the tree from node n, of height h
pub open spec fn led<K: Key, V, A: Augmentation<K, V>, W: DescendVisit<K, V, A>>(im: IM<K, A>, lm: LM<K, V>, n: NodeId, h: nat, w: W) -> Option<W::Result>
    decreases h,
{
    match n {
        NodeId::Leaf(l) => w.leaf_says(lm[l].ks(), lm[l].vs()),
        NodeId::Inner(i) => match w.inner_says(im[i].ks(), im[i].augs()) {
            DescendVisitResult::GoDown(c) => if h > 0 && c <= im[i].size { led::<K, V, A, W>(im, lm, im[i].cs()[c as int], (h - 1) as nat, w.inner_next(im[i].ks(), im[i].augs())) } else { None },
            DescendVisitResult::Cancel => None,
            DescendVisitResult::Complete(r) => Some(r),
        },
    }
}
/// the visitor, led down the tree from node n, of height h, asks for a child that does not exist
pub open spec fn led_astray<K: Key, V, A: Augmentation<K, V>, W: DescendVisit<K, V, A>>(im: IM<K, A>, lm: LM<K, V>, n: NodeId, h: nat, w: W) -> bool
    decreases h,
{
    match n {
        NodeId::Leaf(l) => false,
        NodeId::Inner(i) => match w.inner_says(im[i].ks(), im[i].augs()) {
            DescendVisitResult::GoDown(c) => c > im[i].size || (h > 0 && led_astray::<K, V, A, W>(im, lm, im[i].cs()[c as int], (h - 1) as nat, w.inner_next(im[i].ks(), im[i].augs()))),
            _ => false,
        },
    }
}
/// every child of a node is in the tree, one level below
pub proof fn children_there<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: InnerNodeId)
    requires tree(im, lm, g, m), g.pend is None, g.rg.contains_key(NodeId::Inner(id)),
    ensures forall|i: int| 0 <= i <= im[id].size ==> g.rg.contains_key(#[trigger] im[id].cs()[i]) && g.rg[im[id].cs()[i]].h == g.rg[NodeId::Inner(id)].h - 1,
{
    assert(inner_ok(im, lm, g, id));
    reveal(ic);
}
impl<K: Key, V, A: Augmentation<K, V>> BPlusTree<K, V, A> {
//@ fn tree/visit.rs BPlusTree::descend_visit
//@ props C16
//@ params self visitor
//@ ret r
//@ generics <W: DescendVisit<K, V, A>>
//@ subst visitor: V => visitor: W
//@ subst V :: Result => W::Result
//@ subst V::Result => W::Result
//@ panics led_astray::<K, V, A, W>(self.im(), self.lm(), self.root, self.gg().h as nat, visitor)
//@ spec
    requires self.wf(),
    ensures !led_astray::<K, V, A, W>(self.im(), self.lm(), self.root, self.gg().h as nat, visitor), //[C16]
        r == led::<K, V, A, W>(self.im(), self.lm(), self.root, self.gg().h as nat, visitor), //[C16]
//@ loop 0
    invariant self.rest(), self.gg().rg.contains_key(node_id), self.gg().rg[node_id].h >= 0,
        led::<K, V, A, W>(self.im(), self.lm(), self.root, self.gg().h as nat, visitor) == led::<K, V, A, W>(self.im(), self.lm(), node_id, self.gg().rg[node_id].h as nat, v),
        led_astray::<K, V, A, W>(self.im(), self.lm(), self.root, self.gg().h as nat, visitor) == led_astray::<K, V, A, W>(self.im(), self.lm(), node_id, self.gg().rg[node_id].h as nat, v),
    decreases self.gg().rg[node_id].h,
//@ at before call get_inner
    proof { node_there(self.im(), self.lm(), self.gg(), self.m(), node_id); children_there(self.im(), self.lm(), self.gg(), self.m(), inner_id); }
//@ at before call get_leaf
    proof { assert(leaf_ok(self.lm(), self.gg(), self.m(), leaf_id)); reveal(lc); }
//@ at start
    proof { assert(self.gg().rg.contains_key(self.root)); }
//@ raw
}
