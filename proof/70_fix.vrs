//@ struct tree/tree_remove.rs FixAction
//@ struct tree/tree_remove.rs DeleteDescendResult
//@ raw
// ======================= what the rebalancing functions do to the nodes they touch ===================

/// p1 is p0 with the key at `slot` and the augmentations of the children on both sides replaced
pub open spec fn reslot<K: Key, A>(p0: InnerNode<K, A>, p1: InnerNode<K, A>, slot: int, x: real, la: A, ra: A) -> bool {
    &&& p1.tail() //[C12]
    &&& p1.wf() && p1.size == p0.size && p1.cs() =~= p0.cs()
    &&& p1.ks() =~= p0.ks().update(slot, p1.ks()[slot]) && p1.ks()[slot].ord() == x
    &&& p1.augs() =~= p0.augs().update(slot, la).update(slot + 1, ra)
}
/// p1 is p0 without the key at `slot` and the child to its right; the child to its left has a new augmentation
pub open spec fn unslot<K: Key, A>(p0: InnerNode<K, A>, p1: InnerNode<K, A>, slot: int, la: A) -> bool {
    &&& p1.tail() //[C12]
    &&& p1.wf() && p1.size == p0.size - 1
    &&& p1.ks() =~= p0.ks().remove(slot)
    &&& p1.cs() =~= p0.cs().remove(slot + 1)
    &&& p1.augs() =~= p0.augs().update(slot, la).remove(slot + 1)
}
/// `slot` is between two leaves of p
pub open spec fn two_leaves<K: Key, V, A>(lm: LM<K, V>, p: InnerNode<K, A>, slot: int) -> bool {
    &&& p.tail() //[C12]
    &&& p.wf() && 0 <= slot < p.size
    &&& p.cs()[slot] is Leaf && p.cs()[slot + 1] is Leaf && p.cs()[slot] != p.cs()[slot + 1]
    &&& ({ let l = p.cs()[slot]->Leaf_0; let r = p.cs()[slot + 1]->Leaf_0;
        lm.contains_key(l) && lm.contains_key(r) && lm[l].wf() && lm[r].wf()
        && lm[l].tail() && lm[r].tail() //[C12]
        && (lm[r].next is Some ==> lm.contains_key(lm[r].next->0) && lm[r].next->0 != l && lm[r].next->0 != r) })
}
pub open spec fn two_inners<K: Key, A>(im: IM<K, A>, p: InnerNode<K, A>, slot: int) -> bool {
    &&& p.tail() //[C12]
    &&& p.wf() && 0 <= slot < p.size
    &&& p.cs()[slot] is Inner && p.cs()[slot + 1] is Inner && p.cs()[slot] != p.cs()[slot + 1]
    &&& ({ let l = p.cs()[slot]->Inner_0; let r = p.cs()[slot + 1]->Inner_0;
        im.contains_key(l) && im.contains_key(r) && im[l].wf() && im[r].wf()
        && im[l].tail() && im[r].tail() //[C12]
        })
}
/// the entries of two neighbouring leaves, without the d-th, are distributed anew over both
pub open spec fn leaf_redist<K: Key, V, A: Augmentation<K, V>>(lm0: LM<K, V>, p0: InnerNode<K, A>, lm1: LM<K, V>, p1: InnerNode<K, A>, slot: int, d: int) -> bool {
    let lid = p0.cs()[slot]->Leaf_0;
    let rid = p0.cs()[slot + 1]->Leaf_0;
    let l = lm0[lid];
    let r = lm0[rid];
    let l2 = lm1[lid];
    let r2 = lm1[rid];
    &&& 0 <= slot < p0.size && 0 <= d < l.size + r.size
    &&& lm1 =~= lm0.insert(lid, l2).insert(rid, r2)
    &&& l2.tail() && r2.tail() //[C12]
    &&& l2.wf() && r2.wf() && l2.same_links(&l) && r2.same_links(&r)
    &&& l2.ks() + r2.ks() == (l.ks() + r.ks()).remove(d) && l2.vs() + r2.vs() == (l.vs() + r.vs()).remove(d)
    &&& l2.size >= 1 && r2.size >= 1
    &&& (l.size >= LEAF_N / 4 ==> l2.size >= LEAF_N / 4) && (r.size >= LEAF_N / 4 ==> r2.size >= LEAF_N / 4) //[C11]
    &&& reslot(p0, p1, slot, r2.ks()[0].ord(), A::leaf_spec(l2.ks(), l2.vs()), A::leaf_spec(r2.ks(), r2.vs()))
}
/// a leaf takes the entries of its right neighbour, without the d-th of both
pub open spec fn leaf_merge<K: Key, V, A: Augmentation<K, V>>(lm0: LM<K, V>, p0: InnerNode<K, A>, lm1: LM<K, V>, p1: InnerNode<K, A>, slot: int, d: int) -> bool {
    let lid = p0.cs()[slot]->Leaf_0;
    let rid = p0.cs()[slot + 1]->Leaf_0;
    let l = lm0[lid];
    let r = lm0[rid];
    let l2 = lm1[lid];
    &&& 0 <= slot < p0.size && 0 <= d < l.size + r.size
    &&& lm1 =~= (match r.next { Some(nx) => lm0.remove(rid).insert(lid, l2).insert(nx, LeafNode { prev: Some(lid), ..lm0[nx] }), None => lm0.remove(rid).insert(lid, l2) }) //[C04]
    &&& l2.tail() //[C12]
    &&& l2.wf() && l2.prev == l.prev && l2.next == r.next
    &&& l2.ks() == (l.ks() + r.ks()).remove(d) && l2.vs() == (l.vs() + r.vs()).remove(d)
    &&& unslot(p0, p1, slot, A::leaf_spec(l2.ks(), l2.vs()))
}
/// the children of two neighbouring inner nodes are distributed anew over both
pub open spec fn inner_redist<K: Key, V, A: Augmentation<K, V>>(im0: IM<K, A>, p0: InnerNode<K, A>, im1: IM<K, A>, p1: InnerNode<K, A>, slot: int) -> bool {
    let lid = p0.cs()[slot]->Inner_0;
    let rid = p0.cs()[slot + 1]->Inner_0;
    let l = im0[lid];
    let r = im0[rid];
    let l2 = im1[lid];
    let r2 = im1[rid];
    &&& 0 <= slot < p0.size
    &&& im1 =~= im0.insert(lid, l2).insert(rid, r2)
    &&& l2.tail() && r2.tail() //[C12]
    &&& l2.wf() && r2.wf()
    &&& l2.ks().push(p1.ks()[slot]) + r2.ks() == l.ks().push(p0.ks()[slot]) + r.ks()
    &&& l2.cs() + r2.cs() == l.cs() + r.cs() && l2.augs() + r2.augs() == l.augs() + r.augs()
    &&& l2.size >= 1 && r2.size >= 1
    &&& (l.size + 1 >= MIN_N ==> l2.size >= MIN_N) && (r.size + 1 >= MIN_N ==> r2.size >= MIN_N) //[C11]
    &&& reslot(p0, p1, slot, p1.ks()[slot].ord(), A::inner_spec(l2.ks(), l2.augs()), A::inner_spec(r2.ks(), r2.augs()))
}
/// an inner node takes the children of its right neighbour
pub open spec fn inner_merge<K: Key, V, A: Augmentation<K, V>>(im0: IM<K, A>, p0: InnerNode<K, A>, im1: IM<K, A>, p1: InnerNode<K, A>, slot: int) -> bool {
    let lid = p0.cs()[slot]->Inner_0;
    let rid = p0.cs()[slot + 1]->Inner_0;
    let l = im0[lid];
    let r = im0[rid];
    let l2 = im1[lid];
    &&& 0 <= slot < p0.size
    &&& im1 =~= im0.remove(rid).insert(lid, l2)
    &&& l2.wf()
    &&& l2.tail() //[C12]
    &&& l2.ks() =~= l.ks().push(p0.ks()[slot]) + r.ks() && l2.cs() =~= l.cs() + r.cs() && l2.augs() =~= l.augs() + r.augs()
    &&& unslot(p0, p1, slot, A::inner_spec(l2.ks(), l2.augs()))
}
pub proof fn seq_shift<T>(a: Seq<T>, b: Seq<T>, d: int)
    ensures
        0 <= d < a.len() && b.len() > 0 ==> a.remove(d).push(b[0]) + b.skip(1) == (a + b).remove(d),
        0 <= d < b.len() && a.len() > 0 ==> a.drop_last() + (seq![a.last()] + b.remove(d)) == (a + b).remove(a.len() + d),
        0 <= d < a.len() ==> a.remove(d) + b == (a + b).remove(d),
        0 <= d < b.len() ==> a + b.remove(d) == (a + b).remove(a.len() + d),
{
    if 0 <= d < a.len() && b.len() > 0 { assert(a.remove(d).push(b[0]) + b.skip(1) =~= (a + b).remove(d)); }
    if 0 <= d < b.len() && a.len() > 0 { assert(a.drop_last() + (seq![a.last()] + b.remove(d)) =~= (a + b).remove(a.len() + d)); }
    if 0 <= d < a.len() { assert(a.remove(d) + b =~= (a + b).remove(d)); }
    if 0 <= d < b.len() { assert(a + b.remove(d) =~= (a + b).remove(a.len() + d)); }
}
pub proof fn seq_rotate<T>(a: Seq<T>, b: Seq<T>, k: T)
    ensures
        a.len() > 0 ==> a.drop_last().push(a.last()) + (seq![k] + b) == a.push(k) + b && a.drop_last() + (seq![a.last()] + b) == a + b,
        b.len() > 0 ==> a.push(k).push(b[0]) + b.skip(1) == a.push(k) + b && a.push(b[0]) + b.skip(1) == a + b,
{
    if a.len() > 0 { assert(a.drop_last().push(a.last()) + (seq![k] + b) =~= a.push(k) + b); assert(a.drop_last() + (seq![a.last()] + b) =~= a + b); }
    if b.len() > 0 { assert(a.push(k).push(b[0]) + b.skip(1) =~= a.push(k) + b); assert(a.push(b[0]) + b.skip(1) =~= a + b); }
}
pub open spec fn under_flag(size: u16, under: bool) -> bool { (size < MIN_N ==> under) && (under ==> size <= MIN_N) }
impl<K: Key, V, A: Augmentation<K, V>> BPlusTree<K, V, A> {
//@ fn tree/tree_remove.rs BPlusTree::rotate_right_for_leaf
//@ props C03 C07 C11
//@ params node_store node slot delete_idx
//@ ret r
//@ spec
    requires two_leaves(old(node_store).lm(), *old(node), slot as int),
        ({ let l = old(node_store).lm()[old(node).cs()[slot as int]->Leaf_0]; let r = old(node_store).lm()[old(node).cs()[slot + 1]->Leaf_0];
            l.size > LEAF_N / 4 && delete_idx < r.size }),
    ensures
        ({ let l = old(node_store).lm()[old(node).cs()[slot as int]->Leaf_0]; let r0 = old(node_store).lm()[old(node).cs()[slot + 1]->Leaf_0];
            leaf_redist(old(node_store).lm(), *old(node), final(node_store).lm(), *final(node), slot as int, l.size + delete_idx)
            && r.0 == r0.ks()[delete_idx as int] && r.1 == r0.vs()[delete_idx as int] }),
        final(node_store).im() == old(node_store).im(), final(node_store).inext() == old(node_store).inext(), final(node_store).lnext() == old(node_store).lnext(),
//@ at start
    proof {
        let l = node_store.lm()[node.cs()[slot as int]->Leaf_0];
        let r = node_store.lm()[node.cs()[slot + 1]->Leaf_0];
        seq_shift(l.ks(), r.ks(), delete_idx as int);
        seq_shift(l.vs(), r.vs(), delete_idx as int);
    }
//@ fn tree/tree_remove.rs BPlusTree::rotate_left_for_leaf
//@ props C03 C07 C11
//@ params node_store parent slot delete_idx
//@ ret r
//@ spec
    requires two_leaves(old(node_store).lm(), *old(parent), slot as int),
        ({ let l = old(node_store).lm()[old(parent).cs()[slot as int]->Leaf_0]; let r = old(node_store).lm()[old(parent).cs()[slot + 1]->Leaf_0];
            r.size > LEAF_N / 4 && delete_idx < l.size }),
    ensures
        ({ let l = old(node_store).lm()[old(parent).cs()[slot as int]->Leaf_0];
            leaf_redist(old(node_store).lm(), *old(parent), final(node_store).lm(), *final(parent), slot as int, delete_idx as int)
            && r.0 == l.ks()[delete_idx as int] && r.1 == l.vs()[delete_idx as int] }),
        final(node_store).im() == old(node_store).im(), final(node_store).inext() == old(node_store).inext(), final(node_store).lnext() == old(node_store).lnext(),
//@ at start
    proof {
        let l = node_store.lm()[parent.cs()[slot as int]->Leaf_0];
        let r = node_store.lm()[parent.cs()[slot + 1]->Leaf_0];
        seq_shift(l.ks(), r.ks(), delete_idx as int);
        seq_shift(l.vs(), r.vs(), delete_idx as int);
    }
//@ fn tree/tree_remove.rs BPlusTree::merge_leaf_node_left
//@ props C03 C04 C07 C11
//@ params node_store parent slot delete_idx
//@ ret r
//@ spec
    requires two_leaves(old(node_store).lm(), *old(parent), slot as int),
        ({ let l = old(node_store).lm()[old(parent).cs()[slot as int]->Leaf_0]; let r = old(node_store).lm()[old(parent).cs()[slot + 1]->Leaf_0];
            l.size + r.size <= LEAF_N && delete_idx < r.size }),
    ensures
        ({ let l = old(node_store).lm()[old(parent).cs()[slot as int]->Leaf_0]; let r0 = old(node_store).lm()[old(parent).cs()[slot + 1]->Leaf_0];
            leaf_merge(old(node_store).lm(), *old(parent), final(node_store).lm(), *final(parent), slot as int, l.size + delete_idx)
            && removed(r, r0.ks()[delete_idx as int], r0.vs()[delete_idx as int], *final(parent)) }),
        final(node_store).im() == old(node_store).im(), final(node_store).inext() == old(node_store).inext(), final(node_store).lnext() == old(node_store).lnext(),
//@ at start
    proof {
        let l = node_store.lm()[parent.cs()[slot as int]->Leaf_0];
        let r = node_store.lm()[parent.cs()[slot + 1]->Leaf_0];
        seq_shift(l.ks(), r.ks(), delete_idx as int);
        seq_shift(l.vs(), r.vs(), delete_idx as int);
    }
//@ fn tree/tree_remove.rs BPlusTree::merge_leaf_node_with_right
//@ props C03 C04 C07 C11
//@ params node_store parent slot delete_idx
//@ ret r
//@ spec
    requires two_leaves(old(node_store).lm(), *old(parent), slot as int),
        ({ let l = old(node_store).lm()[old(parent).cs()[slot as int]->Leaf_0]; let r = old(node_store).lm()[old(parent).cs()[slot + 1]->Leaf_0];
            l.size + r.size <= LEAF_N && delete_idx < l.size }),
    ensures
        ({ let l = old(node_store).lm()[old(parent).cs()[slot as int]->Leaf_0];
            leaf_merge(old(node_store).lm(), *old(parent), final(node_store).lm(), *final(parent), slot as int, delete_idx as int)
            && removed(r, l.ks()[delete_idx as int], l.vs()[delete_idx as int], *final(parent)) }),
        final(node_store).im() == old(node_store).im(), final(node_store).inext() == old(node_store).inext(), final(node_store).lnext() == old(node_store).lnext(),
//@ at start
    proof {
        let l = node_store.lm()[parent.cs()[slot as int]->Leaf_0];
        let r = node_store.lm()[parent.cs()[slot + 1]->Leaf_0];
        seq_shift(l.ks(), r.ks(), delete_idx as int);
        seq_shift(l.vs(), r.vs(), delete_idx as int);
    }
//@ fn tree/tree_remove.rs BPlusTree::try_rotate_right_for_inner_node
//@ props C03 C07 C11
//@ params node_store node slot
//@ ret r
//@ spec
    requires two_inners(old(node_store).im(), *old(node), slot as int),
        ({ let r0 = old(node_store).im()[old(node).cs()[slot + 1]->Inner_0]; r0.size <= MIN_N }),
    ensures
        r is Some ==> inner_redist::<K, V, A>(old(node_store).im(), *old(node), final(node_store).im(), *final(node), slot as int),
        r is None ==> *final(node) == *old(node) && final(node_store).im() == old(node_store).im() && old(node_store).im()[old(node).cs()[slot as int]->Inner_0].size <= MIN_N,
        final(node_store).lm() == old(node_store).lm(), final(node_store).inext() == old(node_store).inext(), final(node_store).lnext() == old(node_store).lnext(),
//@ at start
    proof {
        let l = node_store.im()[node.cs()[slot as int]->Inner_0];
        let r = node_store.im()[node.cs()[slot + 1]->Inner_0];
        seq_rotate(l.ks(), r.ks(), node.ks()[slot as int]);
        seq_rotate(l.cs(), r.cs(), node.cs()[0]);
        seq_rotate(l.augs(), r.augs(), node.augs()[0]);
    }
//@ fn tree/tree_remove.rs BPlusTree::try_rotate_left_for_inner_node
//@ props C03 C07 C11
//@ params node_store node slot
//@ ret r
//@ spec
    requires two_inners(old(node_store).im(), *old(node), slot as int),
        ({ let l0 = old(node_store).im()[old(node).cs()[slot as int]->Inner_0]; l0.size <= MIN_N }),
    ensures
        r is Some ==> inner_redist::<K, V, A>(old(node_store).im(), *old(node), final(node_store).im(), *final(node), slot as int),
        r is None ==> *final(node) == *old(node) && final(node_store).im() == old(node_store).im() && old(node_store).im()[old(node).cs()[slot + 1]->Inner_0].size <= MIN_N,
        final(node_store).lm() == old(node_store).lm(), final(node_store).inext() == old(node_store).inext(), final(node_store).lnext() == old(node_store).lnext(),
//@ at start
    proof {
        let l = node_store.im()[node.cs()[slot as int]->Inner_0];
        let r = node_store.im()[node.cs()[slot + 1]->Inner_0];
        seq_rotate(l.ks(), r.ks(), node.ks()[slot as int]);
        seq_rotate(l.cs(), r.cs(), node.cs()[0]);
        seq_rotate(l.augs(), r.augs(), node.augs()[0]);
    }
//@ fn tree/tree_remove.rs BPlusTree::merge_inner_node
//@ props C03 C07 C11
//@ params node_store node slot
//@ ret r
//@ spec
    requires two_inners(old(node_store).im(), *old(node), slot as int),
        ({ let l = old(node_store).im()[old(node).cs()[slot as int]->Inner_0]; let r0 = old(node_store).im()[old(node).cs()[slot + 1]->Inner_0]; l.size + r0.size < INNER_N }),
    ensures
        inner_merge::<K, V, A>(old(node_store).im(), *old(node), final(node_store).im(), *final(node), slot as int),
        under_flag(final(node).size, r is UnderSize),
        final(node_store).lm() == old(node_store).lm(), final(node_store).inext() == old(node_store).inext(), final(node_store).lnext() == old(node_store).lnext(),
//@ raw
}
/// what a merge of two leaves reports
pub open spec fn removed<K: Key, V, A>(r: DeleteDescendResult<K, V>, k: K, v: V, p: InnerNode<K, A>) -> bool {
    match r {
        DeleteDescendResult::Done(kv) => kv == (k, v) && under_flag(p.size, false),
        DeleteDescendResult::InnerUnderSize(kv) => kv == (k, v) && under_flag(p.size, true),
        DeleteDescendResult::LeafUnderSize(_) => false,
    }
}
