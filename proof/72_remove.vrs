//@ raw
// ======================= removal ====================================================================

/// the leaves beside `slot` were rebalanced, without the d-th of their entries
pub open spec fn leaf_fixed<K: Key, V, A: Augmentation<K, V>>(lm0: LM<K, V>, p0: InnerNode<K, A>, lm1: LM<K, V>, p1: InnerNode<K, A>, slot: int, d: int, r: DeleteDescendResult<K, V>, k: K, v: V) -> bool {
    ||| leaf_redist(lm0, p0, lm1, p1, slot, d) && r is Done && r->Done_0 == (k, v)
    ||| leaf_merge(lm0, p0, lm1, p1, slot, d) && removed(r, k, v, p1)
}
/// the inner nodes beside `slot` were rebalanced
pub open spec fn inner_fixed<K: Key, V, A: Augmentation<K, V>>(im0: IM<K, A>, p0: InnerNode<K, A>, im1: IM<K, A>, p1: InnerNode<K, A>, slot: int, r: DeleteDescendResult<K, V>, kv: (K, V)) -> bool {
    ||| inner_redist::<K, V, A>(im0, p0, im1, p1, slot) && r is Done && r->Done_0 == kv
    ||| inner_merge::<K, V, A>(im0, p0, im1, p1, slot) && removed(r, kv.0, kv.1, p1)
}
/// what the rebalancing of child i of p needs
pub open spec fn fixable_leaf<K: Key, V, A>(lm: LM<K, V>, p: InnerNode<K, A>, i: int) -> bool {
    &&& p.tail() //[C12]
    &&& p.wf() && p.size >= 1 && 0 <= i <= p.size
    &&& i > 0 ==> two_leaves(lm, p, i - 1)
    &&& i < p.size ==> two_leaves(lm, p, i)
    &&& lm[p.cs()[i]->Leaf_0].size <= LEAF_N / 4
}
pub open spec fn fixable_inner<K: Key, A>(im: IM<K, A>, p: InnerNode<K, A>, i: int) -> bool {
    &&& p.tail() //[C12]
    &&& p.wf() && p.size >= 1 && 0 <= i <= p.size
    &&& i > 0 ==> two_inners(im, p, i - 1)
    &&& i < p.size ==> two_inners(im, p, i)
    &&& im[p.cs()[i]->Inner_0].size <= MIN_N
}
/// the children of p can be rebalanced
proof fn can_fix<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, i: int)
    requires tree(im, lm, g, m), g.pend is None, g.rg.contains_key(NodeId::Inner(p)), 0 <= i <= im[p].size, g.under != Some(NodeId::Inner(p)),
    ensures
        im.contains_key(p) && im[p].wf() && im[p].tail() && im[p].size >= 1,
        g.under is None && im[p].cs()[i] is Leaf && lm[im[p].cs()[i]->Leaf_0].size <= LEAF_N / 4 ==> fixable_leaf(lm, im[p], i),
        im[p].cs()[i] is Inner && im[im[p].cs()[i]->Inner_0].size <= MIN_N ==> fixable_inner(im.remove(p), im[p], i),
{
    assert(inner_ok(im, lm, g, p));
    kids(im, lm, g, p);
    node_there(im, lm, g, m, im[p].cs()[i]);
    if i > 0 { can_fix_at(im, lm, g, m, p, i - 1); }
    if i < im[p].size { can_fix_at(im, lm, g, m, p, i); }
}
proof fn can_fix_at<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, s: int)
    requires tree(im, lm, g, m), g.pend is None, g.rg.contains_key(NodeId::Inner(p)), 0 <= s < im[p].size,
    ensures
        im[p].cs()[s] is Leaf == im[p].cs()[s + 1] is Leaf,
        im[p].cs()[s] is Leaf ==> two_leaves(lm, im[p], s),
        im[p].cs()[s] is Inner ==> two_inners(im.remove(p), im[p], s),
{
    assert(inner_ok(im, lm, g, p));
    are_neighbours(im, lm, g, m, p, s);
    let l = im[p].cs()[s]; let r = im[p].cs()[s + 1];
    node_there(im, lm, g, m, l);
    node_there(im, lm, g, m, r);
    if r is Leaf {
        let id = r->Leaf_0;
        assert(leaf_ok(lm, g, m, id));
        get_links(g, id, lm[id].prev, lm[id].next);
        if lm[id].next is Some { assert(leaf_ok(lm, g, m, lm[id].next->0)); }
    }
}
/// a path to a place in a leaf
pub open spec fn ref_ok<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, stack: VisitStack, leaf: LeafNodeId, offset: int) -> bool {
    &&& stack.wf() && chain(im, g, stack.es(), NodeId::Leaf(leaf)) && stack.es().len() == g.h
    &&& g.rg.contains_key(NodeId::Leaf(leaf)) && 0 <= offset < lm[leaf].size
}
pub open spec fn ref_removed<K: Key, V, A: Augmentation<K, V>>(t0: BPlusTree<K, V, A>, t1: BPlusTree<K, V, A>, leaf: LeafNodeId, offset: int, r: Option<(K, V)>) -> bool {
    let x = t0.lm()[leaf].ks()[offset].ord();
    &&& t0.m().contains_key(x)
    &&& t1.m() == t0.m().remove(x)
    &&& r == Some(t0.m()[x])
}
/// in the middle of a removal: what r says of the node `cur`, below which all is done
pub open spec fn removing<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, x: real, cur: NodeId, r: DeleteDescendResult<K, V>) -> bool {
    &&& g.pend is None && m.contains_key(x)
    &&& match r {
        DeleteDescendResult::Done(kv) => tree(im, lm, g, m.remove(x)) && kv == m[x] && g.dirty == Some(cur) && g.under is None,
        DeleteDescendResult::InnerUnderSize(kv) => tree(im, lm, g, m.remove(x)) && kv == m[x] && g.dirty == Some(cur) && g.under == Some(cur)
            && cur is Inner && im[cur->Inner_0].size <= MIN_N,
        DeleteDescendResult::LeafUnderSize(i) => tree(im, lm, g, m) && settled(g)
            && cur is Leaf && i < lm[cur->Leaf_0].size && lm[cur->Leaf_0].size <= LEAF_N / 4 && lm[cur->Leaf_0].ks()[i as int].ord() == x,
    }
}
/// what the code needs to know on its way up
proof fn before_step<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, x: real, cur: NodeId, r: DeleteDescendResult<K, V>, es: Seq<StackEntry>)
    requires removing(im, lm, g, m, x, cur, r), chain(im, g, es, cur), g.rg.contains_key(cur),
    ensures
        match cur { NodeId::Inner(i) => im.contains_key(i) && im[i].wf() && im[i].tail(), NodeId::Leaf(l) => lm.contains_key(l) && lm[l].wf() && lm[l].tail() },
        es.len() == 0 ==> cur == g.root,
        es.len() > 0 ==> ({ let e = es.last(); let p = e.id;
            &&& g.rg.contains_key(NodeId::Inner(p)) && e.offset <= im[p].size && e.child_id == cur && cur == im[p].cs()[e.offset as int]
            &&& im.contains_key(p) && im[p].wf() && im[p].tail()
            &&& r is LeafUnderSize ==> fixable_leaf(lm, im[p], e.offset as int)
            &&& r is InnerUnderSize ==> fixable_inner(im.remove(p), im[p], e.offset as int)
        }),
        cur is Inner ==> ({ let c = im[cur->Inner_0].cs()[0];
            match c { NodeId::Inner(i) => im.contains_key(i) && im[i].wf() && im[i].tail(), NodeId::Leaf(l) => lm.contains_key(l) && lm[l].wf() && lm[l].tail() } }),
{
    let mm = if r is LeafUnderSize { m } else { m.remove(x) };
    node_there(im, lm, g, mm, cur);
    if cur is Inner {
        assert(inner_ok(im, lm, g, cur->Inner_0));
        kids(im, lm, g, cur->Inner_0);
        node_there(im, lm, g, mm, im[cur->Inner_0].cs()[0]);
    }
    if es.len() > 0 {
        let p = es.last().id;
        chain_top(im, g, es, cur);
        node_there(im, lm, g, mm, NodeId::Inner(p));
        assert(inner_ok(im, lm, g, p));
        kids(im, lm, g, p);
        can_fix(im, lm, g, mm, p, es.last().offset as int);
    } else {
        reveal(chain);
    }
}
/// the parent takes over the augmentation
proof fn done_step<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, x: real, cur: NodeId, r: DeleteDescendResult<K, V>, es: Seq<StackEntry>, n2: InnerNode<K, A>) -> (g2: G)
    requires removing(im, lm, g, m, x, cur, r), chain(im, g, es, cur), g.rg.contains_key(cur), es.len() > 0, r is Done,
        ({ let n = im[es.last().id]; let i = es.last().offset as int;
            n2.tail() //[C12]
            && n2.wf() && n2.size == n.size && n2.ks() == n.ks() && n2.cs() == n.cs() && n2.augs() == n.augs().update(i, aug_of(im, lm, cur)) }),
    ensures stepped(im, lm, g, m, x, es, r, im.insert(es.last().id, n2), lm, g2),
{
    let e = es.last();
    before_step(im, lm, g, m, x, cur, r, es);
    let g2 = G { dirty: Some(NodeId::Inner(e.id)), ..g };
    let im2 = im.insert(e.id, n2);
    step_refresh(im, lm, g, m.remove(x), e.id, e.offset as int, n2, g2);
    chain_pop(im, g, es, cur, im2, g2);
    g2
}
/// one step up is done
pub open spec fn stepped<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, x: real, es: Seq<StackEntry>, r: DeleteDescendResult<K, V>, im2: IM<K, A>, lm2: LM<K, V>, g2: G) -> bool {
    let p = NodeId::Inner(es.last().id);
    &&& removing(im2, lm2, g2, m, x, p, r)
    &&& chain(im2, g2, es.drop_last(), p)
    &&& g2.rg.contains_key(p)
    &&& g2.h == g.h && g2.root == g.root && g2.fresh == g.fresh && g2.strict == g.strict
}
/// a leaf with too few keys was rebalanced
proof fn leaf_step_at<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, x: real, cur: NodeId, r: DeleteDescendResult<K, V>, es: Seq<StackEntry>, p1: InnerNode<K, A>, lm1: LM<K, V>, r1: DeleteDescendResult<K, V>, slot: int, d: int) -> (g2: G)
    requires removing(im, lm, g, m, x, cur, r), chain(im, g, es, cur), g.rg.contains_key(cur), es.len() > 0, r is LeafUnderSize,
        ({ let p = im[es.last().id]; let i = es.last().offset as int; let kd = r->LeafUnderSize_0; let c = lm[cur->Leaf_0];
            &&& (slot == i && d == kd && i < p.size) || (slot == i - 1 && 0 < i && d == lm[p.cs()[i - 1]->Leaf_0].size + kd)
            &&& leaf_fixed(lm, p, lm1, p1, slot, d, r1, c.ks()[kd as int], c.vs()[kd as int]) }),
    ensures stepped(im, lm, g, m, x, es, r1, im.insert(es.last().id, p1), lm1, g2),
{
    let e = es.last();
    let pid = e.id;
    let p = im[pid];
    before_step(im, lm, g, m, x, cur, r, es);
    let im2 = im.insert(pid, p1);
    are_neighbours(im, lm, g, m, pid, slot);
    let lid = p.cs()[slot]->Leaf_0;
    let rid = p.cs()[slot + 1]->Leaf_0;
    node_there(im, lm, g, m, NodeId::Leaf(lid));
    node_there(im, lm, g, m, NodeId::Leaf(rid));
    assert(lm[lid].ks().len() == lm[lid].size);
    assert(lm[lid].vs().len() == lm[lid].size);
    assert((lm[lid].ks() + lm[rid].ks())[d].ord() == x);
    let x1 = lm1[rid].ks()[0].ord();
    let g2 = if leaf_redist(lm, p, lm1, p1, slot, d) && r1 is Done && r1->Done_0 == (lm[cur->Leaf_0].ks()[r->LeafUnderSize_0 as int], lm[cur->Leaf_0].vs()[r->LeafUnderSize_0 as int]) {
        let g2 = re_g(g, pid, NodeId::Leaf(lid), NodeId::Leaf(rid), x1);
        step_redist_leaf(im, lm, g, m, pid, p1, lm1, slot, d, lid, rid, g2);
        g2
    } else {
        let under = r1 is InnerUnderSize;
        let g2 = un_g(g, pid, NodeId::Leaf(lid), NodeId::Leaf(rid), under);
        step_merge_leaf(im, lm, g, m, pid, p1, lm1, slot, d, lid, rid, under, g2);
        g2
    };
    chain_pop(im, g, es, cur, im2, g2);
    g2
}
proof fn leaf_step<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, x: real, cur: NodeId, r: DeleteDescendResult<K, V>, es: Seq<StackEntry>, p1: InnerNode<K, A>, lm1: LM<K, V>, r1: DeleteDescendResult<K, V>) -> (g2: G)
    requires removing(im, lm, g, m, x, cur, r), chain(im, g, es, cur), g.rg.contains_key(cur), es.len() > 0, r is LeafUnderSize,
        ({ let p = im[es.last().id]; let i = es.last().offset as int; let kd = r->LeafUnderSize_0; let c = lm[cur->Leaf_0];
            ||| i > 0 && leaf_fixed(lm, p, lm1, p1, i - 1, lm[p.cs()[i - 1]->Leaf_0].size + kd, r1, c.ks()[kd as int], c.vs()[kd as int])
            ||| i < p.size && leaf_fixed(lm, p, lm1, p1, i, kd as int, r1, c.ks()[kd as int], c.vs()[kd as int]) }),
    ensures stepped(im, lm, g, m, x, es, r1, im.insert(es.last().id, p1), lm1, g2),
{
    let p = im[es.last().id]; let i = es.last().offset as int; let kd = r->LeafUnderSize_0; let c = lm[cur->Leaf_0];
    if i > 0 && leaf_fixed(lm, p, lm1, p1, i - 1, lm[p.cs()[i - 1]->Leaf_0].size + kd, r1, c.ks()[kd as int], c.vs()[kd as int]) {
        leaf_step_at(im, lm, g, m, x, cur, r, es, p1, lm1, r1, i - 1, lm[p.cs()[i - 1]->Leaf_0].size + kd)
    } else {
        leaf_step_at(im, lm, g, m, x, cur, r, es, p1, lm1, r1, i, kd as int)
    }
}
/// an inner node with too few keys was rebalanced (while its parent was out of the store)
proof fn inner_step_at<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, x: real, cur: NodeId, r: DeleteDescendResult<K, V>, es: Seq<StackEntry>, p1: InnerNode<K, A>, im1: IM<K, A>, r1: DeleteDescendResult<K, V>, slot: int) -> (g2: G)
    requires removing(im, lm, g, m, x, cur, r), chain(im, g, es, cur), g.rg.contains_key(cur), es.len() > 0, r is InnerUnderSize,
        ({ let pid = es.last().id; let i = es.last().offset as int;
            &&& (slot == i && i < im[pid].size) || (slot == i - 1 && 0 < i)
            &&& inner_fixed::<K, V, A>(im.remove(pid), im[pid], im1, p1, slot, r1, r->InnerUnderSize_0) }),
    ensures stepped(im, lm, g, m, x, es, r1, im1.insert(es.last().id, p1), lm, g2),
{
    let e = es.last();
    let pid = e.id;
    let p = im[pid];
    let m2 = m.remove(x);
    before_step(im, lm, g, m, x, cur, r, es);
    are_neighbours(im, lm, g, m2, pid, slot);
    assert(inner_ok(im, lm, g, pid));
    let lid = p.cs()[slot]->Inner_0;
    let rid = p.cs()[slot + 1]->Inner_0;
    let im1p = im1.insert(pid, p);
    let im2 = im1.insert(pid, p1);
    assert(im2 =~= im1p.insert(pid, p1));
    let g2 = if inner_redist::<K, V, A>(im.remove(pid), p, im1, p1, slot) && r1 is Done && r1->Done_0 == r->InnerUnderSize_0 {
        assert(inner_redist::<K, V, A>(im, p, im1p, p1, slot));
        let g2 = re_g(g, pid, NodeId::Inner(lid), NodeId::Inner(rid), p1.ks()[slot].ord());
        step_redist_inner(im, lm, g, m2, pid, p1, im1p, slot, lid, rid, im2, g2);
        g2
    } else {
        let under = r1 is InnerUnderSize;
        assert(inner_merge::<K, V, A>(im, p, im1p, p1, slot));
        let g2 = un_g(g, pid, NodeId::Inner(lid), NodeId::Inner(rid), under);
        step_merge_inner(im, lm, g, m2, pid, p1, im1p, slot, lid, rid, under, im2, g2);
        g2
    };
    chain_pop(im, g, es, cur, im2, g2);
    g2
}
proof fn inner_step<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, x: real, cur: NodeId, r: DeleteDescendResult<K, V>, es: Seq<StackEntry>, p1: InnerNode<K, A>, im1: IM<K, A>, r1: DeleteDescendResult<K, V>) -> (g2: G)
    requires removing(im, lm, g, m, x, cur, r), chain(im, g, es, cur), g.rg.contains_key(cur), es.len() > 0, r is InnerUnderSize,
        ({ let pid = es.last().id; let i = es.last().offset as int; let kv = r->InnerUnderSize_0;
            ||| i > 0 && inner_fixed::<K, V, A>(im.remove(pid), im[pid], im1, p1, i - 1, r1, kv)
            ||| i < im[pid].size && inner_fixed::<K, V, A>(im.remove(pid), im[pid], im1, p1, i, r1, kv) }),
    ensures stepped(im, lm, g, m, x, es, r1, im1.insert(es.last().id, p1), lm, g2),
{
    let pid = es.last().id; let i = es.last().offset as int; let kv = r->InnerUnderSize_0;
    if i > 0 && inner_fixed::<K, V, A>(im.remove(pid), im[pid], im1, p1, i - 1, r1, kv) {
        inner_step_at(im, lm, g, m, x, cur, r, es, p1, im1, r1, i - 1)
    } else {
        inner_step_at(im, lm, g, m, x, cur, r, es, p1, im1, r1, i)
    }
}
/// at the root
proof fn root_step<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, x: real, r: DeleteDescendResult<K, V>, lm2: LM<K, V>, root2: NodeId, l2: LeafNode<K, V>) -> (g2: G)
    requires removing(im, lm, g, m, x, g.root, r),
        match r {
            DeleteDescendResult::Done(_) => lm2 == lm && root2 == g.root,
            DeleteDescendResult::InnerUnderSize(_) => lm2 == lm && root2 == (if im[g.root->Inner_0].size == 0 { im[g.root->Inner_0].cs()[0] } else { g.root }),
            DeleteDescendResult::LeafUnderSize(i) => root2 == g.root && lm2 == lm.insert(g.root->Leaf_0, l2) && l2.wf() && l2.tail() && l2.same_links(&lm[g.root->Leaf_0])
                && l2.ks() == lm[g.root->Leaf_0].ks().remove(i as int) && l2.vs() == lm[g.root->Leaf_0].vs().remove(i as int),
        },
    ensures tree(im, lm2, g2, m.remove(x)), settled(g2), g2.root == root2, g2.h <= g.h, g2.fresh == g.fresh, g2.strict == g.strict,
        m.contains_key(x),
        r is LeafUnderSize ==> m[x] == (lm[g.root->Leaf_0].ks()[r->LeafUnderSize_0 as int], lm[g.root->Leaf_0].vs()[r->LeafUnderSize_0 as int]),
{
    let m2 = m.remove(x);
    match r {
        DeleteDescendResult::Done(_) => {
            let g2 = G { dirty: None, under: None, ..g };
            step_root_settle(im, lm, g, m2, g2);
            g2
        }
        DeleteDescendResult::InnerUnderSize(_) => {
            if im[g.root->Inner_0].size == 0 {
                let g2 = G { h: g.h - 1, root: im[g.root->Inner_0].cs()[0], rg: g.rg.remove(g.root), dirty: None, under: None, ..g };
                step_root_collapse(im, lm, g, m2, g.root->Inner_0, g2);
                g2
            } else {
                let g2 = G { dirty: None, under: None, ..g };
                step_root_settle(im, lm, g, m2, g2);
                g2
            }
        }
        DeleteDescendResult::LeafUnderSize(i) => {
            let id = g.root->Leaf_0;
            let l = lm[id];
            assert(leaf_ok(lm, g, m, id));
            lc_remove(m, l.ks(), l.vs(), g.rg[g.root].lo, g.rg[g.root].hi, i as int);
            let gd = G { dirty: Some(g.root), ..g };
            assert(m.contains_key(x));
            step_leaf(im, lm, g, m, id, l2, gd, m2, x);
            let g2 = G { dirty: None, under: None, ..g };
            step_root_settle(im, lm2, gd, m2, g2);
            g2
        }
    }
}
/// at the leaf
proof fn start_step<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, i: int, lm2: LM<K, V>, l2: LeafNode<K, V>, r: DeleteDescendResult<K, V>) -> (g2: G)
    requires tree(im, lm, g, m), settled(g), g.rg.contains_key(NodeId::Leaf(id)), 0 <= i < lm[id].size,
        lm2 == lm.insert(id, l2) && l2.tail() //[C12]
        && l2.wf() && l2.same_links(&lm[id]),
        match r {
            DeleteDescendResult::Done(kv) => lm[id].size > LEAF_N / 4 && kv == (lm[id].ks()[i], lm[id].vs()[i]) && l2.ks() == lm[id].ks().remove(i) && l2.vs() == lm[id].vs().remove(i),
            DeleteDescendResult::LeafUnderSize(d) => d == i && l2 == lm[id] && lm[id].size <= LEAF_N / 4,
            _ => false,
        },
    ensures removing(im, lm2, g2, m, lm[id].ks()[i].ord(), NodeId::Leaf(id), r),
        g2.h == g.h, g2.root == g.root, g2.fresh == g.fresh, g2.strict == g.strict, g2.rg == g.rg,
{
    let l = lm[id];
    let x = l.ks()[i].ord();
    assert(leaf_ok(lm, g, m, id));
    lc_remove(m, l.ks(), l.vs(), g.rg[NodeId::Leaf(id)].lo, g.rg[NodeId::Leaf(id)].hi, i);
    assert(l2.ks().len() == l2.size);
    assert(l.ks().len() == l.size);
    match r {
        DeleteDescendResult::Done(_) => {
            let g2 = G { dirty: Some(NodeId::Leaf(id)), ..g };
            assert(m.contains_key(x));
            step_leaf(im, lm, g, m, id, l2, g2, m.remove(x), x);
            g2
        }
        _ => { assert(lm2 =~= lm); g }
    }
}
impl<K: Key, V, A: Augmentation<K, V>> BPlusTree<K, V, A> {
//@ fn tree/tree_remove.rs BPlusTree::handle_inner_under_size
//@ props C03 C07 C11
//@ params self node child_idx deleted_item
//@ ret r
//@ spec
    requires fixable_inner(old(self).im(), *old(node), child_idx as int),
    ensures
        (child_idx > 0 && inner_fixed(old(self).im(), *old(node), final(self).im(), *final(node), child_idx - 1, r, deleted_item))
        || (child_idx < old(node).size && inner_fixed(old(self).im(), *old(node), final(self).im(), *final(node), child_idx as int, r, deleted_item)),
        final(self).lm() == old(self).lm(), final(self).node_store.inext() == old(self).node_store.inext(),
        final(self).root == old(self).root, final(self).len == old(self).len, final(self).gg() == old(self).gg(),
//@ fn tree/tree_remove.rs BPlusTree::handle_leaf_under_size
//@ props C03 C07 C11
//@ params self node child_idx key_idx_in_child
//@ ret r
//@ spec
    requires fixable_leaf(old(self).lm(), *old(node), child_idx as int),
        key_idx_in_child < old(self).lm()[old(node).cs()[child_idx as int]->Leaf_0].size,
    ensures
        ({ let c = old(self).lm()[old(node).cs()[child_idx as int]->Leaf_0]; let k = c.ks()[key_idx_in_child as int]; let v = c.vs()[key_idx_in_child as int];
        ||| child_idx > 0 && leaf_fixed(old(self).lm(), *old(node), final(self).lm(), *final(node), child_idx - 1, old(self).lm()[old(node).cs()[child_idx - 1]->Leaf_0].size + key_idx_in_child, r, k, v)
        ||| child_idx < old(node).size && leaf_fixed(old(self).lm(), *old(node), final(self).lm(), *final(node), child_idx as int, key_idx_in_child as int, r, k, v) }),
        final(self).im() == old(self).im(), final(self).node_store.inext() == old(self).node_store.inext(),
        final(self).root == old(self).root, final(self).len == old(self).len, final(self).gg() == old(self).gg(),
//@ fn tree/mod.rs BPlusTree::key_to_ref
//@ props C03
//@ params self k
//@ ret r
//@ spec
    requires self.rest(), self.gg().h <= MAX_DEPTH,
    ensures
        (r is Some) == self.m().contains_key(k.ord()),
        r is Some ==> ref_ok(self.im(), self.lm(), self.gg(), r->0.inner_stack, r->0.leaf_id, r->0.offset as int) && r->0.tree == self
            && self.lm()[r->0.leaf_id].ks()[r->0.offset as int].ord() == k.ord(),
//@ at start
    let ghost m = self.m();
    let ghost g = self.gg();
    let ghost im = self.im();
    let ghost lm = self.lm();
    proof { chain_empty(im, g); k.ord_bounds(); }
//@ loop 0
    invariant
        inner_stack.wf(), self.holds(m), settled(g), g.h <= MAX_DEPTH, m == self.m(), g == self.gg(), im == self.im(), lm == self.lm(),
        chain(im, g, inner_stack.es(), node_id), self.covers(node_id, k.ord()), inner_stack.es().len() == g.h - g.rg[node_id].h,
    decreases g.rg[node_id].h,
//@ at loopstart 0
    let ghost __es = inner_stack.es();
    proof {
        node_there(im, lm, g, m, node_id);
        match node_id {
            NodeId::Inner(id) => { child_covers(im, lm, g, m, id, k.ord()); }
            NodeId::Leaf(id) => { assert(leaf_ok(lm, g, m, id)); leaf_has(lm, g, m, id, k.ord()); }
        }
    }
//@ at loopend 0
    proof {
        let id = node_id;
        assert(inner_stack.es().len() == __es.len() + 1);
        let e = inner_stack.es().last();
        assert(inner_stack.es() == __es.push(e));
        chain_push(im, lm, g, m, __es, e.id, e);
    }
//@ fn tree/tree_remove.rs BPlusTree::remove_by_ref
//@ props C03 C07 C11
//@ params entry_ref
//@ ret r
//@ spec
    requires
        entry_ref.tree.wf(), ref_ok(entry_ref.tree.im(), entry_ref.tree.lm(), entry_ref.tree.gg(), entry_ref.inner_stack, entry_ref.leaf_id, entry_ref.offset as int),
    ensures
        final(entry_ref.tree).wf(),
        ref_removed(*old(entry_ref.tree), *final(entry_ref.tree), entry_ref.leaf_id, entry_ref.offset as int, r), //[C03]
        final(entry_ref.tree).gg().fresh == old(entry_ref.tree).gg().fresh, //[C07 C08 C09]
        final(entry_ref.tree).gg().strict == old(entry_ref.tree).gg().strict, //[C11]
        final(entry_ref.tree).gg().h <= old(entry_ref.tree).gg().h,
//@ at start
    let ghost t0 = *entry_ref.tree;
    let ghost m = t0.m();
    let ghost x = t0.lm()[entry_ref.leaf_id].ks()[entry_ref.offset as int].ord();
    let ghost mut cur = NodeId::Leaf(entry_ref.leaf_id);
    proof {
        node_there(t0.im(), t0.lm(), t0.gg(), m, cur);
        leaf_entry(t0.lm(), t0.gg(), m, entry_ref.leaf_id, entry_ref.offset as int)
    }
//@ at before loop 0
    proof {
        let g2 = start_step(t0.im(), t0.lm(), t0.gg(), m, leaf_id, offset as int, tree.lm(), tree.lm()[leaf_id], r);
        assert(tree.im() =~= t0.im());
        chain_frame(t0.im(), t0.gg(), stack.es(), cur, tree.im(), g2);
        tree.g@ = g2;
    }
//@ loop 0
    invariant
        *final(tree) == *final(entry_ref.tree), t0 == *old(entry_ref.tree),
        stack.wf(), removing(tree.im(), tree.lm(), tree.gg(), m, x, cur, r), chain(tree.im(), tree.gg(), stack.es(), cur), tree.gg().rg.contains_key(cur),
        tree.gg().root == tree.root, tree.len == t0.len, tree.gg().h <= t0.gg().h, tree.gg().fresh == t0.gg().fresh, tree.gg().strict == t0.gg().strict,
        m == t0.m(), t0.wf(), x == t0.lm()[entry_ref.leaf_id].ks()[entry_ref.offset as int].ord(),
    decreases stack.es().len(),
//@ at loopstart 0
    let ghost __es = stack.es();
    let ghost ima = tree.im();
    let ghost lma = tree.lm();
    let ghost ga = tree.gg();
    let ghost r0 = r;
    proof { before_step(ima, lma, ga, m, x, cur, r, __es); }
//@ at loopend 0
    proof {
        let pid = __es.last().id;
        let p1 = tree.im()[pid];
        let im2 = tree.im();
        let lm2 = tree.lm();
        let g2 = match r0 {
            DeleteDescendResult::Done(_) => { assert(im2 =~= ima.insert(pid, p1)); assert(lm2 =~= lma); done_step(ima, lma, ga, m, x, cur, r0, __es, p1) }
            DeleteDescendResult::InnerUnderSize(_) => { let im1 = im2.remove(pid); assert(lm2 =~= lma); assert(im1.insert(pid, p1) =~= im2); inner_step(ima, lma, ga, m, x, cur, r0, __es, p1, im1, r) }
            DeleteDescendResult::LeafUnderSize(_) => { assert(im2 =~= ima.insert(pid, p1)); leaf_step(ima, lma, ga, m, x, cur, r0, __es, p1, lm2, r) }
        };
        assert(stepped(ima, lma, ga, m, x, __es, r, im2, lm2, g2));
        tree.g@ = g2;
        assert(tree.im() =~= im2 && tree.lm() =~= lm2);
        cur = NodeId::Inner(pid);
        assert(stack.es() =~= __es.drop_last());
    }
//@ at return 0
    proof {
        let l2 = tree.lm()[ga.root->Leaf_0];
        assert(tree.im() =~= ima);
        assert(r0 is LeafUnderSize || tree.lm() =~= lma);
        assert(r0 is LeafUnderSize ==> tree.lm() =~= lma.insert(ga.root->Leaf_0, l2));
        let g2 = root_step(ima, lma, ga, m, x, r0, tree.lm(), tree.root, l2);
        tree.g@ = g2;
        assert(m.remove(x).len() == m.len() - 1);
        assert(tree.holds(m.remove(x)));
        assert(tree.len == m.remove(x).len());
        assert(aug_ok(tree.im(), tree.lm(), tree.gg(), m.remove(x), tree.root_augmentation));
        assert(tree.ok(m.remove(x)));
        tree.wf_m(m.remove(x));
        assert(tree.wf());
        assert(tree.gg().h <= t0.gg().h);
        assert(ref_removed(t0, *tree, entry_ref.leaf_id, entry_ref.offset as int, __ret));
    }
//@ fn tree/tree_remove.rs BPlusTree::remove_impl
//@ props C03 C07 C11
//@ params self k
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).m() == old(self).m().remove(k.ord()), //[C03]
        r == (if old(self).m().contains_key(k.ord()) { Some(old(self).m()[k.ord()]) } else { None }), //[C03]
        final(self).gg().fresh == old(self).gg().fresh, //[C07 C08 C09]
        final(self).gg().strict == old(self).gg().strict, //[C11]
        final(self).gg().h <= old(self).gg().h,
//@ at start
    proof { if !self.m().contains_key(k.ord()) { assert(self.m().remove(k.ord()) =~= self.m()); } }
//@ fn tree/mod.rs BPlusTree::remove
//@ props C03 C07 C11
//@ params self k
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).m() == old(self).m().remove(k.ord()), //[C03]
        r == (if old(self).m().contains_key(k.ord()) { Some(old(self).m()[k.ord()].1) } else { None }), //[C03]
        final(self).gg().fresh == old(self).gg().fresh, //[C07 C08 C09]
        final(self).gg().strict == old(self).gg().strict, //[C11]
        final(self).gg().h <= old(self).gg().h,
//@ raw
}
