//@ raw
// ======================= the tree after a rebalancing step ===========================================

/// two neighbouring children of p
pub open spec fn neighbours(g: G, l: NodeId, r: NodeId, h: int) -> bool {
    &&& g.rg.contains_key(l) && g.rg.contains_key(r) && l != r
    &&& g.rg[l].h == h && g.rg[r].h == h && g.rg[l].hi == g.rg[r].lo
}
pub proof fn are_neighbours<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, slot: int)
    requires tree(im, lm, g, m), g.pend is None, g.rg.contains_key(NodeId::Inner(p)), 0 <= slot < im[p].size,
    ensures ({ let l = im[p].cs()[slot]; let r = im[p].cs()[slot + 1]; let rp = g.rg[NodeId::Inner(p)];
        &&& neighbours(g, l, r, rp.h - 1)
        &&& (l is Leaf) == (r is Leaf)
        &&& l != NodeId::Inner(p) && r != NodeId::Inner(p) && l != g.root && r != g.root
        &&& g.rg[l].lo < im[p].ks()[slot].ord() < g.rg[r].hi && g.rg[l].hi == im[p].ks()[slot].ord()
        &&& rp.lo <= g.rg[l].lo && g.rg[r].hi <= rp.hi
    }),
{
    node_there(im, lm, g, m, NodeId::Inner(p));
    child_range(im, lm, g, m, p, slot, 0real);
    child_range(im, lm, g, m, p, slot + 1, 0real);
    only_parent(im, lm, g, m, p, slot);
    only_parent(im, lm, g, m, p, slot + 1);
    assert(inner_ok(im, lm, g, p));
    reveal(ic);
    assert(im[p].ks()[slot].ord() == im[p].ks()[slot].ord());
}
/// the separator between children `slot` and `slot + 1` moves to x
pub proof fn ic_reslot<K: Key>(g: G, g2: G, ks: Seq<K>, cs: Seq<NodeId>, h: int, lo: real, hi: real, slot: int, k: K)
    requires ic(g, ks, cs, h, lo, hi), g.pend is None, g2.pend is None, 0 <= slot < ks.len(),
        g.rg[cs[slot]].lo < k.ord() < g.rg[cs[slot + 1]].hi,
        cs[slot] != cs[slot + 1],
        g2.rg == g.rg.insert(cs[slot], R { h: h - 1, lo: g.rg[cs[slot]].lo, hi: k.ord() }).insert(cs[slot + 1], R { h: h - 1, lo: k.ord(), hi: g.rg[cs[slot + 1]].hi }),
        forall|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs.len() && i != j ==> #[trigger] cs[i] != #[trigger] cs[j],
    ensures ic(g2, ks.update(slot, k), cs, h, lo, hi),
{
    reveal(ic);
    let k2 = ks.update(slot, k);
    assert(crange(g, cs[slot]) == (R { h: h - 1, lo: bnd(ks, lo, hi, slot), hi: bnd(ks, lo, hi, slot + 1) }));
    assert(crange(g, cs[slot + 1]) == (R { h: h - 1, lo: bnd(ks, lo, hi, slot + 1), hi: bnd(ks, lo, hi, slot + 2) }));
    if slot > 0 { assert(ks[slot - 1].ord() < k.ord()); }
    if slot + 1 < ks.len() { assert(k.ord() < ks[slot + 1].ord()); }
    assert forall|a: int, b: int| 0 <= a < b < k2.len() implies (#[trigger] k2[a]).ord() < (#[trigger] k2[b]).ord() by {
        if a == slot { if b > slot + 1 { assert(ks[slot + 1].ord() < ks[b].ord()); } }
        else if b == slot { if a < slot - 1 { assert(ks[a].ord() < ks[slot - 1].ord()); } }
        else { assert(ks[a].ord() < ks[b].ord()); }
    }
    assert forall|i: int| 0 <= i < cs.len() implies g2.rg.contains_key(#[trigger] cs[i]) && crange(g2, cs[i]) == (R { h: h - 1, lo: bnd(k2, lo, hi, i), hi: bnd(k2, lo, hi, i + 1) }) by {
        assert(crange(g, cs[i]) == (R { h: h - 1, lo: bnd(ks, lo, hi, i), hi: bnd(ks, lo, hi, i + 1) }));
        if i != slot && i != slot + 1 { assert(cs[i] != cs[slot]); assert(cs[i] != cs[slot + 1]); }
    }
}
/// children `slot` and `slot + 1` become one
pub proof fn ic_unslot<K: Key>(g: G, g2: G, ks: Seq<K>, cs: Seq<NodeId>, h: int, lo: real, hi: real, slot: int)
    requires ic(g, ks, cs, h, lo, hi), g.pend is None, g2.pend is None, 0 <= slot < ks.len(),
        cs[slot] != cs[slot + 1],
        g2.rg == g.rg.insert(cs[slot], R { h: h - 1, lo: g.rg[cs[slot]].lo, hi: g.rg[cs[slot + 1]].hi }).remove(cs[slot + 1]),
        forall|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs.len() && i != j ==> #[trigger] cs[i] != #[trigger] cs[j],
    ensures ic(g2, ks.remove(slot), cs.remove(slot + 1), h, lo, hi),
{
    reveal(ic);
    let k2 = ks.remove(slot);
    let c2 = cs.remove(slot + 1);
    assert(crange(g, cs[slot]) == (R { h: h - 1, lo: bnd(ks, lo, hi, slot), hi: bnd(ks, lo, hi, slot + 1) }));
    assert(crange(g, cs[slot + 1]) == (R { h: h - 1, lo: bnd(ks, lo, hi, slot + 1), hi: bnd(ks, lo, hi, slot + 2) }));
    assert forall|j: int| 0 <= j < k2.len() implies lo < (#[trigger] k2[j]).ord() && k2[j].ord() < hi by {
        if j < slot { assert(k2[j] == ks[j]); } else { assert(k2[j] == ks[j + 1]); }
    }
    assert forall|a: int, b: int| 0 <= a < b < k2.len() implies (#[trigger] k2[a]).ord() < (#[trigger] k2[b]).ord() by {
        let a1 = if a < slot { a } else { a + 1 };
        let b1 = if b < slot { b } else { b + 1 };
        assert(ks[a1].ord() < ks[b1].ord());
    }
    assert forall|i: int| 0 <= i < c2.len() implies g2.rg.contains_key(#[trigger] c2[i]) && crange(g2, c2[i]) == (R { h: h - 1, lo: bnd(k2, lo, hi, i), hi: bnd(k2, lo, hi, i + 1) }) by {
        let i1 = if i <= slot { i } else { i + 1 };
        assert(c2[i] == cs[i1]);
        assert(crange(g, cs[i1]) == (R { h: h - 1, lo: bnd(ks, lo, hi, i1), hi: bnd(ks, lo, hi, i1 + 1) }));
        assert(cs[i1] != cs[slot + 1]);
        if i1 != slot { assert(cs[i1] != cs[slot]); }
    }
}
/// no two children of a node are the same
pub proof fn all_distinct<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId)
    requires tree(im, lm, g, m), g.rg.contains_key(NodeId::Inner(p)),
    ensures forall|i: int, j: int| 0 <= i < im[p].cs().len() && 0 <= j < im[p].cs().len() && i != j ==> #[trigger] im[p].cs()[i] != #[trigger] im[p].cs()[j],
{
    assert(inner_ok(im, lm, g, p));
    kids(im, lm, g, p);
    assert forall|i: int, j: int| 0 <= i < im[p].cs().len() && 0 <= j < im[p].cs().len() && i != j implies #[trigger] im[p].cs()[i] != #[trigger] im[p].cs()[j] by {
        only_parent(im, lm, g, m, p, i);
    }
}
pub open spec fn re_g(g: G, p: InnerNodeId, l: NodeId, r: NodeId, x: real) -> G {
    G { rg: g.rg.insert(l, R { h: g.rg[l].h, lo: g.rg[l].lo, hi: x }).insert(r, R { h: g.rg[r].h, lo: x, hi: g.rg[r].hi }), dirty: Some(NodeId::Inner(p)), under: None, ..g }
}
pub open spec fn un_g(g: G, p: InnerNodeId, l: NodeId, r: NodeId, under: bool) -> G {
    G { rg: g.rg.insert(l, R { h: g.rg[l].h, lo: g.rg[l].lo, hi: g.rg[r].hi }).remove(r), dirty: Some(NodeId::Inner(p)), under: if under { Some(NodeId::Inner(p)) } else { None }, ..g }
}
pub proof fn ranges_re(g: G, p: InnerNodeId, l: NodeId, r: NodeId, x: real, h: int)
    requires ranges_ok(g), g.pend is None, neighbours(g, l, r, h), l != g.root, r != g.root, g.rg[l].lo < x < g.rg[r].hi,
    ensures ranges_ok(re_g(g, p, l, r, x)),
{}
pub proof fn ranges_un(g: G, p: InnerNodeId, l: NodeId, r: NodeId, under: bool, h: int)
    requires ranges_ok(g), g.pend is None, neighbours(g, l, r, h), l != g.root, r != g.root,
    ensures ranges_ok(un_g(g, p, l, r, under)),
{}

// ---- leaves ------------------------------------------------------------------------------------------

pub open spec fn redist_leaf_pre<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, lm1: LM<K, V>, slot: int, d: int, lid: LeafNodeId, rid: LeafNodeId) -> bool {
    &&& tree(im, lm, g, m) && settled(g) && g.rg.contains_key(NodeId::Inner(p))
    &&& 0 <= slot < im[p].size && im[p].cs()[slot] == NodeId::Leaf(lid) && im[p].cs()[slot + 1] == NodeId::Leaf(rid)
    &&& leaf_redist(lm, im[p], lm1, p1, slot, d)
}
pub open spec fn cut<K: Key, V>(m: Map<real, (K, V)>, lm: LM<K, V>, lid: LeafNodeId, rid: LeafNodeId, d: int) -> Map<real, (K, V)> {
    m.remove((lm[lid].ks() + lm[rid].ks())[d].ord())
}
proof fn redist_leaf_facts<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, lm1: LM<K, V>, slot: int, d: int, lid: LeafNodeId, rid: LeafNodeId)
    requires redist_leaf_pre(im, lm, g, m, p, p1, lm1, slot, d, lid, rid),
    ensures ({ let l = lm[lid]; let r = lm[rid]; let l2 = lm1[lid]; let r2 = lm1[rid]; let lo = g.rg[NodeId::Leaf(lid)].lo; let hi = g.rg[NodeId::Leaf(rid)].hi; let x = r2.ks()[0].ord();
        let m2 = cut(m, lm, lid, rid, d); let y = (l.ks() + r.ks())[d].ord();
        &&& lo < x < hi && lo <= y < hi && m.contains_key(y) && m[y] == ((l.ks() + r.ks())[d], (l.vs() + r.vs())[d])
        &&& lc(m2, l2.ks(), l2.vs(), lo, x) && lc(m2, r2.ks(), r2.vs(), x, hi)
        &&& lid != rid
    }),
{
    let l = lm[lid]; let r = lm[rid]; let l2 = lm1[lid]; let r2 = lm1[rid];
    let gl = g.rg[NodeId::Leaf(lid)]; let gr = g.rg[NodeId::Leaf(rid)];
    let m2 = cut(m, lm, lid, rid, d);
    are_neighbours(im, lm, g, m, p, slot);
    assert(leaf_ok(lm, g, m, lid));
    assert(leaf_ok(lm, g, m, rid));
    let ks = l.ks() + r.ks();
    let vs = l.vs() + r.vs();
    lc_join(m, l.ks(), l.vs(), r.ks(), r.vs(), gl.lo, gl.hi, gr.hi);
    lc_remove(m, ks, vs, gl.lo, gr.hi, d);
    let k2 = ks.remove(d);
    let n = l2.ks().len() as int;
    lc_split(m2, k2, vs.remove(d), gl.lo, gr.hi, n);
    assert(k2.take(n) =~= l2.ks());
    assert(k2.skip(n) =~= r2.ks());
    assert(vs.remove(d).take(n) =~= l2.vs());
    assert(vs.remove(d).skip(n) =~= r2.vs());
    assert(k2[n] == r2.ks()[0]);
}
proof fn redist_leaf_leaf<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, lm1: LM<K, V>, slot: int, d: int, lid: LeafNodeId, rid: LeafNodeId, g2: G, q: LeafNodeId)
    requires redist_leaf_pre(im, lm, g, m, p, p1, lm1, slot, d, lid, rid), g.rg.contains_key(NodeId::Leaf(q)),
        g2 == re_g(g, p, NodeId::Leaf(lid), NodeId::Leaf(rid), lm1[rid].ks()[0].ord()),
    ensures leaf_ok(lm1, g2, cut(m, lm, lid, rid, d), q),
{
    redist_leaf_facts(im, lm, g, m, p, p1, lm1, slot, d, lid, rid);
    are_neighbours(im, lm, g, m, p, slot);
    assert(leaf_ok(lm, g, m, q));
    assert(leaf_ok(lm, g, m, lid));
    assert(leaf_ok(lm, g, m, rid));
    get_links(g, q, lm[q].prev, lm[q].next);
    assert(disjoint(g.rg[NodeId::Leaf(q)], g.rg[NodeId::Leaf(lid)]) || q == lid);
    assert(disjoint(g.rg[NodeId::Leaf(q)], g.rg[NodeId::Leaf(rid)]) || q == rid);
    if lm[q].prev is Some {
        let o = lm[q].prev->0;
        assert(g.rg[NodeId::Leaf(o)].h == 0);
        assert(disjoint(g.rg[NodeId::Leaf(o)], g.rg[NodeId::Leaf(lid)]) || o == lid);
        assert(disjoint(g.rg[NodeId::Leaf(o)], g.rg[NodeId::Leaf(rid)]) || o == rid);
    }
    if lm[q].next is Some {
        let o = lm[q].next->0;
        assert(g.rg[NodeId::Leaf(o)].h == 0);
        assert(disjoint(g.rg[NodeId::Leaf(o)], g.rg[NodeId::Leaf(lid)]) || o == lid);
        assert(disjoint(g.rg[NodeId::Leaf(o)], g.rg[NodeId::Leaf(rid)]) || o == rid);
    }
    mk_links(g2, q, lm1[q].prev, lm1[q].next);
    if q != lid && q != rid {
        other_leaf(lm, g, m, q, lm1, g2, cut(m, lm, lid, rid, d));
    } else {
        assert(lm1[lid].ks().len() == lm1[lid].size);
        assert(lm1[rid].ks().len() == lm1[rid].size);
    }
}
/// the parent, when its children at slot and slot + 1 have changed
proof fn parent_re<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, im2: IM<K, A>, lm2: LM<K, V>, slot: int, x: real)
    requires tree(im, lm, g, m), g.pend is None, g.rg.contains_key(NodeId::Inner(p)), 0 <= slot < im[p].size, im2.contains_key(p), im2[p] == p1,
        ({ let l = im[p].cs()[slot]; let r = im[p].cs()[slot + 1];
            &&& g.rg[l].lo < x < g.rg[r].hi
            &&& g.dirty is None || g.dirty == Some(l) || g.dirty == Some(r)
            &&& g.under is None || g.under == Some(l) || g.under == Some(r)
            &&& reslot(im[p], p1, slot, x, aug_of(im2, lm2, l), aug_of(im2, lm2, r)) }),
        forall|j: int| 0 <= j <= im[p].size && j != slot && j != slot + 1 ==> aug_of(im2, lm2, #[trigger] im[p].cs()[j]) == aug_of(im, lm, im[p].cs()[j]),
    ensures inner_ok(im2, lm2, re_g(g, p, im[p].cs()[slot], im[p].cs()[slot + 1], x), p),
{
    let n = im[p];
    let g2 = re_g(g, p, n.cs()[slot], n.cs()[slot + 1], x);
    let rp = g.rg[NodeId::Inner(p)];
    assert(inner_ok(im, lm, g, p));
    are_neighbours(im, lm, g, m, p, slot);
    all_distinct(im, lm, g, m, p);
    kids(im, lm, g, p);
    ic_reslot(g, g2, n.ks(), n.cs(), rp.h, rp.lo, rp.hi, slot, p1.ks()[slot]);
    assert(af(im2, lm2, g2, p1)) by {
        reveal(af);
        assert forall|j: int| 0 <= j <= p1.size && g2.fresh implies #[trigger] p1.augs()[j] == aug_of(im2, lm2, p1.cs()[j]) by {
            if j != slot && j != slot + 1 {
                assert(n.augs()[j] == p1.augs()[j]);
                assert(n.cs()[j] != n.cs()[slot]);
                assert(n.cs()[j] != n.cs()[slot + 1]);
            }
        }
    }
}
proof fn parent_un<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, im2: IM<K, A>, lm2: LM<K, V>, slot: int, under: bool)
    requires tree(im, lm, g, m), g.pend is None, g.rg.contains_key(NodeId::Inner(p)), 0 <= slot < im[p].size, im2.contains_key(p), im2[p] == p1,
        under_flag(p1.size, under),
        ({ let l = im[p].cs()[slot]; let r = im[p].cs()[slot + 1];
            &&& g.dirty is None || g.dirty == Some(l) || g.dirty == Some(r)
            &&& g.under is None || g.under == Some(l) || g.under == Some(r)
            &&& unslot(im[p], p1, slot, aug_of(im2, lm2, l)) }),
        forall|j: int| 0 <= j <= im[p].size && j != slot && j != slot + 1 ==> aug_of(im2, lm2, #[trigger] im[p].cs()[j]) == aug_of(im, lm, im[p].cs()[j]),
    ensures inner_ok(im2, lm2, un_g(g, p, im[p].cs()[slot], im[p].cs()[slot + 1], under), p),
{
    let n = im[p];
    let g2 = un_g(g, p, n.cs()[slot], n.cs()[slot + 1], under);
    let rp = g.rg[NodeId::Inner(p)];
    assert(inner_ok(im, lm, g, p));
    are_neighbours(im, lm, g, m, p, slot);
    all_distinct(im, lm, g, m, p);
    kids(im, lm, g, p);
    ic_unslot(g, g2, n.ks(), n.cs(), rp.h, rp.lo, rp.hi, slot);
    assert(af(im2, lm2, g2, p1)) by {
        reveal(af);
        assert forall|j: int| 0 <= j <= p1.size && g2.fresh implies #[trigger] p1.augs()[j] == aug_of(im2, lm2, p1.cs()[j]) by {
            let j1 = if j <= slot { j } else { j + 1 };
            assert(p1.cs()[j] == n.cs()[j1]);
            if j != slot {
                assert(n.augs()[j1] == p1.augs()[j]);
                assert(n.cs()[j1] != n.cs()[slot]);
                assert(n.cs()[j1] != n.cs()[slot + 1]);
            }
        }
    }
}
pub proof fn step_redist_leaf<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, lm1: LM<K, V>, slot: int, d: int, lid: LeafNodeId, rid: LeafNodeId, g2: G)
    requires redist_leaf_pre(im, lm, g, m, p, p1, lm1, slot, d, lid, rid),
        g2 == re_g(g, p, NodeId::Leaf(lid), NodeId::Leaf(rid), lm1[rid].ks()[0].ord()),
    ensures tree(im.insert(p, p1), lm1, g2, cut(m, lm, lid, rid, d)),
        ({ let ks = lm[lid].ks() + lm[rid].ks(); let vs = lm[lid].vs() + lm[rid].vs(); m.contains_key(ks[d].ord()) && m[ks[d].ord()] == (ks[d], vs[d]) }),
{
    let im2 = im.insert(p, p1);
    let m2 = cut(m, lm, lid, rid, d);
    let x = lm1[rid].ks()[0].ord();
    redist_leaf_facts(im, lm, g, m, p, p1, lm1, slot, d, lid, rid);
    are_neighbours(im, lm, g, m, p, slot);
    all_distinct(im, lm, g, m, p);
    only_parent(im, lm, g, m, p, slot);
    only_parent(im, lm, g, m, p, slot + 1);
    node_there(im, lm, g, m, NodeId::Inner(p));
    kids(im, lm, g, p);
    ranges_re(g, p, NodeId::Leaf(lid), NodeId::Leaf(rid), x, 0);
    parent_re(im, lm, g, m, p, p1, im2, lm1, slot, x);
    assert forall|q: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(q)) implies inner_ok(im2, lm1, g2, q) by {
        if q != p {
            assert(inner_ok(im, lm, g, q));
            kids(im, lm, g, q);
            assert forall|j: int| 0 <= j <= im[q].size implies same_child(im, lm, g, im2, lm1, g2, #[trigger] im[q].cs()[j]) by {
                assert(im[q].cs()[j] != im[p].cs()[slot]);
                assert(im[q].cs()[j] != im[p].cs()[slot + 1]);
            }
            other_inner(im, lm, g, q, im2, lm1, g2);
        }
    }
    assert forall|q: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(q)) implies leaf_ok(lm1, g2, m2, q) by {
        redist_leaf_leaf(im, lm, g, m, p, p1, lm1, slot, d, lid, rid, g2, q);
    }
}
pub open spec fn merge_leaf_pre<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, lm1: LM<K, V>, slot: int, d: int, lid: LeafNodeId, rid: LeafNodeId, under: bool) -> bool {
    &&& tree(im, lm, g, m) && settled(g) && g.rg.contains_key(NodeId::Inner(p))
    &&& 0 <= slot < im[p].size && im[p].cs()[slot] == NodeId::Leaf(lid) && im[p].cs()[slot + 1] == NodeId::Leaf(rid)
    &&& leaf_merge(lm, im[p], lm1, p1, slot, d)
    &&& under_flag(p1.size, under)
}
proof fn merge_leaf_facts<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, lm1: LM<K, V>, slot: int, d: int, lid: LeafNodeId, rid: LeafNodeId, under: bool)
    requires merge_leaf_pre(im, lm, g, m, p, p1, lm1, slot, d, lid, rid, under),
    ensures ({ let l = lm[lid]; let r = lm[rid]; let l2 = lm1[lid]; let lo = g.rg[NodeId::Leaf(lid)].lo; let hi = g.rg[NodeId::Leaf(rid)].hi;
        let m2 = cut(m, lm, lid, rid, d); let y = (l.ks() + r.ks())[d].ord(); let nx = r.next;
        &&& lo <= y < hi && m.contains_key(y) && m[y] == ((l.ks() + r.ks())[d], (l.vs() + r.vs())[d])
        &&& lc(m2, l2.ks(), l2.vs(), lo, hi)
        &&& lid != rid && nx != Some(lid) && nx != Some(rid)
        &&& lm1.contains_key(lid) && !lm1.contains_key(rid)
        &&& nx is Some ==> g.rg.contains_key(NodeId::Leaf(nx->0)) && lm.contains_key(nx->0) && g.rg[NodeId::Leaf(nx->0)].lo == hi && g.rg[NodeId::Leaf(nx->0)].h == 0
            && lm1[nx->0] == (LeafNode { prev: Some(lid), ..lm[nx->0] })
    }),
{
    let l = lm[lid]; let r = lm[rid]; let l2 = lm1[lid];
    let gl = g.rg[NodeId::Leaf(lid)]; let gr = g.rg[NodeId::Leaf(rid)];
    are_neighbours(im, lm, g, m, p, slot);
    assert(leaf_ok(lm, g, m, lid));
    assert(leaf_ok(lm, g, m, rid));
    get_links(g, rid, r.prev, r.next);
    lc_join(m, l.ks(), l.vs(), r.ks(), r.vs(), gl.lo, gl.hi, gr.hi);
    lc_remove(m, l.ks() + r.ks(), l.vs() + r.vs(), gl.lo, gr.hi, d);
    if r.next is Some { assert(g.rg.contains_key(NodeId::Leaf(r.next->0))); assert(leaf_ok(lm, g, m, r.next->0)); }
}
proof fn merge_leaf_leaf<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, lm1: LM<K, V>, slot: int, d: int, lid: LeafNodeId, rid: LeafNodeId, under: bool, g2: G, q: LeafNodeId)
    requires merge_leaf_pre(im, lm, g, m, p, p1, lm1, slot, d, lid, rid, under), g2.rg.contains_key(NodeId::Leaf(q)),
        g2 == un_g(g, p, NodeId::Leaf(lid), NodeId::Leaf(rid), under),
    ensures leaf_ok(lm1, g2, cut(m, lm, lid, rid, d), q),
{
    merge_leaf_facts(im, lm, g, m, p, p1, lm1, slot, d, lid, rid, under);
    are_neighbours(im, lm, g, m, p, slot);
    let nx = lm[rid].next;
    assert(leaf_ok(lm, g, m, q));
    assert(leaf_ok(lm, g, m, lid));
    assert(leaf_ok(lm, g, m, rid));
    get_links(g, q, lm[q].prev, lm[q].next);
    get_links(g, rid, lm[rid].prev, lm[rid].next);
    assert(disjoint(g.rg[NodeId::Leaf(q)], g.rg[NodeId::Leaf(lid)]) || q == lid);
    assert(disjoint(g.rg[NodeId::Leaf(q)], g.rg[NodeId::Leaf(rid)]) || q == rid);
    if nx is Some { assert(disjoint(g.rg[NodeId::Leaf(q)], g.rg[NodeId::Leaf(nx->0)]) || q == nx->0); }
    if lm[q].prev is Some {
        let o = lm[q].prev->0;
        assert(g.rg[NodeId::Leaf(o)].h == 0);
        assert(disjoint(g.rg[NodeId::Leaf(o)], g.rg[NodeId::Leaf(lid)]) || o == lid);
        assert(disjoint(g.rg[NodeId::Leaf(o)], g.rg[NodeId::Leaf(rid)]) || o == rid);
    }
    if lm[q].next is Some {
        let o = lm[q].next->0;
        assert(g.rg[NodeId::Leaf(o)].h == 0);
        assert(disjoint(g.rg[NodeId::Leaf(o)], g.rg[NodeId::Leaf(lid)]) || o == lid);
        assert(disjoint(g.rg[NodeId::Leaf(o)], g.rg[NodeId::Leaf(rid)]) || o == rid);
    }
    mk_links(g2, q, lm1[q].prev, lm1[q].next);
    if q != lid {
        other_leaf(lm, g, m, q, lm1, g2, cut(m, lm, lid, rid, d));
    } else {
        assert(lm1[lid].ks().len() == lm1[lid].size);
        assert(lm[lid].ks().len() == lm[lid].size);
        assert(lm[rid].ks().len() == lm[rid].size);
    }
}
pub proof fn step_merge_leaf<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, lm1: LM<K, V>, slot: int, d: int, lid: LeafNodeId, rid: LeafNodeId, under: bool, g2: G)
    requires merge_leaf_pre(im, lm, g, m, p, p1, lm1, slot, d, lid, rid, under),
        g2 == un_g(g, p, NodeId::Leaf(lid), NodeId::Leaf(rid), under),
    ensures tree(im.insert(p, p1), lm1, g2, cut(m, lm, lid, rid, d)),
        ({ let ks = lm[lid].ks() + lm[rid].ks(); let vs = lm[lid].vs() + lm[rid].vs(); m.contains_key(ks[d].ord()) && m[ks[d].ord()] == (ks[d], vs[d]) }),
{
    let im2 = im.insert(p, p1);
    let m2 = cut(m, lm, lid, rid, d);
    merge_leaf_facts(im, lm, g, m, p, p1, lm1, slot, d, lid, rid, under);
    are_neighbours(im, lm, g, m, p, slot);
    all_distinct(im, lm, g, m, p);
    only_parent(im, lm, g, m, p, slot);
    only_parent(im, lm, g, m, p, slot + 1);
    node_there(im, lm, g, m, NodeId::Inner(p));
    assert(inner_ok(im, lm, g, p));
    kids(im, lm, g, p);
    ranges_un(g, p, NodeId::Leaf(lid), NodeId::Leaf(rid), under, 0);
    let nx = lm[rid].next;
    if nx is Some { assert(lm1[nx->0].ks() =~= lm[nx->0].ks()); assert(lm1[nx->0].vs() =~= lm[nx->0].vs()); }
    parent_un(im, lm, g, m, p, p1, im2, lm1, slot, under);
    assert forall|q: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(q)) implies inner_ok(im2, lm1, g2, q) by {
        if q != p {
            assert(inner_ok(im, lm, g, q));
            kids(im, lm, g, q);
            assert forall|j: int| 0 <= j <= im[q].size implies same_child(im, lm, g, im2, lm1, g2, #[trigger] im[q].cs()[j]) by {
                assert(im[q].cs()[j] != im[p].cs()[slot]);
                assert(im[q].cs()[j] != im[p].cs()[slot + 1]);
            }
            other_inner(im, lm, g, q, im2, lm1, g2);
        }
    }
    assert forall|q: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(q)) implies leaf_ok(lm1, g2, m2, q) by {
        merge_leaf_leaf(im, lm, g, m, p, p1, lm1, slot, d, lid, rid, under, g2, q);
    }
    assert forall|q: LeafNodeId| #[trigger] lm1.contains_key(q) implies g2.rg.contains_key(NodeId::Leaf(q)) by {
        assert(lm.contains_key(q));
    }
}

// ---- inner nodes -------------------------------------------------------------------------------------

/// the children slot and slot + 1 of p are inner nodes; one of them may be waiting for its parent
pub open spec fn inner_pair<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, slot: int, lid: InnerNodeId, rid: InnerNodeId) -> bool {
    let l = NodeId::Inner(lid);
    let r = NodeId::Inner(rid);
    &&& tree(im, lm, g, m) && g.pend is None && g.rg.contains_key(NodeId::Inner(p))
    &&& 0 <= slot < im[p].size && im[p].cs()[slot] == l && im[p].cs()[slot + 1] == r
    &&& g.dirty is None || g.dirty == Some(l) || g.dirty == Some(r)
    &&& g.under is None || g.under == Some(l) || g.under == Some(r)
}
/// the children of both, and of the nodes im1[lid], im1[rid] which share them anew
proof fn inner_pair_facts<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, slot: int, lid: InnerNodeId, rid: InnerNodeId, im2: IM<K, A>)
    requires inner_pair(im, lm, g, m, p, slot, lid, rid),
        forall|q: InnerNodeId| q != p && q != lid && q != rid ==> #[trigger] im2[q] == im[q],
    ensures ({ let l = im[lid]; let r = im[rid]; let k0 = im[p].ks()[slot]; let ks = l.ks().push(k0) + r.ks(); let cs = l.cs() + r.cs(); let augs = l.augs() + r.augs();
        let h = g.rg[NodeId::Inner(lid)].h; let lo = g.rg[NodeId::Inner(lid)].lo; let hi = g.rg[NodeId::Inner(rid)].hi;
        &&& ic(g, ks, cs, h, lo, hi) && lo < hi
        &&& lid != rid && lid != p && rid != p && h >= 1 && h == g.rg[NodeId::Inner(rid)].h && h + 1 == g.rg[NodeId::Inner(p)].h
        &&& cs.len() == ks.len() + 1
        &&& forall|j: int| 0 <= j < cs.len() ==> g.rg.contains_key(#[trigger] cs[j]) && g.rg[cs[j]].h == h - 1
        &&& forall|j: int| 0 <= j < cs.len() && g.fresh ==> #[trigger] augs[j] == aug_of(im2, lm, cs[j])
        &&& im.contains_key(lid) && im.contains_key(rid) && im.contains_key(p) && l.wf() && r.wf() && im[p].wf() && l.tail() && r.tail() && im[p].tail()
        &&& min_fill(g, NodeId::Inner(lid), l.size, MIN_N as int) && min_fill(g, NodeId::Inner(rid), r.size, MIN_N as int)
    }),
{
    let l = im[lid]; let r = im[rid]; let k0 = im[p].ks()[slot];
    let gl = g.rg[NodeId::Inner(lid)]; let gr = g.rg[NodeId::Inner(rid)];
    are_neighbours(im, lm, g, m, p, slot);
    assert(inner_ok(im, lm, g, p));
    assert(inner_ok(im, lm, g, lid));
    assert(inner_ok(im, lm, g, rid));
    kids(im, lm, g, lid);
    kids(im, lm, g, rid);
    ic_join(g, l.ks(), l.cs(), k0, r.ks(), r.cs(), gl.h, gl.lo, gr.hi);
    let cs = l.cs() + r.cs();
    let augs = l.augs() + r.augs();
    assert forall|j: int| 0 <= j < cs.len() implies g.rg.contains_key(#[trigger] cs[j]) && g.rg[cs[j]].h == gl.h - 1 by {
        if j <= l.size { assert(cs[j] == l.cs()[j]); } else { assert(cs[j] == r.cs()[j - l.size - 1]); }
    }
    assert forall|j: int| 0 <= j < cs.len() && g.fresh implies #[trigger] augs[j] == aug_of(im2, lm, cs[j]) by {
        reveal(af);
        assert(g.rg.contains_key(cs[j]));
        if j <= l.size { assert(cs[j] == l.cs()[j]); assert(augs[j] == l.augs()[j]); } else { assert(cs[j] == r.cs()[j - l.size - 1]); assert(augs[j] == r.augs()[j - l.size - 1]); }
    }
}
pub open spec fn redist_inner_pre<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, im1: IM<K, A>, slot: int, lid: InnerNodeId, rid: InnerNodeId) -> bool {
    &&& inner_pair(im, lm, g, m, p, slot, lid, rid)
    &&& inner_redist::<K, V, A>(im, im[p], im1, p1, slot)
}
proof fn redist_inner_two<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, im1: IM<K, A>, slot: int, lid: InnerNodeId, rid: InnerNodeId, im2: IM<K, A>, g2: G)
    requires redist_inner_pre(im, lm, g, m, p, p1, im1, slot, lid, rid), im2 == im1.insert(p, p1),
        g2 == re_g(g, p, NodeId::Inner(lid), NodeId::Inner(rid), p1.ks()[slot].ord()),
    ensures inner_ok(im2, lm, g2, lid), inner_ok(im2, lm, g2, rid), g.rg[NodeId::Inner(lid)].lo < p1.ks()[slot].ord() < g.rg[NodeId::Inner(rid)].hi,
{
    let l = im[lid]; let r = im[rid]; let l2 = im1[lid]; let r2 = im1[rid];
    let gl = g.rg[NodeId::Inner(lid)]; let gr = g.rg[NodeId::Inner(rid)];
    let k0 = im[p].ks()[slot]; let x = p1.ks()[slot];
    inner_pair_facts(im, lm, g, m, p, slot, lid, rid, im2);
    are_neighbours(im, lm, g, m, p, slot);
    let ks = l.ks().push(k0) + r.ks();
    let cs = l.cs() + r.cs();
    let augs = l.augs() + r.augs();
    let n = l2.size as int;
    assert(l2.ks().len() == n && r2.ks().len() == r2.size && l2.cs().len() == n + 1 && l2.augs().len() == n + 1 && r2.cs().len() == r2.size + 1 && r2.augs().len() == r2.size + 1);
    assert(ks == l2.ks().push(x) + r2.ks());
    assert(ks.len() == n + 1 + r2.size);
    ic_split(g, ks, cs, gl.h, gl.lo, gr.hi, n);
    assert(ks[n] == x);
    assert(ks.take(n) =~= l2.ks());
    assert(ks.skip(n + 1) =~= r2.ks());
    assert(cs.take(n + 1) =~= l2.cs());
    assert(cs.skip(n + 1) =~= r2.cs());
    assert forall|j: int| 0 <= j < cs.len() implies g2.rg.contains_key(#[trigger] cs[j]) && crange(g2, cs[j]) == crange(g, cs[j]) by {}
    assert forall|j: int| 0 <= j < l2.cs().len() implies g2.rg.contains_key(#[trigger] l2.cs()[j]) && crange(g2, l2.cs()[j]) == crange(g, l2.cs()[j]) by { assert(l2.cs()[j] == cs[j]); }
    assert forall|j: int| 0 <= j < r2.cs().len() implies g2.rg.contains_key(#[trigger] r2.cs()[j]) && crange(g2, r2.cs()[j]) == crange(g, r2.cs()[j]) by { assert(r2.cs()[j] == cs[n + 1 + j]); }
    ic_frame(g, g2, l2.ks(), l2.cs(), gl.h, gl.lo, x.ord());
    ic_frame(g, g2, r2.ks(), r2.cs(), gl.h, x.ord(), gr.hi);
    assert(af(im2, lm, g2, l2)) by {
        reveal(af);
        assert forall|j: int| 0 <= j <= l2.size && g.fresh implies #[trigger] l2.augs()[j] == aug_of(im2, lm, l2.cs()[j]) by { assert(l2.augs()[j] == augs[j]); assert(l2.cs()[j] == cs[j]); }
    }
    assert(af(im2, lm, g2, r2)) by {
        reveal(af);
        assert forall|j: int| 0 <= j <= r2.size && g.fresh implies #[trigger] r2.augs()[j] == aug_of(im2, lm, r2.cs()[j]) by { assert(r2.augs()[j] == augs[n + 1 + j]); assert(r2.cs()[j] == cs[n + 1 + j]); }
    }
}
/// the nodes a step on the children slot and slot + 1 of p does not touch
proof fn rest_inner<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, slot: int, lid: InnerNodeId, rid: InnerNodeId, im2: IM<K, A>, g2: G, o: InnerNodeId)
    requires inner_pair(im, lm, g, m, p, slot, lid, rid), g.rg.contains_key(NodeId::Inner(o)), o != p && o != lid && o != rid,
        forall|q: InnerNodeId| q != p && q != lid && q != rid ==> #[trigger] im2[q] == im[q], im2.contains_key(o),
        g2.pend is None, g2.dirty == Some(NodeId::Inner(p)), g2.root == g.root, g2.fresh == g.fresh, g2.strict == g.strict,
        g2.under is None || g2.under == Some(NodeId::Inner(p)),
        forall|n: NodeId| #[trigger] g.rg.contains_key(n) && n != NodeId::Inner(lid) && n != NodeId::Inner(rid) ==> g2.rg.contains_key(n) && g2.rg[n] == g.rg[n],
    ensures inner_ok(im2, lm, g2, o),
{
    only_parent(im, lm, g, m, p, slot);
    only_parent(im, lm, g, m, p, slot + 1);
    assert(inner_ok(im, lm, g, o));
    kids(im, lm, g, o);
    assert(g2.rg[NodeId::Inner(o)] == g.rg[NodeId::Inner(o)]);
    assert forall|j: int| 0 <= j <= im[o].size implies same_child(im, lm, g, im2, lm, g2, #[trigger] im[o].cs()[j]) by {
        assert(im[o].cs()[j] != im[p].cs()[slot]);
        assert(im[o].cs()[j] != im[p].cs()[slot + 1]);
        assert(g.rg.contains_key(im[o].cs()[j]));
        assert(g2.rg.contains_key(im[o].cs()[j]));
    }
    other_inner(im, lm, g, o, im2, lm, g2);
}
/// the leaves, when the ranges of inner nodes change
proof fn rest_leaf<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, g2: G, o: LeafNodeId)
    requires leaf_ok(lm, g, m, o), g.rg.contains_key(NodeId::Leaf(o)), nonroot(g2, NodeId::Leaf(o)) ==> nonroot(g, NodeId::Leaf(o)), g2.strict ==> g.strict,
        g.under is None || g.under->0 is Inner, g2.under is None || g2.under->0 is Inner,
        forall|n: LeafNodeId| #[trigger] g.rg.contains_key(NodeId::Leaf(n)) ==> g2.rg.contains_key(NodeId::Leaf(n)) && g2.rg[NodeId::Leaf(n)] == g.rg[NodeId::Leaf(n)],
    ensures leaf_ok(lm, g2, m, o),
{
    get_links(g, o, lm[o].prev, lm[o].next);
    if lm[o].prev is Some { assert(g.rg.contains_key(NodeId::Leaf(lm[o].prev->0))); }
    if lm[o].next is Some { assert(g.rg.contains_key(NodeId::Leaf(lm[o].next->0))); }
    mk_links(g2, o, lm[o].prev, lm[o].next);
}
pub proof fn step_redist_inner<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, im1: IM<K, A>, slot: int, lid: InnerNodeId, rid: InnerNodeId, im2: IM<K, A>, g2: G)
    requires redist_inner_pre(im, lm, g, m, p, p1, im1, slot, lid, rid), im2 == im1.insert(p, p1),
        g2 == re_g(g, p, NodeId::Inner(lid), NodeId::Inner(rid), p1.ks()[slot].ord()),
    ensures tree(im2, lm, g2, m),
{
    let x = p1.ks()[slot].ord();
    let l = NodeId::Inner(lid); let r = NodeId::Inner(rid);
    are_neighbours(im, lm, g, m, p, slot);
    all_distinct(im, lm, g, m, p);
    inner_pair_facts(im, lm, g, m, p, slot, lid, rid, im2);
    redist_inner_two(im, lm, g, m, p, p1, im1, slot, lid, rid, im2, g2);
    ranges_re(g, p, l, r, x, g.rg[l].h);
    kids(im, lm, g, p);
    assert forall|j: int| 0 <= j <= im[p].size && j != slot && j != slot + 1 implies aug_of(im2, lm, #[trigger] im[p].cs()[j]) == aug_of(im, lm, im[p].cs()[j]) by {
        assert(im[p].cs()[j] != im[p].cs()[slot]);
        assert(im[p].cs()[j] != im[p].cs()[slot + 1]);
    }
    parent_re(im, lm, g, m, p, p1, im2, lm, slot, x);
    assert forall|q: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(q)) implies inner_ok(im2, lm, g2, q) by {
        if q != p && q != lid && q != rid {
            assert(inner_ok(im, lm, g, q));
            rest_inner(im, lm, g, m, p, slot, lid, rid, im2, g2, q);
        }
    }
    assert forall|q: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(q)) implies leaf_ok(lm, g2, m, q) by {
        assert(leaf_ok(lm, g, m, q));
        rest_leaf(im, lm, g, m, g2, q);
    }
}
pub open spec fn merge_inner_pre<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, im1: IM<K, A>, slot: int, lid: InnerNodeId, rid: InnerNodeId, under: bool) -> bool {
    &&& inner_pair(im, lm, g, m, p, slot, lid, rid)
    &&& inner_merge::<K, V, A>(im, im[p], im1, p1, slot)
    &&& under_flag(p1.size, under)
}
proof fn merge_inner_one<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, im1: IM<K, A>, slot: int, lid: InnerNodeId, rid: InnerNodeId, under: bool, im2: IM<K, A>, g2: G)
    requires merge_inner_pre(im, lm, g, m, p, p1, im1, slot, lid, rid, under), im2 == im1.insert(p, p1),
        g2 == un_g(g, p, NodeId::Inner(lid), NodeId::Inner(rid), under),
    ensures inner_ok(im2, lm, g2, lid),
{
    let l = im[lid]; let r = im[rid]; let l2 = im1[lid];
    let gl = g.rg[NodeId::Inner(lid)]; let gr = g.rg[NodeId::Inner(rid)];
    let k0 = im[p].ks()[slot];
    inner_pair_facts(im, lm, g, m, p, slot, lid, rid, im2);
    are_neighbours(im, lm, g, m, p, slot);
    let ks = l.ks().push(k0) + r.ks();
    let cs = l.cs() + r.cs();
    let augs = l.augs() + r.augs();
    assert(l.ks().len() == l.size && r.ks().len() == r.size && l2.ks().len() == l2.size);
    assert(l2.ks() == ks && l2.cs() == cs && l2.augs() == augs);
    assert forall|j: int| 0 <= j < cs.len() implies g2.rg.contains_key(#[trigger] cs[j]) && crange(g2, cs[j]) == crange(g, cs[j]) by {}
    ic_frame(g, g2, ks, cs, gl.h, gl.lo, gr.hi);
    assert(af(im2, lm, g2, l2)) by {
        reveal(af);
        assert forall|j: int| 0 <= j <= l2.size && g.fresh implies #[trigger] l2.augs()[j] == aug_of(im2, lm, l2.cs()[j]) by { assert(l2.augs()[j] == augs[j]); assert(l2.cs()[j] == cs[j]); }
    }
}
pub proof fn step_merge_inner<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, p1: InnerNode<K, A>, im1: IM<K, A>, slot: int, lid: InnerNodeId, rid: InnerNodeId, under: bool, im2: IM<K, A>, g2: G)
    requires merge_inner_pre(im, lm, g, m, p, p1, im1, slot, lid, rid, under), im2 == im1.insert(p, p1),
        g2 == un_g(g, p, NodeId::Inner(lid), NodeId::Inner(rid), under),
    ensures tree(im2, lm, g2, m),
{
    let l = NodeId::Inner(lid); let r = NodeId::Inner(rid);
    are_neighbours(im, lm, g, m, p, slot);
    all_distinct(im, lm, g, m, p);
    inner_pair_facts(im, lm, g, m, p, slot, lid, rid, im2);
    merge_inner_one(im, lm, g, m, p, p1, im1, slot, lid, rid, under, im2, g2);
    ranges_un(g, p, l, r, under, g.rg[l].h);
    assert(inner_ok(im, lm, g, p));
    kids(im, lm, g, p);
    assert forall|j: int| 0 <= j <= im[p].size && j != slot && j != slot + 1 implies aug_of(im2, lm, #[trigger] im[p].cs()[j]) == aug_of(im, lm, im[p].cs()[j]) by {
        assert(im[p].cs()[j] != im[p].cs()[slot]);
        assert(im[p].cs()[j] != im[p].cs()[slot + 1]);
    }
    parent_un(im, lm, g, m, p, p1, im2, lm, slot, under);
    assert forall|q: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(q)) implies inner_ok(im2, lm, g2, q) by {
        if q != p && q != lid && q != rid {
            assert(inner_ok(im, lm, g, q));
            rest_inner(im, lm, g, m, p, slot, lid, rid, im2, g2, q);
        }
    }
    assert forall|q: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(q)) implies leaf_ok(lm, g2, m, q) by {
        assert(leaf_ok(lm, g, m, q));
        rest_leaf(im, lm, g, m, g2, q);
    }
}
/// an empty root gives way to its only child
pub proof fn step_root_collapse<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, g2: G)
    requires tree(im, lm, g, m), g.pend is None, g.root == NodeId::Inner(p), g.dirty == Some(g.root), g.under == Some(g.root), im[p].size == 0,
        g2 == (G { h: g.h - 1, root: im[p].cs()[0], rg: g.rg.remove(g.root), dirty: None, under: None, ..g }),
    ensures tree(im, lm, g2, m), g.h >= 1,
{
    let c = im[p].cs()[0];
    assert(inner_ok(im, lm, g, p));
    kids(im, lm, g, p);
    only_parent(im, lm, g, m, p, 0);
    child_range(im, lm, g, m, p, 0, 0real);
    assert(ranges_ok(g2)) by {
        assert forall|n: NodeId| #[trigger] g2.rg.contains_key(n) implies g2.rg[n].h <= g2.h by {
            assert(g.rg.contains_key(n));
            assert(n == g.root || g.rg[n].h != g.h || disjoint(g.rg[n], g.rg[g.root]));
        }
    }
    assert forall|o: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(o)) implies inner_ok(im, lm, g2, o) by {
        assert(inner_ok(im, lm, g, o));
        kids(im, lm, g, o);
        assert forall|j: int| 0 <= j <= im[o].size implies same_child(im, lm, g, im, lm, g2, #[trigger] im[o].cs()[j]) by {
            assert(g.rg[im[o].cs()[j]].h < g.h);
            assert(g.rg.contains_key(im[o].cs()[j]));
        }
        other_inner(im, lm, g, o, im, lm, g2);
    }
    assert forall|o: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(o)) implies leaf_ok(lm, g2, m, o) by {
        assert(leaf_ok(lm, g, m, o));
        rest_leaf(im, lm, g, m, g2, o);
    }
}
/// a root that holds a key stays
pub proof fn step_root_settle<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, g2: G)
    requires tree(im, lm, g, m), g.pend is None, g.dirty is None || g.dirty == Some(g.root), g.under is None || (g.under == Some(g.root) && g.root is Inner && im[g.root->Inner_0].size >= 1),
        g2 == (G { dirty: None, under: None, ..g }),
    ensures tree(im, lm, g2, m),
{
    assert(ranges_ok(g2));
    assert forall|o: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(o)) implies inner_ok(im, lm, g2, o) by {
        assert(inner_ok(im, lm, g, o));
        kids(im, lm, g, o);
        assert forall|j: int| 0 <= j <= im[o].size implies same_child(im, lm, g, im, lm, g2, #[trigger] im[o].cs()[j]) by {
            only_parent(im, lm, g, m, o, j);
        }
        other_inner(im, lm, g, o, im, lm, g2);
    }
    assert forall|o: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(o)) implies leaf_ok(lm, g2, m, o) by {
        assert(leaf_ok(lm, g, m, o));
        rest_leaf(im, lm, g, m, g2, o);
    }
}
