//@ raw
// ======================= steps from tree to tree ====================================================

/// a node is the child of one node, in one place
pub proof fn only_parent<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, i: int)
    requires tree(im, lm, g, m), g.rg.contains_key(NodeId::Inner(p)), 0 <= i <= im[p].size,
    ensures
        forall|q: InnerNodeId, j: int| #![trigger im[q].cs()[j]] g.rg.contains_key(NodeId::Inner(q)) && 0 <= j <= im[q].size && im[q].cs()[j] == im[p].cs()[i] ==> q == p && j == i,
        im[p].cs()[i] != g.root, g.rg.contains_key(im[p].cs()[i]),
{
    reveal(ic);
    let c = im[p].cs()[i];
    let rp = g.rg[NodeId::Inner(p)];
    assert(inner_ok(im, lm, g, p));
    assert forall|q: InnerNodeId, j: int| #![trigger im[q].cs()[j]] g.rg.contains_key(NodeId::Inner(q)) && 0 <= j <= im[q].size && im[q].cs()[j] == c implies q == p && j == i by {
        assert(inner_ok(im, lm, g, q));
        let rq = g.rg[NodeId::Inner(q)];
        assert(bnd(im[p].ks(), rp.lo, rp.hi, i) == bnd(im[q].ks(), rq.lo, rq.hi, j));
        if q != p {
            assert(disjoint(rp, rq));
        } else if i < j {
            assert(bnd(im[p].ks(), rp.lo, rp.hi, i) < bnd(im[p].ks(), rp.lo, rp.hi, j));
        } else if j < i {
            assert(bnd(im[p].ks(), rp.lo, rp.hi, j) < bnd(im[p].ks(), rp.lo, rp.hi, i));
        }
    }
}

/// the children of an inner node
pub proof fn kids<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, q: InnerNodeId)
    requires inner_ok(im, lm, g, q),
    ensures im[q].cs().len() == im[q].size + 1,
        forall|j: int| 0 <= j <= im[q].size ==> g.rg.contains_key(#[trigger] im[q].cs()[j]) && g.rg[im[q].cs()[j]].h == g.rg[NodeId::Inner(q)].h - 1,
{
    reveal(ic);
    assert forall|j: int| 0 <= j <= im[q].size implies g.rg.contains_key(#[trigger] im[q].cs()[j]) && g.rg[im[q].cs()[j]].h == g.rg[NodeId::Inner(q)].h - 1 by {
        assert(crange(g, im[q].cs()[j]).h == g.rg[NodeId::Inner(q)].h - 1);
    }
}
/// what a parent says about a child it still says after the step
pub open spec fn same_child<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, im2: IM<K, A>, lm2: LM<K, V>, g2: G, c: NodeId) -> bool {
    &&& g2.rg.contains_key(c)
    &&& crange(g2, c) == crange(g, c)
    &&& g2.fresh ==> g2.dirty == Some(c) || (g.dirty != Some(c) && aug_of(im2, lm2, c) == aug_of(im, lm, c))
}
/// an inner node the step does not touch
pub proof fn other_inner<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, q: InnerNodeId, im2: IM<K, A>, lm2: LM<K, V>, g2: G)
    requires inner_ok(im, lm, g, q), im2.contains_key(q), im2[q] == im[q], g2.rg[NodeId::Inner(q)] == g.rg[NodeId::Inner(q)],
        g2.fresh ==> g.fresh, min_fill(g2, NodeId::Inner(q), im[q].size, MIN_N as int),
        forall|j: int| 0 <= j <= im[q].size ==> same_child(im, lm, g, im2, lm2, g2, #[trigger] im[q].cs()[j]),
    ensures inner_ok(im2, lm2, g2, q),
{
    let n = im[q];
    let r = g.rg[NodeId::Inner(q)];
    kids(im, lm, g, q);
    ic_frame(g, g2, n.ks(), n.cs(), r.h, r.lo, r.hi);
    assert(af(im2, lm2, g2, n)) by {
        reveal(af);
        if g2.fresh {
            assert forall|i: int| 0 <= i <= n.size implies g2.dirty == Some(n.cs()[i]) || #[trigger] n.augs()[i] == aug_of(im2, lm2, n.cs()[i]) by {
                assert(same_child(im, lm, g, im2, lm2, g2, im[q].cs()[i]));
            }
        }
    }
}
/// a leaf the step does not touch
pub proof fn other_leaf<K: Key, V>(lm: LM<K, V>, g: G, m: Map<real, (K, V)>, q: LeafNodeId, lm2: LM<K, V>, g2: G, m2: Map<real, (K, V)>)
    requires leaf_ok(lm, g, m, q), lm2.contains_key(q), lm2[q].slot_key == lm[q].slot_key, lm2[q].slot_value == lm[q].slot_value, lm2[q].size == lm[q].size,
        g2.rg[NodeId::Leaf(q)] == g.rg[NodeId::Leaf(q)],
        min_fill(g2, NodeId::Leaf(q), lm[q].size, (LEAF_N / 4) as int),
        agree(m, m2, g.rg[NodeId::Leaf(q)].lo, g.rg[NodeId::Leaf(q)].hi),
        links(g2, q, lm2[q].prev, lm2[q].next),
    ensures leaf_ok(lm2, g2, m2, q), lm2[q].ks() == lm[q].ks(), lm2[q].vs() == lm[q].vs(),
{
    assert(lm2[q].ks() =~= lm[q].ks());
    assert(lm2[q].vs() =~= lm[q].vs());
    lc_frame(m, m2, lm[q].ks(), lm[q].vs(), g.rg[NodeId::Leaf(q)].lo, g.rg[NodeId::Leaf(q)].hi);
}

/// the entries of one leaf change, in its range
pub proof fn step_leaf<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, l2: LeafNode<K, V>, g2: G, m2: Map<real, (K, V)>, x: real)
    requires tree(im, lm, g, m), g.rg.contains_key(NodeId::Leaf(id)), g.dirty is None, g.pend is None,
        l2.tail(), //[C12]
        l2.wf(), l2.same_links(&lm[id]), lc(m2, l2.ks(), l2.vs(), g.rg[NodeId::Leaf(id)].lo, g.rg[NodeId::Leaf(id)].hi),
        g.rg[NodeId::Leaf(id)].lo <= x < g.rg[NodeId::Leaf(id)].hi, 0real < x,
        forall|y: real| #![trigger m.contains_key(y)] #![trigger m2.contains_key(y)] y != x ==> m.contains_key(y) == m2.contains_key(y) && (m.contains_key(y) ==> m[y] == m2[y]),
        g2 == (G { dirty: Some(NodeId::Leaf(id)), ..g }),
        min_fill(g2, NodeId::Leaf(id), l2.size, (LEAF_N / 4) as int),
    ensures tree(im, lm.insert(id, l2), g2, m2),
{
    let lm2 = lm.insert(id, l2);
    assert(ranges_ok(g2));
    assert forall|q: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(q)) implies inner_ok(im, lm2, g2, q) by {
        assert(inner_ok(im, lm, g, q));
        kids(im, lm, g, q);
        other_inner(im, lm, g, q, im, lm2, g2);
    }
    assert forall|q: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(q)) implies leaf_ok(lm2, g2, m2, q) by {
        assert(leaf_ok(lm, g, m, q));
        if q != id {
            assert(disjoint(g.rg[NodeId::Leaf(q)], g.rg[NodeId::Leaf(id)]));
            same_links_ok(g, g2, q, lm[q].prev, lm[q].next);
            other_leaf(lm, g, m, q, lm2, g2, m2);
        } else {
            same_links_ok(g, g2, q, lm[q].prev, lm[q].next);
        }
    }
}

/// a parent takes over the augmentation of its dirty child
pub proof fn step_refresh<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, i: int, n2: InnerNode<K, A>, g2: G)
    requires tree(im, lm, g, m), g.rg.contains_key(NodeId::Inner(p)), 0 <= i <= im[p].size, g.dirty == Some(im[p].cs()[i]), g.pend is None,
        n2.tail(), //[C12]
        n2.wf(), n2.size == im[p].size, n2.ks() == im[p].ks(), n2.cs() == im[p].cs(), n2.augs() == im[p].augs().update(i, aug_of(im, lm, im[p].cs()[i])),
        g2 == (G { dirty: Some(NodeId::Inner(p)), ..g }),
    ensures tree(im.insert(p, n2), lm, g2, m),
{
    let im2 = im.insert(p, n2);
    only_parent(im, lm, g, m, p, i);
    assert(ranges_ok(g2));
    assert(inner_ok(im, lm, g, p));
    kids(im, lm, g, p);
    assert(af(im2, lm, g2, n2)) by {
        reveal(af);
        if g.fresh {
            assert forall|j: int| 0 <= j <= n2.size implies g2.dirty == Some(n2.cs()[j]) || #[trigger] n2.augs()[j] == aug_of(im2, lm, n2.cs()[j]) by {
                let c = im[p].cs()[j];
                if j != i {
                    assert(im[p].augs()[j] == n2.augs()[j]);
                    assert(im[p].cs()[j] != im[p].cs()[i]);
                }
            }
        }
    }
    ic_frame(g, g2, n2.ks(), n2.cs(), g.rg[NodeId::Inner(p)].h, g.rg[NodeId::Inner(p)].lo, g.rg[NodeId::Inner(p)].hi);
    assert(inner_ok(im2, lm, g2, p));
    assert forall|q: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(q)) implies inner_ok(im2, lm, g2, q) by {
        assert(inner_ok(im, lm, g, q));
        if q != p {
            kids(im, lm, g, q);
            other_inner(im, lm, g, q, im2, lm, g2);
        }
    }
    assert forall|q: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(q)) implies leaf_ok(lm, g2, m, q) by {
        assert(leaf_ok(lm, g, m, q));
        same_links_ok(g, g2, q, lm[q].prev, lm[q].next);
    }
}

/// a full leaf `id` is split in two around a new entry
pub open spec fn leaf_split<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, rid: LeafNodeId, l2: LeafNode<K, V>, r2: LeafNode<K, V>, lm2: LM<K, V>, g2: G, k: K, v: V, p: int) -> bool {
    let l = lm[id];
    let r = g.rg[NodeId::Leaf(id)];
    let ks = l.ks().insert(p, k);
    let vs = l.vs().insert(p, v);
    let n = l2.size as int;
    &&& tree(im, lm, g, m) && g.rg.contains_key(NodeId::Leaf(id)) && g.dirty is None && g.pend is None && g.under is None
    &&& !lm.contains_key(rid)
    &&& is_pos(l.ks(), k.ord(), p) && !hask(l.ks(), k.ord()) && r.lo <= k.ord() < r.hi && 0real < k.ord()
    &&& l2.tail() && r2.tail() //[C12]
    &&& l2.wf() && r2.wf() && 1 <= l2.size && l2.size < ks.len()
    &&& l2.ks() == ks.take(n) && l2.vs() == vs.take(n) && r2.ks() == ks.skip(n) && r2.vs() == vs.skip(n)
    &&& l2.prev == l.prev && l2.next == Some(rid) && r2.prev == Some(id) && r2.next == l.next
    &&& g2 == (G { rg: g.rg.insert(NodeId::Leaf(id), R { h: 0, lo: r.lo, hi: ks[n].ord() }).insert(NodeId::Leaf(rid), R { h: 0, lo: ks[n].ord(), hi: r.hi }),
            pend: Some((NodeId::Leaf(id), NodeId::Leaf(rid))), dirty: Some(NodeId::Leaf(id)), ..g })
    &&& lm2 == (match l.next { Some(nx) => lm.insert(id, l2).insert(nx, LeafNode { prev: Some(rid), ..lm[nx] }).insert(rid, r2), None => lm.insert(id, l2).insert(rid, r2) })
    &&& l2.size >= LEAF_N / 4 && r2.size >= LEAF_N / 4
}
proof fn leaf_split_facts<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, rid: LeafNodeId, l2: LeafNode<K, V>, r2: LeafNode<K, V>, lm2: LM<K, V>, g2: G, k: K, v: V, p: int)
    requires leaf_split(im, lm, g, m, id, rid, l2, r2, lm2, g2, k, v, p),
    ensures ({ let r = g.rg[NodeId::Leaf(id)]; let mid = r2.ks()[0].ord(); let m2 = m.insert(k.ord(), (k, v)); let nx = lm[id].next;
        &&& g2.rg[NodeId::Leaf(id)] == (R { h: 0, lo: r.lo, hi: mid }) && g2.rg[NodeId::Leaf(rid)] == (R { h: 0, lo: mid, hi: r.hi })
        &&& r.lo < mid && mid < r.hi && r.h == 0 && 0real <= r.lo && r.hi <= 1real && !m.contains_key(k.ord())
        &&& lc(m2, l2.ks(), l2.vs(), r.lo, mid) && lc(m2, r2.ks(), r2.vs(), mid, r.hi)
        &&& id != rid && !g.rg.contains_key(NodeId::Leaf(rid)) && nx != Some(id) && nx != Some(rid)
        &&& (nx is None) == (r.hi == 1real)
        &&& nx is Some ==> g.rg.contains_key(NodeId::Leaf(nx->0)) && lm.contains_key(nx->0) && g.rg[NodeId::Leaf(nx->0)].lo == r.hi && g.rg[NodeId::Leaf(nx->0)].h == 0
        &&& (l2.prev is None) == (r.lo == 0real)
        &&& l2.prev is Some ==> g.rg.contains_key(NodeId::Leaf(l2.prev->0)) && g.rg[NodeId::Leaf(l2.prev->0)].hi == r.lo && l2.prev != Some(id) && l2.prev != Some(rid)
    }),
{
    let l = lm[id];
    let r = g.rg[NodeId::Leaf(id)];
    let ks = l.ks().insert(p, k);
    let vs = l.vs().insert(p, v);
    let n = l2.size as int;
    let m2 = m.insert(k.ord(), (k, v));
    assert(leaf_ok(lm, g, m, id));
    lc_insert(m, l.ks(), l.vs(), r.lo, r.hi, k, v, p);
    lc_split(m2, ks, vs, r.lo, r.hi, n);
    assert(ks.skip(n)[0] == ks[n]);
    assert(!g.rg.contains_key(NodeId::Leaf(rid))) by { if g.rg.contains_key(NodeId::Leaf(rid)) { assert(leaf_ok(lm, g, m, rid)); } }
    get_links(g, id, l.prev, l.next);
}
proof fn leaf_split_ranges<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, rid: LeafNodeId, l2: LeafNode<K, V>, r2: LeafNode<K, V>, lm2: LM<K, V>, g2: G, k: K, v: V, p: int)
    requires leaf_split(im, lm, g, m, id, rid, l2, r2, lm2, g2, k, v, p),
    ensures ranges_ok(g2),
{
    leaf_split_facts(im, lm, g, m, id, rid, l2, r2, lm2, g2, k, v, p);
}
proof fn leaf_split_leaf<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, rid: LeafNodeId, l2: LeafNode<K, V>, r2: LeafNode<K, V>, lm2: LM<K, V>, g2: G, k: K, v: V, p: int, q: LeafNodeId)
    requires leaf_split(im, lm, g, m, id, rid, l2, r2, lm2, g2, k, v, p), g2.rg.contains_key(NodeId::Leaf(q)),
    ensures leaf_ok(lm2, g2, m.insert(k.ord(), (k, v)), q),
{
    leaf_split_facts(im, lm, g, m, id, rid, l2, r2, lm2, g2, k, v, p);
    let nx = lm[id].next;
    if q != id && q != rid {
        assert(leaf_ok(lm, g, m, q));
        let rq = g.rg[NodeId::Leaf(q)];
        assert(disjoint(rq, g.rg[NodeId::Leaf(id)]));
        if nx is Some && nx->0 != q { assert(disjoint(rq, g.rg[NodeId::Leaf(nx->0)])); }
        get_links(g, q, lm[q].prev, lm[q].next);
        mk_links(g2, q, lm2[q].prev, lm2[q].next);
        other_leaf(lm, g, m, q, lm2, g2, m.insert(k.ord(), (k, v)));
    } else {
        mk_links(g2, q, lm2[q].prev, lm2[q].next);
        if q == rid { assert(r2.ks().len() == r2.size); assert(lm2[rid] == r2); } else { assert(lm2[id] == l2); }
    }
}
proof fn leaf_split_inner<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, rid: LeafNodeId, l2: LeafNode<K, V>, r2: LeafNode<K, V>, lm2: LM<K, V>, g2: G, k: K, v: V, p: int, q: InnerNodeId)
    requires leaf_split(im, lm, g, m, id, rid, l2, r2, lm2, g2, k, v, p), g2.rg.contains_key(NodeId::Inner(q)),
    ensures inner_ok(im, lm2, g2, q),
{
    leaf_split_facts(im, lm, g, m, id, rid, l2, r2, lm2, g2, k, v, p);
    let nx = lm[id].next;
    assert(inner_ok(im, lm, g, q));
    let nn = im[q];
    kids(im, lm, g, q);
    if nx is Some { assert(lm2[nx->0].ks() =~= lm[nx->0].ks()); assert(lm2[nx->0].vs() =~= lm[nx->0].vs()); }
    assert forall|j: int| 0 <= j <= nn.size implies same_child(im, lm, g, im, lm2, g2, #[trigger] nn.cs()[j]) by {
        let c = nn.cs()[j];
        if c is Leaf && Some(c->Leaf_0) != nx && c->Leaf_0 != id { assert(lm2[c->Leaf_0] == lm[c->Leaf_0]); }
    }
    other_inner(im, lm, g, q, im, lm2, g2);
}
pub proof fn step_leaf_split<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId, rid: LeafNodeId, l2: LeafNode<K, V>, r2: LeafNode<K, V>, lm2: LM<K, V>, g2: G, k: K, v: V, p: int)
    requires leaf_split(im, lm, g, m, id, rid, l2, r2, lm2, g2, k, v, p),
    ensures tree(im, lm2, g2, m.insert(k.ord(), (k, v))), !m.contains_key(k.ord()),
        g2.rg[NodeId::Leaf(rid)].lo == r2.ks()[0].ord(),
{
    let m2 = m.insert(k.ord(), (k, v));
    leaf_split_facts(im, lm, g, m, id, rid, l2, r2, lm2, g2, k, v, p);
    leaf_split_ranges(im, lm, g, m, id, rid, l2, r2, lm2, g2, k, v, p);
    assert forall|q: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(q)) implies inner_ok(im, lm2, g2, q) by {
        leaf_split_inner(im, lm, g, m, id, rid, l2, r2, lm2, g2, k, v, p, q);
    }
    assert forall|q: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(q)) implies leaf_ok(lm2, g2, m2, q) by {
        leaf_split_leaf(im, lm, g, m, id, rid, l2, r2, lm2, g2, k, v, p, q);
    }
}

/// the parent of a pending split, with the new child put in (if it has room)
pub proof fn ic_pend<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, i: int, k: K, right: NodeId, g1: G)
    requires tree(im, lm, g, m), g.rg.contains_key(NodeId::Inner(p)), 0 <= i <= im[p].size, g.pend == Some((im[p].cs()[i], right)),
        k.ord() == g.rg[right].lo,
        g1.rg == g.rg, g1.pend is None,
    ensures ({ let n = im[p]; let r = g.rg[NodeId::Inner(p)];
        ic(g1, n.ks().insert(i, k), n.cs().insert(i + 1, right), r.h, r.lo, r.hi) }),
        right is Inner ==> right->Inner_0 != p,
        g.rg.contains_key(right),
{
    reveal(ic);
    let n = im[p];
    let r = g.rg[NodeId::Inner(p)];
    assert(inner_ok(im, lm, g, p));
    let ks = n.ks().insert(i, k);
    let cs = n.cs().insert(i + 1, right);
    let c = n.cs()[i];
    assert(crange(g, c) == (R { h: r.h - 1, lo: bnd(n.ks(), r.lo, r.hi, i), hi: bnd(n.ks(), r.lo, r.hi, i + 1) }));
    assert forall|j: int| 0 <= j < ks.len() implies r.lo < (#[trigger] ks[j]).ord() && ks[j].ord() < r.hi by {
        if j < i { assert(ks[j] == n.ks()[j]); } else if j > i { assert(ks[j] == n.ks()[j - 1]); }
    }
    assert forall|a: int, b: int| 0 <= a < b < ks.len() implies (#[trigger] ks[a]).ord() < (#[trigger] ks[b]).ord() by {
        let na = if a < i { a } else { a - 1 };
        let nb = if b < i { b } else { b - 1 };
        if a != i { assert(ks[a] == n.ks()[na]); }
        if b != i { assert(ks[b] == n.ks()[nb]); }
        assert(g.rg.contains_key(c));
        assert(g.rg.contains_key(right));
        if a == i { if nb > i { assert(n.ks()[i].ord() < n.ks()[nb].ord()); } }
        if b == i { if na < i - 1 { assert(n.ks()[na].ord() < n.ks()[i - 1].ord()); } }
    }
    only_parent(im, lm, g, m, p, i);
    assert forall|j: int| 0 <= j < cs.len() implies g1.rg.contains_key(#[trigger] cs[j]) && crange(g1, cs[j]) == (R { h: r.h - 1, lo: bnd(ks, r.lo, r.hi, j), hi: bnd(ks, r.lo, r.hi, j + 1) }) by {
        if j <= i { assert(cs[j] == n.cs()[j]); }
        else if j > i + 1 { assert(cs[j] == n.cs()[j - 1]); assert(n.cs()[j - 1] != c); }
        if j < i { assert(n.cs()[j] != c); }
    }
}

/// a pending split is settled in its parent, which has room
pub proof fn step_insert<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, i: int, k: K, right: NodeId, n2: InnerNode<K, A>, g2: G)
    requires tree(im, lm, g, m), g.rg.contains_key(NodeId::Inner(p)), 0 <= i <= im[p].size, g.pend == Some((im[p].cs()[i], right)), g.dirty == Some(im[p].cs()[i]),
        k.ord() == g.rg[right].lo, g.under is None,
        n2.tail(), //[C12]
        n2.wf(), n2.size == im[p].size + 1, n2.ks() == im[p].ks().insert(i, k), n2.cs() == im[p].cs().insert(i + 1, right),
        n2.augs() == im[p].augs().update(i, aug_of(im, lm, im[p].cs()[i])).insert(i + 1, aug_of(im, lm, right)),
        g2 == (G { pend: None, dirty: Some(NodeId::Inner(p)), ..g }),
    ensures tree(im.insert(p, n2), lm, g2, m),
{
    let im2 = im.insert(p, n2);
    let n = im[p];
    only_parent(im, lm, g, m, p, i);
    ic_pend(im, lm, g, m, p, i, k, right, g2);
    assert(inner_ok(im, lm, g, p));
    let rp = g.rg[NodeId::Inner(p)];
    assert(crange(g, g.root) == g.rg[g.root]);
    assert(ranges_ok(g2));
    kids(im, lm, g, p);
    assert(af(im2, lm, g2, n2)) by {
        reveal(af);
        reveal(ic);
        assert forall|j: int| 0 <= j <= n2.size && g2.fresh implies g2.dirty == Some(n2.cs()[j]) || #[trigger] n2.augs()[j] == aug_of(im2, lm, n2.cs()[j]) by {
            let c = n2.cs()[j];
            assert(g2.rg.contains_key(n2.cs()[j]));
            assert(crange(g2, n2.cs()[j]).h == rp.h - 1);
            assert(c != NodeId::Inner(p));
            if j < i { assert(n2.augs()[j] == n.augs()[j]); assert(c == n.cs()[j]); assert(n.cs()[j] != n.cs()[i]); }
            else if j > i + 1 { assert(n2.augs()[j] == n.augs()[j - 1]); assert(c == n.cs()[j - 1]); assert(n.cs()[j - 1] != n.cs()[i]); }
        }
    }
    assert(inner_ok(im2, lm, g2, p));
    assert forall|q: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(q)) implies inner_ok(im2, lm, g2, q) by {
        if q != p {
            assert(inner_ok(im, lm, g, q));
            let nq = im[q];
            kids(im, lm, g, q);
            assert forall|j: int| 0 <= j <= nq.size implies same_child(im, lm, g, im2, lm, g2, #[trigger] nq.cs()[j]) by {
                assert(im[q].cs()[j] != n.cs()[i]);
            }
            other_inner(im, lm, g, q, im2, lm, g2);
        }
    }
    assert forall|q: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(q)) implies leaf_ok(lm, g2, m, q) by {
        assert(leaf_ok(lm, g, m, q));
        same_links_ok(g, g2, q, lm[q].prev, lm[q].next);
    }
}

/// a full inner node `p` takes the new half of its child `i` and is split itself
pub open spec fn inner_split<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, i: int, k: K, right: NodeId, q: InnerNodeId, n2: InnerNode<K, A>, r2: InnerNode<K, A>, mid: K, im2: IM<K, A>, g2: G) -> bool {
    let np = im[p];
    let r = g.rg[NodeId::Inner(p)];
    let ks = np.ks().insert(i, k);
    let cs = np.cs().insert(i + 1, right);
    let augs = np.augs().update(i, aug_of(im, lm, np.cs()[i])).insert(i + 1, aug_of(im, lm, right));
    let n = n2.size as int;
    &&& tree(im, lm, g, m) && g.rg.contains_key(NodeId::Inner(p)) && 0 <= i <= np.size && g.pend == Some((np.cs()[i], right)) && g.dirty == Some(np.cs()[i])
    &&& k.ord() == g.rg[right].lo && g.under is None
    &&& !im.contains_key(q)
    &&& n2.tail() && r2.tail() //[C12]
    &&& n2.wf() && r2.wf() && 1 <= n2.size && n2.size + 1 < ks.len() && r2.size == ks.len() - n2.size - 1
    &&& mid == ks[n]
    &&& n2.ks() == ks.take(n) && n2.cs() == cs.take(n + 1) && n2.augs() == augs.take(n + 1)
    &&& r2.ks() == ks.skip(n + 1) && r2.cs() == cs.skip(n + 1) && r2.augs() == augs.skip(n + 1)
    &&& g2 == (G { rg: g.rg.insert(NodeId::Inner(p), R { h: r.h, lo: r.lo, hi: mid.ord() }).insert(NodeId::Inner(q), R { h: r.h, lo: mid.ord(), hi: r.hi }),
            pend: Some((NodeId::Inner(p), NodeId::Inner(q))), dirty: Some(NodeId::Inner(p)), ..g })
    &&& im2 == im.insert(p, n2).insert(q, r2)
    &&& n2.size >= MIN_N && r2.size >= MIN_N
}
proof fn inner_split_facts<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, i: int, k: K, right: NodeId, q: InnerNodeId, n2: InnerNode<K, A>, r2: InnerNode<K, A>, mid: K, im2: IM<K, A>, g2: G, g1: G)
    requires inner_split(im, lm, g, m, p, i, k, right, q, n2, r2, mid, im2, g2), g1 == (G { pend: None, ..g }),
    ensures ({ let r = g.rg[NodeId::Inner(p)]; let ks = im[p].ks().insert(i, k); let cs = im[p].cs().insert(i + 1, right);
        &&& p != q && !g.rg.contains_key(NodeId::Inner(q)) && right != NodeId::Inner(p) && g.rg.contains_key(right)
        &&& r.h >= 1 && r.lo < mid.ord() < r.hi
        &&& ic(g1, ks, cs, r.h, r.lo, r.hi)
        &&& ic(g1, n2.ks(), n2.cs(), r.h, r.lo, mid.ord())
        &&& ic(g1, r2.ks(), r2.cs(), r.h, mid.ord(), r.hi)
        &&& g2.rg[NodeId::Inner(p)] == (R { h: r.h, lo: r.lo, hi: mid.ord() })
        &&& g2.rg[NodeId::Inner(q)] == (R { h: r.h, lo: mid.ord(), hi: r.hi })
        &&& g.rg[im[p].cs()[i]].h == r.h - 1 && g.rg[right].h == r.h - 1 && g.root != im[p].cs()[i]
        &&& forall|j: int| 0 <= j < cs.len() ==> g.rg.contains_key(#[trigger] cs[j]) && g.rg[cs[j]].h == r.h - 1
    }),
{
    let np = im[p];
    let r = g.rg[NodeId::Inner(p)];
    let ks = np.ks().insert(i, k);
    let cs = np.cs().insert(i + 1, right);
    assert(inner_ok(im, lm, g, p));
    kids(im, lm, g, p);
    only_parent(im, lm, g, m, p, i);
    ic_pend(im, lm, g, m, p, i, k, right, g1);
    ic_split(g1, ks, cs, r.h, r.lo, r.hi, n2.size as int);
    assert(!g.rg.contains_key(NodeId::Inner(q))) by { if g.rg.contains_key(NodeId::Inner(q)) { assert(inner_ok(im, lm, g, q)); } }
    assert forall|j: int| 0 <= j < cs.len() implies g.rg.contains_key(#[trigger] cs[j]) && g.rg[cs[j]].h == r.h - 1 by {
        reveal(ic);
        assert(crange(g1, cs[j]).h == r.h - 1);
    }
    assert(cs[i + 1] == right);
}
proof fn inner_split_ranges<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, i: int, k: K, right: NodeId, q: InnerNodeId, n2: InnerNode<K, A>, r2: InnerNode<K, A>, mid: K, im2: IM<K, A>, g2: G)
    requires inner_split(im, lm, g, m, p, i, k, right, q, n2, r2, mid, im2, g2),
    ensures ranges_ok(g2),
{
    inner_split_facts(im, lm, g, m, p, i, k, right, q, n2, r2, mid, im2, g2, G { pend: None, ..g });
    assert(crange(g, g.root) == g.rg[g.root]);
}
/// the two halves
proof fn inner_split_halves<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, i: int, k: K, right: NodeId, q: InnerNodeId, n2: InnerNode<K, A>, r2: InnerNode<K, A>, mid: K, im2: IM<K, A>, g2: G)
    requires inner_split(im, lm, g, m, p, i, k, right, q, n2, r2, mid, im2, g2),
    ensures inner_ok(im2, lm, g2, p), inner_ok(im2, lm, g2, q),
{
    let np = im[p];
    let r = g.rg[NodeId::Inner(p)];
    let ks = np.ks().insert(i, k);
    let cs = np.cs().insert(i + 1, right);
    let augs = np.augs().update(i, aug_of(im, lm, np.cs()[i])).insert(i + 1, aug_of(im, lm, right));
    let n = n2.size as int;
    let g1 = G { pend: None, ..g };
    inner_split_facts(im, lm, g, m, p, i, k, right, q, n2, r2, mid, im2, g2, g1);
    assert(inner_ok(im, lm, g, p));
    only_parent(im, lm, g, m, p, i);
    assert forall|j: int| 0 <= j < cs.len() implies g2.rg.contains_key(#[trigger] cs[j]) && crange(g2, cs[j]) == crange(g1, cs[j]) && aug_of(im2, lm, cs[j]) == aug_of(im, lm, cs[j]) by {}
    assert forall|j: int| 0 <= j < cs.len() && g.fresh implies #[trigger] augs[j] == aug_of(im2, lm, cs[j]) by {
        reveal(af);
        assert(g2.rg.contains_key(cs[j]));
        if j < i { assert(augs[j] == np.augs()[j]); assert(cs[j] == np.cs()[j]); assert(np.cs()[j] != np.cs()[i]); }
        else if j > i + 1 { assert(augs[j] == np.augs()[j - 1]); assert(cs[j] == np.cs()[j - 1]); assert(np.cs()[j - 1] != np.cs()[i]); }
    }
    assert(ic(g2, n2.ks(), n2.cs(), r.h, r.lo, mid.ord())) by {
        assert forall|j: int| 0 <= j < n2.cs().len() implies g2.rg.contains_key(#[trigger] n2.cs()[j]) && crange(g2, n2.cs()[j]) == crange(g1, n2.cs()[j]) by { assert(n2.cs()[j] == cs[j]); }
        ic_frame(g1, g2, n2.ks(), n2.cs(), r.h, r.lo, mid.ord());
    }
    assert(ic(g2, r2.ks(), r2.cs(), r.h, mid.ord(), r.hi)) by {
        assert forall|j: int| 0 <= j < r2.cs().len() implies g2.rg.contains_key(#[trigger] r2.cs()[j]) && crange(g2, r2.cs()[j]) == crange(g1, r2.cs()[j]) by { assert(r2.cs()[j] == cs[n + 1 + j]); }
        ic_frame(g1, g2, r2.ks(), r2.cs(), r.h, mid.ord(), r.hi);
    }
    assert(af(im2, lm, g2, n2)) by {
        reveal(af);
        assert forall|j: int| 0 <= j <= n2.size && g.fresh implies #[trigger] n2.augs()[j] == aug_of(im2, lm, n2.cs()[j]) by { assert(n2.augs()[j] == augs[j]); assert(n2.cs()[j] == cs[j]); }
    }
    assert(af(im2, lm, g2, r2)) by {
        reveal(af);
        assert forall|j: int| 0 <= j <= r2.size && g.fresh implies #[trigger] r2.augs()[j] == aug_of(im2, lm, r2.cs()[j]) by { assert(r2.augs()[j] == augs[n + 1 + j]); assert(r2.cs()[j] == cs[n + 1 + j]); }
    }
}
pub proof fn step_split_inner<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, p: InnerNodeId, i: int, k: K, right: NodeId, q: InnerNodeId, n2: InnerNode<K, A>, r2: InnerNode<K, A>, mid: K, im2: IM<K, A>, g2: G)
    requires inner_split(im, lm, g, m, p, i, k, right, q, n2, r2, mid, im2, g2),
    ensures tree(im2, lm, g2, m), g2.rg[NodeId::Inner(q)].lo == mid.ord(),
{
    inner_split_facts(im, lm, g, m, p, i, k, right, q, n2, r2, mid, im2, g2, G { pend: None, ..g });
    inner_split_ranges(im, lm, g, m, p, i, k, right, q, n2, r2, mid, im2, g2);
    inner_split_halves(im, lm, g, m, p, i, k, right, q, n2, r2, mid, im2, g2);
    only_parent(im, lm, g, m, p, i);
    assert forall|o: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(o)) implies inner_ok(im2, lm, g2, o) by {
        if o != p && o != q {
            assert(inner_ok(im, lm, g, o));
            kids(im, lm, g, o);
            assert forall|j: int| 0 <= j <= im[o].size implies same_child(im, lm, g, im2, lm, g2, #[trigger] im[o].cs()[j]) by {
                assert(im[o].cs()[j] != im[p].cs()[i]);
            }
            other_inner(im, lm, g, o, im2, lm, g2);
        }
    }
    assert forall|o: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(o)) implies leaf_ok(lm, g2, m, o) by {
        assert(leaf_ok(lm, g, m, o));
        get_links(g, o, lm[o].prev, lm[o].next);
        mk_links(g2, o, lm[o].prev, lm[o].next);
    }
}

/// the root was split: a new root above its halves
pub proof fn step_new_root<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, k: K, right: NodeId, q: InnerNodeId, n: InnerNode<K, A>, g2: G)
    requires tree(im, lm, g, m), g.pend == Some((g.root, right)), g.dirty == Some(g.root), k.ord() == g.rg[right].lo, g.under is None,
        !im.contains_key(q), n.tail(), //[C12]
        n.wf(), n.size == 1,
        n.ks() == seq![k], n.cs() == seq![g.root, right], n.augs() == seq![aug_of(im, lm, g.root), aug_of(im, lm, right)],
        g2 == (G { h: g.h + 1, root: NodeId::Inner(q), rg: g.rg.insert(NodeId::Inner(q), R { h: g.h + 1, lo: 0real, hi: 1real }), pend: None, dirty: None, ..g }),
    ensures tree(im.insert(q, n), lm, g2, m),
{
    let im2 = im.insert(q, n);
    assert(!g.rg.contains_key(NodeId::Inner(q))) by { if g.rg.contains_key(NodeId::Inner(q)) { assert(inner_ok(im, lm, g, q)); } }
    assert(ranges_ok(g2));
    assert(inner_ok(im2, lm, g2, q)) by {
        reveal(ic);
        reveal(af);
        assert(n.cs()[0] == g.root && n.cs()[1] == right);
        assert(n.augs()[0] == aug_of(im, lm, g.root) && n.augs()[1] == aug_of(im, lm, right));
    }
    assert forall|o: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(o)) implies inner_ok(im2, lm, g2, o) by {
        if o != q {
            assert(inner_ok(im, lm, g, o));
            kids(im, lm, g, o);
            assert forall|j: int| 0 <= j <= im[o].size implies same_child(im, lm, g, im2, lm, g2, #[trigger] im[o].cs()[j]) by {
                assert(im[o].cs()[j] != g.root);
            }
            other_inner(im, lm, g, o, im2, lm, g2);
        }
    }
    assert forall|o: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(o)) implies leaf_ok(lm, g2, m, o) by {
        assert(leaf_ok(lm, g, m, o));
        get_links(g, o, lm[o].prev, lm[o].next);
        mk_links(g2, o, lm[o].prev, lm[o].next);
    }
}
/// the root needs no refresh: it has no parent
pub proof fn step_root_clean<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, g2: G)
    requires tree(im, lm, g, m), g.pend is None, g.dirty == Some(g.root), g2 == (G { dirty: None, ..g }),
    ensures tree(im, lm, g2, m),
{
    assert(ranges_ok(g2));
    assert forall|o: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(o)) implies inner_ok(im, lm, g2, o) by {
        assert(inner_ok(im, lm, g, o));
        kids(im, lm, g, o);
        assert forall|j: int| 0 <= j <= im[o].size implies same_child(im, lm, g, im, lm, g2, #[trigger] im[o].cs()[j]) by {
            assert(im[o].cs()[j] != g.root);
        }
        other_inner(im, lm, g, o, im, lm, g2);
    }
    assert forall|o: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(o)) implies leaf_ok(lm, g2, m, o) by {
        assert(leaf_ok(lm, g, m, o));
        same_links_ok(g, g2, o, lm[o].prev, lm[o].next);
    }
}

/// every key range has its leaf
pub proof fn find_leaf<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, n: NodeId, x: real) -> (l: LeafNodeId)
    requires tree(im, lm, g, m), g.rg.contains_key(n), crange(g, n).lo <= x < crange(g, n).hi,
    ensures g.rg.contains_key(NodeId::Leaf(l)), g.rg[NodeId::Leaf(l)].lo <= x < g.rg[NodeId::Leaf(l)].hi,
    decreases g.rg[n].h,
{
    let n = if g.rg[n].lo <= x < g.rg[n].hi { n } else { (g.pend->0).1 };
    match n {
        NodeId::Leaf(l) => { l }
        NodeId::Inner(id) => {
            assert(inner_ok(im, lm, g, id));
            let i = find_child(g, im[id].ks(), im[id].cs(), g.rg[n].h, g.rg[n].lo, g.rg[n].hi, x, im[id].size as int);
            kids(im, lm, g, id);
            find_leaf(im, lm, g, m, im[id].cs()[i], x)
        }
    }
}
pub proof fn find_child<K: Key>(g: G, ks: Seq<K>, cs: Seq<NodeId>, h: int, lo: real, hi: real, x: real, top: int) -> (i: int)
    requires ic(g, ks, cs, h, lo, hi), 0 <= top <= ks.len(), lo <= x < bnd(ks, lo, hi, top + 1),
    ensures 0 <= i < cs.len(), crange(g, cs[i]).lo <= x < crange(g, cs[i]).hi,
    decreases top,
{
    reveal(ic);
    assert(crange(g, cs[top]).hi == bnd(ks, lo, hi, top + 1));
    if bnd(ks, lo, hi, top) <= x { top } else { find_child(g, ks, cs, h, lo, hi, x, top - 1) }
}
/// the nodes determine the entries
pub proof fn one_content<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, a: Map<real, (K, V)>, b: Map<real, (K, V)>)
    requires tree(im, lm, g, a), tree(im, lm, g, b),
    ensures a == b,
{
    assert forall|x: real| #![trigger a.contains_key(x)] #![trigger b.contains_key(x)] a.contains_key(x) == b.contains_key(x) && (a.contains_key(x) ==> a[x] == b[x]) by {
        if 0real < x && x < 1real {
            let l = find_leaf(im, lm, g, a, g.root, x);
            assert(leaf_ok(lm, g, a, l));
            assert(leaf_ok(lm, g, b, l));
            reveal(lc);
            let ks = lm[l].ks();
            assert(a.contains_key(x) ==> hask(ks, x));
            assert(b.contains_key(x) ==> hask(ks, x));
            if hask(ks, x) {
                let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == x;
                assert(a[ks[j].ord()] == (ks[j], lm[l].vs()[j]));
            }
        }
    }
    assert(a =~= b);
}
