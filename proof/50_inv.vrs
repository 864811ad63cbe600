//@ raw
// ======================= what a well-formed tree is =================================================

/// The half-open range of keys a node covers, and its height (0 = leaf).
pub struct R { pub h: int, pub lo: real, pub hi: real }
/// Ghost state of a tree. `pend`: a node just split whose new right half has no parent yet. `dirty`:
/// a node whose augmentation is not yet refreshed in its parent.  `under`: a node that may hold too few keys. `fresh`: all augmentations are up to date.
/// `strict`: the tree was built by insertion, so that every node but the root is at least a quarter full (see `full`).
pub struct G {
    pub h: int, pub root: NodeId, pub rg: Map<NodeId, R>,
    pub pend: Option<(NodeId, NodeId)>, pub dirty: Option<NodeId>, pub under: Option<NodeId>,
    pub fresh: bool, pub strict: bool,
}
pub open spec fn crange(g: G, n: NodeId) -> R {
    if g.pend is Some && (g.pend->0).0 == n { R { h: g.rg[n].h, lo: g.rg[n].lo, hi: g.rg[(g.pend->0).1].hi } } else { g.rg[n] }
}
pub open spec fn bnd<K: Key>(ks: Seq<K>, lo: real, hi: real, i: int) -> real {
    if i <= 0 { lo } else if i > ks.len() { hi } else { ks[i - 1].ord() }
}
/// the keys and children of an inner node of height h that covers [lo, hi)
#[verifier::opaque]
pub open spec fn ic<K: Key>(g: G, ks: Seq<K>, cs: Seq<NodeId>, h: int, lo: real, hi: real) -> bool {
    &&& cs.len() == ks.len() + 1
    &&& sorted(ks)
    &&& forall|j: int| 0 <= j < ks.len() ==> lo < (#[trigger] ks[j]).ord() && ks[j].ord() < hi
    &&& forall|i: int| 0 <= i < cs.len() ==> g.rg.contains_key(#[trigger] cs[i]) && crange(g, cs[i]) == (R { h: h - 1, lo: bnd(ks, lo, hi, i), hi: bnd(ks, lo, hi, i + 1) })
}
/// the entries of a leaf that covers [lo, hi): exactly the entries of m in that range
#[verifier::opaque]
pub open spec fn lc<K: Key, V>(m: Map<real, (K, V)>, ks: Seq<K>, vs: Seq<V>, lo: real, hi: real) -> bool {
    &&& ks.len() == vs.len()
    &&& sorted(ks)
    &&& forall|j: int| 0 <= j < ks.len() ==> lo <= (#[trigger] ks[j]).ord() && ks[j].ord() < hi && m.contains_key(ks[j].ord()) && m[ks[j].ord()] == (ks[j], vs[j])
    &&& forall|x: real| #[trigger] m.contains_key(x) && lo <= x < hi ==> hask(ks, x)
}
pub open spec fn aug_of<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, n: NodeId) -> A {
    match n {
        NodeId::Inner(i) => A::inner_spec(im[i].ks(), im[i].augs()),
        NodeId::Leaf(l) => A::leaf_spec(lm[l].ks(), lm[l].vs()),
    }
}
#[verifier::opaque]
pub open spec fn af<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, n: InnerNode<K, A>) -> bool {
    g.fresh ==> forall|i: int| 0 <= i <= n.size ==> g.dirty == Some(n.cs()[i]) || #[trigger] n.augs()[i] == aug_of(im, lm, n.cs()[i])
}
/// whether a node has (or is about to get) a parent
pub open spec fn nonroot(g: G, n: NodeId) -> bool { g.root != n || (g.pend is Some && (g.pend->0).0 == n) }
/// A bulk load may leave the last node of a layer with few keys; all others are at least a quarter full.
pub open spec fn full(g: G, n: NodeId) -> bool { g.strict || g.rg[n].hi != 1real }
pub open spec fn min_fill(g: G, n: NodeId, size: u16, min: int) -> bool {
    &&& g.under != Some(n) && (n is Inner || nonroot(g, n)) ==> size >= 1
    &&& full(g, n) && g.under != Some(n) && nonroot(g, n) ==> size >= min
    &&& full(g, n) && g.under == Some(n) && nonroot(g, n) ==> size + 1 >= min
}
pub open spec fn inner_ok<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, id: InnerNodeId) -> bool {
    let n = im[id];
    let r = g.rg[NodeId::Inner(id)];
    &&& im.contains_key(id)
    &&& n.wf()
    &&& n.tail() //[C12]
    &&& r.h >= 1
    &&& ic(g, n.ks(), n.cs(), r.h, r.lo, r.hi)
    &&& af(im, lm, g, n)
    &&& min_fill(g, NodeId::Inner(id), n.size, MIN_N as int) //[C11]
}
/// the links to the leaves on both sides
#[verifier::opaque]
pub open spec fn links(g: G, id: LeafNodeId, prev: Option<LeafNodeId>, next: Option<LeafNodeId>) -> bool {
    let r = g.rg[NodeId::Leaf(id)];
    &&& (prev is None) == (r.lo == 0real)
    &&& (next is None) == (r.hi == 1real)
    &&& prev is Some ==> g.rg.contains_key(NodeId::Leaf(prev->0)) && g.rg[NodeId::Leaf(prev->0)].hi == r.lo
    &&& next is Some ==> g.rg.contains_key(NodeId::Leaf(next->0)) && g.rg[NodeId::Leaf(next->0)].lo == r.hi
}
/// unfolds `links` for one leaf
pub proof fn get_links(g: G, id: LeafNodeId, prev: Option<LeafNodeId>, next: Option<LeafNodeId>)
    requires links(g, id, prev, next),
    ensures
        (prev is None) == (g.rg[NodeId::Leaf(id)].lo == 0real), (next is None) == (g.rg[NodeId::Leaf(id)].hi == 1real),
        prev is Some ==> g.rg.contains_key(NodeId::Leaf(prev->0)) && g.rg[NodeId::Leaf(prev->0)].hi == g.rg[NodeId::Leaf(id)].lo,
        next is Some ==> g.rg.contains_key(NodeId::Leaf(next->0)) && g.rg[NodeId::Leaf(next->0)].lo == g.rg[NodeId::Leaf(id)].hi,
{
    reveal(links);
}
/// folds `links` for one leaf
pub proof fn mk_links(g: G, id: LeafNodeId, prev: Option<LeafNodeId>, next: Option<LeafNodeId>)
    requires
        (prev is None) == (g.rg[NodeId::Leaf(id)].lo == 0real), (next is None) == (g.rg[NodeId::Leaf(id)].hi == 1real),
        prev is Some ==> g.rg.contains_key(NodeId::Leaf(prev->0)) && g.rg[NodeId::Leaf(prev->0)].hi == g.rg[NodeId::Leaf(id)].lo,
        next is Some ==> g.rg.contains_key(NodeId::Leaf(next->0)) && g.rg[NodeId::Leaf(next->0)].lo == g.rg[NodeId::Leaf(id)].hi,
    ensures links(g, id, prev, next),
{
    reveal(links);
}
/// the ranges did not change
pub proof fn same_links_ok(g: G, g2: G, id: LeafNodeId, prev: Option<LeafNodeId>, next: Option<LeafNodeId>)
    requires links(g, id, prev, next), g2.rg == g.rg,
    ensures links(g2, id, prev, next),
{
    reveal(links);
}
pub open spec fn leaf_ok<K: Key, V>(lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: LeafNodeId) -> bool {
    let n = lm[id];
    let r = g.rg[NodeId::Leaf(id)];
    &&& lm.contains_key(id)
    &&& n.wf()
    &&& n.tail() //[C12]
    &&& r.h == 0
    &&& lc(m, n.ks(), n.vs(), r.lo, r.hi)
    &&& min_fill(g, NodeId::Leaf(id), n.size, (LEAF_N / 4) as int) //[C11]
    &&& links(g, id, n.prev, n.next)
}
pub open spec fn disjoint(a: R, b: R) -> bool { a.hi <= b.lo || b.hi <= a.lo }
pub open spec fn ranges_ok(g: G) -> bool {
    &&& forall|n: NodeId| #[trigger] g.rg.contains_key(n) ==> 0real <= g.rg[n].lo && g.rg[n].lo < g.rg[n].hi && g.rg[n].hi <= 1real && 0 <= g.rg[n].h <= g.h && ((n is Leaf) == (g.rg[n].h == 0))
    &&& forall|a: NodeId, b: NodeId| #[trigger] g.rg.contains_key(a) && #[trigger] g.rg.contains_key(b) && a != b && g.rg[a].h == g.rg[b].h ==> disjoint(g.rg[a], g.rg[b])
    &&& g.rg.contains_key(g.root) && crange(g, g.root) == (R { h: g.h, lo: 0real, hi: 1real })
    &&& g.pend is Some ==> ({ let (l, r) = g.pend->0; g.rg.contains_key(l) && g.rg.contains_key(r) && g.rg[l].hi == g.rg[r].lo && g.rg[l].h == g.rg[r].h && l != r })
}
/// The nodes im, lm with the ghost state g form a tree that holds exactly the entries m.
pub open spec fn tree<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>) -> bool {
    &&& ranges_ok(g)
    &&& forall|id: InnerNodeId| #[trigger] g.rg.contains_key(NodeId::Inner(id)) ==> inner_ok(im, lm, g, id)
    &&& forall|id: LeafNodeId| #[trigger] g.rg.contains_key(NodeId::Leaf(id)) ==> leaf_ok(lm, g, m, id)
    &&& forall|id: LeafNodeId| #[trigger] lm.contains_key(id) ==> g.rg.contains_key(NodeId::Leaf(id))
    &&& forall|id: InnerNodeId| #[trigger] im.contains_key(id) ==> im[id].wf() && im[id].tail()
    &&& forall|x: real| #[trigger] m.contains_key(x) ==> 0real < x && x < 1real
}

// ======================= sequences of entries =======================================================

pub open spec fn agree<K: Key, V>(m: Map<real, (K, V)>, m2: Map<real, (K, V)>, lo: real, hi: real) -> bool {
    forall|x: real| #![trigger m.contains_key(x)] #![trigger m2.contains_key(x)] lo <= x < hi ==> m.contains_key(x) == m2.contains_key(x) && (m.contains_key(x) ==> m[x] == m2[x])
}
pub proof fn lc_frame<K: Key, V>(m: Map<real, (K, V)>, m2: Map<real, (K, V)>, ks: Seq<K>, vs: Seq<V>, lo: real, hi: real)
    requires lc(m, ks, vs, lo, hi), agree(m, m2, lo, hi),
    ensures lc(m2, ks, vs, lo, hi),
{
    reveal(lc);
}
pub proof fn lc_insert<K: Key, V>(m: Map<real, (K, V)>, ks: Seq<K>, vs: Seq<V>, lo: real, hi: real, k: K, v: V, p: int)
    requires lc(m, ks, vs, lo, hi), is_pos(ks, k.ord(), p), !hask(ks, k.ord()), lo <= k.ord() < hi,
    ensures lc(m.insert(k.ord(), (k, v)), ks.insert(p, k), vs.insert(p, v), lo, hi), !m.contains_key(k.ord()),
{
    reveal(lc);
    let ks2 = ks.insert(p, k);
    let m2 = m.insert(k.ord(), (k, v));
    assert(ks2[p] == k);
    assert forall|j: int| p <= j < ks.len() implies (#[trigger] ks[j]).ord() > k.ord() by {}
    assert forall|x: real| #[trigger] m2.contains_key(x) && lo <= x < hi implies hask(ks2, x) by {
        if x != k.ord() {
            assert(m.contains_key(x));
            let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == x;
            if j < p { assert(ks2[j] == ks[j]); } else { assert(ks2[j + 1] == ks[j]); }
        }
    }
}
pub proof fn lc_update<K: Key, V>(m: Map<real, (K, V)>, ks: Seq<K>, vs: Seq<V>, lo: real, hi: real, p: int, v: V)
    requires lc(m, ks, vs, lo, hi), 0 <= p < ks.len(),
    ensures lc(m.insert(ks[p].ord(), (ks[p], v)), ks, vs.update(p, v), lo, hi), m.contains_key(ks[p].ord()), m[ks[p].ord()] == (ks[p], vs[p]),
        lo <= ks[p].ord() < hi,
{
    reveal(lc);
    let m2 = m.insert(ks[p].ord(), (ks[p], v));
    assert forall|x: real| #[trigger] m2.contains_key(x) && lo <= x < hi implies hask(ks, x) by { assert(m.contains_key(x)); }
}
pub proof fn lc_remove<K: Key, V>(m: Map<real, (K, V)>, ks: Seq<K>, vs: Seq<V>, lo: real, hi: real, p: int)
    requires lc(m, ks, vs, lo, hi), 0 <= p < ks.len(),
    ensures lc(m.remove(ks[p].ord()), ks.remove(p), vs.remove(p), lo, hi), m.contains_key(ks[p].ord()), m[ks[p].ord()] == (ks[p], vs[p]),
        lo <= ks[p].ord() < hi,
{
    reveal(lc);
    let ks2 = ks.remove(p);
    let m2 = m.remove(ks[p].ord());
    assert forall|x: real| #[trigger] m2.contains_key(x) && lo <= x < hi implies hask(ks2, x) by {
        assert(m.contains_key(x));
        let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == x;
        if j < p { assert(ks2[j] == ks[j]); } else { assert(ks2[j - 1] == ks[j]); }
    }
}
pub proof fn lc_split<K: Key, V>(m: Map<real, (K, V)>, ks: Seq<K>, vs: Seq<V>, lo: real, hi: real, n: int)
    requires lc(m, ks, vs, lo, hi), 0 < n < ks.len(),
    ensures lc(m, ks.take(n), vs.take(n), lo, ks[n].ord()), lc(m, ks.skip(n), vs.skip(n), ks[n].ord(), hi), lo < ks[n].ord(), ks[n].ord() < hi,
{
    reveal(lc);
    let mid = ks[n].ord();
    assert(ks[0].ord() < mid);
    assert forall|x: real| #[trigger] m.contains_key(x) && lo <= x < mid implies hask(ks.take(n), x) by {
        let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == x;
        assert(j < n);
        assert(ks.take(n)[j] == ks[j]);
    }
    assert forall|x: real| #[trigger] m.contains_key(x) && mid <= x < hi implies hask(ks.skip(n), x) by {
        let j = choose|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == x;
        assert(j >= n);
        assert(ks.skip(n)[j - n] == ks[j]);
    }
}
pub proof fn lc_join<K: Key, V>(m: Map<real, (K, V)>, ka: Seq<K>, va: Seq<V>, kb: Seq<K>, vb: Seq<V>, lo: real, mid: real, hi: real)
    requires lc(m, ka, va, lo, mid), lc(m, kb, vb, mid, hi), lo <= mid <= hi,
    ensures lc(m, ka + kb, va + vb, lo, hi),
{
    reveal(lc);
    let ks = ka + kb;
    assert forall|x: real| #[trigger] m.contains_key(x) && lo <= x < hi implies hask(ks, x) by {
        if x < mid {
            let j = choose|j: int| 0 <= j < ka.len() && (#[trigger] ka[j]).ord() == x;
            assert(ks[j] == ka[j]);
        } else {
            let j = choose|j: int| 0 <= j < kb.len() && (#[trigger] kb[j]).ord() == x;
            assert(ks[ka.len() + j] == kb[j]);
        }
    }
}

// ======================= sequences of children ======================================================

pub proof fn ic_frame<K: Key>(g: G, g2: G, ks: Seq<K>, cs: Seq<NodeId>, h: int, lo: real, hi: real)
    requires ic(g, ks, cs, h, lo, hi), forall|i: int| 0 <= i < cs.len() ==> g2.rg.contains_key(#[trigger] cs[i]) && crange(g2, cs[i]) == crange(g, cs[i]),
    ensures ic(g2, ks, cs, h, lo, hi),
{
    reveal(ic);
}
pub proof fn ic_split<K: Key>(g: G, ks: Seq<K>, cs: Seq<NodeId>, h: int, lo: real, hi: real, n: int)
    requires ic(g, ks, cs, h, lo, hi), 0 <= n < ks.len(),
    ensures ic(g, ks.take(n), cs.take(n + 1), h, lo, ks[n].ord()), ic(g, ks.skip(n + 1), cs.skip(n + 1), h, ks[n].ord(), hi),
        lo < ks[n].ord() < hi,
{
    reveal(ic);
    let mid = ks[n].ord();
    assert forall|i: int| 0 <= i < n + 1 implies bnd(ks.take(n), lo, mid, i) == bnd(ks, lo, hi, i) && #[trigger] bnd(ks.take(n), lo, mid, i + 1) == bnd(ks, lo, hi, i + 1) by {}
    let c2 = cs.skip(n + 1);
    let k2 = ks.skip(n + 1);
    assert forall|i: int| 0 <= i < c2.len() implies g.rg.contains_key(#[trigger] c2[i]) && crange(g, c2[i]) == (R { h: h - 1, lo: bnd(k2, mid, hi, i), hi: bnd(k2, mid, hi, i + 1) }) by {
        assert(c2[i] == cs[n + 1 + i]);
    }
    let c1 = cs.take(n + 1);
    assert forall|i: int| 0 <= i < c1.len() implies g.rg.contains_key(#[trigger] c1[i]) && crange(g, c1[i]) == (R { h: h - 1, lo: bnd(ks.take(n), lo, mid, i), hi: bnd(ks.take(n), lo, mid, i + 1) }) by {
        assert(c1[i] == cs[i]);
    }
}
pub proof fn ic_join<K: Key>(g: G, ka: Seq<K>, ca: Seq<NodeId>, k: K, kb: Seq<K>, cb: Seq<NodeId>, h: int, lo: real, hi: real)
    requires ic(g, ka, ca, h, lo, k.ord()), ic(g, kb, cb, h, k.ord(), hi), lo < k.ord() < hi,
    ensures ic(g, ka.push(k) + kb, ca + cb, h, lo, hi),
{
    reveal(ic);
    let ks = ka.push(k) + kb;
    let cs = ca + cb;
    let n = ka.len() as int;
    assert forall|i: int| 0 <= i < cs.len() implies g.rg.contains_key(#[trigger] cs[i]) && crange(g, cs[i]) == (R { h: h - 1, lo: bnd(ks, lo, hi, i), hi: bnd(ks, lo, hi, i + 1) }) by {
        if i <= n { assert(cs[i] == ca[i]); } else { assert(cs[i] == cb[i - n - 1]); }
    }
}
