//@ raw
// ======================= the keys of a tree, in order ===============================================

/// ks are the keys of m, in order
pub open spec fn lists<K: Key, V>(m: Map<real, (K, V)>, ks: Seq<K>) -> bool {
    &&& sorted(ks) && ks.len() == m.len()
    &&& forall|j: int| 0 <= j < ks.len() ==> m.contains_key((#[trigger] ks[j]).ord()) && m[ks[j].ord()].0 == ks[j]
    &&& forall|x: real| #[trigger] m.contains_key(x) ==> hask(ks, x)
}
pub open spec fn keys<K: Key, V>(m: Map<real, (K, V)>) -> Seq<K> { choose|ks: Seq<K>| lists(m, ks) }
pub open spec fn keyed<K: Key, V>(m: Map<real, (K, V)>) -> bool { forall|x: real| #[trigger] m.contains_key(x) ==> m[x].0.ord() == x }
proof fn has_max<K: Key, V>(m: Map<real, (K, V)>) -> (r: real)
    requires m.len() > 0,
    ensures is_max(m, r),
    decreases m.len(),
{
    let x = m.dom().choose();
    if forall|y: real| !m.dom().contains(y) { assert(m.dom() =~= Set::empty()); assert(false); }
    assert(m.dom().contains(x));
    let m2 = m.remove(x);
    if m2.len() == 0 {
        assert forall|y: real| #[trigger] m.contains_key(y) implies y <= x by { if y != x { assert(m2.contains_key(y)); assert(m2.dom() =~= Set::empty()); } }
        x
    } else {
        let r = has_max(m2);
        assert forall|y: real| #[trigger] m.contains_key(y) implies y <= (if x < r { r } else { x }) by { if y != x { assert(m2.contains_key(y)); } }
        assert(m.contains_key(r));
        if x < r { r } else { x }
    }
}
proof fn some_list<K: Key, V>(m: Map<real, (K, V)>) -> (ks: Seq<K>)
    requires keyed(m),
    ensures lists(m, ks),
    decreases m.len(),
{
    if m.len() == 0 {
        assert(m =~= Map::empty());
        Seq::empty()
    } else {
        let x = has_max(m);
        let m2 = m.remove(x);
        let k2 = some_list(m2);
        let ks = k2.push(m[x].0);
        assert forall|j: int| 0 <= j < ks.len() implies m.contains_key((#[trigger] ks[j]).ord()) && m[ks[j].ord()].0 == ks[j] by { if j < k2.len() { assert(ks[j] == k2[j]); assert(m2.contains_key(k2[j].ord())); } }
        assert forall|i: int, j: int| 0 <= i < j < ks.len() implies (#[trigger] ks[i]).ord() < (#[trigger] ks[j]).ord() by {
            assert(ks[i] == k2[i]);
            assert(m2.contains_key(k2[i].ord()));
            if j < k2.len() { assert(ks[j] == k2[j]); }
        }
        assert forall|y: real| #[trigger] m.contains_key(y) implies hask(ks, y) by {
            if y == x { assert(ks[k2.len() as int].ord() == x); }
            else { assert(m2.contains_key(y)); let j = choose|j: int| 0 <= j < k2.len() && (#[trigger] k2[j]).ord() == y; assert(ks[j] == k2[j]); }
        }
        ks
    }
}
pub proof fn listed<K: Key, V>(m: Map<real, (K, V)>)
    requires keyed(m),
    ensures lists(m, keys(m)),
{
    let ks = some_list(m);
}
/// two listings of the same keys are the same
proof fn same_list<K: Key>(a: Seq<K>, b: Seq<K>)
    requires sorted(a), sorted(b), forall|j: int| 0 <= j < a.len() ==> b.contains(#[trigger] a[j]), forall|j: int| 0 <= j < b.len() ==> a.contains(#[trigger] b[j]),
    ensures a == b,
    decreases a.len(),
{
    if a.len() == 0 { if b.len() > 0 { assert(a.contains(b[0])); } assert(a =~= b); }
    else if b.len() == 0 { assert(b.contains(a[0])); }
    else {
        let (a2, b2) = (a.drop_last(), b.drop_last());
        let i = choose|i: int| 0 <= i < b.len() && b[i] == a.last();
        assert(b.contains(a[a.len() - 1]));
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b.last();
        assert(a.contains(b[b.len() - 1]));
        if i != b.len() - 1 { assert(b[i].ord() < b[b.len() - 1].ord()); if j < a.len() - 1 { assert(a[j].ord() < a[a.len() - 1].ord()); } assert(false); }
        assert(a.last() == b.last());
        assert forall|p: int| 0 <= p < a2.len() implies b2.contains(#[trigger] a2[p]) by {
            assert(b.contains(a[p]));
            let q = choose|q: int| 0 <= q < b.len() && b[q] == a[p];
            assert(a[p].ord() < a[a.len() - 1].ord());
            assert(q < b.len() - 1);
            assert(b2[q] == a2[p]);
        }
        assert forall|p: int| 0 <= p < b2.len() implies a2.contains(#[trigger] b2[p]) by {
            assert(a.contains(b[p]));
            let q = choose|q: int| 0 <= q < a.len() && a[q] == b[p];
            assert(b[p].ord() < b[b.len() - 1].ord());
            assert(q < a.len() - 1);
            assert(a2[q] == b2[p]);
        }
        same_list(a2, b2);
        assert(a =~= a2.push(a.last()));
        assert(b =~= b2.push(b.last()));
    }
}
proof fn some_pos<K: Key>(ks: Seq<K>, x: real, n: int) -> (i: int)
    requires sorted(ks), 0 <= n <= ks.len(), forall|j: int| n <= j < ks.len() ==> (#[trigger] ks[j]).ord() >= x,
    ensures is_pos(ks, x, i),
    decreases n,
{
    if n == 0 { 0 }
    else if ks[n - 1].ord() < x {
        assert forall|j: int| 0 <= j < n implies (#[trigger] ks[j]).ord() < x by { if j < n - 1 { assert(ks[j].ord() < ks[n - 1].ord()); } }
        n
    }
    else { some_pos(ks, x, n - 1) }
}
/// how many keys are smaller
pub proof fn has_pos<K: Key>(ks: Seq<K>, x: real)
    requires sorted(ks),
    ensures is_pos(ks, x, pos(ks, x)), 0 <= pos(ks, x) <= ks.len(),
{
    let i = some_pos(ks, x, ks.len() as int);
}
pub proof fn pos_mono<K: Key>(ks: Seq<K>, x: real, y: real)
    requires sorted(ks), x <= y,
    ensures 0 <= pos(ks, x) <= pos(ks, y) <= ks.len(),
{
    has_pos(ks, x);
    has_pos(ks, y);
    if pos(ks, y) < pos(ks, x) { let k = ks[pos(ks, y)]; }
}
/// the keys in [lo, hi)
pub open spec fn within<K: Key>(ks: Seq<K>, lo: real, hi: real) -> Seq<K> { ks.subrange(pos(ks, lo), pos(ks, hi)) }
/// the keys of a leaf
proof fn leaf_within<K: Key, V>(lm: LM<K, V>, g: G, m: Map<real, (K, V)>, all: Seq<K>, id: LeafNodeId)
    requires leaf_ok(lm, g, m, id), lists(m, all), g.rg[NodeId::Leaf(id)].lo <= g.rg[NodeId::Leaf(id)].hi,
    ensures lm[id].ks() == within(all, g.rg[NodeId::Leaf(id)].lo, g.rg[NodeId::Leaf(id)].hi),
{
    reveal(lc);
    let (lo, hi) = (g.rg[NodeId::Leaf(id)].lo, g.rg[NodeId::Leaf(id)].hi);
    let ks = lm[id].ks();
    has_pos(all, lo);
    has_pos(all, hi);
    pos_mono(all, lo, hi);
    let w = within(all, lo, hi);
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).ord() < (#[trigger] w[j]).ord() by { assert(w[i] == all[pos(all, lo) + i] && w[j] == all[pos(all, lo) + j]); }
    assert forall|j: int| 0 <= j < ks.len() implies w.contains(#[trigger] ks[j]) by {
        let x = ks[j].ord();
        assert(m.contains_key(x) && m[x].0 == ks[j]);
        let p = choose|p: int| 0 <= p < all.len() && (#[trigger] all[p]).ord() == x;
        assert(all[p] == ks[j]);
        if p < pos(all, lo) { assert(all[p].ord() < lo); }
        if p >= pos(all, hi) { assert(all[p].ord() >= hi); }
        assert(w[p - pos(all, lo)] == ks[j]);
    }
    assert forall|j: int| 0 <= j < w.len() implies ks.contains(#[trigger] w[j]) by {
        let k = all[pos(all, lo) + j];
        assert(w[j] == k);
        assert(m.contains_key(k.ord()) && m[k.ord()].0 == k);
        let p = choose|p: int| 0 <= p < ks.len() && (#[trigger] ks[p]).ord() == k.ord();
        assert(ks[p] == k);
    }
    same_list(ks, w);
}
/// where the children of a node begin among its keys
pub open spec fn child_cuts<K: Key, A>(all: Seq<K>, n: InnerNode<K, A>, r: R) -> Seq<int> {
    Seq::new((n.size + 2) as nat, |i: int| pos(all, bnd(n.ks(), r.lo, r.hi, i)) - pos(all, r.lo))
}
/// every node: what its augmentation says, and that it has keys unless it is the root
proof fn node_says<K: Key, V, A: SeqAug<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, all: Seq<K>, n: NodeId)
    requires tree(im, lm, g, m), settled(g), g.fresh, lists(m, all), all.len() <= usize::MAX, g.rg.contains_key(n),
    ensures aug_of(im, lm, n).says(within(all, g.rg[n].lo, g.rg[n].hi)), n is Inner || n != g.root ==> pos(all, g.rg[n].lo) < pos(all, g.rg[n].hi),
        n is Inner ==> cuts::<K, V, A>(im[n->Inner_0].augs(), within(all, g.rg[n].lo, g.rg[n].hi), child_cuts(all, im[n->Inner_0], g.rg[n])),
    decreases g.rg[n].h,
{
    let r = g.rg[n];
    let w = within(all, r.lo, r.hi);
    has_pos(all, r.lo);
    has_pos(all, r.hi);
    pos_mono(all, r.lo, r.hi);
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).ord() < (#[trigger] w[j]).ord() by { assert(w[i] == all[pos(all, r.lo) + i] && w[j] == all[pos(all, r.lo) + j]); }
    match n {
        NodeId::Leaf(id) => {
            assert(leaf_ok(lm, g, m, id));
            leaf_within(lm, g, m, all, id);
            A::says_leaf(lm[id].ks(), lm[id].vs());
        }
        NodeId::Inner(id) => {
            assert(inner_ok(im, lm, g, id));
            let c = child_cuts(all, im[id], r);
            let node = im[id];
            kids(im, lm, g, id);
            assert forall|i: int| 0 <= i < node.augs().len() implies #[trigger] part::<K, V, A>(node.augs(), w, c, i) by {
                child_range(im, lm, g, m, id, i, 0real);
                let q = node.cs()[i];
                only_parent(im, lm, g, m, id, i);
                node_says(im, lm, g, m, all, q);
                let rq = g.rg[q];
                assert(r.lo <= rq.lo && rq.hi <= r.hi) by { reveal(ic); }
                pos_mono(all, r.lo, rq.lo);
                pos_mono(all, rq.hi, r.hi);
                assert(node.augs()[i] == aug_of(im, lm, q)) by { reveal(af); }
                assert(c[i] == pos(all, rq.lo) - pos(all, r.lo));
                assert(c[i + 1] == pos(all, rq.hi) - pos(all, r.lo));
                assert(w.subrange(c[i], c[i + 1]) =~= within(all, rq.lo, rq.hi));
            }
            assert(c[0] == 0);
            assert(c[node.augs().len() as int] == w.len());
            assert(cuts::<K, V, A>(node.augs(), w, c));
            A::says_inner(node.ks(), node.augs(), w, c);
            assert(part::<K, V, A>(node.augs(), w, c, 0));
        }
    }
}
