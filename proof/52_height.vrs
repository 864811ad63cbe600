//@ raw
// ======================= how high a tree can get ====================================================

/// the least number of entries below a node of height h that is not the last of its layer
pub open spec fn cap(h: int) -> int
    decreases h,
{
    if h <= 0 { LEAF_N as int / 4 } else { (MIN_N + 1) * cap(h - 1) }
}
proof fn cap_mono(a: int, b: int)
    requires 0 <= a <= b,
    ensures cap(a) <= cap(b), 0 < cap(a),
    decreases b,
{
    if a < b { cap_mono(a, b - 1); assert(cap(b - 1) <= (MIN_N + 1) * cap(b - 1)) by (nonlinear_arith) requires cap(b - 1) > 0, MIN_N >= 0; }
    else if a > 0 { cap_mono(a - 1, b - 1); assert((MIN_N + 1) * cap(a - 1) > 0) by (nonlinear_arith) requires cap(a - 1) > 0, MIN_N >= 0; }
}
proof fn rng_len<K: Key, V>(m: Map<real, (K, V)>, lo: real, mid: real, hi: real)
    requires lo <= mid <= hi,
    ensures rng(m, lo, hi).len() == rng(m, lo, mid).len() + rng(m, mid, hi).len(), rng(m, lo, lo).len() == 0, rng(m, lo, hi).len() <= m.len(),
{
    let a = rng(m, lo, mid).dom();
    let b = rng(m, mid, hi).dom();
    assert(rng(m, lo, hi).dom() =~= a + b);
    vstd::set_lib::lemma_set_disjoint_lens(a, b);
    assert(rng(m, lo, lo).dom() =~= Set::empty());
    vstd::set_lib::lemma_len_subset(rng(m, lo, hi).dom(), m.dom());
}
proof fn leaf_len<K: Key, V>(m: Map<real, (K, V)>, ks: Seq<K>, vs: Seq<V>, lo: real, hi: real, n: int)
    requires lc(m, ks, vs, lo, hi), 0 <= n <= ks.len(), lo <= hi,
    ensures ({ let b = if n < ks.len() { ks[n].ord() } else { hi }; lo <= b <= hi && rng(m, lo, b).len() >= n }),
    decreases n,
{
    reveal(lc);
    let b = if n < ks.len() { ks[n].ord() } else { hi };
    if n > 0 {
        leaf_len(m, ks, vs, lo, hi, n - 1);
        let x = ks[n - 1].ord();
        rng_len(m, lo, x, b);
        let r = rng(m, x, b);
        assert(r.dom().contains(x));
        if r.dom().len() == 0 { assert(r.dom() =~= Set::empty()); }
    } 
}
/// every node but the root and the last of its layer has many entries below it
proof fn below_len<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, n: NodeId)
    requires tree(im, lm, g, m), settled(g), g.rg.contains_key(n), n != g.root, full(g, n),
    ensures rng(m, g.rg[n].lo, g.rg[n].hi).len() >= cap(g.rg[n].h),
    decreases g.rg[n].h, 0int,
{
    let r = g.rg[n];
    match n {
        NodeId::Leaf(id) => {
            assert(leaf_ok(lm, g, m, id));
            leaf_len(m, lm[id].ks(), lm[id].vs(), r.lo, r.hi, lm[id].size as int);
        }
        NodeId::Inner(id) => {
            assert(inner_ok(im, lm, g, id));
            let k = im[id].size + 1;
            kids_len(im, lm, g, m, id, k);
            let c = cap(r.h - 1);
            cap_mono(r.h - 1, r.h - 1);
            assert(k * c >= (MIN_N + 1) * c) by (nonlinear_arith) requires k >= MIN_N + 1, c > 0;
        }
    }
}
/// the entries below the first k children
proof fn kids_len<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, id: InnerNodeId, k: int)
    requires tree(im, lm, g, m), settled(g), g.rg.contains_key(NodeId::Inner(id)), 0 <= k <= im[id].size + 1,
        full(g, NodeId::Inner(id)) || k <= im[id].size,
    ensures ({ let r = g.rg[NodeId::Inner(id)]; let b = bnd(im[id].ks(), r.lo, r.hi, k); r.h >= 1 && r.lo <= b <= r.hi && rng(m, r.lo, b).len() >= k * cap(r.h - 1) }),
    decreases g.rg[NodeId::Inner(id)].h - 1, k + 1,
{
    let r = g.rg[NodeId::Inner(id)];
    let ks = im[id].ks();
    assert(inner_ok(im, lm, g, id));
    let b = bnd(ks, r.lo, r.hi, k);
    if k > 0 {
        let a = bnd(ks, r.lo, r.hi, k - 1);
        let c = im[id].cs()[k - 1];
        kids_len(im, lm, g, m, id, k - 1);
        kids(im, lm, g, id);
        only_parent(im, lm, g, m, id, k - 1);
        assert(g.rg[c].lo == a && g.rg[c].hi == b && b <= r.hi && a < b && (k <= im[id].size ==> b < r.hi)) by { reveal(ic); assert(crange(g, c).h == r.h - 1); }
        below_len(im, lm, g, m, c);
        rng_len(m, r.lo, a, b);
        assert((k - 1) * cap(r.h - 1) + cap(r.h - 1) == k * cap(r.h - 1)) by (nonlinear_arith);
    } else {
        assert(0 * cap(r.h - 1) == 0) by (nonlinear_arith);
    }
}
/// the height that no tree exceeds
pub open spec fn max_h() -> int { 15 }
/// a tree whose entries an usize can count is not high
pub proof fn height_bound<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>)
    requires tree(im, lm, g, m), settled(g), m.len() <= usize::MAX,
    ensures g.h <= max_h(),
{
    if g.h > max_h() {
        node_there(im, lm, g, m, g.root);
        let id = g.root->Inner_0;
        assert(inner_ok(im, lm, g, id));
        kids_len(im, lm, g, m, id, 1);
        let r = g.rg[g.root];
        rng_len(m, r.lo, bnd(im[id].ks(), r.lo, r.hi, 1), bnd(im[id].ks(), r.lo, r.hi, 1));
        cap_mono(max_h(), g.h - 1);
        assert(cap(15) > 0xffff_ffff_ffff_ffff) by (compute);
    }
}
