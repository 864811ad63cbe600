//@ raw
// ======================= bulk loading ===============================================================

/// the entries that are left when only the last one of each run of equal keys is kept
pub open spec fn dd<K: Key, V>(cur: Option<(K, V)>, rest: Seq<(K, V)>) -> Seq<(K, V)>
    decreases rest.len(),
{
    if rest.len() == 0 { match cur { Some(c) => seq![c], None => Seq::empty() } }
    else {
        let t = dd(Some(rest[0]), rest.subrange(1, rest.len() as int));
        match cur { Some(c) => if c.0.ord() != rest[0].0.ord() { seq![c] + t } else { t }, None => t }
    }
}
/// the last of the entries for each key
pub open spec fn mkf<K: Key, V>(b: Map<real, (K, V)>, s: Seq<(K, V)>) -> Map<real, (K, V)>
    decreases s.len(),
{
    if s.len() == 0 { b } else { mkf(b.insert(s[0].0.ord(), s[0]), s.subrange(1, s.len() as int)) }
}
pub open spec fn mk<K: Key, V>(s: Seq<(K, V)>) -> Map<real, (K, V)> { mkf(Map::empty(), s) }
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(c) => seq![c], None => Seq::empty() } }
/// leaving out all but the last of equal neighbours changes nothing
pub proof fn dd_mk<K: Key, V>(b: Map<real, (K, V)>, cur: Option<(K, V)>, rest: Seq<(K, V)>)
    ensures mkf(b, dd(cur, rest)) == mkf(b, opt_seq(cur) + rest), dd(cur, rest).len() <= opt_seq(cur).len() + rest.len(),
        cur is Some || rest.len() > 0 ==> dd(cur, rest).len() > 0,
    decreases rest.len(),
{
    let all = opt_seq(cur) + rest;
    if rest.len() == 0 { assert(all =~= opt_seq(cur)); }
    else {
        let r0 = rest[0];
        let r1 = rest.subrange(1, rest.len() as int);
        let t = dd(Some(r0), r1);
        assert(opt_seq(Some(r0)) + r1 =~= rest);
        dd_mk(b, Some(r0), r1);
        match cur {
            Some(c) => {
                let b1 = b.insert(c.0.ord(), c);
                dd_mk(b1, Some(r0), r1);
                assert(all.subrange(1, all.len() as int) =~= rest);
                assert(mkf(b, all) == mkf(b1, rest));
                if c.0.ord() != r0.0.ord() {
                    assert((seq![c] + t).subrange(1, (t.len() + 1) as int) =~= t);
                } else {
                    assert(b1.insert(r0.0.ord(), r0) =~= b.insert(r0.0.ord(), r0));
                }
            }
            None => { assert(all =~= rest); }
        }
    }
}
pub open spec fn nondec<K: Key, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.ord() <= (#[trigger] s[j]).0.ord() }
pub open spec fn strict_up<K: Key, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.ord() < (#[trigger] s[j]).0.ord() }
pub proof fn dd_sorted<K: Key, V>(cur: Option<(K, V)>, rest: Seq<(K, V)>)
    requires nondec(rest), forall|j: int| 0 <= j < rest.len() && cur is Some ==> (cur->0).0.ord() <= (#[trigger] rest[j]).0.ord(),
    ensures strict_up(dd(cur, rest)),
        cur is Some ==> forall|j: int| 0 <= j < dd(cur, rest).len() ==> (cur->0).0.ord() <= (#[trigger] dd(cur, rest)[j]).0.ord(),
        cur is None && rest.len() > 0 ==> forall|j: int| 0 <= j < dd(cur, rest).len() ==> rest[0].0.ord() <= (#[trigger] dd(cur, rest)[j]).0.ord(),
    decreases rest.len(),
{
    if rest.len() > 0 {
        let r0 = rest[0];
        let r1 = rest.subrange(1, rest.len() as int);
        assert forall|j: int| 0 <= j < r1.len() implies r0.0.ord() <= (#[trigger] r1[j]).0.ord() by { assert(r1[j] == rest[j + 1]); }
        assert(nondec(r1)) by {
            assert forall|i: int, j: int| 0 <= i < j < r1.len() implies (#[trigger] r1[i]).0.ord() <= (#[trigger] r1[j]).0.ord() by { assert(r1[i] == rest[i + 1] && r1[j] == rest[j + 1]); }
        }
        dd_sorted(Some(r0), r1);
        let t = dd(Some(r0), r1);
        if cur is Some && (cur->0).0.ord() != r0.0.ord() {
            let d = seq![(cur->0)] + t;
            assert(dd(cur, rest) == d);
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0.ord() < (#[trigger] d[j]).0.ord() by { assert(d[j] == t[j - 1]); if i > 0 { assert(d[i] == t[i - 1]); } }
            assert forall|j: int| 0 <= j < d.len() implies (cur->0).0.ord() <= (#[trigger] d[j]).0.ord() by { if j > 0 { assert(d[j] == t[j - 1]); } }
        }
    }
}
/// the entries with strictly increasing keys are all kept
pub proof fn mkf_sorted<K: Key, V>(b: Map<real, (K, V)>, s: Seq<(K, V)>)
    requires strict_up(s),
    ensures
        forall|x: real| #[trigger] mkf(b, s).contains_key(x) ==> b.contains_key(x) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.ord() == x,
        forall|i: int| 0 <= i < s.len() ==> mkf(b, s).contains_key((#[trigger] s[i]).0.ord()) && mkf(b, s)[s[i].0.ord()] == s[i],
        forall|x: real| b.contains_key(x) ==> #[trigger] mkf(b, s).contains_key(x),
        forall|x: real| b.contains_key(x) && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.ord() != x) ==> #[trigger] mkf(b, s)[x] == b[x],
        (forall|i: int| 0 <= i < s.len() ==> !b.contains_key((#[trigger] s[i]).0.ord())) ==> mkf(b, s).len() == b.len() + s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let b1 = b.insert(s[0].0.ord(), s[0]);
        let s1 = s.subrange(1, s.len() as int);
        assert forall|i: int| 0 <= i < s1.len() implies #[trigger] s1[i] == s[i + 1] by {}
        assert(strict_up(s1)) by {
            assert forall|i: int, j: int| 0 <= i < j < s1.len() implies (#[trigger] s1[i]).0.ord() < (#[trigger] s1[j]).0.ord() by { assert(s1[i] == s[i + 1] && s1[j] == s[j + 1]); }
        }
        mkf_sorted(b1, s1);
        let f = mkf(b, s);
        assert(f == mkf(b1, s1));
        assert forall|i: int| 0 <= i < s.len() implies f.contains_key((#[trigger] s[i]).0.ord()) && f[s[i].0.ord()] == s[i] by {
            if i > 0 { assert(s1[i - 1] == s[i]); } else { assert(b1.contains_key(s[0].0.ord())); }
        }
        assert forall|x: real| #[trigger] f.contains_key(x) implies b.contains_key(x) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.ord() == x by {
            if !b1.contains_key(x) {
                let i = choose|i: int| 0 <= i < s1.len() && (#[trigger] s1[i]).0.ord() == x;
                assert(s[i + 1].0.ord() == x);
            } else if !b.contains_key(x) { assert(s[0].0.ord() == x); }
        }
        assert forall|x: real| b.contains_key(x) implies #[trigger] f.contains_key(x) by { assert(b1.contains_key(x)); }
        assert forall|x: real| b.contains_key(x) && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.ord() != x) implies #[trigger] f[x] == b[x] by {
            assert(s[0].0.ord() != x);
            assert(b1.contains_key(x));
            assert forall|i: int| 0 <= i < s1.len() implies (#[trigger] s1[i]).0.ord() != x by { assert(s1[i] == s[i + 1]); }
        }
        if forall|i: int| 0 <= i < s.len() ==> !b.contains_key((#[trigger] s[i]).0.ord()) {
            assert(!b.contains_key(s[0].0.ord()));
            assert forall|i: int| 0 <= i < s1.len() implies !b1.contains_key((#[trigger] s1[i]).0.ord()) by { assert(s1[i] == s[i + 1]); assert(!b.contains_key(s[i + 1].0.ord())); }
        }
    }
}
pub open spec fn firsts<K, V>(s: Seq<(K, V)>) -> Seq<K> { s.map_values(|e: (K, V)| e.0) }
pub open spec fn seconds<K, V>(s: Seq<(K, V)>) -> Seq<V> { s.map_values(|e: (K, V)| e.1) }

// ---- the layers under construction -----------------------------------------------------------------

/// the nodes form trees side by side that together hold m, up to date
pub open spec fn pile<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>) -> bool {
    &&& settled(g) && g.fresh && !g.strict
    &&& forall|n: NodeId| #[trigger] g.rg.contains_key(n) ==> 0real <= g.rg[n].lo && g.rg[n].lo < g.rg[n].hi && g.rg[n].hi <= 1real && 0 <= g.rg[n].h <= g.h && ((n is Leaf) == (g.rg[n].h == 0))
    &&& forall|a: NodeId, b: NodeId| #[trigger] g.rg.contains_key(a) && #[trigger] g.rg.contains_key(b) && a != b && g.rg[a].h == g.rg[b].h ==> disjoint(g.rg[a], g.rg[b])
    &&& forall|id: InnerNodeId| #[trigger] g.rg.contains_key(NodeId::Inner(id)) ==> inner_ok(im, lm, g, id) && (g.rg[NodeId::Inner(id)].hi != 1real ==> im[id].size >= MIN_N)
    &&& forall|id: LeafNodeId| #[trigger] g.rg.contains_key(NodeId::Leaf(id)) ==> leaf_ok(lm, g, m, id) && lm[id].size >= 1 && (g.rg[NodeId::Leaf(id)].hi != 1real ==> lm[id].size >= LEAF_N / 4)
    &&& forall|id: LeafNodeId| #[trigger] lm.contains_key(id) ==> g.rg.contains_key(NodeId::Leaf(id))
    &&& forall|id: InnerNodeId| #[trigger] im.contains_key(id) ==> im[id].wf() && im[id].tail()
    &&& forall|x: real| #[trigger] m.contains_key(x) ==> 0real < x && x < 1real
}
pub open spec fn key0<K, A>(e: (NodeId, (Option<K>, Option<K>), A)) -> Option<K> { e.1.0 }
/// node i begins where the one before it ends
pub open spec fn adj<K, A>(g: G, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>, i: int) -> bool { g.rg[ns[i].0].lo == g.rg[ns[i - 1].0].hi }
/// the nodes of one layer, side by side, from `lo` on
#[verifier::opaque]
pub open spec fn row<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>, h: int, lo: real, hi: real) -> bool {
    &&& ns.len() == 0 ==> lo == hi
    &&& ns.len() > 0 ==> g.rg[ns[0].0].lo == lo && g.rg[ns.last().0].hi == hi
    &&& forall|i: int| 0 <= i < ns.len() ==> g.rg.contains_key((#[trigger] ns[i]).0) && g.rg[ns[i].0].h == h && ns[i].2 == aug_of(im, lm, ns[i].0) && (i > 0 ==> key0(ns[i]) is Some)
        && (key0(ns[i]) is Some ==> key0(ns[i])->0.ord() == g.rg[ns[i].0].lo)
    &&& forall|i: int| 0 < i < ns.len() ==> #[trigger] adj(g, ns, i)
}
pub open spec fn same_key<K: Key, V, F: Fn(&(K, V), &(K, V)) -> bool>(f: F) -> bool {
    &&& forall|a: &(K, V), b: &(K, V)| #[trigger] f.requires((a, b))
    &&& forall|a: &(K, V), b: &(K, V), r: bool| #[trigger] f.ensures((a, b), r) ==> r == (a.0.ord() == b.0.ord())
}
//@ struct tree/bulk_load.rs DeDupKeepLast
//@ generics <K: Key, V, F: Fn(&(K, V), &(K, V)) -> bool>
//@ subst iter: I => iter: DataIter<(K, V)>
//@ subst I :: Item => (K, V)
//@ subst I::Item => (K, V)
//@ raw
impl<K: Key, V, F: Fn(&(K, V), &(K, V)) -> bool> DIter<(K, V)> for DeDupKeepLast<K, V, F> {
    open spec fn rest(&self) -> Seq<(K, V)> { dd(self.current_item, self.iter.rest@) }
    open spec fn ok(&self) -> bool { same_key(self.same_bucket) }
//@ fn tree/bulk_load.rs DeDupKeepLast::Iterator::next
//@ props C06
//@ opt traitfn
//@ params self
//@ ret r
//@ subst I :: Item => (K, V)
//@ subst I::Item => (K, V)
//@ loop 0
    invariant same_key(self.same_bucket), self.same_bucket == old(self).same_bucket, dd(self.current_item, self.iter.rest@) == old(self).rest(),
    ensures self.iter.rest@.len() == 0,
    decreases self.iter.rest@.len(),
//@ raw
}
impl<K: Key, V> DataIter<(K, V)> {
//@ fn tree/bulk_load.rs DedupByExt::dedup_keep_last
//@ props C06
//@ params self same_bucket
//@ ret r
//@ generics <F: Fn(&(K, V), &(K, V)) -> bool>
//@ subst < Self, F > => <K, V, F>
//@ spec
    ensures r.same_bucket == same_bucket, r.current_item is None, r.iter == self,
//@ raw
}

/// the number k of groups of c that n things make
pub proof fn groups_exec(n: int, c: int, k: int)
    requires n > 0, c > 1, k == n / c + (if n % c > 0 { 1int } else { 0int }),
    ensures (k - 1) * c < n <= k * c, k >= 1, n / c < n || n == 1, n > 1 ==> k < n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, c);
    let q = n / c;
    assert(n == c * q + n % c && 0 <= n % c < c);
    assert((k - 1) * c < n <= k * c) by (nonlinear_arith) requires n == c * q + n % c, 0 <= n % c < c, k == q + (if n % c > 0 { 1int } else { 0int }), c > 1;
    assert(k >= 1) by (nonlinear_arith) requires n <= k * c, n > 0, c > 1;
    if n > 1 {
        assert(k < n) by (nonlinear_arith) requires (k - 1) * c < n, c > 1, n > 1, k >= 1;
        assert(q <= k);
    }
}
pub open spec fn layer<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>) -> bool {
    pile(im, lm, g, m) && row(im, lm, g, ns, g.h, 0real, 1real) && ns.len() > 0
}
pub open spec fn built<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, r: NodeId) -> bool {
    tree(im, lm, g, m) && settled(g) && g.fresh && !g.strict && g.root == r
}
/// nodes further right have larger keys
pub proof fn row_mono<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>, h: int, lo: real, hi: real, i: int, j: int)
    requires pile(im, lm, g, m), row(im, lm, g, ns, h, lo, hi), 0 <= i < j < ns.len(),
    ensures g.rg[ns[i].0].hi <= g.rg[ns[j].0].lo,
    decreases j - i,
{
    reveal(row);
    assert(g.rg.contains_key(ns[j].0) && g.rg.contains_key(ns[j - 1].0));
    assert(adj(g, ns, j));
    if i < j - 1 { row_mono(im, lm, g, m, ns, h, lo, hi, i, j - 1); }
}
pub proof fn row_split<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>, h: int, lo: real, hi: real, k: int) -> (mid: real)
    requires pile(im, lm, g, m), row(im, lm, g, ns, h, lo, hi), 0 < k <= ns.len(),
    ensures row(im, lm, g, ns.take(k), h, lo, mid), row(im, lm, g, ns.skip(k), h, mid, hi), lo < mid <= hi, k == ns.len() ==> mid == hi,
        forall|i: int| 0 <= i < ns.len() - k ==> key0(#[trigger] ns.skip(k)[i]) is Some,
        forall|i: int| 0 < i < ns.len() ==> key0(#[trigger] ns[i]) is Some,
        forall|i: int| 0 <= i < ns.len() ==> #[trigger] g.rg.contains_key(ns[i].0),
{
    reveal(row);
    let mid = g.rg[ns[k - 1].0].hi;
    let a = ns.take(k);
    let b = ns.skip(k);
    assert(a.last() == ns[k - 1]);
    if k == ns.len() { assert(ns.last() == ns[k - 1]); assert(b.len() == 0); }
    assert(a[0] == ns[0]);
    assert(g.rg.contains_key(ns[0].0) && g.rg.contains_key(ns[k - 1].0));
    if k > 1 { row_mono(im, lm, g, m, ns, h, lo, hi, 0, k - 1); }
    if k < ns.len() {
        assert(adj(g, ns, k));
        assert(b[0] == ns[k]);
        assert(b.last() == ns.last());
        assert(g.rg.contains_key(ns.last().0));
        row_mono(im, lm, g, m, ns, h, lo, hi, k - 1, ns.len() - 1);
    }
    assert forall|i: int| 0 <= i < b.len() implies g.rg.contains_key((#[trigger] b[i]).0) && g.rg[b[i].0].h == h && b[i].2 == aug_of(im, lm, b[i].0) && key0(b[i]) is Some && key0(b[i])->0.ord() == g.rg[b[i].0].lo by { assert(b[i] == ns[k + i]); }
    assert forall|i: int| 0 < i < b.len() implies #[trigger] adj(g, b, i) by { assert(adj(g, ns, k + i)); assert(b[i] == ns[k + i]); assert(b[i - 1] == ns[k + i - 1]); }
    assert forall|i: int| 0 < i < a.len() implies #[trigger] adj(g, a, i) by { assert(adj(g, ns, i)); assert(a[i] == ns[i]); assert(a[i - 1] == ns[i - 1]); }
    assert forall|i: int| 0 <= i < a.len() implies g.rg.contains_key((#[trigger] a[i]).0) && g.rg[a[i].0].h == h && a[i].2 == aug_of(im, lm, a[i].0) && (i > 0 ==> key0(a[i]) is Some)
        && (key0(a[i]) is Some ==> key0(a[i])->0.ord() == g.rg[a[i].0].lo) by { assert(a[i] == ns[i]); }
    mid
}
pub proof fn row_push<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>, h: int, lo: real, mid: real, hi: real, e: (NodeId, (Option<K>, Option<K>), A))
    requires row(im, lm, g, ns, h, lo, mid), g.rg.contains_key(e.0), g.rg[e.0] == (R { h: h, lo: mid, hi: hi }), e.2 == aug_of(im, lm, e.0),
        key0(e) is Some ==> key0(e)->0.ord() == mid, ns.len() > 0 ==> key0(e) is Some,
    ensures row(im, lm, g, ns.push(e), h, lo, hi),
{
    reveal(row);
    let b = ns.push(e);
    if ns.len() > 0 { assert(b[0] == ns[0]); assert(b[ns.len() - 1] == ns.last()); }
    assert forall|i: int| 0 <= i < b.len() implies g.rg.contains_key((#[trigger] b[i]).0) && g.rg[b[i].0].h == h && b[i].2 == aug_of(im, lm, b[i].0) && (i > 0 ==> key0(b[i]) is Some)
        && (key0(b[i]) is Some ==> key0(b[i])->0.ord() == g.rg[b[i].0].lo) by { if i < ns.len() { assert(b[i] == ns[i]); } }
    assert forall|i: int| 0 < i < b.len() implies #[trigger] adj(g, b, i) by { assert(b[i - 1] == ns[i - 1]); if i < ns.len() { assert(adj(g, ns, i)); assert(b[i] == ns[i]); } }
}
pub open spec fn row_ids<K, A>(cs: Seq<NodeId>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>) -> bool { forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] == ns[i].0 }
pub open spec fn row_augs<K, A>(augs: Seq<A>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>) -> bool { forall|i: int| 0 <= i < augs.len() ==> #[trigger] augs[i] == ns[i].2 }
pub open spec fn row_keys<K: Key, A>(ks: Seq<K>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>) -> bool {
    forall|i: int| 0 <= i < ks.len() ==> key0(ns[i + 1]) is Some && (#[trigger] ks[i]).ord() == key0(ns[i + 1])->0.ord()
}
/// the keys and children of a new inner node above some nodes of a row
pub proof fn row_ic<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>, h: int, lo: real, hi: real, ks: Seq<K>, cs: Seq<NodeId>)
    requires pile(im, lm, g, m), row(im, lm, g, ns, h, lo, hi), ns.len() >= 2,
        ks.len() + 1 == ns.len(), cs.len() == ns.len(),
        row_keys(ks, ns),
        row_ids(cs, ns),
    ensures ic(g, ks, cs, h + 1, lo, hi), lo < hi, 0real <= lo, hi <= 1real,
{
    let k = ns.len() as int;
    assert forall|i: int| 0 <= i < k implies g.rg.contains_key((#[trigger] ns[i]).0) && g.rg[ns[i].0].h == h by { reveal(row); }
    assert(g.rg[ns[0].0].lo == lo && g.rg[ns[k - 1].0].hi == hi) by { reveal(row); }
    assert(g.rg.contains_key(ns[0].0) && g.rg.contains_key(ns[k - 1].0));
    row_mono(im, lm, g, m, ns, h, lo, hi, 0, k - 1);
    assert forall|j: int| 0 <= j < ks.len() implies (#[trigger] ks[j]).ord() == g.rg[ns[j + 1].0].lo && g.rg[ns[j].0].hi == g.rg[ns[j + 1].0].lo by { reveal(row); assert(adj(g, ns, j + 1)); assert(key0(ns[j + 1]) is Some); }
    reveal(ic);
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies (#[trigger] ks[i]).ord() < (#[trigger] ks[j]).ord() by {
        row_mono(im, lm, g, m, ns, h, lo, hi, i + 1, j + 1);
        assert(g.rg.contains_key(ns[i + 1].0));
    }
    assert forall|j: int| 0 <= j < ks.len() implies lo < (#[trigger] ks[j]).ord() && ks[j].ord() < hi by {
        row_mono(im, lm, g, m, ns, h, lo, hi, 0, j + 1);
        if j + 1 < k - 1 { row_mono(im, lm, g, m, ns, h, lo, hi, j + 1, k - 1); }
        assert(g.rg.contains_key(ns[j + 1].0));
    }
    assert forall|i: int| 0 <= i < cs.len() implies g.rg.contains_key(#[trigger] cs[i]) && crange(g, cs[i]) == (R { h: h, lo: bnd(ks, lo, hi, i), hi: bnd(ks, lo, hi, i + 1) }) by {
        let e = ns[i];
        if i > 0 { assert(ks[i - 1].ord() == g.rg[ns[i].0].lo); }
        if i + 1 < k { assert(ks[i].ord() == g.rg[ns[i + 1].0].lo); }
    }
}
/// a new inner node above some nodes of a row
pub proof fn step_parent<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>, h: int, lo: real, hi: real, q: InnerNodeId, n: InnerNode<K, A>, g2: G)
    requires pile(im, lm, g, m), row(im, lm, g, ns, h, lo, hi), ns.len() >= 2, 0 <= h, g.h == h + 1, !im.contains_key(q),
        n.tail(), //[C12]
        n.wf(), n.size + 1 == ns.len(), hi != 1real ==> n.size >= MIN_N,
        row_keys(n.ks(), ns),
        row_ids(n.cs(), ns), row_augs(n.augs(), ns),
        g2 == (G { rg: g.rg.insert(NodeId::Inner(q), R { h: h + 1, lo: lo, hi: hi }), ..g }),
        forall|b: NodeId| #[trigger] g.rg.contains_key(b) && g.rg[b].h == h + 1 ==> g.rg[b].hi <= lo,
    ensures pile(im.insert(q, n), lm, g2, m), !g.rg.contains_key(NodeId::Inner(q)), lo < hi,
        forall|b: NodeId| #[trigger] g.rg.contains_key(b) ==> aug_of(im.insert(q, n), lm, b) == aug_of(im, lm, b) && g2.rg.contains_key(b) && g2.rg[b] == g.rg[b],
        forall|b: NodeId| #[trigger] g2.rg.contains_key(b) && g2.rg[b].h == h + 1 ==> g2.rg[b].hi <= hi,
{
    let im2 = im.insert(q, n);
    assert(!g.rg.contains_key(NodeId::Inner(q))) by { if g.rg.contains_key(NodeId::Inner(q)) { assert(inner_ok(im, lm, g, q)); } }
    let k = ns.len() as int;
    assert forall|i: int| 0 <= i < k implies g.rg.contains_key((#[trigger] ns[i]).0) && g.rg[ns[i].0].h == h && ns[i].2 == aug_of(im, lm, ns[i].0) by { reveal(row); }
    let ks = n.ks();
    let cs = n.cs();
    assert(ks.len() == n.size && cs.len() == k);
    row_ic(im, lm, g, m, ns, h, lo, hi, ks, cs);
    assert(ic(g2, ks, cs, h + 1, lo, hi)) by {
        assert forall|i: int| 0 <= i < cs.len() implies g2.rg.contains_key(#[trigger] cs[i]) && crange(g2, cs[i]) == crange(g, cs[i]) by { let e = ns[i]; }
        ic_frame(g, g2, ks, cs, h + 1, lo, hi);
    }
    assert(af(im2, lm, g2, n)) by {
        reveal(af);
        assert forall|i: int| 0 <= i <= n.size implies #[trigger] n.augs()[i] == aug_of(im2, lm, n.cs()[i]) by { let e = ns[i]; assert(n.cs()[i] == e.0); }
    }
    assert forall|id: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(id)) implies inner_ok(im2, lm, g2, id) && (g2.rg[NodeId::Inner(id)].hi != 1real ==> im2[id].size >= MIN_N) by {
        if id != q {
            assert(inner_ok(im, lm, g, id));
            kids(im, lm, g, id);
            other_inner(im, lm, g, id, im2, lm, g2);
        }
    }
    assert forall|id: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(id)) implies leaf_ok(lm, g2, m, id) && lm[id].size >= 1 && (g2.rg[NodeId::Leaf(id)].hi != 1real ==> lm[id].size >= LEAF_N / 4) by {
        assert(leaf_ok(lm, g, m, id));
        get_links(g, id, lm[id].prev, lm[id].next);
        mk_links(g2, id, lm[id].prev, lm[id].next);
    }
}
pub proof fn row_frame<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>, h: int, lo: real, hi: real, im2: IM<K, A>, lm2: LM<K, V>, g2: G)
    requires row(im, lm, g, ns, h, lo, hi),
        forall|b: NodeId| #[trigger] g.rg.contains_key(b) ==> aug_of(im2, lm2, b) == aug_of(im, lm, b) && g2.rg.contains_key(b) && g2.rg[b] == g.rg[b],
    ensures row(im2, lm2, g2, ns, h, lo, hi),
{
    reveal(row);
    assert forall|i: int| 0 <= i < ns.len() implies g2.rg.contains_key((#[trigger] ns[i]).0) && g2.rg[ns[i].0] == g.rg[ns[i].0] by { assert(g.rg.contains_key(ns[i].0)); }
    assert forall|i: int| 0 < i < ns.len() implies #[trigger] adj(g2, ns, i) by { assert(adj(g, ns, i)); let e = ns[i]; let f = ns[i - 1]; }
}
/// a row of one node is a tree
pub proof fn pile_root<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>) -> (g2: G)
    requires layer(im, lm, g, m, ns), ns.len() == 1,
    ensures built(im, lm, g2, m, ns[0].0),
{
    let g2 = G { root: ns[0].0, ..g };
    reveal(row);
    assert(ns.last() == ns[0]);
    assert forall|id: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(id)) implies inner_ok(im, lm, g2, id) by {
        assert(inner_ok(im, lm, g, id));
        kids(im, lm, g, id);
        other_inner(im, lm, g, id, im, lm, g2);
    }
    assert forall|id: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(id)) implies leaf_ok(lm, g2, m, id) by {
        assert(leaf_ok(lm, g, m, id));
        same_links_ok(g, g2, id, lm[id].prev, lm[id].next);
    }
    g2
}
proof fn pile_leaf<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, n: NodeId, x: real) -> (l: LeafNodeId)
    requires pile(im, lm, g, m), g.rg.contains_key(n), g.rg[n].lo <= x < g.rg[n].hi,
    ensures g.rg.contains_key(NodeId::Leaf(l)), g.rg[NodeId::Leaf(l)].lo <= x < g.rg[NodeId::Leaf(l)].hi,
    decreases g.rg[n].h,
{
    match n {
        NodeId::Leaf(l) => { l }
        NodeId::Inner(id) => {
            assert(inner_ok(im, lm, g, id));
            let i = find_child(g, im[id].ks(), im[id].cs(), g.rg[n].h, g.rg[n].lo, g.rg[n].hi, x, im[id].size as int);
            kids(im, lm, g, id);
            pile_leaf(im, lm, g, m, im[id].cs()[i], x)
        }
    }
}
proof fn row_leaf<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>, h: int, lo: real, hi: real, x: real, k: int) -> (l: LeafNodeId)
    requires pile(im, lm, g, m), row(im, lm, g, ns, h, lo, hi), 0 <= k < ns.len(), lo <= x < g.rg[ns[k].0].hi,
    ensures g.rg.contains_key(NodeId::Leaf(l)), g.rg[NodeId::Leaf(l)].lo <= x < g.rg[NodeId::Leaf(l)].hi,
    decreases k,
{
    reveal(row);
    assert(g.rg.contains_key(ns[k].0));
    if g.rg[ns[k].0].lo <= x { pile_leaf(im, lm, g, m, ns[k].0, x) }
    else { assert(k > 0); assert(adj(g, ns, k)); row_leaf(im, lm, g, m, ns, h, lo, hi, x, k - 1) }
}
/// the leaves determine the entries
pub proof fn pile_content<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, ga: G, a: Map<real, (K, V)>, gb: G, b: Map<real, (K, V)>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>)
    requires layer(im, lm, ga, a, ns), layer(im, lm, gb, b, ns),
    ensures a == b,
{
    assert forall|x: real| #![trigger a.contains_key(x)] #![trigger b.contains_key(x)] a.contains_key(x) == b.contains_key(x) && (a.contains_key(x) ==> a[x] == b[x]) by {
        if 0real < x && x < 1real {
            assert(ga.rg[ns.last().0].hi == 1real && gb.rg[ns.last().0].hi == 1real) by { reveal(row); }
            let la = row_leaf(im, lm, ga, a, ns, ga.h, 0real, 1real, x, ns.len() - 1);
            let lb = row_leaf(im, lm, gb, b, ns, gb.h, 0real, 1real, x, ns.len() - 1);
            assert(leaf_ok(lm, ga, a, la) && leaf_ok(lm, gb, b, lb));
            assert(lm.contains_key(la) && lm.contains_key(lb));
            assert(leaf_ok(lm, ga, a, lb) && leaf_ok(lm, gb, b, la));
            reveal(lc);
            let ka = lm[la].ks();
            let kb = lm[lb].ks();
            if a.contains_key(x) {
                let j = choose|j: int| 0 <= j < ka.len() && (#[trigger] ka[j]).ord() == x;
                assert(b.contains_key(ka[j].ord()) && b[ka[j].ord()] == (ka[j], lm[la].vs()[j]));
            }
            if b.contains_key(x) {
                let j = choose|j: int| 0 <= j < kb.len() && (#[trigger] kb[j]).ord() == x;
                assert(a.contains_key(kb[j].ord()) && a[kb[j].ord()] == (kb[j], lm[lb].vs()[j]));
            }
        }
    }
    assert(a =~= b);
}
/// room for one more layer
pub proof fn pile_raise<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, m: Map<real, (K, V)>, g2: G)
    requires pile(im, lm, g, m), g2 == (G { h: g.h + 1, ..g }),
    ensures pile(im, lm, g2, m),
{
    assert forall|id: InnerNodeId| #[trigger] g2.rg.contains_key(NodeId::Inner(id)) implies inner_ok(im, lm, g2, id) && (g2.rg[NodeId::Inner(id)].hi != 1real ==> im[id].size >= MIN_N) by {
        assert(inner_ok(im, lm, g, id));
        kids(im, lm, g, id);
        other_inner(im, lm, g, id, im, lm, g2);
    }
    assert forall|id: LeafNodeId| #[trigger] g2.rg.contains_key(NodeId::Leaf(id)) implies leaf_ok(lm, g2, m, id) && lm[id].size >= 1 && (g2.rg[NodeId::Leaf(id)].hi != 1real ==> lm[id].size >= LEAF_N / 4) by {
        assert(leaf_ok(lm, g, m, id));
        same_links_ok(g, g2, id, lm[id].prev, lm[id].next);
    }
}
pub proof fn row_empty<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>, h: int, lo: real)
    requires ns.len() == 0,
    ensures row(im, lm, g, ns, h, lo, lo),
{
    reveal(row);
}
/// what is left over a row without nodes
pub proof fn row_done<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>, h: int, lo: real, hi: real)
    requires row(im, lm, g, ns, h, lo, hi), ns.len() == 0,
    ensures lo == hi,
{
    reveal(row);
}
pub proof fn row_node<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, g: G, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>, h: int, lo: real, hi: real)
    requires row(im, lm, g, ns, h, lo, hi), ns.len() > 0,
    ensures g.rg.contains_key(ns[0].0), g.rg[ns[0].0].h == h, key0(ns[0]) is Some ==> key0(ns[0])->0.ord() == lo,
{
    reveal(row);
    assert(g.rg.contains_key(ns[0].0));
}
// ---- the leaves --------------------------------------------------------------------------------------

pub open spec fn off(i: int) -> int { i * LEAF_N }
pub open spec fn upto<K, V>(all: Seq<(K, V)>, i: int) -> int { if off(i) <= all.len() { off(i) } else { all.len() as int } }
/// what the i-th leaf holds, and where it starts
pub open spec fn chunk<K, V>(all: Seq<(K, V)>, i: int) -> Seq<(K, V)> { all.subrange(upto(all, i), upto(all, i + 1)) }
pub open spec fn st<K: Key, V>(all: Seq<(K, V)>, i: int) -> real { if i <= 0 { 0real } else if upto(all, i) >= all.len() { 1real } else { all[upto(all, i)].0.ord() } }
pub open spec fn lid(i: int) -> LeafNodeId { LeafNodeId(i as usize) }
/// the i-th of n leaves
pub open spec fn nth_leaf<K: Key, V>(lm: LM<K, V>, all: Seq<(K, V)>, n: int, i: int) -> bool {
    let l = lm[lid(i)];
    &&& lm.contains_key(lid(i)) && l.wf() && l.tail() && l.size as int == chunk(all, i).len()
    &&& l.ks() == firsts(chunk(all, i)) && l.vs() == seconds(chunk(all, i))
    &&& l.prev == (if i > 0 { Some(lid(i - 1)) } else { None })
    &&& l.next == (if i + 1 < n { Some(lid(i + 1)) } else { None })
}
pub open spec fn nth_entry<K: Key, V, A: Augmentation<K, V>>(all: Seq<(K, V)>, i: int, e: (NodeId, (Option<K>, Option<K>), A)) -> bool {
    &&& e.0 == NodeId::Leaf(lid(i))
    &&& (key0(e) is Some) == (i > 0) && (i > 0 ==> key0(e)->0.ord() == st(all, i))
    &&& e.2 == A::leaf_spec(firsts(chunk(all, i)), seconds(chunk(all, i)))
}
pub open spec fn nth_done<K: Key, V, A: Augmentation<K, V>>(lm: LM<K, V>, all: Seq<(K, V)>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>, i: int) -> bool {
    nth_leaf(lm, all, ns.len() as int, i) && nth_entry::<K, V, A>(all, i, ns[i])
}
#[verifier::opaque]
pub open spec fn leaves_done<K: Key, V, A: Augmentation<K, V>>(lm: LM<K, V>, all: Seq<(K, V)>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>) -> bool {
    &&& ns.len() <= usize::MAX
    &&& forall|i: int| 0 <= i < ns.len() ==> #[trigger] nth_done::<K, V, A>(lm, all, ns, i)
    &&& forall|id: LeafNodeId| #[trigger] lm.contains_key(id) ==> id.0 < ns.len()
}
pub proof fn cut_facts<K: Key, V>(all: Seq<(K, V)>, i: int)
    requires 0 <= i, off(i) < all.len(),
    ensures upto(all, i) == off(i), off(i) < upto(all, i + 1) <= all.len(), off(i + 1) == off(i) + LEAF_N, upto(all, i + 1) == off(i + 1) || upto(all, i + 1) == all.len(),
        chunk(all, i).len() == (if off(i) + LEAF_N <= all.len() { LEAF_N as int } else { all.len() - off(i) }),
        0 <= off(i),
{
    assert(off(i + 1) == off(i) + LEAF_N) by (nonlinear_arith);
    assert(off(i) >= 0) by (nonlinear_arith) requires i >= 0;
}
pub proof fn off_mono(i: int, j: int)
    requires 0 <= i <= j,
    ensures off(i) <= off(j), 0 <= off(i), j >= i + 1 ==> off(i + 1) <= off(j), off(0) == 0,
{
    assert(off(i) <= off(j)) by (nonlinear_arith) requires i <= j;
    assert(0 <= off(i)) by (nonlinear_arith) requires 0 <= i;
    if j >= i + 1 { assert(off(i + 1) <= off(j)) by (nonlinear_arith) requires i + 1 <= j; }
}
/// one more leaf
pub proof fn leaf_added<K: Key, V, A: Augmentation<K, V>>(lm: LM<K, V>, all: Seq<(K, V)>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>, lm2: LM<K, V>, l: LeafNode<K, V>, e: (NodeId, (Option<K>, Option<K>), A))
    requires leaves_done(lm, all, ns), ns.len() < usize::MAX, off(ns.len() as int) < all.len(),
        nth_entry(all, ns.len() as int, e),
        ({ let n = ns.len() as int;
           &&& lm2 == (if n > 0 { lm.insert(lid(n - 1), LeafNode { next: Some(lid(n)), ..lm[lid(n - 1)] }).insert(lid(n), l) } else { lm.insert(lid(n), l) })
           &&& l.wf() && l.tail() && l.size as int == chunk(all, n).len() && l.ks() == firsts(chunk(all, n)) && l.vs() == seconds(chunk(all, n)) && l.next is None
           &&& l.prev == (if n > 0 { Some(lid(n - 1)) } else { None }) }),
    ensures leaves_done(lm2, all, ns.push(e)),
{
    reveal(leaves_done);
    let n = ns.len() as int;
    let b = ns.push(e);
    assert(b.len() == n + 1);
    assert(b.len() <= usize::MAX);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] nth_done::<K, V, A>(lm2, all, b, i) by {
        assert(lid(i).0 == i && lid(n).0 == n);
        if n > 0 { assert(lid(n - 1).0 == n - 1); }
        if i < n {
            assert(b[i] == ns[i]);
            assert(nth_done::<K, V, A>(lm, all, ns, i));
            assert(lm2[lid(i)].ks() =~= lm[lid(i)].ks());
            assert(lm2[lid(i)].vs() =~= lm[lid(i)].vs());
            assert(nth_leaf(lm2, all, n + 1, i));
        } else { assert(b[i] == e); assert(nth_leaf(lm2, all, n + 1, i)); }
    }
    assert forall|id: LeafNodeId| #[trigger] lm2.contains_key(id) implies id.0 < b.len() by {
        if n > 0 { assert(nth_done::<K, V, A>(lm, all, ns, n - 1)); }
    }
}
pub proof fn last_leaf<K: Key, V, A: Augmentation<K, V>>(lm: LM<K, V>, all: Seq<(K, V)>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>)
    requires leaves_done(lm, all, ns), ns.len() > 0,
    ensures lm.contains_key(lid(ns.len() - 1)),
{
    reveal(leaves_done);
    assert(nth_done::<K, V, A>(lm, all, ns, ns.len() - 1));
}
pub open spec fn leaf_rg<K: Key, V>(all: Seq<(K, V)>, n: nat) -> Map<NodeId, R>
    decreases n,
{
    if n == 0 { Map::empty() } else { leaf_rg(all, (n - 1) as nat).insert(NodeId::Leaf(lid(n - 1)), R { h: 0, lo: st(all, n - 1), hi: st(all, n as int) }) }
}
proof fn leaf_rg_at<K: Key, V>(all: Seq<(K, V)>, n: nat, i: int)
    requires n <= usize::MAX, 0 <= i < n,
    ensures leaf_rg(all, n).contains_key(NodeId::Leaf(lid(i))), leaf_rg(all, n)[NodeId::Leaf(lid(i))] == (R { h: 0, lo: st(all, i), hi: st(all, i + 1) }),
    decreases n,
{
    let p = (n - 1) as nat;
    assert(lid(p as int).0 == p && lid(i).0 == i);
    if i < p { leaf_rg_at(all, p, i); }
}
proof fn leaf_rg_only<K: Key, V>(all: Seq<(K, V)>, n: nat, b: NodeId)
    requires n <= usize::MAX, leaf_rg(all, n).contains_key(b),
    ensures b is Leaf, b->Leaf_0.0 < n, b->Leaf_0 == lid(b->Leaf_0.0 as int),
    decreases n,
{
    if n > 0 {
        let p = (n - 1) as nat;
        assert(lid(p as int).0 == p);
        if leaf_rg(all, p).contains_key(b) { leaf_rg_only(all, p, b); }
    }
}
proof fn leaf_rg_is<K: Key, V>(all: Seq<(K, V)>, n: nat)
    requires n <= usize::MAX,
    ensures
        forall|b: NodeId| #[trigger] leaf_rg(all, n).contains_key(b) ==> b is Leaf && b->Leaf_0.0 < n && b->Leaf_0 == lid(b->Leaf_0.0 as int),
        forall|i: int| 0 <= i < n ==> #[trigger] leaf_rg(all, n).contains_key(NodeId::Leaf(lid(i))) && leaf_rg(all, n)[NodeId::Leaf(lid(i))] == (R { h: 0, lo: st(all, i), hi: st(all, i + 1) }),
{
    assert forall|b: NodeId| #[trigger] leaf_rg(all, n).contains_key(b) implies b is Leaf && b->Leaf_0.0 < n && b->Leaf_0 == lid(b->Leaf_0.0 as int) by { leaf_rg_only(all, n, b); }
    assert forall|i: int| 0 <= i < n implies #[trigger] leaf_rg(all, n).contains_key(NodeId::Leaf(lid(i))) && leaf_rg(all, n)[NodeId::Leaf(lid(i))] == (R { h: 0, lo: st(all, i), hi: st(all, i + 1) }) by { leaf_rg_at(all, n, i); }
}
/// the starts of the leaves increase
proof fn st_mono<K: Key, V>(all: Seq<(K, V)>, n: int, i: int, j: int)
    requires strict_up(all), n > 0, off(n - 1) < all.len() <= off(n), 0 <= i < j <= n,
    ensures 0real <= st(all, i), st(all, i) < st(all, j), st(all, j) <= 1real, st(all, n) == 1real, j < n ==> st(all, j) < 1real && st(all, j) > 0real && off(j) < all.len(),
        off(i) < all.len(),
{
    off_mono(i, j);
    off_mono(i, n - 1);
    assert(off(i) + LEAF_N == off(i + 1)) by (nonlinear_arith);
    if j < n { off_mono(j, n - 1); all[off(j)].0.ord_bounds(); }
    if i > 0 { all[off(i)].0.ord_bounds(); if j < n { assert(all[off(i)].0.ord() < all[off(j)].0.ord()); } }
}
/// the entries of one leaf
proof fn chunk_lc<K: Key, V>(all: Seq<(K, V)>, n: int, i: int)
    requires strict_up(all), n > 0, off(n - 1) < all.len() <= off(n), 0 <= i < n,
    ensures lc(mk(all), firsts(chunk(all, i)), seconds(chunk(all, i)), st(all, i), st(all, i + 1)), chunk(all, i).len() >= 1, chunk(all, i).len() <= LEAF_N,
        i > 0 ==> chunk(all, i)[0].0.ord() == st(all, i),
{
    st_mono(all, n, i, i + 1);
    cut_facts(all, i);
    mkf_sorted(Map::empty(), all);
    let m = mk(all);
    let c = chunk(all, i);
    let ks = firsts(c);
    let vs = seconds(c);
    let lo = upto(all, i);
    let hi = upto(all, i + 1);
    assert forall|j: int| 0 <= j < c.len() implies #[trigger] c[j] == all[lo + j] by {}
    assert forall|j: int| 0 <= j < ks.len() implies st(all, i) <= (#[trigger] ks[j]).ord() && ks[j].ord() < st(all, i + 1) && m.contains_key(ks[j].ord()) && m[ks[j].ord()] == (ks[j], vs[j]) by {
        let e = c[j];
        assert(e == all[lo + j]);
        e.0.ord_bounds();
        if j > 0 { assert(all[lo].0.ord() < all[lo + j].0.ord()); }
        if hi < all.len() { assert(all[lo + j].0.ord() < all[hi].0.ord()); }
    }
    assert forall|a: int, b: int| 0 <= a < b < ks.len() implies (#[trigger] ks[a]).ord() < (#[trigger] ks[b]).ord() by { assert(c[a] == all[lo + a] && c[b] == all[lo + b]); }
    assert forall|x: real| #[trigger] m.contains_key(x) && st(all, i) <= x < st(all, i + 1) implies hask(ks, x) by {
        let p = choose|p: int| 0 <= p < all.len() && (#[trigger] all[p]).0.ord() == x;
        if p < lo { assert(i > 0) by { if i == 0 { off_mono(0, 0); } } assert(all[p].0.ord() < all[lo].0.ord()); }
        if p >= hi { if p > hi { assert(all[hi].0.ord() < all[p].0.ord()); } }
        assert(ks[p - lo] == c[p - lo].0);
    }
    reveal(lc);
}
/// the leaves side by side
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn leaves_layer<K: Key, V, A: Augmentation<K, V>>(im: IM<K, A>, lm: LM<K, V>, all: Seq<(K, V)>, ns: Seq<(NodeId, (Option<K>, Option<K>), A)>) -> (g: G)
    requires im == IM::<K, A>::empty(), leaves_done(lm, all, ns), strict_up(all), ns.len() > 0, off(ns.len() - 1) < all.len() <= off(ns.len() as int),
    ensures layer(im, lm, g, mk(all), ns), mk(all).len() == all.len(),
{
    let n = ns.len() as int;
    let m = mk(all);
    let g = G { h: 0, root: NodeId::Leaf(lid(0)), rg: leaf_rg(all, ns.len()), pend: None, dirty: None, under: None, fresh: true, strict: false };
    reveal(leaves_done);
    leaf_rg_is(all, ns.len());
    mkf_sorted(Map::empty(), all);
    assert forall|a: NodeId, b: NodeId| #[trigger] g.rg.contains_key(a) && #[trigger] g.rg.contains_key(b) && a != b && g.rg[a].h == g.rg[b].h implies disjoint(g.rg[a], g.rg[b]) by {
        let i = a->Leaf_0.0 as int;
        let j = b->Leaf_0.0 as int;
        assert(a == NodeId::Leaf(lid(i)) && b == NodeId::Leaf(lid(j)));
        if i < j && i + 1 < j { st_mono(all, n, i + 1, j); }
        if j < i && j + 1 < i { st_mono(all, n, j + 1, i); }
    }
    assert forall|b: NodeId| #[trigger] g.rg.contains_key(b) implies 0real <= g.rg[b].lo && g.rg[b].lo < g.rg[b].hi && g.rg[b].hi <= 1real && g.rg[b].h == 0 && b is Leaf by {
        let i = b->Leaf_0.0 as int;
        assert(b == NodeId::Leaf(lid(i)));
        st_mono(all, n, i, i + 1);
    }
    assert forall|id: LeafNodeId| #[trigger] g.rg.contains_key(NodeId::Leaf(id)) implies leaf_ok(lm, g, m, id) && lm[id].size >= 1 && (g.rg[NodeId::Leaf(id)].hi != 1real ==> lm[id].size >= LEAF_N / 4) by {
        let i = id.0 as int;
        assert(id == lid(i));
        assert(nth_done::<K, V, A>(lm, all, ns, i));
        chunk_lc(all, n, i);
        st_mono(all, n, i, i + 1);
        if i > 0 { st_mono(all, n, i - 1, i); assert(g.rg.contains_key(NodeId::Leaf(lid(i - 1)))); }
        cut_facts(all, i);
        assert(st(all, i + 1) != 1real ==> upto(all, i + 1) == off(i + 1));
        if i + 1 < n { st_mono(all, n, i + 1, n); assert(g.rg.contains_key(NodeId::Leaf(lid(i + 1)))); }
        mk_links(g, id, lm[id].prev, lm[id].next);
    }
    assert forall|id: LeafNodeId| #[trigger] lm.contains_key(id) implies g.rg.contains_key(NodeId::Leaf(id)) by { assert(id == lid(id.0 as int)); }
    assert forall|x: real| #[trigger] m.contains_key(x) implies 0real < x && x < 1real by {
        let p = choose|p: int| 0 <= p < all.len() && (#[trigger] all[p]).0.ord() == x;
        all[p].0.ord_bounds();
    }
    assert(row(im, lm, g, ns, 0, 0real, 1real)) by {
        reveal(row);
        st_mono(all, n, 0, n);
        assert(nth_done::<K, V, A>(lm, all, ns, 0) && nth_done::<K, V, A>(lm, all, ns, n - 1));
        assert(g.rg.contains_key(NodeId::Leaf(lid(0))) && g.rg.contains_key(NodeId::Leaf(lid(n - 1))));
        assert forall|i: int| 0 <= i < ns.len() implies g.rg.contains_key((#[trigger] ns[i]).0) && g.rg[ns[i].0].h == 0 && ns[i].2 == aug_of(im, lm, ns[i].0) && (i > 0 ==> key0(ns[i]) is Some)
            && (key0(ns[i]) is Some ==> key0(ns[i])->0.ord() == g.rg[ns[i].0].lo) by {
            assert(nth_done::<K, V, A>(lm, all, ns, i));
            assert(g.rg.contains_key(NodeId::Leaf(lid(i))));
        }
        assert forall|i: int| 0 < i < ns.len() implies #[trigger] adj(g, ns, i) by {
            assert(nth_done::<K, V, A>(lm, all, ns, i) && nth_done::<K, V, A>(lm, all, ns, i - 1));
            assert(g.rg.contains_key(NodeId::Leaf(lid(i))) && g.rg.contains_key(NodeId::Leaf(lid(i - 1))));
        }
    }
    g
}
impl<K: Key, V, A: Augmentation<K, V>> BPlusTree<K, V, A> {
//@ fn tree/bulk_load.rs BPlusTree::build_inner_layer
//@ props C06 C11
//@ params node_store nodes
//@ ret r
//@ spec
    requires exists|g: G, m: Map<real, (K, V)>| #[trigger] layer(old(node_store).im(), old(node_store).lm(), g, m, nodes@),
    ensures final(node_store).lm() == old(node_store).lm(),
        forall|g: G, m: Map<real, (K, V)>| #[trigger] layer(old(node_store).im(), old(node_store).lm(), g, m, nodes@) ==> exists|g2: G| #[trigger] built(final(node_store).im(), final(node_store).lm(), g2, m, r),
    decreases nodes@.len(),
//@ at start
    let ghost ns0 = nodes@;
    let ghost im0 = node_store.im();
    let ghost lm0 = node_store.lm();
    let ghost (g0, m) = choose|g: G, m: Map<real, (K, V)>| #[trigger] layer(im0, lm0, g, m, ns0);
    let ghost mut g = G { h: g0.h + 1, ..g0 };
    let ghost mut cur = 0real;
    let ghost h = g0.h;
    proof {
        vec_room(&nodes);
        assert forall|g: G, m2: Map<real, (K, V)>| #[trigger] layer(im0, lm0, g, m2, ns0) implies m2 == m by { pile_content(im0, lm0, g, m2, g0, m, ns0); }
        if ns0.len() == 1 { let _ = pile_root(im0, lm0, g0, m, ns0); }
        groups_exec(ns0.len() as int, INNER_C as int, ns0.len() as int / INNER_C as int + (if ns0.len() as int % INNER_C as int > 0 { 1int } else { 0int }));
        pile_raise(im0, lm0, g0, m, g);
        row_frame(im0, lm0, g0, ns0, h, 0real, 1real, im0, lm0, g);
        row_empty(im0, lm0, g, Seq::<(NodeId, (Option<K>, Option<K>), A)>::empty(), h + 1, 0real);
        row_node(im0, lm0, g0, ns0, h, 0real, 1real);
    }
//@ at before loop 0
    proof { assert(nodes@ =~= Seq::empty()); }
//@ loop 0
    invariant
        __it0.cur <= __it0.end, __it0.end == node_num, child_n == INNER_C, node_num > 0,
        nodes@.len() == __it0.cur,
        ({ let k = __it0.end - __it0.cur; let n = rest@.len();
           &&& n != 1
           &&& k == 0 ==> n == 0
           &&& k > 0 ==> (k - 1) * INNER_C < n <= k * INNER_C }),
        node_store.lm() == lm0, h >= 0, g.h == h + 1,
        pile(node_store.im(), lm0, g, m), row(node_store.im(), lm0, g, rest@, h, cur, 1real), row(node_store.im(), lm0, g, nodes@, h + 1, 0real, cur),
        forall|b: NodeId| #[trigger] g.rg.contains_key(b) && g.rg[b].h == h + 1 ==> g.rg[b].hi <= cur,
        nodes@.len() > 0 ==> forall|i: int| 0 <= i < rest@.len() ==> key0(#[trigger] rest@[i]) is Some,
    ensures __it0.cur == __it0.end,
    decreases __it0.end - __it0.cur,
//@ at loopstart 0
    let ghost rest0 = rest@;
    let ghost im1 = node_store.im();
    let ghost g1 = g;
    let ghost cur1 = cur;
    let ghost nodes1 = nodes@;
    let ghost mut mid = 0real;
//@ at before call clone
    proof {
        assert(childs@ =~= rest0.take(size as int));
        assert(rest@ =~= rest0.skip(size as int));
        mid = row_split(im1, lm0, g1, m, rest0, h, cur, 1real, size as int);
        assert forall|i: int| 0 < i < childs@.len() implies key0(#[trigger] childs@[i]) is Some by { assert(childs@[i] == rest0[i]); }
        assert(childs@[0] == rest0[0]);
    }
//@ loop 1
    invariant 1 <= __j0 <= childs@.len(), __v0@.len() == __j0 - 1,
        forall|i: int| 0 < i < childs@.len() ==> key0(#[trigger] childs@[i]) is Some,
        row_keys::<K, A>(__v0@, childs@),
    ensures __j0 == childs@.len(),
    decreases childs@.len() - __j0,
//@ at loopstart 1
    proof { assert(key0(childs@[__j0 as int]) is Some); }
//@ loop 2
    invariant 0 <= __j1 <= childs@.len(), __v1@.len() == __j1,
        row_ids::<K, A>(__v1@, childs@),
    ensures __j1 == childs@.len(),
    decreases childs@.len() - __j1,
//@ loop 3
    invariant 0 <= __j2 <= childs@.len(), __v2@.len() == __j2,
        row_augs::<K, A>(__v2@, childs@),
    ensures __j2 == childs@.len(),
    decreases childs@.len() - __j2,
//@ at after call add_inner
    proof {
        let n = node_store.im()[node_id];
        let g2 = G { rg: g1.rg.insert(NodeId::Inner(node_id), R { h: h + 1, lo: cur1, hi: mid }), ..g1 };
        assert(node_store.im() =~= im1.insert(node_id, n));
        step_parent(im1, lm0, g1, m, childs@, h, cur1, mid, node_id, n, g2);
        row_frame(im1, lm0, g1, rest@, h, mid, 1real, node_store.im(), lm0, g2);
        row_frame(im1, lm0, g1, nodes@, h + 1, 0real, cur1, node_store.im(), lm0, g2);
        g = g2;
        cur = mid;
    }
//@ at loopend 0
    proof {
        assert(nodes@ == nodes1.push(nodes@.last()));
        row_node(im1, lm0, g1, childs@, h, cur1, mid);
        row_push(node_store.im(), lm0, g, nodes1, h + 1, 0real, cur1, mid, nodes@.last());
    }
//@ at after loop 0
    proof {
        row_done(node_store.im(), lm0, g, rest@, h, cur, 1real);
        groups_exec(ns0.len() as int, INNER_C as int, node_num as int);
        assert(layer(node_store.im(), lm0, g, m, nodes@));
    }
//@ fn tree/bulk_load.rs BPlusTree::bulk_load
//@ props C06 C11
//@ opt data
//@ params data
//@ ret r
//@ closure 0 |l: &(K, V), r: &(K, V)| -> (b: bool) ensures b == (l.0.ord() == r.0.ord())
//@ spec
    requires nondec(data@),
    ensures r.wf(), r.m() == mk(data@), r.gg().fresh,
//@ at start
    let ghost d0 = data@;
    let ghost all = dd(None, d0);
    proof { assert(data.len() == d0.len()); }
    proof {
        dd_mk(Map::<real, (K, V)>::empty(), None, d0);
        dd_sorted(None, d0);
        assert(opt_seq::<(K, V)>(None) + d0 =~= d0);
        off_mono(0, 0);
        assert(leaves_done::<K, V, A>(IMap::empty(), all, Seq::empty())) by { reveal(leaves_done); }
    }
//@ at before loop 0
    proof { assert(nodes@ =~= Seq::empty()); assert(data_iter.rest() =~= all.skip(0)); assert(node_store.lm() =~= IMap::empty()); }
//@ loop 0
    invariant
        data_iter.ok(), data_iter.rest() =~= all.skip(upto(all, nodes@.len() as int)), item_count == upto(all, nodes@.len() as int),
        nodes@.len() > 0 ==> off(nodes@.len() - 1) < all.len(),
        nodes@.len() <= all.len(),
        leaves_done(node_store.lm(), all, nodes@), strict_up(all), 0 < all.len() <= usize::MAX,
        node_store.im() =~= IMap::empty(), node_store.lnext() == nodes@.len(),
        prev_id == (if nodes@.len() > 0 { Some(lid(nodes@.len() - 1)) } else { None }),
    ensures nodes@.len() > 0, off(nodes@.len() - 1) < all.len() <= off(nodes@.len() as int), leaves_done(node_store.lm(), all, nodes@), item_count == all.len(), node_store.im() =~= IMap::empty(),
    decreases all.len() - upto(all, nodes@.len() as int),
//@ at loopstart 0
    let ghost ns1 = nodes@;
    let ghost n = nodes@.len() as int;
    let ghost lm1 = node_store.lm();
    proof {
        off_mono(0, n);
        if off(n) < all.len() { cut_facts(all, n); }
        if n > 0 { last_leaf(lm1, all, ns1); }
    }
//@ at before call assign_leaf
    let ghost l = *leaf;
//@ at loopend 0
    proof {
        assert(all.skip(upto(all, n)).take(l.size as int) =~= chunk(all, n));
        assert(l.ks() =~= firsts(chunk(all, n)));
        assert(l.vs() =~= seconds(chunk(all, n)));
        assert(node_store.lm() =~= (if n > 0 { lm1.insert(lid(n - 1), LeafNode { next: Some(lid(n)), ..lm1[lid(n - 1)] }).insert(lid(n), l) } else { lm1.insert(lid(n), l) }));
        assert(nodes@ == ns1.push(nodes@.last()));
        if n > 0 { assert(all[off(n)] == chunk(all, n)[0]); }
        leaf_added(lm1, all, ns1, node_store.lm(), l, nodes@.last());
    }
//@ at before call build_inner_layer
    let ghost g0 = leaves_layer(node_store.im(), node_store.lm(), all, nodes@);
    let ghost lmf = node_store.lm();
    let ghost nsf = nodes@;
//@ at after call build_inner_layer
    let ghost g2 = choose|g2: G| #[trigger] built(node_store.im(), node_store.lm(), g2, mk(all), root_id);
    proof { node_there(node_store.im(), node_store.lm(), g2, mk(all), root_id); }
//@ at end
    proof {
        if d0.len() > 0 {
            assert(built(__ret.im(), __ret.lm(), g2, mk(all), root_id));
            height_bound(__ret.im(), __ret.lm(), g2, mk(all));
            __ret.g@ = g2;
            __ret.wf_m(mk(all));
        }
    }
//@ raw
}
