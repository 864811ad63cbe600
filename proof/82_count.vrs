//@ struct augment/count.rs Count
//@ attr #[derive(Clone, Copy)]
//@ raw
// ======================= Count ======================================================================

/// the sum of the first n counts, as `+` computes it
pub open spec fn total(s: Seq<Count>, n: int) -> usize
    decreases n,
{
    if n <= 0 { 0 } else { wrapped(total(s, n - 1), s[n - 1].0) }
}
pub proof fn total_cut<K: Key, V>(augs: Seq<Count>, ks: Seq<K>, c: Seq<int>, n: int)
    requires cuts::<K, V, Count>(augs, ks, c), 0 <= n <= augs.len(),
    ensures total(augs, n) == c[n], 0 <= c[n] <= ks.len(), forall|i: int| 0 <= i < n ==> #[trigger] augs[i].0 == c[i + 1] - c[i],
    decreases n,
{
    if n > 0 {
        total_cut::<K, V>(augs, ks, c, n - 1);
        assert(part::<K, V, Count>(augs, ks, c, n - 1));
    }
}
pub proof fn total_mono<K: Key, V>(augs: Seq<Count>, ks: Seq<K>, c: Seq<int>, i: int, j: int)
    requires cuts::<K, V, Count>(augs, ks, c), 0 <= i <= j <= augs.len(),
    ensures c[i] <= c[j], i < j ==> c[i] < c[j],
    decreases j - i,
{
    if i < j { total_mono::<K, V>(augs, ks, c, i, j - 1); assert(part::<K, V, Count>(augs, ks, c, j - 1)); }
}
impl Count {
//@ fn augment/count.rs Count::count
//@ props C08
//@ params self
//@ ret r
//@ spec
    ensures r == self.0,
//@ raw
}
impl AugClone for Count {
//@ fn augment/count.rs Count::Clone::clone
//@ props C08 C15
//@ opt traitfn
//@ params self
//@ ret r
//@ spec
//@ raw
}
impl<K: Key, V> Augmentation<K, V> for Count {
    open spec fn leaf_spec(keys: Seq<K>, values: Seq<V>) -> Self { Count(keys.len() as usize) }
    open spec fn inner_spec(keys: Seq<K>, augs: Seq<Self>) -> Self { Count(total(augs, augs.len() as int)) }
    open spec fn default_spec() -> Self { Count(0) }
    open spec fn value_free() -> bool { true }
    proof fn value_free_ok(keys: Seq<K>, a: Seq<V>, b: Seq<V>) {}
//@ fn augment/count.rs Count::Default::default
//@ props C08
//@ opt traitfn
//@ ret r
//@ spec
//@ fn augment/count.rs Count::Augmentation::from_leaf
//@ props C08
//@ opt traitfn
//@ opt iter
//@ opt wrap
//@ params keys values
//@ ret r
//@ spec
//@ fn augment/count.rs Count::Augmentation::from_inner
//@ props C08
//@ opt traitfn
//@ opt iter
//@ opt wrap
//@ params keys counts
//@ ret r
//@ spec
//@ loop 0
    invariant __it0.over(counts@), __s0 == total(counts@, __it0.at()),
    ensures __it0.at() == counts@.len(),
    decreases counts@.len() - __it0.at(),
//@ raw
}
impl<K: Key, V> Says<K, V> for Count {
    open spec fn says(self, ks: Seq<K>) -> bool { self.0 == ks.len() }
}
impl<K: Key, V> SeqAug<K, V> for Count {
    proof fn says_leaf(ks: Seq<K>, vs: Seq<V>) {}
    proof fn says_inner(seps: Seq<K>, augs: Seq<Self>, ks: Seq<K>, c: Seq<int>) { total_cut::<K, V>(augs, ks, c, augs.len() as int); }
    proof fn says_none() {}
}
impl<K: Key, V> SearchAugmentation<K, V> for Count {
    type Query = usize;
    /// the key at the index
    open spec fn picks(q: usize, ks: Seq<K>) -> Option<int> { if q < ks.len() { Some(q as int) } else { None } }
//@ fn augment/count.rs Count::SearchAugmentation::locate_in_leaf
//@ props C08
//@ opt traitfn
//@ opt iter
//@ params idx keys values
//@ ret r
//@ spec
//@ fn augment/count.rs Count::SearchAugmentation::locate_in_inner
//@ props C08
//@ opt traitfn
//@ opt iter
//@ params index keys counts
//@ ret r
//@ spec
//@ at start
    proof { all_parts::<K, V>(counts@); }
//@ at loopstart 0
    proof { all_parts::<K, V>(counts@); assert(psum(counts@, __it0.at()) == psum(counts@, __it0.at() - 1) + counts@[__it0.at() - 1].0); }
//@ loop 0
    invariant_except_break __it0.over(counts@), idx == index - psum(counts@, __it0.at()), psum(counts@, __it0.at()) <= index,
    ensures __it0.at() == counts@.len(), __it0.over(counts@), idx == index - psum(counts@, __it0.at()), psum(counts@, __it0.at()) <= index,
    decreases counts@.len() - __it0.at(),
//@ raw
}
/// the sum of the first n counts
pub open spec fn psum(s: Seq<Count>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { psum(s, n - 1) + s[n - 1].0 }
}
proof fn psum_cut<K: Key, V>(augs: Seq<Count>, ks: Seq<K>, c: Seq<int>, n: int)
    requires cuts::<K, V, Count>(augs, ks, c), 0 <= n <= augs.len(),
    ensures psum(augs, n) == c[n],
    decreases n,
{
    if n > 0 { psum_cut::<K, V>(augs, ks, c, n - 1); total_cut::<K, V>(augs, ks, c, n); }
}
pub open spec fn count_parts<K: Key>(augs: Seq<Count>, ks: Seq<K>, c: Seq<int>) -> bool {
    forall|i: int| #![trigger psum(augs, i)] 0 <= i <= augs.len() ==> psum(augs, i) == c[i] && 0 <= c[i] && c[i] <= ks.len() && (i < augs.len() ==> c[i + 1] == c[i] + augs[i].0 && c[i + 1] <= ks.len() && ks.subrange(c[i], c[i + 1]).len() == augs[i].0)
}
pub proof fn all_parts<K: Key, V>(augs: Seq<Count>)
    ensures forall|ks: Seq<K>, c: Seq<int>| #[trigger] cuts::<K, V, Count>(augs, ks, c) ==> count_parts(augs, ks, c) && psum(augs, augs.len() as int) == ks.len(),
{
    assert forall|ks: Seq<K>, c: Seq<int>| #[trigger] cuts::<K, V, Count>(augs, ks, c) implies count_parts(augs, ks, c) && psum(augs, augs.len() as int) == ks.len() by {
        assert forall|i: int| #![trigger psum(augs, i)] 0 <= i <= augs.len() implies psum(augs, i) == c[i] && 0 <= c[i] && c[i] <= ks.len() && (i < augs.len() ==> c[i + 1] == c[i] + augs[i].0 && c[i + 1] <= ks.len() && ks.subrange(c[i], c[i + 1]).len() == augs[i].0) by {
            psum_cut::<K, V>(augs, ks, c, i);
            total_cut::<K, V>(augs, ks, c, i);
            if i < augs.len() { total_cut::<K, V>(augs, ks, c, i + 1); assert(part::<K, V, Count>(augs, ks, c, i)); }
        }
        psum_cut::<K, V>(augs, ks, c, augs.len() as int);
    }
}
impl<K: Key, V> RankSpec<K, V> for Count {
    type Rank = usize;
    open spec fn so_far(r: usize, pre: Seq<K>) -> bool { r == pre.len() }
    /// the number of smaller keys
    open spec fn ranks(r: usize, k: K, pre: Seq<K>) -> bool { r == pre.len() }
}
impl<K: Key, V> RankAugmentation<K, V> for Count {
//@ fn augment/count.rs Count::RankAugmentation::initial_value
//@ props C08
//@ opt traitfn
//@ ret r
//@ spec
//@ fn augment/count.rs Count::RankAugmentation::fold_inner
//@ props C08
//@ opt traitfn
//@ opt iter
//@ params k rank0 counts
//@ ret r
//@ spec
//@ at start
    proof {
        all_parts::<K, V>(counts@);
        let (pre, ks, c) = choose|pre: Seq<K>, ks: Seq<K>, c: Seq<int>| #[trigger] folds::<K, V, Count>(*k, rank0, counts@, pre, ks, c);
        assert(count_parts(counts@, ks, c));
        assert forall|i: int| 0 <= i <= counts@.len() implies rank0 + #[trigger] psum(counts@, i) <= usize::MAX by { assert(psum(counts@, i) == c[i]); }
    }
//@ at loopstart 0
    proof { assert(psum(counts@, __it0.at()) == psum(counts@, __it0.at() - 1) + counts@[__it0.at() - 1].0); }
//@ loop 0
    invariant_except_break __it0.over(counts@), rank == rank0 + psum(counts@, __it0.at()),
    invariant forall|i: int| 0 <= i <= counts@.len() ==> rank0 + #[trigger] psum(counts@, i) <= usize::MAX,
    ensures __it0.at() == counts@.len(), rank == rank0 + psum(counts@, __it0.at()),
    decreases counts@.len() - __it0.at(),
//@ fn augment/count.rs Count::RankAugmentation::fold_leaf
//@ props C08
//@ opt traitfn
//@ opt iter
//@ params k rank slot keys
//@ ret r
//@ spec
//@ raw
}
