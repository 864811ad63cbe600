//@ struct augment/group.rs GroupCount
//@ raw
// ======================= GroupCount =================================================================

/// What the code uses of a group: `Ord` (a total order, consistent with equality) and `Clone`. The
/// order is an embedding into the reals, as for keys.
pub trait Grp: Sized {
    spec fn gord(&self) -> real;
    fn cmp(&self, o: &Self) -> (r: Ordering)
        ensures (r is Less) == (self.gord() < o.gord()), (r is Equal) == (self.gord() == o.gord()), (r is Greater) == (self.gord() > o.gord());
    fn ne(&self, o: &Self) -> (r: bool) ensures r == (self.gord() != o.gord());
    fn eq(&self, o: &Self) -> (r: bool) ensures r == (self.gord() == o.gord());
    fn clone(&self) -> (r: Self) ensures r == *self;
}
/// The group of a key: it must not fall as the key rises.
pub trait FromRef<K: Key>: Grp {
    spec fn of(k: K) -> Self;
    fn from_ref(k: &K) -> (r: Self) ensures r == Self::of(*k);
    proof fn of_mono(a: K, b: K)
        requires a.ord() <= b.ord(),
        ensures Self::of(a).gord() <= Self::of(b).gord();
}
/// `std::borrow::Cow`
pub enum Cow<'a, T> { Borrowed(&'a T), Owned(T) }
impl<'a, T: Grp> Cow<'a, T> {
    pub open spec fn val(self) -> T { match self { Cow::Borrowed(t) => *t, Cow::Owned(t) => t } }
    pub fn as_ref(&self) -> (r: &T) ensures *r == self.val() { match self { Cow::Borrowed(t) => t, Cow::Owned(t) => t } }
    pub fn into_owned(self) -> (r: T) ensures r == self.val() { match self { Cow::Borrowed(t) => t.clone(), Cow::Owned(t) => t } }
}
pub trait PairClone: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
impl<G: Grp> PairClone for (G, usize) { fn clone(&self) -> (r: Self) { (self.0.clone(), self.1) } }
impl<G: Grp> Taken for GroupCount<G> { open spec fn zero() -> Self { GroupCount::Zero } fn make_zero() -> (r: Self) { GroupCount::default() } }

pub open spec fn gat<K: Key, G: FromRef<K>>(ks: Seq<K>, i: int) -> real { G::of(ks[i]).gord() }
/// the number of keys whose group is at (below) x
pub open spec fn gcnt<K: Key, G: FromRef<K>>(ks: Seq<K>, x: real) -> int
    decreases ks.len(),
{
    if ks.len() == 0 { 0 } else { gcnt::<K, G>(ks.drop_last(), x) + if G::of(ks.last()).gord() == x { 1int } else { 0 } }
}
pub open spec fn gless<K: Key, G: FromRef<K>>(ks: Seq<K>, x: real) -> int
    decreases ks.len(),
{
    if ks.len() == 0 { 0 } else { gless::<K, G>(ks.drop_last(), x) + if G::of(ks.last()).gord() < x { 1int } else { 0 } }
}
/// the number of groups, if the keys are sorted
pub open spec fn groups<K: Key, G: FromRef<K>>(ks: Seq<K>) -> int
    decreases ks.len(),
{
    if ks.len() == 0 { 0 } else { groups::<K, G>(ks.drop_last()) + if ks.len() > 1 && gat::<K, G>(ks, ks.len() - 2) == gat::<K, G>(ks, ks.len() - 1) { 0int } else { 1 } }
}
pub open spec fn gsorted<K: Key, G: FromRef<K>>(ks: Seq<K>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < ks.len() ==> #[trigger] gat::<K, G>(ks, i) <= #[trigger] gat::<K, G>(ks, j)
}
pub proof fn groups_sorted<K: Key, G: FromRef<K>>(ks: Seq<K>)
    requires sorted(ks),
    ensures gsorted::<K, G>(ks),
{
    assert forall|i: int, j: int| 0 <= i <= j < ks.len() implies #[trigger] gat::<K, G>(ks, i) <= #[trigger] gat::<K, G>(ks, j) by { G::of_mono(ks[i], ks[j]); }
}
pub proof fn cnt_add<K: Key, G: FromRef<K>>(a: Seq<K>, b: Seq<K>, x: real)
    ensures gcnt::<K, G>(a + b, x) == gcnt::<K, G>(a, x) + gcnt::<K, G>(b, x), gless::<K, G>(a + b, x) == gless::<K, G>(a, x) + gless::<K, G>(b, x),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        cnt_add::<K, G>(a, b.drop_last(), x);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}
pub proof fn cnt_range<K: Key, G: FromRef<K>>(ks: Seq<K>, x: real)
    ensures 0 <= gcnt::<K, G>(ks, x), 0 <= gless::<K, G>(ks, x), gcnt::<K, G>(ks, x) + gless::<K, G>(ks, x) <= ks.len(),
    decreases ks.len(),
{
    if ks.len() > 0 { cnt_range::<K, G>(ks.drop_last(), x); }
}
pub proof fn groups_range<K: Key, G: FromRef<K>>(ks: Seq<K>)
    ensures 0 <= groups::<K, G>(ks) <= ks.len(), ks.len() > 0 ==> groups::<K, G>(ks) >= 1,
    decreases ks.len(),
{
    if ks.len() > 0 { groups_range::<K, G>(ks.drop_last()); }
}
/// all groups below, at, above x
pub proof fn cnt_below<K: Key, G: FromRef<K>>(ks: Seq<K>, x: real)
    requires gsorted::<K, G>(ks),
    ensures
        ks.len() > 0 && gat::<K, G>(ks, ks.len() - 1) < x ==> gcnt::<K, G>(ks, x) == 0 && gless::<K, G>(ks, x) == ks.len(),
        ks.len() > 0 && gat::<K, G>(ks, 0) > x ==> gcnt::<K, G>(ks, x) == 0 && gless::<K, G>(ks, x) == 0,
        ks.len() > 0 && gat::<K, G>(ks, 0) >= x ==> gless::<K, G>(ks, x) == 0,
        ks.len() > 0 && gat::<K, G>(ks, ks.len() - 1) <= x ==> gcnt::<K, G>(ks, x) + gless::<K, G>(ks, x) == ks.len(),
        ks.len() > 0 && gat::<K, G>(ks, 0) == x && gat::<K, G>(ks, ks.len() - 1) == x ==> gcnt::<K, G>(ks, x) == ks.len() && groups::<K, G>(ks) == 1,
        ks.len() > 0 && gat::<K, G>(ks, 0) == x ==> gcnt::<K, G>(ks, x) > 0,
        ks.len() > 0 && gat::<K, G>(ks, ks.len() - 1) == x ==> gcnt::<K, G>(ks, x) > 0,
        ks.len() > 0 && gat::<K, G>(ks, 0) < gat::<K, G>(ks, ks.len() - 1) ==> groups::<K, G>(ks) >= 2,
    decreases ks.len(),
{
    if ks.len() > 0 {
        let d = ks.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] gat::<K, G>(d, i) == gat::<K, G>(ks, i) by { }
        assert(gsorted::<K, G>(d));
        cnt_below::<K, G>(d, x);
        cnt_range::<K, G>(d, x);
        groups_range::<K, G>(d);
        if d.len() > 0 {
            assert(gat::<K, G>(d, 0) == gat::<K, G>(ks, 0));
            assert(gat::<K, G>(d, d.len() - 1) == gat::<K, G>(ks, ks.len() - 2));
            assert(gat::<K, G>(ks, ks.len() - 2) <= gat::<K, G>(ks, ks.len() - 1));
            assert(gat::<K, G>(ks, 0) <= gat::<K, G>(ks, ks.len() - 2));
        }
    }
}
pub proof fn groups_add<K: Key, G: FromRef<K>>(a: Seq<K>, b: Seq<K>)
    requires a.len() > 0, b.len() > 0,
    ensures groups::<K, G>(a + b) == groups::<K, G>(a) + groups::<K, G>(b) - if gat::<K, G>(a, a.len() - 1) == gat::<K, G>(b, 0) { 1int } else { 0 },
    decreases b.len(),
{
    let s = a + b;
    let d = b.drop_last();
    assert(s.drop_last() =~= a + d);
    assert(gat::<K, G>(s, s.len() - 1) == gat::<K, G>(b, b.len() - 1));
    if d.len() == 0 {
        assert(a + d =~= a);
        assert(gat::<K, G>(s, s.len() - 2) == gat::<K, G>(a, a.len() - 1));
        assert(groups::<K, G>(d) == 0);
    } else {
        groups_add::<K, G>(a, d);
        assert(gat::<K, G>(s, s.len() - 2) == gat::<K, G>(b, b.len() - 2));
        assert(gat::<K, G>(d, 0) == gat::<K, G>(b, 0));
    }
}
impl<G: Grp> GroupCount<G> {
    /// self describes the groups of the keys ks
    pub open spec fn describes<K: Key>(self, ks: Seq<K>) -> bool where G: FromRef<K> {
        match self {
            GroupCount::Zero => ks.len() == 0,
            GroupCount::One(g, c) => ks.len() > 0 && c == ks.len() && g.gord() == gat::<K, G>(ks, 0) && g.gord() == gat::<K, G>(ks, ks.len() - 1),
            GroupCount::Multiple { min_group, max_group, group_count } => {
                &&& ks.len() > 0 && gat::<K, G>(ks, 0) < gat::<K, G>(ks, ks.len() - 1)
                &&& min_group.0.gord() == gat::<K, G>(ks, 0) && min_group.1 == gcnt::<K, G>(ks, gat::<K, G>(ks, 0))
                &&& max_group.0.gord() == gat::<K, G>(ks, ks.len() - 1) && max_group.1 == gcnt::<K, G>(ks, gat::<K, G>(ks, ks.len() - 1))
                &&& group_count == groups::<K, G>(ks)
            }
        }
    }
    /// the description of two neighbours, one after the other
    pub open spec fn merged(self, r: Self) -> Self {
        match (self, r) {
            (GroupCount::Zero, r) => r,
            (l, GroupCount::Zero) => l,
            (GroupCount::One(g1, c1), GroupCount::One(g2, c2)) =>
                if g1.gord() == g2.gord() { GroupCount::One(g1, wrapped(c1, c2)) } else { GroupCount::Multiple { min_group: (g1, c1), max_group: (g2, c2), group_count: 2 } },
            (GroupCount::One(g1, c1), GroupCount::Multiple { min_group, max_group, group_count }) =>
                if g1.gord() == min_group.0.gord() { GroupCount::Multiple { min_group: (g1, wrapped(c1, min_group.1)), max_group, group_count } }
                else { GroupCount::Multiple { min_group: (g1, c1), max_group, group_count: wrapped(group_count, 1) } },
            (GroupCount::Multiple { min_group, max_group, group_count }, GroupCount::One(g2, c2)) =>
                if g2.gord() == max_group.0.gord() { GroupCount::Multiple { min_group, max_group: (max_group.0, wrapped(max_group.1, c2)), group_count } }
                else { GroupCount::Multiple { min_group, max_group: (g2, c2), group_count: wrapped(group_count, 1) } },
            (GroupCount::Multiple { min_group: l0, max_group: l1, group_count: n }, GroupCount::Multiple { min_group: r0, max_group: r1, group_count: k }) =>
                GroupCount::Multiple { min_group: l0, max_group: r1, group_count: if l1.0.gord() == r0.0.gord() { wrapped_sub(wrapped(n, k), 1) } else { wrapped(n, k) } },
        }
    }
    /// the description of a sequence of neighbours
    pub open spec fn all_merged(s: Seq<Self>, n: int) -> Self
        decreases n,
    {
        if n <= 0 { GroupCount::Zero } else { Self::all_merged(s, n - 1).merged(s[n - 1]) }
    }
    /// the description of a leaf
    pub open spec fn of_keys<K: Key>(ks: Seq<K>) -> Self where G: FromRef<K> {
        if ks.len() == 0 { GroupCount::Zero }
        else if groups::<K, G>(ks) == 1 { GroupCount::One(G::of(ks[0]), run_first::<K, G>(ks, ks.len() as int) as usize) }
        else { GroupCount::Multiple { min_group: (G::of(ks[0]), run_first::<K, G>(ks, ks.len() as int) as usize), max_group: (G::of(ks[run_start::<K, G>(ks, ks.len() as int)]), (ks.len() - run_start::<K, G>(ks, ks.len() as int)) as usize), group_count: groups::<K, G>(ks) as usize } }
    }
//@ fn augment/group.rs GroupCount::Clone::clone
//@ props C09 C15
//@ params self
//@ ret r
//@ spec
    ensures r == *self,
//@ fn augment/group.rs GroupCount::Default::default
//@ props C09
//@ ret r
//@ spec
    ensures r == GroupCount::<G>::Zero,
//@ fn augment/group.rs GroupCount::is_zero
//@ props C09
//@ params self
//@ ret r
//@ spec
    ensures r == (*self is Zero),
//@ fn augment/group.rs GroupCount::group_count
//@ props C09
//@ params self
//@ ret r
//@ spec
    ensures r == (match *self { GroupCount::Zero => 0, GroupCount::One(g, c) => 1, GroupCount::Multiple { min_group, max_group, group_count } => group_count }),
//@ fn augment/group.rs GroupCount::max_group
//@ props C09
//@ params self
//@ ret r
//@ spec
    ensures r == self.max_spec(),
//@ fn augment/group.rs GroupCount::merge_with
//@ props C09
//@ opt wrap
//@ params self right
//@ spec
    ensures *final(self) == old(self).merged(*right),
//@ raw
    pub open spec fn max_spec(&self) -> Option<(&G, usize)> {
        match self { GroupCount::Zero => None, GroupCount::One(g, c) => Some((g, *c)), GroupCount::Multiple { min_group, max_group, group_count } => Some((&max_group.0, max_group.1)) }
    }
}
/// the length of the first run of one group among the first n keys, and where the last run begins
pub open spec fn run_first<K: Key, G: FromRef<K>>(ks: Seq<K>, n: int) -> int
    decreases n,
{
    if n <= 1 { 1 } else if groups::<K, G>(ks.take(n)) == 1 { run_first::<K, G>(ks, n - 1) + 1 } else { run_first::<K, G>(ks, n - 1) }
}
pub open spec fn run_start<K: Key, G: FromRef<K>>(ks: Seq<K>, n: int) -> int
    decreases n,
{
    if n <= 1 { 0 } else if gat::<K, G>(ks, n - 2) == gat::<K, G>(ks, n - 1) { run_start::<K, G>(ks, n - 1) } else { n - 1 }
}
proof fn runs<K: Key, G: FromRef<K>>(ks: Seq<K>, n: int)
    requires gsorted::<K, G>(ks), 1 <= n <= ks.len(),
    ensures
        groups::<K, G>(ks.take(n)) >= 1,
        (groups::<K, G>(ks.take(n)) == 1) == (gat::<K, G>(ks, 0) == gat::<K, G>(ks, n - 1)),
        run_first::<K, G>(ks, n) == gcnt::<K, G>(ks.take(n), gat::<K, G>(ks, 0)),
        n - run_start::<K, G>(ks, n) == gcnt::<K, G>(ks.take(n), gat::<K, G>(ks, n - 1)),
    decreases n,
{
    let t = ks.take(n);
    assert forall|i: int| 0 <= i < n implies #[trigger] gat::<K, G>(t, i) == gat::<K, G>(ks, i) by { }
    assert(gsorted::<K, G>(t));
    cnt_below::<K, G>(t, gat::<K, G>(ks, 0));
    groups_range::<K, G>(t);
    assert(gat::<K, G>(t, 0) == gat::<K, G>(ks, 0));
    assert(gat::<K, G>(t, n - 1) == gat::<K, G>(ks, n - 1));
    let d = ks.take(n - 1);
    assert(t.drop_last() =~= d);
    assert(t.last() == ks[n - 1]);
    if n == 1 {
        assert(gcnt::<K, G>(d, gat::<K, G>(ks, 0)) == 0);
    } else {
        runs::<K, G>(ks, n - 1);
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] gat::<K, G>(d, i) == gat::<K, G>(ks, i) by { }
        assert(gsorted::<K, G>(d));
        cnt_below::<K, G>(d, gat::<K, G>(ks, n - 1));
        assert(gat::<K, G>(d, n - 2) == gat::<K, G>(ks, n - 2));
        assert(gat::<K, G>(ks, n - 2) <= gat::<K, G>(ks, n - 1));
    }
}
proof fn leaf_described<K: Key, G: FromRef<K>>(ks: Seq<K>)
    requires sorted(ks), ks.len() <= usize::MAX,
    ensures GroupCount::<G>::of_keys(ks).describes(ks),
{
    groups_sorted::<K, G>(ks);
    if ks.len() > 0 {
        let n = ks.len() as int;
        runs::<K, G>(ks, n);
        assert(ks.take(n) =~= ks);
        cnt_range::<K, G>(ks, gat::<K, G>(ks, 0));
        cnt_range::<K, G>(ks, gat::<K, G>(ks, n - 1));
        cnt_below::<K, G>(ks, gat::<K, G>(ks, 0));
        groups_range::<K, G>(ks);
        run_there::<K, G>(ks, n);
        assert(gat::<K, G>(ks, 0) <= gat::<K, G>(ks, n - 1));
    }
}
/// the last run begins in its own group
proof fn run_there<K: Key, G: FromRef<K>>(ks: Seq<K>, n: int)
    requires 1 <= n <= ks.len(),
    ensures 0 <= run_start::<K, G>(ks, n) < n, gat::<K, G>(ks, run_start::<K, G>(ks, n)) == gat::<K, G>(ks, n - 1), 1 <= run_first::<K, G>(ks, n) <= n,
    decreases n,
{
    if n > 1 { run_there::<K, G>(ks, n - 1); }
}
proof fn merge_described<K: Key, G: FromRef<K>>(a: GroupCount<G>, b: GroupCount<G>, k1: Seq<K>, k2: Seq<K>)
    requires a.describes(k1), b.describes(k2), gsorted::<K, G>(k1 + k2), k1.len() + k2.len() <= usize::MAX,
    ensures a.merged(b).describes(k1 + k2),
{
    let s = k1 + k2;
    if k1.len() == 0 { assert(s =~= k2); }
    else if k2.len() == 0 { assert(s =~= k1); }
    else {
        let (n1, n) = (k1.len() as int, s.len() as int);
        assert forall|i: int| 0 <= i < k1.len() implies #[trigger] gat::<K, G>(k1, i) == gat::<K, G>(s, i) by { }
        assert forall|i: int| 0 <= i < k2.len() implies #[trigger] gat::<K, G>(k2, i) == gat::<K, G>(s, n1 + i) by { }
        let (x0, x1, y0, y1) = (gat::<K, G>(k1, 0), gat::<K, G>(k1, n1 - 1), gat::<K, G>(k2, 0), gat::<K, G>(k2, k2.len() - 1));
        assert(x0 == gat::<K, G>(s, 0) && x1 == gat::<K, G>(s, n1 - 1) && y0 == gat::<K, G>(s, n1) && y1 == gat::<K, G>(s, n - 1));
        assert(x0 <= x1 && x1 <= y0 && y0 <= y1);
        assert(gsorted::<K, G>(k1));
        assert(gsorted::<K, G>(k2));
        cnt_add::<K, G>(k1, k2, x0);
        cnt_add::<K, G>(k1, k2, y1);
        cnt_below::<K, G>(k1, y1);
        cnt_below::<K, G>(k1, x0);
        cnt_below::<K, G>(k2, x0);
        cnt_below::<K, G>(k2, y1);
        cnt_range::<K, G>(s, x0);
        cnt_range::<K, G>(s, y1);
        groups_add::<K, G>(k1, k2);
        groups_range::<K, G>(k1);
        groups_range::<K, G>(k2);
        groups_range::<K, G>(s);
    }
}
proof fn all_described<K: Key, V, G: FromRef<K>>(augs: Seq<GroupCount<G>>, ks: Seq<K>, c: Seq<int>, n: int)
    requires cuts::<K, V, GroupCount<G>>(augs, ks, c), 0 <= n <= augs.len(),
    ensures GroupCount::all_merged(augs, n).describes(ks.take(c[n])), 0 <= c[n] <= ks.len(),
    decreases n,
{
    if n > 0 {
        all_described::<K, V, G>(augs, ks, c, n - 1);
        assert(part::<K, V, GroupCount<G>>(augs, ks, c, n - 1));
        let (a, b) = (ks.take(c[n - 1]), ks.subrange(c[n - 1], c[n]));
        assert(a + b =~= ks.take(c[n]));
        groups_sorted::<K, G>(ks);
        assert forall|i: int| 0 <= i < c[n] implies #[trigger] gat::<K, G>(a + b, i) == gat::<K, G>(ks, i) by { }
        merge_described::<K, G>(GroupCount::all_merged(augs, n - 1), augs[n - 1], a, b);
    }
}
impl<G: Grp> AugClone for GroupCount<G> { fn clone(&self) -> (r: Self) { GroupCount::<G>::clone(self) } }
impl<K: Key, V, G: FromRef<K>> Augmentation<K, V> for GroupCount<G> {
    open spec fn leaf_spec(keys: Seq<K>, values: Seq<V>) -> Self { GroupCount::of_keys(keys) }
    open spec fn inner_spec(keys: Seq<K>, augs: Seq<Self>) -> Self { GroupCount::all_merged(augs, augs.len() as int) }
    open spec fn default_spec() -> Self { GroupCount::Zero }
    open spec fn value_free() -> bool { true }
    proof fn value_free_ok(keys: Seq<K>, a: Seq<V>, b: Seq<V>) {}

    fn default() -> (r: Self) { GroupCount::<G>::default() }
//@ fn augment/group.rs GroupCount::Augmentation::from_leaf
//@ props C09
//@ opt traitfn
//@ opt iter
//@ params keys values
//@ ret r
//@ spec
//@ loop 0
    invariant_except_break __it0.over(keys@),
    invariant 1 <= __it0.at() <= keys@.len(), first_group == G::of(keys@[0]),
        group_count == groups::<K, G>(keys@.take(__it0.at())), group_count >= 1,
        min_group_count == run_first::<K, G>(keys@, __it0.at()),
        last_group_item_count == (if group_count == 1 { 0int } else { 1 }),
        last_group.val() == G::of(keys@[run_start::<K, G>(keys@, __it0.at())]),
        group_count > 1 ==> last_group_count == __it0.at() - run_start::<K, G>(keys@, __it0.at()),
    ensures __it0.at() == keys@.len(),
    decreases keys@.len() - __it0.at(),
//@ at loopstart 0
    proof {
        let n = __it0.at();
        run_there::<K, G>(keys@, n - 1);
        assert(keys@.take(n).drop_last() =~= keys@.take(n - 1));
        groups_range::<K, G>(keys@.take(n - 1));
        assert(gat::<K, G>(keys@.take(n), n - 2) == gat::<K, G>(keys@, n - 2) && gat::<K, G>(keys@.take(n), n - 1) == gat::<K, G>(keys@, n - 1));
    }
//@ at before loop 0
    proof { assert(keys@.take(1).drop_last() =~= Seq::empty()); assert(groups::<K, G>(keys@.take(1).drop_last()) == 0); }
//@ at after loop 0
    proof { assert(keys@.take(keys@.len() as int) =~= keys@); run_there::<K, G>(keys@, keys@.len() as int); }
//@ fn augment/group.rs GroupCount::Augmentation::from_inner
//@ props C09
//@ opt traitfn
//@ opt iter
//@ params keys augs
//@ ret r
//@ spec
//@ loop 0
    invariant_except_break __it0.over(augs@),
    invariant accumulated == GroupCount::all_merged(augs@, __it0.at()),
    ensures __it0.at() == augs@.len(),
    decreases augs@.len() - __it0.at(),
//@ raw
}
impl<K: Key, V, G: FromRef<K>> Says<K, V> for GroupCount<G> {
    open spec fn says(self, ks: Seq<K>) -> bool { self.describes(ks) }
}
impl<K: Key, V, G: FromRef<K>> SeqAug<K, V> for GroupCount<G> {
    proof fn says_leaf(ks: Seq<K>, vs: Seq<V>) { leaf_described::<K, G>(ks); }
    proof fn says_inner(seps: Seq<K>, augs: Seq<Self>, ks: Seq<K>, c: Seq<int>) { all_described::<K, V, G>(augs, ks, c, augs.len() as int); assert(ks.take(ks.len() as int) =~= ks); }
    proof fn says_none() {}
}
/// the keys from n on, when the groups are sorted
proof fn split_cnt<K: Key, G: FromRef<K>>(ks: Seq<K>, n: int, x: real)
    requires sorted(ks), 0 <= n <= ks.len(),
    ensures ({
        let (t, u) = (ks.take(n), ks.skip(n));
        &&& gcnt::<K, G>(ks, x) == gcnt::<K, G>(t, x) + gcnt::<K, G>(u, x) && gless::<K, G>(ks, x) == gless::<K, G>(t, x) + gless::<K, G>(u, x)
        &&& 0 <= gcnt::<K, G>(t, x) && 0 <= gless::<K, G>(t, x) && gcnt::<K, G>(t, x) + gless::<K, G>(t, x) <= n && 0 <= gcnt::<K, G>(u, x) && 0 <= gless::<K, G>(u, x)
        &&& n < ks.len() && gat::<K, G>(ks, n) >= x ==> gless::<K, G>(u, x) == 0
        &&& n < ks.len() && gat::<K, G>(ks, n) > x ==> gcnt::<K, G>(u, x) == 0
        &&& n < ks.len() && gat::<K, G>(ks, n) == x ==> gcnt::<K, G>(u, x) > 0
        &&& n > 0 && gat::<K, G>(ks, n - 1) < x ==> gcnt::<K, G>(t, x) == 0 && gless::<K, G>(t, x) == n
        &&& n > 0 && gat::<K, G>(ks, n - 1) <= x ==> gcnt::<K, G>(t, x) + gless::<K, G>(t, x) == n
        &&& n < ks.len() ==> gcnt::<K, G>(ks.take(n + 1), x) == gcnt::<K, G>(t, x) + if gat::<K, G>(ks, n) == x { 1int } else { 0 }
        &&& n < ks.len() ==> gless::<K, G>(ks.take(n + 1), x) == gless::<K, G>(t, x) + if gat::<K, G>(ks, n) < x { 1int } else { 0 }
        &&& n == ks.len() ==> t == ks
    }),
{
    let (t, u) = (ks.take(n), ks.skip(n));
    groups_sorted::<K, G>(ks);
    assert(t + u =~= ks);
    cnt_add::<K, G>(t, u, x);
    cnt_range::<K, G>(t, x);
    cnt_range::<K, G>(u, x);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] gat::<K, G>(t, i) == gat::<K, G>(ks, i) by { }
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] gat::<K, G>(u, i) == gat::<K, G>(ks, n + i) by { }
    assert(gsorted::<K, G>(t));
    assert(gsorted::<K, G>(u));
    cnt_below::<K, G>(t, x);
    cnt_below::<K, G>(u, x);
    if n < ks.len() { assert(ks.take(n + 1).drop_last() =~= t); assert(ks.take(n + 1).last() == ks[n]); assert(gat::<K, G>(u, 0) == gat::<K, G>(ks, n)); }
    if n == ks.len() { assert(t =~= ks); }
    if n > 0 { assert(gat::<K, G>(t, n - 1) == gat::<K, G>(ks, n - 1)); }
}
/// what the description of child n says about the keys with group x
pub open spec fn child_says<K: Key, G: FromRef<K>>(augs: Seq<GroupCount<G>>, ks: Seq<K>, c: Seq<int>, n: int, x: real) -> bool {
    let (t, t2, w) = (ks.take(c[n]), ks.take(c[n + 1]), ks.subrange(c[n], c[n + 1]));
    let e = augs[n];
    let (mx, mn) = (e.max_spec()->0, e.max_spec()->0);
    &&& 0 <= c[n] && c[n] < c[n + 1] && c[n + 1] <= ks.len()
    &&& !(e is Zero) && e.max_spec() is Some
    &&& 0 <= gcnt::<K, G>(w, x) && 0 <= gless::<K, G>(w, x)
    &&& gcnt::<K, G>(t2, x) == gcnt::<K, G>(t, x) + gcnt::<K, G>(w, x) && gless::<K, G>(t2, x) == gless::<K, G>(t, x) + gless::<K, G>(w, x)
    &&& mx.0.gord() < x ==> gcnt::<K, G>(w, x) == 0 && gless::<K, G>(w, x) == c[n + 1] - c[n] && gcnt::<K, G>(t2, x) == 0 && gless::<K, G>(t2, x) == c[n + 1]
    &&& mx.0.gord() == x ==> gcnt::<K, G>(w, x) == mx.1 && gless::<K, G>(w, x) + gcnt::<K, G>(w, x) == c[n + 1] - c[n]
    &&& mx.0.gord() >= x ==> gless::<K, G>(ks, x) == gless::<K, G>(t2, x)
    &&& mx.0.gord() > x ==> gcnt::<K, G>(ks, x) == gcnt::<K, G>(t2, x)
    &&& e is One && mx.0.gord() > x ==> gcnt::<K, G>(w, x) == 0
    &&& gcnt::<K, G>(t, x) + gless::<K, G>(t, x) <= c[n] && 0 <= gcnt::<K, G>(t, x) && 0 <= gless::<K, G>(t, x)
    &&& gcnt::<K, G>(t2, x) <= gcnt::<K, G>(ks, x)
}
proof fn child_is<K: Key, V, G: FromRef<K>>(augs: Seq<GroupCount<G>>, ks: Seq<K>, c: Seq<int>, n: int, x: real)
    requires cuts::<K, V, GroupCount<G>>(augs, ks, c), 0 <= n < augs.len(),
    ensures child_says::<K, G>(augs, ks, c, n, x),
{
    assert(part::<K, V, GroupCount<G>>(augs, ks, c, n));
    let (t, t2, w) = (ks.take(c[n]), ks.take(c[n + 1]), ks.subrange(c[n], c[n + 1]));
    assert(t + w =~= t2);
    cnt_add::<K, G>(t, w, x);
    cnt_range::<K, G>(w, x);
    cnt_range::<K, G>(t, x);
    groups_sorted::<K, G>(ks);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] gat::<K, G>(w, i) == gat::<K, G>(ks, c[n] + i) by { }
    assert(gsorted::<K, G>(w));
    cnt_below::<K, G>(w, x);
    split_cnt::<K, G>(ks, c[n + 1], x);
    split_cnt::<K, G>(ks, c[n], x);
    assert(gat::<K, G>(w, w.len() - 1) == gat::<K, G>(ks, c[n + 1] - 1));
    if c[n + 1] < ks.len() { assert(gat::<K, G>(ks, c[n + 1] - 1) <= gat::<K, G>(ks, c[n + 1])); }
    else { assert(t2 =~= ks); }
}
proof fn children_are<K: Key, V, G: FromRef<K>>(augs: Seq<GroupCount<G>>, n: int, x: real)
    requires 0 <= n < augs.len(),
    ensures forall|ks: Seq<K>, c: Seq<int>| #[trigger] cuts::<K, V, GroupCount<G>>(augs, ks, c) ==> child_says::<K, G>(augs, ks, c, n, x),
{
    assert forall|ks: Seq<K>, c: Seq<int>| #[trigger] cuts::<K, V, GroupCount<G>>(augs, ks, c) implies child_says::<K, G>(augs, ks, c, n, x) by { child_is::<K, V, G>(augs, ks, c, n, x); }
}
/// the children before child n hold `gone` keys with group x, and none with a larger group
pub open spec fn passed<K: Key, V, G: FromRef<K>>(augs: Seq<GroupCount<G>>, n: int, x: real, gone: int) -> bool {
    forall|ks: Seq<K>, c: Seq<int>| #[trigger] cuts::<K, V, GroupCount<G>>(augs, ks, c) ==> gcnt::<K, G>(ks.take(c[n]), x) == gone && gless::<K, G>(ks.take(c[n]), x) + gone == c[n]
}
impl<K: Key, V, G: FromRef<K>> SearchAugmentation<K, V> for GroupCount<G> {
    type Query = (G, usize);
    /// the key at the offset among the keys of the group
    open spec fn picks(q: (G, usize), ks: Seq<K>) -> Option<int> {
        if q.1 < gcnt::<K, G>(ks, q.0.gord()) { Some(gless::<K, G>(ks, q.0.gord()) + q.1) } else { None }
    }
//@ fn augment/group.rs GroupCount::SearchAugmentation::locate_in_leaf
//@ props C09
//@ opt traitfn
//@ opt iter
//@ params query keys values
//@ ret r
//@ spec
//@ at start
    proof { split_cnt::<K, G>(keys@, 0, query.0.gord()); assert(keys@.take(0) =~= Seq::empty()); split_cnt::<K, G>(keys@, keys@.len() as int, query.0.gord()); }
//@ loop 0
    invariant_except_break __it0.over(keys@),
    invariant sorted(keys@), group == query.0, offset == query.1, in_group_offset == gcnt::<K, G>(keys@.take(__it0.at()), group.gord()), in_group_offset <= offset,
        gless::<K, G>(keys@.take(__it0.at()), group.gord()) + in_group_offset == __it0.at(),
    ensures __it0.at() == keys@.len(),
    decreases keys@.len() - __it0.at(),
//@ at loopstart 0
    proof { split_cnt::<K, G>(keys@, __it0.at() - 1, query.0.gord()); }
//@ fn augment/group.rs GroupCount::SearchAugmentation::locate_in_inner
//@ props C09
//@ opt traitfn
//@ opt iter
//@ opt wrap
//@ params query keys augs
//@ ret r
//@ spec
//@ at start
    proof { assert forall|ks: Seq<K>, c: Seq<int>| #[trigger] cuts::<K, V, GroupCount<G>>(augs@, ks, c) implies gcnt::<K, G>(ks.take(c[0]), query.0.gord()) == 0 && gless::<K, G>(ks.take(c[0]), query.0.gord()) + 0 == c[0] by { assert(ks.take(0) =~= Seq::empty()); } }
//@ loop 0
    invariant_except_break __it0.over(augs@),
    invariant group == query.0, offset <= query.1, passed::<K, V, G>(augs@, __it0.at(), group.gord(), query.1 - offset),
    ensures __it0.at() == augs@.len(),
    decreases augs@.len() - __it0.at(),
//@ at loopstart 0
    proof { children_are::<K, V, G>(augs@, __it0.at() - 1, query.0.gord()); }
//@ at end
    proof { if __ret is None { assert forall|ks: Seq<K>, c: Seq<int>| #[trigger] cuts::<K, V, GroupCount<G>>(augs@, ks, c) implies ks.take(ks.len() as int) == ks by { assert(ks.take(ks.len() as int) =~= ks); } } }
//@ raw
}
/// the keys from child n on that have group x
proof fn tail_cnt<K: Key, V, G: FromRef<K>>(augs: Seq<GroupCount<G>>, ks: Seq<K>, c: Seq<int>, n: int, x: real)
    requires cuts::<K, V, GroupCount<G>>(augs, ks, c), 0 <= n < augs.len(),
    ensures
        child_says::<K, G>(augs, ks, c, n, x),
        gcnt::<K, G>(ks.skip(c[n]), x) == gcnt::<K, G>(ks.subrange(c[n], c[n + 1]), x) + gcnt::<K, G>(ks.skip(c[n + 1]), x),
        gcnt::<K, G>(ks, x) == gcnt::<K, G>(ks.take(c[n]), x) + gcnt::<K, G>(ks.skip(c[n]), x),
        0 <= gcnt::<K, G>(ks.skip(c[n]), x) <= ks.len() <= usize::MAX,
        n == 0 ==> ks.skip(c[n]) == ks,
        n + 1 == augs.len() ==> gcnt::<K, G>(ks.skip(c[n + 1]), x) == 0 && ks.len() > 0 && (augs[n].max_spec()->0).0.gord() == gat::<K, G>(ks, ks.len() - 1),
        n + 1 < augs.len() && x == gat::<K, G>(ks, ks.len() - 1) && (augs[n].max_spec()->0).0.gord() != x ==> gcnt::<K, G>(ks, x) == gcnt::<K, G>(ks.skip(c[n + 1]), x),
{
    child_is::<K, V, G>(augs, ks, c, n, x);
    assert(part::<K, V, GroupCount<G>>(augs, ks, c, n));
    let w = ks.subrange(c[n], c[n + 1]);
    assert(w + ks.skip(c[n + 1]) =~= ks.skip(c[n]));
    cnt_add::<K, G>(w, ks.skip(c[n + 1]), x);
    assert(ks.take(c[n]) + ks.skip(c[n]) =~= ks);
    cnt_add::<K, G>(ks.take(c[n]), ks.skip(c[n]), x);
    assert(ks.take(c[n + 1]) + ks.skip(c[n + 1]) =~= ks);
    cnt_add::<K, G>(ks.take(c[n + 1]), ks.skip(c[n + 1]), x);
    cnt_range::<K, G>(ks.skip(c[n]), x);
    groups_sorted::<K, G>(ks);
    assert(gat::<K, G>(w, w.len() - 1) == gat::<K, G>(ks, c[n + 1] - 1));
    assert(gat::<K, G>(ks, c[n + 1] - 1) <= gat::<K, G>(ks, ks.len() - 1));
    if n == 0 { assert(ks.skip(0) =~= ks); }
    if n + 1 == augs.len() { assert(ks.skip(c[n + 1]) =~= Seq::empty()); }
}
proof fn tails<K: Key, V, G: FromRef<K>>(augs: Seq<GroupCount<G>>, n: int, x: real)
    requires 0 <= n < augs.len(),
    ensures forall|ks: Seq<K>, c: Seq<int>| #[trigger] cuts::<K, V, GroupCount<G>>(augs, ks, c) ==> {
        &&& child_says::<K, G>(augs, ks, c, n, x)
        &&& gcnt::<K, G>(ks.skip(c[n]), x) == gcnt::<K, G>(ks.subrange(c[n], c[n + 1]), x) + gcnt::<K, G>(ks.skip(c[n + 1]), x)
        &&& 0 <= gcnt::<K, G>(ks.skip(c[n]), x) <= ks.len() <= usize::MAX
        &&& n == 0 ==> ks.skip(c[n]) == ks
        &&& n + 1 == augs.len() ==> gcnt::<K, G>(ks.skip(c[n + 1]), x) == 0 && ks.len() > 0 && (augs[n].max_spec()->0).0.gord() == gat::<K, G>(ks, ks.len() - 1)
        &&& n + 1 < augs.len() && x == gat::<K, G>(ks, ks.len() - 1) && (augs[n].max_spec()->0).0.gord() != x ==> gcnt::<K, G>(ks, x) == gcnt::<K, G>(ks.skip(c[n + 1]), x)
    },
{
    assert forall|ks: Seq<K>, c: Seq<int>| #[trigger] cuts::<K, V, GroupCount<G>>(augs, ks, c) implies {
        &&& child_says::<K, G>(augs, ks, c, n, x)
        &&& gcnt::<K, G>(ks.skip(c[n]), x) == gcnt::<K, G>(ks.subrange(c[n], c[n + 1]), x) + gcnt::<K, G>(ks.skip(c[n + 1]), x)
        &&& 0 <= gcnt::<K, G>(ks.skip(c[n]), x) <= ks.len() <= usize::MAX
        &&& n == 0 ==> ks.skip(c[n]) == ks
        &&& n + 1 == augs.len() ==> gcnt::<K, G>(ks.skip(c[n + 1]), x) == 0 && ks.len() > 0 && (augs[n].max_spec()->0).0.gord() == gat::<K, G>(ks, ks.len() - 1)
        &&& n + 1 < augs.len() && x == gat::<K, G>(ks, ks.len() - 1) && (augs[n].max_spec()->0).0.gord() != x ==> gcnt::<K, G>(ks, x) == gcnt::<K, G>(ks.skip(c[n + 1]), x)
    } by { tail_cnt::<K, V, G>(augs, ks, c, n, x); }
}
/// the children from child n on hold `size` keys of the last group x
pub open spec fn tailing<K: Key, V, G: FromRef<K>>(augs: Seq<GroupCount<G>>, n: int, x: real, size: usize) -> bool {
    forall|ks: Seq<K>, c: Seq<int>| #[trigger] cuts::<K, V, GroupCount<G>>(augs, ks, c) ==> size == gcnt::<K, G>(ks.skip(c[n]), x) && ks.len() > 0 && x == gat::<K, G>(ks, ks.len() - 1)
}
/// ... all of them, if none of the others has any
pub open spec fn totals<K: Key, V, G: FromRef<K>>(augs: Seq<GroupCount<G>>, x: real, size: usize) -> bool {
    forall|ks: Seq<K>, c: Seq<int>| #[trigger] cuts::<K, V, GroupCount<G>>(augs, ks, c) ==> size == gcnt::<K, G>(ks, x) && ks.len() > 0 && x == gat::<K, G>(ks, ks.len() - 1) && ks.len() <= usize::MAX
}
impl<K: Key, V, G: FromRef<K>> RankSpec<K, V> for GroupCount<G> {
    type Rank = Option<(G, usize)>;
    open spec fn so_far(r: Option<(G, usize)>, pre: Seq<K>) -> bool {
        match r {
            None => pre.len() == 0,
            Some((g, c)) => pre.len() > 0 && g.gord() == gat::<K, G>(pre, pre.len() - 1) && c == gcnt::<K, G>(pre, g.gord()),
        }
    }
    /// the group of k, and the number of smaller keys in it
    open spec fn ranks(r: Option<(G, usize)>, k: K, pre: Seq<K>) -> bool {
        match r { None => false, Some((g, c)) => g == G::of(k) && c == gcnt::<K, G>(pre, g.gord()) }
    }
}
proof fn folded<K: Key, V, G: FromRef<K>>(augs: Seq<GroupCount<G>>, k: K, rank: Option<(G, usize)>, x: real, size: usize)
    requires augs.len() > 0, totals::<K, V, G>(augs, x, size),
    ensures forall|pre: Seq<K>, ks: Seq<K>, c: Seq<int>| #[trigger] folds::<K, V, GroupCount<G>>(k, rank, augs, pre, ks, c) ==> {
        &&& (pre + ks).len() > 0 && gat::<K, G>(pre + ks, (pre + ks).len() - 1) == x
        &&& gcnt::<K, G>(pre + ks, x) == size + (match rank { Some((g, n)) if g.gord() == x => n as int, _ => 0 })
        &&& gcnt::<K, G>(pre + ks, x) <= usize::MAX
    },
{
    assert forall|pre: Seq<K>, ks: Seq<K>, c: Seq<int>| #[trigger] folds::<K, V, GroupCount<G>>(k, rank, augs, pre, ks, c) implies {
        &&& (pre + ks).len() > 0 && gat::<K, G>(pre + ks, (pre + ks).len() - 1) == x
        &&& gcnt::<K, G>(pre + ks, x) == size + (match rank { Some((g, n)) if g.gord() == x => n as int, _ => 0 })
        &&& gcnt::<K, G>(pre + ks, x) <= usize::MAX
    } by {
        let s = pre + ks;
        assert(cuts::<K, V, GroupCount<G>>(augs, ks, c));
        assert(gat::<K, G>(s, s.len() - 1) == gat::<K, G>(ks, ks.len() - 1));
        cnt_add::<K, G>(pre, ks, x);
        cnt_range::<K, G>(s, x);
        groups_sorted::<K, G>(s);
        if pre.len() > 0 {
            assert forall|i: int| 0 <= i < pre.len() implies #[trigger] gat::<K, G>(pre, i) == gat::<K, G>(s, i) by { }
            assert(gsorted::<K, G>(pre));
            cnt_below::<K, G>(pre, x);
            assert(gat::<K, G>(pre, pre.len() - 1) == gat::<K, G>(s, pre.len() - 1));
            assert(gat::<K, G>(s, pre.len() - 1) <= gat::<K, G>(s, s.len() - 1));
        }
    }
}
/// the rank in a leaf
proof fn landed<K: Key, V, G: FromRef<K>>(k: K, rank: Option<(G, usize)>, slot: Result<usize, usize>, ks: Seq<K>)
    ensures forall|pre: Seq<K>| #[trigger] lands::<K, V, GroupCount<G>>(k, rank, slot, pre, ks) ==> {
        let x = G::of(k).gord();
        let i = slot_of(slot);
        let all = pre + ks.take(i);
        &&& 0 <= i <= ks.len() && sorted(ks)
        &&& gcnt::<K, G>(all, x) <= usize::MAX
        &&& ks.len() == 0 ==> gcnt::<K, G>(all, x) == 0 && slot is Err
        &&& rank is Some && (rank->0).0.gord() == x ==> gcnt::<K, G>(all, x) == (rank->0).1 + i
        &&& rank is None && ks.len() > 0 && gat::<K, G>(ks, 0) == x ==> gcnt::<K, G>(all, x) == i
        &&& rank is Some && (rank->0).0.gord() != x ==> gcnt::<K, G>(all, x) == gcnt::<K, G>(ks.take(i), x)
        &&& rank is None ==> gcnt::<K, G>(all, x) == gcnt::<K, G>(ks.take(i), x)
    },
{
    assert forall|pre: Seq<K>| #[trigger] lands::<K, V, GroupCount<G>>(k, rank, slot, pre, ks) implies {
        let x = G::of(k).gord();
        let i = slot_of(slot);
        let all = pre + ks.take(i);
        &&& 0 <= i <= ks.len() && sorted(ks)
        &&& gcnt::<K, G>(all, x) <= usize::MAX
        &&& ks.len() == 0 ==> gcnt::<K, G>(all, x) == 0 && slot is Err
        &&& rank is Some && (rank->0).0.gord() == x ==> gcnt::<K, G>(all, x) == (rank->0).1 + i
        &&& rank is None && ks.len() > 0 && gat::<K, G>(ks, 0) == x ==> gcnt::<K, G>(all, x) == i
        &&& rank is Some && (rank->0).0.gord() != x ==> gcnt::<K, G>(all, x) == gcnt::<K, G>(ks.take(i), x)
        &&& rank is None ==> gcnt::<K, G>(all, x) == gcnt::<K, G>(ks.take(i), x)
    } by {
        let x = G::of(k).gord();
        let i = slot_of(slot);
        let s = pre + ks;
        let t = ks.take(i);
        let all = pre + t;
        assert forall|a: int, b: int| 0 <= a < b < ks.len() implies (#[trigger] ks[a]).ord() < (#[trigger] ks[b]).ord() by { assert(s[pre.len() + a] == ks[a] && s[pre.len() + b] == ks[b]); }
        cnt_add::<K, G>(pre, t, x);
        cnt_range::<K, G>(all, x);
        groups_sorted::<K, G>(s);
        groups_sorted::<K, G>(ks);
        assert forall|j: int| 0 <= j < all.len() implies #[trigger] gat::<K, G>(all, j) == gat::<K, G>(s, j) && gat::<K, G>(all, j) <= x by { assert(all[j] == s[j]); assert(s[j].ord() < k.ord()); G::of_mono(s[j], k); }
        assert forall|j: int| 0 <= j < pre.len() implies #[trigger] gat::<K, G>(pre, j) == gat::<K, G>(s, j) && gat::<K, G>(pre, j) <= x by { assert(gat::<K, G>(all, j) <= x); }
        assert forall|j: int| 0 <= j < t.len() implies #[trigger] gat::<K, G>(t, j) == gat::<K, G>(s, pre.len() + j) && gat::<K, G>(t, j) <= x by { assert(gat::<K, G>(all, pre.len() + j) <= x); }
        assert(gsorted::<K, G>(pre));
        assert(gsorted::<K, G>(t));
        cnt_below::<K, G>(pre, x);
        cnt_below::<K, G>(t, x);
        if pre.len() > 0 {
            assert(gat::<K, G>(pre, pre.len() - 1) <= x);
            if t.len() > 0 { assert(gat::<K, G>(pre, pre.len() - 1) == gat::<K, G>(s, pre.len() - 1)); assert(gat::<K, G>(t, 0) == gat::<K, G>(s, pre.len() as int)); assert(gat::<K, G>(t, 0) <= x && gat::<K, G>(t, t.len() - 1) <= x); assert(gat::<K, G>(t, 0) <= gat::<K, G>(t, t.len() - 1)); }
        }
        if t.len() > 0 { assert(gat::<K, G>(t, 0) == gat::<K, G>(ks, 0)); assert(gat::<K, G>(t, t.len() - 1) <= x); assert(gat::<K, G>(t, 0) <= gat::<K, G>(t, t.len() - 1)); }
    }
}
impl<K: Key, V, G: FromRef<K>> RankAugmentation<K, V> for GroupCount<G> {
//@ fn augment/group.rs GroupCount::RankAugmentation::initial_value
//@ props C09
//@ opt traitfn
//@ ret r
//@ spec
//@ fn augment/group.rs GroupCount::RankAugmentation::fold_inner
//@ props C09
//@ opt traitfn
//@ opt iter
//@ opt wrap
//@ params k rank augs
//@ ret r
//@ spec
//@ at start
    proof {
        assert forall|pre: Seq<K>, ks: Seq<K>, c: Seq<int>| #[trigger] folds::<K, V, GroupCount<G>>(*k, rank, augs@, pre, ks, c) && augs@.len() == 0 implies pre + ks == pre by { assert(pre + ks =~= pre); }
        if augs@.len() > 0 {
            assert forall|pre: Seq<K>, ks: Seq<K>, c: Seq<int>| #[trigger] folds::<K, V, GroupCount<G>>(*k, rank, augs@, pre, ks, c) implies augs@[augs@.len() - 1].max_spec() is Some by { child_is::<K, V, G>(augs@, ks, c, augs@.len() - 1, 0real); }
        }
    }
//@ at before loop 0
    proof { tails::<K, V, G>(augs@, augs@.len() - 1, max_group.gord()); }
//@ loop 0
    invariant_except_break __it0.over(augs@), __it0.at() < augs@.len(), tailing::<K, V, G>(augs@, __it0.at(), max_group.gord(), max_group_size),
        __it0.at() == 0 ==> totals::<K, V, G>(augs@, max_group.gord(), max_group_size),
    ensures totals::<K, V, G>(augs@, max_group.gord(), max_group_size),
    decreases __it0.at(),
//@ at loopstart 0
    proof { tails::<K, V, G>(augs@, __it0.at(), max_group.gord()); }
//@ at after loop 0
    proof { folded::<K, V, G>(augs@, *k, rank, max_group.gord(), max_group_size); }
//@ fn augment/group.rs GroupCount::RankAugmentation::fold_leaf
//@ props C09
//@ opt traitfn
//@ opt iter
//@ opt wrap
//@ params key rank slot keys
//@ ret r
//@ spec
//@ at start
    proof { landed::<K, V, G>(*key, rank, slot, keys@); }
//@ loop 0
    invariant_except_break __it0.over(keys@.take(slot_of(slot))),
    invariant count == gcnt::<K, G>(keys@.take(__it0.at()), group_for_key.gord()), sorted(keys@), slot_of(slot) <= keys@.len(),
    ensures __it0.at() == slot_of(slot),
    decreases slot_of(slot) - __it0.at(),
//@ at loopstart 0
    proof { split_cnt::<K, G>(keys@, __it0.at() - 1, group_for_key.gord()); cnt_range::<K, G>(keys@.take(__it0.at()), group_for_key.gord()); }
//@ raw
}

/// how far a visitor for the group at x looks
pub open spec fn stops<G: Grp>(augs: Seq<GroupCount<G>>, x: real, n: int) -> int
    decreases augs.len() - n,
{
    if n >= augs.len() || augs[n].max_spec() is None || (augs[n].max_spec()->0).0.gord() > x { n } else { stops(augs, x, n + 1) }
}
/// what it has counted after n children, without the last of them, and what that one adds
pub open spec fn counts<G: Grp>(augs: Seq<GroupCount<G>>, x: real, from: usize, n: int) -> (usize, usize)
    decreases n,
{
    if n <= 0 { (from, 0) } else {
        let (e, p) = counts(augs, x, from, n - 1);
        match augs[n - 1].max_spec() { Some((g, c)) if g.gord() == x => (wrapped(e, p), c), _ => (e, p) }
    }
}
//@ struct augment/group.rs ExtractGroupSize
//@ raw
impl<K, G: Grp> ExtractGroupSize<G, K> {
//@ fn augment/group.rs ExtractGroupSize::new
//@ props C09
//@ params g
//@ ret r
//@ spec
    ensures r.group == g, r.element_count == 0,
//@ raw
    pub open spec fn next(self, augs: Seq<GroupCount<G>>) -> Self {
        let (x, n) = (self.group.gord(), stops(augs, self.group.gord(), 0));
        let (e, p) = counts(augs, x, self.element_count, n);
        ExtractGroupSize { element_count: if n < augs.len() && augs[n].max_spec() is Some { wrapped(e, p) } else { e }, ..self }
    }
    pub open spec fn down(self, augs: Seq<GroupCount<G>>) -> DescendVisitResult<usize> {
        let n = stops(augs, self.group.gord(), 0);
        if n >= augs.len() { DescendVisitResult::GoDown((augs.len() - 1) as usize) }
        else if augs[n].max_spec() is None { DescendVisitResult::Cancel }
        else { DescendVisitResult::GoDown(n as usize) }
    }
}
impl<K: Key, V, G: FromRef<K>> DescendVisit<K, V, GroupCount<G>> for ExtractGroupSize<G, K> {
    type Result = usize;
    open spec fn inner_next(self, keys: Seq<K>, augs: Seq<GroupCount<G>>) -> Self { self.next(augs) }
    open spec fn inner_says(self, keys: Seq<K>, augs: Seq<GroupCount<G>>) -> DescendVisitResult<usize> { self.down(augs) }
    open spec fn leaf_says(self, keys: Seq<K>, values: Seq<V>) -> Option<usize> {
        Some(wrapped(self.element_count, gcnt::<K, G>(keys, self.group.gord()) as usize))
    }
//@ fn augment/group.rs ExtractGroupSize::DescendVisit::visit_inner
//@ props C09
//@ opt traitfn
//@ opt iter
//@ opt wrap
//@ params self keys augs
//@ ret r
//@ spec
//@ loop 0
    invariant_except_break __it0.over(augs@), (self.element_count, prev_group_count) == counts(augs@, self.group.gord(), old(self).element_count, __it0.at()),
        __it0.at() > 0 ==> child_idx == __it0.at() - 1, augs@.len() <= usize::MAX,
        stops(augs@, self.group.gord(), 0) == stops(augs@, self.group.gord(), __it0.at()),
    invariant augs@.len() > 0, *self == (ExtractGroupSize { element_count: self.element_count, ..*old(self) }),
    ensures self.element_count == old(self).next(augs@).element_count, old(self).down(augs@) == DescendVisitResult::<usize>::GoDown(child_idx), child_idx < augs@.len(),
    decreases augs@.len() - __it0.at(),
//@ at start
    proof { assert(augs@.len() > 0); }
//@ fn augment/group.rs ExtractGroupSize::DescendVisit::visit_leaf
//@ props C09
//@ opt traitfn
//@ opt iter
//@ opt wrap
//@ params self keys values
//@ ret r
//@ spec
//@ loop 0
    invariant_except_break __it0.over(keys@), self.element_count == wrapped(old(self).element_count, gcnt::<K, G>(keys@.take(__it0.at()), self.group.gord()) as usize),
    invariant sorted(keys@), keys@.len() <= usize::MAX, self.group == old(self).group, keys@.take(keys@.len() as int) == keys@,
    ensures self.element_count == wrapped(old(self).element_count, gcnt::<K, G>(keys@, self.group.gord()) as usize),
    decreases keys@.len() - __it0.at(),
//@ at before loop 0
    proof { split_cnt::<K, G>(keys@, 0, self.group.gord()); assert(keys@.take(0) =~= Seq::empty()); if keys@.len() == 0 { assert(keys@ =~= Seq::empty()); } split_cnt::<K, G>(keys@, keys@.len() as int, self.group.gord()); }
//@ at loopstart 0
    proof { split_cnt::<K, G>(keys@, __it0.at() - 1, self.group.gord()); split_cnt::<K, G>(keys@, __it0.at(), self.group.gord()); }
//@ raw
}
proof fn stops_at<G: Grp>(augs: Seq<GroupCount<G>>, x: real, n: int)
    requires 0 <= n <= augs.len(),
    ensures n <= stops(augs, x, n) <= augs.len(),
        forall|i: int| n <= i < stops(augs, x, n) ==> (#[trigger] augs[i]).max_spec() is Some && (augs[i].max_spec()->0).0.gord() <= x,
        stops(augs, x, n) < augs.len() ==> augs[stops(augs, x, n)].max_spec() is None || (augs[stops(augs, x, n)].max_spec()->0).0.gord() > x,
    decreases augs.len() - n,
{
    if !(n >= augs.len() || augs[n].max_spec() is None || (augs[n].max_spec()->0).0.gord() > x) { stops_at(augs, x, n + 1); }
}
proof fn counted<K: Key, V, G: FromRef<K>>(augs: Seq<GroupCount<G>>, ks: Seq<K>, c: Seq<int>, x: real, from: usize, n: int)
    requires cuts::<K, V, GroupCount<G>>(augs, ks, c), 0 <= n <= stops(augs, x, 0), from + gcnt::<K, G>(ks, x) <= usize::MAX,
    ensures ({
        let (e, p) = counts(augs, x, from, n);
        &&& e + p == from + gcnt::<K, G>(ks.take(c[n]), x)
        &&& n > 0 ==> e == from + gcnt::<K, G>(ks.take(c[n - 1]), x)
    }),
    decreases n,
{
    stops_at(augs, x, 0);
    if n > 0 {
        counted::<K, V, G>(augs, ks, c, x, from, n - 1);
        child_is::<K, V, G>(augs, ks, c, n - 1, x);
        assert(augs[n - 1].max_spec() is Some);
        cnt_range::<K, G>(ks.take(c[n - 1]), x);
        if n > 1 { cnt_range::<K, G>(ks.take(c[n - 2]), x); }
    } else {
        assert(ks.take(c[0]) =~= Seq::empty());
    }
}
/// where the visitor goes
proof fn group_down<K: Key, V, G: FromRef<K>>(w: ExtractGroupSize<G, K>, augs: Seq<GroupCount<G>>, ks: Seq<K>, c: Seq<int>)
    requires cuts::<K, V, GroupCount<G>>(augs, ks, c), augs.len() > 0, augs.len() <= usize::MAX, w.element_count + gcnt::<K, G>(ks, w.group.gord()) <= usize::MAX,
    ensures ({
        let d = w.down(augs);
        let i = d->GoDown_0 as int;
        &&& d is GoDown && i < augs.len() && w.next(augs).group == w.group
        &&& w.next(augs).element_count + gcnt::<K, G>(ks.subrange(c[i], c[i + 1]), w.group.gord()) == w.element_count + gcnt::<K, G>(ks, w.group.gord())
    }),
{
    let x = w.group.gord();
    let s = stops(augs, x, 0);
    stops_at(augs, x, 0);
    counted::<K, V, G>(augs, ks, c, x, w.element_count, s);
    let i = if s == augs.len() { s - 1 } else { s };
    child_is::<K, V, G>(augs, ks, c, i, x);
    assert(ks.take(ks.len() as int) =~= ks);
}
/// the visitor finds the size of the group
pub proof fn group_led<K: Key, V, G: FromRef<K>>(t: &BPlusTree<K, V, GroupCount<G>>, n: NodeId, w: ExtractGroupSize<G, K>)
    requires t.wf(), t.gg().fresh, t.gg().rg.contains_key(n), w.element_count + gcnt::<K, G>(below(t, n), w.group.gord()) <= usize::MAX, t.gg().rg[n].h >= 0,
    ensures led::<K, V, GroupCount<G>, ExtractGroupSize<G, K>>(t.im(), t.lm(), n, t.gg().rg[n].h as nat, w) == Some((w.element_count + gcnt::<K, G>(below(t, n), w.group.gord())) as usize),
    decreases t.gg().rg[n].h,
{
    let (im, lm, g, m) = (t.im(), t.lm(), t.gg(), t.m());
    let all = keys(m);
    tree_keyed(im, lm, g, m);
    node_there(im, lm, g, m, n);
    node_says(im, lm, g, m, all, n);
    let x = w.group.gord();
    cnt_range::<K, G>(below(t, n), x);
    match n {
        NodeId::Leaf(id) => {
            assert(leaf_ok(lm, g, m, id));
            leaf_within(lm, g, m, all, id);
        }
        NodeId::Inner(id) => {
            children_there(im, lm, g, m, id);
            let augs = im[id].augs();
            let c = child_cuts(all, im[id], g.rg[n]);
            group_down::<K, V, G>(w, augs, below(t, n), c);
            let i = w.down(augs)->GoDown_0 as int;
            child_within(im, lm, g, m, all, id, i);
            let q = im[id].cs()[i];
            assert(g.rg.contains_key(q) && g.rg[q].h == g.rg[n].h - 1);
            node_there(im, lm, g, m, q);
            group_led(t, q, w.next(augs));
        }
    }
}
/// The size of a group, as a visitor of an up-to-date tree finds it (`descend_visit`)
pub proof fn group_size<K: Key, V, G: FromRef<K>>(t: &BPlusTree<K, V, GroupCount<G>>, w: ExtractGroupSize<G, K>)
    requires t.wf(), t.gg().fresh, w.element_count == 0,
    ensures led::<K, V, GroupCount<G>, ExtractGroupSize<G, K>>(t.im(), t.lm(), t.root, t.gg().h as nat, w) == Some(gcnt::<K, G>(keys(t.m()), w.group.gord()) as usize), //[C09]
        lists(t.m(), keys(t.m())),
{
    let m = t.m();
    tree_keyed(t.im(), t.lm(), t.gg(), m);
    all_within(m, keys(m));
    assert(t.gg().rg[t.gg().root] == (R { h: t.gg().h, lo: 0real, hi: 1real }));
    cnt_range::<K, G>(keys(m), w.group.gord());
    group_led(t, t.root, w);
}
/// The number of groups of an up-to-date tree
pub proof fn group_number<K: Key, V, G: FromRef<K>>(t: &BPlusTree<K, V, GroupCount<G>>)
    requires t.wf(), t.gg().fresh,
    ensures ({
        let n = groups::<K, G>(keys(t.m()));
        match t.root_augmentation { GroupCount::Zero => n == 0, GroupCount::One(g, c) => n == 1 && c == t.m().len(), GroupCount::Multiple { min_group, max_group, group_count } => n == group_count && n > 1 } //[C09]
    }),
{
    root_says::<K, V, GroupCount<G>>(t);
    let ks = keys(t.m());
    groups_sorted::<K, G>(ks);
    groups_range::<K, G>(ks);
    if ks.len() > 0 { cnt_below::<K, G>(ks, gat::<K, G>(ks, 0)); }
}
