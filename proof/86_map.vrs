//@ raw
// ======================= the map ====================================================================
//@ struct map.rs BPlusTreeMap
//@ generics <K: Key, V, A: Augmentation<K, V>>
//@ struct map.rs/iter MapIter
//@ raw
impl<'a, K: Key, V, A: Augmentation<K, V>> MapIter<'a, K, V, A> {
//@ fn map.rs/iter MapIter::Iterator::size_hint
//@ props C04
//@ params self
//@ ret r
//@ spec
    requires self.inner.wf(),
    ensures r.0 == self.inner.rem().len(), r.1 == Some(r.0),
//@ fn map.rs/iter MapIter::Iterator::next
//@ props C04
//@ params self
//@ ret r
//@ spec
    requires old(self).inner.wf(),
    ensures final(self).inner.wf(), final(self).inner.tree == old(self).inner.tree,
        r is None ==> old(self).inner.rem().len() == 0 && final(self).inner.rem() == old(self).inner.rem(),
        r is Some ==> ({ let x = (r->0).0.ord(); is_min(old(self).inner.rem(), x) && old(self).inner.rem()[x] == (*(r->0).0, *(r->0).1) && final(self).inner.rem() == old(self).inner.rem().remove(x) }),
//@ fn map.rs/iter MapIter::DoubleEndedIterator::next_back
//@ props C04
//@ params self
//@ ret r
//@ spec
    requires old(self).inner.wf(),
    ensures final(self).inner.wf(), final(self).inner.tree == old(self).inner.tree,
        r is None ==> old(self).inner.rem().len() == 0 && final(self).inner.rem() == old(self).inner.rem(),
        r is Some ==> ({ let x = (r->0).0.ord(); is_max(old(self).inner.rem(), x) && old(self).inner.rem()[x] == (*(r->0).0, *(r->0).1) && final(self).inner.rem() == old(self).inner.rem().remove(x) }),
//@ raw
}
impl<K: Key, V, A: Augmentation<K, V>> BPlusTreeMap<K, V, A> {
    pub open spec fn wf(&self) -> bool { self.inner.wf() }
    pub open spec fn m(&self) -> Map<real, (K, V)> { self.inner.m() }
//@ fn map.rs BPlusTreeMap::new
//@ props C02
//@ ret r
//@ spec
    ensures r.wf(), r.m() == Map::<real, (K, V)>::empty(), r.inner.gg().fresh, r.inner.gg().h == 0,
//@ fn map.rs BPlusTreeMap::Default::default
//@ props C02
//@ ret r
//@ spec
    ensures r.wf(), r.m() == Map::<real, (K, V)>::empty(), r.inner.gg().fresh, r.inner.gg().h == 0,
//@ fn map.rs BPlusTreeMap::len
//@ props C02 C03 C06
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == self.m().len(),
//@ fn map.rs BPlusTreeMap::is_empty
//@ props C02 C03 C06
//@ params self
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == (self.m().len() == 0),
//@ fn map.rs BPlusTreeMap::insert
//@ props C02 C07 C11
//@ params self key value
//@ ret r
//@ spec
    requires old(self).wf(), old(self).inner.len < usize::MAX,
    ensures final(self).wf(), final(self).m() == ins_m(old(self).m(), key, value), //[C02]
        r == (if old(self).m().contains_key(key.ord()) { Some(old(self).m()[key.ord()].1) } else { None }), //[C02]
        final(self).inner.gg().fresh == old(self).inner.gg().fresh, //[C07 C08 C09]
        final(self).inner.gg().strict == old(self).inner.gg().strict, //[C11]
//@ fn map.rs BPlusTreeMap::get
//@ props C01
//@ params self key
//@ ret r
//@ spec
    requires self.wf(),
    ensures shows(r, lookup(self.m(), key.ord())),
//@ fn map.rs BPlusTreeMap::get_mut
//@ props C01
//@ params self key
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        (r is Some) == old(self).m().contains_key(key.ord()),
        r is Some ==> *(r->0) == old(self).m()[key.ord()].1 && old(self).inner.set_value(&final(self).inner, key.ord(), *final(r->0)),
        r is None ==> old(self).inner.same_tree(&final(self).inner),
        final(self).wf(),
//@ fn map.rs BPlusTreeMap::remove
//@ props C03 C07 C11
//@ params self key
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).m() == old(self).m().remove(key.ord()), //[C03]
        r == (if old(self).m().contains_key(key.ord()) { Some(old(self).m()[key.ord()].1) } else { None }), //[C03]
        final(self).inner.gg().fresh == old(self).inner.gg().fresh, //[C07 C08 C09]
        final(self).inner.gg().strict == old(self).inner.gg().strict, //[C11]
//@ fn map.rs BPlusTreeMap::iter
//@ props C04
//@ params self
//@ ret r
//@ generics
//@ subst r: I0 => r: MapIter<'_, K, V, A>
//@ spec
    requires self.wf(),
    ensures r.inner.wf(), r.inner.tree == &self.inner, r.inner.rem() == self.m(),
//@ fn map.rs BPlusTreeMap::root_augmentation
//@ props C07 C08 C09
//@ params self
//@ ret r
//@ spec
    ensures *r == self.inner.root_augmentation,
//@ fn map.rs BPlusTreeMap::FromIterator::from_iter
//@ props C06
//@ opt data
//@ params iter
//@ ret r
//@ generics <T: IntoData<(K, V)>>
//@ closure 0 |x: &(K, V), y: &(K, V)| -> (o: Ordering) ensures (o is Less) == (x.0.ord() < y.0.ord()), (o is Greater) == (x.0.ord() > y.0.ord())
//@ spec
    ensures r.wf(), r.inner.gg().fresh, r.m() == mk(iter.items()),
//@ at start
    let ghost all = iter.items();
//@ at before call bulk_load#0
    proof {
        assert forall|p: Seq<int>| #[trigger] arranged(all, items@, p) && in_order(items@, p, key_rank::<K, V>(), true) implies nondec(items@) && mk(items@) == mk(all) by { sorted_makes_the_same(all, items@, p); }
    }
//@ fn map.rs BPlusTreeMap::descend_visit
//@ props C16
//@ params self v
//@ ret r
//@ generics <W: DescendVisit<K, V, A>>
//@ subst v: VI => v: W
//@ subst r: Option < R > => r: Option<W::Result>
//@ spec
    requires self.wf(),
    ensures !led_astray::<K, V, A, W>(self.inner.im(), self.inner.lm(), self.inner.root, self.inner.gg().h as nat, v), //[C16]
        r == led::<K, V, A, W>(self.inner.im(), self.inner.lm(), self.inner.root, self.inner.gg().h as nat, v), //[C16]
//@ raw
}
impl<K: Key, V, A: SearchAugmentation<K, V>> BPlusTreeMap<K, V, A> {
//@ fn map.rs BPlusTreeMap::get_by_augmentation
//@ props C08 C09
//@ params self query
//@ ret r
//@ generics
//@ subst query: Q => query: A::Query
//@ spec
    requires self.wf(), self.inner.gg().fresh,
    ensures (r is Some) == (self.inner.picked(query) is Some), //[C08 C09]
        r is Some ==> *(r->0).0 == self.inner.picked(query)->0 && self.m().contains_key((r->0).0.ord()) && (*(r->0).0, *(r->0).1) == self.m()[(r->0).0.ord()], //[C08 C09]
//@ fn map.rs BPlusTreeMap::get_mut_by_augmentation
//@ props C08 C09
//@ params self query
//@ ret r
//@ generics
//@ subst query: Q => query: A::Query
//@ spec
    requires old(self).wf(), old(self).inner.gg().fresh,
    ensures (r is Some) == (old(self).inner.picked(query) is Some), //[C08 C09]
        r is Some ==> ({ let x = (old(self).inner.picked(query)->0).ord(); *(r->0) == old(self).m()[x].1 && old(self).inner.set_value(&final(self).inner, x, *final(r->0)) }), //[C08 C09]
        r is None ==> final(self).m() == old(self).m(),
        final(self).wf(),
//@ fn map.rs BPlusTreeMap::remove_by_augmentation
//@ props C08 C09
//@ params self query
//@ ret r
//@ generics
//@ subst query: Q => query: A::Query
//@ spec
    requires old(self).wf(), old(self).inner.gg().fresh,
    ensures (r is Some) == (old(self).inner.picked(query) is Some), //[C08 C09]
        r is Some ==> ({ let x = (old(self).inner.picked(query)->0).ord(); old(self).m().contains_key(x) && r->0 == old(self).m()[x] && final(self).m() == old(self).m().remove(x) }), //[C08 C09]
        r is None ==> final(self).m() == old(self).m(),
        final(self).wf(),
//@ raw
}
impl<K: Key, V, A: RankAugmentation<K, V>> BPlusTreeMap<K, V, A> {
//@ fn map.rs BPlusTreeMap::rank_by_augmentation
//@ props C08 C09
//@ params self k
//@ ret r
//@ generics
//@ subst Result < R, R > => Result<A::Rank, A::Rank>
//@ spec
    requires self.wf(), self.inner.gg().fresh,
    ensures (r is Ok) == self.m().contains_key(k.ord()), //[C08 C09]
        A::ranks(match r { Ok(x) => x, Err(x) => x }, *k, keys(self.m()).take(pos(keys(self.m()), k.ord()))), //[C08 C09]
//@ raw
}
