//@ raw
#![allow(unused, non_snake_case, dead_code, non_upper_case_globals)]
#![verifier::exec_allows_no_decreases_clause]
#![verifier::allow(decreases_when_exec_allows_no_decreases_clause)]
use core::marker;
use vstd::prelude::*;
verus! {

pub mod slots {
    use vstd::prelude::*;
    use super::NodeId;
    pub enum MaybeUninit<T> { Uninit, Init(T) }
    /// nothing is lost when the slot is overwritten or given up
    pub uninterp spec fn free<T>(m: MaybeUninit<T>) -> bool;
    /// what the slot holds may be copied
    pub uninterp spec fn twice_ok<T>(m: MaybeUninit<T>) -> bool;
    /// a value without its destructor
    pub uninterp spec fn leak_ok<T>(t: T) -> bool;
    pub broadcast axiom fn free_uninit<T>(m: MaybeUninit<T>) ensures m is Uninit ==> #[trigger] free(m);
    pub broadcast axiom fn free_id(m: MaybeUninit<NodeId>) ensures #[trigger] free(m);
    pub broadcast axiom fn twice_id(m: MaybeUninit<NodeId>) ensures #[trigger] twice_ok(m);
    pub broadcast axiom fn leak_slot<T>(m: MaybeUninit<T>) ensures free(m) ==> #[trigger] leak_ok(m);
    pub broadcast axiom fn leak_id(m: NodeId) ensures #[trigger] leak_ok(m);
    pub broadcast group ownership { free_uninit, free_id, twice_id, leak_slot, leak_id }
}
pub use slots::*;
broadcast use slots::ownership;

// ---- trusted: what the standard library and the user's types are assumed to do -------------------

/// A key. `ord` embeds the (lawful, total) order of the key type into the open interval (0, 1).
pub trait Key: Sized {
    spec fn ord(self) -> real;
    proof fn ord_bounds(self)
        ensures 0real < self.ord(), self.ord() < 1real;
    /// `Clone`: the copy is as good as the original
    fn clone(&self) -> (r: Self) ensures r == *self;
    fn lt(&self, o: &Self) -> (r: bool) ensures r == (self.ord() < o.ord());
    fn le(&self, o: &Self) -> (r: bool) ensures r == (self.ord() <= o.ord());
    fn gt(&self, o: &Self) -> (r: bool) ensures r == (self.ord() > o.ord());
    fn ge(&self, o: &Self) -> (r: bool) ensures r == (self.ord() >= o.ord());
    fn eq(&self, o: &Self) -> (r: bool) ensures r == (self.ord() == o.ord());
    fn ne(&self, o: &Self) -> (r: bool) ensures r == (self.ord() != o.ord());
    fn cmp(&self, o: &Self) -> (r: Ordering)
        ensures (r is Less) == (self.ord() < o.ord()), (r is Greater) == (self.ord() > o.ord());
}

/// `std::cmp::Ordering`
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Ordering { Less, Equal, Greater }
impl Ordering {
    pub fn is_eq(self) -> (r: bool) ensures r == (self is Equal) { matches!(self, Ordering::Equal) }
    pub fn is_ne(self) -> (r: bool) ensures r == !(self is Equal) { !matches!(self, Ordering::Equal) }
    pub fn is_lt(self) -> (r: bool) ensures r == (self is Less) { matches!(self, Ordering::Less) }
    pub fn is_gt(self) -> (r: bool) ensures r == (self is Greater) { matches!(self, Ordering::Greater) }
    pub fn is_le(self) -> (r: bool) ensures r == !(self is Greater) { !matches!(self, Ordering::Greater) }
    pub fn is_ge(self) -> (r: bool) ensures r == !(self is Less) { !matches!(self, Ordering::Less) }
}
// ---- comparison operators (used where an operand is not a machine integer) -----------------------
pub struct ByVal; pub struct ByRef;
pub trait VEq<M>: Sized {
    spec fn veq(self, o: Self) -> bool;
    fn eq_(&self, o: &Self) -> (r: bool) ensures r == self.veq(*o);
}
pub trait VCmp<M>: VEq<M> {
    spec fn vlt(self, o: Self) -> bool;
    fn lt_(&self, o: &Self) -> (r: bool) ensures r == self.vlt(*o);
}
impl<K: Key> VEq<ByVal> for K {
    open spec fn veq(self, o: Self) -> bool { self.ord() == o.ord() }
    fn eq_(&self, o: &Self) -> (r: bool) { Key::eq(self, o) }
}
impl<K: Key> VCmp<ByVal> for K {
    open spec fn vlt(self, o: Self) -> bool { self.ord() < o.ord() }
    fn lt_(&self, o: &Self) -> (r: bool) { Key::lt(self, o) }
}
impl<K: Key> VEq<ByRef> for &K {
    open spec fn veq(self, o: Self) -> bool { self.ord() == o.ord() }
    fn eq_(&self, o: &Self) -> (r: bool) { Key::eq(*self, *o) }
}
impl<K: Key> VCmp<ByRef> for &K {
    open spec fn vlt(self, o: Self) -> bool { self.ord() < o.ord() }
    fn lt_(&self, o: &Self) -> (r: bool) { Key::lt(*self, *o) }
}
impl VEq<ByVal> for usize {
    open spec fn veq(self, o: Self) -> bool { self == o }
    fn eq_(&self, o: &Self) -> (r: bool) { *self == *o }
}
impl VCmp<ByVal> for usize {
    open spec fn vlt(self, o: Self) -> bool { self < o }
    fn lt_(&self, o: &Self) -> (r: bool) { *self < *o }
}
impl VEq<ByVal> for u16 {
    open spec fn veq(self, o: Self) -> bool { self == o }
    fn eq_(&self, o: &Self) -> (r: bool) { *self == *o }
}
impl VCmp<ByVal> for u16 {
    open spec fn vlt(self, o: Self) -> bool { self < o }
    fn lt_(&self, o: &Self) -> (r: bool) { *self < *o }
}
impl VEq<ByVal> for bool {
    open spec fn veq(self, o: Self) -> bool { self == o }
    fn eq_(&self, o: &Self) -> (r: bool) { *self == *o }
}
impl VEq<ByVal> for Ordering {
    open spec fn veq(self, o: Self) -> bool { self == o }
    fn eq_(&self, o: &Self) -> (r: bool) { matches!((*self, *o), (Ordering::Less, Ordering::Less) | (Ordering::Equal, Ordering::Equal) | (Ordering::Greater, Ordering::Greater)) }
}
pub fn vop_lt<M, T: VCmp<M>>(a: &T, b: &T) -> (r: bool) ensures r == a.vlt(*b) { a.lt_(b) }
pub fn vop_cmp<M, T: VCmp<M>>(a: &T, b: &T) -> (r: Ordering)
    ensures (r is Less) == a.vlt(*b), (r is Greater) == (b.vlt(*a) && !a.vlt(*b))
{ if a.lt_(b) { Ordering::Less } else if b.lt_(a) { Ordering::Greater } else { Ordering::Equal } }
pub fn vop_gt<M, T: VCmp<M>>(a: &T, b: &T) -> (r: bool) ensures r == b.vlt(*a) { b.lt_(a) }
pub fn vop_le<M, T: VCmp<M>>(a: &T, b: &T) -> (r: bool) ensures r == !b.vlt(*a) { !b.lt_(a) }
pub fn vop_ge<M, T: VCmp<M>>(a: &T, b: &T) -> (r: bool) ensures r == !a.vlt(*b) { !a.lt_(b) }
pub fn vop_eq<M, T: VEq<M>>(a: &T, b: &T) -> (r: bool) ensures r == a.veq(*b) { a.eq_(b) }
pub fn vop_ne<M, T: VEq<M>>(a: &T, b: &T) -> (r: bool) ensures r == !a.veq(*b) { !a.eq_(b) }

/// `Clone` of an augmentation
pub trait AugClone: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
/// An augmentation: a pure function of the keys and values of a leaf, and of the keys and child
/// augmentations of an inner node.
pub trait Augmentation<K: Key, V>: AugClone {
    spec fn leaf_spec(keys: Seq<K>, values: Seq<V>) -> Self;
    spec fn inner_spec(keys: Seq<K>, augs: Seq<Self>) -> Self;
    fn from_leaf(keys: &[K], values: &[V]) -> (r: Self) ensures r == Self::leaf_spec(keys@, values@);
    fn from_inner(keys: &[K], augs: &[Self]) -> (r: Self) ensures r == Self::inner_spec(keys@, augs@);
    spec fn default_spec() -> Self;
    fn default() -> (r: Self) ensures r == Self::default_spec();
    /// whether the augmentation ignores the values
    spec fn value_free() -> bool;
    proof fn value_free_ok(keys: Seq<K>, a: Seq<V>, b: Seq<V>)
        ensures Self::value_free() && a.len() == b.len() ==> Self::leaf_spec(keys, a) == Self::leaf_spec(keys, b);
}

impl<T: Copy> Copy for MaybeUninit<T> { }
impl<T: Copy> Clone for MaybeUninit<T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T> MaybeUninit<T> {
    pub open spec fn is_init(self) -> bool { self is Init }
    pub open spec fn val(self) -> T { self->Init_0 }
    pub fn new(t: T) -> (r: Self) ensures r == MaybeUninit::Init(t) { MaybeUninit::Init(t) }
    pub fn uninit() -> (r: Self) ensures r == MaybeUninit::<T>::Uninit { MaybeUninit::Uninit }
    pub unsafe fn assume_init(self) -> (r: T)
        requires
            self.is_init(), //[C12 +]
        ensures r == self.val()
    { match self { MaybeUninit::Init(t) => t, _ => unreached() } }
    /// leaves the value behind: the same value twice
    #[verifier::external_body]
    pub unsafe fn assume_init_read(&self) -> (r: T)
        requires
            self.is_init(), //[C12 +]
            twice_ok(*self), //[C12]
        ensures r == self.val() { unimplemented!() }
    pub fn write(&mut self, t: T) -> (r: &mut T)
        requires
            free(*old(self)), //[C12]
        ensures *r == t, *final(self) == MaybeUninit::Init(*final(r))
    { *self = MaybeUninit::Init(t); match self { MaybeUninit::Init(t) => t, _ => unreached() } }
    pub unsafe fn assume_init_drop(&mut self)
        requires
            old(self).is_init(), //[C12 +]
        ensures *final(self) is Uninit { *self = MaybeUninit::Uninit; }
    pub unsafe fn assume_init_ref(&self) -> (r: &T)
        requires
            self.is_init(), //[C12 +]
        ensures *r == self.val()
    { match self { MaybeUninit::Init(t) => t, _ => unreached() } }
    pub unsafe fn assume_init_mut(&mut self) -> (r: &mut T)
        requires
            old(self).is_init(), //[C12 +]
        ensures *r == old(self).val(), *final(self) == MaybeUninit::Init(*final(r))
    { match self { MaybeUninit::Init(t) => t, _ => unreached() } }
}

// ---- ownership: a value that is moved out of a slot is gone from it, a slot that is overwritten or
//      given up holds nothing that needs its destructor ------------------------------------------------

pub open spec fn all_free<T>(s: Seq<MaybeUninit<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> free(#[trigger] s[i]) }
pub open spec fn all_uninit<T>(s: Seq<MaybeUninit<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Uninit }
/// `slot.assume_init_read()`, or `slot.assume_init()`: the value moves out of the slot
pub fn take_init<T>(m: &mut MaybeUninit<T>) -> (r: T)
    requires
        old(m).is_init(), //[C12 +]
    ensures r == old(m).val(), *final(m) is Uninit,
{ match std::mem::replace(m, MaybeUninit::Uninit) { MaybeUninit::Init(t) => t, _ => unreached() } }
/// `*slot = m`
pub fn put_slot<T>(slot: &mut MaybeUninit<T>, m: MaybeUninit<T>)
    requires
        free(*old(slot)), //[C12]
    ensures *final(slot) == m,
{ *slot = m; }
/// the content of a slot goes out of scope
pub fn discard_slot<T>(m: MaybeUninit<T>)
    requires
        free(m), //[C12]
{ }
pub fn gone_slot<T>(m: &MaybeUninit<T>)
    requires
        free(*m), //[C12]
{ }
pub trait Node {
    /// the content of a node that has just been allocated is not initialised
    spec fn blank(&self) -> bool;
    /// it may go out of scope: its destructor, if it has one, finds what it drops
    spec fn drop_ok(&self) -> bool;
}
impl<T: Node> Node for Box<T> {
    open spec fn blank(&self) -> bool { (**self).blank() }
    open spec fn drop_ok(&self) -> bool { (**self).drop_ok() }
}
#[verifier::external_body]
pub fn discard_node<T: Node>(t: T)
    requires
        t.drop_ok(), //[C12]
{ unimplemented!() }
pub fn dropped_here<T: Node>(t: &T)
    requires
        t.drop_ok(), //[C12]
{ }
#[verifier::external_body]
pub fn forgotten<T>(t: T)
    requires
        leak_ok(t), //[C12]
{ unimplemented!() }
/// `ManuallyDrop::new`: the store of a tree is dropped by the tree, by hand
pub trait KeptFromDrop: Sized { }
pub fn kept_from_drop<T: KeptFromDrop>(t: T) -> (r: T) ensures r == t { t }
/// a value taken out of a field that is not dropped by itself; `n` counts
#[verifier::external_body]
pub fn take_out<T>(x: &mut T, n: &mut u8) -> (r: T)
    requires
        *old(n) == 0, //[C12]
    ensures r == *old(x), *final(n) == 1,
{ unimplemented!() }
/// a destructor that runs in place
#[verifier::external_body]
pub fn drop_of<T>(x: &mut T, n: &mut u8)
    requires
        *old(n) == 0, //[C12]
    ensures *final(n) == 1,
{ unimplemented!() }
#[verifier::external_body]
pub fn take_out_other<T>(x: &mut T) -> (r: T)
    requires
        false, //[C12]
    ensures r == *old(x),
{ unimplemented!() }
#[verifier::external_body]
pub fn drop_of_other<T>(x: &mut T)
    requires
        false, //[C12]
{ unimplemented!() }
pub fn taken_times(b: bool)
    requires
        b, //[C12]
{ }

#[verifier::external_body]
pub fn unreached<T>() -> (r: T) requires false { unimplemented!() }
/// an explicit panic that the contract of the function allows in this case
#[verifier::external_body]
pub fn diverge<T>(allowed: Ghost<bool>) -> (r: T) requires allowed@ ensures false { unimplemented!() }
pub fn rt_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn drop_value<T>(t: T) { unimplemented!() }
pub fn box_mut<T>(b: &mut Box<T>) -> (r: &mut T)
    ensures *r == **old(b), **final(b) == *final(r)
{ &mut **b }

pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;

/// `[MaybeUninit<T>; M]::get_unchecked_mut(lo..hi)`
#[verifier::external_body]
pub fn area_mut<T, const M: usize>(a: &mut [MaybeUninit<T>; M], lo: usize, hi: usize) -> (r: &mut [MaybeUninit<T>])
    requires lo <= hi <= M,
    ensures r@ == old(a)@.subrange(lo as int, hi as int),
        final(r)@.len() == hi - lo,
        final(a)@ == old(a)@.subrange(0, lo as int) + final(r)@ + old(a)@.subrange(hi as int, M as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn area_mut_at<T, const M: usize>(a: &mut [MaybeUninit<T>; M], i: usize) -> (r: &mut MaybeUninit<T>)
    requires i < M,
    ensures *r == old(a)@[i as int], final(a)@ == old(a)@.update(i as int, *final(r)),
{ unimplemented!() }
#[verifier::external_body]
pub fn area<T, const M: usize>(a: &[MaybeUninit<T>; M], lo: usize, hi: usize) -> (r: &[MaybeUninit<T>])
    requires lo <= hi <= M,
    ensures r@ == a@.subrange(lo as int, hi as int),
{ unimplemented!() }
pub fn area_at<T, const M: usize>(a: &[MaybeUninit<T>; M], i: usize) -> (r: &MaybeUninit<T>)
    requires i < M,
    ensures *r == a@[i as int],
{ &a[i] }
pub open spec fn vals<T>(s: Seq<MaybeUninit<T>>) -> Seq<T> { s.map_values(|m: MaybeUninit<T>| m.val()) }
pub open spec fn inited<T>(s: Seq<MaybeUninit<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).is_init() }
/// `&*(slice as *const [MaybeUninit<T>] as *const [T])`
#[verifier::external_body]
pub fn slice_assume_init<T>(s: &[MaybeUninit<T>]) -> (r: &[T])
    requires
        inited(s@), //[C12 +]
    ensures r@ =~= vals(s@),
{ unimplemented!() }
/// `MaybeUninit::<[MaybeUninit<T>; M]>::uninit().assume_init()`
#[verifier::external_body]
pub fn uninit_array<T, const M: usize>() -> (r: [MaybeUninit<T>; M])
    ensures all_uninit(r@),
{ unimplemented!() }
/// A freshly allocated, uninitialised box.
#[verifier::external_body]
pub fn alloc_uninit_box<T: Node>() -> (r: Box<T>)
    ensures r.blank(),
{ unimplemented!() }
/// Releases the memory of a box without dropping what it holds.
#[verifier::external_body]
pub fn dealloc_only<T: Node>(b: Box<T>)
    requires
        b.blank(), //[C12]
{ unimplemented!() }
/// A vector of nodes takes at most `isize::MAX` bytes.
#[verifier::external_body]
pub proof fn vec_room<T, U>(v: &Vec<(NodeId, T, U)>) ensures v@.len() <= usize::MAX / 2 { }
#[verifier::external_body]
pub fn vec_get<T>(v: &Vec<T>, i: usize) -> (r: &T)
    requires i < v@.len(), ensures *r == v@[i as int],
{ unimplemented!() }
pub fn vec_get_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires i < old(v)@.len(),
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)),
{ &mut v[i] }
pub fn replace<T>(dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src
{ std::mem::replace(dest, src) }
/// `Option<K>::clone`
pub trait OptClone: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
impl<K: Key> OptClone for Option<K> {
    fn clone(&self) -> (r: Self) { match self { Some(k) => Some(k.clone()), None => None } }
}
/// what the code uses of a value type that is `Clone`
pub trait Value: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
impl<'a, T> Value for &'a T { fn clone(&self) -> (r: Self) { *self } }
/// `Clone` of the containers of nodes
pub trait VClone: Sized {
    spec fn clonable(&self) -> bool;
    spec fn cloned(&self, r: Self) -> bool;
    fn clone(&self) -> (r: Self) requires self.clonable(), ensures self.cloned(r);
}
impl<T: VClone> VClone for Option<T> {
    open spec fn clonable(&self) -> bool { *self is Some ==> self->0.clonable() }
    open spec fn cloned(&self, r: Self) -> bool { (r is Some) == (*self is Some) && (r is Some ==> self->0.cloned(r->0)) }
    fn clone(&self) -> (r: Self) { match self { Some(k) => Some(k.clone()), None => None } }
}
impl<T: VClone> VClone for Box<T> {
    open spec fn clonable(&self) -> bool { (**self).clonable() }
    open spec fn cloned(&self, r: Self) -> bool { (**self).cloned(*r) }
    fn clone(&self) -> (r: Self) { Box::new((**self).clone()) }
}
impl<T: VClone> VClone for Vec<T> {
    open spec fn clonable(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).clonable() }
    open spec fn cloned(&self, r: Self) -> bool { r@.len() == self@.len() && forall|i: int| 0 <= i < r@.len() ==> self@[i].cloned(#[trigger] r@[i]) }
    fn clone(&self) -> (r: Self) {
        let mut r: Vec<T> = Vec::new();
        for i in 0..self.len()
            invariant self.clonable(), r@.len() == i, forall|j: int| 0 <= j < i ==> self@[j].cloned(#[trigger] r@[j]),
        { r.push(self[i].clone()); }
        r
    }
}
/// `Default`, as `std::mem::take` uses it
pub trait Taken: Sized { spec fn zero() -> Self; fn make_zero() -> (r: Self) ensures r == Self::zero(); }
impl<T> Taken for Option<T> { open spec fn zero() -> Self { None } fn make_zero() -> (r: Self) { None } }
pub fn mem_take<T: Taken>(x: &mut T) -> (r: T)
    ensures r == *old(x), *final(x) == T::zero(),
{ core::mem::replace(x, T::make_zero()) }

/// An atomic word shared between threads: a load may return any value.
pub enum AtomicOrdering { Relaxed, Acquire, Release, AcqRel, SeqCst }
pub struct AtomicUsize { pub opaque: usize }
impl Default for AtomicUsize { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl AtomicUsize {
    #[verifier::external_body]
    pub fn new(v: usize) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: AtomicOrdering) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: usize, o: AtomicOrdering) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: usize, o: AtomicOrdering) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, v: usize, o: AtomicOrdering) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, v: usize, o: AtomicOrdering) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&self, v: usize, o: AtomicOrdering) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_min(&self, v: usize, o: AtomicOrdering) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, c: usize, n: usize, s: AtomicOrdering, f: AtomicOrdering) -> (r: Result<usize, usize>) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, c: usize, n: usize, s: AtomicOrdering, f: AtomicOrdering) -> (r: Result<usize, usize>) { unimplemented!() }
}
pub struct AtomicU64 { pub opaque: u64 }
impl Default for AtomicU64 { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl AtomicU64 {
    #[verifier::external_body]
    pub fn new(v: u64) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: AtomicOrdering) -> (r: u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: u64, o: AtomicOrdering) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: u64, o: AtomicOrdering) -> (r: u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, v: u64, o: AtomicOrdering) -> (r: u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, v: u64, o: AtomicOrdering) -> (r: u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&self, v: u64, o: AtomicOrdering) -> (r: u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_min(&self, v: u64, o: AtomicOrdering) -> (r: u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, c: u64, n: u64, s: AtomicOrdering, f: AtomicOrdering) -> (r: Result<u64, u64>) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, c: u64, n: u64, s: AtomicOrdering, f: AtomicOrdering) -> (r: Result<u64, u64>) { unimplemented!() }
}
pub struct AtomicU32 { pub opaque: u32 }
impl Default for AtomicU32 { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl AtomicU32 {
    #[verifier::external_body]
    pub fn new(v: u32) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: AtomicOrdering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: u32, o: AtomicOrdering) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: u32, o: AtomicOrdering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, v: u32, o: AtomicOrdering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, v: u32, o: AtomicOrdering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&self, v: u32, o: AtomicOrdering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_min(&self, v: u32, o: AtomicOrdering) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, c: u32, n: u32, s: AtomicOrdering, f: AtomicOrdering) -> (r: Result<u32, u32>) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, c: u32, n: u32, s: AtomicOrdering, f: AtomicOrdering) -> (r: Result<u32, u32>) { unimplemented!() }
}
pub struct AtomicBool { pub opaque: bool }
impl Default for AtomicBool { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl AtomicBool {
    #[verifier::external_body]
    pub fn new(v: bool) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: AtomicOrdering) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: bool, o: AtomicOrdering) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: bool, o: AtomicOrdering) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_and(&self, v: bool, o: AtomicOrdering) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_or(&self, v: bool, o: AtomicOrdering) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, c: bool, n: bool, s: AtomicOrdering, f: AtomicOrdering) -> (r: Result<bool, bool>) { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, c: bool, n: bool, s: AtomicOrdering, f: AtomicOrdering) -> (r: Result<bool, bool>) { unimplemented!() }
}
pub trait VDefault: Sized { spec fn is_default(self) -> bool; fn vdefault() -> (r: Self) ensures r.is_default(); }
impl<T> VDefault for Vec<T> { open spec fn is_default(self) -> bool { self@.len() == 0 } fn vdefault() -> (r: Self) { Vec::new() } }
impl VDefault for bool { open spec fn is_default(self) -> bool { !self } fn vdefault() -> (r: Self) { false } }
impl VDefault for usize { open spec fn is_default(self) -> bool { self == 0 } fn vdefault() -> (r: Self) { 0 } }
impl VDefault for u64 { open spec fn is_default(self) -> bool { self == 0 } fn vdefault() -> (r: Self) { 0 } }
pub trait VUnwrapDef<T> { spec fn ud(self, r: T) -> bool; fn vunwrap_or_default(self) -> (r: T) ensures self.ud(r); }
impl<T: VDefault> VUnwrapDef<T> for Option<T> {
    open spec fn ud(self, r: T) -> bool { match self { Some(t) => r == t, None => r.is_default() } }
    fn vunwrap_or_default(self) -> (r: T) { match self { Some(t) => t, None => T::vdefault() } }
}
pub fn vec_try_get<T>(v: &Vec<T>, i: usize) -> (r: Option<&T>)
    ensures (r is Some) == (i < v@.len()), r is Some ==> *(r->0) == v@[i as int],
{ if i < v.len() { Some(&v[i]) } else { None } }

// ---- order ----------------------------------------------------------------------------------------

pub open spec fn sorted<K: Key>(ks: Seq<K>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ks.len() ==> (#[trigger] ks[i]).ord() < (#[trigger] ks[j]).ord()
}
/// `i` keys are smaller than `x`, the others are not
pub open spec fn is_pos<K: Key>(ks: Seq<K>, x: real, i: int) -> bool {
    &&& 0 <= i <= ks.len()
    &&& forall|j: int| 0 <= j < i ==> (#[trigger] ks[j]).ord() < x
    &&& forall|j: int| i <= j < ks.len() ==> (#[trigger] ks[j]).ord() >= x
}
pub open spec fn pos<K: Key>(ks: Seq<K>, x: real) -> int { choose|i: int| is_pos(ks, x, i) }
pub open spec fn hask<K: Key>(ks: Seq<K>, x: real) -> bool { exists|j: int| 0 <= j < ks.len() && (#[trigger] ks[j]).ord() == x }
pub proof fn lemma_pos<K: Key>(ks: Seq<K>, x: real, i: int)
    requires is_pos(ks, x, i)
    ensures pos(ks, x) == i
{
    let p = pos(ks, x);
    assert(is_pos(ks, x, p));
    if p < i { assert(ks[p].ord() < x); assert(ks[p].ord() >= x); }
    if i < p { assert(ks[i].ord() < x); assert(ks[i].ord() >= x); }
}
pub proof fn all_pos<K: Key>(ks: Seq<K>, x: real)
    ensures forall|i: int| #[trigger] is_pos(ks, x, i) ==> pos(ks, x) == i
{
    assert forall|i: int| #[trigger] is_pos(ks, x, i) implies pos(ks, x) == i by { lemma_pos(ks, x, i); }
}
/// `[K]::binary_search_by_key(&k, |f| f.borrow())`
#[verifier::external_body]
pub fn binary_search_keys<K: Key>(keys: &[K], k: &K) -> (r: Result<usize, usize>)
    ensures
        r is Ok ==> (r->Ok_0 < keys@.len() && keys@[r->Ok_0 as int].ord() == k.ord()),
        r is Err ==> r->Err_0 <= keys@.len(),
        sorted(keys@) ==> (match r {
            Ok(i) => is_pos(keys@, k.ord(), i as int),
            Err(i) => is_pos(keys@, k.ord(), i as int) && !hask(keys@, k.ord()) && (i < keys@.len() ==> keys@[i as int].ord() > k.ord()),
        }),
{ unimplemented!() }

/// `[K]::partition_point(|x| x < k)`
#[verifier::external_body]
pub fn keys_below<K: Key>(keys: &[K], k: &K) -> (r: usize)
    ensures r <= keys@.len(), sorted(keys@) ==> is_pos(keys@, k.ord(), r as int),
{ unimplemented!() }
/// `[K]::partition_point(|x| x <= k)`
#[verifier::external_body]
pub fn keys_upto<K: Key>(keys: &[K], k: &K) -> (r: usize)
    ensures r <= keys@.len(),
        sorted(keys@) ==> (forall|j: int| 0 <= j < r ==> (#[trigger] keys@[j]).ord() <= k.ord()) && (forall|j: int| r <= j < keys@.len() ==> (#[trigger] keys@[j]).ord() > k.ord()),
{ unimplemented!() }

// ---- iteration ------------------------------------------------------------------------------------

/// An iterator given by the caller: `rest` is what it will still yield.
pub struct DataIter<T> { pub rest: Ghost<Seq<T>>, pub opaque: core::marker::PhantomData<T> }
impl<T> DataIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self).rest@.len() == 0 ==> r is None && final(self).rest@ == old(self).rest@,
            old(self).rest@.len() > 0 ==> r == Some(old(self).rest@[0]) && final(self).rest@ == old(self).rest@.subrange(1, old(self).rest@.len() as int),
    { unimplemented!() }
}
/// What a function takes as `impl Iterator<Item = T>`: `rest` is what it will still yield.
pub trait DIter<T>: Sized {
    spec fn rest(&self) -> Seq<T>;
    spec fn ok(&self) -> bool;
    fn next(&mut self) -> (r: Option<T>)
        requires old(self).ok(),
        ensures final(self).ok(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().subrange(1, old(self).rest().len() as int);
}
impl<T> DIter<T> for DataIter<T> {
    open spec fn rest(&self) -> Seq<T> { self.rest@ }
    open spec fn ok(&self) -> bool { true }
    fn next(&mut self) -> (r: Option<T>) { self.next() }
}
/// What a caller passes as `impl IntoIterator<Item = T>`: `items` is what it will yield.
pub trait IntoData<T>: Sized {
    spec fn items(self) -> Seq<T>;
    fn into_data(self) -> (r: DataIter<T>) ensures r.rest@ == self.items();
}
impl<T, const M: usize> IntoData<T> for [T; M] {
    open spec fn items(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_data(self) -> (r: DataIter<T>) { unimplemented!() }
}
impl<T> IntoData<T> for Vec<T> {
    open spec fn items(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_data(self) -> (r: DataIter<T>) { unimplemented!() }
}
impl<T> IntoData<T> for DataIter<T> {
    open spec fn items(self) -> Seq<T> { self.rest@ }
    fn into_data(self) -> (r: DataIter<T>) { self }
}
/// `Iterator::enumerate`
pub struct EnumIter<T> { pub n: usize, pub inner: DataIter<T> }
impl<T> DataIter<T> {
    pub fn enumerate(self) -> (r: EnumIter<T>) ensures r.n == 0, r.inner == self { EnumIter { n: 0, inner: self } }
}
impl<T> EnumIter<T> {
    /// the count of items yielded does not overflow before memory is exhausted
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, T)>)
        ensures
            old(self).inner.rest@.len() == 0 ==> r is None && final(self).inner.rest@ == old(self).inner.rest@ && final(self).n == old(self).n,
            old(self).inner.rest@.len() > 0 ==> r == Some((old(self).n, old(self).inner.rest@[0])) && final(self).n == old(self).n + 1
                && final(self).inner.rest@ == old(self).inner.rest@.subrange(1, old(self).inner.rest@.len() as int),
    { unimplemented!() }
}
impl<T> VIntoIter for EnumIter<T> {
    type It = EnumIter<T>;
    open spec fn vit(self, i: EnumIter<T>) -> bool { i == self }
    fn vinto_iter(self) -> (r: EnumIter<T>) { self }
}
pub trait VMapInto: Sized { type T; type O; spec fn mi(self, o: Self::O) -> bool; fn vmap_into(self) -> (r: Self::O) ensures self.mi(r); }
pub struct RangeIter { pub cur: usize, pub end: usize }
impl RangeIter {
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures
            old(self).cur < old(self).end ==> r == Some(old(self).cur) && final(self).cur == old(self).cur + 1,
            old(self).cur >= old(self).end ==> r is None && final(self).cur == old(self).cur,
            final(self).end == old(self).end,
    { if self.cur < self.end { let c = self.cur; self.cur = c + 1; Some(c) } else { None } }
}
pub trait VIntoIter: Sized { type It; spec fn vit(self, i: Self::It) -> bool; fn vinto_iter(self) -> (r: Self::It) ensures self.vit(r); }
impl VIntoIter for core::ops::Range<usize> {
    type It = RangeIter;
    open spec fn vit(self, i: RangeIter) -> bool { i.cur == self.start && i.end == self.end }
    fn vinto_iter(self) -> (r: RangeIter) { RangeIter { cur: self.start, end: self.end } }
}

// ---- the memory operations on slot arrays; these contracts are discharged on the real functions by
//      the bounded model checker for every length up to 66 (see kani/) -----------------------------------
//@ const tree/consts.rs INNER_N
//@ const tree/consts.rs INNER_C
//@ const tree/consts.rs LEAF_N
//@ const tree/consts.rs MIN_N
//@ const tree/consts.rs MAX_DEPTH
//@ const tree/leaf_node.rs N
//@ const tree/inner_node.rs N
//@ const tree/inner_node.rs C

//@ fn tree/slice_utils.rs slice_insert
//@ props C02 C03
//@ params slice idx val
//@ generics <T>
//@ trusted unsafe pointer code; contract discharged by Kani on the real function for every length up to 66
//@ sig pub unsafe fn slice_insert<T>(slice: &mut [MaybeUninit<T>], idx: usize, val: T)
//@ spec
    requires idx < old(slice)@.len(),
        free(old(slice)@.last()), //[C12]
    ensures final(slice)@ == old(slice)@.drop_last().insert(idx as int, MaybeUninit::Init(val)),
        final(slice)@.len() == old(slice)@.len(),
//@ fn tree/slice_utils.rs slice_remove
//@ props C03
//@ params slice idx
//@ ret r
//@ generics <T>
//@ trusted unsafe pointer code; contract discharged by Kani on the real function for every length up to 66
//@ sig pub unsafe fn slice_remove<T>(slice: &mut [MaybeUninit<T>], idx: usize) -> (r: T)
//@ spec
    requires idx < old(slice)@.len(),
        old(slice)@[idx as int].is_init(), //[C12 +]
    ensures r == old(slice)@[idx as int].val(),
        final(slice)@ == old(slice)@.remove(idx as int).push(MaybeUninit::Uninit),
        final(slice)@.len() == old(slice)@.len(),
//@ fn tree/slice_utils.rs move_to_slice
//@ props C02 C03
//@ params src dst
//@ generics <T>
//@ trusted unsafe pointer code; contract discharged by Kani on the real function for every length up to 66
//@ sig pub fn move_to_slice<T>(src: &mut [MaybeUninit<T>], dst: &mut [MaybeUninit<T>])
//@ spec
    requires old(src)@.len() == old(dst)@.len(),
        all_free(old(dst)@), //[C12]
    ensures final(dst)@ == old(src)@, final(src)@.len() == old(src)@.len(),
        forall|i: int| 0 <= i < final(src)@.len() ==> (#[trigger] final(src)@[i]) is Uninit,
