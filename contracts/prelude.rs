// ---------------------------------------------------------------------------
// Trusted prelude: contracts assumed for the parts of std the extracted code
// calls.  Every `external_body` item and every `axiom` in this file is an
// assumption; the evidence lists them by name.
// ---------------------------------------------------------------------------
pub mod prelude {
use vstd::prelude::*;
pub use std::rc::Rc;
verus! {

pub type Name = Seq<char>;

/// the name in an Option
pub open spec fn oname<T: View<V = Name>>(o: Option<T>) -> Option<Name> { match o { Some(x) => Some(x@), None => None } }

// ---- diverging std macros --------------------------------------------------
/// `panic!`, `unreachable!`, `todo!`: reaching one is an obligation failure.
#[verifier::external_body]
pub fn v_panic<T>() -> (r: T)
    requires false,
{ unimplemented!() }

// ---- clone / cloned --------------------------------------------------------
/// `Clone::clone` of every type the code clones is derived (or `Rc::clone`).
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T {
    #[verifier::external_body]
    fn v_clone(&self) -> (r: Self) { unimplemented!() }
}

pub trait VCloned<T> { spec fn cloned_spec(self) -> Option<T>; fn v_cloned(self) -> (r: Option<T>) ensures r == self.cloned_spec(); }
impl<'a, T> VCloned<T> for Option<&'a T> {
    open spec fn cloned_spec(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    #[verifier::external_body]
    fn v_cloned(self) -> (r: Option<T>) { unimplemented!() }
}

/// Option, or the Ok of a Result
pub trait VOpt<T>: Sized { spec fn opt(self) -> Option<T>; fn v_opt(self) -> (r: Option<T>) ensures r == self.opt(); }
impl<T> VOpt<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    fn v_opt(self) -> (r: Option<T>) { self }
}
impl<T, E> VOpt<T> for Result<T, E> {
    open spec fn opt(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn v_opt(self) -> (r: Option<T>) { match self { Ok(x) => Some(x), Err(_) => None } }
}

// ---- Ptr -------------------------------------------------------------------
/// check::Ptr with the RefCell erased (the extractor refuses any source that
/// mutates through it), so a resolved type is an ordinary immutable tree.
pub struct Ptr<T>(pub Rc<T>);
impl<T> Ptr<T> {
    pub open spec fn val(self) -> T { *self.0 }
    pub fn new(value: T) -> (r: Ptr<T>) ensures *r.0 == value { Ptr(Rc::new(value)) }
    pub fn borrow(&self) -> (r: &T) ensures *r == *self.0 { &*self.0 }
}

// ---- iterators (eager, by position) ----------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { x: core::marker::PhantomData<T> }
impl<T> View for VIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn v_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// the k-th item an iterator yields
    #[verifier::external_body]
    pub fn v_item(&self, k: usize) -> (r: T) requires k < self@.len() ensures r == self@[k as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn v_chain<I: VIntoIter<Item = T>>(self, o: I) -> (r: VIter<T>)
        ensures exists|ys: Seq<T>| #[trigger] o.yields(ys) && r@ == self@ + ys
    { unimplemented!() }
    pub fn v_collect<C: VFrom<T>>(self) -> (r: C) ensures C::from_rel(self@, r) { C::v_from(self) }
    #[verifier::external_body]
    pub fn v_rev(self) -> (r: VIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_enumerate(self) -> (r: VIter<(usize, T)>)
        ensures r@ == self@.map(|i: int, x: T| (i as usize, x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_next(self) -> (r: Option<T>) ensures r == (if self@.len() > 0 { Some(self@[0]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_last(self) -> (r: Option<T>) ensures r == (if self@.len() > 0 { Some(self@.last()) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_nth(self, n: usize) -> (r: Option<T>) ensures r == (if n < self@.len() { Some(self@[n as int]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_take(self, n: usize) -> (r: VIter<T>) ensures r@ == self@.take(if n < self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_skip(self, n: usize) -> (r: VIter<T>) ensures r@ == self@.skip(if n < self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
}
/// what is inside the Somes
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) }
    }
}
impl<T> VIter<Option<T>> {
    /// `filter_map(|x| x)`, `flatten()`
    #[verifier::external_body]
    pub fn v_somes(self) -> (r: VIter<T>) ensures r@ == somes(self@) { unimplemented!() }
}
impl<'b, T> VIter<&'b T> {
    #[verifier::external_body]
    pub fn v_copied(self) -> (r: VIter<T>) ensures r@ == self@.map_values(|x: &T| *x) { unimplemented!() }
}

pub trait VIntoIter: Sized {
    type Item;
    /// ys is an order in which iterating self may yield its items
    spec fn yields(self, ys: Seq<Self::Item>) -> bool;
    fn v_into_iter(self) -> (r: VIter<Self::Item>) ensures self.yields(r@);
}
impl<T> VIntoIter for VIter<T> {
    type Item = T;
    open spec fn yields(self, ys: Seq<T>) -> bool { ys == self@ }
    fn v_into_iter(self) -> (r: VIter<T>) { self }
}
impl<T> VIntoIter for Vec<T> {
    type Item = T;
    open spec fn yields(self, ys: Seq<T>) -> bool { ys == self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<'b, T> VIntoIter for &'b Vec<T> {
    type Item = &'b T;
    open spec fn yields(self, ys: Seq<&'b T>) -> bool {
        ys.len() == self@.len() && forall|i: int| 0 <= i < ys.len() ==> *(#[trigger] ys[i]) == self@[i]
    }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<&'b T>) { unimplemented!() }
}
impl<'b, T> VIntoIter for &'b [T] {
    type Item = &'b T;
    open spec fn yields(self, ys: Seq<&'b T>) -> bool {
        ys.len() == self@.len() && forall|i: int| 0 <= i < ys.len() ==> *(#[trigger] ys[i]) == self@[i]
    }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<&'b T>) { unimplemented!() }
}
/// integer ranges
impl VIntoIter for core::ops::Range<usize> {
    type Item = usize;
    open spec fn yields(self, ys: Seq<usize>) -> bool {
        ys.len() == (if self.start <= self.end { (self.end - self.start) as nat } else { 0 })
        && forall|i: int| 0 <= i < ys.len() ==> #[trigger] ys[i] == self.start + i
    }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<usize>) { unimplemented!() }
}
pub trait VIterRef {
    type It;
    spec fn ref_yields(&self, ys: Seq<&Self::It>) -> bool;
    fn v_iter<'b>(&'b self) -> (r: VIter<&'b Self::It>) ensures self.ref_yields(r@);
}
impl<T> VIterRef for Vec<T> {
    type It = T;
    open spec fn ref_yields(&self, ys: Seq<&T>) -> bool {
        ys.len() == self@.len() && forall|i: int| 0 <= i < ys.len() ==> *(#[trigger] ys[i]) == self@[i]
    }
    #[verifier::external_body]
    fn v_iter<'b>(&'b self) -> (r: VIter<&'b T>) { unimplemented!() }
}
impl<T> VIterRef for [T] {
    type It = T;
    open spec fn ref_yields(&self, ys: Seq<&T>) -> bool {
        ys.len() == self@.len() && forall|i: int| 0 <= i < ys.len() ==> *(#[trigger] ys[i]) == self@[i]
    }
    #[verifier::external_body]
    fn v_iter<'b>(&'b self) -> (r: VIter<&'b T>) { unimplemented!() }
}
impl<T, const N: usize> VIterRef for [T; N] {
    type It = T;
    open spec fn ref_yields(&self, ys: Seq<&T>) -> bool {
        ys.len() == self@.len() && forall|i: int| 0 <= i < ys.len() ==> *(#[trigger] ys[i]) == self@[i]
    }
    #[verifier::external_body]
    fn v_iter<'b>(&'b self) -> (r: VIter<&'b T>) { unimplemented!() }
}

pub trait VFrom<T>: Sized {
    spec fn from_rel(items: Seq<T>, r: Self) -> bool;
    fn v_from(it: VIter<T>) -> (r: Self) ensures Self::from_rel(it@, r);
}
impl<T> VFrom<T> for Vec<T> {
    open spec fn from_rel(items: Seq<T>, r: Self) -> bool { r@ == items }
    #[verifier::external_body]
    fn v_from(it: VIter<T>) -> (r: Self) { unimplemented!() }
}

pub trait VExtend<A>: Sized {
    spec fn extended(self, a: A, r: Self) -> bool;
    fn v_extend(&mut self, a: A) ensures old(self).extended(a, *final(self));
}
impl<T> VExtend<Option<T>> for Vec<T> {
    open spec fn extended(self, a: Option<T>, r: Self) -> bool { r@ == (match a { Some(x) => self@.push(x), None => self@ }) }
    #[verifier::external_body]
    fn v_extend(&mut self, a: Option<T>) { unimplemented!() }
}
impl<K: View<V = Name>, V> VExtend<HashMap<K, V>> for HashMap<K, V> {
    open spec fn extended(self, a: HashMap<K, V>, r: Self) -> bool { r@ == self@.union_prefer_right(a@) }
    #[verifier::external_body]
    fn v_extend(&mut self, a: HashMap<K, V>) { unimplemented!() }
}

// ---- HashMap / HashSet keyed by strings ------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<Name, V>; uninterp spec fn view(&self) -> Map<Name, V>; }
/// last entry for each key wins
pub open spec fn map_of<K: View<V = Name>, V>(items: Seq<(K, V)>) -> Map<Name, V>
    decreases items.len(),
{
    if items.len() == 0 { Map::empty() } else { map_of(items.drop_last()).insert(items.last().0@, items.last().1) }
}
/// items lists every entry of m exactly once
pub open spec fn enumerates<K: View<V = Name>, V>(items: Seq<(K, V)>, m: Map<Name, V>) -> bool {
    &&& forall|i: int| 0 <= i < items.len() ==> m.contains_key((#[trigger] items[i]).0@) && m[items[i].0@] == items[i].1
    &&& forall|i: int, j: int| 0 <= i < j < items.len() ==> (#[trigger] items[i]).0@ != (#[trigger] items[j]).0@
    &&& forall|n: Name| #[trigger] m.contains_key(n) ==> exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0@ == n
}
pub open spec fn enumerates_ref<K: View<V = Name>, V>(items: Seq<(&K, &V)>, m: Map<Name, V>) -> bool {
    &&& forall|i: int| 0 <= i < items.len() ==> m.contains_key((#[trigger] items[i]).0@) && m[items[i].0@] == *items[i].1
    &&& forall|i: int, j: int| 0 <= i < j < items.len() ==> (#[trigger] items[i]).0@ != (#[trigger] items[j]).0@
    &&& forall|n: Name| #[trigger] m.contains_key(n) ==> exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0@ == n
}
/// items lists every member of m exactly once
pub open spec fn lists<K: View<V = Name>>(items: Seq<&K>, m: Set<Name>) -> bool {
    &&& forall|i: int| 0 <= i < items.len() ==> m.contains((#[trigger] items[i])@)
    &&& forall|i: int, j: int| 0 <= i < j < items.len() ==> (#[trigger] items[i])@ != (#[trigger] items[j])@
    &&& forall|n: Name| #[trigger] m.contains(n) ==> exists|i: int| 0 <= i < items.len() && (#[trigger] items[i])@ == n
}
impl<K: View<V = Name>, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Name, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<Name, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: View<V = Name> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self@.contains_key(q@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v),
            r == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: View<V = Name> + ?Sized>(&mut self, q: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(q@),
            r == (if old(self)@.contains_key(q@) { Some(old(self)@[q@]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = Name> + ?Sized>(&self, q: &Q) -> (r: Option<&V>)
        ensures r == (if self@.contains_key(q@) { Some(&self@[q@]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Name, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter<'b>(&'b self) -> (r: VIter<(&'b K, &'b V)>) ensures enumerates_ref(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_keys<'b>(&'b self) -> (r: VIter<&'b K>) ensures lists(r@, self@.dom()) { unimplemented!() }
    #[verifier::external_body]
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F)
        ensures
            forall|n: Name| #[trigger] final(self)@.contains_key(n) ==> old(self)@.contains_key(n) && final(self)@[n] == old(self)@[n],
    { unimplemented!() }
}
/// `m.retain(|k, _| s.contains(k))` and friends: the predicate may look at the key only
impl<K: View<V = Name>, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn v_retain_keys<F: Fn(&K) -> bool>(&mut self, f: F, Ghost(p): Ghost<spec_fn(Name) -> bool>)
        requires forall|k: &K| #[trigger] f.requires((k,)),
            forall|k: &K, b: bool| #[trigger] f.ensures((k,), b) ==> b == p(k@),
        ensures
            forall|n: Name| #[trigger] final(self)@.contains_key(n) <==> old(self)@.contains_key(n) && p(n),
            forall|n: Name| #[trigger] final(self)@.contains_key(n) ==> final(self)@[n] == old(self)@[n],
    { unimplemented!() }
}
impl<K: View<V = Name>, V> VIntoIter for HashMap<K, V> {
    type Item = (K, V);
    open spec fn yields(self, ys: Seq<(K, V)>) -> bool { enumerates(ys, self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<(K, V)>) { unimplemented!() }
}
impl<'b, K: View<V = Name>, V> VIntoIter for &'b HashMap<K, V> {
    type Item = (&'b K, &'b V);
    open spec fn yields(self, ys: Seq<(&'b K, &'b V)>) -> bool { enumerates_ref(ys, self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<(&'b K, &'b V)>) { unimplemented!() }
}
impl<K: View<V = Name>, V> VFrom<(K, V)> for HashMap<K, V> {
    open spec fn from_rel(items: Seq<(K, V)>, r: Self) -> bool { r@ == map_of(items) }
    #[verifier::external_body]
    fn v_from(it: VIter<(K, V)>) -> (r: Self) { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { x: core::marker::PhantomData<K> }
impl<K> View for HashSet<K> { type V = Set<Name>; uninterp spec fn view(&self) -> Set<Name>; }
pub open spec fn set_of<K: View<V = Name>>(items: Seq<K>) -> Set<Name>
    decreases items.len(),
{
    if items.len() == 0 { Set::empty() } else { set_of(items.drop_last()).insert(items.last()@) }
}
impl<K: View<V = Name>> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<Name>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<Name>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: View<V = Name> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self@.contains(q@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: View<V = Name> + ?Sized>(&mut self, q: &Q) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(q@), r == old(self)@.contains(q@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = Name> + ?Sized>(&self, q: &Q) -> (r: Option<&K>)
        ensures r is Some <==> self@.contains(q@), r matches Some(k) ==> k@ == q@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<Name>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter<'b>(&'b self) -> (r: VIter<&'b K>) ensures lists(r@, self@) { unimplemented!() }
}
impl<'b, K: View<V = Name>> VIntoIter for &'b HashSet<K> {
    type Item = &'b K;
    open spec fn yields(self, ys: Seq<&'b K>) -> bool { lists(ys, self@) }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<&'b K>) { unimplemented!() }
}
/// `v.contains(&x)` of a vector of names
pub trait VContains<T> { fn contains(&self, q: &T) -> (r: bool) ensures r == self.member(*q); spec fn member(&self, q: T) -> bool; }
impl<'b> VContains<&'b str> for Vec<&'b str> {
    open spec fn member(&self, q: &'b str) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i])@ == q@ }
    #[verifier::external_body]
    fn contains(&self, q: &&'b str) -> (r: bool) { unimplemented!() }
}
impl<K: View<V = Name>> VFrom<K> for HashSet<K> {
    open spec fn from_rel(items: Seq<K>, r: Self) -> bool { r@ == set_of(items) }
    #[verifier::external_body]
    fn v_from(it: VIter<K>) -> (r: Self) { unimplemented!() }
}

// ---- strings and formatting --------------------------------------------------
/// what `{}` prints for a value
pub trait Disp { spec fn disp(&self) -> Name; }
impl Disp for str { open spec fn disp(&self) -> Name { self@ } }
impl Disp for String { open spec fn disp(&self) -> Name { self@ } }
impl Disp for char { open spec fn disp(&self) -> Name { seq![*self] } }
pub uninterp spec fn dec(n: int) -> Name;
impl Disp for usize { open spec fn disp(&self) -> Name { dec(*self as int) } }
impl Disp for i32 { open spec fn disp(&self) -> Name { dec(*self as int) } }
impl Disp for u32 { open spec fn disp(&self) -> Name { dec(*self as int) } }
impl Disp for u64 { open spec fn disp(&self) -> Name { dec(*self as int) } }
impl Disp for i64 { open spec fn disp(&self) -> Name { dec(*self as int) } }
impl Disp for u8 { open spec fn disp(&self) -> Name { dec(*self as int) } }
impl Disp for u16 { open spec fn disp(&self) -> Name { dec(*self as int) } }
impl Disp for i8 { open spec fn disp(&self) -> Name { dec(*self as int) } }
impl Disp for i16 { open spec fn disp(&self) -> Name { dec(*self as int) } }
impl Disp for isize { open spec fn disp(&self) -> Name { dec(*self as int) } }
impl Disp for u128 { open spec fn disp(&self) -> Name { dec(*self as int) } }
impl<T: Disp + ?Sized> Disp for &T { open spec fn disp(&self) -> Name { (**self).disp() } }

/// a + b, written so that the empty start of a `format!` disappears
pub open spec fn cat(a: Name, b: Name) -> Name { if a.len() == 0 { b } else { a + b } }
#[verifier::external_body]
pub fn v_fmt_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn v_fmt_lit(s: &mut String, lit: &str) ensures final(s)@ == cat(old(s)@, lit@) { unimplemented!() }
#[verifier::external_body]
pub fn v_fmt_arg<T: Disp + ?Sized>(s: &mut String, x: &T) ensures final(s)@ == cat(old(s)@, x.disp()) { unimplemented!() }
pub trait VToString { fn v_to_string(&self) -> (r: String) ensures r@ == self.str_of(); spec fn str_of(&self) -> Name; }
impl<T: Disp + ?Sized> VToString for T {
    open spec fn str_of(&self) -> Name { self.disp() }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}

// ---- strings being built ------------------------------------------------------
#[verifier::external_body]
pub fn v_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
/// `write!(out, "fmt", args)`: t is the old text followed by the pieces of the
/// format string and what `{}` prints for the arguments, as the extractor read them
#[verifier::external_body]
pub fn v_put(out: &mut String, t: Ghost<Name>) ensures final(out)@ == t@ { unimplemented!() }
pub fn v_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }
/// `mem::take`, for what is left behind
pub trait VEmpty: Sized { spec fn is_left(self) -> bool; }
impl VEmpty for String { open spec fn is_left(self) -> bool { self@ == Seq::<char>::empty() } }
impl<T> VEmpty for Vec<T> { open spec fn is_left(self) -> bool { self@ == Seq::<T>::empty() } }
#[verifier::external_body]
pub fn v_take<T: VEmpty>(s: &mut T) -> (r: T) ensures r == *old(s), final(s).is_left() { unimplemented!() }
pub fn v_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { let mut b = b; core::mem::swap(a, &mut b); b }
/// `a += b` where b is not a literal
pub trait VAdd<R>: Sized {
    spec fn can_add(self, b: R) -> bool;
    spec fn added(self, b: R, c: Self) -> bool;
    fn v_add_to(&mut self, b: R) requires old(self).can_add(b) ensures old(self).added(b, *final(self));
}
impl VAdd<&str> for String {
    open spec fn can_add(self, b: &str) -> bool { true }
    open spec fn added(self, b: &str, c: String) -> bool { c@ == self@ + b@ }
    fn v_add_to(&mut self, b: &str) { self.push_str(b) }
}
impl VAdd<usize> for usize {
    open spec fn can_add(self, b: usize) -> bool { self + b <= usize::MAX }
    open spec fn added(self, b: usize, c: usize) -> bool { c == self + b }
    fn v_add_to(&mut self, b: usize) { *self = *self + b; }
}
/// `&str` or `String` into `String`
pub trait VInto: Sized { spec fn text(self) -> Name; fn v_into(self) -> (r: String) ensures r@ == self.text(); }
impl VInto for &str {
    open spec fn text(self) -> Name { self@ }
    #[verifier::external_body]
    fn v_into(self) -> (r: String) { unimplemented!() }
}
impl VInto for String {
    open spec fn text(self) -> Name { self@ }
    fn v_into(self) -> (r: String) { self }
}
pub open spec fn names(v: Seq<String>) -> Seq<Name> { v.map_values(|s: String| s@) }
pub open spec fn join(s: Seq<Name>, sep: Name) -> Name
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { join(s.drop_last(), sep) + sep + s.last() }
}
pub trait VJoin { fn v_join(&self, sep: &str) -> (r: String) ensures r@ == join(names(self.items()), sep@); spec fn items(&self) -> Seq<String>; }
impl VJoin for [String] {
    open spec fn items(&self) -> Seq<String> { self@ }
    #[verifier::external_body]
    fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() }
}
pub broadcast proof fn lemma_names_push(v: Seq<String>, x: String)
    ensures #[trigger] names(v.push(x)) == names(v).push(x@),
{ assert(names(v.push(x)) =~= names(v).push(x@)); }
pub broadcast proof fn lemma_names_empty(v: Seq<String>)
    ensures v.len() == 0 ==> #[trigger] names(v) == Seq::<Name>::empty(),
{ if v.len() == 0 { assert(names(v) =~= Seq::<Name>::empty()); } }
pub broadcast proof fn lemma_names_len(v: Seq<String>)
    ensures #[trigger] names(v).len() == v.len(),
{ }
pub broadcast proof fn lemma_pop_push<T>(v: Seq<T>, x: T)
    ensures #[trigger] v.push(x).drop_last() == v,
{ assert(v.push(x).drop_last() =~= v); }

/// number of bytes of a character, and of a text, in UTF-8
pub open spec fn clen(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub closed spec fn blen(s: Name) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) }
}
pub broadcast proof fn lemma_blen_cat(a: Name, b: Name)
    ensures #[trigger] blen(a + b) == blen(a) + blen(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        lemma_blen_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub broadcast proof fn lemma_blen_ascii(s: Name)
    requires forall|i: int| 0 <= i < s.len() ==> (s[i] as u32) < 128,
    ensures #[trigger] blen(s) == s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_blen_ascii(s.drop_last()); }
}
pub proof fn lemma_blen_one(c: char)
    ensures blen(seq![c]) == clen(c),
{
    assert(seq![c].drop_last() =~= Seq::<char>::empty());
    reveal_with_fuel(blen, 2);
}
pub broadcast proof fn lemma_blen_some(s: Name)
    ensures s.len() > 0 ==> #[trigger] blen(s) > 0,
{ }
/// the first n bytes of a text; n must be between two characters
pub open spec fn bcut(s: Name, n: nat) -> bool { exists|i: int| 0 <= i <= s.len() && #[trigger] blen(s.take(i)) == n }
pub open spec fn btake(s: Name, n: nat) -> Name { s.take(choose|i: int| 0 <= i <= s.len() && #[trigger] blen(s.take(i)) == n) }
pub broadcast proof fn lemma_btake(a: Name, b: Name, n: nat)
    ensures
        #![trigger bcut(a + b, n)]
        #![trigger btake(a + b, n)]
        blen(a) == n ==> bcut(a + b, n) && btake(a + b, n) == a,
{
    if blen(a) == n {
        let s = a + b;
        assert(s.take(a.len() as int) =~= a);
        assert(bcut(s, n));
        let j = choose|i: int| 0 <= i <= s.len() && #[trigger] blen(s.take(i)) == n;
        if j < a.len() { lemma_blen_cat(s.take(j), a.skip(j)); assert(a =~= s.take(j) + a.skip(j)); lemma_blen_some(a.skip(j)); }
        if j > a.len() { lemma_blen_cat(a, b.take(j - a.len())); assert(s.take(j) =~= a + b.take(j - a.len())); lemma_blen_some(b.take(j - a.len())); }
    }
}
pub assume_specification[ String::len ](s: &String) -> (r: usize)
    ensures r == blen(s@);
pub assume_specification[ String::truncate ](s: &mut String, n: usize)
    requires n <= blen(old(s)@) ==> bcut(old(s)@, n as nat),
    ensures final(s)@ == (if n <= blen(old(s)@) { btake(old(s)@, n as nat) } else { old(s)@ });
pub broadcast proof fn lemma_blen_tab(a: Name)
    ensures #[trigger] blen(a + "    "@) == blen(a) + 4,
{
    broadcast use lemma_blen_cat, lemma_blen_ascii;
    reveal_strlit("    ");
}
/// byte p is the start of character i (or the end)
pub open spec fn at(s: Name, p: usize, i: int) -> bool { 0 <= i <= s.len() && blen(s.take(i)) == p }
pub open spec fn ok(s: Name, p: usize) -> bool { exists|i: int| at(s, p, i) }
/// the character at byte p
pub open spec fn ix(s: Name, p: usize) -> int { choose|i: int| at(s, p, i) }
pub proof fn lemma_at(s: Name, p: usize, i: int)
    requires at(s, p, i),
    ensures ok(s, p), ix(s, p) == i,
{
    broadcast use lemma_blen_cat, lemma_blen_some;
    let j = ix(s, p);
    if i < j { assert(s.take(j) =~= s.take(i) + s.subrange(i, j)); }
    if j < i { assert(s.take(i) =~= s.take(j) + s.subrange(j, i)); }
}
pub broadcast proof fn lemma_ix(s: Name, p: usize)
    requires ok(s, p),
    ensures 0 <= #[trigger] ix(s, p) <= s.len(), blen(s.take(ix(s, p))) == p,
{ }
/// the pieces between the separators, the last one open
pub open spec fn split(s: Name, c: char) -> Seq<Name>
    decreases s.len(),
{
    if s.len() == 0 { seq![s] } else {
        let r = split(s.drop_last(), c);
        if s.last() == c { r.push(Seq::empty()) } else { r.drop_last().push(r.last().push(s.last())) }
    }
}
pub open spec fn times(s: Name, n: int) -> Name
    decreases n,
{
    if n <= 0 { Seq::empty() } else { times(s, n - 1) + s }
}
/// what a text can be searched for
pub trait VPat { spec fn pat(&self) -> Name; }
impl VPat for char { open spec fn pat(&self) -> Name { seq![*self] } }
impl VPat for &str { open spec fn pat(&self) -> Name { self@ } }
/// methods of str
pub trait VStr {
    fn v_from<'b>(&'b self, p: usize) -> (r: &'b str) requires ok(self.chars_of(), p) ensures r@ == self.chars_of().skip(ix(self.chars_of(), p)), blen(self.chars_of()) <= isize::MAX;
    fn v_upto<'b>(&'b self, p: usize) -> (r: &'b str) requires ok(self.chars_of(), p) ensures r@ == self.chars_of().take(ix(self.chars_of(), p)), blen(self.chars_of()) <= isize::MAX;
    fn v_part<'b>(&'b self, p: usize, q: usize) -> (r: &'b str)
        requires ok(self.chars_of(), p), ok(self.chars_of(), q), p <= q
        ensures r@ == self.chars_of().subrange(ix(self.chars_of(), p), ix(self.chars_of(), q));
    fn v_chars(&self) -> (r: VIter<char>) ensures r@ == self.chars_of();
    fn v_split<'b>(&'b self, c: char) -> (r: VIter<&'b str>)
        ensures r@.len() == split(self.chars_of(), c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split(self.chars_of(), c)[i];
    fn v_repeat(&self, n: usize) -> (r: String) ensures r@ == times(self.chars_of(), n as int);
    fn v_starts_with<Q: VPat>(&self, q: Q) -> (r: bool) ensures r == (q.pat().len() <= self.chars_of().len() && self.chars_of().take(q.pat().len() as int) == q.pat());
    fn v_ends_with<Q: VPat>(&self, q: Q) -> (r: bool) ensures r == (q.pat().len() <= self.chars_of().len() && self.chars_of().skip(self.chars_of().len() - q.pat().len()) == q.pat());
    spec fn chars_of(&self) -> Name;
}
impl VStr for str {
    open spec fn chars_of(&self) -> Name { self@ }
    #[verifier::external_body]
    fn v_from<'b>(&'b self, p: usize) -> (r: &'b str) { unimplemented!() }
    #[verifier::external_body]
    fn v_upto<'b>(&'b self, p: usize) -> (r: &'b str) { unimplemented!() }
    #[verifier::external_body]
    fn v_part<'b>(&'b self, p: usize, q: usize) -> (r: &'b str) { unimplemented!() }
    #[verifier::external_body]
    fn v_chars(&self) -> (r: VIter<char>) { unimplemented!() }
    #[verifier::external_body]
    fn v_split<'b>(&'b self, c: char) -> (r: VIter<&'b str>) { unimplemented!() }
    #[verifier::external_body]
    fn v_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn v_starts_with<Q: VPat>(&self, q: Q) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_ends_with<Q: VPat>(&self, q: Q) -> (r: bool) { unimplemented!() }
}
pub broadcast group strings { lemma_names_push, lemma_names_empty, lemma_names_len, lemma_pop_push, lemma_blen_tab, lemma_btake }

} // verus!
} // mod prelude
