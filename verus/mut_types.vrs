// ---------------------------------------------------------------- a value which a slot owns, outside any document
// (a `Value` too: what its accessors give is decided by its bytes, group `decode`, whose document is arbitrary)
#[verifier::external_body]
pub struct Held { p: u8 }
impl Held { pub uninterp spec fn view(&self) -> Seq<u8>; }
/// transmute of a slice to the #[repr(transparent)] wrapper
#[verifier::external_body]
pub fn vx_held<'a>(b: &'a [u8]) -> (r: &'a Held) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_held_box(b: Box<[u8]>) -> (r: Box<Held>) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_held_bytes(b: &Held) -> (r: &[u8]) ensures r@ == b@ { unimplemented!() }
impl Held {
    /// Value::len
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
/// <[T]>::copy_from_slice
#[verifier::external_body]
pub fn vx_copy_from_slice(a: &mut [u8], b: &[u8]) requires old(a)@.len() == b@.len() ensures final(a)@ == b@ { unimplemented!() }
/// core::iter::repeat(x).take(n).collect()
#[verifier::external_body]
pub fn vx_repeat(x: u8, n: usize) -> (r: Box<[u8]>) ensures (*r)@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_slice_mut<const N: usize>(b: &mut [u8; N]) -> (r: &mut [u8]) ensures r@ == old(b)@, final(b)@ == final(r)@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_box_mut(b: &mut Box<[u8]>) -> (r: &mut [u8]) ensures r@ == (**old(b))@, (**final(b))@ == final(r)@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_as_slice<const N: usize>(b: &[u8; N]) -> (r: &[u8]) ensures r@ == b@ { unimplemented!() }

// alloc::collections::BTreeMap: a finite map; the order of the keys decides only the order of iteration
/// what a key stands for: keys which stand for the same are equal
pub trait VxOrd { spec fn key(&self) -> KeyS; }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K: VxOrd, V> BTreeMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<KeyS, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<KeyS, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<KeyS, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k.key()) && *v == self@[k.key()], None => !self@.contains_key(k.key()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(k.key()) && *v == old(self)@[k.key()] && final(self)@ == old(self)@.insert(k.key(), *final(v)),
            None => !old(self)@.contains_key(k.key()) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.key(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: BTreeIter<'a, K, V>) ensures r.ok(), r.map() == *self, r.index() == 0 { unimplemented!() }
}
/// a map is greater than the values in it
pub broadcast axiom fn axiom_btree_decreases<K: VxOrd, V>(m: BTreeMap<K, V>)
    ensures #[trigger] (decreases_to!(m => m@)), m@.dom().finite();
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeIter<'a, K, V> { p: core::marker::PhantomData<&'a (K, V)> }
pub mod btree_map { pub use super::BTreeIter as Iter; }
impl<'a, K: VxOrd, V> BTreeIter<'a, K, V> {
    pub uninterp spec fn map(&self) -> BTreeMap<K, V>;
    pub uninterp spec fn index(&self) -> int;
    /// the keys in the order of iteration
    pub uninterp spec fn keys(&self) -> Seq<KeyS>;
    pub open spec fn ok(&self) -> bool {
        &&& self.keys().len() == self.map()@.dom().len() && 0 <= self.index() <= self.keys().len()
        &&& forall|i: int| 0 <= i < self.keys().len() ==> self.map()@.contains_key(#[trigger] self.keys()[i])
        &&& forall|k: KeyS| self.map()@.contains_key(k) ==> self.keys().contains(k)
        &&& forall|i: int, j: int| 0 <= i < j < self.keys().len() ==> key_cmp(#[trigger] self.keys()[i], #[trigger] self.keys()[j]) < 0
    }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        requires old(self).ok()
        ensures final(self).ok(), final(self).map() == old(self).map(), final(self).keys() == old(self).keys(), match r {
            Some(e) => old(self).index() < old(self).keys().len() && e.0.key() == old(self).keys()[old(self).index()] && *e.1 == old(self).map()@[e.0.key()] && final(self).index() == old(self).index() + 1,
            None => old(self).index() == old(self).keys().len() && final(self).index() == old(self).index(),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.ok()
        ensures r.0 == self.keys().len() - self.index(), r.1 == Some(r.0) { unimplemented!() }
}
// alloc::string::String
#[verifier::external_body]
pub fn vx_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// Option<Arc<SharedKeys>>::clone
#[verifier::external_body]
pub fn vx_clone_sk(x: &Option<Arc<SharedKeys>>) -> (r: Option<Arc<SharedKeys>>) ensures r == *x { unimplemented!() }
/// the scope whose data is the document, and regions of its buffer (group `scope`)
#[verifier::external_body]
pub struct Scope { p: u8 }
#[verifier::external_body]
pub struct AllocedValue { p: u8 }
#[verifier::external_body]
pub struct AllocedArray { p: u8 }
#[verifier::external_body]
pub struct AllocedDict { p: u8 }
impl Scope {
    /// the root, if there is one
    pub uninterp spec fn at(&self) -> Option<(int, int)>;
    /// Scope::find_shared_keys of an address in the document (see `scope_keys`)
    #[verifier::external_body]
    pub fn find_shared_keys(p: usize) -> (r: Option<Arc<SharedKeys>>)
        ensures match r { Some(k) => scope_keys() == Some(*k), None => scope_keys().is_none() } { unimplemented!() }
    #[verifier::external_body]
    pub fn root(&self) -> (r: Option<AllocedValue>) ensures match r { Some(v) => self.at() == Some(v.at()) && ok_at(v.at().0, v.at().1), None => self.at() is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn shared_keys(&self) -> (r: Option<&Arc<SharedKeys>>) ensures match r { Some(k) => scope_keys() == Some(**k), None => scope_keys().is_none() } { unimplemented!() }
}
impl AllocedValue {
    pub uninterp spec fn at(&self) -> (int, int);
    #[verifier::external_body]
    pub fn to_array(self) -> (r: Option<AllocedArray>) requires ok_at(self.at().0, self.at().1)
        ensures match r { Some(a) => a.at() == self.at() && kind(doc()[self.at().0]) == ValueType::Array, None => kind(doc()[self.at().0]) != ValueType::Array } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_dict(self) -> (r: Option<AllocedDict>) requires ok_at(self.at().0, self.at().1)
        ensures match r { Some(a) => a.at() == self.at() && kind(doc()[self.at().0]) == ValueType::Dict, None => kind(doc()[self.at().0]) != ValueType::Dict } { unimplemented!() }
}
impl AllocedArray {
    pub uninterp spec fn at(&self) -> (int, int);
    /// Deref
    #[verifier::external_body]
    pub fn vx_ref(&self) -> (r: &Array) ensures (r.pos(), r.n()) == self.at() { unimplemented!() }
}
impl AllocedDict {
    pub uninterp spec fn at(&self) -> (int, int);
    /// Deref
    #[verifier::external_body]
    pub fn vx_ref(&self) -> (r: &Dict) ensures (r.pos(), r.n()) == self.at() { unimplemented!() }
    /// its address
    #[verifier::external_body]
    pub fn vx_addr(&self) -> (r: usize) { unimplemented!() }
}
/// Option<&Arc<_>>::cloned
pub fn vx_cloned(x: Option<&Arc<SharedKeys>>) -> (r: Option<Arc<SharedKeys>>) ensures match r { Some(k) => x matches Some(y) && *k == **y, None => x is None } { match x { Some(y) => Some(y.clone()), None => None } }
pub assume_specification<T> [core::mem::replace] (x: &mut T, v: T) -> (r: T) ensures r == *old(x), *final(x) == v;
