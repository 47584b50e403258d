// folklore::HashMap (a dependency), used by one thread: an insert-only list of distinct keys with values
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
pub mod folklore { pub use super::{HashMap, HashMapIter as Iter}; }
/// a key as the characters it holds
pub trait VxKey { spec fn chars(&self) -> Seq<char>; }
impl<K: VxKey, V: Copy> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Seq<(Seq<char>, V)>;
    pub uninterp spec fn cap(&self) -> nat;
    pub open spec fn has(&self, k: Seq<char>) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).0 == k }
    pub open spec fn distinct(&self) -> bool { forall|i: int, j: int| 0 <= i < j < self@.len() ==> (#[trigger] self@[i]).0 != (#[trigger] self@[j]).0 }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) requires n <= 0x7fff ensures r@.len() == 0, r.cap() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<V>)
        ensures match r { Some(v) => exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == (k.chars(), v), None => !self.has(k.chars()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: bool)
        ensures r == (old(self)@.len() < old(self).cap() && !old(self).has(k.chars())), final(self).cap() == old(self).cap(),
            final(self)@ == (if r { old(self)@.push((k.chars(), v)) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_key(&self, i: usize) -> (r: Option<&K>)
        ensures match r { Some(k) => i < self@.len() && k.chars() == self@[i as int].0, None => i >= self@.len() } { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@, r.cap() == self.cap() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter<'a>(&'a self) -> (r: HashMapIter<'a, K, V>) ensures r.map() == *self, r.index() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: HashMapIter<'a, K, V>) ensures r.map() == *self, r.index() == 0 { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMapIter<'a, K, V> { p: core::marker::PhantomData<&'a (K, V)> }
impl<'a, K: VxKey, V: Copy> HashMapIter<'a, K, V> {
    pub uninterp spec fn map(&self) -> HashMap<K, V>;
    pub uninterp spec fn index(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, V)>)
        ensures final(self).map() == old(self).map(), match r {
            Some(e) => 0 <= old(self).index() < old(self).map()@.len() && (e.0.chars(), e.1) == old(self).map()@[old(self).index()] && final(self).index() == old(self).index() + 1,
            None => old(self).index() >= old(self).map()@.len() && final(self).index() == old(self).index(),
        } { unimplemented!() }
}
// fixedstr::zstr (a dependency): a string of fewer than N bytes, ended by a zero byte
#[verifier::external_body]
#[allow(non_camel_case_types)]
pub struct zstr<const N: usize> { p: u8 }
impl<const N: usize> VxKey for zstr<N> { uninterp spec fn chars(&self) -> Seq<char>; }
impl<const N: usize> zstr<N> {
    #[verifier::external_body]
    pub fn make(s: &str) -> (r: Self)
        ensures encode_utf8(s@).len() < N && (forall|i: int| 0 <= i < s@.len() ==> #[trigger] s@[i] != '\0') ==> r.chars() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self.chars() { unimplemented!() }
}
/// key.chars().all(f)
#[verifier::external_body]
pub fn vx_all<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| #[trigger] f.requires((c,))
    ensures r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), true),
        !r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), false) { unimplemented!() }
#[verifier::external_body]
pub fn vx_alnum(c: char) -> (r: bool) ensures r == alnum(c) { unimplemented!() }
#[verifier::external_body]
pub fn vx_bytes_len(s: &str) -> (r: usize) ensures r == encode_utf8(s@).len() { unimplemented!() }
/// the zero character is not alphanumeric
pub broadcast axiom fn axiom_alnum(c: char)
    ensures #[trigger] alnum(c) ==> c != '\0';

//@item src/shared_keys.rs struct SharedKeys
//@rewrite ( folklore => ( pub folklore
impl SharedKeys {
//@item src/shared_keys.rs const SharedKeys::MAX_KEYS
//@item src/shared_keys.rs const SharedKeys::MAX_KEY_LEN
    pub open spec fn view(&self) -> Seq<Seq<u8>> { Seq::new(self.0@.len(), |i: int| encode_utf8(self.0@[i].0)) }
    /// the strings are distinct and acceptable, and each has the number of its place
    pub open spec fn wf(&self) -> bool {
        &&& self.0@.len() <= 2048 && self.0.cap() == 2048 && self.0.distinct()
        &&& forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).1 == i && key_fits(self.0@[i].0)
    }
}
pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>)
    ensures (encode_utf8(a) == encode_utf8(b)) == (a == b)
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }
pub proof fn lemma_wf(s: SharedKeys)
    requires s.wf()
    ensures sk_ok(s@), s@.len() == s.0@.len(), forall|k: Seq<char>| s@.contains(encode_utf8(k)) == #[trigger] s.0.has(k),
        forall|i: int| 0 <= i < s@.len() ==> key_fits_bytes(#[trigger] s@[i]),
        forall|i: int| 0 <= i < s@.len() ==> sk_encode(s@, encode_utf8(#[trigger] s.0@[i].0)) == Some(i as u16),
{
    assert forall|i: int, j: int| 0 <= i < j < s@.len() implies #[trigger] s@[i] != #[trigger] s@[j] by { lemma_utf8_inj(s.0@[i].0, s.0@[j].0); }
    assert forall|k: Seq<char>| s@.contains(encode_utf8(k)) == #[trigger] s.0.has(k) by {
        if s.0.has(k) { let i = choose|i: int| 0 <= i < s.0@.len() && (#[trigger] s.0@[i]).0 == k; assert(s@[i] == encode_utf8(k)); }
        if s@.contains(encode_utf8(k)) { let i = s@.index_of(encode_utf8(k)); lemma_utf8_inj(s.0@[i].0, k); }
    }
    assert forall|i: int| 0 <= i < s@.len() implies key_fits_bytes(#[trigger] s@[i]) by { encode_utf8_decode_utf8(s.0@[i].0); encode_utf8_valid_utf8(s.0@[i].0); }
    assert forall|i: int| 0 <= i < s@.len() implies sk_encode(s@, encode_utf8(#[trigger] s.0@[i].0)) == Some(i as u16) by { lemma_sk_find(s@, i); }
}
