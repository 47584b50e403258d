//@item src/encoder/error.rs enum EncodeError
pub type Result<T> = core::result::Result<T, EncodeError>;
use value_stack::{Collection, DictKey, DictElement, Array, Dict};
//@item src/encoder/value_stack.rs struct CollectionStack
//@rewrite collections : => pub collections :
//@item src/encoder/mod.rs struct Encoder
//@rewrite out : => pub out :
//@rewrite shared_keys : => pub shared_keys :
//@rewrite collection_stack : => pub collection_stack :
//@rewrite top_collection_closed : => pub top_collection_closed :
// derive(Default)
impl CollectionStack { pub fn default() -> (r: Self) ensures r.collections@ == Seq::<Collection>::empty() { CollectionStack { collections: Vec::new() } } }
impl Encoder {
    pub fn default() -> (r: Self)
        ensures r.out@ == Seq::<u8>::empty(), r.shared_keys is None, r.collection_stack.collections@ == Seq::<Collection>::empty(), !r.top_collection_closed
    { Encoder { out: Vec::new(), shared_keys: None, collection_stack: CollectionStack::default(), top_collection_closed: false } }
}
// Vec and slice operations
#[verifier::external_body]
pub fn vx_last<T>(v: &Vec<T>) -> (r: Option<&T>) ensures match r { Some(x) => v@.len() > 0 && *x == v@.last(), None => v@.len() == 0 } { v.last() }
#[verifier::external_body]
pub fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures match r { Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(x)),
        None => old(v)@.len() == 0 && *final(v) == *old(v) } { v.last_mut() }
/// &mut v[a..b]
#[verifier::external_body]
pub fn vx_slice_mut(v: &mut Vec<u8>, a: usize, b: usize) -> (r: &mut [u8])
    requires a <= b <= old(v)@.len()
    ensures r@ == old(v)@.subrange(a as int, b as int), final(r)@.len() == r@.len() ==> final(v)@ == old(v)@.take(a as int) + final(r)@ + old(v)@.skip(b as int) && final(v)@.subrange(a as int, b as int) == final(r)@ { &mut v[a..b] }
/// v.extend(core::iter::repeat(0).take(n))
#[verifier::external_body]
pub fn vx_extend_zero(v: &mut Vec<u8>, n: usize)
    ensures final(v)@ == old(v)@ + Seq::new(n as nat, |i: int| 0u8) { v.extend(core::iter::repeat(0).take(n)) }
/// assert_eq!
pub fn vx_assert_eq(a: Option<usize>, b: Option<usize>) requires a == b {}
/// Box<str>::from(&str), and back
#[verifier::external_body]
pub fn vx_box(s: &str) -> (r: Box<str>) ensures (*r)@ == s@ { s.into() }
#[verifier::external_body]
pub fn vx_unbox(s: &Box<str>) -> (r: &str) ensures r@ == (**s)@ { s.as_ref() }
/// str::cmp is byte-wise, like the one of slices of bytes
pub trait Lex { spec fn lexb(&self) -> Seq<u8>; fn vx_cmp(&self, b: &Self) -> (r: Ordering) ensures ord_int(r) == lex(self.lexb(), b.lexb()); }
impl Lex for str {
    open spec fn lexb(&self) -> Seq<u8> { encode_utf8(self@) }
    #[verifier::external_body]
    fn vx_cmp(&self, b: &str) -> (r: Ordering) { self.cmp(b) }
}
impl Lex for [u8] {
    open spec fn lexb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_cmp(&self, b: &[u8]) -> (r: Ordering) { self.cmp(b) }
}
pub fn vx_str_cmp<T: Lex + ?Sized>(a: &T, b: &T) -> (r: Ordering) ensures ord_int(r) == lex(a.lexb(), b.lexb()) { a.vx_cmp(b) }
pub fn vx_u16_cmp(a: &u16, b: &u16) -> (r: Ordering) ensures ord_int(r) == (if *a < *b { -1int } else if *a > *b { 1 } else { 0 }) {
    if *a < *b { Ordering::Less } else if *a > *b { Ordering::Greater } else { Ordering::Equal }
}
/// What `SizedValue::as_value` gives: a Value over these four bytes (group decode: `as_value`). Below, the contracts which
/// the accessors have in group decode, for these bytes.
#[verifier::external_body]
pub struct InlineValue { p: u8 }
impl InlineValue {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: &str) requires scalar_ok(self@) ensures encode_utf8(r@) == str_at(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_data(&self) -> (r: &[u8]) requires scalar_ok(self@) ensures r@ == (if kind(self@[0]) == ValueType::String || kind(self@[0]) == ValueType::Data { data_val(self@) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn value_type(&self) -> (r: ValueType) ensures r == kind(self@[0]) { unimplemented!() }
}
impl SizedValue {
    #[verifier::external_body]
    pub fn as_value(&self) -> (r: &InlineValue) ensures r@ == self.bytes@ { unimplemented!() }
}
/// an inline key is a value of its own
pub open spec fn key_ok(k: DictKey) -> bool { k matches DictKey::Inline(v) ==> scalar_ok(v.bytes@) }
/// v.sort_unstable_by(f): a permutation of v in ascending order, if f is the total order `elem_cmp`
#[verifier::external_body]
pub fn vx_sort<F: Fn(&DictElement, &DictElement) -> Ordering>(v: &mut Vec<DictElement>, f: F)
    requires forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> #[trigger] f.requires((&old(v)@[i], &old(v)@[j])),
        forall|i: int, j: int, o: Ordering| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() && #[trigger] f.ensures((&old(v)@[i], &old(v)@[j]), o) ==> ord_int(o) == elem_cmp(old(v)@[i], old(v)@[j]),
    ensures sorted_of(old(v)@, final(v)@) { v.sort_unstable_by(f) }
/// An Arc<Scope> which has just been made: the bytes it retains and the keys it was given
#[verifier::external_body]
pub struct Scoped { p: u8 }
impl Scoped {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn keys(&self) -> Option<SharedKeys>;
}
/// the contract of Scope::new (group scope), for these bytes and keys
#[verifier::external_body]
pub fn vx_scope(data: Vec<u8>, keys: Option<std::sync::Arc<SharedKeys>>) -> (r: Scoped)
    ensures r.data() == data@, match keys { Some(k) => r.keys() == Some(*k), None => r.keys() is None } { unimplemented!() }
pub fn vx_arc(keys: Option<SharedKeys>) -> (r: Option<std::sync::Arc<SharedKeys>>)
    ensures match r { Some(k) => keys == Some(*k), None => keys is None } { match keys { Some(k) => Some(std::sync::Arc::new(k)), None => None } }
/// An AllocedValue which has just been made: the bytes it owns and where in them its value is
#[verifier::external_body]
pub struct Owned { p: u8 }
impl Owned {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn at(&self) -> (int, int);
}
/// the contracts of Value::clone_from_bytes and Value::clone_from_bytes_unchecked (group scope)
#[verifier::external_body]
pub struct Value { p: u8 }
impl Value {
    #[verifier::external_body]
    pub fn clone_from_bytes(data: &Vec<u8>) -> (r: core::result::Result<Owned, value::DecodeError>)
        ensures match r {
            Ok(a) => a.data() == data@ && root(data@) == Some(a.at()) && valid(data@, a.at().0, a.at().1, false),
            Err(_) => match root(data@) { Some((p, n)) => !valid(data@, p, n, false), None => true } } { unimplemented!() }
    #[verifier::external_body]
    pub fn clone_from_bytes_unchecked(data: &Vec<u8>) -> (r: Owned)
        requires root(data@) is Some
        ensures r.data() == data@, root(data@) == Some(r.at()) { unimplemented!() }
}
/// whether this is a build without debug assertions: not known
#[verifier::external_body]
pub fn vx_release() -> bool { unimplemented!() }
pub fn vx_unwrap<T, X>(r: core::result::Result<T, X>) -> (t: T) requires r is Ok ensures r == core::result::Result::<T, X>::Ok(t) { match r { Ok(t) => t, Err(_) => vstd::pervasive::unreached() } }
