//@global & * $$x . value => $$x.value.to_ref()
//@global core :: ptr :: from_ref ( $$x ) => ($$x).to_ptr()
//@global & $x . buf => $x.buf.bytes()
//@global Arc :: from ( data . to_vec ( ) ) => vx_copy(data)
//@global core :: ptr :: slice_from_raw_parts ( NonNull :: < u8 > :: dangling ( ) . as_ptr ( ) , 0 ) as * const Value => Ptr::dangling()
//@global core :: ptr :: slice_from_raw_parts ( EMPTY_ARRAY . as_ptr ( ) , EMPTY_ARRAY . len ( ) ) as * const Array => vx_whole(vx_empty_array())
//@global core :: ptr :: slice_from_raw_parts ( EMPTY_DICT . as_ptr ( ) , EMPTY_DICT . len ( ) ) as * const Dict => vx_whole(vx_empty_dict())
//@global EMPTY_ARRAY . clone ( ) => vx_empty_array().clone()
//@global EMPTY_DICT . clone ( ) => vx_empty_dict().clone()
//@global unsafe fn => fn
impl<T: VxAt> Alloced<T> {
//@extract src/alloced.rs impl < T : ? Sized > Alloced < T > :: fn value
//@prop C12
//@ret r
//@contract
    requires self.here(),
    ensures r.at() == self.value@,
//@end
//@extract src/alloced.rs impl < T : ? Sized > Clone for Alloced < T > :: fn clone
//@prop C12
//@sig fn clone => pub fn clone
//@rewrite value : self . value => value: self.value.copy()
//@ret r
//@contract
    ensures r.buf == self.buf, r.value == self.value,
//@end
//@extract src/alloced.rs impl < T : ? Sized > Deref for Alloced < T > :: fn deref
//@prop C12
//@sig fn deref => pub fn deref
//@sig Self :: Target => T
//@ret r
//@contract
    requires self.here(),
    ensures r.at() == self.value@,
//@end
//@extract src/alloced.rs impl < T > AsRef < T > for Alloced < T > :: fn as_ref
//@prop C12
//@sig fn as_ref => pub fn as_ref
//@ret r
//@contract
    requires self.here(),
    ensures r.at() == self.value@,
//@end
}
impl AllocedValue {
//@extract src/alloced.rs impl AllocedValue :: fn new_dangling
//@prop C12
//@ret r
//@contract
    ensures r.buf@ == data@, data@ == doc() ==> is_doc(r.buf),
//@end
//@extract src/alloced.rs impl AllocedValue :: fn to_array
//@prop C12
//@rewrite self . value_type ( ) => self.value().value_type()
//@ret r
//@contract
    requires self.here(),
    ensures match r { Some(a) => a.buf == self.buf && a.value@ == self.value@ && kind(self.buf@[self.value@.0]) == ValueType::Array, None => kind(self.buf@[self.value@.0]) != ValueType::Array },
//@at start
    proof { lemma_ok(self.value@.0, self.value@.1); }
//@end
//@extract src/alloced.rs impl AllocedValue :: fn to_dict
//@prop C12
//@rewrite self . value_type ( ) => self.value().value_type()
//@ret r
//@contract
    requires self.here(),
    ensures match r { Some(a) => a.buf == self.buf && a.value@ == self.value@ && kind(self.buf@[self.value@.0]) == ValueType::Dict, None => kind(self.buf@[self.value@.0]) != ValueType::Dict },
//@at start
    proof { lemma_ok(self.value@.0, self.value@.1); }
//@end
}
impl AllocedArray {
//@extract src/alloced.rs impl AllocedArray :: fn empty
//@prop C12
//@ret r
//@contract
    ensures r.owns(), r.buf@ == seq![tag::ARRAY, 0u8], r.value@ == (0int, 2int),
//@end
}
impl AllocedDict {
//@extract src/alloced.rs impl AllocedDict :: fn empty
//@prop C12
//@ret r
//@contract
    ensures r.owns(), r.buf@ == seq![tag::DICT, 0u8], r.value@ == (0int, 2int),
//@end
}
impl Value {
//@extract src/value/mod.rs impl Value :: fn clone_from_bytes
//@prop C12 C06
//@ret r
//@contract
    requires data@ == doc(),
    ensures match r {
        Ok(a) => a.buf@ == data@ && is_doc(a.buf) && a.owns() && root(data@) == Some(a.value@) && valid(data@, a.value@.0, a.value@.1, false),
        Err(_) => match root(data@) { Some((p, n)) => !valid(data@, p, n, false), None => true } },
//@at start
    proof { lemma_root(); }
//@end
//@extract src/value/mod.rs impl Value :: fn clone_from_bytes_unchecked
//@prop C12
//@ret r
//@contract
    requires data@ == doc(), root(doc()).is_some(),
    ensures r.buf@ == data@, is_doc(r.buf), r.owns(), root(data@) == Some(r.value@),
//@at start
    proof { lemma_root(); }
//@end
}
impl Array {
//@extract src/value/array.rs impl Array :: fn clone_from_bytes
//@prop C12 C06
//@rewrite value :: DecodeError => DecodeError
//@ret r
//@contract
    requires data@ == doc(),
    ensures match r {
        Ok(a) => a.buf@ == data@ && is_doc(a.buf) && a.owns() && root(data@) == Some(a.value@) && valid(data@, a.value@.0, a.value@.1, false) && kind(data@[a.value@.0]) == ValueType::Array,
        Err(_) => match root(data@) { Some((p, n)) => !valid(data@, p, n, false) || kind(data@[p]) != ValueType::Array, None => true } },
//@end
}
impl Dict {
//@extract src/value/dict.rs impl Dict :: fn clone_from_bytes
//@prop C12 C06
//@rewrite value :: DecodeError => DecodeError
//@ret r
//@contract
    requires data@ == doc(),
    ensures match r {
        Ok(a) => a.buf@ == data@ && is_doc(a.buf) && a.owns() && root(data@) == Some(a.value@) && valid(data@, a.value@.0, a.value@.1, false) && kind(data@[a.value@.0]) == ValueType::Dict,
        Err(_) => match root(data@) { Some((p, n)) => !valid(data@, p, n, false) || kind(data@[p]) != ValueType::Dict, None => true } },
//@end
}
