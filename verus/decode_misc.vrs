// ---------------------------------------------------------------- constants, Index, Debug
/// a constant, where it is the document
#[verifier::external_body]
pub fn vx_static<'a>(x: [u8; 2]) -> (r: &'a Value) requires x@ == doc() ensures r.pos() == 0, r.n() == 2 { unimplemented!() }
/// a document of one two-byte value which is no pointer, with nothing more to it
pub proof fn lemma_small(h: u8, k: ValueType)
    requires kind(h) == k, k == ValueType::Null || k == ValueType::Undefined || k == ValueType::True || k == ValueType::False || (is_coll(k) && h % 16 == 0),
        doc() =~= seq![h, 0u8]
    ensures ok_at(0, 2), root(doc()) == Some((0int, 2int)), is_coll(k) ==> c_count(doc()) == 0, doc().subrange(0, 2) == doc(), kind(doc()[0]) == k
{
    assert(doc().subrange(0, 2) =~= doc());
    assert(doc()[0] == h && doc()[1] == 0);
    reveal(valid);
    if is_coll(k) { assert(c_field(doc()) == 0); assert(c_count(doc()) * c_width(doc()) == 0); }
}
/// four bytes as a value, where they are the document
#[verifier::external_body]
pub fn vx_sized<'a>(x: &'a [u8; 4]) -> (r: &'a Value) requires x@ == doc() ensures r.pos() == 0, r.n() == 4 { unimplemented!() }
#[derive(Clone, Copy)]
//@item src/value/sized.rs struct SizedValue
//@rewrite bytes : => pub bytes :
impl SizedValue {
//@extract src/value/sized.rs impl SizedValue :: fn as_value
//@prop C09 C04
//@rewrite? core :: mem :: transmute ( & self . bytes as & [ u8 ] ) => vx_sized(&self.bytes)
//@ret r
//@contract
    requires doc() == self.bytes@,
    ensures r.pos() == 0, r.n() == 4, r@ == self.bytes@,
//@at start
    proof { assert(doc().subrange(0, 4) =~= doc()); }
//@end
}
impl Value {
//@extract src/value/mod.rs impl Value :: fn is_empty
//@prop C07
//@ret r
//@contract
    ensures r == (self.n() == 0),
//@end
//@extract src/value/mod.rs impl Value :: fn null
//@prop C02
//@rewrite? core :: mem :: transmute ( & $$c [ 0 .. 2 ] ) => vx_static($$c)
//@ret r
//@contract
    requires doc() == constants::NULL@,
    ensures r.ok(), kind(r@[0]) == ValueType::Null,
//@at start
    proof { assert(0x30u8 | 0x00u8 == 0x30 && 0x30u8 | 0x0Cu8 == 0x3C) by (bit_vector); lemma_small(constants::NULL[0], ValueType::Null); }
//@end
//@extract src/value/mod.rs impl Value :: fn undefined
//@prop C02
//@rewrite? core :: mem :: transmute ( & $$c [ 0 .. 2 ] ) => vx_static($$c)
//@ret r
//@contract
    requires doc() == constants::UNDEFINED@,
    ensures r.ok(), kind(r@[0]) == ValueType::Undefined,
//@at start
    proof { assert(0x30u8 | 0x00u8 == 0x30 && 0x30u8 | 0x0Cu8 == 0x3C) by (bit_vector); lemma_small(constants::UNDEFINED[0], ValueType::Undefined); }
//@end
//@extract src/value/mod.rs impl Value :: fn bool
//@prop C02
//@rewrite? core :: mem :: transmute :: < $$t > ( & $$c [ 0 .. 2 ] ) => vx_static($$c)
//@ret r
//@contract
    requires doc() == (if b { constants::TRUE@ } else { constants::FALSE@ }),
    ensures r.ok(), kind(r@[0]) == (if b { ValueType::True } else { ValueType::False }),
//@at start
    proof { assert(0x30u8 | 0x04u8 == 0x34 && 0x30u8 | 0x08u8 == 0x38) by (bit_vector); if b { lemma_small(constants::TRUE[0], ValueType::True); } else { lemma_small(constants::FALSE[0], ValueType::False); }; }
//@end
}
impl Array {
//@extract src/value/array.rs impl Array :: fn empty
//@prop C08
//@sig const fn => fn
//@rewrite? const EMPTY : [ u8 ; 2 ] = $$v ; => let EMPTY: [u8; 2] = $$v;
//@rewrite? core :: mem :: transmute ( & $$c as $$t ) => vx_array(vx_static($$c))
//@ret r
//@contract
    requires doc() == seq![tag::ARRAY, 0u8],
    ensures r.ok(), c_count(r@) == 0,
//@at start
    proof { lemma_small(tag::ARRAY, ValueType::Array); }
//@end
//@extract src/value/array.rs impl Index < usize > for Array :: fn index
//@prop C08
//@sig fn index => pub fn index
//@sig Self :: Output => Value
//@ret r
//@contract
    requires self.ok(), index < c_count(self@),
    ensures (r.pos(), r.n()) == slot_target(doc(), self.pos(), self.n(), index as int), r.ok(),
//@at start
    proof { lemma_ok(self.pos(), self.n()); }
//@end
//@extract src/value/array.rs impl fmt :: Debug for Array :: fn fmt
//@prop C07
//@sig fn fmt => pub fn fmt
//@sig fmt :: Formatter < '_ > => Formatter
//@sig fmt :: Result => FmtResult
//@rewrite for $v in self { => let mut vx_it = self.into_iter(); loop { let Some($v) = vx_it.next() else { break; };
//@ret r
//@contract
    requires self.ok(),
//@loop 1
    invariant vx_it.ok(),
    decreases vx_it.len - vx_it.index,
//@end
}
impl Dict {
//@extract src/value/dict.rs impl Dict :: fn empty
//@prop C08
//@sig const fn => fn
//@rewrite? const EMPTY : [ u8 ; 2 ] = $$v ; => let EMPTY: [u8; 2] = $$v;
//@rewrite? core :: mem :: transmute ( & $$c as $$t ) => vx_dict(vx_static($$c))
//@ret r
//@contract
    requires doc() == seq![tag::DICT, 0u8],
    ensures r.ok(), r.length() == 0,
//@at start
    proof { lemma_small(tag::DICT, ValueType::Dict); }
//@end
//@extract src/value/dict.rs impl Index < & str > for Dict :: fn index
//@prop C09
//@sig fn index => pub fn index
//@sig Self :: Output => Value
//@ret r
//@contract
    requires self.ok(), forall|v: Option<&Value>| #[trigger] self.found(encode_utf8(index@), None, v) ==> v is Some,
    ensures self.found(encode_utf8(index@), None, Some(r)),
//@end
//@extract src/value/dict.rs impl fmt :: Debug for Dict :: fn fmt
//@prop C07
//@sig fn fmt => pub fn fmt
//@sig fmt :: Formatter < '_ > => Formatter
//@sig fmt :: Result => FmtResult
//@rewrite for ( $k , $v ) in self { => let mut vx_it = self.into_iter(); loop { let Some(($k, $v)) = vx_it.next() else { break; };
//@rewrite? map . entry ( $$a , $$b ) => map.pair($$a, $$b)
//@ret r
//@contract
    requires self.ok(),
//@loop 1
    invariant vx_it.it().ok(),
    decreases vx_it.it().len - vx_it.it().index,
//@end
}
/// core::fmt: a formatter, and its builders, which format what they are given
#[verifier::external_body]
pub struct Formatter { p: u8 }
#[verifier::external_body]
pub struct FmtResult { p: u8 }
#[verifier::external_body]
pub struct VxBuilder { p: u8 }
/// what may be formatted
pub trait VxShow { spec fn can_show(&self) -> bool; }
impl VxShow for &str { open spec fn can_show(&self) -> bool { true } }
impl VxShow for i16 { open spec fn can_show(&self) -> bool { true } }
impl VxShow for u16 { open spec fn can_show(&self) -> bool { true } }
impl VxShow for i64 { open spec fn can_show(&self) -> bool { true } }
impl VxShow for u64 { open spec fn can_show(&self) -> bool { true } }
impl VxShow for f32 { open spec fn can_show(&self) -> bool { true } }
impl VxShow for f64 { open spec fn can_show(&self) -> bool { true } }
impl VxShow for &Bytes { open spec fn can_show(&self) -> bool { true } }
impl VxShow for ValueType { open spec fn can_show(&self) -> bool { true } }
impl VxShow for &Value { open spec fn can_show(&self) -> bool { self.ok() } }
impl VxShow for &Array { open spec fn can_show(&self) -> bool { self.ok() } }
impl VxShow for &Dict { open spec fn can_show(&self) -> bool { self.ok() } }
impl Formatter {
    #[verifier::external_body]
    pub fn debug_tuple(&mut self, name: &str) -> (r: VxBuilder) { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_list(&mut self) -> (r: VxBuilder) { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_map(&mut self) -> (r: VxBuilder) { unimplemented!() }
}
impl VxBuilder {
    #[verifier::external_body]
    pub fn field<T: VxShow>(&mut self, x: &T) requires x.can_show() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<T: VxShow>(&mut self, x: &T) requires x.can_show() { unimplemented!() }
    #[verifier::external_body]
    pub fn pair<K: VxShow, T: VxShow>(&mut self, k: &K, x: &T) requires k.can_show(), x.can_show() { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self) -> (r: FmtResult) { unimplemented!() }
}
/// format!("{:?}", x)
#[verifier::external_body]
pub fn vx_format<'a, T: VxShow>(x: T) -> (r: &'a str) requires x.can_show() { unimplemented!() }
impl Value {
//@extract src/value/mod.rs impl fmt :: Debug for Value :: fn fmt
//@prop C07
//@sig fn fmt => pub fn fmt
//@sig fmt :: Formatter < '_ > => Formatter
//@sig fmt :: Result => FmtResult
//@rewrite? & format ! ( "{:?}" , $$x ) => vx_format($$x)
//@rewrite? & format ! ( $$x ) => &vx_format("")
//@ret r
//@contract
    requires self.ok(),
//@at start
    proof { lemma_all_ok(); lemma_ok(self.pos(), self.n()); }
//@end
}
