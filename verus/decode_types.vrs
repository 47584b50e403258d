#[repr(transparent)]
pub struct Value { pub bytes: Bytes }
pub struct Array { pub value: Value }
pub struct Dict { pub array: Array }
pub struct Pointer { pub value: Value }
//@item src/value/array.rs const VARINT_COUNT
//@item src/value/error.rs enum DecodeError
pub type Result<T> = core::result::Result<T, DecodeError>;
impl Value {
    pub open spec fn pos(&self) -> int { self.bytes.pos() }
    pub open spec fn n(&self) -> int { self.bytes.n() }
    pub open spec fn view(&self) -> Seq<u8> { self.bytes@ }
}
impl Array {
    pub open spec fn pos(&self) -> int { self.value.bytes.pos() }
    pub open spec fn n(&self) -> int { self.value.bytes.n() }
    pub open spec fn view(&self) -> Seq<u8> { self.value.bytes@ }
}
impl Dict {
    pub open spec fn pos(&self) -> int { self.array.value.bytes.pos() }
    pub open spec fn n(&self) -> int { self.array.value.bytes.n() }
    pub open spec fn view(&self) -> Seq<u8> { self.array.value.bytes@ }
}
impl Pointer {
    pub open spec fn pos(&self) -> int { self.value.bytes.pos() }
    pub open spec fn n(&self) -> int { self.value.bytes.n() }
    pub open spec fn view(&self) -> Seq<u8> { self.value.bytes@ }
}
/// transmute of a slice to the #[repr(transparent)] wrapper
#[verifier::external_body]
pub fn vx_value<'a>(b: &'a Bytes) -> (r: &'a Value) ensures r.bytes.pos() == b.pos(), r.bytes.n() == b.n() { unimplemented!() }
#[verifier::external_body]
pub fn vx_array<'a>(b: &'a Value) -> (r: &'a Array) ensures r.pos() == b.pos(), r.n() == b.n() { unimplemented!() }
#[verifier::external_body]
pub fn vx_dict<'a>(b: &'a Value) -> (r: &'a Dict) ensures r.pos() == b.pos(), r.n() == b.n() { unimplemented!() }
#[verifier::external_body]
pub fn vx_pointer<'a>(b: &'a Value) -> (r: &'a Pointer) ensures r.pos() == b.pos(), r.n() == b.n() { unimplemented!() }

// {integer, float}::from_{le, be}_bytes
#[verifier::external_body]
pub fn vx_i64_from_le_bytes(b: [u8; 8]) -> (r: i64)
    ensures r as int == (if le_val(b@) < 0x8000_0000_0000_0000 { le_val(b@) as int } else { le_val(b@) - 0x1_0000_0000_0000_0000 }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == le_val(b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r == be16(b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f32_from_le_bytes(b: [u8; 4]) -> (r: f32) ensures r == f32_of_bits(le_val(b@) as u32) { unimplemented!() }
#[verifier::external_body]
pub fn vx_f64_from_le_bytes(b: [u8; 8]) -> (r: f64) ensures r == f64_of_bits(le_val(b@) as u64) { unimplemented!() }
/// f64::from(f32)
#[verifier::external_body]
pub fn vx_f64_from_f32(x: f32) -> (r: f64) ensures r == f32_as_f64(x) { unimplemented!() }
/// core::str::from_utf8(b).unwrap_or("")
#[verifier::external_body]
pub fn vx_str_or_empty<'a>(b: &'a Bytes) -> (r: &'a str)
    ensures encode_utf8(r@) == (if valid_utf8(b@) { b@ } else { Seq::empty() }) { unimplemented!() }
