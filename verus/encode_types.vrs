#[derive(Clone, Copy)]
//@item src/value/sized.rs struct SizedValue
//@rewrite bytes : => pub bytes :
//@item src/encoder/mod.rs struct NullValue
//@item src/encoder/mod.rs struct UndefinedValue
pub mod value_stack {
use super::*;
//@item src/encoder/value_stack.rs enum Collection
//@item src/encoder/value_stack.rs struct Array
//@item src/encoder/value_stack.rs enum DictKey
//@item src/encoder/value_stack.rs struct DictElement
//@item src/encoder/value_stack.rs struct Dict
}
// {integer, float}::to_{le, be}_bytes
pub trait BytesU64 { fn vx_le(&self) -> [u8; 8]; }
impl BytesU64 for u64 {
    #[verifier::external_body]
    fn vx_le(&self) -> (r: [u8; 8]) ensures r@ == le_bytes(*self as nat, 8) { unimplemented!() }
}
pub trait BytesU32 { fn vx_le(&self) -> [u8; 4]; fn vx_be(&self) -> [u8; 4]; }
impl BytesU32 for u32 {
    #[verifier::external_body]
    fn vx_le(&self) -> (r: [u8; 4]) ensures r@ == le_bytes(*self as nat, 4) { unimplemented!() }
    #[verifier::external_body]
    fn vx_be(&self) -> (r: [u8; 4]) ensures be32(r@) == *self { unimplemented!() }
}
pub trait BytesU16 { fn vx_le(&self) -> [u8; 2]; fn vx_be(&self) -> [u8; 2]; }
impl BytesU16 for u16 {
    #[verifier::external_body]
    fn vx_le(&self) -> (r: [u8; 2]) ensures r@ == le_bytes(*self as nat, 2) { unimplemented!() }
    #[verifier::external_body]
    fn vx_be(&self) -> (r: [u8; 2]) ensures r@ == seq![(*self / 256) as u8, (*self % 256) as u8] { unimplemented!() }
}
pub trait BytesI64 { fn vx_le(&self) -> [u8; 8]; }
impl BytesI64 for i64 {
    #[verifier::external_body]
    fn vx_le(&self) -> (r: [u8; 8]) ensures r@ == le_bytes(if *self < 0 { (*self + 0x1_0000_0000_0000_0000) as nat } else { *self as nat }, 8) { unimplemented!() }
}
pub trait BytesI16 { fn vx_le(&self) -> [u8; 2]; fn vx_be(&self) -> [u8; 2]; }
impl BytesI16 for i16 {
    #[verifier::external_body]
    fn vx_le(&self) -> (r: [u8; 2]) ensures r@ == le_bytes((*self as u16) as nat, 2) { unimplemented!() }
    #[verifier::external_body]
    fn vx_be(&self) -> (r: [u8; 2]) ensures r@ == seq![((*self as u16) / 256) as u8, ((*self as u16) % 256) as u8] { unimplemented!() }
}
pub trait BytesF32 { fn vx_le(&self) -> [u8; 4]; }
impl BytesF32 for f32 {
    #[verifier::external_body]
    fn vx_le(&self) -> (r: [u8; 4]) ensures f32_of_bits(le_val(r@) as u32) == *self { unimplemented!() }
}
pub trait BytesF64 { fn vx_le(&self) -> [u8; 8]; }
impl BytesF64 for f64 {
    #[verifier::external_body]
    fn vx_le(&self) -> (r: [u8; 8]) ensures f64_of_bits(le_val(r@) as u64) == *self { unimplemented!() }
}
/// NonZeroUsize::new_unchecked
pub fn vx_nonzero(x: usize) -> (r: usize) requires x != 0 ensures r == x { x }
pub assume_specification [i64::leading_zeros] (x: i64) -> (r: u32)
    ensures x >= 0 ==> r == vstd::std_specs::bits::u64_leading_zeros(x as u64), x < 0 ==> r == 0;
pub assume_specification [i64::leading_ones] (x: i64) -> (r: u32)
    ensures x < 0 ==> r == vstd::std_specs::bits::u64_leading_zeros((-x - 1) as u64), x >= 0 ==> r == 0;
#[verifier::external_body]
pub fn vx_as_bytes(s: &str) -> (r: &[u8]) ensures r@ == encode_utf8(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_len(s: &str) -> (r: usize) ensures r == encode_utf8(s@).len() { unimplemented!() }
/// Rust: no object is larger than isize::MAX bytes
pub axiom fn axiom_slice_len(s: &[u8])
    ensures s@.len() <= 0x7fff_ffff_ffff_ffff;
pub axiom fn axiom_str_len(s: &str)
    ensures encode_utf8(s@).len() <= 0x7fff_ffff_ffff_ffff;
