#![allow(unused)]
#![allow(non_snake_case)]
use vstd::prelude::*;
use vstd::slice::*;
use vstd::float::*;
use vstd::utf8::*;
verus! {
global size_of usize == 8;
//@include-contracts spec_varint.vrs varint
//@include numbers.vrs
pub mod value {
use super::*;
pub mod varint {
use super::*;
//@include-contracts varint_fns.vrs varint
}
pub mod array {
//@item src/value/array.rs const VARINT_COUNT
}
pub mod pointer {
//@item src/value/pointer.rs const MAX_NARROW
//@item src/value/pointer.rs const MAX_WIDE
}
//@include common_types.vrs
//@include-contracts spec_doc.vrs decode
impl ValueType {
//@extract src/value/mod.rs impl ValueType :: fn from_byte
//@proved decode
//@ret r
//@contract
    ensures r == kind(byte),
//@end
}
}
pub mod enc {
use super::*;
use crate::value;
use crate::value::*;
//@include encode_types.vrs
//@include encode_lemmas.vrs
//@include encode_fns.vrs
}
} // verus!
fn main() {}
