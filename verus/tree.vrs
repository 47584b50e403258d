#![allow(unused)]
#![allow(non_snake_case)]
use vstd::prelude::*;
use vstd::slice::*;
use vstd::float::*;
use vstd::utf8::*;
verus! {
global size_of usize == 8;
//@include-contracts spec_varint.vrs varint
//@include numbers.vrs
pub mod value {
use super::*;
//@include common_types.vrs
//@include-contracts spec_doc.vrs decode
//@include-contracts spec_keys.vrs decode
//@include spec_dict.vrs
//@include spec_tree.vrs
}
}
fn main() {}
