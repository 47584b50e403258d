#![allow(unused)]
#![allow(non_snake_case)]
use vstd::prelude::*;
use vstd::slice::*;
use vstd::float::*;
use vstd::utf8::*;
verus! {
global size_of usize == 8;
//@include-contracts spec_varint.vrs varint
//@include numbers.vrs
//@include sk_spec.vrs
//@include sk_opaque.vrs
//@include-contracts sk_fns.vrs shared_keys
//@include-contracts sk_fns2.vrs shared_keys
pub mod value {
use super::*;
pub mod pointer {
//@item src/value/pointer.rs const MAX_NARROW
//@item src/value/pointer.rs const MAX_WIDE
}
//@include common_types.vrs
//@item src/value/error.rs enum DecodeError
//@include-contracts spec_doc.vrs decode
//@include-contracts spec_keys.vrs decode
//@include spec_dict.vrs
//@include-contracts spec_tree.vrs tree
}
pub mod enc {
use super::*;
use core::cmp::Ordering;
use crate::value;
use crate::value::*;
//@include encode_types.vrs
//@include-contracts encode_lemmas.vrs encode
//@include-contracts encode_fns.vrs encode
//@globals-off
//@include encoder_types.vrs
//@include encoder_spec.vrs
//@include-contracts encoder_lemmas.vrs encoder
//@include-contracts stack_fns.vrs encoder
//@include-contracts encoder_fns.vrs encoder
}
pub mod ser {
use super::*;
use crate::value::{ValueType, DecodeError, Tree, Leaf, holds, doc_holds, prefix};
use crate::enc::*;
//@include ser_spec.vrs
//@include ser_fns.vrs
//@include ser_thms.vrs
}
} // verus!
fn main() {}
