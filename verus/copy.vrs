#![allow(unused)]
#![allow(non_snake_case)]
use vstd::prelude::*;
use vstd::slice::*;
use vstd::float::*;
use vstd::utf8::*;
verus! {
global size_of usize == 8;
//@include-contracts spec_varint.vrs varint
//@include numbers.vrs
//@include decode_mem.vrs
//@include sk_spec.vrs
//@include sk_opaque.vrs
//@include-contracts sk_fns.vrs shared_keys
pub mod value {
use super::*;
use crate::value;
use varint_stub as varint;
broadcast use group_trusted;
pub mod array {
//@item src/value/array.rs const VARINT_COUNT
}
pub mod pointer {
//@item src/value/pointer.rs const MAX_NARROW
//@item src/value/pointer.rs const MAX_WIDE
}
//@include common_types.vrs
//@include decode_types.vrs
//@include-contracts spec_doc.vrs decode
//@include-contracts decode_lemmas.vrs decode
//@include-contracts decode_fns.vrs decode
//@include-contracts decode_coll.vrs decode
//@include-contracts decode_dict.vrs decode
//@include-contracts spec_tree.vrs tree
//@include-contracts doc_lemmas.vrs doc
//@globals-off
}
pub mod enc {
use super::*;
use core::cmp::Ordering;
use crate::value;
use crate::value::*;
//@include encode_types.vrs
//@include-contracts encode_lemmas.vrs encode
//@include-contracts encode_fns.vrs encode
//@globals-off
//@include encoder_types.vrs
//@include encoder_spec.vrs
//@include-contracts encoder_lemmas.vrs encoder
//@include-contracts stack_fns.vrs encoder
//@include-contracts encoder_fns.vrs encoder
pub mod copy {
use super::*;
use crate::value;
use crate::value::{Value, Array, Dict};
use crate::value::Pointer as ValuePointer;
broadcast use group_trusted;
//@include copy_spec.vrs
//@include copy_fns.vrs
}
}
} // verus!
fn main() {}
