#![allow(unused)]
#![allow(non_snake_case)]
use vstd::prelude::*;
use vstd::slice::*;
use vstd::float::*;
use vstd::utf8::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
//@include-contracts spec_varint.vrs varint
//@include numbers.vrs
//@include decode_mem.vrs
//@include sk_spec.vrs
//@include sk_opaque.vrs
//@include-contracts sk_fns.vrs shared_keys
pub mod value {
use super::*;
use crate::value;
use varint_stub as varint;
broadcast use group_trusted;
pub mod array {
//@item src/value/array.rs const VARINT_COUNT
}
pub mod pointer {
//@item src/value/pointer.rs const MAX_NARROW
//@item src/value/pointer.rs const MAX_WIDE
}
//@include common_types.vrs
//@include decode_types.vrs
//@include-contracts spec_doc.vrs decode
//@include-contracts decode_lemmas.vrs decode
//@include-contracts decode_fns.vrs decode
//@include-contracts decode_coll.vrs decode
//@include-contracts decode_dict.vrs decode
//@include-contracts spec_tree.vrs tree
//@include-contracts doc_lemmas.vrs doc
//@globals-off
}
pub mod enc {
use super::*;
use core::cmp::Ordering;
use crate::value;
use crate::value::*;
//@include encode_types.vrs
//@include-contracts encode_lemmas.vrs encode
//@include-contracts encode_fns.vrs encode
//@globals-off
}
pub mod mutable {
use super::*;
use crate::value;
use crate::value::*;
use crate::enc::*;
broadcast use group_trusted;
//@include mut_types.vrs
//@include copy_spec.vrs
//@include mut_fns.vrs
pub mod array {
use super::*;
//@include mut_array.vrs
}
pub mod dict {
use super::*;
//@include mut_dict.vrs
}
//@include mut_thms.vrs
}
} // verus!
fn main() {}
