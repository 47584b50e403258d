#![allow(unused)]
#![allow(non_snake_case)]
use vstd::prelude::*;
use vstd::slice::*;
use vstd::float::*;
use vstd::utf8::*;
verus! {
global size_of usize == 8;
//@include-contracts spec_varint.vrs varint
//@include numbers.vrs
//@include decode_mem.vrs
//@include sk_spec.vrs
//@include sk_types.vrs
//@include-contracts sk_fns2.vrs shared_keys
//@include-contracts sk_fns.vrs shared_keys
pub mod value {
use super::*;
use crate::value;
use varint_stub as varint;
broadcast use group_trusted;
pub mod array {
//@item src/value/array.rs const VARINT_COUNT
}
pub mod pointer {
//@item src/value/pointer.rs const MAX_NARROW
//@item src/value/pointer.rs const MAX_WIDE
}
//@include common_types.vrs
//@include decode_types.vrs
//@include-contracts spec_doc.vrs decode
//@include-contracts decode_lemmas.vrs decode
//@include-contracts decode_fns.vrs decode
//@include-contracts decode_coll.vrs decode
//@include-contracts decode_dict.vrs decode
//@include-contracts spec_tree.vrs tree
//@globals-off
}
pub mod enc {
use super::*;
use core::cmp::Ordering;
use crate::value;
use crate::value::*;
//@include encode_types.vrs
//@include-contracts encode_lemmas.vrs encode
//@include-contracts encode_fns.vrs encode
//@globals-off
//@include encoder_types.vrs
//@include encoder_spec.vrs
//@include-contracts encoder_lemmas.vrs encoder
//@include-contracts stack_fns.vrs encoder
//@include-contracts encoder_fns.vrs encoder
}
pub mod state {
use super::*;
use crate::value::{Value, ValueType, Tree, Leaf, kind, valid, root, c_count, c_width, c_first, c_slot, slot_target, str_at, holds, doc_holds, leaf_at, lemma_all_ok, lemma_iter_first, data_val, ok_at, lemma_root, scalar_ok, lemma_holds_valid};
use crate::enc::*;
broadcast use group_trusted;
//@include state_fns.vrs
//@include state_thms.vrs
}
} // verus!
fn main() {}
