#![allow(unused)]
#![allow(non_snake_case)]
use vstd::prelude::*;
use vstd::slice::*;
use vstd::float::*;
use vstd::utf8::*;
verus! {
global size_of usize == 8;
//@include-contracts spec_varint.vrs varint
//@include numbers.vrs
//@include decode_mem.vrs
//@include sk_spec.vrs
//@include sk_opaque.vrs
//@include-contracts sk_fns.vrs shared_keys
pub mod value {
use super::*;
use crate::value;
use varint_stub as varint;
broadcast use {group_trusted, axiom_shared_keys};
//@include common_types.vrs
//@include decode_types.vrs
//@include-contracts spec_doc.vrs decode
//@include-contracts decode_lemmas.vrs decode
//@include-contracts decode_fns.vrs decode
//@include-contracts decode_coll.vrs decode
//@include-contracts decode_dict.vrs decode
//@globals-off
}
//@include scope_buf.vrs
pub mod scope {
use super::*;
use crate::value::*;
use std::sync::Arc;
use core::ops::Range;
broadcast use {group_trusted, axiom_shared_keys, axiom_buf};
//@include scope_types.vrs
//@include alloced_fns.vrs
//@include scope_fns.vrs
//@include scope_thms.vrs
}
} // verus!
fn main() {}
