#![allow(unused)]
#![allow(non_snake_case)]
use vstd::prelude::*;
use vstd::slice::*;
use vstd::float::*;
use vstd::utf8::*;
verus! {
global size_of usize == 8;
//@include-contracts spec_varint.vrs varint
//@include numbers.vrs
//@include decode_mem.vrs
//@include sk_spec.vrs
//@include sk_opaque.vrs
//@include-contracts sk_fns.vrs shared_keys
pub mod value {
use super::*;
use crate::value;
use varint_stub as varint;
broadcast use {group_trusted, axiom_shared_keys};
//@include common_types.vrs
//@include decode_types.vrs
//@include spec_doc.vrs
//@include decode_lemmas.vrs
//@include decode_fns.vrs
//@include decode_coll.vrs
//@include decode_dict.vrs
//@include decode_misc.vrs
//@include decode_thms.vrs
}
} // verus!
fn main() {}
