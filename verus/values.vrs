#![allow(unused)]
#![allow(non_snake_case)]
use vstd::prelude::*;
use vstd::slice::*;
use vstd::float::*;
use vstd::utf8::*;
verus! {
global size_of usize == 8;
//@include-contracts spec_varint.vrs varint
//@include numbers.vrs
//@include decode_mem.vrs
pub mod value {
use super::*;
use crate::value;
use varint_stub as varint;
broadcast use group_trusted;
pub mod array {
//@item src/value/array.rs const VARINT_COUNT
}
pub mod pointer {
//@item src/value/pointer.rs const MAX_NARROW
//@item src/value/pointer.rs const MAX_WIDE
}
//@include common_types.vrs
//@include decode_types.vrs
//@include-contracts spec_doc.vrs decode
//@include-contracts decode_lemmas.vrs decode
//@include-contracts decode_fns.vrs decode
//@globals-off
}
pub mod enc {
use super::*;
use crate::value;
use crate::value::{array, pointer, ValueType, kind, tag, extra_flags, constants, num_val, short_val, short_raw, int_val, int_bytes, le_val, pow256, be16, be32, required, scalar_ok, Leaf, leaf, leaf_at,
    f32_bits, f64_bits, data_val, data_range, umax, sat, c_count, c_first, c_field, c_wide, c_width, c_slot, ptr_off, ptr_external, is_float};
//@include encode_types.vrs
//@include-contracts encode_lemmas.vrs encode
//@include-contracts encode_fns.vrs encode
}
pub mod thms {
use super::*;
use crate::value::*;
use crate::enc::{Encodable, NullValue, UndefinedValue};
broadcast use group_trusted;
//@include values_thms.vrs
}
} // verus!
fn main() {}
