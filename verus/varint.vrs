#![allow(unused)]
use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include spec_varint.vrs
pub mod varint {
use super::*;
//@include varint_fns.vrs
}
} // verus!
fn main() {}
