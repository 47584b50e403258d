#![allow(unused)]
#![allow(non_snake_case)]
use vstd::prelude::*;
use vstd::slice::*;
use vstd::float::*;
use vstd::utf8::*;
verus! {
global size_of usize == 8;
//@include sk_spec.vrs
pub mod keys {
use super::*;
//@include sk_types.vrs
//@include sk_fns2.vrs
//@include sk_fns.vrs
//@include sk_thms.vrs
}
} // verus!
fn main() {}
