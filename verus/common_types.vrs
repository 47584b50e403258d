#[derive(Clone, Copy)]
//@item src/value/mod.rs enum ValueType
/// the derived PartialEq of a field-less enum
impl vstd::std_specs::cmp::PartialEqSpecImpl for ValueType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ValueType) -> bool { *self == *o }
}
impl PartialEq for ValueType {
    #[verifier::external_body]
    fn eq(&self, o: &ValueType) -> (r: bool) { unimplemented!() }
}
//@item src/value/mod.rs mod tag
//@item src/value/mod.rs mod special_tag
//@item src/value/mod.rs mod extra_flags
//@item src/value/mod.rs mod constants
#[verifier::external_body]
pub fn vx_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == be32(b@) { unimplemented!() }
