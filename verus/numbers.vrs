// numbers
pub uninterp spec fn f32_of_bits(b: u32) -> f32;
pub uninterp spec fn f64_of_bits(b: u64) -> f64;
pub uninterp spec fn f32_as_f64(x: f32) -> f64;
pub uninterp spec fn f64_as_f32(x: f64) -> f32;
pub uninterp spec fn f64_as_i64(x: f64) -> i64;
pub uninterp spec fn f64_as_u64(x: f64) -> u64;
pub uninterp spec fn f64_as_i16(x: f64) -> i16;
pub uninterp spec fn f64_as_u16(x: f64) -> u16;
pub uninterp spec fn i64_as_f64(x: i64) -> f64;
pub uninterp spec fn u64_as_f64(x: u64) -> f64;
/// Rust's `as` between floats and integers is a function (round to nearest; truncate and clamp)
pub broadcast axiom fn axiom_cast_1(x: f64, r: i64) requires #[trigger] float_cast_spec(x, r) ensures r == f64_as_i64(x);
pub broadcast axiom fn axiom_cast_2(x: f64, r: u64) requires #[trigger] float_cast_spec(x, r) ensures r == f64_as_u64(x);
pub broadcast axiom fn axiom_cast_3(x: f64, r: i16) requires #[trigger] float_cast_spec(x, r) ensures r == f64_as_i16(x);
pub broadcast axiom fn axiom_cast_4(x: f64, r: u16) requires #[trigger] float_cast_spec(x, r) ensures r == f64_as_u16(x);
pub broadcast axiom fn axiom_cast_5(x: i64, r: f64) requires #[trigger] float_cast_spec(x, r) ensures r == i64_as_f64(x);
pub broadcast axiom fn axiom_cast_6(x: u64, r: f64) requires #[trigger] float_cast_spec(x, r) ensures r == u64_as_f64(x);
pub broadcast axiom fn axiom_cast_7(x: f64, r: f32) requires #[trigger] float_cast_spec(x, r) ensures r == f64_as_f32(x);
pub broadcast axiom fn axiom_cast_8(x: f32, r: f64) requires #[trigger] float_cast_spec(x, r) ensures r == f32_as_f64(x);
/// +0.0 and -0.0; both are the integer 0
pub uninterp spec fn f64_zero(x: f64) -> bool;
pub axiom fn axiom_zero(x: f64) requires f64_zero(x) ensures f64_as_i64(x) == 0;
