//! The contracts which the Verus templates assume of fixed-width functions of the standard library, checked by Kani against
//! the standard library itself, for all arguments: `cargo kani` here (not part of any check: nothing of it depends on /repo).
#![cfg(kani)]
fn le(b: &[u8]) -> u128 { let mut v = 0u128; let mut i = b.len(); while i > 0 { i -= 1; v = v * 256 + b[i] as u128; } v }
fn be(b: &[u8]) -> u128 { let mut v = 0u128; for x in b { v = v * 256 + *x as u128; } v }

// encode_types.vrs: vx_le, vx_be
#[kani::proof] #[kani::unwind(12)] fn to_bytes_u64() { let x: u64 = kani::any(); assert!(le(&x.to_le_bytes()) == x as u128); }
#[kani::proof] #[kani::unwind(12)] fn to_bytes_i64() { let x: i64 = kani::any(); assert!(le(&x.to_le_bytes()) == x as u64 as u128); }
#[kani::proof] #[kani::unwind(12)] fn to_bytes_u32() { let x: u32 = kani::any(); assert!(le(&x.to_le_bytes()) == x as u128 && be(&x.to_be_bytes()) == x as u128); }
#[kani::proof] #[kani::unwind(12)] fn to_bytes_u16() { let x: u16 = kani::any(); assert!(le(&x.to_le_bytes()) == x as u128 && be(&x.to_be_bytes()) == x as u128); }
#[kani::proof] #[kani::unwind(12)] fn to_bytes_i16() { let x: i16 = kani::any(); assert!(be(&x.to_be_bytes()) == x as u16 as u128); }
#[kani::proof] #[kani::unwind(12)] fn to_bytes_f32() { let b: u32 = kani::any(); let x = f32::from_bits(b); kani::assume(!x.is_nan()); assert!(le(&x.to_le_bytes()) == b as u128); }
#[kani::proof] #[kani::unwind(12)] fn to_bytes_f64() { let b: u64 = kani::any(); let x = f64::from_bits(b); kani::assume(!x.is_nan()); assert!(le(&x.to_le_bytes()) == b as u128); }
// decode_types.vrs, common_types.vrs: vx_*_from_*_bytes
#[kani::proof] #[kani::unwind(12)] fn from_bytes_u64() { let b: [u8; 8] = kani::any(); assert!(u64::from_le_bytes(b) as u128 == le(&b)); }
#[kani::proof] #[kani::unwind(12)] fn from_bytes_i64() {
    let b: [u8; 8] = kani::any(); let v = le(&b) as i128;
    assert!(i64::from_le_bytes(b) as i128 == if v < 0x8000_0000_0000_0000 { v } else { v - 0x1_0000_0000_0000_0000 });
}
#[kani::proof] #[kani::unwind(12)] fn from_bytes_u32() { let b: [u8; 4] = kani::any(); assert!(u32::from_be_bytes(b) as u128 == be(&b)); }
#[kani::proof] #[kani::unwind(12)] fn from_bytes_u16() { let b: [u8; 2] = kani::any(); assert!(u16::from_be_bytes(b) as u128 == be(&b)); }
#[kani::proof] #[kani::unwind(12)] fn from_bytes_f32() { let b: [u8; 4] = kani::any(); let x = f32::from_le_bytes(b); kani::assume(!x.is_nan()); assert!(x.to_bits() as u128 == le(&b)); }
#[kani::proof] #[kani::unwind(12)] fn from_bytes_f64() { let b: [u8; 8] = kani::any(); let x = f64::from_le_bytes(b); kani::assume(!x.is_nan()); assert!(x.to_bits() as u128 == le(&b)); }
#[kani::proof] fn widen_float() { let x: f32 = kani::any(); kani::assume(!x.is_nan()); assert!(f64::from(x).to_bits() == (x as f64).to_bits()); }
// encode_types.vrs: leading_zeros, leading_ones of i64, over vstd's u64::leading_zeros
#[kani::proof] fn leading() {
    let x: i64 = kani::any();
    assert!(x.leading_zeros() == if x >= 0 { (x as u64).leading_zeros() } else { 0 });
    assert!(x.leading_ones() == if x < 0 { ((-(x as i128) - 1) as u64).leading_zeros() } else { 0 });
}
#[kani::proof] fn leading_u64() {
    let v: u64 = kani::any(); let n = v.leading_zeros();
    assert!(n <= 64 && (v == 0) == (n == 64));
    if v != 0 { assert!(v >> (63 - n) == 1); }
}
// numbers.vrs: axiom_zero
#[kani::proof] fn zero() { assert!(0.0f64 as i64 == 0 && -0.0f64 as i64 == 0); }
// sk_types.vrs: axiom_alnum
#[kani::proof] fn alnum() { assert!(!'\0'.is_alphanumeric() && !'\0'.is_ascii_alphanumeric()); }
// decode_mem.vrs, encoder_types.vrs: slices compare byte-wise (bounded: up to 4 bytes on either side)
fn lex(a: &[u8], b: &[u8]) -> core::cmp::Ordering {
    let mut i = 0;
    loop {
        if i == a.len() { return if i == b.len() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Less }; }
        if i == b.len() { return core::cmp::Ordering::Greater; }
        if a[i] < b[i] { return core::cmp::Ordering::Less; }
        if a[i] > b[i] { return core::cmp::Ordering::Greater; }
        i += 1;
    }
}
#[kani::proof] #[kani::unwind(8)] fn slices_compare() {
    let (a, b): ([u8; 4], [u8; 4]) = (kani::any(), kani::any());
    let (m, n): (usize, usize) = (kani::any(), kani::any());
    kani::assume(m <= 4 && n <= 4);
    assert!(a[..m].cmp(&b[..n]) == lex(&a[..m], &b[..n]));
}
#[kani::proof] #[kani::unwind(8)] fn strings_compare() {
    let (a, b): ([u8; 3], [u8; 3]) = (kani::any(), kani::any());
    let (m, n): (usize, usize) = (kani::any(), kani::any());
    kani::assume(m <= 3 && n <= 3);
    for x in a { kani::assume(x < 128); } for x in b { kani::assume(x < 128); }
    let (s, t) = unsafe { (core::str::from_utf8_unchecked(&a[..m]), core::str::from_utf8_unchecked(&b[..n])) };
    assert!(s.cmp(t) == lex(&a[..m], &b[..n]));
}
