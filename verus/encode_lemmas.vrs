pub open spec fn le_bytes(v: nat, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else { seq![(v % 256) as u8] + le_bytes(v / 256, (n - 1) as nat) }
}
/// bytes a signed (unsigned) number needs
pub open spec fn ulen(u: int) -> nat {
    if u < 0x100 { 1 } else if u < 0x1_0000 { 2 } else if u < 0x100_0000 { 3 } else if u < 0x1_0000_0000 { 4 }
    else if u < 0x100_0000_0000 { 5 } else if u < 0x1_0000_0000_0000 { 6 } else if u < 0x100_0000_0000_0000 { 7 } else { 8 }
}
pub open spec fn slen(v: int) -> nat { ulen(2 * (if v < 0 { -v - 1 } else { v })) }
pub proof fn lemma_le_bytes(v: nat, n: nat, k: nat)
    requires k <= n
    ensures le_bytes(v, n).len() == n, le_bytes(v, n).take(k as int) == le_bytes(v, k),
        le_val(le_bytes(v, k)) == v as int % pow256(k) as int, pow256(k) > 0,
    decreases n
{
    if k > 0 {
        lemma_le_bytes(v / 256, (n - 1) as nat, (k - 1) as nat);
        assert(le_bytes(v, n).take(k as int) =~= le_bytes(v, k));
        assert(le_bytes(v, k).skip(1) =~= le_bytes(v / 256, (k - 1) as nat));
        let p = pow256((k - 1) as nat) as int;
        vstd::arithmetic::div_mod::lemma_mod_breakdown(v as int, 256, p);
        assert(pow256(k) as int == 256 * p);
    } else {
        if n > 0 { lemma_le_bytes(v / 256, (n - 1) as nat, 0); }
        assert(le_bytes(v, n).take(0) =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_pow256_values()
    ensures pow256(0) == 1, pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(3) == 0x100_0000, pow256(4) == 0x1_0000_0000,
        pow256(5) == 0x100_0000_0000, pow256(6) == 0x1_0000_0000_0000, pow256(7) == 0x100_0000_0000_0000,
        pow256(8) == 0x1_0000_0000_0000_0000,
{
    reveal_with_fuel(pow256, 9);
}
pub proof fn lemma_leading_zeros(v: u64)
    requires v != 0
    ensures ({ let lz = vstd::std_specs::bits::u64_leading_zeros(v); 0 <= lz <= 63
        && v >> ((63 - lz) as u64) == 1 })
{
    vstd::std_specs::bits::axiom_u64_leading_zeros(v);
    let lz = vstd::std_specs::bits::u64_leading_zeros(v);
    let k = (63 - lz) as u64;
    assert(lz < 64);
    assert((v >> sub(63u64, lz as u64)) & 1u64 != 0u64);
    assert(v >> sub(64u64, lz as u64) == 0);
    assert(sub(63u64, lz as u64) == k);
    assert(sub(64u64, lz as u64) == k + 1);
    if lz > 0 {
        assert(v >> k == 1) by (bit_vector) requires (v >> k) & 1u64 != 0u64, v >> add(k, 1) == 0, k < 63u64;
    } else {
        assert(v >> k == 1) by (bit_vector) requires (v >> k) & 1u64 != 0u64, k == 63u64;
    }
}
/// the byte counts the code computes from the leading zeroes
pub proof fn lemma_sizes(v: u64)
    ensures ({ let lz = vstd::std_specs::bits::u64_leading_zeros(v) as int;
        0 <= lz <= 64 && (v < 0x8000_0000_0000_0000 ==> (64 - lz) / 8 + 1 == slen(v as int)) && (v > 0 ==> 8 - lz / 8 == ulen(v as int)) })
{
    if v == 0 { vstd::std_specs::bits::axiom_u64_leading_zeros(v); }
    else {
        lemma_leading_zeros(v);
        let k = (63 - vstd::std_specs::bits::u64_leading_zeros(v)) as u64;
        let n = k / 8;
        if n == 0 { assert(v < 0x100u64 && (k == 7 <==> v >= 0x80u64)) by (bit_vector) requires v >> k == 1, 0u64 <= k <= 7u64; }
        if n == 1 { assert(v >= 0x100u64 && v < 0x1_0000u64 && (k == 15 <==> v >= 0x8000u64)) by (bit_vector) requires v >> k == 1, 8u64 <= k <= 15u64; }
        if n == 2 { assert(v >= 0x1_0000u64 && v < 0x100_0000u64 && (k == 23 <==> v >= 0x80_0000u64)) by (bit_vector) requires v >> k == 1, 16u64 <= k <= 23u64; }
        if n == 3 { assert(v >= 0x100_0000u64 && v < 0x1_0000_0000u64 && (k == 31 <==> v >= 0x8000_0000u64)) by (bit_vector) requires v >> k == 1, 24u64 <= k <= 31u64; }
        if n == 4 { assert(v >= 0x1_0000_0000u64 && v < 0x100_0000_0000u64 && (k == 39 <==> v >= 0x80_0000_0000u64)) by (bit_vector) requires v >> k == 1, 32u64 <= k <= 39u64; }
        if n == 5 { assert(v >= 0x100_0000_0000u64 && v < 0x1_0000_0000_0000u64 && (k == 47 <==> v >= 0x8000_0000_0000u64)) by (bit_vector) requires v >> k == 1, 40u64 <= k <= 47u64; }
        if n == 6 { assert(v >= 0x1_0000_0000_0000u64 && v < 0x100_0000_0000_0000u64 && (k == 55 <==> v >= 0x80_0000_0000_0000u64)) by (bit_vector) requires v >> k == 1, 48u64 <= k <= 55u64; }
        if n == 7 { assert(v >= 0x100_0000_0000_0000u64 && (k == 63 <==> v >= 0x8000_0000_0000_0000u64)) by (bit_vector) requires v >> k == 1, 56u64 <= k <= 63u64; }
    }
}
/// s is an integer value whose own bytes are the low bytes of v
pub open spec fn int_of(s: Seq<u8>, b0: int, v: nat) -> bool {
    let n = int_bytes(s);
    s.len() == 1 + n && s[0] == b0 + n - 1 && (forall|i: int| 0 <= i < n ==> #[trigger] s[1 + i] == le_bytes(v, 8)[i])
}
pub proof fn lemma_int_val(s: Seq<u8>, v: nat)
    requires s.len() == 1 + int_bytes(s), int_bytes(s) <= 8, forall|i: int| 0 <= i < int_bytes(s) ==> #[trigger] s[1 + i] == le_bytes(v, 8)[i]
    ensures le_val(s.subrange(1, 1 + int_bytes(s) as int)) == v as int % pow256(int_bytes(s)) as int
{
    let n = int_bytes(s);
    lemma_le_bytes(v, 8, n);
    assert forall|j: int| 0 <= j < n implies s.subrange(1, 1 + n as int)[j] == le_bytes(v, 8).take(n as int)[j] by { assert(s[1 + j] == le_bytes(v, 8)[j]); }
    assert(s.subrange(1, 1 + n as int) =~= le_bytes(v, 8).take(n as int));
}
pub proof fn lemma_le_top(s: Seq<u8>)
    requires s.len() > 0
    ensures s[s.len() - 1] * pow256((s.len() - 1) as nat) <= le_val(s) < (s[s.len() - 1] + 1) * pow256((s.len() - 1) as nat)
    decreases s.len()
{
    if s.len() == 1 {
        assert(s.skip(1) =~= Seq::<u8>::empty());
        assert(s[0] * pow256(0) == s[0]) by (nonlinear_arith) requires pow256(0) == 1;
        assert((s[0] + 1) * pow256(0) == s[0] + 1) by (nonlinear_arith) requires pow256(0) == 1;
    } else {
        lemma_le_top(s.skip(1));
        let b = s[s.len() - 1] as int; let p = pow256((s.len() - 2) as nat) as int;
        assert(pow256((s.len() - 1) as nat) as int == 256 * p);
        assert(b * (256 * p) == 256 * (b * p)) by (nonlinear_arith);
        assert((b + 1) * (256 * p) == 256 * ((b + 1) * p)) by (nonlinear_arith);
        assert(s.skip(1)[s.skip(1).len() - 1] == s[s.len() - 1]);
    }
}
/// writing the low slen(v) bytes of a signed number, and reading them back
pub proof fn lemma_signed(v: i64)
    ensures forall|s: Seq<u8>| #![trigger num_val(s)] int_bytes(s) == slen(v as int) && int_of(s, 0x10, (if v < 0 { v + 0x1_0000_0000_0000_0000 } else { v as int }) as nat)
        ==> kind(s[0]) == ValueType::Int && num_val(s) == v && required(s) == s.len() && s.len() >= 2
{
    let w = (if v < 0 { v + 0x1_0000_0000_0000_0000 } else { v as int }) as nat;
    assert forall|s: Seq<u8>| #![trigger num_val(s)] int_bytes(s) == slen(v as int) && int_of(s, 0x10, w)
        implies kind(s[0]) == ValueType::Int && num_val(s) == v && required(s) == s.len() && s.len() >= 2 by {
        let n = int_bytes(s);
        lemma_pow256_values();
        lemma_int_val(s, w);
        let d = s.subrange(1, 1 + n as int);
        lemma_le_top(d);
        assert(d[n - 1] == s[n as int]);
        let p = pow256((n - 1) as nat) as int; let b = d[n - 1] as int;
        assert(pow256(n) as int == 256 * p);
        assert(p >= 1);
        let m = pow256(n) as int;
        // v in [-m/2, m/2)
        if v >= 0 {
            assert(v < 128 * p);
            vstd::arithmetic::div_mod::lemma_small_mod(v as nat, m as nat);
            assert(le_val(d) == v);
            assert(b < 128) by (nonlinear_arith) requires b * p <= v, v < 128 * p, p >= 1;
        } else {
            assert(-v - 1 < 128 * p);
            assert(w as int % m == v + m) by {
                lemma_pow_split(n);
                let q = pow256((8 - n) as nat) as int;
                assert(pow256(8) as int == q * m);
                assert(w as int == (q - 1) * m + (v + m)) by (nonlinear_arith) requires w as int == v + q * m;
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(w as int, m, q - 1, v + m);
            }
            assert(le_val(d) == v + m);
            assert(b >= 128) by (nonlinear_arith) requires v + m < (b + 1) * p, v + m >= 128 * p, p >= 1;
        }
    }
}
pub proof fn lemma_pow_split(n: nat)
    requires n <= 8
    ensures pow256(8) as int == pow256((8 - n) as nat) as int * pow256(n) as int
    decreases 8 - n
{
    if n < 8 {
        lemma_pow_split(n + 1);
        let a = pow256((8 - (n + 1)) as nat) as int; let b = pow256(n) as int; let c = pow256(n + 1) as int; let d = pow256((8 - n) as nat) as int;
        assert(d == 256 * a);
        assert(c == 256 * b);
        assert(d * b == a * c) by (nonlinear_arith) requires d == 256 * a, c == 256 * b;
        assert(pow256(8) as int == a * c);
    } else { let c = pow256(8) as int; let d = pow256(0) as int; assert(d == 1); assert(d * c == c) by (nonlinear_arith) requires d == 1; }
}
pub proof fn lemma_unsigned(v: u64)
    ensures forall|s: Seq<u8>| #![trigger num_val(s)] int_bytes(s) == ulen(v as int) && int_of(s, 0x18, v as nat)
        ==> kind(s[0]) == ValueType::UnsignedInt && num_val(s) == v && required(s) == s.len() && s.len() >= 2
{
    assert forall|s: Seq<u8>| #![trigger num_val(s)] int_bytes(s) == ulen(v as int) && int_of(s, 0x18, v as nat)
        implies kind(s[0]) == ValueType::UnsignedInt && num_val(s) == v && required(s) == s.len() && s.len() >= 2 by {
        lemma_pow256_values();
        lemma_int_val(s, v as nat);
        vstd::arithmetic::div_mod::lemma_small_mod(v as nat, pow256(int_bytes(s)));
    }
}
pub proof fn lemma_ebits()
    ensures forall|k: u8| #![trigger 0x10u8 | k] k < 8 ==> 0x10u8 | k == 0x10 + k,
        0x10u8 | 0x08u8 == 0x18u8, forall|k: u8| #![trigger 0x18u8 | k] k < 8 ==> 0x18u8 | k == 0x18 + k,
        0x20u8 | 0x08u8 == 0x28u8,
        forall|k: u8| #![trigger 0x40u8 | k] k < 16 ==> 0x40u8 | k == 0x40 + k,
        forall|k: u8| #![trigger 0x50u8 | k] k < 16 ==> 0x50u8 | k == 0x50 + k,
        forall|k: u8| #![trigger k | 0u8] k | 0u8 == k,
        forall|k: u8| #![trigger k & 0x0F] k & 0x0F == k % 16,
        forall|k: u8| #![trigger k | 0x80u8] k < 128 ==> k | 0x80u8 == k + 128,
        forall|k: u8| #![trigger k ^ 0x80u8] k >= 128 ==> k ^ 0x80u8 == k - 128,
        0x30u8 | 0x08u8 == 0x38u8, 0x30u8 | 0x04u8 == 0x34u8, 0x30u8 | 0x0Cu8 == 0x3Cu8, 0x30u8 | 0u8 == 0x30u8,
        forall|x: u16| #![trigger x & 0xFF] x & 0xFF == x % 256,
        forall|x: u16| #![trigger x >> 8u16] x >> 8u16 == x / 256, forall|x: u16| #![trigger x >> 1u16] x >> 1u16 == x / 2,
        forall|x: u32| #![trigger x >> 1u32] x >> 1u32 == x / 2,
        forall|k: u8| #![trigger 0x60u8 | k] k < 16 ==> 0x60u8 | k == 0x60 + k,
        forall|k: u8| #![trigger 0x70u8 | k] k < 16 ==> 0x70u8 | k == 0x70 + k,
        0x08u8 | 0x60u8 == 0x68u8, 0x08u8 | 0x70u8 == 0x78u8,
        forall|k: u8| #![trigger 0x68u8 | k] k < 8 ==> 0x68u8 | k == 0x68 + k,
        forall|k: u8| #![trigger 0x78u8 | k] k < 8 ==> 0x78u8 | k == 0x78 + k,
        forall|x: i16| #![trigger x as u16] x < 0 ==> (x as u16) as int == x + 0x1_0000,
        forall|x: i16| #![trigger x as u16] x >= 0 ==> (x as u16) as int == x,
        forall|x: i64| #![trigger x as i16] -0x8000 <= x < 0x8000 ==> (x as i16) as int == x,
        forall|x: u64| #![trigger x as u16] x < 0x1_0000 ==> (x as u16) as int == x,
{
    assert(forall|k: u8| #![trigger 0x10u8 | k] k < 8 ==> 0x10u8 | k == 0x10 + k) by (bit_vector);
    assert(0x10u8 | 0x08u8 == 0x18u8) by (bit_vector);
    assert(forall|k: u8| #![trigger 0x18u8 | k] k < 8 ==> 0x18u8 | k == 0x18 + k) by (bit_vector);
    assert(0x20u8 | 0x08u8 == 0x28u8) by (bit_vector);
    assert(forall|k: u8| #![trigger 0x40u8 | k] k < 16 ==> 0x40u8 | k == 0x40 + k) by (bit_vector);
    assert(forall|k: u8| #![trigger 0x50u8 | k] k < 16 ==> 0x50u8 | k == 0x50 + k) by (bit_vector);
    assert(forall|k: u8| #![trigger k | 0u8] k | 0u8 == k) by (bit_vector);
    assert(forall|k: u8| #![trigger k & 0x0F] k & 0x0F == k % 16) by (bit_vector);
    assert(forall|k: u8| #![trigger k | 0x80u8] k < 128 ==> k | 0x80u8 == k + 128) by (bit_vector);
    assert(forall|k: u8| #![trigger k ^ 0x80u8] k >= 128 ==> k ^ 0x80u8 == k - 128) by (bit_vector);
    assert(0x30u8 | 0x08u8 == 0x38u8 && 0x30u8 | 0x04u8 == 0x34u8 && 0x30u8 | 0x0Cu8 == 0x3Cu8 && 0x30u8 | 0u8 == 0x30u8) by (bit_vector);
    assert(forall|x: u16| #![trigger x & 0xFF] x & 0xFF == x % 256) by (bit_vector);
    assert(forall|x: u16| #![trigger x >> 8u16] x >> 8u16 == x / 256) by (bit_vector);
    assert(forall|x: u16| #![trigger x >> 1u16] x >> 1u16 == x / 2) by (bit_vector);
    assert(forall|x: u32| #![trigger x >> 1u32] x >> 1u32 == x / 2) by (bit_vector);
    assert(forall|k: u8| #![trigger 0x60u8 | k] k < 16 ==> 0x60u8 | k == 0x60 + k) by (bit_vector);
    assert(forall|k: u8| #![trigger 0x70u8 | k] k < 16 ==> 0x70u8 | k == 0x70 + k) by (bit_vector);
    assert(0x08u8 | 0x60u8 == 0x68u8 && 0x08u8 | 0x70u8 == 0x78u8) by (bit_vector);
    assert(forall|k: u8| #![trigger 0x68u8 | k] k < 8 ==> 0x68u8 | k == 0x68 + k) by (bit_vector);
    assert(forall|k: u8| #![trigger 0x78u8 | k] k < 8 ==> 0x78u8 | k == 0x78 + k) by (bit_vector);
    assert(forall|x: i16| #![trigger x as u16] x < 0 ==> (x as u16) == x + 0x1_0000) by (bit_vector);
    assert(forall|x: i16| #![trigger x as u16] x >= 0 ==> (x as u16) == x) by (bit_vector);
    assert(forall|x: i64| #![trigger x as i16] -0x8000 <= x < 0x8000 ==> (x as i16) == x) by (bit_vector);
    assert(forall|x: u64| #![trigger x as u16] x < 0x1_0000 ==> (x as u16) == x) by (bit_vector);
}
/// a small number is its first two bytes
pub proof fn lemma_short_prefix()
    ensures forall|s: Seq<u8>, t: Seq<u8>| #![trigger num_val(s), num_val(t)] t.len() >= 2 && s.len() >= 2 && required(t) <= 2 && s[0] == t[0] && s[1] == t[1]
        && (kind(t[0]) == ValueType::Short || kind(t[0]) == ValueType::Int || kind(t[0]) == ValueType::UnsignedInt)
        ==> num_val(s) == num_val(t) && required(s) == required(t)
{
    assert forall|s: Seq<u8>, t: Seq<u8>| #![trigger num_val(s), num_val(t)] t.len() >= 2 && s.len() >= 2 && required(t) <= 2 && s[0] == t[0] && s[1] == t[1]
        && (kind(t[0]) == ValueType::Short || kind(t[0]) == ValueType::Int || kind(t[0]) == ValueType::UnsignedInt)
        implies num_val(s) == num_val(t) && required(s) == required(t) by {
        if kind(t[0]) != ValueType::Short { assert(s.subrange(1, 2) =~= t.subrange(1, 2)); }
    }
}
pub proof fn lemma_ptr_bits()
    ensures forall|k: u8| #![trigger k | 0x80u8] k < 128 ==> k | 0x80u8 == k + 128,
        forall|x: u16| #![trigger x >> 1u16] x >> 1u16 == x / 2, forall|x: u32| #![trigger x >> 1u32] x >> 1u32 == x / 2,

{
    assert(forall|k: u8| #![trigger k | 0x80u8] k < 128 ==> k | 0x80u8 == k + 128) by (bit_vector);
    assert(forall|x: u16| #![trigger x >> 1u16] x >> 1u16 == x / 2) by (bit_vector);
    assert(forall|x: u32| #![trigger x >> 1u32] x >> 1u32 == x / 2) by (bit_vector);
}
/// what a written pointer reads as
pub proof fn lemma_ptr_reads(s: Seq<u8>, off: int, wide: bool)
    requires ptr_bytes(s, off), 0 <= off <= pointer::MAX_WIDE, wide == (s.len() == 4)
    ensures kind(s[0]) == ValueType::Pointer, !ptr_external(s), ptr_off(s, wide) == off / 2 * 2, s.len() >= 2
{
    reveal(ptr_bytes);
}
#[verifier::opaque]
pub open spec fn ptr_bytes(s: Seq<u8>, off: int) -> bool {
    (s.len() == 4 && be32(s) == 0x8000_0000 + off / 2) || (s.len() == 2 && off <= pointer::MAX_NARROW && be16(s) == 0x8000 + off / 2)
}
pub proof fn lemma_floats()
    ensures
        forall|s: Seq<u8>, a: Seq<u8>| #![trigger f32_bits(s.take(6)), le_val(a)] s.len() >= 6 && a.len() == 4 && (forall|i: int| 0 <= i < 4 ==> s[2 + i] == #[trigger] a[i]) ==> f32_bits(s.take(6)) == f32_of_bits(le_val(a) as u32),
        forall|s: Seq<u8>, a: Seq<u8>| #![trigger f64_bits(s.take(10)), le_val(a)] s.len() >= 10 && a.len() == 8 && (forall|i: int| 0 <= i < 8 ==> s[2 + i] == #[trigger] a[i]) ==> f64_bits(s.take(10)) == f64_of_bits(le_val(a) as u64),
{
    assert forall|s: Seq<u8>, a: Seq<u8>| #![trigger f32_bits(s.take(6)), le_val(a)] s.len() >= 6 && a.len() == 4 && (forall|i: int| 0 <= i < 4 ==> s[2 + i] == #[trigger] a[i]) implies f32_bits(s.take(6)) == f32_of_bits(le_val(a) as u32) by {
        assert(s.take(6).subrange(2, 6) =~= a);
    }
    assert forall|s: Seq<u8>, a: Seq<u8>| #![trigger f64_bits(s.take(10)), le_val(a)] s.len() >= 10 && a.len() == 8 && (forall|i: int| 0 <= i < 8 ==> s[2 + i] == #[trigger] a[i]) implies f64_bits(s.take(10)) == f64_of_bits(le_val(a) as u64) by {
        assert(s.take(10).subrange(2, 10) =~= a);
    }
}
