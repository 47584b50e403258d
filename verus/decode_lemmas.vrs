pub proof fn lemma_bits()
    ensures forall|b: u8| #![trigger b & 0xF0] b & 0xF0 == (b / 16) * 16,
        forall|b: u8| #![trigger b & 0x0F] b & 0x0F == b % 16,
        forall|b: u8| #![trigger b & 0x07] b & 0x07 == b % 8,
        forall|b: u8| #![trigger b & 0x08] b & 0x08 == (if b % 16 >= 8 { 8u8 } else { 0u8 }),
        forall|b: u8| #![trigger b & 0x0C] b & 0x0C == ((b % 16) / 4) * 4,
        forall|b: u8| #![trigger b & 0x40] b & 0x40 == (if (b / 64) % 2 == 1 { 0x40u8 } else { 0u8 }),
        forall|b: u8| #![trigger b & 0x80] b & 0x80 == (if b >= 128 { 0x80u8 } else { 0u8 }),
        0x08u8 | 0x04u8 == 0x0Cu8,
{
    assert(forall|b: u8| #![trigger b & 0xF0] b & 0xF0 == (b / 16) * 16) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0x0F] b & 0x0F == b % 16) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0x07] b & 0x07 == b % 8) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0x08] b & 0x08 == (if b % 16 >= 8 { 8u8 } else { 0u8 })) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0x0C] b & 0x0C == ((b % 16) / 4) * 4) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0x40] b & 0x40 == (if (b / 64) % 2 == 1 { 0x40u8 } else { 0u8 })) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0x80] b & 0x80 == (if b >= 128 { 0x80u8 } else { 0u8 })) by (bit_vector);
    assert(0x08u8 | 0x04u8 == 0x0Cu8) by (bit_vector);
}
pub proof fn lemma_bits16()
    ensures forall|x: u16| #![trigger x & 0x07FF] x & 0x07FF == x % 2048,
        forall|x: u16| #![trigger x & 0x0800] (x & 0x0800 != 0) == (x % 4096 >= 2048),
        forall|x: u16| #![trigger x | 0xF000] x < 4096 ==> (x | 0xF000) == x + 0xF000,
        forall|x: u16| #![trigger x & !0xC000u16] x & !0xC000u16 == x % 0x4000,
        forall|x: u32| #![trigger x & !0xC000_0000u32] x & !0xC000_0000u32 == x % 0x4000_0000,
        forall|x: u16| #![trigger x as i16] x >= 0xF000 ==> (x as i16) as int == x - 0x1_0000,
        forall|x: u16| #![trigger x as i16] x < 0x8000 ==> (x as i16) as int == x,
{
    assert(forall|x: u16| #![trigger x & 0x07FF] x & 0x07FF == x % 2048) by (bit_vector);
    assert(forall|x: u16| #![trigger x & 0x0800] (x & 0x0800 != 0) == (x % 4096 >= 2048)) by (bit_vector);
    assert(forall|x: u16| #![trigger x | 0xF000] x < 4096 ==> (x | 0xF000) == x + 0xF000) by (bit_vector);
    assert(forall|x: u16| #![trigger x & !0xC000u16] x & !0xC000u16 == x % 0x4000) by (bit_vector);
    assert(forall|x: u32| #![trigger x & !0xC000_0000u32] x & !0xC000_0000u32 == x % 0x4000_0000) by (bit_vector);
    assert(forall|x: u16| #![trigger x as i16] x >= 0xF000 ==> (x as i16) == x - 0x1_0000) by (bit_vector);
    assert(forall|x: u16| #![trigger x as i16] x < 0x8000 ==> (x as i16) == x) by (bit_vector);
}
pub proof fn lemma_le_push(s: Seq<u8>, n: nat)
    requires n < s.len()
    ensures le_val(s.take(n as int + 1)) == le_val(s.take(n as int)) + s[n as int] * pow256(n)
    decreases n
{
    let t = s.take(n as int + 1);
    if n == 0 {
        assert(t.skip(1) =~= Seq::<u8>::empty());
        assert(s.take(0) =~= Seq::<u8>::empty());
        assert(le_val(t) == s[0] as nat + 256 * le_val(t.skip(1)));
        assert(s[0] * pow256(0) == s[0]) by (nonlinear_arith) requires pow256(0) == 1;
    } else {
        lemma_le_push(s.skip(1), (n - 1) as nat);
        assert(t.skip(1) =~= s.skip(1).take(n as int));
        assert(s.take(n as int).skip(1) =~= s.skip(1).take(n as int - 1));
        assert(s.skip(1)[n - 1] == s[n as int]);
        let b = s[n as int] as nat; let p = pow256((n - 1) as nat);
        assert(pow256(n) == 256 * p);
        assert(b * (256 * p) == 256 * (b * p)) by (nonlinear_arith);
    }
}
pub proof fn lemma_le_bound(s: Seq<u8>)
    ensures le_val(s) < pow256(s.len()), s.len() > 0 ==> pow256(s.len()) == 256 * pow256((s.len() - 1) as nat),
        s.len() > 0 ==> s[s.len() - 1] * pow256((s.len() - 1) as nat) <= le_val(s) < (s[s.len() - 1] + 1) * pow256((s.len() - 1) as nat),
    decreases s.len()
{
    if s.len() > 0 {
        let n = (s.len() - 1) as nat;
        lemma_le_bound(s.take(n as int));
        lemma_le_push(s, n);
        assert(s.take(n as int + 1) =~= s);
        let b = s[n as int] as nat; let p = pow256(n);
        assert((b + 1) * p == b * p + p) by (nonlinear_arith);
        assert((b + 1) * p <= 256 * p) by (nonlinear_arith) requires b < 256;
    }
}
pub proof fn lemma_pow256_values()
    ensures pow256(0) == 1, pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(3) == 0x100_0000, pow256(4) == 0x1_0000_0000,
        pow256(5) == 0x100_0000_0000, pow256(6) == 0x1_0000_0000_0000, pow256(7) == 0x100_0000_0000_0000,
        pow256(8) == 0x1_0000_0000_0000_0000,
{
    reveal_with_fuel(pow256, 9);
}
/// filling the unused high bytes with zeroes, or with ones
pub proof fn lemma_le_fill(s: Seq<u8>, fill: u8, n: nat)
    requires n <= 8, s.len() == 8, forall|i: int| n <= i < 8 ==> s[i] == fill, fill == 0 || fill == 255
    ensures le_val(s) == le_val(s.take(n as int)) + (if fill == 0 { 0int } else { pow256(8) - pow256(n) })
    decreases 8 - n
{
    if n == 8 {
        assert(s.take(8) =~= s);
    } else {
        lemma_le_fill(s, fill, n + 1);
        lemma_le_push(s, n);
        assert(pow256(n + 1) == 256 * pow256(n));
        if fill == 255 { assert(fill * pow256(n) == 255 * pow256(n)); } else { assert(fill * pow256(n) == 0); }
    }
}
/// reading `n` little-endian bytes, sign-extended or zero-extended to 8
pub proof fn lemma_int_read(s: Seq<u8>, buf: Seq<u8>, neg: bool)
    requires s.len() >= 1 + int_bytes(s), buf.len() == 8,
        neg == (kind(s[0]) == ValueType::Int && s[int_bytes(s) as int] >= 128),
        kind(s[0]) == ValueType::Int || kind(s[0]) == ValueType::UnsignedInt,
        forall|i: int| 0 <= i < int_bytes(s) ==> buf[i] == s[1 + i],
        forall|i: int| int_bytes(s) <= i < 8 ==> buf[i] == (if neg { 0xFFu8 } else { 0u8 }),
    ensures
        kind(s[0]) == ValueType::Int ==> (le_val(buf) < 0x8000_0000_0000_0000 ==> le_val(buf) == int_val(s))
            && (le_val(buf) >= 0x8000_0000_0000_0000 ==> le_val(buf) - 0x1_0000_0000_0000_0000 == int_val(s)),
        kind(s[0]) == ValueType::UnsignedInt ==> le_val(buf) == int_val(s),
        -0x8000_0000_0000_0000 <= int_val(s) < 0x1_0000_0000_0000_0000,
        kind(s[0]) == ValueType::Int ==> int_val(s) < 0x8000_0000_0000_0000,
        kind(s[0]) == ValueType::UnsignedInt ==> int_val(s) >= 0,
{
    let n = int_bytes(s);
    let d = s.subrange(1, 1 + n as int);
    lemma_pow256_values();
    lemma_le_fill(buf, if neg { 0xFFu8 } else { 0u8 }, n);
    assert(buf.take(n as int) =~= d);
    lemma_le_bound(d);
    let p = pow256((n - 1) as nat);
    let b = d[n - 1] as nat;
    assert(b == s[n as int]);
    if neg {
        assert(b * p >= 128 * p) by (nonlinear_arith) requires b >= 128;
    } else if kind(s[0]) == ValueType::Int {
        assert((b + 1) * p <= 128 * p) by (nonlinear_arith) requires b < 128;
        assert(128 * p <= 0x8000_0000_0000_0000);
    }
    assert(pow256(n) == 256 * p);
    assert(p >= 1 && p <= 0x100_0000_0000_0000);
}
pub open spec fn int_neg(s: Seq<u8>) -> bool { kind(s[0]) == ValueType::Int && s[int_bytes(s) as int] >= 128 }
/// the 8 bytes that hold a sign- or zero-extended copy of the value's own bytes
pub open spec fn int_buf(s: Seq<u8>, buf: Seq<u8>) -> bool {
    &&& buf.len() == 8
    &&& forall|i: int| 0 <= i < int_bytes(s) ==> buf[i] == s[1 + i]
    &&& forall|i: int| int_bytes(s) <= i < 8 ==> buf[i] == (if int_neg(s) { 0xFFu8 } else { 0u8 })
}
pub proof fn lemma_int_reads(s: Seq<u8>)
    requires scalar_ok(s)
    ensures
        kind(s[0]) == ValueType::Int ==> -0x8000_0000_0000_0000 <= int_val(s) < 0x8000_0000_0000_0000,
        kind(s[0]) == ValueType::UnsignedInt ==> 0 <= int_val(s) < 0x1_0000_0000_0000_0000,
        forall|buf: Seq<u8>| #![trigger le_val(buf)] int_buf(s, buf) ==> {
            &&& kind(s[0]) == ValueType::Int ==> le_val(buf) < 0x1_0000_0000_0000_0000 && (le_val(buf) < 0x8000_0000_0000_0000 ==> le_val(buf) == int_val(s))
                && (le_val(buf) >= 0x8000_0000_0000_0000 ==> le_val(buf) - 0x1_0000_0000_0000_0000 == int_val(s))
            &&& kind(s[0]) == ValueType::UnsignedInt ==> le_val(buf) == int_val(s)
        },
{
    if kind(s[0]) == ValueType::Int || kind(s[0]) == ValueType::UnsignedInt {
        let k = int_bytes(s) as int;
        let f = if int_neg(s) { 0xFFu8 } else { 0u8 };
        let b = s.subrange(1, 1 + k) + Seq::new((8 - k) as nat, |i: int| f);
        assert(int_buf(s, b));
        lemma_int_read(s, b, int_neg(s));
        assert forall|buf: Seq<u8>| #![trigger le_val(buf)] int_buf(s, buf) implies {
            &&& kind(s[0]) == ValueType::Int ==> le_val(buf) < 0x1_0000_0000_0000_0000 && (le_val(buf) < 0x8000_0000_0000_0000 ==> le_val(buf) == int_val(s))
                && (le_val(buf) >= 0x8000_0000_0000_0000 ==> le_val(buf) - 0x1_0000_0000_0000_0000 == int_val(s))
            &&& kind(s[0]) == ValueType::UnsignedInt ==> le_val(buf) == int_val(s)
        } by {
            lemma_int_read(s, buf, int_neg(s));
            lemma_le_bound(buf);
            lemma_pow256_values();
        }
    }
}
pub proof fn lemma_short(s: Seq<u8>)
    requires s.len() >= 2
    ensures short_raw(s) == (s[0] % 16) * 256 + s[1], c_field(s) == short_raw(s) % 2048, c_field(s) == (s[0] % 8) * 256 + s[1],
{
}
pub open spec fn f64_val(s: Seq<u8>) -> f64 {
    if kind(s[0]) == ValueType::Double64 { f64_of_bits(le_val(s.subrange(2, 10)) as u64) }
    else { f32_as_f64(f32_of_bits(le_val(s.subrange(2, 6)) as u32)) }
}
pub proof fn lemma_casts()
    ensures forall|x: i64| #![trigger x as i16] -0x8000 <= x < 0x8000 ==> (x as i16) as int == x,
        forall|x: u64| #![trigger x as u16] 0 <= x < 0x1_0000 ==> (x as u16) as int == x,
        forall|x: i64| #![trigger x as u64] x >= 0 ==> (x as u64) as int == x,
        forall|x: i64| #![trigger x as u64] x < 0 ==> (x as u64) as int == x + 0x1_0000_0000_0000_0000,
{
    assert(forall|x: i64| #![trigger x as i16] -0x8000 <= x < 0x8000 ==> (x as i16) == x) by (bit_vector);
    assert(forall|x: u64| #![trigger x as u16] 0 <= x < 0x1_0000 ==> (x as u16) == x) by (bit_vector);
    assert(forall|x: i64| #![trigger x as u64] x >= 0 ==> (x as u64) == x) by (bit_vector);
    assert(forall|x: i64| #![trigger x as u64] x < 0 ==> (x as u64) == x + 0x1_0000_0000_0000_0000) by (bit_vector);
}
pub proof fn lemma_empty_str()
    ensures encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty()
{
    reveal_with_fuel(encode_utf8, 2);
}

pub proof fn lemma_ptr_off(p: int, n: int, wide: bool)
    requires 0 <= p, n >= 2, p + n <= doc().len(), wide ==> n >= 4
    ensures ptr_off(doc().subrange(p, doc().len() as int), wide) == ptr_off(doc().subrange(p, p + n), wide),
{
    let a = doc().subrange(p, doc().len() as int); let b = doc().subrange(p, p + n);
    assert(a[0] == b[0] && a[1] == b[1]);
    if wide { assert(a[2] == b[2] && a[3] == b[3]); }
}

pub open spec fn slot_facts(s: Seq<u8>, p: int, n: int) -> bool {
    &&& forall|w: bool| #![trigger valid(doc(), p, n, w)] valid(doc(), p, n, w) == (c_first(s) + c_count(s) * c_width(s) <= n && valid_slots(doc(), p, n))
    &&& c_first(s) + c_count(s) * c_width(s) <= n ==> {
        &&& forall|i: int| 0 <= i < c_count(s) ==> c_first(s) <= #[trigger] c_slot(s, i) && c_slot(s, i) + c_width(s) <= n
        &&& forall|i: int| #[trigger] c_slot(s, i + 1) == c_slot(s, i) + c_width(s)
        &&& c_slot(s, 0) == c_first(s)
        &&& forall|i: int| 0 <= i < c_count(s) && !scalar_ok(doc().subrange(p + c_slot(s, i), p + c_slot(s, i) + c_width(s)))
            ==> !valid(doc(), p + #[trigger] c_slot(s, i), c_width(s), c_wide(s))
    }
}
pub proof fn lemma_validate(s: Seq<u8>, p: int, n: int)
    requires 0 <= p, n >= 2, p + n <= doc().len(), s == doc().subrange(p, p + n), kind(s[0]) == ValueType::Array || kind(s[0]) == ValueType::Dict,
    ensures slot_facts(s, p, n)
{
    lemma_valid(doc(), p, n);
    if c_first(s) + c_count(s) * c_width(s) <= n {
        lemma_slots(s, p, n);
        assert forall|i: int| 0 <= i < c_count(s) && !scalar_ok(doc().subrange(p + c_slot(s, i), p + c_slot(s, i) + c_width(s)))
            implies !valid(doc(), p + #[trigger] c_slot(s, i), c_width(s), c_wide(s)) by {
            lemma_valid(doc(), p + c_slot(s, i), c_width(s));
        }
    }
}
/// how else one may say it
pub proof fn lemma_bits_plain()
    ensures forall|x: u8| #![trigger x & 1] x & 1 == x % 2,
        forall|x: u8| #![trigger x | 0] x | 0 == x,
        forall|x: u8| #![trigger x ^ 0] x ^ 0 == x,
        forall|x: u16| #![trigger x & 1] x & 1 == x % 2,
        forall|x: u16| #![trigger x | 0] x | 0 == x,
        forall|x: u16| #![trigger x ^ 0] x ^ 0 == x,
        forall|x: u32| #![trigger x & 1] x & 1 == x % 2,
        forall|x: u32| #![trigger x | 0] x | 0 == x,
        forall|x: u32| #![trigger x ^ 0] x ^ 0 == x,
        forall|x: u64| #![trigger x & 1] x & 1 == x % 2,
        forall|x: u64| #![trigger x | 0] x | 0 == x,
        forall|x: u64| #![trigger x ^ 0] x ^ 0 == x,
        forall|x: usize| #![trigger x & 1] x & 1 == x % 2,
        forall|x: usize| #![trigger x | 0] x | 0 == x,
        forall|x: usize| #![trigger x ^ 0] x ^ 0 == x,
        forall|x: u8| #![trigger x & 0x3] x & 0x3 == x % 0x4,
        forall|x: u8| #![trigger x & 0x7] x & 0x7 == x % 0x8,
        forall|x: u8| #![trigger x & 0xf] x & 0xf == x % 0x10,
        forall|x: u8| #![trigger x & 0x1f] x & 0x1f == x % 0x20,
        forall|x: u8| #![trigger x & 0x3f] x & 0x3f == x % 0x40,
        forall|x: u8| #![trigger x & 0x7f] x & 0x7f == x % 0x80,
        forall|x: u16| #![trigger x & 0xff] x & 0xff == x % 0x100,
        forall|x: u16| #![trigger x & 0x7ff] x & 0x7ff == x % 0x800,
        forall|x: u16| #![trigger x & 0xfff] x & 0xfff == x % 0x1000,
        forall|x: u16| #![trigger x & 0x3fff] x & 0x3fff == x % 0x4000,
        forall|x: u16| #![trigger x & 0x7fff] x & 0x7fff == x % 0x8000,
        forall|x: u32| #![trigger x & 0xff] x & 0xff == x % 0x100,
        forall|x: u32| #![trigger x & 0xffff] x & 0xffff == x % 0x10000,
        forall|x: u32| #![trigger x & 0x3fffffff] x & 0x3fffffff == x % 0x40000000,
        forall|x: u32| #![trigger x & 0x7fffffff] x & 0x7fffffff == x % 0x80000000,
{
    assert(forall|x: u8| #![trigger x & 0x3] x & 0x3 == x % 0x4) by (bit_vector);
    assert(forall|x: u8| #![trigger x & 0x7] x & 0x7 == x % 0x8) by (bit_vector);
    assert(forall|x: u8| #![trigger x & 0xf] x & 0xf == x % 0x10) by (bit_vector);
    assert(forall|x: u8| #![trigger x & 0x1f] x & 0x1f == x % 0x20) by (bit_vector);
    assert(forall|x: u8| #![trigger x & 0x3f] x & 0x3f == x % 0x40) by (bit_vector);
    assert(forall|x: u8| #![trigger x & 0x7f] x & 0x7f == x % 0x80) by (bit_vector);
    assert(forall|x: u16| #![trigger x & 0xff] x & 0xff == x % 0x100) by (bit_vector);
    assert(forall|x: u16| #![trigger x & 0x7ff] x & 0x7ff == x % 0x800) by (bit_vector);
    assert(forall|x: u16| #![trigger x & 0xfff] x & 0xfff == x % 0x1000) by (bit_vector);
    assert(forall|x: u16| #![trigger x & 0x3fff] x & 0x3fff == x % 0x4000) by (bit_vector);
    assert(forall|x: u16| #![trigger x & 0x7fff] x & 0x7fff == x % 0x8000) by (bit_vector);
    assert(forall|x: u32| #![trigger x & 0xff] x & 0xff == x % 0x100) by (bit_vector);
    assert(forall|x: u32| #![trigger x & 0xffff] x & 0xffff == x % 0x10000) by (bit_vector);
    assert(forall|x: u32| #![trigger x & 0x3fffffff] x & 0x3fffffff == x % 0x40000000) by (bit_vector);
    assert(forall|x: u32| #![trigger x & 0x7fffffff] x & 0x7fffffff == x % 0x80000000) by (bit_vector);
    assert(forall|x: u8| #![trigger x & 1] x & 1 == x % 2) by (bit_vector);
    assert(forall|x: u8| #![trigger x | 0] x | 0 == x) by (bit_vector);
    assert(forall|x: u8| #![trigger x ^ 0] x ^ 0 == x) by (bit_vector);
    assert(forall|x: u16| #![trigger x & 1] x & 1 == x % 2) by (bit_vector);
    assert(forall|x: u16| #![trigger x | 0] x | 0 == x) by (bit_vector);
    assert(forall|x: u16| #![trigger x ^ 0] x ^ 0 == x) by (bit_vector);
    assert(forall|x: u32| #![trigger x & 1] x & 1 == x % 2) by (bit_vector);
    assert(forall|x: u32| #![trigger x | 0] x | 0 == x) by (bit_vector);
    assert(forall|x: u32| #![trigger x ^ 0] x ^ 0 == x) by (bit_vector);
    assert(forall|x: u64| #![trigger x & 1] x & 1 == x % 2) by (bit_vector);
    assert(forall|x: u64| #![trigger x | 0] x | 0 == x) by (bit_vector);
    assert(forall|x: u64| #![trigger x ^ 0] x ^ 0 == x) by (bit_vector);
    assert(forall|x: usize| #![trigger x & 1] x & 1 == x % 2) by (bit_vector);
    assert(forall|x: usize| #![trigger x | 0] x | 0 == x) by (bit_vector);
    assert(forall|x: usize| #![trigger x ^ 0] x ^ 0 == x) by (bit_vector);
}
