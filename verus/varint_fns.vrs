//@item src/value/varint.rs const MAX_LEN

/// adding one more 7-bit group with `|` and `<<`
pub proof fn lemma_group(res: u64, x: u64, n: nat)
    requires 1 <= n <= 9, res < pow128(n), x < 128, n == 9 ==> x < 2
    ensures (res | (x << ((7 * n) as u64))) == res + x * pow128(n),
{
    lemma_pow128_values();
    if n == 1 { assert((res | (x << 7u64)) == res + x * 0x80u64 && (x << 7u64) == x * 0x80u64) by (bit_vector) requires res < 0x80u64, x < 128u64; }
    if n == 2 { assert((res | (x << 14u64)) == res + x * 0x4000u64 && (x << 14u64) == x * 0x4000u64) by (bit_vector) requires res < 0x4000u64, x < 128u64; }
    if n == 3 { assert((res | (x << 21u64)) == res + x * 0x200000u64 && (x << 21u64) == x * 0x200000u64) by (bit_vector) requires res < 0x200000u64, x < 128u64; }
    if n == 4 { assert((res | (x << 28u64)) == res + x * 0x10000000u64 && (x << 28u64) == x * 0x10000000u64) by (bit_vector) requires res < 0x10000000u64, x < 128u64; }
    if n == 5 { assert((res | (x << 35u64)) == res + x * 0x800000000u64 && (x << 35u64) == x * 0x800000000u64) by (bit_vector) requires res < 0x800000000u64, x < 128u64; }
    if n == 6 { assert((res | (x << 42u64)) == res + x * 0x40000000000u64 && (x << 42u64) == x * 0x40000000000u64) by (bit_vector) requires res < 0x40000000000u64, x < 128u64; }
    if n == 7 { assert((res | (x << 49u64)) == res + x * 0x2000000000000u64 && (x << 49u64) == x * 0x2000000000000u64) by (bit_vector) requires res < 0x2000000000000u64, x < 128u64; }
    if n == 8 { assert((res | (x << 56u64)) == res + x * 0x100000000000000u64 && (x << 56u64) == x * 0x100000000000000u64) by (bit_vector) requires res < 0x100000000000000u64, x < 128u64; }
    if n == 9 { assert((res | (x << 63u64)) == res + x * 0x8000000000000000u64 && (x << 63u64) == x * 0x8000000000000000u64) by (bit_vector) requires res < 0x8000000000000000u64, x < 2u64; }
}
pub proof fn lemma_low7(b: u8)
    ensures (b & 0x7F) == b % 128, b < 128 ==> (b & 0x7F) == b,
{
    assert((b & 0x7F) == b % 128) by (bit_vector);
}

//@extract src/value/varint.rs fn read
//@ret r
//@contract
    ensures (r.0 as nat, r.1 as nat) == read_varint(data@), r.0 <= data@.len(), r.0 <= 10,
//@at start
    proof {
        lemma_read_within(data@);
        lemma_pow128_values();
        assert forall|b: u8| (#[trigger] (b & 0x7F)) == b % 128 by { lemma_low7(b); }
        if data@.len() > 0 { lemma_low7(data@[0]); }
        reveal_with_fuel(acc_varint, 2);
        if data@.len() > 0 { lemma_acc_one(data@); }
        assert(pow128(0) == 1 && pow128(1) == 128);
    }
//@loop 1
    invariant
        data@.len() >= 1, data@[0] >= 128,
        end == (if data@.len() < 10 { data@.len() } else { 10nat }),
        vx_seq_byte@ == data@.subrange(1, end as int),
        shift == 7 * (i + 1),
        i < 9 ==> res as nat == acc_varint(data@, (i + 1) as nat),
        forall|j: int| 0 <= j <= i ==> #[trigger] data@[j] >= 128,
        i < 9 ==> acc_varint(data@, (i + 1) as nat) < pow128((i + 1) as nat),
        forall|b: u8| (#[trigger] (b & 0x7F)) == b % 128,
//@at loopstart 1
    proof {
        lemma_pow128_values();
        let n = (i + 1) as nat;
        lemma_acc_bound(data@, n);
        assert(data@[i + 1] == vx_seq_byte@[i as int]);
        let b = data@[i + 1];
        let x = (b % 128) as u64;
        if n < 9 || x < 2 { lemma_group(res, x, n); }
        if n == 9 && x >= 2 { assert((x as nat) * pow128(9) >= 2 * pow128(9)) by (nonlinear_arith) requires x >= 2; }
        reveal_with_fuel(acc_varint, 1);
        assert(acc_varint(data@, (n + 1) as nat) == acc_varint(data@, n) + (b as nat % 128) * pow128(n));
        lemma_acc_bound(data@, (n + 1) as nat);
        assert((7 * n) as u64 as int == shift as int);
        if b < 128 {
            lemma_dec_at(data@, (n + 1) as nat);
        } else if n + 1 == end { lemma_dec_long(data@, (n + 1) as nat); }
    }
//@at afterloop 1
    proof { lemma_dec_long(data@, end as nat); }
//@end

pub proof fn lemma_low_byte(v: u64)
    ensures ((v & 0xFF) as u8 | 0x80) == (v % 128 + 128) as u8, (v >> 7u64) == v / 128, (v >> 7) == v / 128,
{
    assert(((v & 0xFF) as u8 | 0x80) == (v % 128 + 128) as u8) by (bit_vector);
    assert((v >> 7u64) == v / 128) by (bit_vector);
    assert((v >> 7) == v / 128) by (bit_vector);
}

//@extract src/value/varint.rs fn write
//@ret r
//@contract
    requires old(out)@.len() >= enc_varint(value as nat).len(),
    ensures r == enc_varint(value as nat).len(),
        1 <= r <= 10,
        final(out)@ == enc_varint(value as nat) + old(out)@.skip(r as int),
//@at start
    let ghost value0 = value;
    proof { lemma_enc_len_u64(value0); }
//@loop 1
    invariant
        bytes_written + enc_varint(value as nat).len() == enc_varint(value0 as nat).len(),
        enc_varint(value0 as nat) == out@.subrange(0, bytes_written as int) + enc_varint(value as nat),
        out@.len() == old(out)@.len(), out@.len() >= enc_varint(value0 as nat).len(),
        out@.skip(bytes_written as int) == old(out)@.skip(bytes_written as int),
        enc_varint(value0 as nat).len() <= 10,
    decreases value
//@at loopstart 1
    let ghost before = out@;
    proof { lemma_low_byte(value); lemma_enc_len_u64((value / 128) as u64); }
//@at loopend 1
    proof {
        assert(out@.subrange(0, bytes_written as int) =~= before.subrange(0, bytes_written - 1).push(before_byte(before, out@, bytes_written - 1)));
        assert(enc_varint(value0 as nat) =~= out@.subrange(0, bytes_written as int) + enc_varint(value as nat));
        assert(out@.skip(bytes_written as int) =~= before.skip(bytes_written - 1).skip(1));
        assert(old(out)@.skip(bytes_written as int) =~= old(out)@.skip(bytes_written - 1).skip(1));
    }
//@at afterloop 1
    proof {
        assert(enc_varint(value as nat) == seq![value as u8]);
        let b2 = out@.update(bytes_written as int, value as u8);
        assert(b2 =~= enc_varint(value0 as nat) + old(out)@.skip(bytes_written + 1)) by {
            assert(old(out)@.skip(bytes_written + 1) =~= out@.skip(bytes_written as int).skip(1));
        }
    }
//@end
pub open spec fn before_byte(a: Seq<u8>, b: Seq<u8>, i: int) -> u8 { b[i] }

pub proof fn lemma_size_class(v: u64, n: nat)
    requires 1 <= n <= 10, n < 10 ==> v < pow128(n), n > 1 ==> v >= pow128((n - 1) as nat)
    ensures enc_varint(v as nat).len() == n
{
    lemma_pow128_values();
    lemma_enc_len(v as nat, n);
}
pub proof fn lemma_leading_zeros(v: u64)
    requires v != 0
    ensures ({ let lz = vstd::std_specs::bits::u64_leading_zeros(v); 0 <= lz <= 63
        && v >> ((63 - lz) as u64) == 1 })
{
    vstd::std_specs::bits::axiom_u64_leading_zeros(v);
    let lz = vstd::std_specs::bits::u64_leading_zeros(v);
    let k = (63 - lz) as u64;
    assert(lz < 64);
    assert((v >> sub(63u64, lz as u64)) & 1u64 != 0u64);
    assert(v >> sub(64u64, lz as u64) == 0);
    assert(sub(63u64, lz as u64) == k);
    assert(sub(64u64, lz as u64) == k + 1);
    if lz > 0 {
        assert(v >> k == 1) by (bit_vector) requires (v >> k) & 1u64 != 0u64, v >> add(k, 1) == 0, k < 63u64;
    } else {
        assert(v >> k == 1) by (bit_vector) requires (v >> k) & 1u64 != 0u64, k == 63u64;
    }
}
//@extract src/value/varint.rs fn size_required
//@ret r
//@contract
    ensures r == enc_varint(value as nat).len(), 1 <= r <= 10,
//@at start
    proof {
        lemma_pow128_values();
        lemma_enc_len_u64(value);
        if value == 0 { lemma_size_class(0, 1); } else {
            lemma_leading_zeros(value);
            let k = (63 - vstd::std_specs::bits::u64_leading_zeros(value)) as u64;
            assert(value >> k == 1);
            let n = (k / 7 + 1) as nat;
            if n == 1 { assert(true && value < 0x80u64) by (bit_vector) requires value >> k == 1, 0u64 <= k <= 6u64; }
            if n == 2 { assert(value >= 0x80u64 && value < 0x4000u64) by (bit_vector) requires value >> k == 1, 7u64 <= k <= 13u64; }
            if n == 3 { assert(value >= 0x4000u64 && value < 0x200000u64) by (bit_vector) requires value >> k == 1, 14u64 <= k <= 20u64; }
            if n == 4 { assert(value >= 0x200000u64 && value < 0x10000000u64) by (bit_vector) requires value >> k == 1, 21u64 <= k <= 27u64; }
            if n == 5 { assert(value >= 0x10000000u64 && value < 0x800000000u64) by (bit_vector) requires value >> k == 1, 28u64 <= k <= 34u64; }
            if n == 6 { assert(value >= 0x800000000u64 && value < 0x40000000000u64) by (bit_vector) requires value >> k == 1, 35u64 <= k <= 41u64; }
            if n == 7 { assert(value >= 0x40000000000u64 && value < 0x2000000000000u64) by (bit_vector) requires value >> k == 1, 42u64 <= k <= 48u64; }
            if n == 8 { assert(value >= 0x2000000000000u64 && value < 0x100000000000000u64) by (bit_vector) requires value >> k == 1, 49u64 <= k <= 55u64; }
            if n == 9 { assert(value >= 0x100000000000000u64 && value < 0x8000000000000000u64) by (bit_vector) requires value >> k == 1, 56u64 <= k <= 62u64; }
            if n == 10 { assert(value >= 0x8000000000000000u64) by (bit_vector) requires value >> k == 1, 63u64 <= k <= 63u64; }
            lemma_size_class(value, n);
        }
    }
//@end
