//@global i64 :: from_le_bytes ( $$x ) => vx_i64_from_le_bytes($$x)
//@global u64 :: from_le_bytes ( $$x ) => vx_u64_from_le_bytes($$x)
//@global u16 :: from_be_bytes ( $$x ) => vx_u16_from_be_bytes($$x)
//@global u32 :: from_be_bytes ( $$x ) => vx_u32_from_be_bytes($$x)
//@global f32 :: from_le_bytes ( $$x ) => vx_f32_from_le_bytes($$x)
//@global f64 :: from_le_bytes ( $$x ) => vx_f64_from_le_bytes($$x)
//@global f64 :: from ( $$x ) => vx_f64_from_f32($$x)
//@global core :: str :: from_utf8 ( $$x ) . unwrap_or ( "" ) => vx_str_or_empty($$x)
//@global & [ u8 ] => & Bytes
//@global * const u8 => usize
//@global & [ ] => Bytes::empty()
//@global $x . copy_from_slice ( & $$a . bytes [ $$i .. $$j ] ) => $$a.bytes.range($$i, $$j).copy_into(&mut $x)
//@global core :: ptr :: copy_nonoverlapping ( $$a . bytes [ $$k .. ] . as_ptr ( ) , $b . as_mut_ptr ( ) , $$n , ) => $$a.bytes.from($$k).copy_ptr(&mut $b, $$n)
//@global core :: ptr :: copy_nonoverlapping ( $$a . as_ptr ( ) , $b . as_mut_ptr ( ) , $$n ) => $$a.copy_ptr(&mut $b, $$n)
//@global bytes . get ( $$a .. $$b ) . unwrap_or ( Bytes::empty() ) => bytes.get_or_empty($$a, $$b)
//@global & data [ $$a .. ] => data.from($$a)
//@global & $$x . bytes [ $$a .. ] => $$x.bytes.from($$a)
//@global & $$x . bytes [ $$a .. $$b ] => $$x.bytes.range($$a, $$b)
//@global bytes [ $$a .. ] => bytes.from($$a)
//@global bytes [ $$i ] => bytes.at($$i)
pub mod varint_stub {
use super::*;
//@extract src/value/varint.rs fn read
//@proved varint
//@ret r
//@contract
    ensures (r.0 as nat, r.1 as nat) == read_varint(data@), r.0 <= data@.len(), r.0 <= 10,
//@end
}
impl ValueType {
//@extract src/value/mod.rs impl ValueType :: fn from_byte
//@ret r
//@contract
    ensures r == kind(byte),
//@at start
    proof { lemma_bits(); }
//@end
}
impl Value {
//@extract src/value/mod.rs impl Value :: fn len
//@prop C06 C07
//@ret r
//@contract
    ensures r == self.n(),
//@end
//@extract src/value/mod.rs impl Value :: fn value_type
//@ret r
//@contract
    requires self.n() >= 1,
    ensures r == kind(self@[0]),
//@end
//@extract src/value/mod.rs impl Value :: fn _get_short
//@ret r
//@contract
    requires self.n() >= 2,
    ensures r == short_raw(self@), r < 4096,
//@at start
    proof { lemma_bits(); lemma_short(self@); }
//@end
//@extract src/value/mod.rs impl Value :: fn _get_data
//@prop C03 C07 C09 C16
//@ret r
//@contract
    requires self.n() >= 2, self@[0] % 16 != 15 ==> required(self@) <= self.n(),
        kind(self@[0]) == ValueType::String || kind(self@[0]) == ValueType::Data,
    ensures r@ == data_val(self@),
//@at start
    proof {
        lemma_bits(); lemma_read_within(self@.skip(1));
        assert(self@.subrange(1, 1) =~= Seq::<u8>::empty());
    }
//@end
//@extract src/value/mod.rs impl Value :: fn required_size
//@prop C06 C07
//@ret r
//@contract
    requires self.n() >= 2,
    ensures r == required(self@),
//@at start
    proof { lemma_bits(); lemma_read_within(self@.skip(1)); }
//@end
}

impl Value {
//@extract src/value/mod.rs impl Value :: fn to_short
//@prop C16 C02 C07:safe
//@ret r
//@contract
    requires scalar_ok(self@),
    ensures is_float(kind(self@[0])) ==> r == f64_as_i16(f64_val(self@)),
        !is_float(kind(self@[0])) && -0x8000 <= num_val(self@) < 0x8000 ==> r == num_val(self@),
    decreases (if kind(self@[0]) == ValueType::Short { 1nat } else { 10nat })
//@at start
    proof { lemma_bits(); lemma_bits16(); lemma_bits_plain(); lemma_short(self@); lemma_casts(); }
//@end
//@extract src/value/mod.rs impl Value :: fn to_unsigned_short
//@prop C16 C02 C07:safe
//@ret r
//@contract
    requires scalar_ok(self@),
    ensures is_float(kind(self@[0])) ==> r == f64_as_u16(f64_val(self@)),
        !is_float(kind(self@[0])) && 0 <= num_val(self@) < 0x1_0000 ==> r == num_val(self@),
        kind(self@[0]) == ValueType::Short ==> r == short_raw(self@),
    decreases 40nat
//@at start
    proof { lemma_bits(); lemma_bits16(); lemma_bits_plain(); lemma_short(self@); lemma_casts(); }
//@end
//@extract src/value/mod.rs impl Value :: fn to_int
//@prop C16 C02 C07:safe
//@ret r
//@contract
    requires scalar_ok(self@),
    ensures is_float(kind(self@[0])) ==> r == f64_as_i64(f64_val(self@)),
        !is_float(kind(self@[0])) && num_val(self@) < 0x8000_0000_0000_0000 ==> r == num_val(self@),
        !is_float(kind(self@[0])) && num_val(self@) >= 0x8000_0000_0000_0000 ==> r == num_val(self@) - 0x1_0000_0000_0000_0000,
        -0x8000_0000_0000_0000 <= num_val(self@) < 0x1_0000_0000_0000_0000,
    decreases 5nat
//@at start
    proof { lemma_bits(); lemma_short(self@); lemma_int_reads(self@); }
//@end
//@extract src/value/mod.rs impl Value :: fn to_unsigned_int
//@prop C16 C02 C07:safe
//@ret r
//@contract
    requires scalar_ok(self@),
    ensures is_float(kind(self@[0])) ==> r == f64_as_u64(f64_val(self@)),
        !is_float(kind(self@[0])) && num_val(self@) >= 0 ==> r == num_val(self@),
    decreases 20nat
//@at start
    proof { lemma_casts(); }
//@end
//@extract src/value/mod.rs impl Value :: fn to_double
//@prop C16 C02 C07:safe
//@ret r
//@contract
    requires scalar_ok(self@),
    ensures is_float(kind(self@[0])) ==> r == f64_val(self@),
        !is_float(kind(self@[0])) && num_val(self@) >= 0x8000_0000_0000_0000 ==> r == u64_as_f64(num_val(self@) as u64),
        !is_float(kind(self@[0])) && num_val(self@) < 0 ==> r == i64_as_f64(num_val(self@) as i64),
        !is_float(kind(self@[0])) && 0 <= num_val(self@) < 0x8000_0000_0000_0000 ==>
            r == u64_as_f64(num_val(self@) as u64) || r == i64_as_f64(num_val(self@) as i64),
    decreases (if is_float(kind(self@[0])) { 0nat } else { 30nat })
//@at start
    proof { lemma_bits(); lemma_int_reads(self@); }
//@end
//@extract src/value/mod.rs impl Value :: fn to_float
//@prop C16 C02 C07:safe
//@ret r
//@contract
    requires scalar_ok(self@),
    ensures is_float(kind(self@[0])) ==> r == f64_as_f32(f64_val(self@)),
        !is_float(kind(self@[0])) && num_val(self@) >= 0x8000_0000_0000_0000 ==> r == f64_as_f32(u64_as_f64(num_val(self@) as u64)),
        !is_float(kind(self@[0])) && num_val(self@) < 0 ==> r == f64_as_f32(i64_as_f64(num_val(self@) as i64)),
        !is_float(kind(self@[0])) && 0 <= num_val(self@) < 0x8000_0000_0000_0000 ==>
            r == f64_as_f32(u64_as_f64(num_val(self@) as u64)) || r == f64_as_f32(i64_as_f64(num_val(self@) as i64)),
    decreases (if is_float(kind(self@[0])) { 1nat } else { 31nat })
//@at start
//@end
//@extract src/value/mod.rs impl Value :: fn to_bool
//@prop C16 C02 C07:safe
//@ret r
//@contract
    requires scalar_ok(self@),
    ensures kind(self@[0]) == ValueType::True ==> r,
        kind(self@[0]) == ValueType::False ==> !r,
        kind(self@[0]) == ValueType::Short || kind(self@[0]) == ValueType::Int || kind(self@[0]) == ValueType::UnsignedInt ==> r == (num_val(self@) != 0),
        is_float(kind(self@[0])) ==> (f64_as_i64(f64_val(self@)) != 0 ==> r) && (f64_zero(f64_val(self@)) ==> !r),
        !is_float(kind(self@[0])) && kind(self@[0]) != ValueType::Short && kind(self@[0]) != ValueType::Int && kind(self@[0]) != ValueType::UnsignedInt && kind(self@[0]) != ValueType::False ==> r,
    decreases 50nat
//@at start
    proof { if f64_zero(f64_val(self@)) { axiom_zero(f64_val(self@)); } }
//@end
//@extract src/value/mod.rs impl Value :: fn to_data
//@prop C16 C03 C07:safe
//@ret r
//@contract
    requires scalar_ok(self@),
    ensures r@ == (if kind(self@[0]) == ValueType::String || kind(self@[0]) == ValueType::Data { data_val(self@) } else { Seq::empty() }),
//@end
//@extract src/value/mod.rs impl Value :: fn to_str
//@prop C16 C03 C07:safe
//@ret r
//@contract
    requires scalar_ok(self@),
    ensures encode_utf8(r@) == (if kind(self@[0]) == ValueType::String && valid_utf8(data_val(self@)) { data_val(self@) } else { Seq::empty() }),
//@at start
    proof { assert(encode_utf8(""@) =~= Seq::<u8>::empty()) by { reveal_strlit(""); lemma_empty_str(); } }
//@end
}
// ---------------------------------------------------------------- pointers
//@global unsafe fn => fn
//@global debug_assert_ne ! ( $$a , $$b ) ; => assert($$a != $$b);
//@global core :: slice :: from_raw_parts ( $$p , $$n ) => raw_parts($$p, $$n)
impl Pointer {
//@extract src/value/pointer.rs impl Pointer :: fn from_value
//@rewrite core :: mem :: transmute ( $v ) => vx_pointer($v)
//@ret r
//@contract
    ensures r.pos() == value.pos(), r.n() == value.n(),
//@end
//@extract src/value/pointer.rs impl Pointer :: fn get_offset
//@prop C06 C07 C08 C09 C04
//@ret r
//@contract
    requires self.n() >= 2, wide ==> self.n() >= 4,
    ensures r == ptr_off(doc().subrange(self.pos(), doc().len() as int), wide), r % 2 == 0,
//@at start
    proof { lemma_bits16(); lemma_bits_plain(); lemma_ptr_off(self.pos(), self.n(), wide); }
//@end
//@extract src/value/pointer.rs impl Pointer :: fn offset
//@prop C06 C07 C08 C09 C04
//@ret r
//@contract
    requires 0 <= self.pos() + offset <= doc().len(),
    ensures r == base() + self.pos() + offset,
//@end
//@extract src/value/pointer.rs impl Pointer :: fn deref_checked
//@prop C06
//@ret r
//@contract
    requires data_start == base(),
    ensures match r {
        Ok(v) => self.n() >= (if wide { 4int } else { 2 }) && target(doc(), self.pos(), wide) == Some((v.pos(), v.n())),
        Err(_) => self.n() < (if wide { 4int } else { 2 }) || target(doc(), self.pos(), wide).is_none(),
    },
    decreases self.pos(),
//@at start
    proof { lemma_bits(); }
//@end
//@extract src/value/pointer.rs impl Pointer :: fn deref_unchecked
//@prop C07 C08 C09 C04
//@ret r
//@contract
    requires self.n() >= 2, wide ==> self.n() >= 4, target(doc(), self.pos(), wide).is_some(),
    ensures target(doc(), self.pos(), wide) == Some((r.pos(), r.n())),
    decreases self.pos(),
//@end
}
impl Value {
//@extract src/value/mod.rs impl Value :: fn _from_raw_unchecked
//@rewrite? core :: mem :: transmute ( $v ) => vx_value($v)
//@ret r
//@contract
    requires base() <= ptr, ptr + available_size <= base() + doc().len(),
    ensures r.pos() == ptr - base(), r.n() == available_size,
//@end
//@extract src/value/mod.rs impl Value :: fn _from_raw
//@prop C06 C07
//@rewrite? core :: mem :: transmute ( $v ) => vx_value($v)
//@ret r
//@contract
    requires base() <= ptr, ptr + available_size <= base() + doc().len(), available_size >= 2,
    ensures match r {
        Ok(v) => v.pos() == ptr - base() && v.n() == available_size && scalar_ok(v@),
        Err(_) => !scalar_ok(doc().subrange(ptr - base(), ptr - base() + available_size)),
    },
//@end
//@extract src/value/mod.rs impl Value :: fn _offset_unchecked
//@prop C07 C08 C09 C04
//@ret r
//@contract
    requires 0 <= self.pos() + count, self.pos() + count + width <= doc().len(),
    ensures r.pos() == self.pos() + count, r.n() == width,
//@end
//@extract src/value/mod.rs impl Value :: fn as_array
//@prop C07
//@ret r
//@contract
    requires self.n() >= 1,
    ensures r.is_some() == (kind(self@[0]) == ValueType::Array), match r { Some(a) => a.pos() == self.pos() && a.n() == self.n(), None => true },
//@end
//@extract src/value/mod.rs impl Value :: fn as_dict
//@prop C07
//@ret r
//@contract
    requires self.n() >= 1,
    ensures r.is_some() == (kind(self@[0]) == ValueType::Dict), match r { Some(a) => a.pos() == self.pos() && a.n() == self.n(), None => true },
//@end
//@extract src/value/mod.rs impl Value :: fn _find_root
//@prop C06
//@rewrite? core :: mem :: transmute ( $v ) => vx_value($v)
//@ret r
//@contract
    requires data.pos() == 0, data.n() == doc().len(),
    ensures match r { Ok(v) => root(doc()) == Some((v.pos(), v.n())), Err(_) => root(doc()).is_none() },
//@at start
    proof {
        lemma_bits_plain();
        assert(forall|x: usize| #[trigger] (x & 1) == x % 2) by (bit_vector);
        assert(forall|x: usize| #[trigger] (x & !1) == x - x % 2) by (bit_vector);
        assert(forall|x: usize| #[trigger] (x >> 1) == x / 2) by (bit_vector);
    }
//@end
//@extract src/value/mod.rs impl Value :: fn from_bytes
//@prop C06 C07
//@ret r
//@contract
    requires data.pos() == 0, data.n() == doc().len(),
    ensures match r {
        Ok(v) => root(doc()) == Some((v.pos(), v.n())) && valid(doc(), v.pos(), v.n(), false),
        Err(_) => match root(doc()) { Some((p, n)) => !valid(doc(), p, n, false), None => true },
    },
//@at start
    proof { lemma_target(doc(), doc().len() - 2, false); }
//@end
//@extract src/value/mod.rs impl Value :: fn _validate
//@prop C06 C07
//@ret r
//@contract
    requires data_start == base(), data_end == base() + self.pos() + self.n(), self.n() >= 2,
        IS_ARR_ELEM ==> required(self@) <= self.n(),
    ensures r.is_ok() == valid(doc(), self.pos(), self.n(), is_wide),
    decreases self.pos() + self.n(), self.n(), 1int
//@at start
    proof {
        lemma_valid(doc(), self.pos(), self.n());
        if kind(self@[0]) == ValueType::Pointer && (is_wide ==> self.n() >= 4) { lemma_target(doc(), self.pos(), is_wide); }
    }
//@end
}
impl Array {
//@extract src/value/array.rs impl Array :: fn from_value
//@rewrite core :: mem :: transmute ( $v ) => vx_array($v)
//@ret r
//@contract
    ensures r.pos() == value.pos(), r.n() == value.n(),
//@end
//@extract src/value/array.rs impl Array :: fn is_wide
//@prop C06 C07 C08 C09 C04
//@ret r
//@contract
    requires self.n() >= 1,
    ensures r == c_wide(self@),
//@at start
    proof { lemma_bits(); }
//@end
//@extract src/value/array.rs impl Array :: fn width
//@prop C06 C07 C08 C09 C04
//@ret r
//@contract
    requires self.n() >= 1,
    ensures r == c_width(self@),
//@end
//@extract src/value/array.rs impl Array :: fn first_pos
//@prop C06 C07 C08 C09 C04
//@ret r
//@contract
    requires self.n() >= 2,
    ensures r == c_first(self@),
//@at start
    proof {
        assert(forall|x: usize| #[trigger] (x & 1) == x % 2) by (bit_vector);
        assert(forall|x: usize| #[trigger] (x & !1) == x - x % 2) by (bit_vector);
        assert(forall|x: usize| #[trigger] (x >> 1) == x / 2) by (bit_vector);
        lemma_bits16(); lemma_bits_plain(); lemma_short(self@); lemma_read_within(self@.skip(2)); }
//@end
//@extract src/value/array.rs impl Array :: fn len
//@prop C06 C07 C08 C09 C04
//@ret r
//@contract
    requires self.n() >= 2,
    ensures r == c_count(self@),
//@at start
    proof { lemma_bits16(); lemma_short(self@); lemma_read_within(self@.skip(2)); }
//@end
//@extract src/value/array.rs impl Array :: fn is_empty
//@prop C07 C08 C04
//@ret r
//@contract
    requires self.n() >= 2,
    ensures r == (c_count(self@) == 0),
//@end
//@extract src/value/array.rs impl Array :: fn validate
//@prop C06 C07
//@rewrite $a . checked_mul ( $w ) . and_then ( | $s | $$e ) . map_or ( false , | $r | $$f ) => match $a.checked_mul($w) { Some($s) => match $$e { Some($r) => $$f, None => false }, None => false }
//@rewrite for $i in 0 .. elem_count => for $i in it: 0..elem_count
//@ret r
//@contract
    requires data_start == base(), data_end == base() + self.pos() + self.n(), self.n() >= 2,
        kind(self@[0]) == ValueType::Array || kind(self@[0]) == ValueType::Dict,
    ensures r.is_ok() == valid(doc(), self.pos(), self.n(), false), r.is_ok() == valid(doc(), self.pos(), self.n(), true),
    decreases self.pos() + self.n(), self.n(), 0int
//@loop 1
    invariant
        elem_count == c_count(self@), width == c_width(self@), is_wide == c_wide(self@), data_start == base(), self.n() >= 2,
        c_first(self@) + c_count(self@) * c_width(self@) <= self.n(), c_first(self@) >= 2,
        kind(self@[0]) == ValueType::Array || kind(self@[0]) == ValueType::Dict,
        current == base() + self.pos() + c_slot(self@, it.index@),
        forall|i: int| 0 <= i < it.index@ ==> valid(doc(), self.pos() + #[trigger] c_slot(self@, i), c_width(self@), c_wide(self@)),
        slot_facts(self@, self.pos(), self.n()),
//@at start
    proof { lemma_validate(self@, self.pos(), self.n()); }
//@end
}
impl Dict {
//@extract src/value/dict.rs impl Dict :: fn from_value
//@rewrite core :: mem :: transmute ( $v ) => vx_dict($v)
//@ret r
//@contract
    ensures r.pos() == value.pos(), r.n() == value.n(),
//@end
}
