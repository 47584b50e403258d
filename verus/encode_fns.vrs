//@global . to_be_bytes ( ) => . vx_be ( )
//@global . to_le_bytes ( ) => . vx_le ( )
//@global NonZeroUsize :: new_unchecked ( $$x ) => vx_nonzero($$x)
//@global NonZeroUsize => usize
// What it means that some bytes were written for a value: `reads` says how they read back.
pub trait Encodable {
    /// bytes reserved for it
    spec fn size(&self) -> nat;
    /// bytes it takes as an element of a wide collection
    spec fn wide(&self) -> nat;
    /// it is stored inside the collection
    spec fn small(&self) -> bool;
    spec fn writable(&self) -> bool;
    spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool;
    spec fn sized(&self, v: SizedValue) -> bool;
    /// what it stands for
    spec fn leaf(&self) -> Option<Leaf>;
    fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> (r: Option<usize>)
        requires self.writable(), is_wide ==> old(buf)@.len() >= self.wide()
        ensures final(buf)@.len() == old(buf)@.len(),
            match r {
                Some(n) => n == (if is_wide { self.wide() } else { self.size() }) && n <= final(buf)@.len()
                    && self.reads(final(buf)@.take(n as int), is_wide) && (self.leaf() matches Some(l) ==> leaf_at(final(buf)@.take(n as int), l)) && final(buf)@.skip(n as int) =~= old(buf)@.skip(n as int),
                None => old(buf)@.len() < (if is_wide { self.wide() } else { self.size() }),
            };
    fn fleece_size(&self) -> (r: usize)
        requires self.writable()
        ensures r == self.size(), r >= 1;
    fn to_sized_value(&self) -> (r: Option<SizedValue>)
        requires self.writable()
        ensures r.is_some() == self.small(),
            match r { Some(v) => self.sized(v) && v.ok() && (self.leaf() matches Some(l) ==> !v.is_ptr() && leaf_at(v.bytes@.take(2), l)), None => true };
}
/// a value kept inside its collection reads as what it was made from
pub open spec fn inline_of(v: SizedValue, ok: bool) -> bool { ok && !v.is_ptr() && v.bytes[2] == 0 && v.bytes[3] == 0 }
impl SizedValue {
    pub open spec fn is_ptr(&self) -> bool { kind(self.bytes[0]) == ValueType::Pointer }
    /// the offset it carries
    pub open spec fn ptr(&self) -> int { be32(self.bytes@) - 0x8000_0000 }
    pub open spec fn ok(&self) -> bool { if self.is_ptr() { 0 <= self.ptr() <= pointer::MAX_WIDE } else { self.bytes[2] == 0 && self.bytes[3] == 0 && required(self.bytes@.take(2)) <= 2 } }
//@extract src/value/sized.rs impl SizedValue :: fn new_narrow
//@prop C02 C03 C04
//@ret r
//@contract
    ensures r.bytes@ =~= seq![narrow[0], narrow[1], 0, 0],
//@end
//@extract src/value/sized.rs impl SizedValue :: fn new_pointer
//@prop C02 C03 C04
//@ret r
//@contract
    ensures r.is_some() == (offset <= pointer::MAX_WIDE), match r { Some(v) => v.is_ptr() && v.ptr() == offset && v.ok(), None => true },
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
//@extract src/value/sized.rs impl SizedValue :: fn value_type
//@prop C02 C03 C04
//@ret r
//@contract
    ensures r == kind(self.bytes[0]),
//@end
//@extract src/value/sized.rs impl SizedValue :: fn pointer_offset
//@prop C02 C03 C04
//@rewrite? u32 :: from_be_bytes ( $$x ) => vx_u32_from_be_bytes($$x)
//@ret r
//@contract
    ensures self.is_ptr() ==> r == self.ptr(),
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
//@extract src/value/sized.rs impl SizedValue :: fn actual_pointer_offset
//@prop C02 C03 C04
//@ret r
//@contract
    requires self.is_ptr(), self.ptr() <= out_len <= 0xffff_ffff,
    ensures r == out_len - self.ptr(),
//@end
//@extract src/value/sized.rs impl SizedValue :: fn as_bytes
//@prop C02 C03 C04
//@ret r
//@contract
    ensures *r == self.bytes,
//@end
}
pub open spec fn small_i64(x: i64) -> bool { -2048 <= x <= 2047 }
pub open spec fn size_i64(x: i64) -> nat { if small_i64(x) { 2 } else { 1 + slen(x as int) } }
pub open spec fn reads_i64(x: i64, s: Seq<u8>) -> bool { scalar_ok(s) && (kind(s[0]) == ValueType::Short || kind(s[0]) == ValueType::Int) && num_val(s) == x }
pub open spec fn small_u64(x: u64) -> bool { x <= 2047 }
pub open spec fn size_u64(x: u64) -> nat { if small_u64(x) { 2 } else { 1 + ulen(x as int) } }
pub open spec fn reads_u64(x: u64, s: Seq<u8>) -> bool { scalar_ok(s) && (kind(s[0]) == ValueType::Short || kind(s[0]) == ValueType::UnsignedInt) && num_val(s) == x }
/// i16 and i64 (u16 and u64) call each other: the calls back are checked against the same contract,
/// restated here on a wrapper (partial correctness: only termination of the ping-pong is not proved)
pub struct VxI64(pub i64);
pub struct VxU64(pub u64);
impl Encodable for VxI64 {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { small_i64(self.0) }
    open spec fn size(&self) -> nat { size_i64(self.0) }
    open spec fn wide(&self) -> nat { if self.small() { 4 } else { self.size() } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { reads_i64(self.0, s) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Num(self.0 as int)) }
    #[verifier::external_body]
    fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<usize> { unimplemented!() }
    #[verifier::external_body]
    fn fleece_size(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn to_sized_value(&self) -> Option<SizedValue> { unimplemented!() }
}
impl Encodable for VxU64 {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { small_u64(self.0) }
    open spec fn size(&self) -> nat { size_u64(self.0) }
    open spec fn wide(&self) -> nat { if self.small() { 4 } else { self.size() } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { reads_u64(self.0, s) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Num(self.0 as int)) }
    #[verifier::external_body]
    fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<usize> { unimplemented!() }
    #[verifier::external_body]
    fn fleece_size(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn to_sized_value(&self) -> Option<SizedValue> { unimplemented!() }
}
impl Encodable for i64 {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { small_i64(*self) }
    open spec fn size(&self) -> nat { size_i64(*self) }
    open spec fn wide(&self) -> nat { if self.small() { 4 } else { self.size() } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { reads_i64(*self, s) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Num(*self as int)) }
//@extract src/encoder/encodable.rs impl Encodable for i64 :: fn write_fleece_to
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); lemma_signed(*self); lemma_le_bytes(0, 8, 8); assert(forall|v: nat| #[trigger] le_bytes(v, 8).len() == 8) by { assert forall|v: nat| #[trigger] le_bytes(v, 8).len() == 8 by { lemma_le_bytes(v, 8, 8); } } }
//@end
//@extract src/encoder/encodable.rs impl Encodable for i64 :: fn fleece_size
//@prop C02 C04
//@at start
    proof { if *self >= 0 { lemma_sizes(*self as u64); } else { lemma_sizes((-*self - 1) as u64); } }
//@end
//@extract src/encoder/encodable.rs impl Encodable for i64 :: fn to_sized_value
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
}
impl Encodable for u64 {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { small_u64(*self) }
    open spec fn size(&self) -> nat { size_u64(*self) }
    open spec fn wide(&self) -> nat { if self.small() { 4 } else { self.size() } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { reads_u64(*self, s) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Num(*self as int)) }
//@extract src/encoder/encodable.rs impl Encodable for u64 :: fn write_fleece_to
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); lemma_unsigned(*self); assert(forall|v: nat| #[trigger] le_bytes(v, 8).len() == 8) by { assert forall|v: nat| #[trigger] le_bytes(v, 8).len() == 8 by { lemma_le_bytes(v, 8, 8); } } }
//@end
//@extract src/encoder/encodable.rs impl Encodable for u64 :: fn fleece_size
//@prop C02 C04
//@at start
    proof { lemma_sizes(*self); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for u64 :: fn to_sized_value
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
}
impl Encodable for u16 {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { small_u64((*self as u64)) }
    open spec fn size(&self) -> nat { size_u64((*self as u64)) }
    open spec fn wide(&self) -> nat { if self.small() { 4 } else { self.size() } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { reads_u64((*self as u64), s) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false) && kind(v.bytes[0]) == ValueType::Short) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Num(*self as int)) }
//@extract src/encoder/encodable.rs impl Encodable for u16 :: fn write_fleece_to
//@prop C02 C04
//@rewrite? u64 :: from ( $$x ) => VxU64(u64 :: from($$x))
//@at start
    proof { lemma_ebits(); reveal(leaf_at); lemma_short_prefix(); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for u16 :: fn fleece_size
//@prop C02 C04
//@rewrite? u64 :: from ( $$x ) => VxU64(u64 :: from($$x))
//@end
//@extract src/encoder/encodable.rs impl Encodable for u16 :: fn to_sized_value
//@prop C02 C04
//@rewrite? u64 :: from ( $$x ) => VxU64(u64 :: from($$x))
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
}
impl Encodable for i16 {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { small_i64((*self as i64)) }
    open spec fn size(&self) -> nat { size_i64((*self as i64)) }
    open spec fn wide(&self) -> nat { if self.small() { 4 } else { self.size() } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { reads_i64((*self as i64), s) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Num(*self as int)) }
//@extract src/encoder/encodable.rs impl Encodable for i16 :: fn write_fleece_to
//@prop C02 C04
//@rewrite? i64 :: from ( $$x ) => VxI64(i64 :: from($$x))
//@at start
    proof { lemma_ebits(); reveal(leaf_at); lemma_short_prefix(); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for i16 :: fn fleece_size
//@prop C02 C04
//@rewrite? i64 :: from ( $$x ) => VxI64(i64 :: from($$x))
//@end
//@extract src/encoder/encodable.rs impl Encodable for i16 :: fn to_sized_value
//@prop C02 C04
//@rewrite? i64 :: from ( $$x ) => VxI64(i64 :: from($$x))
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
}
/// which of the two builds this is: both branches of a cfg(debug_assertions) pair are checked
#[verifier::external_body]
pub fn vx_release_build() -> bool { unimplemented!() }
impl Encodable for SizedValue {
    open spec fn writable(&self) -> bool { self.ok() }
    open spec fn small(&self) -> bool { true }
    open spec fn size(&self) -> nat { if self.is_ptr() && self.ptr() > pointer::MAX_NARROW { 4 } else { 2 } }
    open spec fn wide(&self) -> nat { 4 }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool {
        if self.is_ptr() { ptr_bytes(s, self.ptr()) } else { s =~= self.bytes@.take(s.len() as int) }
    }
    open spec fn sized(&self, v: SizedValue) -> bool { v == *self }
    open spec fn leaf(&self) -> Option<Leaf> { None }
//@extract src/encoder/encodable.rs impl Encodable for SizedValue :: fn write_fleece_to
//@prop C02 C03 C04
//@rewrite? # [ cfg ( debug_assertions ) ] let offset = $$a ; # [ cfg ( not ( debug_assertions ) ) ] let offset = $$b ; => let offset = if vx_release_build() { $$b } else { $$a };
//@at start
    proof { lemma_ptr_bits(); reveal(ptr_bytes); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for SizedValue :: fn fleece_size
//@prop C02 C03 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for SizedValue :: fn to_sized_value
//@prop C02 C03 C04
//@end
}
impl<T: Encodable + ?Sized> Encodable for &T {
    open spec fn writable(&self) -> bool { (**self).writable() }
    open spec fn small(&self) -> bool { (**self).small() }
    open spec fn size(&self) -> nat { (**self).size() }
    open spec fn wide(&self) -> nat { (**self).wide() }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { (**self).reads(s, is_wide) }
    open spec fn sized(&self, v: SizedValue) -> bool { (**self).sized(v) }
    open spec fn leaf(&self) -> Option<Leaf> { (**self).leaf() }
//@extract src/encoder/encodable.rs impl<T: Encodable + ?Sized> Encodable for &T :: fn write_fleece_to
//@prop C02 C03 C04
//@end
//@extract src/encoder/encodable.rs impl<T: Encodable + ?Sized> Encodable for &T :: fn fleece_size
//@prop C02 C03 C04
//@end
//@extract src/encoder/encodable.rs impl<T: Encodable + ?Sized> Encodable for &T :: fn to_sized_value
//@prop C02 C03 C04
//@end
}
impl Encodable for isize {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { small_i64(*self as i64) }
    open spec fn size(&self) -> nat { size_i64(*self as i64) }
    open spec fn wide(&self) -> nat { if self.small() { 4 } else { self.size() } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { reads_i64(*self as i64, s) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Num(*self as int)) }
//@extract src/encoder/encodable.rs impl Encodable for isize :: fn write_fleece_to
//@prop C02 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for isize :: fn fleece_size
//@prop C02 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for isize :: fn to_sized_value
//@prop C02 C04
//@end
}
impl Encodable for usize {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { small_u64(*self as u64) }
    open spec fn size(&self) -> nat { size_u64(*self as u64) }
    open spec fn wide(&self) -> nat { if self.small() { 4 } else { self.size() } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { reads_u64(*self as u64, s) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Num(*self as int)) }
//@extract src/encoder/encodable.rs impl Encodable for usize :: fn write_fleece_to
//@prop C02 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for usize :: fn fleece_size
//@prop C02 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for usize :: fn to_sized_value
//@prop C02 C04
//@end
}
impl Encodable for i32 {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { small_i64(*self as i64) }
    open spec fn size(&self) -> nat { size_i64(*self as i64) }
    open spec fn wide(&self) -> nat { if self.small() { 4 } else { self.size() } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { reads_i64(*self as i64, s) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Num(*self as int)) }
//@extract src/encoder/encodable.rs impl Encodable for i32 :: fn write_fleece_to
//@prop C02 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for i32 :: fn fleece_size
//@prop C02 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for i32 :: fn to_sized_value
//@prop C02 C04
//@end
}
impl Encodable for u32 {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { small_u64(*self as u64) }
    open spec fn size(&self) -> nat { size_u64(*self as u64) }
    open spec fn wide(&self) -> nat { if self.small() { 4 } else { self.size() } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { reads_u64(*self as u64, s) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Num(*self as int)) }
//@extract src/encoder/encodable.rs impl Encodable for u32 :: fn write_fleece_to
//@prop C02 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for u32 :: fn fleece_size
//@prop C02 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for u32 :: fn to_sized_value
//@prop C02 C04
//@end
}
impl Encodable for u8 {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { small_u64(*self as u64) }
    open spec fn size(&self) -> nat { size_u64(*self as u64) }
    open spec fn wide(&self) -> nat { if self.small() { 4 } else { self.size() } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { reads_u64(*self as u64, s) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Num(*self as int)) }
//@extract src/encoder/encodable.rs impl Encodable for u8 :: fn write_fleece_to
//@prop C02 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for u8 :: fn fleece_size
//@prop C02 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for u8 :: fn to_sized_value
//@prop C02 C04
//@end
}
impl Encodable for i8 {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { small_i64(*self as i64) }
    open spec fn size(&self) -> nat { size_i64(*self as i64) }
    open spec fn wide(&self) -> nat { if self.small() { 4 } else { self.size() } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { reads_i64(*self as i64, s) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Num(*self as int)) }
//@extract src/encoder/encodable.rs impl Encodable for i8 :: fn write_fleece_to
//@prop C02 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for i8 :: fn fleece_size
//@prop C02 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for i8 :: fn to_sized_value
//@prop C02 C04
//@end
}
impl Encodable for f32 {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { false }
    open spec fn size(&self) -> nat { 6 }
    open spec fn wide(&self) -> nat { 6 }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { scalar_ok(s) && kind(s[0]) == ValueType::Float && f32_bits(s) == *self }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Float(*self)) }
//@extract src/encoder/encodable.rs impl Encodable for f32 :: fn write_fleece_to
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); lemma_floats(); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for f32 :: fn fleece_size
//@prop C02 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for f32 :: fn to_sized_value
//@prop C02 C04
//@end
}
impl Encodable for f64 {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { false }
    open spec fn size(&self) -> nat { 10 }
    open spec fn wide(&self) -> nat { 10 }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { scalar_ok(s) && kind(s[0]) == ValueType::Double64 && f64_bits(s) == *self }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Double(*self)) }
//@extract src/encoder/encodable.rs impl Encodable for f64 :: fn write_fleece_to
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); lemma_floats(); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for f64 :: fn fleece_size
//@prop C02 C04
//@end
//@extract src/encoder/encodable.rs impl Encodable for f64 :: fn to_sized_value
//@prop C02 C04
//@end
}
//@extract src/encoder/encodable.rs fn write_fleece_constant
//@prop C02 C04
//@ret r
//@contract
    ensures final(buf)@.len() == old(buf)@.len(),
        match r {
            Some(n) => n == (if is_wide { 4nat } else { 2nat }) && n <= final(buf)@.len()
                && final(buf)@.take(n as int) =~= (if is_wide { seq![constant[0], constant[1], 0u8, 0u8] } else { constant@ })
                && final(buf)@.skip(n as int) =~= old(buf)@.skip(n as int),
            None => old(buf)@.len() < (if is_wide { 4nat } else { 2nat }),
        },
//@end
impl Encodable for bool {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { true }
    open spec fn size(&self) -> nat { 2 }
    open spec fn wide(&self) -> nat { 4 }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { scalar_ok(s) && kind(s[0]) == (if *self { ValueType::True } else { ValueType::False }) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Bool(*self)) }
//@extract src/encoder/encodable.rs impl Encodable for bool :: fn write_fleece_to
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for bool :: fn fleece_size
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for bool :: fn to_sized_value
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
}
impl Encodable for NullValue {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { true }
    open spec fn size(&self) -> nat { 2 }
    open spec fn wide(&self) -> nat { 4 }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { scalar_ok(s) && kind(s[0]) == ValueType::Null }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Null) }
//@extract src/encoder/encodable.rs impl Encodable for NullValue :: fn write_fleece_to
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for NullValue :: fn fleece_size
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for NullValue :: fn to_sized_value
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
}
impl Encodable for UndefinedValue {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { true }
    open spec fn size(&self) -> nat { 2 }
    open spec fn wide(&self) -> nat { 4 }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { scalar_ok(s) && kind(s[0]) == ValueType::Undefined }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Undefined) }
//@extract src/encoder/encodable.rs impl Encodable for UndefinedValue :: fn write_fleece_to
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for UndefinedValue :: fn fleece_size
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for UndefinedValue :: fn to_sized_value
//@prop C02 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); }
//@end
}
pub open spec fn str_size(n: nat) -> nat { if n <= 1 { 2 } else if n <= 14 { 1 + n } else { 1 + enc_varint(n).len() + n } }
pub open spec fn str_bytes(tag: u8, d: Seq<u8>) -> Seq<u8> {
    if d.len() == 0 { seq![tag, 0] } else if d.len() <= 14 { seq![(tag + d.len()) as u8] + d } else { seq![(tag + 15) as u8] + enc_varint(d.len()) + d }
}
#[verifier::opaque]
pub open spec fn reads_data(k: ValueType, d: Seq<u8>, s: Seq<u8>) -> bool { scalar_ok(s) && kind(s[0]) == k && data_val(s) == d }
pub open spec fn str_leaf(tag: u8, d: Seq<u8>) -> Leaf { if tag == 0x40 { Leaf::Str(d) } else { Leaf::Data(d) } }
pub proof fn lemma_str_reads(tag: u8, d: Seq<u8>, s: Seq<u8>)
    requires tag == 0x40 || tag == 0x50, d.len() <= umax() - 11, s.len() >= str_size(d.len()), s.take(str_bytes(tag, d).len() as int) == str_bytes(tag, d)
    ensures str_bytes(tag, d).len() == str_size(d.len()), reads_data(kind(tag), d, s), leaf_at(s, str_leaf(tag, d)), required(s) == str_size(d.len())
{
    reveal(reads_data); reveal(leaf_at);
    let n = d.len();
    let b = str_bytes(tag, d);
    let t = s.take(b.len() as int);
    if n > 14 {
        theorem_varint_round_trip(n as u64, s.skip(1 + enc_varint(n).len() as int));
        assert(s.skip(1) =~= enc_varint(n) + s.skip(1 + enc_varint(n).len() as int)) by {
            assert forall|i: int| 0 <= i < enc_varint(n).len() implies s.skip(1)[i] == enc_varint(n)[i] by { assert(t[i + 1] == b[i + 1]); }
        }
        assert(t[0] == b[0]);
        assert forall|i: int| 0 <= i < n implies s.subrange(1 + enc_varint(n).len() as int, (1 + enc_varint(n).len() + n) as int)[i] == d[i] by {
            assert(t[1 + enc_varint(n).len() + i] == b[1 + enc_varint(n).len() + i]);
        }
        assert(data_val(s) =~= d);
    } else {
        assert(t[0] == b[0]);
        assert forall|i: int| 0 <= i < n implies s.subrange(1, 1 + n as int)[i] == d[i] by { assert(t[1 + i] == b[1 + i]); }
        assert(data_val(s) =~= d);
    }
}
pub proof fn lemma_str_all(tag: u8, d: Seq<u8>)
    requires tag == 0x40 || tag == 0x50, d.len() <= umax() - 11
    ensures forall|s: Seq<u8>| s.len() >= str_size(d.len()) && s.take(str_size(d.len()) as int) =~= str_bytes(tag, d) ==> #[trigger] reads_data(kind(tag), d, s),
        forall|s: Seq<u8>| s.len() >= str_size(d.len()) && s.take(str_size(d.len()) as int) =~= str_bytes(tag, d) ==> #[trigger] leaf_at(s, str_leaf(tag, d)),
        kind(0x40) == ValueType::String, kind(0x50) == ValueType::Data, str_bytes(tag, d).len() == str_size(d.len()),
        forall|s: Seq<u8>, a: int| 0 <= a <= s.len() && str_size(d.len()) <= a ==> #[trigger] s.take(a).take(str_size(d.len()) as int) =~= s.take(str_size(d.len()) as int),
{
    lemma_enc_len_u64(d.len() as u64);
    assert forall|s: Seq<u8>| s.len() >= str_size(d.len()) && s.take(str_size(d.len()) as int) =~= str_bytes(tag, d) implies #[trigger] reads_data(kind(tag), d, s) by {
        lemma_str_reads(tag, d, s);
    }
    assert forall|s: Seq<u8>| s.len() >= str_size(d.len()) && s.take(str_size(d.len()) as int) =~= str_bytes(tag, d) implies #[trigger] leaf_at(s, str_leaf(tag, d)) by {
        lemma_str_reads(tag, d, s);
    }
}
//@extract src/encoder/encodable.rs fn write_fleece_string
//@prop C03 C04
//@ret r
//@contract
    requires old(buf)@.len() >= str_size(string@.len()), is_wide && string@.len() <= 1 ==> old(buf)@.len() >= 4
    ensures final(buf)@.len() == old(buf)@.len(),
        r == (if string@.len() <= 1 && is_wide { 4nat } else { str_size(string@.len()) }), r <= old(buf)@.len(),
        final(buf)@.skip(r as int) =~= old(buf)@.skip(r as int),
        final(buf)@.take(str_size(string@.len()) as int) =~= str_bytes(if IS_STR { 0x40u8 } else { 0x50u8 }, string@),
        r == 4 && string@.len() <= 1 && is_wide ==> final(buf)@[2] == 0 && final(buf)@[3] == 0,
//@at start
    proof { lemma_ebits(); reveal(leaf_at); axiom_slice_len(string); lemma_enc_len_u64(string@.len() as u64); }
//@end
impl Encodable for [u8] {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { self@.len() <= 1 }
    open spec fn size(&self) -> nat { str_size(self@.len()) }
    open spec fn wide(&self) -> nat { if self.small() { 4 } else { self.size() } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { reads_data(ValueType::Data, self@, s) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Data(self@)) }
//@extract src/encoder/encodable.rs impl Encodable for [u8] :: fn write_fleece_to
//@prop C03 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); axiom_slice_len(self); lemma_enc_len_u64(self@.len() as u64); lemma_str_all(0x50u8, self@); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for [u8] :: fn fleece_size
//@prop C03 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); axiom_slice_len(self); lemma_enc_len_u64(self@.len() as u64); lemma_str_all(0x50u8, self@); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for [u8] :: fn to_sized_value
//@prop C03 C04
//@at start
    proof { lemma_ebits(); reveal(leaf_at); axiom_slice_len(self); lemma_enc_len_u64(self@.len() as u64); lemma_str_all(0x50u8, self@); }
//@end
}
impl Encodable for str {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { encode_utf8(self@).len() <= 1 }
    open spec fn size(&self) -> nat { str_size(encode_utf8(self@).len()) }
    open spec fn wide(&self) -> nat { if self.small() { 4 } else { self.size() } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { reads_data(ValueType::String, encode_utf8(self@), s) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { Some(Leaf::Str(encode_utf8(self@))) }
//@extract src/encoder/encodable.rs impl Encodable for str :: fn write_fleece_to
//@prop C03 C04
//@rewrite? self . as_bytes ( ) => vx_as_bytes(self)
//@rewrite? self . len ( ) => vx_str_len(self)
//@at start
    proof { lemma_ebits(); reveal(leaf_at); axiom_str_len(self); lemma_enc_len_u64(encode_utf8(self@).len() as u64); lemma_str_all(0x40u8, encode_utf8(self@)); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for str :: fn fleece_size
//@prop C03 C04
//@rewrite? self . as_bytes ( ) => vx_as_bytes(self)
//@rewrite? self . len ( ) => vx_str_len(self)
//@at start
    proof { lemma_ebits(); reveal(leaf_at); axiom_str_len(self); lemma_enc_len_u64(encode_utf8(self@).len() as u64); lemma_str_all(0x40u8, encode_utf8(self@)); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for str :: fn to_sized_value
//@prop C03 C04
//@rewrite? self . as_bytes ( ) => vx_as_bytes(self)
//@rewrite? self . len ( ) => vx_str_len(self)
//@at start
    proof { lemma_ebits(); reveal(leaf_at); axiom_str_len(self); lemma_enc_len_u64(encode_utf8(self@).len() as u64); lemma_str_all(0x40u8, encode_utf8(self@)); }
//@end
}
impl<T> Encodable for Option<T> where T: Encodable {
    open spec fn writable(&self) -> bool { match *self { Some(v) => v.writable(), None => true } }
    open spec fn small(&self) -> bool { match *self { Some(v) => v.small(), None => true } }
    open spec fn size(&self) -> nat { match *self { Some(v) => v.size(), None => 2 } }
    open spec fn wide(&self) -> nat { match *self { Some(v) => v.wide(), None => 4 } }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { match *self { Some(v) => v.reads(s, is_wide), None => NullValue.reads(s, is_wide) } }
    open spec fn sized(&self, v: SizedValue) -> bool { match *self { Some(x) => x.sized(v), None => NullValue.sized(v) } }
    open spec fn leaf(&self) -> Option<Leaf> { match *self { Some(v) => v.leaf(), None => Some(Leaf::Null) } }
//@extract src/encoder/encodable.rs impl<T> Encodable for Option<T> :: fn write_fleece_to
//@prop C02 C03 C04
//@end
//@extract src/encoder/encodable.rs impl<T> Encodable for Option<T> :: fn fleece_size
//@prop C02 C03 C04
//@end
//@extract src/encoder/encodable.rs impl<T> Encodable for Option<T> :: fn to_sized_value
//@prop C02 C03 C04
//@end
}
pub open spec fn hdr_size(n: nat) -> nat { if n >= 2047 { 2 + enc_varint(n).len() } else { 2 } }
pub open spec fn hdr_bytes(tag: u8, n: nat, wide: bool) -> Seq<u8> {
    let f = if n >= 2047 { 2047 } else { n };
    seq![(tag + (if wide { 8int } else { 0 }) + f / 256) as u8, (f % 256) as u8] + (if n >= 2047 { enc_varint(n) } else { Seq::empty() })
}
//@extract src/encoder/encodable.rs fn write_valuestack_collection
//@prop C04
//@ret r
//@contract
    requires old(buf)@.len() >= hdr_size(len as nat), tag == 0x60 || tag == 0x70
    ensures final(buf)@.len() == old(buf)@.len(), r == hdr_size(len as nat),
        final(buf)@.skip(r as int) =~= old(buf)@.skip(r as int),
        final(buf)@.take(r as int) =~= hdr_bytes(tag, len as nat, is_wide),
//@at start
    proof { lemma_ebits(); reveal(leaf_at); lemma_enc_len_u64(len as u64); }
//@end
impl Encodable for value_stack::Array {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { false }
    open spec fn size(&self) -> nat { hdr_size(self.values@.len()) }
    open spec fn wide(&self) -> nat { self.size() }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { s =~= hdr_bytes(0x60u8, self.values@.len(), is_wide) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { None }
//@extract src/encoder/encodable.rs impl Encodable for value_stack::Array :: fn write_fleece_to
//@prop C04
//@at start
    proof { lemma_enc_len_u64(self.values@.len() as u64); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for value_stack::Array :: fn fleece_size
//@prop C04
//@at start
    proof { lemma_enc_len_u64(self.values@.len() as u64); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for value_stack::Array :: fn to_sized_value
//@prop C04
//@at start
    proof { lemma_enc_len_u64(self.values@.len() as u64); }
//@end
}
impl Encodable for value_stack::Dict {
    open spec fn writable(&self) -> bool { true }
    open spec fn small(&self) -> bool { false }
    open spec fn size(&self) -> nat { hdr_size(self.values@.len()) }
    open spec fn wide(&self) -> nat { self.size() }
    open spec fn reads(&self, s: Seq<u8>, is_wide: bool) -> bool { s =~= hdr_bytes(0x70u8, self.values@.len(), is_wide) }
    open spec fn sized(&self, v: SizedValue) -> bool { inline_of(v, self.reads(v.bytes@.take(2), false)) }
    open spec fn leaf(&self) -> Option<Leaf> { None }
//@extract src/encoder/encodable.rs impl Encodable for value_stack::Dict :: fn write_fleece_to
//@prop C04
//@at start
    proof { lemma_enc_len_u64(self.values@.len() as u64); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for value_stack::Dict :: fn fleece_size
//@prop C04
//@at start
    proof { lemma_enc_len_u64(self.values@.len() as u64); }
//@end
//@extract src/encoder/encodable.rs impl Encodable for value_stack::Dict :: fn to_sized_value
//@prop C04
//@at start
    proof { lemma_enc_len_u64(self.values@.len() as u64); }
//@end
}
