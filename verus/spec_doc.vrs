// ---------------------------------------------------------------- the document format, over plain bytes
/// what a value's first byte says it is
pub open spec fn kind(b: u8) -> ValueType {
    let hi = b / 16; let lo = b % 16;
    if hi == 0 { ValueType::Short }
    else if hi == 1 { if lo < 8 { ValueType::Int } else { ValueType::UnsignedInt } }
    else if hi == 2 { if lo % 16 >= 8 { ValueType::Double64 } else if lo >= 4 { ValueType::Double32 } else { ValueType::Float } }
    else if hi == 3 { if lo == 12 { ValueType::Undefined } else if lo == 4 { ValueType::False } else if lo == 8 { ValueType::True } else { ValueType::Null } }
    else if hi == 4 { ValueType::String }
    else if hi == 5 { ValueType::Data }
    else if hi == 6 { ValueType::Array }
    else if hi == 7 { ValueType::Dict }
    else { ValueType::Pointer }
}
pub open spec fn le_val(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_val(s.skip(1)) }
}
pub open spec fn pow256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
pub open spec fn be16(s: Seq<u8>) -> nat { s[0] as nat * 256 + s[1] as nat }
pub open spec fn be32(s: Seq<u8>) -> nat { s[0] as nat * 0x100_0000 + s[1] as nat * 0x1_0000 + s[2] as nat * 0x100 + s[3] as nat }

/// the 12 bits of a short, unsigned
pub open spec fn short_raw(s: Seq<u8>) -> nat { be16(s) % 4096 }
pub open spec fn short_val(s: Seq<u8>) -> int { if short_raw(s) >= 2048 { short_raw(s) - 4096 } else { short_raw(s) as int } }
pub open spec fn int_bytes(s: Seq<u8>) -> nat { (s[0] % 8) as nat + 1 }
/// the integer an Int / UnsignedInt value stands for
pub open spec fn int_val(s: Seq<u8>) -> int {
    let n = int_bytes(s);
    let v = le_val(s.subrange(1, 1 + n as int));
    if kind(s[0]) == ValueType::Int && s[n as int] >= 128 { v - pow256(n) } else { v as int }
}
/// the number a non-float value reads as
pub open spec fn num_val(s: Seq<u8>) -> int {
    match kind(s[0]) {
        ValueType::True => 1,
        ValueType::Short => short_val(s),
        ValueType::Int | ValueType::UnsignedInt => int_val(s),
        _ => 0,
    }
}
pub open spec fn is_float(k: ValueType) -> bool { k == ValueType::Float || k == ValueType::Double32 || k == ValueType::Double64 }

/// (position, length) of the contents of a string or data value; length is unbounded when it lies
pub open spec fn data_range(s: Seq<u8>) -> (nat, nat) {
    let lo = (s[0] % 16) as nat;
    if lo == 15 {
        let (n, v) = read_varint(s.skip(1));
        if n == 0 { (1nat, 0nat) } else { (1 + n, v) }
    } else { (1nat, lo) }
}
pub open spec fn data_val(s: Seq<u8>) -> Seq<u8> {
    let (p, n) = data_range(s);
    if p + n <= s.len() { s.subrange(p as int, (p + n) as int) } else { Seq::empty() }
}
pub open spec fn umax() -> nat { 0xffff_ffff_ffff_ffff }
pub open spec fn sat(n: nat) -> nat { if n > umax() { umax() } else { n } }
/// bytes a value needs (collections: their header)
pub open spec fn required(s: Seq<u8>) -> nat {
    match kind(s[0]) {
        ValueType::Int | ValueType::UnsignedInt => 1 + int_bytes(s),
        ValueType::Float | ValueType::Double32 => 6,
        ValueType::Double64 => 10,
        ValueType::String | ValueType::Data => {
            let lo = (s[0] % 16) as nat;
            if lo <= 1 { 2 }
            else if lo == 15 {
                let (n, v) = read_varint(s.skip(1));
                if n == 0 { 2 } else { sat(1 + n + v) }
            } else { 1 + lo }
        }
        _ => 2,
    }
}
/// a value whose own bytes are all there
pub open spec fn scalar_ok(s: Seq<u8>) -> bool { s.len() >= 2 && required(s) <= s.len() }
pub open spec fn f64_bits(s: Seq<u8>) -> f64 { f64_of_bits(le_val(s.subrange(2, 10)) as u64) }
pub open spec fn f32_bits(s: Seq<u8>) -> f32 { f32_of_bits(le_val(s.subrange(2, 6)) as u32) }
/// what a value which is not a collection stands for
pub enum Leaf { Null, Undefined, Bool(bool), Num(int), Float(f32), Double(f64), Str(Seq<u8>), Data(Seq<u8>) }
pub open spec fn leaf(s: Seq<u8>) -> Option<Leaf> {
    match kind(s[0]) {
        ValueType::Null => Some(Leaf::Null),
        ValueType::Undefined => Some(Leaf::Undefined),
        ValueType::True => Some(Leaf::Bool(true)),
        ValueType::False => Some(Leaf::Bool(false)),
        ValueType::Short | ValueType::Int | ValueType::UnsignedInt => Some(Leaf::Num(num_val(s))),
        ValueType::Float | ValueType::Double32 => Some(Leaf::Float(f32_bits(s))),
        ValueType::Double64 => Some(Leaf::Double(f64_bits(s))),
        ValueType::String => Some(Leaf::Str(data_val(s))),
        ValueType::Data => Some(Leaf::Data(data_val(s))),
        _ => None,
    }
}
/// its contents are all there
pub open spec fn readable(s: Seq<u8>) -> bool {
    kind(s[0]) == ValueType::String || kind(s[0]) == ValueType::Data ==> (s[0] % 16 == 15 ==> read_varint(s.skip(1)).0 > 0) && data_range(s).0 + data_range(s).1 <= s.len()
}
/// s holds a whole value which stands for l
#[verifier::opaque]
pub open spec fn leaf_at(s: Seq<u8>, l: Leaf) -> bool { scalar_ok(s) && leaf(s) == Some(l) && readable(s) }
// ---- collections
pub open spec fn c_wide(s: Seq<u8>) -> bool { s[0] % 16 >= 8 }
pub open spec fn c_width(s: Seq<u8>) -> int { if c_wide(s) { 4 } else { 2 } }
pub open spec fn c_field(s: Seq<u8>) -> nat { be16(s) % 2048 }
/// number of slots
pub open spec fn c_count(s: Seq<u8>) -> nat {
    if c_field(s) == 2047 {
        let (n, v) = read_varint(s.skip(2));
        if n == 0 { 0 } else if kind(s[0]) == ValueType::Dict { sat(2 * v) } else { v }
    } else if kind(s[0]) == ValueType::Dict { 2 * c_field(s) } else { c_field(s) }
}
/// where the first slot is
pub open spec fn c_first(s: Seq<u8>) -> nat {
    if c_field(s) == 2047 {
        let n = read_varint(s.skip(2)).0;
        2 + n + n % 2
    } else { 2 }
}
pub open spec fn c_slot(s: Seq<u8>, i: int) -> int { c_first(s) + i * c_width(s) }
// ---- pointers
pub open spec fn ptr_off(s: Seq<u8>, wide: bool) -> nat {
    if wide { (be32(s) % 0x4000_0000) * 2 } else { (be16(s) % 0x4000) * 2 }
}
pub open spec fn ptr_external(s: Seq<u8>) -> bool { (s[0] / 64) % 2 == 1 }
/// the end of the chain of pointers at p: (position, length of the region it may use)
pub open spec fn target(d: Seq<u8>, p: int, wide: bool) -> Option<(int, int)> decreases p {
    let s = d.subrange(p, d.len() as int);
    let off = ptr_off(s, wide);
    if p <= 0 || off == 0 || ptr_external(s) || off > p { None }
    else if kind(d[p - off]) == ValueType::Pointer { if off < 4 { None } else { target(d, p - off, true) } }
    else { Some((p - off, off as int)) }
}
/// the region [p, p+n) of d holds a valid value
#[verifier::opaque]
pub open spec fn valid(d: Seq<u8>, p: int, n: int, wide: bool) -> bool decreases p + n, n {
    let s = d.subrange(p, p + n);
    0 <= p && 2 <= n && p + n <= d.len() && match kind(s[0]) {
        ValueType::Array | ValueType::Dict => {
            c_first(s) + c_count(s) * c_width(s) <= n
            && forall|i: int| 0 <= i < c_count(s) ==> (#[trigger] slot_inside(s, p, n, i)) && valid(d, p + c_slot(s, i), c_width(s), c_wide(s))
        }
        ValueType::Pointer => (wide ==> n >= 4) && match target(d, p, wide) {
            Some((tp, tn)) => 0 <= tp && 0 <= tn && tp + tn <= p && valid(d, tp, tn, false),
            None => false,
        },
        _ => required(s) <= n,
    }
}
pub open spec fn slot_inside(s: Seq<u8>, p: int, n: int, i: int) -> bool {
    c_first(s) >= 2 && c_slot(s, i) + c_width(s) <= n && c_slot(s, i) >= 2
}
/// what slot i of the collection in the region resolves to
pub open spec fn slot_target(d: Seq<u8>, p: int, n: int, i: int) -> (int, int) {
    let s = d.subrange(p, p + n);
    resolve(d, p + c_slot(s, i), c_width(s))
}
pub open spec fn resolve(d: Seq<u8>, q: int, w: int) -> (int, int) {
    if kind(d[q]) == ValueType::Pointer { match target(d, q, w == 4) { Some(r) => r, None => (q, w) } } else { (q, w) }
}
pub proof fn lemma_target(d: Seq<u8>, p: int, wide: bool)
    ensures match target(d, p, wide) {
        Some((tp, tn)) => 0 <= tp && tn >= 2 && tp + tn <= p && tn % 2 == 0 && kind(d[tp]) != ValueType::Pointer,
        None => true,
    }
    decreases p
{
    let s = d.subrange(p, d.len() as int);
    let off = ptr_off(s, wide);
    if !(p <= 0 || off == 0 || ptr_external(s) || off > p) && kind(d[p - off]) == ValueType::Pointer && off >= 4 {
        lemma_target(d, p - off, true);
    }
}

/// the region of the root value
pub open spec fn root(d: Seq<u8>) -> Option<(int, int)> {
    if d.len() < 2 || d.len() % 2 != 0 { None }
    else if kind(d[d.len() - 2]) == ValueType::Pointer { target(d, d.len() - 2, false) }
    else if d.len() == 2 { Some((0, 2)) } else { None }
}

/// what `valid` says, one level deep
pub proof fn lemma_valid(d: Seq<u8>, p: int, n: int)
    ensures
        forall|w: bool| #![trigger valid(d, p, n, w)] valid(d, p, n, w) ==> 0 <= p && 2 <= n && p + n <= d.len() && required(d.subrange(p, p + n)) <= n,
        forall|w: bool| #![trigger valid(d, p, n, w)] 0 <= p && 2 <= n && p + n <= d.len() ==> {
            let s = d.subrange(p, p + n);
            valid(d, p, n, w) == match kind(s[0]) {
                ValueType::Array | ValueType::Dict => c_first(s) + c_count(s) * c_width(s) <= n && valid_slots(d, p, n),
                ValueType::Pointer => (w ==> n >= 4) && match target(d, p, w) { Some((tp, tn)) => valid(d, tp, tn, w), None => false },
                _ => required(s) <= n,
            }
        },
{
    reveal(valid);
    assert forall|w: bool| 0 <= p && 2 <= n && p + n <= d.len() implies {
            let s = d.subrange(p, p + n);
            #[trigger] valid(d, p, n, w) == match kind(s[0]) {
                ValueType::Array | ValueType::Dict => c_first(s) + c_count(s) * c_width(s) <= n && valid_slots(d, p, n),
                ValueType::Pointer => (w ==> n >= 4) && match target(d, p, w) { Some((tp, tn)) => valid(d, tp, tn, w), None => false },
                _ => required(s) <= n,
            } } by {
        let s = d.subrange(p, p + n);
        lemma_read_within(s.skip(2));
        if c_first(s) + c_count(s) * c_width(s) <= n {
            lemma_slots(s, p, n);
            assert(c_first(s) >= 2);
            if valid(d, p, n, w) && (kind(s[0]) == ValueType::Array || kind(s[0]) == ValueType::Dict) {
                assert forall|i: int| 0 <= i < c_count(s) implies valid(d, p + #[trigger] c_slot(s, i), c_width(s), c_wide(s)) by {
                    assert(slot_inside(s, p, n, i));
                }
            }
        }
        lemma_target(d, p, w);
        match target(d, p, w) {
            Some((tp, tn)) => {
                assert(d.subrange(tp, tp + tn)[0] == d[tp]);
                assert(valid(d, tp, tn, w) == valid(d, tp, tn, false));
            }
            None => {}
        }
    }
}
pub open spec fn valid_slots(d: Seq<u8>, p: int, n: int) -> bool {
    let s = d.subrange(p, p + n);
    forall|i: int| 0 <= i < c_count(s) ==> valid(d, p + #[trigger] c_slot(s, i), c_width(s), c_wide(s))
}
/// where the slots of a collection lie
pub proof fn lemma_slots(s: Seq<u8>, p: int, n: int)
    requires c_first(s) + c_count(s) * c_width(s) <= n
    ensures forall|i: int| 0 <= i <= c_count(s) ==> c_first(s) <= #[trigger] c_slot(s, i) <= n,
        forall|i: int| 0 <= i < c_count(s) ==> #[trigger] c_slot(s, i) + c_width(s) <= n,
        forall|i: int| #[trigger] c_slot(s, i + 1) == c_slot(s, i) + c_width(s),
        forall|i: int| c_first(s) >= 2 && 0 <= i < c_count(s) ==> #[trigger] slot_inside(s, p, n, i),
        c_slot(s, 0) == c_first(s),
{
    let w = c_width(s); let c = c_count(s) as int;
    assert forall|i: int| 0 <= i <= c_count(s) implies c_first(s) <= #[trigger] c_slot(s, i) <= n by {
        assert(0 <= i * w <= c * w) by (nonlinear_arith) requires 0 <= i <= c, w >= 0;
    }
    assert forall|i: int| 0 <= i < c_count(s) implies #[trigger] c_slot(s, i) + w <= n by {
        assert((i + 1) * w <= c * w && (i + 1) * w == i * w + w) by (nonlinear_arith) requires 0 <= i < c, w >= 0;
    }
    assert forall|i: int| #[trigger] c_slot(s, i + 1) == c_slot(s, i) + w by {
        assert((i + 1) * w == i * w + w) by (nonlinear_arith);
    }
    assert forall|i: int| c_first(s) >= 2 && 0 <= i < c_count(s) implies #[trigger] slot_inside(s, p, n, i) by {
        assert((i + 1) * w <= c * w && (i + 1) * w == i * w + w && 0 <= i * w) by (nonlinear_arith) requires 0 <= i < c, w >= 0;
    }
}
