/// the key a stored value stands for
#[verifier::opaque]
pub open spec fn key_at(d: Seq<u8>, p: int, n: int) -> KeyS {
    let s = d.subrange(p, p + n);
    if kind(s[0]) == ValueType::Short { KeyS::Shared(short_raw(s)) }
    else { KeyS::Str(str_at(s)) }
}
pub open spec fn str_at(s: Seq<u8>) -> Seq<u8> { if kind(s[0]) == ValueType::String && valid_utf8(data_val(s)) { data_val(s) } else { Seq::empty() } }
#[verifier::opaque]
pub open spec fn dict_key(d: Seq<u8>, p: int, n: int, i: int) -> KeyS { let t = slot_target(d, p, n, 2 * i); key_at(d, t.0, t.1) }
#[verifier::opaque]
pub open spec fn dict_val(d: Seq<u8>, p: int, n: int, i: int) -> (int, int) { slot_target(d, p, n, 2 * i + 1) }
pub open spec fn dict_len(s: Seq<u8>) -> int { c_count(s) as int / 2 }
/// keys strictly ascending
#[verifier::opaque]
pub open spec fn dict_sorted(d: Seq<u8>, p: int, n: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < dict_len(d.subrange(p, p + n)) ==> key_cmp(#[trigger] dict_key(d, p, n, i), #[trigger] dict_key(d, p, n, j)) < 0
}
