// ---------------------------------------------------------------- shared keys: strings numbered 0, 1, ... in order of insertion
pub open spec fn sk_ok(sk: Seq<Seq<u8>>) -> bool { sk.len() <= 2048 && forall|i: int, j: int| 0 <= i < j < sk.len() ==> #[trigger] sk[i] != #[trigger] sk[j] }
pub open spec fn sk_encode(sk: Seq<Seq<u8>>, key: Seq<u8>) -> Option<u16> { if sk.contains(key) { Some(sk.index_of(key) as u16) } else { None } }
pub open spec fn sk_decode(sk: Seq<Seq<u8>>, key: u16) -> Option<Seq<u8>> { if key < sk.len() { Some(sk[key as int]) } else { None } }
/// char::is_alphanumeric
pub uninterp spec fn alnum(c: char) -> bool;
pub open spec fn key_chars(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> alnum(#[trigger] s[i]) || s[i] == '_' || s[i] == '-' }
/// the strings which may be shared keys
pub open spec fn key_fits(s: Seq<char>) -> bool { encode_utf8(s).len() <= 16 && key_chars(s) }
pub open spec fn key_fits_bytes(s: Seq<u8>) -> bool { valid_utf8(s) && key_fits(decode_utf8(s)) }
/// what inserting a string does
pub open spec fn sk_insert(sk: Seq<Seq<u8>>, key: Seq<u8>) -> Option<Seq<Seq<u8>>> {
    if sk.contains(key) { Some(sk) } else if sk.len() < 2048 && key_fits_bytes(key) { Some(sk.push(key)) } else { None }
}
pub proof fn lemma_sk_find(sk: Seq<Seq<u8>>, i: int)
    requires sk_ok(sk), 0 <= i < sk.len()
    ensures sk_encode(sk, sk[i]) == Some(i as u16)
{
    let j = sk.index_of(sk[i]);
    assert(sk.contains(sk[i]));
    if j < i { assert(sk[j] != sk[i]); } else if i < j { assert(sk[i] != sk[j]); }
}
