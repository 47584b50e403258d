pub proof fn lemma_fits(s: Seq<char>)
    ensures key_fits_bytes(encode_utf8(s)) == key_fits(s)
{ encode_utf8_decode_utf8(s); encode_utf8_valid_utf8(s); }
impl SharedKeys {
//@extract src/shared_keys.rs impl SharedKeys :: fn new
//@prop C10
//@ret r
//@contract
    ensures r.wf(), r@ == Seq::<Seq<u8>>::empty(),
//@end
//@extract src/shared_keys.rs impl SharedKeys :: fn len
//@prop C10
//@ret r
//@contract
    requires self.wf(),
    ensures r == self@.len(),
//@end
//@extract src/shared_keys.rs impl SharedKeys :: fn is_empty
//@prop C10
//@ret r
//@contract
    requires self.wf(),
    ensures r == (self@.len() == 0),
//@end
//@extract src/shared_keys.rs impl SharedKeys :: fn can_add
//@prop C10
//@ret r
//@contract
    requires self.wf(),
    ensures r == (self@.len() < 2048 && key_fits(key@)),
//@end
//@extract src/shared_keys.rs impl SharedKeys :: fn fits
//@prop C10
//@rewrite? key . len ( ) => vx_bytes_len(key)
//@ret r
//@contract
    ensures r == key_fits(key@),
//@end
//@extract src/shared_keys.rs impl SharedKeys :: fn can_encode
//@prop C10
//@rewrite? key . chars ( ) . all ( | $c | $$e ) => vx_all(key, |$c: char| -> (vx_b: bool) ensures vx_b == (alnum($c) || $c == '_' || $c == '-') { $$e })
//@rewrite? $c . is_alphanumeric ( ) => vx_alnum($c)
//@ret r
//@contract
    ensures r == key_chars(key@),
//@end
//@extract src/shared_keys.rs impl Default for SharedKeys :: fn default
//@prop C10
//@ret r
//@contract
    ensures r.wf(), r@ == Seq::<Seq<u8>>::empty(),
//@at start
    proof { assert forall|h: HashMap<zstr<17>, u16>| h@.len() == 0 implies #[trigger] SharedKeys(h)@ =~= Seq::<Seq<u8>>::empty() by {} }
//@end
//@extract src/shared_keys.rs impl Clone for SharedKeys :: fn clone
//@prop C10
//@ret r
//@contract
    requires self.wf(),
    ensures r.wf(), r@ == self@,
//@end
}
