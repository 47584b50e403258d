impl SharedKeys {
//@extract src/shared_keys.rs impl SharedKeys :: fn encode
//@prop C10 C09 C14
//@ret r
//@contract
    requires self.wf(),
    ensures r == sk_encode(self@, encode_utf8(string_key@)),
//@at start
    proof { lemma_wf(*self); lemma_fits(string_key@); broadcast use axiom_alnum; assert(self@.contains(encode_utf8(string_key@)) == self.0.has(string_key@)); }
//@end
//@extract src/shared_keys.rs impl SharedKeys :: fn encode_and_insert
//@prop C10 C09 C14
//@ret r
//@contract
    requires old(self).wf(),
    ensures final(self).wf(),
        match sk_insert(old(self)@, encode_utf8(key@)) { Some(sk) => final(self)@ == sk && r == sk_encode(sk, encode_utf8(key@)), None => final(self)@ == old(self)@ && r.is_none() },
//@at start
    proof { lemma_wf(*self); lemma_fits(key@); broadcast use axiom_alnum; assert(self@.contains(encode_utf8(key@)) == self.0.has(key@)); }
    let ghost k = key@;
//@before Some ( index )
    proof { assert(self@ =~= old(self)@.push(encode_utf8(k))); lemma_wf(*self); assert(self.0@[index as int].0 == k); }
//@end
//@extract src/shared_keys.rs impl SharedKeys :: fn decode
//@prop C10 C09 C14
//@rewrite? $$a . map ( zstr :: as_str ) => match $$a { Some(vx_x) => Some(vx_x.as_str()), None => None }
//@ret r
//@contract
    requires self.wf(),
    ensures match r { Some(s) => sk_decode(self@, int_key) == Some(encode_utf8(s@)), None => sk_decode(self@, int_key).is_none() },
//@at start
    proof { lemma_wf(*self); }
//@end
}
