// ---------------------------------------------------------------- iteration
//@item src/shared_keys.rs struct Iter
//@rewrite ( folklore :: Iter => ( pub HashMapIter
impl<'sk> Iter<'sk> {
    pub open spec fn ok(&self) -> bool { SharedKeys(self.0.map()).wf() && 0 <= self.0.index() <= self.keys().len() }
    pub open spec fn keys(&self) -> Seq<Seq<u8>> { SharedKeys(self.0.map())@ }
//@extract src/shared_keys.rs impl < 'sk > Iterator for Iter < 'sk > :: fn next
//@prop C10
//@sig Self :: Item => (&'sk str, u16)
//@rewrite $$a . map ( | ( $k , $v ) | $$e ) => match $$a { Some(($k, $v)) => Some($$e), None => None }
//@ret r
//@contract
    requires old(self).ok(),
    ensures final(self).ok(), final(self).keys() == old(self).keys(), match r {
        Some(e) => old(self).0.index() < old(self).keys().len() && e.1 == old(self).0.index() && encode_utf8(e.0@) == old(self).keys()[e.1 as int] && final(self).0.index() == old(self).0.index() + 1,
        None => old(self).0.index() == old(self).keys().len() && final(self).0.index() == old(self).0.index(),
    },
//@end
}
impl SharedKeys {
//@extract src/shared_keys.rs impl < 'sk > IntoIterator for & 'sk SharedKeys :: fn into_iter
//@prop C10
//@sig ( self ) -> Self :: IntoIter => <'sk>(&'sk self) -> Iter<'sk>
//@ret r
//@contract
    requires self.wf(),
    ensures r.ok(), r.keys() == self@, r.0.index() == 0,
//@end
//@extract src/shared_keys.rs impl SharedKeys :: fn iter
//@prop C10
//@sig < & Self as IntoIterator > :: IntoIter => Iter<'_>
//@ret r
//@contract
    requires self.wf(),
    ensures r.ok(), r.keys() == self@, r.0.index() == 0,
//@end
}
// ---------------------------------------------------------------- what the contracts add up to
pub open spec fn texts(ops: Seq<&str>) -> Seq<Seq<u8>> { Seq::new(ops.len(), |i: int| encode_utf8(ops[i]@)) }
/// the strings numbered after a history of insertions
pub open spec fn history(ops: Seq<Seq<u8>>) -> Seq<Seq<u8>> decreases ops.len() {
    if ops.len() == 0 { Seq::empty() } else { let a = history(ops.drop_last()); match sk_insert(a, ops.last()) { Some(b) => b, None => a } }
}
/// only what has been inserted has a number
pub proof fn lemma_history(ops: Seq<Seq<u8>>, k: Seq<u8>)
    requires history(ops).contains(k)
    ensures ops.contains(k), key_fits_bytes(k)
    decreases ops.len()
{
    if ops.len() > 0 {
        let a = history(ops.drop_last());
        if a.contains(k) { lemma_history(ops.drop_last(), k); let i = ops.drop_last().index_of(k); assert(ops[i] == k); }
        else { let b = a.push(ops.last()); let i = b.index_of(k); assert(i == a.len()) by { if i < a.len() { assert(a[i] == k); } } assert(ops[ops.len() - 1] == k); }
    }
}
/// C10: whatever is inserted, in whatever order
//@thm C10
fn thm_history(ops: &Vec<&str>, probe: &str, num: u16)
{
    let mut sk = SharedKeys::new();
    let mut i: usize = 0;
    let ghost ts = texts(ops@);
    proof { assert(ts.take(0) =~= Seq::empty()); }
    while i < ops.len()
        invariant i <= ops@.len(), ts == texts(ops@), sk.wf(), sk@ == history(ts.take(i as int)),
        decreases ops@.len() - i
    {
        let ghost old = sk@;
        let key = ops[i];
        proof { lemma_wf(sk); assert(ts.take(i + 1).drop_last() =~= ts.take(i as int)); assert(ts.take(i + 1).last() == encode_utf8(key@)); lemma_fits(key@); }
        let before = sk.len();
        let known = sk.encode(key);
        let can = sk.can_add(key);
        let r = sk.encode_and_insert(key);
        let after = sk.len();
        // numbers are kept forever
        assert forall|j: int| 0 <= j < old.len() implies j < sk@.len() && #[trigger] sk@[j] == old[j] by {}
        match known {
            Some(k) => { assert(r == Some(k) && sk@ == old); }
            None => {
                proof { lemma_wf(sk); if old.contains(encode_utf8(key@)) { assert(sk_encode(old, encode_utf8(key@)) is Some); } }
                if can {
                    // the next unused number
                    proof { lemma_sk_find(sk@, before as int); }
                    assert(r == Some(before) && after == before + 1);
                    assert(sk@[before as int] == encode_utf8(key@));
                } else {
                    assert(r.is_none() && sk@ == old && after == before);
                    assert(before >= 2048 || !key_fits(key@));
                }
            }
        }
        i += 1;
    }
    proof { lemma_wf(sk); assert(ts.take(i as int) =~= ts); }
    let n = sk.len();
    assert(n <= 2048);
    // a number decodes to the string it was given to, and only such a number decodes
    let d = sk.decode(num);
    assert(d.is_some() == (num < n));
    match d {
        Some(s) => {
            let back = sk.encode(s);
            proof { lemma_sk_find(sk@, num as int); }
            assert(back == Some(num));
        }
        None => {}
    }
    // a string has a number only if it was inserted, and the number decodes to it
    let e = sk.encode(probe);
    match e {
        Some(k) => {
            proof { let s = encode_utf8(probe@); assert(sk@.contains(s)); let j = sk@.index_of(s); assert(sk@[j] == s); lemma_sk_find(sk@, j); lemma_history(ts, s); assert(k == j); }
            assert(exists|j: int| 0 <= j < ops@.len() && encode_utf8(#[trigger] ops@[j]@) == encode_utf8(probe@)) by { let j = ts.index_of(encode_utf8(probe@)); assert(encode_utf8(ops@[j]@) == ts[j]); }
            let s = sk.decode(k);
            assert(s.is_some());
            assert(encode_utf8(s.unwrap()@) == encode_utf8(probe@));
        }
        None => {}
    }
    // iteration gives every string with its number, in order
    let mut it = sk.iter();
    let mut j: u16 = 0;
    while j < n
        invariant j <= n, n == sk@.len(), it.ok(), it.keys() == sk@, it.0.index() == j, n <= 2048
        decreases n - j
    {
        let e = it.next();
        assert(e.is_some());
        assert(e.unwrap().1 == j && encode_utf8(e.unwrap().0@) == sk@[j as int]);
        j += 1;
    }
    let end = it.next();
    assert(end.is_none());
}
