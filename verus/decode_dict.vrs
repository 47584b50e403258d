// ---------------------------------------------------------------- dictionaries
//@include spec_keys.vrs
use core::cmp::Ordering;
//@item src/value/dict.rs enum Key
//@global dict :: Key => Key
pub open spec fn key_spec(k: Key) -> KeyS { match k { Key::Shared(n) => KeyS::Shared(n as nat), Key::String(s) => KeyS::Str(encode_utf8(s@)) } }
//@include spec_dict.vrs
/// k is above (below) every key before (from) slot pair m
#[verifier::opaque]
pub open spec fn keys_below(d: Seq<u8>, p: int, n: int, k: KeyS, m: int) -> bool { forall|i: int| 0 <= i < m ==> key_cmp(k, #[trigger] dict_key(d, p, n, i)) > 0 }
#[verifier::opaque]
pub open spec fn keys_above(d: Seq<u8>, p: int, n: int, k: KeyS, m: int) -> bool { forall|i: int| m <= i < dict_len(d.subrange(p, p + n)) ==> key_cmp(k, #[trigger] dict_key(d, p, n, i)) < 0 }
pub open spec fn key_absent(d: Seq<u8>, p: int, n: int, k: KeyS) -> bool { forall|i: int| 0 <= i < dict_len(d.subrange(p, p + n)) ==> #[trigger] dict_key(d, p, n, i) != k }
/// what one comparison of a binary search tells
pub proof fn lemma_search(d: Seq<u8>, p: int, n: int, k: KeyS)
    ensures keys_below(d, p, n, k, 0), keys_above(d, p, n, k, dict_len(d.subrange(p, p + n))),
        forall|m: int| #![trigger dict_key(d, p, n, m)] 0 <= m < dict_len(d.subrange(p, p + n)) ==> {
            &&& key_cmp(k, dict_key(d, p, n, m)) == 0 ==> dict_key(d, p, n, m) == k
            &&& dict_sorted(d, p, n) && key_cmp(k, dict_key(d, p, n, m)) > 0 ==> keys_below(d, p, n, k, m + 1)
            &&& dict_sorted(d, p, n) && key_cmp(k, dict_key(d, p, n, m)) < 0 ==> keys_above(d, p, n, k, m)
        },
        forall|m: int| keys_below(d, p, n, k, m) && #[trigger] keys_above(d, p, n, k, m) ==> key_absent(d, p, n, k),
{
    reveal(keys_below); reveal(keys_above); reveal(dict_sorted);
    lemma_key_cmp();
    assert forall|m: int| #![trigger dict_key(d, p, n, m)] 0 <= m < dict_len(d.subrange(p, p + n)) implies {
            &&& key_cmp(k, dict_key(d, p, n, m)) == 0 ==> dict_key(d, p, n, m) == k
            &&& dict_sorted(d, p, n) && key_cmp(k, dict_key(d, p, n, m)) > 0 ==> keys_below(d, p, n, k, m + 1)
            &&& dict_sorted(d, p, n) && key_cmp(k, dict_key(d, p, n, m)) < 0 ==> keys_above(d, p, n, k, m)
        } by {
        let km = dict_key(d, p, n, m);
        if dict_sorted(d, p, n) && key_cmp(k, km) > 0 {
            assert forall|i: int| 0 <= i < m + 1 implies key_cmp(k, #[trigger] dict_key(d, p, n, i)) > 0 by {
                let ki = dict_key(d, p, n, i);
                if i < m { assert(key_cmp(ki, km) < 0); lemma_key_trans(ki, km, k); }
            }
        }
        if dict_sorted(d, p, n) && key_cmp(k, km) < 0 {
            assert forall|i: int| m <= i < dict_len(d.subrange(p, p + n)) implies key_cmp(k, #[trigger] dict_key(d, p, n, i)) < 0 by {
                let ki = dict_key(d, p, n, i);
                if m < i { assert(key_cmp(km, ki) < 0); lemma_key_trans(k, km, ki); }
            }
        }
    }
    assert forall|m: int| keys_below(d, p, n, k, m) && #[trigger] keys_above(d, p, n, k, m) implies key_absent(d, p, n, k) by {
        assert forall|i: int| 0 <= i < dict_len(d.subrange(p, p + n)) implies #[trigger] dict_key(d, p, n, i) != k by {
            if i < m { assert(key_cmp(k, dict_key(d, p, n, i)) > 0); } else { assert(key_cmp(k, dict_key(d, p, n, i)) < 0); }
        }
    }
}
#[verifier::inline]
pub open spec fn search_facts(p: int, n: int, k: KeyS) -> bool {
        forall|m: int| #![trigger dict_key(doc(), p, n, m)] 0 <= m < dict_len(doc().subrange(p, p + n)) ==> {
            &&& key_cmp(k, dict_key(doc(), p, n, m)) == 0 ==> dict_key(doc(), p, n, m) == k
            &&& dict_sorted(doc(), p, n) && key_cmp(k, dict_key(doc(), p, n, m)) > 0 ==> keys_below(doc(), p, n, k, m + 1)
            &&& dict_sorted(doc(), p, n) && key_cmp(k, dict_key(doc(), p, n, m)) < 0 ==> keys_above(doc(), p, n, k, m)
        }
}
impl Dict {
    pub open spec fn key(&self, i: int) -> KeyS { dict_key(doc(), self.pos(), self.n(), i) }
    pub open spec fn val(&self, i: int) -> (int, int) { dict_val(doc(), self.pos(), self.n(), i) }
    pub open spec fn sorted(&self) -> bool { dict_sorted(doc(), self.pos(), self.n()) }
    pub open spec fn length(&self) -> int { dict_len(self@) }
    /// r is the value under k; absent only if no key of a sorted dictionary is k
    pub open spec fn looked_up(&self, k: KeyS, r: Option<&Value>) -> bool {
        match r {
            Some(v) => v.ok() && exists|i: int| 0 <= i < self.length() && #[trigger] self.key(i) == k && self.val(i) == (v.pos(), v.n()),
            None => self.sorted() ==> key_absent(doc(), self.pos(), self.n(), k),
        }
    }
}
pub assume_specification [<Ordering as PartialEq>::eq] (a: &Ordering, b: &Ordering) -> (r: bool) ensures r == (*a == *b);
/// str::cmp is byte-wise
#[verifier::external_body]
pub fn vx_str_cmp(a: &str, b: &str) -> (r: Ordering) ensures ord_int(r) == lex(encode_utf8(a@), encode_utf8(b@)) { unimplemented!() }
pub fn vx_u16_cmp(a: u16, b: u16) -> (r: Ordering) ensures ord_int(r) == (if a < b { -1int } else if a > b { 1 } else { 0 }) {
    if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal }
}
/// the shared keys of the scope the document lies in, if any
pub uninterp spec fn scope_keys() -> Option<SharedKeys>;
/// the longer lifetime the code gives to a string of its shared keys
#[verifier::external_body]
pub fn vx_extend<'a, 'b>(s: &'b str) -> (r: &'a str) ensures r == s { unimplemented!() }

impl Value {
//@extract src/value/mod.rs impl Value :: fn dict_key_cmp
//@prop C07 C09 C04
//@rewrite? ( * key ) . cmp ( $$x ) => vx_str_cmp(*key, $$x)
//@rewrite? key . cmp ( & $$x ) => vx_u16_cmp(*key, $$x)
//@ret r
//@contract
    requires value2.ok(),
    ensures ord_int(r) == key_cmp(key_spec(*value1), key_at(doc(), value2.pos(), value2.n())),
//@at start
    proof { reveal(key_at); lemma_ok(value2.pos(), value2.n()); lemma_bits16(); lemma_short(value2@); }
//@end
}
impl Dict {
//@extract src/value/dict.rs impl Dict :: fn is_wide
//@prop C07 C09 C04
//@ret r
//@contract
    requires self.n() >= 1,
    ensures r == c_wide(self@),
//@end
//@extract src/value/dict.rs impl Dict :: fn width
//@prop C07 C09 C04
//@ret r
//@contract
    requires self.n() >= 1,
    ensures r == c_width(self@),
//@end
//@extract src/value/dict.rs impl Dict :: fn len
//@prop C07 C09 C04
//@ret r
//@contract
    requires self.n() >= 2,
    ensures r == self.length(),
//@end
//@extract src/value/dict.rs impl Dict :: fn is_empty
//@prop C07 C09 C04
//@ret r
//@contract
    requires self.n() >= 2,
    ensures r == (c_count(self@) == 0),
//@end
//@extract src/value/dict.rs impl Dict :: fn _get_unchecked
//@prop C07 C09 C04
//@ret r
//@contract
    requires self.ok(), index < self.length(),
    ensures key_at(doc(), r.0.pos(), r.0.n()) == self.key(index as int), (r.1.pos(), r.1.n()) == self.val(index as int), r.0.ok(), r.1.ok(),
//@at start
    proof { reveal(dict_key); reveal(dict_val); lemma_ok(self.pos(), self.n()); assert(c_slot(self@, 2 * index as int + 1) >= 0); }
//@end
//@extract src/value/dict.rs impl Dict :: fn first
//@prop C07 C09 C04
//@ret r
//@contract
    requires self.ok(),
    ensures r.is_some() == (self.length() > 0),
        match r { Some(e) => key_at(doc(), e.0.pos(), e.0.n()) == self.key(0) && (e.1.pos(), e.1.n()) == self.val(0) && e.0.ok() && e.1.ok(), None => true },
//@at start
    proof { lemma_ok(self.pos(), self.n()); }
//@end
//@extract src/value/dict.rs impl Dict :: fn uses_shared_keys
//@prop C07 C09 C04
//@ret r
//@contract
    requires self.ok(),
    ensures r == (self.length() > 0 && self.key(0) is Shared),
//@at start
    proof { reveal(key_at); lemma_ok(self.pos(), self.n()); }
//@end
//@extract src/value/dict.rs impl Dict :: fn _get
//@prop C07 C09 C04
//@ret r
//@contract
    requires self.ok(),
    ensures self.looked_up(key_spec(*key), r),
//@at start
    proof { lemma_ok(self.pos(), self.n()); lemma_search(doc(), self.pos(), self.n(), key_spec(*key)); }
//@loop 1
    invariant
        self.ok(), left <= right <= self.length(), size == right - left, self.length() <= isize::MAX,
        self.sorted() ==> keys_below(doc(), self.pos(), self.n(), key_spec(*key), left as int) && keys_above(doc(), self.pos(), self.n(), key_spec(*key), right as int),
        search_facts(self.pos(), self.n(), key_spec(*key)),
    decreases right - left
//@end
}
impl Dict {
//@extract src/value/dict.rs impl Dict :: fn find_shared_keys
//@prop C07 C09 C04
//@stub
//@sig Option < Arc < SharedKeys > > => Option<&SharedKeys>
//@ret r
//@contract
    ensures match r { Some(k) => scope_keys() == Some(*k), None => scope_keys().is_none() },
//@end
//@extract src/value/dict.rs impl Dict :: fn encode_key
//@prop C07 C09 C04
//@rewrite? self . find_shared_keys ( ) . and_then ( | $s | $$e ) => match self.find_shared_keys() { Some($s) => $$e, None => None }
//@ret r
//@contract
    requires self.ok(),
    ensures match shared_keys {
        Some(sk) => key_spec(r) == (match sk_encode(sk@, encode_utf8(key@)) { Some(k) => KeyS::Shared(k as nat), None => KeyS::Str(encode_utf8(key@)) }),
        None => key_spec(r) == self.scope_key(encode_utf8(key@)),
    }, match r { Key::String(s) => s@ == key@, _ => true },
//@end
//@extract src/value/dict.rs impl Dict :: fn _get_encoded
//@prop C07 C09 C04
//@rewrite? self . _get ( $$a ) . or_else ( | | $$b ) => match self._get($$a) { Some(vx_v) => Some(vx_v), None => $$b }
//@ret r
//@contract
    requires self.ok(),
    ensures self.found(encode_utf8(key@), shared_keys, r),
//@at start
    proof { lemma_ok(self.pos(), self.n()); self.lemma_found(encode_utf8(key@), shared_keys); }
//@end
}
impl Dict {
    /// the key a string has in this dictionary, by the shared keys of its scope
    pub open spec fn scope_key(&self, key: Seq<u8>) -> KeyS {
        if self.length() > 0 && self.key(0) is Shared && scope_keys().is_some() {
            match sk_encode(scope_keys().unwrap()@, key) { Some(k) => KeyS::Shared(k as nat), None => KeyS::Str(key) }
        } else { KeyS::Str(key) }
    }
    pub open spec fn keyed(&self, key: Seq<u8>, sk: Option<&SharedKeys>) -> KeyS {
        match sk {
            Some(sk) => match sk_encode(sk@, key) { Some(k) => KeyS::Shared(k as nat), None => KeyS::Str(key) },
            None => self.scope_key(key),
        }
    }
    /// r is what is stored under the shared key of the string if there is one, else under the string
    pub open spec fn found(&self, key: Seq<u8>, sk: Option<&SharedKeys>, r: Option<&Value>) -> bool {
        match r {
            Some(v) => v.ok() && exists|i: int| 0 <= i < self.length() && (#[trigger] self.key(i) == self.keyed(key, sk) || self.key(i) == KeyS::Str(key)) && self.val(i) == (v.pos(), v.n()),
            None => self.sorted() ==> key_absent(doc(), self.pos(), self.n(), self.keyed(key, sk)) && key_absent(doc(), self.pos(), self.n(), KeyS::Str(key)),
        }
    }
    pub proof fn lemma_found(&self, key: Seq<u8>, sk: Option<&SharedKeys>)
        ensures forall|r: Option<&Value>| (self.looked_up(self.keyed(key, sk), r) && r.is_some()) ==> #[trigger] self.found(key, sk, r),
            forall|r: Option<&Value>| (self.looked_up(KeyS::Str(key), r) && r.is_some()) ==> #[trigger] self.found(key, sk, r),
    {}
}
// iteration over pairs
//@item src/value/dict.rs struct Iter
//@rewrite struct Iter => pub struct DictIter
//@rewrite? pub ( crate ) => pub
//@rewrite? array :: Iter => Iter
//@item src/value/dict.rs struct SharedKeyIter
//@rewrite struct SharedKeyIter => pub struct SharedKeyIter
//@rewrite? pub ( crate ) => pub
//@rewrite? array :: Iter => Iter
//@rewrite? shared_keys : Arc < SharedKeys > => pub shared_keys: &'a SharedKeys
/// what slot i of the array being iterated resolves to
pub open spec fn it_at(it: Iter, i: int) -> (int, int) { resolve(doc(), it_slot(it.start(), it.width as int, i), it.width as int) }
impl<'a> DictIter<'a> {
//@extract src/value/dict.rs impl < 'a > Iterator for Iter < 'a > :: fn next
//@prop C07 C09 C04
//@sig Self :: Item => (& 'a str , & 'a Value)
//@ret r
//@contract
    requires old(self).array_iter.ok(),
    ensures final(self).array_iter.ok(), final(self).array_iter.len == old(self).array_iter.len, final(self).array_iter.width == old(self).array_iter.width,
        final(self).array_iter.index >= old(self).array_iter.index,
        match r {
            Some(e) => {
                let i = old(self).array_iter.index as int;
                let k = it_at(old(self).array_iter, i); let v = it_at(old(self).array_iter, i + 1);
                &&& i + 1 < old(self).array_iter.len && final(self).array_iter.index == i + 2
                &&& final(self).array_iter.next.is_some() ==> final(self).array_iter.start() == old(self).array_iter.start()
                &&& key_at(doc(), k.0, k.1) == KeyS::Str(encode_utf8(e.0@))
                &&& (e.1.pos(), e.1.n()) == v && e.1.ok()
            }
            None => old(self).array_iter.index + 1 >= old(self).array_iter.len
                || { let k = it_at(old(self).array_iter, old(self).array_iter.index as int); key_at(doc(), k.0, k.1) is Shared },
        },
//@at start
    proof { reveal(key_at); lemma_iter_next(self.array_iter); lemma_all_ok(); }
//@end
//@extract src/value/dict.rs impl < 'a > Iterator for Iter < 'a > :: fn size_hint
//@prop C07 C09 C04
//@ret r
//@contract
    requires self.array_iter.ok(),
    ensures r.0 == (self.array_iter.len - self.array_iter.index) / 2, r.1 == Some(r.0),
//@end
}
impl<'a> SharedKeyIter<'a> {
//@extract src/value/dict.rs impl < 'a > Iterator for SharedKeyIter < 'a > :: fn next
//@prop C07 C09 C04
//@sig Self :: Item => (& 'a str , & 'a Value)
//@rewrite? & * core :: ptr :: from_ref :: < str > ( $$x ) => vx_extend($$x)
//@ret r
//@contract
    requires old(self).array_iter.ok(),
    ensures final(self).array_iter.ok(), final(self).array_iter.len == old(self).array_iter.len, final(self).array_iter.width == old(self).array_iter.width,
        final(self).array_iter.index >= old(self).array_iter.index, final(self).shared_keys == old(self).shared_keys,
        match r {
            Some(e) => {
                let i = old(self).array_iter.index as int;
                let k = it_at(old(self).array_iter, i); let v = it_at(old(self).array_iter, i + 1);
                &&& i + 1 < old(self).array_iter.len && final(self).array_iter.index == i + 2
                &&& final(self).array_iter.next.is_some() ==> final(self).array_iter.start() == old(self).array_iter.start()
                &&& match key_at(doc(), k.0, k.1) { KeyS::Str(s) => s == encode_utf8(e.0@), KeyS::Shared(n) => sk_decode(old(self).shared_keys@, n as u16) == Some(encode_utf8(e.0@)) }
                &&& (e.1.pos(), e.1.n()) == v && e.1.ok()
            }
            None => old(self).array_iter.index + 1 >= old(self).array_iter.len
                || { let k = it_at(old(self).array_iter, old(self).array_iter.index as int); match key_at(doc(), k.0, k.1) { KeyS::Shared(n) => sk_decode(old(self).shared_keys@, n as u16).is_none(), _ => false } },
        },
//@at start
    proof { reveal(key_at); lemma_iter_next(self.array_iter); lemma_all_ok(); lemma_bits16(); }
//@end
//@extract src/value/dict.rs impl < 'a > Iterator for SharedKeyIter < 'a > :: fn size_hint
//@prop C07 C09 C04
//@ret r
//@contract
    requires self.array_iter.ok(),
    ensures r.0 == (self.array_iter.len - self.array_iter.index) / 2, r.1 == Some(r.0),
//@end
}
/// `Box<dyn Iterator>`: one of the two iterators, called by dynamic dispatch
pub enum VxPairs<'a> { Shared(SharedKeyIter<'a>), Plain(DictIter<'a>) }
impl<'a> VxPairs<'a> {
    pub open spec fn it(&self) -> Iter<'a> { match self { VxPairs::Shared(x) => x.array_iter, VxPairs::Plain(x) => x.array_iter } }
    pub open spec fn keys(&self) -> Option<SharedKeys> { match self { VxPairs::Shared(x) => Some(*x.shared_keys), VxPairs::Plain(x) => None } }
    pub fn next(&mut self) -> (r: Option<(&'a str, &'a Value)>)
        requires old(self).it().ok()
        ensures final(self).it().ok(), final(self).it().len == old(self).it().len, final(self).it().width == old(self).it().width, final(self).it().index >= old(self).it().index,
            final(self).keys() == old(self).keys(), pair_read(old(self).it(), final(self).it(), old(self).keys(), r)
    {
        match self { VxPairs::Shared(x) => x.next(), VxPairs::Plain(x) => x.next() }
    }
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.it().ok()
        ensures r.0 == (self.it().len - self.it().index) / 2, r.1 == Some(r.0)
    {
        match self { VxPairs::Shared(x) => x.size_hint(), VxPairs::Plain(x) => x.size_hint() }
    }
}
/// the string a key stands for, if any
pub open spec fn key_string(k: KeyS, sk: Option<SharedKeys>) -> Option<Seq<u8>> {
    match k { KeyS::Str(s) => Some(s), KeyS::Shared(n) => match sk { Some(t) => sk_decode(t@, n as u16), None => None } }
}
/// what one step from `a` to `b` reads
pub open spec fn pair_read(a: Iter, b: Iter, sk: Option<SharedKeys>, r: Option<(&str, &Value)>) -> bool {
    let i = a.index as int;
    let k = it_at(a, i); let v = it_at(a, i + 1);
    match r {
        Some(e) => i + 1 < a.len && b.index == i + 2 && (b.next.is_some() ==> b.start() == a.start())
            && key_string(key_at(doc(), k.0, k.1), sk) == Some(encode_utf8(e.0@)) && (e.1.pos(), e.1.n()) == v && e.1.ok(),
        None => i + 1 >= a.len || key_string(key_at(doc(), k.0, k.1), sk).is_none(),
    }
}
impl Dict {
//@extract src/value/dict.rs impl < 'a > IntoIterator for & 'a Dict :: fn into_iter
//@prop C07 C08 C09 C04
//@sig fn into_iter ( self ) => pub fn into_iter<'a>(&'a self)
//@sig Self :: IntoIter => VxPairs<'a>
//@rewrite? Box :: new ( SharedKeyIter $$x ) as Box < dyn Iterator < Item = Self :: Item > > => VxPairs::Shared(SharedKeyIter $$x)
//@rewrite? Box :: new ( Iter $$x ) as Box < dyn Iterator < Item = Self :: Item > > => VxPairs::Plain(DictIter $$x)
//@ret r
//@contract
    requires self.ok(),
    ensures r.keys() == scope_keys(), r.it().ok(), r.it().index == 0, r.it().len == c_count(self@), r.it().width == c_width(self@),
        r.it().len > 0 ==> r.it().start() == self.pos() + c_first(self@),
//@end
//@extract src/value/dict.rs impl Dict :: fn iter
//@prop C07 C08 C09 C04
//@sig < & Self as IntoIterator > :: IntoIter => VxPairs<'_>
//@ret r
//@contract
    requires self.ok(),
    ensures r.keys() == scope_keys(), r.it().ok(), r.it().index == 0, r.it().len == c_count(self@), r.it().width == c_width(self@),
        r.it().len > 0 ==> r.it().start() == self.pos() + c_first(self@),
//@end
//@extract src/value/dict.rs impl Dict :: fn get
//@prop C07 C09 C04
//@sig < R > =>
//@sig & R => &str
//@sig where R : ? Sized + Borrow < str > , =>
//@rewrite? key . borrow ( ) => key
//@ret r
//@contract
    requires self.ok(),
    ensures self.found(encode_utf8(key@), None, r),
//@end
//@extract src/value/dict.rs impl Dict :: fn get_with_shared_keys
//@prop C07 C09 C04
//@sig < R > =>
//@sig & R => &str
//@sig where R : ? Sized + Borrow < str > , =>
//@rewrite? key . borrow ( ) => key
//@ret r
//@contract
    requires self.ok(),
    ensures self.found(encode_utf8(key@), Some(shared_keys), r),
//@end
//@extract src/value/dict.rs impl Dict :: fn contains_key
//@prop C07 C09 C04
//@sig < R > =>
//@sig & R => &str
//@sig where R : ? Sized + Borrow < str > , =>
//@rewrite? key . borrow ( ) => key
//@ret r
//@contract
    requires self.ok(),
    ensures exists|v: Option<&Value>| #[trigger] self.found(encode_utf8(key@), None, v) && r == v.is_some(),
//@end
//@extract src/value/dict.rs impl Dict :: fn contains_key_with_shared_keys
//@prop C07 C09 C04
//@sig < R > =>
//@sig & R => &str
//@sig where R : ? Sized + Borrow < str > , =>
//@rewrite? key . borrow ( ) => key
//@ret r
//@contract
    requires self.ok(),
    ensures exists|v: Option<&Value>| #[trigger] self.found(encode_utf8(key@), Some(shared_keys), v) && r == v.is_some(),
//@end
}
/// every valid value may be read
pub proof fn lemma_all_ok()
    ensures forall|v: &Value| #![trigger v.ok()] v.ok() ==> scalar_ok(v@) && v@[0] == doc()[v.pos()],
        forall|v: &Value| #![trigger v.ok()] v.ok() && is_coll(kind(v@[0])) ==> slots_ok(v.pos(), v.n()),
{
    assert forall|v: &Value| #![trigger v.ok()] v.ok() implies scalar_ok(v@) && v@[0] == doc()[v.pos()]
        && (is_coll(kind(v@[0])) ==> slots_ok(v.pos(), v.n())) by { lemma_ok(v.pos(), v.n()); }
}
impl Value {
//@extract src/value/mod.rs impl Value :: fn from_bytes_unchecked
//@prop C04
//@rewrite? core :: mem :: transmute ( $v ) => vx_value($v)
//@rewrite? panic ! ( $$x ) ; => vx_unreachable()
//@ret r
//@contract
    requires data.pos() == 0, data.n() == doc().len(), root(doc()).is_some(),
    ensures root(doc()) == Some((r.pos(), r.n())),
//@end
}
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T) requires false { unimplemented!() }
impl Array {
//@extract src/value/array.rs impl Array :: fn from_bytes
//@prop C06 C07
//@rewrite? value :: DecodeError => DecodeError
//@ret r
//@contract
    requires data.pos() == 0, data.n() == doc().len(),
    ensures match r {
        Ok(a) => root(doc()) == Some((a.pos(), a.n())) && a.ok() && kind(doc()[a.pos()]) == ValueType::Array,
        Err(_) => match root(doc()) { Some((p, n)) => !valid(doc(), p, n, false) || kind(doc()[p]) != ValueType::Array, None => true },
    },
//@at start
    proof { lemma_all_ok(); lemma_root(); }
//@end
}
impl Dict {
//@extract src/value/dict.rs impl Dict :: fn from_bytes
//@prop C06 C07
//@rewrite? value :: DecodeError => DecodeError
//@ret r
//@contract
    requires data.pos() == 0, data.n() == doc().len(),
    ensures match r {
        Ok(a) => root(doc()) == Some((a.pos(), a.n())) && a.ok() && kind(doc()[a.pos()]) == ValueType::Dict,
        Err(_) => match root(doc()) { Some((p, n)) => !valid(doc(), p, n, false) || kind(doc()[p]) != ValueType::Dict, None => true },
    },
//@at start
    proof { lemma_all_ok(); lemma_root(); }
//@end
}
pub proof fn lemma_root()
    ensures match root(doc()) { Some((p, n)) => 0 <= p && n >= 2 && p + n <= doc().len() && kind(doc()[p]) != ValueType::Pointer
        && doc().subrange(p, p + n)[0] == doc()[p] && (valid(doc(), p, n, false) ==> ok_at(p, n)), None => true }
{
    lemma_target(doc(), doc().len() - 2, false);
}
