//@item src/mutable/dict.rs struct MutableDict
//@rewrite map : => pub map :
//@rewrite shared_keys : => pub shared_keys :
//@item src/mutable/dict.rs enum Key
//@rewrite enum => pub enum
impl VxOrd for Key {
    open spec fn key(&self) -> KeyS { match self { Key::Shared(n) => KeyS::Shared(*n as nat), Key::String(s) => KeyS::Str(encode_utf8(s@)) } }
}
impl MutableDict {
    pub open spec fn sk(&self) -> Option<SharedKeys> { match self.shared_keys { Some(k) => Some(*k), None => None } }
    /// the key under which the string k is kept
    pub open spec fn enc(&self, k: Seq<u8>) -> KeyS {
        match self.sk() { Some(s) => match sk_encode(s@, k) { Some(n) => KeyS::Shared(n as nat), None => KeyS::Str(k) }, None => KeyS::Str(k) }
    }
    /// the string kept under a key
    pub open spec fn dec(&self, k: KeyS) -> Option<Seq<u8>> {
        match k { KeyS::Str(s) => Some(s), KeyS::Shared(n) => match self.sk() { Some(t) => sk_decode(t@, n as u16), None => None } }
    }
    pub open spec fn wf_sk(&self) -> bool { self.sk() matches Some(s) ==> s.wf() }
    /// every key kept is the one some string is kept under
    pub open spec fn ok(&self) -> bool { self.wf_sk() && forall|k: KeyS| #[trigger] self.map@.contains_key(k) ==> (exists|s: Seq<u8>| k == #[trigger] self.enc(s)) }
    /// the keys kept are those of the first m pairs of a dict of the document
    pub open spec fn has_names(&self, p: int, n: int, m: int) -> bool {
        self.wf_sk() && (forall|k: KeyS| #[trigger] self.map@.contains_key(k) ==> exists|i: int| 0 <= i < m && (#[trigger] name(p, n, i)) is Some && k == self.enc(name(p, n, i).unwrap()))
            && forall|i: int| 0 <= i < m ==> (#[trigger] name(p, n, i)) is Some && self.map@.contains_key(self.enc(name(p, n, i).unwrap()))
    }
}
//@item src/mutable/dict.rs struct Iter
//@rewrite map_iter : => pub map_iter :
//@rewrite shared_keys : => pub shared_keys :
//@item src/mutable/dict.rs struct Ref
//@rewrite slot : => pub slot :
impl Clone for Key {
    /// #[derive(Clone)]
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.key() == self.key() { unimplemented!() }
}
impl MutableDict {
    /// the slot of a string, if it has one
    pub open spec fn at(&self, k: &str) -> Option<ValueSlot> { let e = self.enc(encode_utf8(k@)); if self.map@.contains_key(e) { Some(self.map@[e]) } else { None } }
    /// self is o with some slot for this string
    pub open spec fn put(&self, o: &MutableDict, k: &str) -> bool { let e = self.enc(encode_utf8(k@)); self.shared_keys == o.shared_keys && self.map@.contains_key(e) && self.map@ == o.map@.insert(e, self.map@[e]) }
}
/// different strings are kept under different keys, and `ok` is preserved by every change under the key of a string
pub proof fn lemma_enc(d: MutableDict)
    requires d.wf_sk()
    ensures forall|a: Seq<u8>| d.dec(#[trigger] d.enc(a)) == Some(a), forall|a: Seq<u8>, b: Seq<u8>| #[trigger] d.enc(a) == #[trigger] d.enc(b) ==> a == b
{
    match d.sk() { Some(s) => { axiom_shared_keys(s);
        assert forall|a: Seq<u8>| d.dec(#[trigger] d.enc(a)) == Some(a) by { if s@.contains(a) { assert(s@[s@.index_of(a)] == a); } } } None => {} }
}
pub proof fn lemma_all_copied(a: Set<KeyS>, b: Set<KeyS>, s: Seq<KeyS>)
    requires forall|i: int| 0 <= i < s.len() ==> a.contains(#[trigger] s[i]), forall|k: KeyS| #[trigger] a.contains(k) ==> b.contains(k), forall|k: KeyS| #[trigger] b.contains(k) ==> s.contains(k)
    ensures a == b
{
    assert forall|k: KeyS| #[trigger] b.contains(k) implies a.contains(k) by { assert(s.contains(k)); let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(a.contains(s[i])); }
    assert(a =~= b);
}
impl MutableDict {
//@extract src/mutable/dict.rs impl Default for MutableDict :: fn default
//@prop C14
//@sig fn default => pub fn default
//@ret r
//@contract
    ensures r.ok(), r.shared_keys.is_none(), r.map@ == Map::<KeyS, ValueSlot>::empty(),
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn new
//@prop C14
//@ret r
//@contract
    ensures r.ok(), r.shared_keys.is_none(), r.map@ == Map::<KeyS, ValueSlot>::empty(),
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn new_with_shared_keys
//@prop C14
//@rewrite? .. Default :: default ( ) => ..Self::default()
//@ret r
//@contract
    requires shared_keys.wf(),
    ensures r.ok(), r.shared_keys == Some(shared_keys), r.map@ == Map::<KeyS, ValueSlot>::empty(),
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn encode_key
//@prop C14
//@rewrite? self . shared_keys . as_ref ( ) . and_then ( | $s | $$e ) . map_or_else ( | | $$n , Key :: Shared ) => match (match &self.shared_keys { Some($s) => $$e, None => None }) { Some(vx_n) => Key::Shared(vx_n), None => $$n }
//@rewrite? $k . to_string ( ) => vx_to_string($k)
//@ret r
//@contract
    requires self.wf_sk(),
    ensures r.key() == self.enc(encode_utf8(key@)),
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn copy_with_shared_keys
//@prop C14
//@rewrite? .. Default :: default ( ) => ..Self::default()
//@rewrite for ( $k , $v ) in source { => let mut vx_it = source.into_iter(); loop { let Some(($k, $v)) = vx_it.next() else { break; }; proof { lemma_pair(p, n, j, $k, $v, vx_it.it().len as int); }
//@ret r
//@contract
    requires source.ok(), match shared_keys { Some(s) => s.wf(), None => true },
    ensures dict_copied(r, source.pos(), source.n()), r.shared_keys == shared_keys,
    decreases source.pos() + source.n(), source.n(), 1int
//@at start
    let ghost p = source.pos(); let ghost n = source.n(); let ghost sk = shared_keys; let ghost mut m: int = 0;
    proof { lemma_all_ok(); lemma_ok(p, n); lemma_iter_first(p, n); }
//@loop 1
    invariant_except_break
        source.ok(), p == source.pos(), n == source.n(), vx_it.keys() == scope_keys(), vx_it.it().ok(), vx_it.it().index == 2 * m, vx_it.it().index <= vx_it.it().len,
        vx_it.it().len == c_count(source@), vx_it.it().width == c_width(source@), c_count(source@) % 2 == 0,
        vx_it.it().index < vx_it.it().len ==> vx_it.it().start() == p + c_first(source@),
    invariant
        this.shared_keys == sk, match sk { Some(s) => s.wf(), None => true }, 0 <= m, pairs_copied(this, p, n, m),
    ensures named(p, n, m),
    decreases vx_it.it().len - vx_it.it().index
//@at loopstart 1
    let ghost j = m; let ghost old_this = this;
    proof { lemma_iter_first(p, n); reveal(dict_key); reveal(dict_val); }
//@at loopend 1
    proof { lemma_inserted_pair(old_this, this, p, n, j); m = m + 1; }
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn clone_from
//@prop C14
//@rewrite? source . array . value . bytes . as_ptr ( ) => source.array.value.bytes.as_ptr()
//@ret r
//@contract
    requires source.ok(),
    ensures dict_copied(r, source.pos(), source.n()), r.sk() == scope_keys(),
    decreases source.pos() + source.n(), source.n(), 2int
//@at start
    proof { match scope_keys() { Some(s) => { axiom_shared_keys(s); } None => {} } }
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn from_scope
//@prop C14
//@rewrite? $$a . and_then ( AllocedValue :: to_dict ) . map ( | $x | $$b ) => match $$a { Some(vx_v) => match vx_v.to_dict() { Some($x) => Some($$b), None => None }, None => None }
//@rewrite? ( & source , => (source.vx_ref(),
//@rewrite? scope . shared_keys ( ) . cloned ( ) => vx_cloned(scope.shared_keys())
//@ret r
//@contract
    ensures match r { Some(a) => scope.at() matches Some(x) && kind(doc()[x.0]) == ValueType::Dict && dict_copied(a, x.0, x.1) && a.sk() == scope_keys(), None => scope.at() matches Some(x) ==> kind(doc()[x.0]) != ValueType::Dict },
//@at start
    proof { match scope_keys() { Some(s) => { axiom_shared_keys(s); } None => {} } }
//@end
//@extract src/mutable/dict.rs impl TryFrom < & Scope > for MutableDict :: fn try_from
//@prop C14
//@sig fn try_from => pub fn try_from
//@sig Result < Self , Self :: Error > => core::result::Result<Self, ()>
//@ret r
//@contract
    ensures match r { Ok(a) => scope.at() matches Some(x) && kind(doc()[x.0]) == ValueType::Dict && dict_copied(a, x.0, x.1) && a.sk() == scope_keys(), Err(_) => scope.at() matches Some(x) ==> kind(doc()[x.0]) != ValueType::Dict },
//@end
//@extract src/mutable/dict.rs impl From < AllocedDict > for MutableDict :: fn from
//@prop C14
//@sig fn from => pub fn from_alloced
//@rewrite? ( & source , => (source.vx_ref(),
//@rewrite? source . value . cast :: < u8 > ( ) => source.vx_addr()
//@ret r
//@contract
    requires ok_at(source.at().0, source.at().1), kind(doc()[source.at().0]) == ValueType::Dict,
    ensures dict_copied(r, source.at().0, source.at().1), r.sk() == scope_keys(),
//@at start
    proof { match scope_keys() { Some(s) => { axiom_shared_keys(s); } None => {} } }
//@end
//@extract src/mutable/dict.rs impl Index < & str > for MutableDict :: fn index
//@prop C14
//@sig fn index => pub fn index
//@sig & Self :: Output => &Held
//@ret r
//@contract
    requires self.wf_sk(), self.at(index) matches Some(s) && s.bytes() is Some,
    ensures self.at(index) matches Some(s) && s.bytes() == Some(r@),
//@end
//@extract src/mutable/dict.rs impl Clone for MutableDict :: fn clone
//@prop C14
//@sig fn clone => pub fn vclone
//@rewrite? .. Default :: default ( ) => ..Self::default()
//@rewrite? $s . shared_keys . clone ( ) => vx_clone_sk(&$s.shared_keys)
//@rewrite? $v . clone ( ) ; => $v.vclone();
//@rewrite for ( $k , $v ) in & $$m { => let mut vx_it = ($$m).iter(); loop { let Some(($k, $v)) = vx_it.next() else { proof { lemma_all_copied(new.map@.dom(), self.map@.dom(), vx_it.keys()); } break; }; proof { broadcast use axiom_btree_decreases; }
//@ret r
//@contract
    ensures r.shared_keys == self.shared_keys, r.map@.dom() == self.map@.dom(), forall|k: KeyS| #[trigger] self.map@.contains_key(k) ==> same(self.map@[k], r.map@[k]),
    decreases *self
//@loop 1
    invariant
        forall|i: int| 0 <= i < vx_it.index() ==> new.map@.contains_key(#[trigger] vx_it.keys()[i]),
        vx_it.ok(), vx_it.map() == self.map, new.shared_keys == self.shared_keys, 
        forall|k: KeyS| #[trigger] new.map@.contains_key(k) ==> self.map@.contains_key(k) && same(self.map@[k], new.map@[k]),
    ensures new.map@.dom() == self.map@.dom(),
    decreases vx_it.keys().len() - vx_it.index()
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn len
//@prop C14
//@ret r
//@contract
    ensures r == self.map@.dom().len(),
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn is_empty
//@prop C14
//@ret r
//@contract
    ensures r == (self.map@.dom().len() == 0),
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn get
//@prop C14
//@sig Option < & 'r Value > => Option<&'r Held>
//@ret r
//@contract
    requires self.wf_sk(),
    ensures match r { Some(v) => self.at(key) matches Some(s) && s.bytes() == Some(v@), None => self.at(key) matches Some(s) ==> s.bytes().is_none() },
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn get_array
//@prop C14
//@ret r
//@contract
    requires self.wf_sk(),
    ensures match r { Some(a) => self.at(key) matches Some(s) && s.is_arr_of(*a), None => !(self.at(key) matches Some(s) && s is MutableArray) },
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn get_dict
//@prop C14
//@ret r
//@contract
    requires self.wf_sk(),
    ensures match r { Some(a) => self.at(key) matches Some(s) && s.is_dict_of(*a), None => !(self.at(key) matches Some(s) && s is MutableDict) },
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn get_array_mut
//@prop C14
//@ret r
//@contract
    requires old(self).wf_sk(),
    ensures match r {
        Some(a) => old(self).at(key) matches Some(s) && s.is_arr_of(*a) && final(self).put(old(self), key) && (final(self).at(key) matches Some(t) && t.is_arr_of(*final(a))),
        None => !(old(self).at(key) matches Some(s) && s is MutableArray) && final(self).map@ =~= old(self).map@ && final(self).shared_keys == old(self).shared_keys },
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn get_dict_mut
//@prop C14
//@ret r
//@contract
    requires old(self).wf_sk(),
    ensures match r {
        Some(a) => old(self).at(key) matches Some(s) && s.is_dict_of(*a) && final(self).put(old(self), key) && (final(self).at(key) matches Some(t) && t.is_dict_of(*final(a))),
        None => !(old(self).at(key) matches Some(s) && s is MutableDict) && final(self).map@ =~= old(self).map@ && final(self).shared_keys == old(self).shared_keys },
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn contains_key
//@prop C14
//@ret r
//@contract
    requires self.wf_sk(),
    ensures r == self.at(key).is_some(),
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn insert
//@prop C14
//@contract
    requires old(self).wf_sk(), value.writable(),
    ensures final(self).put(old(self), key), final(self).at(key) matches Some(s) && s.bytes().is_some() && (value.leaf() matches Some(l) ==> s.holds_leaf(l)),
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn insert_dict
//@prop C14
//@sig impl Into < MutableDict > => MutableDict
//@rewrite? dict . into ( ) => dict
//@contract
    requires old(self).wf_sk(),
    ensures final(self).put(old(self), key), final(self).at(key) matches Some(s) && s.is_dict_of(dict),
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn insert_array
//@prop C14
//@sig impl Into < MutableArray > => MutableArray
//@rewrite? array . into ( ) => array
//@contract
    requires old(self).wf_sk(),
    ensures final(self).put(old(self), key), final(self).at(key) matches Some(s) && s.is_arr_of(array),
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn remove
//@prop C14
//@contract
    requires old(self).wf_sk(),
    ensures final(self).shared_keys == old(self).shared_keys, final(self).map@ == old(self).map@.remove(old(self).enc(encode_utf8(key@))),
//@end
//@extract src/mutable/dict.rs impl MutableDict :: fn iter
//@prop C14
//@sig Iter => Iter<'_>
//@ret r
//@contract
    ensures r.map_iter.ok(), r.map_iter.map()@ == self.map@, r.map_iter.index() == 0, r.shared_keys == self.shared_keys,
//@end
//@extract src/mutable/dict.rs impl < 'a > IntoIterator for & 'a MutableDict :: fn into_iter
//@prop C14
//@sig fn into_iter ( self ) => pub fn into_iter(&self)
//@sig Self :: IntoIter => Iter<'_>
//@rewrite? self . shared_keys . clone ( ) => vx_clone_sk(&self.shared_keys)
//@ret r
//@contract
    ensures r.map_iter.ok(), r.map_iter.map()@ == self.map@, r.map_iter.index() == 0, r.shared_keys == self.shared_keys,
//@end
}
impl<'a> Iter<'a> {
    pub open spec fn sk(&self) -> Option<SharedKeys> { match self.shared_keys { Some(k) => Some(*k), None => None } }
    pub open spec fn dec(&self, k: KeyS) -> Option<Seq<u8>> {
        match k { KeyS::Str(s) => Some(s), KeyS::Shared(n) => match self.sk() { Some(t) => sk_decode(t@, n as u16), None => None } }
    }
//@extract src/mutable/dict.rs impl Iter < '_ > :: fn decode_key
//@prop C14
//@rewrite? unsafe { self . shared_keys . as_ref ( ) . and_then ( | $s | Some ( & * core :: ptr :: from_ref :: < str > ( $$e ? ) ) ) } => match &self.shared_keys { Some($s) => match $$e { Some(vx_s) => Some(vx_extend(vx_s)), None => None }, None => None }
//@rewrite? Some ( $v ) , } => Some($v.as_str()), }
//@ret r
//@contract
    requires self.sk() matches Some(s) ==> s.wf(),
    ensures match r { Some(s) => self.dec(key.key()) == Some(encode_utf8(s@)), None => self.dec(key.key()).is_none() },
//@end
//@extract src/mutable/dict.rs impl < 'a > Iterator for Iter < 'a > :: fn next
//@prop C14
//@sig fn next => pub fn next
//@sig Self :: Item => (&'a str, Ref<'a>)
//@rewrite? self . map_iter . next ( ) . and_then ( | ( $k , $s ) | Some ( ( $$e ? , $$r ) ) ) => match self.map_iter.next() { Some(($k, $s)) => match $$e { Some(vx_k) => Some((vx_k, $$r)), None => None }, None => None }
//@ret r
//@contract
    requires old(self).map_iter.ok(), old(self).sk() matches Some(s) ==> s.wf(),
    ensures final(self).map_iter.ok(), final(self).map_iter.map() == old(self).map_iter.map(), final(self).map_iter.keys() == old(self).map_iter.keys(), final(self).shared_keys == old(self).shared_keys,
        ({ let i = old(self).map_iter.index(); let ks = old(self).map_iter.keys(); match r {
            Some(e) => i < ks.len() && final(self).map_iter.index() == i + 1 && old(self).dec(ks[i]) == Some(encode_utf8(e.0@)) && *e.1.slot == old(self).map_iter.map()@[ks[i]],
            None => i == ks.len() || old(self).dec(ks[i]).is_none() } }),
//@end
//@extract src/mutable/dict.rs impl < 'a > Iterator for Iter < 'a > :: fn size_hint
//@prop C14
//@sig fn size_hint => pub fn size_hint
//@ret r
//@contract
    requires self.map_iter.ok(),
    ensures r.0 == self.map_iter.keys().len() - self.map_iter.index(), r.1 == Some(r.0),
//@end
}
impl<'a> Ref<'a> {
//@extract src/mutable/dict.rs impl < 'a > Ref < 'a > :: fn new
//@prop C14
//@ret r
//@contract
    ensures r.slot == slot,
//@end
//@extract src/mutable/dict.rs impl < 'a > Ref < 'a > :: fn is_value
//@prop C14
//@ret r
//@contract
    ensures r == self.slot.bytes().is_some(),
//@end
//@extract src/mutable/dict.rs impl < 'a > Ref < 'a > :: fn is_array
//@prop C14
//@ret r
//@contract
    ensures r == (*self.slot is MutableArray),
//@end
//@extract src/mutable/dict.rs impl < 'a > Ref < 'a > :: fn is_dict
//@prop C14
//@ret r
//@contract
    ensures r == (*self.slot is MutableDict),
//@end
//@extract src/mutable/dict.rs impl < 'a > Ref < 'a > :: fn value
//@prop C14
//@sig & Value => &Held
//@ret r
//@contract
    ensures match r { Some(v) => self.slot.bytes() == Some(v@), None => self.slot.bytes().is_none() },
//@end
//@extract src/mutable/dict.rs impl < 'a > Ref < 'a > :: fn array
//@prop C14
//@ret r
//@contract
    ensures match r { Some(a) => self.slot.is_arr_of(*a), None => !(*self.slot is MutableArray) },
//@end
//@extract src/mutable/dict.rs impl < 'a > Ref < 'a > :: fn dict
//@prop C14
//@ret r
//@contract
    ensures match r { Some(a) => self.slot.is_dict_of(*a), None => !(*self.slot is MutableDict) },
//@end
}
impl Dict {
//@extract src/value/dict.rs impl Dict :: fn to_mutable
//@prop C14
//@ret r
//@contract
    requires self.ok(),
    ensures dict_copied(r, self.pos(), self.n()), r.sk() == scope_keys(),
//@end
}
