// ---------------------------------------------------------------- writing the state of shared keys, and loading it
#[verifier::external_body]
pub fn vx_shrink(v: &mut Vec<u8>) ensures final(v)@ == old(v)@ { v.shrink_to_fit() }
#[verifier::external_body]
pub fn vx_boxed(v: Vec<u8>) -> (r: Box<[u8]>) ensures (*r)@ == v@ { v.into_boxed_slice() }
pub open spec fn strs(sk: Seq<Seq<u8>>) -> Seq<Tree> { Seq::new(sk.len(), |i: int| Tree::Leaf(Leaf::Str(sk[i]))) }
/// inserting strings one after another into new shared keys
pub open spec fn sk_load(ss: Seq<Seq<u8>>) -> Option<Seq<Seq<u8>>> decreases ss.len() {
    if ss.len() == 0 { Some(Seq::empty()) } else { match sk_load(ss.drop_last()) { Some(a) => sk_insert(a, ss.last()), None => None } }
}
pub proof fn lemma_load_take(ss: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= ss.len(), sk_load(ss.take(i)) is None
    ensures sk_load(ss) is None
    decreases ss.len() - i
{
    if i < ss.len() { assert(ss.take(i + 1).drop_last() =~= ss.take(i)); lemma_load_take(ss, i + 1); } else { assert(ss.take(i) =~= ss); }
}
/// strings which are distinct, acceptable and not too many are all inserted, in order
pub proof fn lemma_load(ss: Seq<Seq<u8>>)
    requires sk_ok(ss), forall|i: int| 0 <= i < ss.len() ==> key_fits_bytes(#[trigger] ss[i])
    ensures sk_load(ss) == Some(ss)
    decreases ss.len()
{
    if ss.len() > 0 {
        let t = ss.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] != #[trigger] t[j] by { assert(ss[i] != ss[j]); }
        assert forall|i: int| 0 <= i < t.len() implies key_fits_bytes(#[trigger] t[i]) by { assert(key_fits_bytes(ss[i])); }
        lemma_load(t);
        assert(!t.contains(ss.last())) by { if t.contains(ss.last()) { let i = t.index_of(ss.last()); assert(ss[i] != ss[ss.len() - 1]); } }
        assert(key_fits_bytes(ss[ss.len() - 1]));
        assert(t.push(ss.last()) =~= ss);
    } else { assert(ss =~= Seq::empty()); }
}
/// what one element of the state is read as
#[verifier::opaque]
pub open spec fn elem(p: int, n: int, i: int) -> Seq<u8> { let t = slot_target(doc(), p, n, i); doc().subrange(t.0, t.0 + t.1) }
pub open spec fn elems(p: int, n: int) -> Seq<Seq<u8>> { Seq::new(c_count(doc().subrange(p, p + n)) as nat, |i: int| str_at(elem(p, n, i))) }
/// what loading a valid value as state must give
#[verifier::opaque]
pub open spec fn state_spec(p: int, n: int) -> Option<Seq<Seq<u8>>> {
    let s = doc().subrange(p, p + n);
    if kind(s[0]) != ValueType::Array { None }
    else if exists|i: int| 0 <= i < c_count(s) && #[trigger] kind(elem(p, n, i)[0]) != ValueType::String { None }
    else { sk_load(elems(p, n)) }
}
pub open spec fn bytes_of(ks: Seq<(Seq<char>, u16)>) -> Seq<Seq<u8>> { Seq::new(ks.len(), |i: int| encode_utf8(ks[i].0)) }
pub open spec fn frame_strs(w: EView, ss: Seq<Seq<u8>>) -> EView { do_begin(w, Frame::Arr(strs(ss))) }
pub proof fn lemma_strs(ss: Seq<Seq<u8>>)
    ensures forall|w: EView| #[trigger] frame_strs(w, ss.take(0)) == do_begin(w, Frame::Arr(Seq::empty())), ss.take(ss.len() as int) == ss,
        forall|w: EView| can_end_array(#[trigger] frame_strs(w, ss)),
        forall|w: EView, i: int| 0 <= i < ss.len() ==> can_value(#[trigger] frame_strs(w, ss.take(i))) && do_value(frame_strs(w, ss.take(i)), Tree::Leaf(Leaf::Str(ss[i]))) == frame_strs(w, ss.take(i + 1)),
{
    assert(strs(ss.take(0)) =~= Seq::<Tree>::empty());
    assert(ss.take(ss.len() as int) =~= ss);
    assert forall|w: EView, i: int| 0 <= i < ss.len() implies can_value(#[trigger] frame_strs(w, ss.take(i))) && do_value(frame_strs(w, ss.take(i)), Tree::Leaf(Leaf::Str(ss[i]))) == frame_strs(w, ss.take(i + 1)) by {
        assert(strs(ss.take(i + 1)) =~= strs(ss.take(i)).push(Tree::Leaf(Leaf::Str(ss[i]))));
        assert(do_value(frame_strs(w, ss.take(i)), Tree::Leaf(Leaf::Str(ss[i]))).frames =~= frame_strs(w, ss.take(i + 1)).frames);
    }
}
pub proof fn lemma_elem(v: &Value, p: int, n: int, j: int)
    requires (v.pos(), v.n()) == slot_target(doc(), p, n, j), v.ok()
    ensures elem(p, n, j) == v@, scalar_ok(v@)
{
    reveal(elem); lemma_all_ok();
}
pub proof fn lemma_inserted(sk: Seq<Seq<u8>>, key: Seq<u8>)
    ensures sk_insert(sk, key) matches Some(t) ==> sk_encode(t, key) is Some
{
    assert(sk.push(key).last() == key);
    assert(sk.push(key).contains(key));
}
/// what the loop over the elements establishes
pub open spec fn state_facts(p: int, n: int) -> bool {
        &&& kind(doc().subrange(p, p + n)[0]) != ValueType::Array ==> state_spec(p, n) is None
        &&& kind(doc().subrange(p, p + n)[0]) == ValueType::Array ==> {
            let c = c_count(doc().subrange(p, p + n)); let ss = elems(p, n);
            &&& forall|j: int| 0 <= j < c && #[trigger] kind(elem(p, n, j)[0]) != ValueType::String ==> state_spec(p, n) is None
            &&& forall|j: int| 0 <= j < c && sk_load(ss.take(j)) is Some && #[trigger] sk_load(ss.take(j + 1)) is None ==> state_spec(p, n) is None
            &&& (forall|j: int| 0 <= j < c ==> #[trigger] kind(elem(p, n, j)[0]) == ValueType::String) ==> state_spec(p, n) == sk_load(ss)
        }
}
pub proof fn lemma_state(p: int, n: int)
    ensures state_facts(p, n)
{
    reveal(state_spec);
    let c = c_count(doc().subrange(p, p + n)); let ss = elems(p, n);
    assert forall|j: int| 0 <= j < c && sk_load(ss.take(j)) is Some && #[trigger] sk_load(ss.take(j + 1)) is None implies sk_load(ss) is None by { lemma_load_take(ss, j + 1); }
}
impl SharedKeys {
//@extract src/shared_keys.rs impl SharedKeys :: fn write_state
//@prop C11
//@rewrite for ( $k , _ ) in & self . 0 { => let mut vx_it = self.0.into_iter(); loop { let ghost vx_j = vx_it.index(); let Some(($k, _)) = vx_it.next() else { break; }; proof { lemma_strs(self@); assert(self@[vx_j] == encode_utf8($k.chars())); }
//@ret r
//@contract
    requires self.wf(), live(*old(encoder)), room(*old(encoder), 40 + 60 * self@.len()),
    ensures forall|w: EView| #[trigger] repr(*old(encoder), w) ==> r.is_some() == can_begin(w) && (r.is_some() ==> repr(*final(encoder), do_end(frame_strs(w, self@)))),
        r.is_none() ==> unchanged(*old(encoder), *final(encoder)), final(encoder).sk() == old(encoder).sk(),
        used(*final(encoder)) <= used(*old(encoder)) + 40 + 60 * self@.len(),
//@at start
    let ghost e = *encoder;
    let ghost w0 = choose|w: EView| repr(e, w);
    proof { lemma_wf(*self); lemma_strs(self@); }
//@loop 1
    invariant
        self.wf(), vx_it.map() == self.0, 0 <= vx_it.index() <= self@.len(), repr(e, w0), can_begin(w0), encoder.sk() == e.sk(), room(e, 40 + 60 * self@.len()),
        forall|w: EView| #[trigger] repr(e, w) ==> repr(*encoder, frame_strs(w, self@.take(vx_it.index()))),
        used(*encoder) <= used(e) + 40 + 60 * vx_it.index(),
    ensures vx_it.index() >= self@.len(),
    decreases self@.len() - vx_it.index()
//@end
//@extract src/shared_keys.rs impl SharedKeys :: fn get_state_bytes
//@prop C11
//@rewrite? vec . shrink_to_fit ( ) => vx_shrink(&mut vec)
//@rewrite? vec . into_boxed_slice ( ) => vx_boxed(vec)
//@ret r
//@contract
    requires self.wf(),
    ensures doc_holds((*r)@, Seq::empty(), Tree::Arr(strs(self@))),
//@end
//@extract src/shared_keys.rs impl SharedKeys :: fn from_state_value
//@prop C11
//@rewrite for $v in state { => let mut vx_it = state.into_iter(); loop { let Some($v) = vx_it.next() else { break; }; proof { lemma_elem($v, p, n, j); }
//@ret r
//@contract
    requires value.ok(),
    ensures match r { Some(s) => s.wf() && state_spec(value.pos(), value.n()) == Some(s@), None => state_spec(value.pos(), value.n()) is None },
//@at start
    let ghost p = value.pos(); let ghost n = value.n(); let ghost ss = elems(p, n);
    proof { lemma_all_ok(); lemma_state(p, n); assert(ss.take(0) =~= Seq::empty()); }
//@loop 1
    invariant
        state_facts(p, n), value.ok(), p == value.pos(), n == value.n(), kind(value@[0]) == ValueType::Array, ss == elems(p, n), shared_keys.wf(), vx_it.ok(), vx_it.index <= vx_it.len, vx_it.len == c_count(value@), vx_it.width == c_width(value@),
        vx_it.index < vx_it.len ==> vx_it.start() == p + c_first(value@),
        sk_load(ss.take(vx_it.index as int)) == Some(shared_keys@),
        forall|j: int| 0 <= j < vx_it.index ==> #[trigger] kind(elem(p, n, j)[0]) == ValueType::String,
    ensures vx_it.index >= vx_it.len, sk_load(ss.take(vx_it.index as int)) == Some(shared_keys@),
    decreases vx_it.len - vx_it.index
//@at loopstart 1
    let ghost j = vx_it.index as int;
    proof { lemma_iter_first(p, n); if j < ss.len() { assert(ss.take(j + 1).drop_last() =~= ss.take(j)); assert(ss.take(j + 1).last() == str_at(elem(p, n, j))); assert(sk_load(ss.take(j + 1)) == sk_insert(shared_keys@, str_at(elem(p, n, j)))); lemma_inserted(shared_keys@, str_at(elem(p, n, j))); } }
//@at afterloop 1
    proof { assert(ss.take(vx_it.index as int) =~= ss); }
//@end
//@extract src/shared_keys.rs impl SharedKeys :: fn from_state_bytes
//@prop C11
//@sig & [ u8 ] => & Bytes
//@ret r
//@contract
    requires data.pos() == 0, data.n() == doc().len(),
    ensures match r {
        Some(s) => s.wf() && (root(doc()) matches Some((p, n)) && valid(doc(), p, n, false) && state_spec(p, n) == Some(s@)),
        None => match root(doc()) { Some((p, n)) => valid(doc(), p, n, false) ==> state_spec(p, n) is None, None => true } },
//@at start
    proof { lemma_root(); }
//@end
}
