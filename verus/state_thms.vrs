// ---------------------------------------------------------------- what the contracts add up to
/// C11: loading what `get_state_bytes` wrote (its postcondition is the requirement on the bytes) gives the same numbering
//@thm C11
fn thm_round_trip(data: &Bytes, s: &SharedKeys, more: &str)
    requires data.pos() == 0, data.n() == doc().len(), s.wf(), doc_holds(doc(), Seq::empty(), Tree::Arr(strs(s@)))
{
    proof {
        lemma_wf(*s);
        let (p, n) = root(doc()).unwrap();
        lemma_holds_valid(doc(), Seq::empty(), p, n, Tree::Arr(strs(s@)));
        lemma_state_of(p, n, s@);
    }
    let r = SharedKeys::from_state_bytes(data);
    assert(r.is_some());
    let mut t = match r { Some(t) => t, None => { return; } };
    assert(t@ == s@);
    // and further insertions go on from there
    let mut u = s.clone();
    let a = t.encode_and_insert(more);
    let b = u.encode_and_insert(more);
    assert(a == b && t@ == u@);
}
pub proof fn lemma_state_of(p: int, n: int, sk: Seq<Seq<u8>>)
    requires holds(doc(), Seq::empty(), p, n, Tree::Arr(strs(sk))), sk_ok(sk), forall|i: int| 0 <= i < sk.len() ==> key_fits_bytes(#[trigger] sk[i])
    ensures state_spec(p, n) == Some(sk)
{
    reveal(holds); reveal(state_spec); reveal(leaf_at); reveal(elem);
    let s = doc().subrange(p, p + n);
    assert(c_count(s) == sk.len());
    assert forall|i: int| 0 <= i < sk.len() implies #[trigger] kind(elem(p, n, i)[0]) == ValueType::String && str_at(elem(p, n, i)) == sk[i] by {
        let t = slot_target(doc(), p, n, i);
        assert(holds(doc(), Seq::empty(), t.0, t.1, strs(sk)[i]));
        assert(key_fits_bytes(sk[i]));
    }
    assert(elems(p, n) =~= sk);
    lemma_load(sk);
}
/// C11: whatever the bytes are, loading them as state gives shared keys or nothing
//@thm C11
fn thm_load_anything(data: &Bytes)
    requires data.pos() == 0, data.n() == doc().len()
{
    match SharedKeys::from_state_bytes(data) { Some(s) => { assert(s.wf()); } None => {} }
}
