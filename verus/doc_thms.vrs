// C04: decoding a document accepts it and gives the tree it stands for
//@thm C04 C09
fn thm_decode(data: &Bytes, Ghost(sk): Ghost<Seq<Seq<u8>>>, Ghost(t): Ghost<Tree>)
    requires data.pos() == 0, data.n() == doc().len(), doc_holds(doc(), sk, t)
{
    proof { let r = root(doc()).unwrap(); lemma_holds_valid(doc(), sk, r.0, r.1, t); lemma_holds_kind(doc(), sk, r.0, r.1, t); }
    let r = Value::from_bytes(data);
    assert(r.is_ok());
    let u = Value::from_bytes_unchecked(data);
    match r { Ok(v) => {
        assert(v.ok() && holds(doc(), sk, v.pos(), v.n(), t));
        assert(u.pos() == v.pos() && u.n() == v.n());
    } Err(_) => {} }
}
/// and so on down: a value that is not a collection is itself (what accessors then give: group values)
//@thm C04 C09
fn thm_leaf(v: &Value, Ghost(sk): Ghost<Seq<Seq<u8>>>, Ghost(l): Ghost<Leaf>)
    requires v.ok(), holds(doc(), sk, v.pos(), v.n(), Tree::Leaf(l))
    ensures leaf_at(v@, l)
{
    proof { reveal(holds); }
}
/// an array has the elements which were written, by index and by iteration
//@thm C04 C08
fn thm_array(v: &Value, Ghost(sk): Ghost<Seq<Seq<u8>>>, Ghost(ts): Ghost<Seq<Tree>>, i: usize)
    requires v.ok(), holds(doc(), sk, v.pos(), v.n(), Tree::Arr(ts))
{
    proof { reveal(holds); lemma_all_ok(); }
    let a = v.as_array();
    assert(a.is_some());
    let a = match a { Some(a) => a, None => { return; } };
    let n = a.len();
    assert(n == ts.len());
    let e = a.get(i);
    assert(e.is_some() == (i < ts.len()));
    match e { Some(e) => { assert(e.ok() && holds(doc(), sk, e.pos(), e.n(), ts[i as int])); } None => {} }
    let mut it = a.iter();
    let mut j: usize = 0;
    proof { lemma_iter_first(a.pos(), a.n()); }
    while j < n
        invariant a.ok(), j <= n, n == c_count(a@), n == ts.len(), it.ok(), it.len == n, it.index == j, it.width == c_width(a@), j < n ==> it.start() == a.pos() + c_first(a@),
            forall|i: int| 0 <= i < ts.len() ==> holds(doc(), sk, (#[trigger] slot_target(doc(), a.pos(), a.n(), i)).0, slot_target(doc(), a.pos(), a.n(), i).1, ts[i]),
        decreases n - j
    {
        proof { lemma_iter_first(a.pos(), a.n()); }
        let e = it.next();
        assert(e.is_some());
        let ghost x = slot_target(doc(), a.pos(), a.n(), j as int);
        assert(holds(doc(), sk, e.unwrap().pos(), e.unwrap().n(), ts[j as int]));
        j += 1;
    }
    let end = it.next();
    assert(end.is_none());
}
// C09: looking up a key gives the value written for it, or nothing if none was
//@thm C04 C09
fn thm_lookup<'a>(v: &'a Value, Ghost(sk): Ghost<Seq<Seq<u8>>>, Ghost(ks): Ghost<Seq<Seq<u8>>>, Ghost(vs): Ghost<Seq<Tree>>, key: &str, given: Option<&SharedKeys>) -> (r: Option<Option<&'a Value>>)
    requires v.ok(), holds(doc(), sk, v.pos(), v.n(), Tree::Dict(ks, vs)), distinct(ks),
        keys_known(v.pos(), v.n(), sk, given),
    ensures match r {
        Some(Some(e)) => exists|j: int| 0 <= j < ks.len() && #[trigger] ks[j] == encode_utf8(key@) && holds(doc(), sk, e.pos(), e.n(), vs[j]),
        Some(None) => !ks.contains(encode_utf8(key@)), None => false },
{
    let ghost pm = lemma_entries(doc(), sk, v.pos(), v.n(), ks, vs);
    proof { lemma_all_ok(); }
    let d = v.as_dict();
    assert(d.is_some());
    let d = match d { Some(d) => d, None => { return None; } };
    let n = d.len();
    assert(n == ks.len());
    let r = d._get_encoded(key, given);
    proof { lemma_lookup(d, sk, ks, vs, pm, encode_utf8(key@), given, r); }
    Some(r)
}
/// iterating a dict yields every pair written exactly once
//@thm C04 C08 C09
fn thm_pairs(v: &Value, Ghost(sk): Ghost<Seq<Seq<u8>>>, Ghost(ks): Ghost<Seq<Seq<u8>>>, Ghost(vs): Ghost<Seq<Tree>>)
    requires v.ok(), holds(doc(), sk, v.pos(), v.n(), Tree::Dict(ks, vs)), keys_known(v.pos(), v.n(), sk, None),
{
    let ghost pm = lemma_entries(doc(), sk, v.pos(), v.n(), ks, vs);
    proof { lemma_all_ok(); }
    let d = match v.as_dict() { Some(d) => d, None => { assert(false); return; } };
    let n = d.len();
    assert(n == ks.len());
    let mut it = d.iter();
    let mut i: usize = 0;
    proof { lemma_iter_first(d.pos(), d.n()); lemma_name_string(d.pos(), d.n(), sk); }
    // the i-th pair is the one written as number pm[i], and pm is a permutation
    assert(is_perm(pm, n as int));
    while i < n
        invariant d.ok(), i <= n, n == d.length(), n == ks.len(), c_count(d@) % 2 == 0, it.it().ok(), it.it().len == c_count(d@), it.it().index == 2 * i,
            it.it().width == c_width(d@), i < n ==> it.it().start() == d.pos() + c_first(d@), it.keys() == scope_keys(),
            entries(doc(), sk, d.pos(), d.n(), ks, vs, pm),
            forall|i: int| 0 <= i < n && key_name(sk, #[trigger] dict_key(doc(), d.pos(), d.n(), i)) is Some ==> key_string(dict_key(doc(), d.pos(), d.n(), i), scope_keys()) == key_name(sk, dict_key(doc(), d.pos(), d.n(), i)),
        decreases n - i
    {
        let ghost k = dict_key(doc(), d.pos(), d.n(), i as int);
        let ghost x = dict_val(doc(), d.pos(), d.n(), i as int);
        proof { lemma_iter_first(d.pos(), d.n()); reveal(dict_key); reveal(dict_val); assert(key_name(sk, k) == Some(ks[pm[i as int]])); }
        let left = it.size_hint();
        assert(left.0 == n - i);
        let e = it.next();
        assert(e.is_some());
        assert(encode_utf8(e.unwrap().0@) == ks[pm[i as int]]);
        assert(e.unwrap().1.ok() && holds(doc(), sk, e.unwrap().1.pos(), e.unwrap().1.n(), vs[pm[i as int]]));
        i += 1;
    }
    let end = it.next();
    assert(end.is_none());
}
