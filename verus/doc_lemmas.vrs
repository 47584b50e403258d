// ---------------------------------------------------------------- reading a document which stands for a tree
/// a renumbering reaches every number
pub proof fn lemma_perm_onto(pm: Seq<int>, n: int, j: int)
    requires is_perm(pm, n), 0 <= j < n
    ensures exists|i: int| 0 <= i < n && #[trigger] pm[i] == j
{
    assert(pm.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < pm.len() && 0 <= b < pm.len() && a != b implies pm[a] != pm[b] by { if a < b { assert(pm[a] != pm[b]); } else { assert(pm[b] != pm[a]); } } }
    pm.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    let r = vstd::set_lib::set_int_range(0, n);
    assert(pm.to_set().subset_of(r)) by { assert forall|x: int| pm.to_set().contains(x) implies r.contains(x) by { assert(pm.contains(x)); let i = choose|i: int| 0 <= i < pm.len() && pm[i] == x; assert(0 <= pm[i] < n); } }
    vstd::set_lib::lemma_subset_equality(pm.to_set(), r);
    assert(pm.to_set().contains(j));
    assert(pm.contains(j));
    let i = choose|i: int| 0 <= i < pm.len() && pm[i] == j;
    assert(pm[i] == j);
}
/// the string a key stands for
pub open spec fn key_name(sk: Seq<Seq<u8>>, k: KeyS) -> Option<Seq<u8>> { match k { KeyS::Shared(i) => if i < sk.len() { Some(sk[i as int]) } else { None }, KeyS::Str(s) => Some(s) } }
pub proof fn lemma_key_name(d: Seq<u8>, sk: Seq<Seq<u8>>, r: (int, int), k: Seq<u8>)
    requires key_holds(d, sk, r, k)
    ensures key_name(sk, key_at(d, r.0, r.1)) == Some(k)
{
    reveal(key_holds); reveal(leaf_at); reveal(key_at);
}
pub open spec fn distinct(ks: Seq<Seq<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j] }
/// the entries of the dict at [p, p+n), pm telling the place of each among those written
pub open spec fn entries(d: Seq<u8>, sk: Seq<Seq<u8>>, p: int, n: int, ks: Seq<Seq<u8>>, vs: Seq<Tree>, pm: Seq<int>) -> bool {
    &&& is_perm(pm, ks.len() as int) && vs.len() == ks.len() && dict_len(d.subrange(p, p + n)) == ks.len() && c_count(d.subrange(p, p + n)) == 2 * ks.len()
    &&& forall|i: int| 0 <= i < ks.len() ==> key_name(sk, #[trigger] dict_key(d, p, n, i)) == Some(ks[pm[i]])
    &&& forall|i: int| 0 <= i < ks.len() ==> holds(d, sk, (#[trigger] dict_val(d, p, n, i)).0, dict_val(d, p, n, i).1, vs[pm[i]])
    &&& forall|i: int| 0 <= i < ks.len() ==> (#[trigger] dict_key(d, p, n, i)) is Shared ==> dict_key(d, p, n, 0) is Shared
}
pub proof fn lemma_entries(d: Seq<u8>, sk: Seq<Seq<u8>>, p: int, n: int, ks: Seq<Seq<u8>>, vs: Seq<Tree>) -> (pm: Seq<int>)
    requires holds(d, sk, p, n, Tree::Dict(ks, vs))
    ensures entries(d, sk, p, n, ks, vs, pm), distinct(ks) ==> dict_sorted(d, p, n), kind(d[p]) == ValueType::Dict
{
    reveal(holds); reveal(dict_val); reveal(dict_sorted);
    let s = d.subrange(p, p + n);
    assert(s[0] == d[p]);
    let pm = choose|pm: Seq<int>| #[trigger] perm_keys(d, sk, p, n, ks, pm) && forall|i: int| 0 <= i < ks.len() ==>
        0 <= pm[i] < vs.len() && holds(d, sk, (#[trigger] slot_target(d, p, n, 2 * i + 1)).0, slot_target(d, p, n, 2 * i + 1).1, vs[pm[i]]);
    assert(dict_len(s) == ks.len()) by { assert((2 * ks.len()) as int / 2 == ks.len()); }
    assert forall|i: int| 0 <= i < ks.len() implies key_name(sk, #[trigger] dict_key(d, p, n, i)) == Some(ks[pm[i]]) by {
        reveal(dict_key);
        let r = slot_target(d, p, n, 2 * i);
        lemma_key_name(d, sk, r, ks[pm[i]]);
    }
    assert forall|i: int| 0 <= i < ks.len() implies (#[trigger] dict_key(d, p, n, i)) is Shared ==> dict_key(d, p, n, 0) is Shared by {
        if i > 0 { assert(key_cmp(dict_key(d, p, n, 0), dict_key(d, p, n, i)) <= 0); }
    }
    assert forall|i: int| 0 <= i < ks.len() implies holds(d, sk, (#[trigger] dict_val(d, p, n, i)).0, dict_val(d, p, n, i).1, vs[pm[i]]) by { let x = slot_target(d, p, n, 2 * i + 1); }
    if distinct(ks) {
        lemma_key_cmp();
        assert forall|i: int, j: int| 0 <= i < j < dict_len(s) implies key_cmp(#[trigger] dict_key(d, p, n, i), #[trigger] dict_key(d, p, n, j)) < 0 by {
            assert(key_cmp(dict_key(d, p, n, i), dict_key(d, p, n, j)) <= 0);
            assert(pm[i] != pm[j]);
            if pm[i] < pm[j] { assert(ks[pm[i]] != ks[pm[j]]); } else { assert(ks[pm[j]] != ks[pm[i]]); }
        }
    }
    pm
}
/// the keys which `keyed` gives for strings are theirs, whatever has been added to the shared keys since
pub proof fn lemma_keyed_name(sk: Seq<Seq<u8>>, now: Seq<Seq<u8>>, k: KeyS, key: Seq<u8>)
    requires prefix(sk, now), sk_ok(now), key_name(sk, k) is Some
    ensures (k == KeyS::Str(key) || match sk_encode(now, key) { Some(i) => k == KeyS::Shared(i as nat), None => false }) == (key_name(sk, k) == Some(key))
{
    match k {
        KeyS::Shared(i) => { assert(sk[i as int] == now[i as int]); lemma_sk_find(now, i as int); if now.contains(key) { assert(now[now.index_of(key)] == key); } }
        KeyS::Str(s) => {}
    }
}
/// the shared keys a reader has at hand still number the keys as when the document was written
pub open spec fn keys_known(p: int, n: int, sk: Seq<Seq<u8>>, given: Option<&SharedKeys>) -> bool {
    match given {
        Some(s) => prefix(sk, s@),
        None => match scope_keys() { Some(s) => prefix(sk, s@), None => forall|i: int| 0 <= i < dict_len(doc().subrange(p, p + n)) ==> !((#[trigger] dict_key(doc(), p, n, i)) is Shared) },
    }
}
pub proof fn lemma_lookup(d: &Dict, sk: Seq<Seq<u8>>, ks: Seq<Seq<u8>>, vs: Seq<Tree>, pm: Seq<int>, key: Seq<u8>, given: Option<&SharedKeys>, r: Option<&Value>)
    requires d.ok(), entries(doc(), sk, d.pos(), d.n(), ks, vs, pm), d.sorted(), distinct(ks), keys_known(d.pos(), d.n(), sk, given), d.found(key, given, r),
    ensures match r { Some(v) => exists|j: int| 0 <= j < ks.len() && #[trigger] ks[j] == key && holds(doc(), sk, v.pos(), v.n(), vs[j]), None => !ks.contains(key) }
{
    let p = d.pos(); let n = d.n();
    match given { Some(s) => { axiom_shared_keys(*s); } None => { match scope_keys() { Some(s) => { axiom_shared_keys(s); } None => {} } } }
    assert forall|i: int| 0 <= i < ks.len() implies (#[trigger] d.key(i) == d.keyed(key, given) || d.key(i) == KeyS::Str(key)) == (ks[pm[i]] == key) by {
        let k = dict_key(doc(), p, n, i);
        assert(key_name(sk, k) == Some(ks[pm[i]]));
        match given {
            Some(s) => { lemma_keyed_name(sk, s@, k, key); }
            None => { match scope_keys() {
                Some(s) => { lemma_keyed_name(sk, s@, k, key); if k is Shared { assert(dict_key(doc(), p, n, 0) is Shared); } }
                None => {}
            } }
        }
    }
    match r {
        Some(v) => {
            let i = choose|i: int| 0 <= i < d.length() && (#[trigger] d.key(i) == d.keyed(key, given) || d.key(i) == KeyS::Str(key)) && d.val(i) == (v.pos(), v.n());
            assert(0 <= pm[i] < ks.len());
            assert(ks[pm[i]] == key);
            assert(holds(doc(), sk, d.val(i).0, d.val(i).1, vs[pm[i]]));
        }
        None => {
            if ks.contains(key) {
                let j = ks.index_of(key);
                lemma_perm_onto(pm, ks.len() as int, j);
                let i = choose|i: int| 0 <= i < ks.len() && #[trigger] pm[i] == j;
                assert(d.key(i) == dict_key(doc(), p, n, i));
            }
        }
    }
}
pub proof fn lemma_name_string(p: int, n: int, sk: Seq<Seq<u8>>)
    requires keys_known(p, n, sk, None)
    ensures forall|i: int| 0 <= i < dict_len(doc().subrange(p, p + n)) && key_name(sk, #[trigger] dict_key(doc(), p, n, i)) is Some
        ==> key_string(dict_key(doc(), p, n, i), scope_keys()) == key_name(sk, dict_key(doc(), p, n, i))
{
    match scope_keys() { Some(s) => { axiom_shared_keys(s); } None => {} }
    assert forall|i: int| 0 <= i < dict_len(doc().subrange(p, p + n)) && key_name(sk, #[trigger] dict_key(doc(), p, n, i)) is Some
        implies key_string(dict_key(doc(), p, n, i), scope_keys()) == key_name(sk, dict_key(doc(), p, n, i)) by {
        match dict_key(doc(), p, n, i) {
            KeyS::Shared(x) => { match scope_keys() { Some(s) => { assert(sk[x as int] == s@[x as int]); } None => {} } }
            KeyS::Str(_) => {}
        }
    }
}
