// ---------------------------------------------------------------- what the contracts add up to
/// C13, C14: the copy of a document's value stands for the tree the value stands for
pub proof fn lemma_copy_stands(s: ValueSlot, sk: Seq<Seq<u8>>, p: int, n: int, t: Tree)
    requires ok_at(p, n), copied(s, p, n), holds(doc(), sk, p, n, t), all_distinct(t), sk_known(sk)
    ensures stands(s, t)
    decreases t
{
    lemma_copied(s, p, n);
    let b = doc().subrange(p, p + n);
    reveal(holds);
    match t {
        Tree::Leaf(l) => { lemma_leaf_same(b, l); assert(s.holds_leaf(copy_leaf(b))); }
        Tree::Arr(ts) => {
            assert(doc()[p] == b[0]);
            match s { ValueSlot::MutableArray(a) => {
                assert forall|i: int| 0 <= i < ts.len() implies stands(#[trigger] a.list@[i], ts[i]) by {
                    let r = slot_target(doc(), p, n, i);
                    lemma_smaller(p, n, i);
                    lemma_copy_stands(a.list@[i], sk, r.0, r.1, ts[i]);
                }
            } _ => {} }
        }
        Tree::Dict(ks, vs) => {
            assert(doc()[p] == b[0]);
            match s { ValueSlot::MutableDict(d) => {
                let pm = lemma_entries(doc(), sk, p, n, ks, vs);
                lemma_keys_copied(*d, sk, p, n, ks, vs, pm);
                assert forall|j: int| 0 <= j < ks.len() implies d.map@.contains_key(d.enc(#[trigger] ks[j])) && stands(d.map@[d.enc(ks[j])], vs[j]) by {
                    let r = lemma_pair_copied(*d, sk, p, n, ks, vs, pm, j);
                    lemma_copy_stands(d.map@[d.enc(ks[j])], sk, r.0, r.1, vs[j]);
                }
            } _ => {} }
        }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_keys_copied(d: MutableDict, sk: Seq<Seq<u8>>, p: int, n: int, ks: Seq<Seq<u8>>, vs: Seq<Tree>, pm: Seq<int>)
    requires ok_at(p, n), dict_copied(d, p, n), entries(doc(), sk, p, n, ks, vs, pm), sk_known(sk)
    ensures d.wf_sk(), forall|k: KeyS| #[trigger] d.map@.contains_key(k) ==> exists|i: int| 0 <= i < ks.len() && k == d.enc(#[trigger] ks[i])
{
    lemma_names(sk, p, n, ks, vs, pm);
    let m = choose|m: int| #[trigger] named(p, n, m) && pairs_copied(d, p, n, m);
    lemma_named(sk, p, n, ks, vs, pm, m);
    assert forall|k: KeyS| #[trigger] d.map@.contains_key(k) implies exists|i: int| 0 <= i < ks.len() && k == d.enc(#[trigger] ks[i]) by {
        let i = choose|i: int| 0 <= i < m && (#[trigger] name(p, n, i)) is Some && k == d.enc(name(p, n, i).unwrap());
        assert(name(p, n, i) == Some(ks[pm[i]]));
        assert(0 <= pm[i] < ks.len());
        assert(k == d.enc(ks[pm[i]]));
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_pair_copied(d: MutableDict, sk: Seq<Seq<u8>>, p: int, n: int, ks: Seq<Seq<u8>>, vs: Seq<Tree>, pm: Seq<int>, j: int) -> (r: (int, int))
    requires ok_at(p, n), kind(doc()[p]) == ValueType::Dict, dict_copied(d, p, n), entries(doc(), sk, p, n, ks, vs, pm), sk_known(sk), distinct(ks), 0 <= j < ks.len()
    ensures ok_at(r.0, r.1), holds(doc(), sk, r.0, r.1, vs[j]), d.map@.contains_key(d.enc(ks[j])), copied(d.map@[d.enc(ks[j])], r.0, r.1)
{
    lemma_names(sk, p, n, ks, vs, pm);
    let m = choose|m: int| #[trigger] named(p, n, m) && pairs_copied(d, p, n, m);
    lemma_named(sk, p, n, ks, vs, pm, m);
    lemma_perm_onto(pm, ks.len() as int, j);
    let i = choose|i: int| 0 <= i < ks.len() && #[trigger] pm[i] == j;
    let r = dict_val(doc(), p, n, i);
    assert(name(p, n, i) == Some(ks[pm[i]]));
    assert(last_of(p, n, m, i)) by {
        assert forall|x: int| i < x < m implies #[trigger] name(p, n, x) != name(p, n, i) by {
            assert(name(p, n, x) == Some(ks[pm[x]]));
            assert(pm[i] != pm[x]);
            if pm[i] < pm[x] { assert(ks[pm[i]] != ks[pm[x]]); } else { assert(ks[pm[x]] != ks[pm[i]]); }
        }
    }
    assert(holds(doc(), sk, r.0, r.1, vs[pm[i]]));
    lemma_smaller(p, n, 2 * i + 1);
    assert(r == slot_target(doc(), p, n, 2 * i + 1)) by { reveal(dict_val); }
    r
}
/// C13: a copy of an array of a document stands for what was written
//@thm C13 C04
fn thm_array_copy(v: &Array, Ghost(sk): Ghost<Seq<Seq<u8>>>, Ghost(ts): Ghost<Seq<Tree>>) -> (r: MutableArray)
    requires v.ok(), holds(doc(), sk, v.pos(), v.n(), Tree::Arr(ts)), all_distinct(Tree::Arr(ts)), sk_known(sk)
    ensures forall|i: int| 0 <= i < ts.len() ==> stands(#[trigger] r.list@[i], ts[i]), r.list@.len() == ts.len()
{
    let r = MutableArray::clone_from(v);
    proof {
        reveal(holds); let p = v.pos(); let n = v.n();
        assert(doc()[p] == doc().subrange(p, p + n)[0]);
        assert forall|i: int| 0 <= i < ts.len() implies stands(#[trigger] r.list@[i], ts[i]) by {
            let x = slot_target(doc(), p, n, i);
            lemma_smaller(p, n, i);
            lemma_copy_stands(r.list@[i], sk, x.0, x.1, ts[i]);
        }
    }
    r
}
/// C14: a copy of a dict of a document stands for what was written
//@thm C14 C04
fn thm_dict_copy(v: &Dict, Ghost(sk): Ghost<Seq<Seq<u8>>>, Ghost(ks): Ghost<Seq<Seq<u8>>>, Ghost(vs): Ghost<Seq<Tree>>) -> (r: MutableDict)
    requires v.ok(), holds(doc(), sk, v.pos(), v.n(), Tree::Dict(ks, vs)), all_distinct(Tree::Dict(ks, vs)), sk_known(sk)
    ensures r.ok(), forall|k: KeyS| #[trigger] r.map@.contains_key(k) ==> exists|i: int| 0 <= i < ks.len() && k == r.enc(#[trigger] ks[i]),
        forall|i: int| 0 <= i < ks.len() ==> r.map@.contains_key(r.enc(#[trigger] ks[i])) && stands(r.map@[r.enc(ks[i])], vs[i])
{
    let r = MutableDict::clone_from(v);
    proof {
        let p = v.pos(); let n = v.n();
        let pm = lemma_entries(doc(), sk, p, n, ks, vs);
        lemma_keys_copied(r, sk, p, n, ks, vs, pm);
        assert forall|j: int| 0 <= j < ks.len() implies r.map@.contains_key(r.enc(#[trigger] ks[j])) && stands(r.map@[r.enc(ks[j])], vs[j]) by {
            let x = lemma_pair_copied(r, sk, p, n, ks, vs, pm, j);
            lemma_distinct_at(ks, vs, j);
            lemma_copy_stands(r.map@[r.enc(ks[j])], sk, x.0, x.1, vs[j]);
        }
    }
    r
}
/// C13: a mutable array is a list
//@thm C13
fn thm_list_push<E: Encodable>(a: &mut MutableArray, value: E, Ghost(l): Ghost<Leaf>, i: usize)
    requires value.writable(), value.leaf() == Some(l)
    ensures final(a).list@.len() == old(a).list@.len() + 1, forall|j: int| 0 <= j < old(a).list@.len() ==> #[trigger] final(a).list@[j] == old(a).list@[j]
{
    let n = a.len();
    a.push(&value);
    let m = a.len();
    assert(m == n + 1);
    match a.get(n) { Some(v) => { assert(leaf_at(v@, l)); } None => { assert(false); } }
    match a.get_array(n) { Some(v) => { assert(false); } None => {} }
    match a.get_dict(n) { Some(v) => { assert(false); } None => {} }
}
//@thm C13
fn thm_list_set<E: Encodable>(a: &mut MutableArray, value: E, Ghost(l): Ghost<Leaf>, i: usize)
    requires value.writable(), value.leaf() == Some(l), i < old(a).list@.len()
    ensures final(a).list@.len() == old(a).list@.len(), forall|j: int| 0 <= j < old(a).list@.len() && j != i ==> #[trigger] final(a).list@[j] == old(a).list@[j]
{
    a.set(i, &value);
    match a.get(i) { Some(v) => { assert(leaf_at(v@, l)); } None => { assert(false); } }
    match a.get_array(i) { Some(v) => { assert(false); } None => {} }
}
//@thm C13
fn thm_list_nested(a: &mut MutableArray, b: MutableArray, d: MutableDict, i: usize, j: usize)
    requires i < old(a).list@.len(), j < old(a).list@.len(), i != j
{
    a.set_array(i, b);
    a.set_dict(j, d);
    match a.get_array(i) { Some(x) => { assert(*x == b); } None => { assert(false); } }
    match a.get_dict(j) { Some(x) => { assert(*x == d); } None => { assert(false); } }
    match a.get(i) { Some(x) => { assert(false); } None => {} }
    // changes through a mutable borrow are changes of the element
    match a.get_array_mut(i) { Some(x) => {
        let k = x.len();
        if k > 0 { x.remove(0); }
    } None => { assert(false); } }
    match a.get_array(i) { Some(x) => { assert(b.list@.len() > 0 ==> x.list@ == b.list@.remove(0)); } None => { assert(false); } }
    match a.get_dict(j) { Some(x) => { assert(*x == d); } None => { assert(false); } }
}
/// C13: iteration yields every element, in order, and says how many are left
//@thm C13
fn thm_array_iteration(a: &MutableArray)
    requires a.list@.len() < usize::MAX // a Vec of slots is no longer than isize::MAX bytes
{
    let n = a.len();
    let mut it = a.iter();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, n == a.list@.len(), it.arr == a, it.index == i
        decreases n - i
    {
        let left = it.size_hint();
        assert(left.0 == n - i && left.1 == Some((n - i) as usize));
        match it.next() { Some(e) => { assert(*e.slot == a.list@[i as int]); } None => { assert(false); } }
        i += 1;
    }
    let end = it.next();
    assert(end.is_none());
}
/// C14: a mutable dict is a map from strings
pub open spec fn entry(d: &MutableDict, k: Seq<u8>) -> Option<ValueSlot> { let e = d.enc(k); if d.map@.contains_key(e) { Some(d.map@[e]) } else { None } }
//@thm C14
fn thm_map_insert<E: Encodable>(d: &mut MutableDict, key: &str, value: E, Ghost(l): Ghost<Leaf>)
    requires old(d).ok(), value.writable(), value.leaf() == Some(l)
    ensures final(d).ok(), forall|k: Seq<u8>| k != encode_utf8(key@) ==> #[trigger] entry(final(d), k) == entry(old(d), k),
{
    proof { dict::lemma_enc(*d); }
    let ghost o = *d;
    let n = d.len();
    let had = d.contains_key(key);
    proof { axiom_btree_decreases(d.map); }
    d.insert(key, value);
    assert(d.map@.dom().len() == o.map@.dom().len() + (if had { 0int } else { 1 }));
    let c = d.contains_key(key);
    assert(c);
    match d.get(key) { Some(v) => { assert(leaf_at(v@, l)); } None => { assert(false); } }
    proof { lemma_ok_changed(o, *d, key@); }
}
//@thm C14
fn thm_map_remove(d: &mut MutableDict, key: &str)
    requires old(d).ok()
    ensures final(d).ok(), forall|k: Seq<u8>| k != encode_utf8(key@) ==> #[trigger] entry(final(d), k) == entry(old(d), k)
{
    proof { dict::lemma_enc(*d); }
    let ghost o = *d;
    let had = d.contains_key(key);
    proof { axiom_btree_decreases(d.map); }
    d.remove(key);
    assert(d.map@.dom().len() == o.map@.dom().len() - (if had { 1int } else { 0 }));
    let c = d.contains_key(key);
    assert(!c);
    match d.get(key) { Some(v) => { assert(false); } None => {} }
    proof { lemma_ok_changed(o, *d, key@); }
}
pub proof fn lemma_ok_changed(o: MutableDict, d: MutableDict, key: Seq<char>)
    requires o.ok(), d.shared_keys == o.shared_keys, forall|k: KeyS| #[trigger] d.map@.contains_key(k) ==> o.map@.contains_key(k) || k == o.enc(encode_utf8(key))
    ensures d.ok()
{
    assert forall|k: KeyS| #[trigger] d.map@.contains_key(k) implies exists|s: Seq<u8>| k == #[trigger] d.enc(s) by {
        if o.map@.contains_key(k) { let s = choose|s: Seq<u8>| k == #[trigger] o.enc(s); assert(k == d.enc(s)); } else { assert(k == d.enc(encode_utf8(key))); }
    }
}
/// C14: iteration yields every key exactly once, with its value; the keys come in ascending order of how they are kept
//@thm C14
fn thm_map_iteration(d: &MutableDict)
    requires d.ok()
{
    let n = d.len();
    let mut it = d.iter();
    let mut i: usize = 0;
    let ghost ks = it.map_iter.keys();
    let ghost mut names: Seq<Seq<u8>> = Seq::empty();
    proof { dict::lemma_enc(*d); axiom_btree_decreases(d.map); }
    assert(n == ks.len());
    while i < n
        invariant i <= n, n == ks.len(), n == d.map@.dom().len(), it.map_iter.ok(), it.map_iter.keys() == ks, it.map_iter.index() == i, it.map_iter.map()@ == d.map@, it.shared_keys == d.shared_keys, d.ok(),
            forall|a: Seq<u8>| d.dec(#[trigger] d.enc(a)) == Some(a),
            names.len() == i, forall|j: int| 0 <= j < i ==> ks[j] == d.enc(#[trigger] names[j]),
        decreases n - i
    {
        let left = it.size_hint();
        assert(left.0 == n - i && left.1 == Some((n - i) as usize));
        assert(d.map@.contains_key(ks[i as int]));
        let ghost s = choose|s: Seq<u8>| ks[i as int] == #[trigger] d.enc(s);
        assert(it.dec(ks[i as int]) == d.dec(ks[i as int]));
        match it.next() {
            Some(e) => { assert(encode_utf8(e.0@) == s); assert(entry(d, s) == Some(*e.1.slot)); proof { names = names.push(s); } }
            None => { assert(false); }
        }
        i += 1;
    }
    let end = it.next();
    assert(end.is_none());
    // different strings each time, and no other string has an entry
    assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] names[a] != #[trigger] names[b] by { assert(key_cmp(ks[a], ks[b]) < 0); lemma_key_cmp(); }
    assert forall|s: Seq<u8>| entry(d, s).is_some() implies exists|j: int| 0 <= j < n && #[trigger] names[j] == s by {
        assert(d.map@.contains_key(d.enc(s)));
        assert(ks.contains(d.enc(s)));
        let j = choose|j: int| 0 <= j < ks.len() && ks[j] == d.enc(s);
        assert(d.enc(names[j]) == d.enc(s));
        assert(d.dec(d.enc(names[j])) == d.dec(d.enc(s)));
        assert(names[j] == s);
    }
}
