// ---------------------------------------------------------------- the tree a document stands for
pub enum Tree { Leaf(Leaf), Arr(Seq<Tree>), Dict(Seq<Seq<u8>>, Seq<Tree>) }
pub open spec fn prefix<A>(a: Seq<A>, b: Seq<A>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> a[i] == #[trigger] b[i] }
/// pm renumbers 0..n
pub open spec fn is_perm(pm: Seq<int>, n: int) -> bool {
    pm.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] pm[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] pm[i] != #[trigger] pm[j])
}
/// the region is the key k: as a string, or as a number of the shared keys sk
#[verifier::opaque]
pub open spec fn key_holds(d: Seq<u8>, sk: Seq<Seq<u8>>, r: (int, int), k: Seq<u8>) -> bool {
    let s = d.subrange(r.0, r.0 + r.1);
    0 <= r.0 && 2 <= r.1 && r.0 + r.1 <= d.len() && valid_utf8(k)
        && (leaf_at(s, Leaf::Str(k)) || (kind(s[0]) == ValueType::Short && short_raw(s) < sk.len() && sk[short_raw(s) as int] == k))
}
/// a collection's header and slots lie in the region
pub open spec fn coll_in(d: Seq<u8>, p: int, n: int) -> bool {
    let s = d.subrange(p, p + n);
    0 <= p && 2 <= n && p + n <= d.len() && (c_field(s) == 2047 ==> read_varint(s.skip(2)).0 > 0) && c_first(s) + c_count(s) * c_width(s) <= n
}
pub open spec fn perm_keys(d: Seq<u8>, sk: Seq<Seq<u8>>, p: int, n: int, ks: Seq<Seq<u8>>, pm: Seq<int>) -> bool {
    &&& is_perm(pm, ks.len() as int)
    &&& forall|i: int| 0 <= i < ks.len() ==> key_holds(d, sk, #[trigger] slot_target(d, p, n, 2 * i), ks[pm[i]])
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> key_cmp(#[trigger] dict_key(d, p, n, i), #[trigger] dict_key(d, p, n, j)) <= 0
}
/// the region [p, p+n) of d stands for the tree t, shared keys being numbered as in sk
#[verifier::opaque]
pub open spec fn holds(d: Seq<u8>, sk: Seq<Seq<u8>>, p: int, n: int, t: Tree) -> bool decreases t {
    let s = d.subrange(p, p + n);
    match t {
        Tree::Leaf(l) => 0 <= p && 2 <= n && p + n <= d.len() && leaf_at(s, l),
        Tree::Arr(ts) => coll_in(d, p, n) && kind(s[0]) == ValueType::Array && c_count(s) == ts.len()
            && forall|i: int| 0 <= i < ts.len() ==> holds(d, sk, (#[trigger] slot_target(d, p, n, i)).0, slot_target(d, p, n, i).1, ts[i]),
        Tree::Dict(ks, vs) => coll_in(d, p, n) && kind(s[0]) == ValueType::Dict && c_count(s) == 2 * ks.len() && vs.len() == ks.len()
            && exists|pm: Seq<int>| #[trigger] perm_keys(d, sk, p, n, ks, pm) && forall|i: int| 0 <= i < ks.len() ==>
                0 <= pm[i] < vs.len() && holds(d, sk, (#[trigger] slot_target(d, p, n, 2 * i + 1)).0, slot_target(d, p, n, 2 * i + 1).1, vs[pm[i]]),
    }
}
// ---- appending to the document, and to the shared keys, changes nothing
pub proof fn lemma_dec_prefix(a: Seq<u8>, b: Seq<u8>)
    requires prefix(a, b), dec_varint(a) is Some
    ensures dec_varint(b) == dec_varint(a)
    decreases a.len()
{
    assert(a[0] == b[0]);
    if a[0] >= 128 {
        assert forall|i: int| 0 <= i < a.skip(1).len() implies a.skip(1)[i] == #[trigger] b.skip(1)[i] by { assert(a[i + 1] == b[i + 1]); }
        lemma_dec_prefix(a.skip(1), b.skip(1));
    }
}
pub proof fn lemma_read_prefix(a: Seq<u8>, b: Seq<u8>, k: int)
    requires prefix(a, b), 0 <= k <= a.len(), read_varint(a.skip(k)).0 > 0
    ensures read_varint(b.skip(k)) == read_varint(a.skip(k))
{
    assert forall|i: int| 0 <= i < a.skip(k).len() implies a.skip(k)[i] == #[trigger] b.skip(k)[i] by { assert(a[i + k] == b[i + k]); }
    lemma_dec_prefix(a.skip(k), b.skip(k));
}
pub proof fn lemma_sub_prefix(a: Seq<u8>, b: Seq<u8>, i: int, j: int)
    requires prefix(a, b), 0 <= i <= j <= a.len()
    ensures a.subrange(i, j) == b.subrange(i, j)
{
    assert forall|x: int| 0 <= x < j - i implies a.subrange(i, j)[x] == b.subrange(i, j)[x] by { assert(a[i + x] == b[i + x]); }
    assert(a.subrange(i, j) =~= b.subrange(i, j));
}
pub proof fn lemma_leaf_grow(a: Seq<u8>, b: Seq<u8>, l: Leaf)
    requires prefix(a, b), leaf_at(a, l)
    ensures leaf_at(b, l)
{
    reveal(leaf_at);
    assert(a[0] == b[0] && a[1] == b[1]);
    let k = kind(a[0]);
    if k == ValueType::Int || k == ValueType::UnsignedInt { lemma_sub_prefix(a, b, 1, 1 + int_bytes(a) as int); assert(a[int_bytes(a) as int] == b[int_bytes(a) as int]); }
    else if k == ValueType::Float || k == ValueType::Double32 { lemma_sub_prefix(a, b, 2, 6); }
    else if k == ValueType::Double64 { lemma_sub_prefix(a, b, 2, 10); }
    else if k == ValueType::String || k == ValueType::Data {
        if a[0] % 16 == 15 { lemma_read_prefix(a, b, 1); lemma_read_within(a.skip(1)); }
        let (p, n) = data_range(a);
        assert(data_range(b) == (p, n));
        if p + n <= a.len() { lemma_sub_prefix(a, b, p as int, (p + n) as int); }
    }
}
pub proof fn lemma_target_grow(a: Seq<u8>, b: Seq<u8>, p: int, wide: bool)
    requires prefix(a, b), p + (if wide { 4int } else { 2 }) <= a.len(), target(a, p, wide) is Some
    ensures target(b, p, wide) == target(a, p, wide)
    decreases p
{
    let s = a.subrange(p, a.len() as int); let u = b.subrange(p, b.len() as int);
    assert(s[0] == a[p] && s[1] == a[p + 1] && u[0] == b[p] && u[1] == b[p + 1]);
    assert(a[p] == b[p] && a[p + 1] == b[p + 1]);
    if wide { assert(s[2] == a[p + 2] && s[3] == a[p + 3] && u[2] == b[p + 2] && u[3] == b[p + 3]); assert(a[p + 2] == b[p + 2] && a[p + 3] == b[p + 3]); }
    let off = ptr_off(s, wide);
    assert(off == ptr_off(u, wide));
    assert(a[p - off] == b[p - off]);
    if kind(a[p - off]) == ValueType::Pointer { lemma_target_grow(a, b, p - off, true); }
}
/// the slots of a collection
pub proof fn lemma_coll_slots(d: Seq<u8>, p: int, n: int)
    requires coll_in(d, p, n)
    ensures ({ let s = d.subrange(p, p + n);
        (c_width(s) == 2 || c_width(s) == 4) && c_first(s) >= 2 && forall|i: int| 0 <= i < c_count(s) ==> 2 <= #[trigger] c_slot(s, i) && c_slot(s, i) + c_width(s) <= n })
{
    let s = d.subrange(p, p + n);
    lemma_slots(s, p, n);
    lemma_read_within(s.skip(2));
}
pub proof fn lemma_coll_grow(a: Seq<u8>, b: Seq<u8>, p: int, n: int, m: int)
    requires prefix(a, b), coll_in(a, p, n), n <= m, p + m <= b.len(),
    ensures coll_in(b, p, m), ({ let s = a.subrange(p, p + n); let u = b.subrange(p, p + m);
        kind(u[0]) == kind(s[0]) && c_count(u) == c_count(s) && c_width(u) == c_width(s) && c_wide(u) == c_wide(s) && c_first(u) == c_first(s)
        && forall|i: int| #[trigger] c_slot(u, i) == c_slot(s, i) }),
        ({ let s = a.subrange(p, p + n);
            forall|i: int| 0 <= i < c_count(s) ==> ({ let r = #[trigger] slot_target(a, p, n, i);
                slot_target(b, p, m, i) == r || kind(a[r.0]) == ValueType::Pointer }) }),
{
    let s = a.subrange(p, p + n); let u = b.subrange(p, p + m);
    assert forall|i: int| 0 <= i < s.len() implies s[i] == #[trigger] u[i] by { assert(a[p + i] == b[p + i]); }
    assert(prefix(s, u));
    assert(s[0] == u[0] && s[1] == u[1]);
    if c_field(s) == 2047 { lemma_read_prefix(s, u, 2); }
    lemma_coll_slots(a, p, n);
    assert forall|i: int| #[trigger] c_slot(u, i) == c_slot(s, i) by {}
    assert forall|i: int| 0 <= i < c_count(s) implies ({ let r = #[trigger] slot_target(a, p, n, i);
                slot_target(b, p, m, i) == r || kind(a[r.0]) == ValueType::Pointer }) by {
        let q = p + c_slot(s, i); let w = c_width(s);
        assert(c_slot(u, i) == c_slot(s, i));
        assert(a[q] == b[q]);
        if kind(a[q]) == ValueType::Pointer && target(a, q, w == 4) is Some { lemma_target_grow(a, b, q, w == 4); }
    }
}
pub proof fn lemma_key_grow(a: Seq<u8>, b: Seq<u8>, sa: Seq<Seq<u8>>, sb: Seq<Seq<u8>>, r: (int, int), n: int, k: Seq<u8>)
    requires prefix(a, b), prefix(sa, sb), key_holds(a, sa, r, k), n >= r.1, r.0 + n <= b.len()
    ensures key_holds(b, sb, (r.0, n), k), key_at(a, r.0, r.1) == key_at(b, r.0, n), kind(a[r.0]) != ValueType::Pointer, kind(a[r.0]) == ValueType::Short || key_at(b, r.0, n) == KeyS::Str(k)
{
    reveal(key_holds); reveal(key_at);
    let s = a.subrange(r.0, r.0 + r.1); let u = b.subrange(r.0, r.0 + n);
    assert forall|i: int| 0 <= i < s.len() implies s[i] == #[trigger] u[i] by { assert(a[r.0 + i] == b[r.0 + i]); }
    assert(s[0] == u[0] && s[1] == u[1]);
    if leaf_at(s, Leaf::Str(k)) { lemma_leaf_grow(s, u, Leaf::Str(k)); reveal(leaf_at); }
    else { assert(sa[short_raw(s) as int] == sb[short_raw(s) as int]); }
}
pub proof fn lemma_holds_kind(d: Seq<u8>, sk: Seq<Seq<u8>>, p: int, n: int, t: Tree)
    requires holds(d, sk, p, n, t)
    ensures 0 <= p, 2 <= n, p + n <= d.len(), kind(d[p]) != ValueType::Pointer
{
    reveal(holds); reveal(leaf_at);
    assert(d.subrange(p, p + n)[0] == d[p]);
}
pub proof fn lemma_holds_grow(a: Seq<u8>, b: Seq<u8>, sa: Seq<Seq<u8>>, sb: Seq<Seq<u8>>, p: int, n: int, m: int, t: Tree)
    requires prefix(a, b), prefix(sa, sb), holds(a, sa, p, n, t), n <= m, p + m <= b.len()
    ensures holds(b, sb, p, m, t)
    decreases t
{
    lemma_holds_kind(a, sa, p, n, t);
    reveal(holds);
    let s = a.subrange(p, p + n); let u = b.subrange(p, p + m);
    match t {
        Tree::Leaf(l) => {
            assert forall|i: int| 0 <= i < s.len() implies s[i] == #[trigger] u[i] by { assert(a[p + i] == b[p + i]); }
            lemma_leaf_grow(s, u, l);
        }
        Tree::Arr(ts) => {
            lemma_coll_grow(a, b, p, n, m);
            assert forall|i: int| 0 <= i < ts.len() implies holds(b, sb, (#[trigger] slot_target(b, p, m, i)).0, slot_target(b, p, m, i).1, ts[i]) by {
                let r = slot_target(a, p, n, i);
                lemma_holds_kind(a, sa, r.0, r.1, ts[i]);
                lemma_holds_grow(a, b, sa, sb, r.0, r.1, r.1, ts[i]);
            }
        }
        Tree::Dict(ks, vs) => {
            lemma_coll_grow(a, b, p, n, m);
            let pm = choose|pm: Seq<int>| #[trigger] perm_keys(a, sa, p, n, ks, pm) && forall|i: int| 0 <= i < ks.len() ==>
                0 <= pm[i] < vs.len() && holds(a, sa, (#[trigger] slot_target(a, p, n, 2 * i + 1)).0, slot_target(a, p, n, 2 * i + 1).1, vs[pm[i]]);
            assert forall|i: int| 0 <= i < ks.len() implies key_holds(b, sb, #[trigger] slot_target(b, p, m, 2 * i), ks[pm[i]])
                && slot_target(b, p, m, 2 * i) == slot_target(a, p, n, 2 * i) && dict_key(a, p, n, i) == dict_key(b, p, m, i) by {
                let r = slot_target(a, p, n, 2 * i);
                assert(0 <= 2 * i < c_count(s));
                reveal(key_holds); reveal(dict_key);
                assert(key_holds(a, sa, r, ks[pm[i]]));
                lemma_key_grow(a, b, sa, sb, r, r.1, ks[pm[i]]);
            }
            assert forall|i: int, j: int| 0 <= i < j < ks.len() implies key_cmp(#[trigger] dict_key(b, p, m, i), #[trigger] dict_key(b, p, m, j)) <= 0 by {
                assert(slot_target(b, p, m, 2 * i) == slot_target(a, p, n, 2 * i));
                assert(slot_target(b, p, m, 2 * j) == slot_target(a, p, n, 2 * j));
            }
            assert(perm_keys(b, sb, p, m, ks, pm));
            assert forall|i: int| 0 <= i < ks.len() implies 0 <= pm[i] < vs.len() && holds(b, sb, (#[trigger] slot_target(b, p, m, 2 * i + 1)).0, slot_target(b, p, m, 2 * i + 1).1, vs[pm[i]]) by {
                let r = slot_target(a, p, n, 2 * i + 1);
                assert(0 <= 2 * i + 1 < c_count(s));
                assert(0 <= pm[i] < vs.len());
                lemma_holds_kind(a, sa, r.0, r.1, vs[pm[i]]);
                lemma_holds_grow(a, b, sa, sb, r.0, r.1, r.1, vs[pm[i]]);
            }
        }
    }
}
// ---- what stands for a tree is valid
pub proof fn lemma_resolved_valid(d: Seq<u8>, q: int, w: int)
    requires ({ let r = resolve(d, q, w); valid(d, r.0, r.1, false) && valid(d, r.0, r.1, true) }), 0 <= q, w == 2 || w == 4, q + w <= d.len()
    ensures valid(d, q, w, w == 4)
{
    lemma_valid(d, q, w);
    assert(d.subrange(q, q + w)[0] == d[q]);
    lemma_target(d, q, w == 4);
}
pub proof fn lemma_holds_valid(d: Seq<u8>, sk: Seq<Seq<u8>>, p: int, n: int, t: Tree)
    requires holds(d, sk, p, n, t)
    ensures valid(d, p, n, false), valid(d, p, n, true)
    decreases t
{
    lemma_holds_kind(d, sk, p, n, t);
    reveal(holds);
    lemma_valid(d, p, n);
    let s = d.subrange(p, p + n);
    match t {
        Tree::Leaf(l) => { reveal(leaf_at); }
        Tree::Arr(ts) => {
            lemma_coll_slots(d, p, n);
            assert forall|i: int| 0 <= i < c_count(s) implies valid(d, p + #[trigger] c_slot(s, i), c_width(s), c_wide(s)) by {
                let r = slot_target(d, p, n, i);
                lemma_holds_valid(d, sk, r.0, r.1, ts[i]);
                lemma_resolved_valid(d, p + c_slot(s, i), c_width(s));
            }
        }
        Tree::Dict(ks, vs) => {
            lemma_coll_slots(d, p, n);
            let pm = choose|pm: Seq<int>| #[trigger] perm_keys(d, sk, p, n, ks, pm) && forall|i: int| 0 <= i < ks.len() ==>
                0 <= pm[i] < vs.len() && holds(d, sk, (#[trigger] slot_target(d, p, n, 2 * i + 1)).0, slot_target(d, p, n, 2 * i + 1).1, vs[pm[i]]);
            assert forall|i: int| 0 <= i < c_count(s) implies valid(d, p + #[trigger] c_slot(s, i), c_width(s), c_wide(s)) by {
                let r = slot_target(d, p, n, i);
                if i % 2 == 0 {
                    let h = i / 2;
                    assert(slot_target(d, p, n, 2 * h) == r);
                    lemma_key_valid(d, sk, r, ks[pm[h]]);
                } else {
                    let h = i / 2;
                    assert(slot_target(d, p, n, 2 * h + 1) == r);
                    lemma_holds_valid(d, sk, r.0, r.1, vs[pm[h]]);
                }
                lemma_resolved_valid(d, p + c_slot(s, i), c_width(s));
            }
        }
    }
}
pub proof fn lemma_key_valid(d: Seq<u8>, sk: Seq<Seq<u8>>, r: (int, int), k: Seq<u8>)
    requires key_holds(d, sk, r, k)
    ensures valid(d, r.0, r.1, false), valid(d, r.0, r.1, true), kind(d[r.0]) != ValueType::Pointer
{
    reveal(key_holds); reveal(leaf_at);
    lemma_valid(d, r.0, r.1);
    assert(d.subrange(r.0, r.0 + r.1)[0] == d[r.0]);
}
/// putting a dict together
pub proof fn lemma_holds_dict(d: Seq<u8>, sk: Seq<Seq<u8>>, p: int, n: int, ks: Seq<Seq<u8>>, vs: Seq<Tree>, pm: Seq<int>)
    requires coll_in(d, p, n), kind(d.subrange(p, p + n)[0]) == ValueType::Dict, c_count(d.subrange(p, p + n)) == 2 * ks.len(), vs.len() == ks.len(), perm_keys(d, sk, p, n, ks, pm),
        forall|i: int| 0 <= i < ks.len() ==> 0 <= pm[i] < vs.len() && holds(d, sk, (#[trigger] slot_target(d, p, n, 2 * i + 1)).0, slot_target(d, p, n, 2 * i + 1).1, vs[pm[i]]),
    ensures holds(d, sk, p, n, Tree::Dict(ks, vs))
{
    reveal(holds);
}
/// the root of d stands for the tree
pub open spec fn doc_holds(d: Seq<u8>, sk: Seq<Seq<u8>>, t: Tree) -> bool {
    root(d) matches Some((p, n)) && holds(d, sk, p, n, t)
}
