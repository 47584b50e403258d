// ---------------------------------------------------------------- what copying a value out of a document gives
/// what a copied leaf may differ in: a 32-bit float went through f64 (or was stored as `Double32`), and a string which is not UTF-8 reads as empty
pub open spec fn leaf_same(l: Leaf, c: Leaf) -> bool {
    c == l || match l {
        Leaf::Float(f) => c == Leaf::Float(f64_as_f32(f32_as_f64(f))) || c == Leaf::Double(f32_as_f64(f)),
        Leaf::Str(b) => !valid_utf8(b) && c == Leaf::Str(Seq::empty()),
        _ => false,
    }
}
/// the leaf a scalar of a document is copied as
pub open spec fn copy_leaf(s: Seq<u8>) -> Leaf {
    match kind(s[0]) {
        ValueType::Float => Leaf::Float(f64_as_f32(f64_val(s))),
        ValueType::Double32 | ValueType::Double64 => Leaf::Double(f64_val(s)),
        ValueType::String => Leaf::Str(str_at(s)),
        _ => leaf(s).unwrap(),
    }
}
/// what the accessors give for each kind of scalar
pub proof fn lemma_scalars(s: Seq<u8>)
    requires scalar_ok(s)
    ensures kind(s[0]) == ValueType::Short ==> -2048 <= num_val(s) < 2048,
        kind(s[0]) == ValueType::Int ==> num_val(s) < 0x8000_0000_0000_0000,
        kind(s[0]) == ValueType::UnsignedInt ==> 0 <= num_val(s),
        kind(s[0]) == ValueType::String ==> copy_leaf(s) == Leaf::Str(str_at(s)),
{
    lemma_bits(); lemma_short(s); lemma_int_reads(s);
}
pub open spec fn smaller(p: int, n: int, r: (int, int)) -> bool { 0 <= r.0 && 0 <= r.1 && (r.0 + r.1 < p + n || (r.0 + r.1 == p + n && r.1 < n)) }
/// the string of the i-th key of a dict of the document
pub open spec fn name(p: int, n: int, i: int) -> Option<Seq<u8>> { key_string(dict_key(doc(), p, n, i), scope_keys()) }
/// the keys of a dict up to number m are strings; iteration ends there
pub open spec fn named(p: int, n: int, m: int) -> bool {
    let c = dict_len(doc().subrange(p, p + n));
    0 <= m <= c && (forall|i: int| 0 <= i < m ==> (#[trigger] name(p, n, i)) is Some) && (m < c ==> name(p, n, m) is None)
}
pub proof fn lemma_smaller(p: int, n: int, i: int)
    requires ok_at(p, n), is_coll(kind(doc()[p])), 0 <= i < c_count(doc().subrange(p, p + n))
    ensures smaller(p, n, slot_target(doc(), p, n, i)), ok_at(slot_target(doc(), p, n, i).0, slot_target(doc(), p, n, i).1)
{
    let s = doc().subrange(p, p + n);
    lemma_ok(p, n);
    assert(s[0] == doc()[p]);
    let q = p + c_slot(s, i);
    lemma_target(doc(), q, c_width(s) == 4);
    assert(slot_ok(q, c_width(s)));
}
/// one pair as iteration gives it
pub proof fn lemma_pair(p: int, n: int, j: int, k: &str, v: &Value, len: int)
    requires ok_at(p, n), kind(doc()[p]) == ValueType::Dict, 0 <= j, 2 * j + 1 < len, len == c_count(doc().subrange(p, p + n)), (v.pos(), v.n()) == slot_target(doc(), p, n, 2 * j + 1)
    ensures smaller(p, n, (v.pos(), v.n())), dict_val(doc(), p, n, j) == (v.pos(), v.n())
{
    lemma_smaller(p, n, 2 * j + 1); reveal(dict_val);
}
/// every dict of the tree has different keys
pub open spec fn all_distinct(t: Tree) -> bool decreases t {
    match t {
        Tree::Leaf(_) => true,
        Tree::Arr(ts) => forall|i: int| 0 <= i < ts.len() ==> all_distinct(#[trigger] ts[i]),
        Tree::Dict(ks, vs) => distinct(ks) && forall|i: int| 0 <= i < vs.len() ==> all_distinct(#[trigger] vs[i]),
    }
}
pub proof fn lemma_distinct_at(ks: Seq<Seq<u8>>, vs: Seq<Tree>, j: int)
    requires all_distinct(Tree::Dict(ks, vs)), 0 <= j < vs.len()
    ensures all_distinct(vs[j]), distinct(ks)
{
    let t = Tree::Dict(ks, vs);
    assert(all_distinct(t));
    assert(t->Dict_1 == vs);
    assert(all_distinct(t->Dict_1[j]));
}
/// the shared keys at hand number the keys as when the document was written
pub open spec fn sk_known(sk: Seq<Seq<u8>>) -> bool { match scope_keys() { Some(s) => prefix(sk, s@), None => sk.len() == 0 } }
/// the keys are strings, all of them
pub proof fn lemma_names(sk: Seq<Seq<u8>>, p: int, n: int, ks: Seq<Seq<u8>>, vs: Seq<Tree>, pm: Seq<int>)
    requires entries(doc(), sk, p, n, ks, vs, pm), sk_known(sk)
    ensures forall|i: int| 0 <= i < ks.len() ==> #[trigger] name(p, n, i) == Some(ks[pm[i]]), keys_known(p, n, sk, None)
{
    assert forall|i: int| 0 <= i < ks.len() implies key_name(sk, #[trigger] dict_key(doc(), p, n, i)) == Some(ks[pm[i]]) by {}
    lemma_name_string(p, n, sk);
    assert forall|i: int| 0 <= i < ks.len() implies #[trigger] name(p, n, i) == Some(ks[pm[i]]) by { assert(key_name(sk, dict_key(doc(), p, n, i)) == Some(ks[pm[i]])); }
}
pub proof fn lemma_leaf_same(b: Seq<u8>, l: Leaf)
    requires leaf_at(b, l)
    ensures leaf_same(l, copy_leaf(b)), !is_coll(kind(b[0]))
{
    reveal(leaf_at);
}
#[verifier::spinoff_prover]
pub proof fn lemma_named(sk: Seq<Seq<u8>>, p: int, n: int, ks: Seq<Seq<u8>>, vs: Seq<Tree>, pm: Seq<int>, m: int)
    requires entries(doc(), sk, p, n, ks, vs, pm), sk_known(sk), named(p, n, m)
    ensures m == ks.len()
{
    lemma_names(sk, p, n, ks, vs, pm);
    if m < ks.len() { assert(name(p, n, m) == Some(ks[pm[m]])); }
}
/// the bytes of a sub-slice
#[verifier::external_body]
pub fn vx_bytes<'a>(b: &'a Bytes) -> (r: &'a [u8]) ensures r@ == b@ { unimplemented!() }
