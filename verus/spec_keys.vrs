// ---------------------------------------------------------------- dictionary keys and their order
pub enum KeyS { Shared(nat), Str(Seq<u8>) }
/// byte-wise lexicographic comparison: negative, zero, positive
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> int decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { 0 } else { -1 } }
    else if b.len() == 0 { 1 }
    else if a[0] < b[0] { -1 }
    else if a[0] > b[0] { 1 }
    else { lex(a.skip(1), b.skip(1)) }
}
/// shared keys come first, by number; then strings, by their bytes
pub open spec fn key_cmp(a: KeyS, b: KeyS) -> int {
    match (a, b) {
        (KeyS::Shared(x), KeyS::Shared(y)) => if x < y { -1 } else if x > y { 1 } else { 0 },
        (KeyS::Shared(_), KeyS::Str(_)) => -1,
        (KeyS::Str(_), KeyS::Shared(_)) => 1,
        (KeyS::Str(x), KeyS::Str(y)) => lex(x, y),
    }
}
pub open spec fn ord_int(o: core::cmp::Ordering) -> int {
    match o { core::cmp::Ordering::Less => -1, core::cmp::Ordering::Equal => 0, core::cmp::Ordering::Greater => 1 }
}
pub proof fn lemma_lex(a: Seq<u8>, b: Seq<u8>)
    ensures lex(a, b) == -1 || lex(a, b) == 0 || lex(a, b) == 1, (lex(a, b) == 0) == (a == b), lex(b, a) == -lex(a, b)
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { assert(a =~= b); } }
    else if b.len() != 0 {
        lemma_lex(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    }
}
pub proof fn lemma_lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lex(a, b) < 0, lex(b, c) < 0
    ensures lex(a, c) < 0
    decreases a.len()
{
    if a.len() != 0 && b.len() != 0 && c.len() != 0 && a[0] == b[0] && b[0] == c[0] { lemma_lex_trans(a.skip(1), b.skip(1), c.skip(1)); }
}
pub proof fn lemma_key_cmp()
    ensures
        forall|a: KeyS, b: KeyS| #![trigger key_cmp(a, b)] (key_cmp(a, b) == -1 || key_cmp(a, b) == 0 || key_cmp(a, b) == 1)
            && (key_cmp(a, b) == 0) == (a == b) && key_cmp(b, a) == -key_cmp(a, b),
{
    assert forall|a: KeyS, b: KeyS| #![trigger key_cmp(a, b)] (key_cmp(a, b) == -1 || key_cmp(a, b) == 0 || key_cmp(a, b) == 1)
            && (key_cmp(a, b) == 0) == (a == b) && key_cmp(b, a) == -key_cmp(a, b) by {
        match (a, b) { (KeyS::Str(x), KeyS::Str(y)) => { lemma_lex(x, y); } _ => {} }
    }
}
pub proof fn lemma_key_trans(a: KeyS, b: KeyS, c: KeyS)
    ensures key_cmp(a, b) < 0 && key_cmp(b, c) < 0 ==> key_cmp(a, c) < 0,
        key_cmp(a, b) <= 0 && key_cmp(b, c) < 0 ==> key_cmp(a, c) < 0,
        key_cmp(a, b) < 0 && key_cmp(b, c) <= 0 ==> key_cmp(a, c) < 0,
{
    lemma_key_cmp();
    assert(key_cmp(a, b) == 0 ==> a == b);
    assert(key_cmp(b, c) == 0 ==> b == c);
    match (a, b, c) { (KeyS::Str(x), KeyS::Str(y), KeyS::Str(z)) => { if lex(x, y) < 0 && lex(y, z) < 0 { lemma_lex_trans(x, y, z); } } _ => {} }
}
