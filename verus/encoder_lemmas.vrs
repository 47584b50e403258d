// ---- appending to the output leaves what is stored as it is
pub proof fn lemma_item_grow(a: Seq<u8>, b: Seq<u8>, sa: Seq<Seq<u8>>, sb: Seq<Seq<u8>>)
    requires prefix(a, b), prefix(sa, sb)
    ensures forall|v: SizedValue, t: Tree| #[trigger] item_holds(a, sa, v, t) ==> item_holds(b, sb, v, t),
        forall|k: DictKey, s: Seq<u8>| #[trigger] dkey_holds(a, sa, k, s) ==> dkey_holds(b, sb, k, s),
        forall|c: Collection, f: Frame| #[trigger] coll_holds(a, sa, c, f) ==> coll_holds(b, sb, c, f),
{
    assert forall|v: SizedValue, t: Tree| #[trigger] item_holds(a, sa, v, t) implies item_holds(b, sb, v, t) by {
        reveal(item_holds);
        if v.is_ptr() { lemma_holds_grow(a, b, sa, sb, v.ptr(), a.len() - v.ptr(), b.len() - v.ptr(), t); }
    }
    assert forall|k: DictKey, s: Seq<u8>| #[trigger] dkey_holds(a, sa, k, s) implies dkey_holds(b, sb, k, s) by {
        reveal(dkey_holds);
        match k {
            DictKey::Pointer(_, o) => { assert forall|i: int| 0 <= i < a.skip(o as int).len() implies a.skip(o as int)[i] == #[trigger] b.skip(o as int)[i] by { assert(a[o + i] == b[o + i]); }
                lemma_leaf_grow(a.skip(o as int), b.skip(o as int), Leaf::Str(s)); }
            DictKey::Shared(id) => { assert(sa[id as int] == sb[id as int]); }
            _ => {}
        }
    }
    assert forall|c: Collection, f: Frame| #[trigger] coll_holds(a, sa, c, f) implies coll_holds(b, sb, c, f) by { reveal(coll_holds); }
}
/// changing nothing but the end of the output, the shared keys' end, and the innermost collection
pub proof fn lemma_repr_top(e: Encoder, g: Encoder, w: EView, f: Frame)
    requires repr(e, w), w.frames.len() > 0, prefix(e.out@, g.out@), prefix(e.sk(), g.sk()), sk_ok(g.sk()), g.out@.len() % 2 == 0,
        g.cs().len() == e.cs().len(), forall|i: int| 0 <= i < e.cs().len() - 1 ==> g.cs()[i] == #[trigger] e.cs()[i], g.top_collection_closed == e.top_collection_closed,
        coll_holds(g.out@, g.sk(), g.cs().last(), f)
    ensures repr(g, EView { frames: w.frames.update(w.frames.len() - 1, f), done: w.done })
{
    reveal(repr);
    lemma_item_grow(e.out@, g.out@, e.sk(), g.sk());
    let v = EView { frames: w.frames.update(w.frames.len() - 1, f), done: w.done };
    assert forall|i: int| 0 <= i < v.frames.len() implies coll_holds(g.out@, g.sk(), #[trigger] g.cs()[i], v.frames[i]) by {
        if i < v.frames.len() - 1 { assert(e.cs()[i] == g.cs()[i]); assert(coll_holds(e.out@, e.sk(), e.cs()[i], w.frames[i])); }
    }
    assert forall|i: int| 0 <= i < v.frames.len() - 1 implies ready(#[trigger] v.frames[i]) by { assert(ready(w.frames[i])); }
}
/// the value is put into the innermost collection
pub open spec fn top_push(c: Collection, v: SizedValue, d: Collection) -> bool {
    match (c, d) {
        (Collection::Array(a), Collection::Array(b)) => b.values@ == a.values@.push(v),
        (Collection::Dict(a), Collection::Dict(b)) => a.next_key matches Some(k) && b.values@ == a.values@.push(DictElement { key: k, val: v }) && b.next_key is None,
        _ => false,
    }
}
pub proof fn lemma_top_push(out: Seq<u8>, sk: Seq<Seq<u8>>, c: Collection, d: Collection, v: SizedValue, f: Frame, t: Tree)
    requires coll_holds(out, sk, c, f), top_push(c, v, d), item_holds(out, sk, v, t)
    ensures coll_holds(out, sk, d, push(f, t)), ready(f), count(d) == count(c) + 1
{
    reveal(coll_holds);
    match (c, d, f) {
        (Collection::Array(a), Collection::Array(b), Frame::Arr(ts)) => {
            assert forall|i: int| 0 <= i < b.values@.len() implies item_holds(out, sk, #[trigger] b.values@[i], ts.push(t)[i]) by { if i < a.values@.len() { assert(item_holds(out, sk, a.values@[i], ts[i])); } }
        }
        (Collection::Dict(a), Collection::Dict(b), Frame::Dict(ks, ts, Some(k))) => {
            assert forall|i: int| 0 <= i < b.values@.len() implies dkey_holds(out, sk, (#[trigger] b.values@[i]).key, ks.push(k)[i]) && item_holds(out, sk, b.values@[i].val, ts.push(t)[i]) by {
                if i < a.values@.len() { assert(dkey_holds(out, sk, (a.values@[i]).key, ks[i])); }
            }
        }
        _ => {}
    }
}
pub proof fn lemma_need(cs: Seq<Collection>, ds: Seq<Collection>)
    requires cs.len() == ds.len(), cs.len() > 0, forall|i: int| 0 <= i < cs.len() - 1 ==> ds[i] == #[trigger] cs[i],
    ensures need(ds) + 8 * count(cs.last()) == need(cs) + 8 * count(ds.last()), need(cs) >= 8
{
    assert(cs.drop_last() =~= ds.drop_last());
    lemma_need_pos(cs);
}
pub proof fn lemma_need_pos(cs: Seq<Collection>)
    ensures need(cs) >= 8
    decreases cs.len()
{
    if cs.len() > 0 { lemma_need_pos(cs.drop_last()); }
}
pub proof fn lemma_live(e: Encoder)
    requires live(e)
    ensures e.out@.len() % 2 == 0, sk_ok(e.sk()), need(e.cs()) >= 8,
        forall|i: int| 0 <= i < e.cs().len() - 1 ==> (#[trigger] e.cs()[i] matches Collection::Dict(d) ==> d.next_key is Some),
{
    let w = choose|w: EView| repr(e, w);
    reveal(repr); reveal(coll_holds);
    lemma_need_pos(e.cs());
    assert forall|i: int| 0 <= i < e.cs().len() - 1 implies (#[trigger] e.cs()[i] matches Collection::Dict(d) ==> d.next_key is Some) by {
        assert(coll_holds(e.out@, e.sk(), e.cs()[i], w.frames[i])); assert(ready(w.frames[i]));
    }
}
/// what a view says about the innermost collection
pub proof fn lemma_top(e: Encoder, w: EView)
    requires repr(e, w)
    ensures e.cs().len() == w.frames.len(), e.top_collection_closed == (w.done is Some), w.done is Some ==> w.frames.len() == 0,
        w.frames.len() > 0 ==> coll_holds(e.out@, e.sk(), e.cs().last(), w.frames.last()) && (match e.cs().last() {
            Collection::Array(_) => w.frames.last() is Arr,
            Collection::Dict(d) => w.frames.last() matches Frame::Dict(_, _, k) && (k is Some) == (d.next_key is Some),
        }),
        sk_ok(e.sk()), e.out@.len() % 2 == 0
{
    reveal(repr); reveal(coll_holds);
    if w.frames.len() > 0 { assert(coll_holds(e.out@, e.sk(), e.cs()[e.cs().len() - 1], w.frames[w.frames.len() - 1])); }
}
/// a leaf which has just been written
pub proof fn lemma_written(out: Seq<u8>, sk: Seq<Seq<u8>>, off: int, n: int, v: SizedValue, l: Leaf)
    requires 0 <= off, n >= 0, off + n <= out.len(), off % 2 == 0, leaf_at(out.subrange(off, off + n), l), v.is_ptr(), v.ok(), v.ptr() == off
    ensures item_holds(out, sk, v, Tree::Leaf(l))
{
    reveal(item_holds); reveal(holds);
    let a = out.subrange(off, off + n); let b = out.subrange(off, out.len() as int);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == #[trigger] b[i] by {}
    lemma_leaf_grow(a, b, l);
    reveal(leaf_at);
}
pub proof fn lemma_repr_grow(e: Encoder, g: Encoder, w: EView)
    requires repr(e, w), prefix(e.out@, g.out@), prefix(e.sk(), g.sk()), sk_ok(g.sk()), g.out@.len() == e.out@.len() || w.frames.len() > 0, g.out@.len() % 2 == 0, g.cs() == e.cs(), g.top_collection_closed == e.top_collection_closed
    ensures repr(g, w)
{
    reveal(repr);
    lemma_item_grow(e.out@, g.out@, e.sk(), g.sk());
    match w.done { Some(t) => { assert(g.out@ =~= e.out@); lemma_target(e.out@, e.out@.len() - 2, false); let r = root(e.out@).unwrap(); lemma_holds_grow(e.out@, g.out@, e.sk(), g.sk(), r.0, r.1, r.1, t); } None => {} }
    assert forall|i: int| 0 <= i < w.frames.len() implies coll_holds(g.out@, g.sk(), #[trigger] g.cs()[i], w.frames[i]) by { assert(coll_holds(e.out@, e.sk(), e.cs()[i], w.frames[i])); }
}
/// only the output's end and the innermost collection differ
pub open spec fn frame(e: Encoder, g: Encoder) -> bool {
    prefix(e.out@, g.out@) && prefix(e.sk(), g.sk()) && sk_ok(g.sk()) && g.out@.len() % 2 == 0 && g.top_collection_closed == e.top_collection_closed
        && g.cs().len() == e.cs().len() && forall|i: int| 0 <= i < e.cs().len() - 1 ==> g.cs()[i] == #[trigger] e.cs()[i]
}
pub open spec fn unchanged(e: Encoder, g: Encoder) -> bool { g.out@ =~= e.out@ && g.sk() =~= e.sk() && same_sk(e, g) && g.cs() =~= e.cs() && g.top_collection_closed == e.top_collection_closed }
pub open spec fn pushed(e: Encoder, g: Encoder, v: SizedValue) -> bool { frame(e, g) && same_sk(e, g) && g.out@ == e.out@ && g.sk() == e.sk() && e.cs().len() > 0 && top_push(e.cs().last(), v, g.cs().last()) }
pub open spec fn keyed(e: Encoder, g: Encoder, s: Seq<u8>) -> bool {
    frame(e, g) && same_sk(e, g) && e.cs().len() > 0 && match (e.cs().last(), g.cs().last()) {
        (Collection::Dict(a), Collection::Dict(b)) => a.next_key is None && b.values == a.values && (b.next_key matches Some(k) && dkey_holds(g.out@, g.sk(), k, s)),
        _ => false,
    }
}
pub open spec fn takes_value(cs: Seq<Collection>) -> bool { cs.len() > 0 && !top_waits(cs) }
pub open spec fn takes_key(cs: Seq<Collection>) -> bool { cs.len() > 0 && (cs.last() matches Collection::Dict(d) && d.next_key is None) }
/// every view agrees with the state about what may come next
pub proof fn lemma_views(e: Encoder)
    ensures forall|w: EView| #[trigger] repr(e, w) ==> can_value(w) == takes_value(e.cs()) && can_key(w) == takes_key(e.cs()) && can_end_dict(w) == takes_key(e.cs())
        && can_end_array(w) == (e.cs().len() > 0 && e.cs().last() is Array) && can_begin(w) == (!e.top_collection_closed && !top_waits(e.cs())) && w.frames.len() == e.cs().len()
{
    assert forall|w: EView| #[trigger] repr(e, w) implies can_value(w) == takes_value(e.cs()) && can_key(w) == takes_key(e.cs()) && can_end_dict(w) == takes_key(e.cs())
        && can_end_array(w) == (e.cs().len() > 0 && e.cs().last() is Array) && can_begin(w) == (!e.top_collection_closed && !top_waits(e.cs())) && w.frames.len() == e.cs().len() by { lemma_top(e, w); }
}
pub proof fn lemma_mid(e: Encoder, g: Encoder)
    requires frame(e, g), g.cs() == e.cs(), e.cs().len() > 0
    ensures forall|w: EView| #[trigger] repr(e, w) ==> repr(g, w)
{
    assert forall|w: EView| #[trigger] repr(e, w) implies repr(g, w) by { lemma_top(e, w); lemma_repr_grow(e, g, w); }
}
pub proof fn lemma_same(e: Encoder)
    ensures forall|g: Encoder, w: EView| #![trigger unchanged(e, g), repr(e, w)] unchanged(e, g) && repr(e, w) ==> repr(g, w)
{
    assert forall|g: Encoder, w: EView| #![trigger unchanged(e, g), repr(e, w)] unchanged(e, g) && repr(e, w) implies repr(g, w) by { lemma_top(e, w); lemma_repr_grow(e, g, w); }
}
pub proof fn lemma_pushed(e: Encoder, v: SizedValue, t: Tree)
    requires item_holds(e.out@, e.sk(), v, t)
    ensures forall|g: Encoder, w: EView| #![trigger pushed(e, g, v), repr(e, w)] pushed(e, g, v) && repr(e, w) ==> repr(g, do_value(w, t)),
        forall|g: Encoder| #[trigger] pushed(e, g, v) ==> used(g) == used(e) + 8
{
    assert forall|g: Encoder| #[trigger] pushed(e, g, v) implies used(g) == used(e) + 8 by { lemma_need(e.cs(), g.cs()); }
    assert forall|g: Encoder, w: EView| #![trigger pushed(e, g, v), repr(e, w)] pushed(e, g, v) && repr(e, w) implies repr(g, do_value(w, t)) by {
        lemma_top(e, w);
        lemma_top_push(e.out@, e.sk(), e.cs().last(), g.cs().last(), v, w.frames.last(), t);
        lemma_repr_top(e, g, w, push(w.frames.last(), t));
    }
}
pub proof fn lemma_keyed(e: Encoder, s: Seq<u8>)
    ensures forall|g: Encoder, w: EView| #![trigger keyed(e, g, s), repr(e, w)] keyed(e, g, s) && repr(e, w) ==> repr(g, do_key(w, s)),
        forall|g: Encoder| #[trigger] keyed(e, g, s) ==> used(g) == used(e) + g.out@.len() - e.out@.len()
{
    assert forall|g: Encoder| #[trigger] keyed(e, g, s) implies used(g) == used(e) + g.out@.len() - e.out@.len() by { lemma_need(e.cs(), g.cs()); }
    assert forall|g: Encoder, w: EView| #![trigger keyed(e, g, s), repr(e, w)] keyed(e, g, s) && repr(e, w) implies repr(g, do_key(w, s)) by {
        lemma_top(e, w);
        lemma_item_grow(e.out@, g.out@, e.sk(), g.sk());
        match w.frames.last() {
            Frame::Dict(ks, ts, _) => {
                assert(coll_holds(g.out@, g.sk(), g.cs().last(), Frame::Dict(ks, ts, Some(s)))) by { assert(coll_holds(g.out@, g.sk(), e.cs().last(), w.frames.last())); reveal(coll_holds); }
                lemma_repr_top(e, g, w, Frame::Dict(ks, ts, Some(s)));
            }
            _ => {}
        }
    }
}
pub proof fn lemma_begun(e: Encoder, g: Encoder, f: Frame)
    requires live(e), unchanged_but(e, g), coll_holds(e.out@, e.sk(), g.cs().last(), f), count(g.cs().last()) == 0, !e.top_collection_closed, !top_waits(e.cs())
    ensures forall|w: EView| #[trigger] repr(e, w) ==> repr(g, do_begin(w, f)), used(g) == used(e) + 40
{
    assert(g.cs().drop_last() =~= e.cs());
    assert forall|w: EView| #[trigger] repr(e, w) implies repr(g, do_begin(w, f)) by {
        lemma_top(e, w);
        reveal(repr); reveal(coll_holds);
        let v = do_begin(w, f);
        assert forall|i: int| 0 <= i < v.frames.len() implies coll_holds(g.out@, g.sk(), #[trigger] g.cs()[i], v.frames[i]) by { if i < v.frames.len() - 1 { assert(coll_holds(e.out@, e.sk(), e.cs()[i], w.frames[i])); } }
        assert forall|i: int| 0 <= i < v.frames.len() - 1 implies ready(#[trigger] v.frames[i]) by { if i < w.frames.len() - 1 { assert(ready(w.frames[i])); } }
    }
}
pub open spec fn unchanged_but(e: Encoder, g: Encoder) -> bool { g.out@ == e.out@ && g.sk() == e.sk() && same_sk(e, g) && g.cs().len() == e.cs().len() + 1 && g.cs() == e.cs().push(g.cs().last()) && g.top_collection_closed == e.top_collection_closed }
// ---- turning absolute positions into pointers
pub open spec fn width(wide: bool) -> int { if wide { 4 } else { 2 } }
/// where slot i (element i of a dict) lies
pub open spec fn spos(i: int, wide: bool) -> int { if wide { 4 * i } else { 2 * i } }
pub open spec fn epos(i: int, wide: bool) -> int { if wide { 8 * i } else { 4 * i } }
/// n bytes have been written: the value may be put into a collection
pub open spec fn stored(v: SizedValue, n: int) -> bool { v.ok() && (v.is_ptr() ==> v.ptr() % 2 == 0 && v.ptr() + 2 <= n) }
pub open spec fn kstored(k: DictKey, n: int) -> bool {
    match k { DictKey::Pointer(_, o) => o % 2 == 0 && o + 2 <= n, DictKey::Inline(v) => v.ok() && !v.is_ptr() && scalar_ok(v.bytes@), DictKey::Shared(id) => id < 2048 }
}
pub open spec fn estored(e: DictElement, n: int) -> bool { kstored(e.key, n) && stored(e.val, n) }
/// from position q, two bytes are enough to reach what v points at
pub open spec fn fits(v: SizedValue, q: int) -> bool { v.is_ptr() ==> q - v.ptr() <= pointer::MAX_NARROW }
pub open spec fn efits(e: DictElement, q: int) -> bool { (e.key matches DictKey::Pointer(_, o) ==> q - o <= pointer::MAX_NARROW) && fits(e.val, q + 2) }
/// f is v with its absolute position turned into an offset from q
pub open spec fn fixed(v: SizedValue, f: SizedValue, q: int) -> bool { if v.is_ptr() { f.is_ptr() && f.ok() && f.ptr() == q - v.ptr() } else { f == v } }
pub open spec fn kfixed(k: DictKey, f: DictKey, q: int) -> bool {
    match (k, f) {
        (DictKey::Pointer(_, o), DictKey::Pointer(_, x)) => x == q - o,
        (DictKey::Inline(v), DictKey::Inline(u)) => u == v,
        (DictKey::Shared(a), DictKey::Shared(b)) => a == b,
        _ => false,
    }
}
pub open spec fn efixed(e: DictElement, f: DictElement, q: int, wide: bool) -> bool { kfixed(e.key, f.key, q) && fixed(e.val, f.val, q + width(wide)) }
/// the slot at q holds v (whose absolute position, if it is a pointer, is turned into an offset)
#[verifier::opaque]
pub open spec fn slot_holds(out: Seq<u8>, q: int, w: int, v: SizedValue) -> bool {
    let s = out.subrange(q, q + w);
    0 <= q && q + w <= out.len() && if v.is_ptr() { ptr_bytes(s, q - v.ptr()) } else { s == v.bytes@.take(w) }
}
#[verifier::opaque]
pub open spec fn kslot_holds(out: Seq<u8>, q: int, w: int, k: DictKey) -> bool {
    let s = out.subrange(q, q + w);
    0 <= q && q + w <= out.len() && match k {
        DictKey::Inline(v) => s == v.bytes@.take(w),
        DictKey::Shared(id) => kind(s[0]) == ValueType::Short && short_raw(s) == id && s.len() >= 2,
        DictKey::Pointer(_, o) => ptr_bytes(s, q - o),
    }
}
pub proof fn lemma_stored(out: Seq<u8>, sk: Seq<Seq<u8>>)
    requires sk_ok(sk)
    ensures forall|v: SizedValue, t: Tree| #[trigger] item_holds(out, sk, v, t) ==> stored(v, out.len() as int),
        forall|k: DictKey, s: Seq<u8>| #[trigger] dkey_holds(out, sk, k, s) ==> kstored(k, out.len() as int),
{
    reveal(item_holds); reveal(dkey_holds);
    assert forall|k: DictKey, s: Seq<u8>| #[trigger] dkey_holds(out, sk, k, s) implies kstored(k, out.len() as int) by {
        if let DictKey::Inline(v) = k { lemma_leaf_grow(v.bytes@.take(2), v.bytes@, Leaf::Str(s)); reveal(leaf_at); }
    }
}
/// following a slot which has just been written
pub proof fn lemma_follow(out: Seq<u8>, q: int, w: int, o: int)
    requires w == 2 || w == 4, 0 <= o, o + 2 <= q, q + w <= out.len(), q % 2 == 0, o % 2 == 0, ptr_bytes(out.subrange(q, q + w), q - o), q - o <= pointer::MAX_WIDE, kind(out[o]) != ValueType::Pointer
    ensures resolve(out, q, w) == (o, q - o), kind(out[q]) == ValueType::Pointer, target(out, q, w == 4) == Some((o, q - o))
{
    let s = out.subrange(q, q + w); let u = out.subrange(q, out.len() as int);
    lemma_ptr_reads(s, q - o, w == 4);
    assert(s[0] == u[0] && s[1] == u[1] && s[0] == out[q]);
    if w == 4 { assert(s[2] == u[2] && s[3] == u[3]); }
    assert(ptr_off(u, w == 4) == q - o);
}
pub proof fn lemma_slot(a: Seq<u8>, out: Seq<u8>, sk: Seq<Seq<u8>>, q: int, w: int, v: SizedValue, t: Tree)
    requires item_holds(a, sk, v, t), prefix(a, out), slot_holds(out, q, w, v), q >= a.len(), w == 2 || w == 4, q % 2 == 0, q <= pointer::MAX_WIDE
    ensures holds(out, sk, resolve(out, q, w).0, resolve(out, q, w).1, t)
{
    reveal(slot_holds);
    reveal(item_holds);
    let s = out.subrange(q, q + w);
    if v.is_ptr() {
        lemma_holds_kind(a, sk, v.ptr(), a.len() - v.ptr(), t);
        assert(a[v.ptr()] == out[v.ptr()]);
        lemma_follow(out, q, w, v.ptr());
        lemma_holds_grow(a, out, sk, sk, v.ptr(), a.len() - v.ptr(), q - v.ptr(), t);
    } else {
        let b = v.bytes@.take(2);
        assert forall|i: int| 0 <= i < b.len() implies b[i] == #[trigger] s[i] by {}
        match t { Tree::Leaf(l) => { lemma_leaf_grow(b, s, l); } _ => {} }
        assert(out[q] == s[0]);
        assert(s[0] == v.bytes[0]);
        assert(resolve(out, q, w) == (q, w));
        reveal(holds);
    }
}
pub proof fn lemma_kslot(a: Seq<u8>, out: Seq<u8>, sk: Seq<Seq<u8>>, q: int, w: int, k: DictKey, x: Seq<u8>)
    requires dkey_holds(a, sk, k, x), prefix(a, out), kslot_holds(out, q, w, k), q >= a.len(), w == 2 || w == 4, q % 2 == 0, q <= pointer::MAX_WIDE
    ensures ({ let r = resolve(out, q, w); key_holds(out, sk, r, x) && key_at(out, r.0, r.1) == dkey_s(k) })
{
    reveal(kslot_holds);
    reveal(dkey_holds); reveal(key_holds); reveal(key_at); reveal(dkey_s);
    let s = out.subrange(q, q + w);
    assert(out[q] == s[0]);
    match k {
        DictKey::Inline(v) => {
            let b = v.bytes@.take(2);
            assert forall|i: int| 0 <= i < b.len() implies b[i] == #[trigger] s[i] by {}
            assert forall|i: int| 0 <= i < b.len() implies b[i] == #[trigger] v.bytes@[i] by {}
            lemma_leaf_grow(b, s, Leaf::Str(x)); lemma_leaf_grow(b, v.bytes@, Leaf::Str(x));
            reveal(leaf_at);
            assert(resolve(out, q, w) == (q, w));
        }
        DictKey::Shared(id) => { assert(resolve(out, q, w) == (q, w)); }
        DictKey::Pointer(b, o) => {
            let u = a.skip(o as int); let z = out.subrange(o as int, q);
            assert forall|i: int| 0 <= i < u.len() implies u[i] == #[trigger] z[i] by { assert(a[o + i] == out[o + i]); }
            lemma_leaf_grow(u, z, Leaf::Str(x));
            reveal(leaf_at);
            assert(z[0] == out[o as int]);
            lemma_follow(out, q, w, o as int);
            assert(out.subrange(o as int, o + (q - o)) =~= z);
        }
    }
}
pub proof fn lemma_hdr_bits(tag: u8, f: int, wide: bool)
    requires tag == 0x60 || tag == 0x70, 0 <= f <= 2047
    ensures ({ let b0 = (tag + (if wide { 8int } else { 0 }) + f / 256) as u8; let b1 = (f % 256) as u8;
        kind(b0) == (if tag == 0x60 { ValueType::Array } else { ValueType::Dict }) && (b0 % 16 >= 8) == wide && (b0 as nat * 256 + b1 as nat) % 2048 == f })
{
    let h = f / 256;
    assert(0 <= h <= 7);
    let b0 = (tag + (if wide { 8int } else { 0 }) + h) as u8;
    assert(b0 == tag + (if wide { 8int } else { 0 }) + h);
    assert(b0 % 8 == h);
    assert(b0 % 16 == h + (if wide { 8int } else { 0 }));
    assert(b0 / 16 == (if tag == 0x60 { 6int } else { 7 }));
}
/// reading the header
pub proof fn lemma_header(s: Seq<u8>, tag: u8, n: nat, wide: bool)
    requires tag == 0x60 || tag == 0x70, n <= 0x4000_0000, s.len() >= hdr_size(n), s.take(hdr_size(n) as int) == hdr_bytes(tag, n, wide)
    ensures kind(s[0]) == (if tag == 0x60 { ValueType::Array } else { ValueType::Dict }), c_wide(s) == wide, c_width(s) == width(wide),
        c_count(s) == (if tag == 0x60 { n } else { 2 * n }), c_first(s) == hdr_size(n) + hdr_size(n) % 2, c_field(s) == 2047 ==> read_varint(s.skip(2)).0 > 0,
        hdr_size(n) <= 12,
{
    let h = hdr_size(n) as int; let t = s.take(h); let b = hdr_bytes(tag, n, wide);
    lemma_enc_len_u64(n as u64);
    assert(t[0] == s[0] && t[1] == s[1]);
    lemma_hdr_bits(tag, if n >= 2047 { 2047 } else { n as int }, wide);
    assert(b[0] == s[0] && b[1] == s[1]);
    assert(c_field(s) == if n >= 2047 { 2047 } else { n });
    if n >= 2047 {
        let rest = s.skip(h);
        assert(s.skip(2) =~= enc_varint(n) + rest) by {
            assert forall|i: int| 0 <= i < enc_varint(n).len() implies s.skip(2)[i] == enc_varint(n)[i] by { assert(t[i + 2] == b[i + 2]); }
        }
        theorem_varint_round_trip(n as u64, rest);
        assert(read_varint(s.skip(2)) == (enc_varint(n).len(), n));
    }
}
/// a finished array
pub proof fn lemma_closed_array(a: Seq<u8>, out: Seq<u8>, sk: Seq<Seq<u8>>, vs: Seq<SizedValue>, wide: bool)
    requires prefix(a, out), a.len() % 2 == 0, vs.len() <= 0x4000_0000, out.len() <= pointer::MAX_WIDE, a.len() + hdr_size(vs.len()) <= out.len(),
        out.subrange(a.len() as int, (a.len() + hdr_size(vs.len())) as int) == hdr_bytes(0x60u8, vs.len(), wide),
        ({ let f = a.len() + hdr_size(vs.len()) + hdr_size(vs.len()) % 2;
            out.len() == f + spos(vs.len() as int, wide) && forall|i: int| 0 <= i < vs.len() ==> slot_holds(out, f + spos(i, wide), width(wide), #[trigger] vs[i]) }),
    ensures forall|ts: Seq<Tree>| #[trigger] arr_holds(a, sk, vs, ts) ==> holds(out, sk, a.len() as int, out.len() - a.len(), Tree::Arr(ts)),
        kind(out[a.len() as int]) == ValueType::Array,
{
    let p = a.len() as int; let n = out.len() - a.len(); let s = out.subrange(p, p + n);
    let h = hdr_size(vs.len()) as int; let f = p + h + h % 2;
    assert(s.take(h) =~= out.subrange(p, p + h));
    lemma_header(s, 0x60u8, vs.len(), wide);
    assert(s[0] == out[p]);
    assert forall|i: int| 0 <= i <= vs.len() implies p + #[trigger] c_slot(s, i) == f + spos(i, wide) by { lemma_cslot(s, i); }
    assert(c_slot(s, vs.len() as int) == c_first(s) + c_count(s) * c_width(s));
    assert(coll_in(out, p, n));
    assert forall|ts: Seq<Tree>| #[trigger] arr_holds(a, sk, vs, ts) implies holds(out, sk, p, n, Tree::Arr(ts)) by {
        assert forall|i: int| 0 <= i < ts.len() implies holds(out, sk, (#[trigger] slot_target(out, p, n, i)).0, slot_target(out, p, n, i).1, ts[i]) by {
            assert(item_holds(a, sk, vs[i], ts[i]));
            assert(p + c_slot(s, i) == f + spos(i, wide));
            lemma_slot(a, out, sk, f + spos(i, wide), width(wide), vs[i], ts[i]);
        }
        reveal(holds);
    }
}
pub open spec fn c_head(a: Seq<u8>, n: nat) -> int { a.len() as int + hdr_size(n) + hdr_size(n) % 2 }
#[verifier::opaque]
pub open spec fn dict_out(a: Seq<u8>, out: Seq<u8>, fs: Seq<DictElement>, wide: bool) -> bool {
    &&& prefix(a, out) && a.len() % 2 == 0 && fs.len() <= 0x4000_0000 && out.len() <= pointer::MAX_WIDE && a.len() + hdr_size(fs.len()) <= out.len()
    &&& out.subrange(a.len() as int, (a.len() + hdr_size(fs.len())) as int) == hdr_bytes(0x70u8, fs.len(), wide)
    &&& out.len() == c_head(a, fs.len()) + epos(fs.len() as int, wide)
    &&& forall|i: int| 0 <= i < fs.len() ==> eslot_holds(out, c_head(a, fs.len()) + epos(i, wide), width(wide), #[trigger] fs[i])
}
pub proof fn lemma_dict_slot(a: Seq<u8>, out: Seq<u8>, fs: Seq<DictElement>, wide: bool, i: int)
    requires dict_out(a, out, fs, wide), 0 <= i < fs.len()
    ensures ({ let q = c_head(a, fs.len()) + epos(i, wide); eslot_holds(out, q, width(wide), fs[i]) && q % 2 == 0 && q >= a.len() && q + width(wide) <= pointer::MAX_WIDE && prefix(a, out) })
{
    reveal(dict_out);
}
#[verifier::opaque]
pub open spec fn eslot_holds(out: Seq<u8>, q: int, w: int, e: DictElement) -> bool { kslot_holds(out, q, w, e.key) && slot_holds(out, q + w, w, e.val) }
pub proof fn lemma_cslot(s: Seq<u8>, i: int)
    ensures c_slot(s, i) == c_first(s) + (if c_wide(s) { 4 * i } else { 2 * i })
{
    if c_wide(s) { assert(i * 4 == 4 * i); } else { assert(i * 2 == 2 * i); }
}
/// where the slots of a finished dict lie
pub proof fn lemma_dict_layout(a: Seq<u8>, out: Seq<u8>, fs: Seq<DictElement>, wide: bool)
    requires dict_out(a, out, fs, wide)
    ensures ({ let p = a.len() as int; let n = out.len() - a.len(); let s = out.subrange(p, p + n);
        coll_in(out, p, n) && kind(s[0]) == ValueType::Dict && kind(out[p]) == ValueType::Dict && c_count(s) == 2 * fs.len() && c_width(s) == width(wide) && c_head(a, fs.len()) % 2 == 0
        && forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() ==> slot_lies(out, p, n, 2 * i, c_head(a, fs.len()) + epos(i, wide), width(wide))
            && slot_lies(out, p, n, 2 * i + 1, c_head(a, fs.len()) + epos(i, wide) + width(wide), width(wide)) }),
{
    reveal(dict_out); reveal(slot_lies);
    let p = a.len() as int; let n = out.len() - a.len(); let s = out.subrange(p, p + n);
    let h = hdr_size(fs.len()) as int; let f = c_head(a, fs.len()); let w = width(wide);
    assert(s.take(h) =~= out.subrange(p, p + h));
    lemma_header(s, 0x70u8, fs.len(), wide);
    assert(s[0] == out[p]);
    assert forall|i: int| 0 <= i <= fs.len() implies p + #[trigger] c_slot(s, 2 * i) == f + epos(i, wide) && p + c_slot(s, 2 * i + 1) == f + epos(i, wide) + w by { lemma_cslot(s, 2 * i); lemma_cslot(s, 2 * i + 1); }
    assert(c_slot(s, 2 * (fs.len() as int)) == c_first(s) + c_count(s) * c_width(s));
    assert forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() implies slot_lies(out, p, n, 2 * i, f + epos(i, wide), w)
            && slot_lies(out, p, n, 2 * i + 1, f + epos(i, wide) + w, w) by { assert(p + c_slot(s, 2 * i) == f + epos(i, wide)); }
}
#[verifier::opaque]
pub open spec fn slot_lies(out: Seq<u8>, p: int, n: int, j: int, q: int, w: int) -> bool { slot_target(out, p, n, j) == resolve(out, q, w) }
pub proof fn lemma_key_lies(a: Seq<u8>, out: Seq<u8>, sk: Seq<Seq<u8>>, p: int, n: int, i: int, q: int, w: int, key: DictKey, k: Seq<u8>)
    requires slot_lies(out, p, n, 2 * i, q, w), dkey_holds(a, sk, key, k), prefix(a, out), kslot_holds(out, q, w, key), q >= a.len(), w == 2 || w == 4, q % 2 == 0, q <= pointer::MAX_WIDE
    ensures key_holds(out, sk, slot_target(out, p, n, 2 * i), k), dict_key(out, p, n, i) == dkey_s(key)
{
    reveal(slot_lies);
    lemma_kslot(a, out, sk, q, w, key, k);
    assert(dict_key(out, p, n, i) == dkey_s(key)) by { reveal(dict_key); }
}
pub proof fn lemma_val_lies(a: Seq<u8>, out: Seq<u8>, sk: Seq<Seq<u8>>, p: int, n: int, j: int, q: int, w: int, v: SizedValue, t: Tree)
    requires slot_lies(out, p, n, j, q, w), item_holds(a, sk, v, t), prefix(a, out), slot_holds(out, q, w, v), q >= a.len(), w == 2 || w == 4, q % 2 == 0, q <= pointer::MAX_WIDE
    ensures holds(out, sk, slot_target(out, p, n, j).0, slot_target(out, p, n, j).1, t)
{
    reveal(slot_lies);
    lemma_slot(a, out, sk, q, w, v, t);
}
pub proof fn lemma_closed_elem(a: Seq<u8>, out: Seq<u8>, sk: Seq<Seq<u8>>, fs: Seq<DictElement>, wide: bool, i: int, k: Seq<u8>, t: Tree)
    requires dict_out(a, out, fs, wide), 0 <= i < fs.len(), dkey_holds(a, sk, fs[i].key, k), item_holds(a, sk, fs[i].val, t),
        slot_lies(out, a.len() as int, out.len() - a.len(), 2 * i, c_head(a, fs.len()) + epos(i, wide), width(wide)),
        slot_lies(out, a.len() as int, out.len() - a.len(), 2 * i + 1, c_head(a, fs.len()) + epos(i, wide) + width(wide), width(wide)),
    ensures ({ let p = a.len() as int; let n = out.len() - a.len();
        key_holds(out, sk, slot_target(out, p, n, 2 * i), k) && dict_key(out, p, n, i) == dkey_s(fs[i].key)
            && holds(out, sk, slot_target(out, p, n, 2 * i + 1).0, slot_target(out, p, n, 2 * i + 1).1, t) })
{
    let q = c_head(a, fs.len()) + epos(i, wide); let w = width(wide);
    lemma_dict_slot(a, out, fs, wide, i);
    assert(kslot_holds(out, q, w, fs[i].key) && slot_holds(out, q + w, w, fs[i].val)) by { reveal(eslot_holds); }
    lemma_key_lies(a, out, sk, a.len() as int, out.len() - a.len(), i, q, w, fs[i].key, k);
    lemma_val_lies(a, out, sk, a.len() as int, out.len() - a.len(), 2 * i + 1, q + w, w, fs[i].val, t);
}
/// a finished dict, its elements being those of `es` put in order
pub proof fn lemma_closed_dict(a: Seq<u8>, out: Seq<u8>, sk: Seq<Seq<u8>>, es: Seq<DictElement>, fs: Seq<DictElement>, wide: bool)
    requires sorted_of(es, fs), dict_out(a, out, fs, wide)
    ensures forall|ks: Seq<Seq<u8>>, ts: Seq<Tree>| #[trigger] dict_holds(a, sk, es, ks, ts) ==> holds(out, sk, a.len() as int, out.len() - a.len(), Tree::Dict(ks, ts)),
        kind(out[a.len() as int]) == ValueType::Dict,
{
    let p = a.len() as int; let n = out.len() - a.len();
    lemma_dict_layout(a, out, fs, wide);
    reveal(sorted_of);
    assert(fs.len() == es.len());
    let pm = choose|pm: Seq<int>| is_perm(pm, es.len() as int) && forall|i: int| 0 <= i < es.len() ==> #[trigger] fs[i] == es[pm[i]];
    assert forall|ks: Seq<Seq<u8>>, ts: Seq<Tree>| #[trigger] dict_holds(a, sk, es, ks, ts) implies holds(out, sk, p, n, Tree::Dict(ks, ts)) by {
        assert forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() implies 0 <= pm[i] < ts.len() && key_holds(out, sk, slot_target(out, p, n, 2 * i), ks[pm[i]]) && dict_key(out, p, n, i) == dkey_s(fs[i].key)
            && holds(out, sk, slot_target(out, p, n, 2 * i + 1).0, slot_target(out, p, n, 2 * i + 1).1, ts[pm[i]]) by {
            assert(fs[i] == es[pm[i]]);
            assert(dkey_holds(a, sk, es[pm[i]].key, ks[pm[i]]));
            lemma_closed_elem(a, out, sk, fs, wide, i, ks[pm[i]], ts[pm[i]]);
        }
        assert forall|i: int, j: int| 0 <= i < j < ks.len() implies key_cmp(#[trigger] dict_key(out, p, n, i), #[trigger] dict_key(out, p, n, j)) <= 0 by {
            assert(elem_cmp(fs[i], fs[j]) <= 0);
        }
        assert forall|i: int| 0 <= i < ks.len() implies key_holds(out, sk, #[trigger] slot_target(out, p, n, 2 * i), ks[pm[i]]) by { let e = fs[i]; }
        assert(perm_keys(out, sk, p, n, ks, pm));
        assert forall|i: int| 0 <= i < ks.len() implies 0 <= pm[i] < ts.len() && holds(out, sk, (#[trigger] slot_target(out, p, n, 2 * i + 1)).0, slot_target(out, p, n, 2 * i + 1).1, ts[pm[i]]) by { let e = fs[i]; }
        let s = out.subrange(p, p + n);
        assert(coll_in(out, p, n) && kind(s[0]) == ValueType::Dict && c_count(s) == 2 * ks.len() && ts.len() == ks.len());
        lemma_holds_dict(out, sk, p, n, ks, ts, pm);
    }
}
#[verifier::opaque]
pub open spec fn root_is(d: Seq<u8>, off: int, n: int) -> bool { root(d) == Some((off, n)) }
/// the root has been written
pub open spec fn rooted(m: Encoder, g: Encoder, off: int) -> bool {
    prefix(m.out@, g.out@) && g.out@.len() % 2 == 0 && g.sk() == m.sk() && same_sk(m, g) && g.cs() == m.cs() && g.cs().len() == 0 && g.top_collection_closed && root_is(g.out@, off, m.out@.len() - off) && g.out@.len() <= m.out@.len() + 6
}
pub open spec fn popped(e: Encoder, m: Encoder) -> bool { prefix(e.out@, m.out@) && m.out@.len() % 2 == 0 && m.sk() == e.sk() && same_sk(e, m) && e.cs().len() > 0 && m.cs() == e.cs().drop_last() && m.top_collection_closed == e.top_collection_closed }
pub proof fn lemma_waits(cs: Seq<Collection>)
    ensures !top_waits(cs) ==> cs.len() == 0 || (cs.last() matches Collection::Dict(d) ==> d.next_key is Some)
{
    reveal(top_waits);
}
pub proof fn lemma_push_frame(e: Encoder, g: Encoder, v: SizedValue)
    requires same_sk(e, g), g.out@ == e.out@, g.sk() == e.sk(), sk_ok(e.sk()), e.out@.len() % 2 == 0, g.top_collection_closed == e.top_collection_closed, e.cs().len() > 0,
        g.cs().len() == e.cs().len(), forall|i: int| 0 <= i < e.cs().len() - 1 ==> g.cs()[i] == #[trigger] e.cs()[i], top_push(e.cs().last(), v, g.cs().last())
    ensures pushed(e, g, v)
{
}
/// what ending a collection leaves behind
pub open spec fn ended(m: Encoder, g: Encoder, off: int) -> bool {
    if m.cs().len() == 0 { rooted(m, g, off) } else { exists|v: SizedValue| v.is_ptr() && v.ok() && v.ptr() == off && #[trigger] pushed(m, g, v) }
}
pub proof fn lemma_end(e: Encoder, m: Encoder, g: Encoder)
    requires live(e), popped(e, m), ended(m, g, e.out@.len() as int), m.out@.len() <= e.out@.len() + 13 + 8 * count(e.cs().last()), e.out@.len() <= pointer::MAX_WIDE, m.out@.len() >= e.out@.len() + 2,
        forall|f: Frame| #[trigger] coll_holds(e.out@, e.sk(), e.cs().last(), f) ==> holds(m.out@, m.sk(), e.out@.len() as int, m.out@.len() - e.out@.len(), tree_of(f)),
    ensures forall|w: EView| #[trigger] repr(e, w) ==> repr(g, do_end(w)), used(g) <= used(e), live(g)
{
    let off = e.out@.len() as int;
    lemma_need_pos(m.cs());
    if m.cs().len() > 0 {
        let v = choose|v: SizedValue| v.is_ptr() && v.ok() && v.ptr() == off && #[trigger] pushed(m, g, v);
        lemma_need(m.cs(), g.cs());
    }
    assert forall|w: EView| #[trigger] repr(e, w) implies repr(g, do_end(w)) by {
        lemma_top(e, w);
        let t = tree_of(w.frames.last());
        let w1 = EView { frames: w.frames.drop_last(), done: w.done };
        assert(holds(m.out@, m.sk(), off, m.out@.len() - off, t));
        lemma_item_grow(e.out@, m.out@, e.sk(), m.sk());
        if m.cs().len() > 0 {
            let v = choose|v: SizedValue| v.is_ptr() && v.ok() && v.ptr() == off && #[trigger] pushed(m, g, v);
            assert(repr(m, w1)) by {
                reveal(repr);
                assert forall|i: int| 0 <= i < w1.frames.len() implies coll_holds(m.out@, m.sk(), #[trigger] m.cs()[i], w1.frames[i]) by { assert(coll_holds(e.out@, e.sk(), e.cs()[i], w.frames[i])); }
                assert forall|i: int| 0 <= i < w1.frames.len() - 1 implies ready(#[trigger] w1.frames[i]) by { assert(ready(w.frames[i])); }
            }
            assert(item_holds(m.out@, m.sk(), v, t)) by { reveal(item_holds); }
            lemma_pushed(m, v, t);
        } else {
            lemma_holds_grow(m.out@, g.out@, m.sk(), g.sk(), off, m.out@.len() - off, m.out@.len() - off, t);
            reveal(repr); reveal(root_is);
        }
    }
    let w = choose|w: EView| repr(e, w);
    assert(repr(g, do_end(w)));
}
/// what an open collection's elements look like, whatever view is taken
pub proof fn lemma_top_stored(e: Encoder)
    requires live(e), e.cs().len() > 0
    ensures match e.cs().last() {
        Collection::Array(a) => forall|i: int| 0 <= i < a.values@.len() ==> stored(#[trigger] a.values@[i], e.out@.len() as int),
        Collection::Dict(d) => forall|i: int| 0 <= i < d.values@.len() ==> estored(#[trigger] d.values@[i], e.out@.len() as int),
    }
{
    let w = choose|w: EView| repr(e, w);
    lemma_top(e, w);
    lemma_stored(e.out@, e.sk());
    reveal(coll_holds);
    match (e.cs().last(), w.frames.last()) {
        (Collection::Array(a), Frame::Arr(ts)) => {
            assert forall|i: int| 0 <= i < a.values@.len() implies stored(#[trigger] a.values@[i], e.out@.len() as int) by { assert(item_holds(e.out@, e.sk(), a.values@[i], ts[i])); }
        }
        (Collection::Dict(d), Frame::Dict(ks, ts, k)) => {
            assert forall|i: int| 0 <= i < d.values@.len() implies estored(#[trigger] d.values@[i], e.out@.len() as int) by { assert(dkey_holds(e.out@, e.sk(), d.values@[i].key, ks[i])); assert(item_holds(e.out@, e.sk(), d.values@[i].val, ts[i])); }
        }
        _ => {}
    }
}
/// a fixed element which has been written
pub proof fn lemma_slot_written(out: Seq<u8>, q: int, w: int, v: SizedValue, f: SizedValue)
    requires w == 2 || w == 4, 0 <= q, q + w <= out.len(), fixed(v, f, q), f.reads(out.subrange(q, q + w), w == 4)
    ensures slot_holds(out, q, w, v)
{
    reveal(slot_holds);
}
pub proof fn lemma_slot_grow(a: Seq<u8>, b: Seq<u8>, q: int, w: int)
    requires prefix(a, b), 0 <= q, 0 <= w, q + w <= a.len()
    ensures a.subrange(q, q + w) == b.subrange(q, q + w)
{
    lemma_sub_prefix(a, b, q, q + w);
}
pub proof fn lemma_slot_holds_grow(a: Seq<u8>, b: Seq<u8>)
    requires prefix(a, b)
    ensures forall|q: int, w: int, v: SizedValue| w >= 0 && #[trigger] slot_holds(a, q, w, v) ==> slot_holds(b, q, w, v), forall|q: int, w: int, k: DictKey| w >= 0 && #[trigger] kslot_holds(a, q, w, k) ==> kslot_holds(b, q, w, k)
{
    reveal(slot_holds); reveal(kslot_holds);
    assert forall|q: int, w: int, v: SizedValue| w >= 0 && #[trigger] slot_holds(a, q, w, v) implies slot_holds(b, q, w, v) by { lemma_slot_grow(a, b, q, w); }
    assert forall|q: int, w: int, k: DictKey| w >= 0 && #[trigger] kslot_holds(a, q, w, k) implies kslot_holds(b, q, w, k) by { lemma_slot_grow(a, b, q, w); }
}
pub open spec fn tvals(cs: Seq<Collection>) -> Seq<SizedValue> { match cs.last() { Collection::Array(a) => a.values@, _ => Seq::empty() } }
pub open spec fn tdict(cs: Seq<Collection>) -> Seq<DictElement> { match cs.last() { Collection::Dict(a) => a.values@, _ => Seq::empty() } }
/// the slots before the k-th have been written
#[verifier::opaque]
pub open spec fn slots_done(out: Seq<u8>, h: int, wide: bool, vs: Seq<SizedValue>, k: int) -> bool {
    out.len() == h + spos(k, wide) && forall|i: int| 0 <= i < k ==> slot_holds(out, h + spos(i, wide), width(wide), #[trigger] vs[i])
}
pub proof fn lemma_slots_done(a: Seq<u8>, b: Seq<u8>, h: int, wide: bool, vs: Seq<SizedValue>, f: SizedValue, k: int)
    requires slots_done(a, h, wide, vs, k), 0 <= h, 0 <= k < vs.len(), prefix(a, b), b.len() == a.len() + width(wide), fixed(vs[k], f, h + spos(k, wide)), f.reads(b.subrange(a.len() as int, a.len() + width(wide)), wide)
    ensures slots_done(b, h, wide, vs, k + 1)
{
    lemma_slot_holds_grow(a, b);
    reveal(slots_done);
    lemma_slot_written(b, h + spos(k, wide), width(wide), vs[k], f);
    assert forall|i: int| 0 <= i < k + 1 implies slot_holds(b, h + spos(i, wide), width(wide), #[trigger] vs[i]) by {
        if i < k { assert(slot_holds(a, h + spos(i, wide), width(wide), vs[i])); }
    }
}
/// the elements before the k-th have been written
#[verifier::opaque]
pub open spec fn elems_done(out: Seq<u8>, h: int, wide: bool, fs: Seq<DictElement>, k: int) -> bool {
    out.len() == h + epos(k, wide) && forall|i: int| 0 <= i < k ==> eslot_holds(out, h + epos(i, wide), width(wide), #[trigger] fs[i])
}
pub proof fn lemma_elems_done(a: Seq<u8>, b: Seq<u8>, h: int, wide: bool, fs: Seq<DictElement>, k: int)
    requires elems_done(a, h, wide, fs, k), 0 <= h, 0 <= k < fs.len(), prefix(a, b), b.len() == a.len() + 2 * width(wide), eslot_holds(b, a.len() as int, width(wide), fs[k])
    ensures elems_done(b, h, wide, fs, k + 1)
{
    reveal(eslot_holds); lemma_slot_holds_grow(a, b); 
    reveal(elems_done);
    assert forall|i: int| 0 <= i < k + 1 implies eslot_holds(b, h + epos(i, wide), width(wide), #[trigger] fs[i]) by {
        if i < k { let q = h + epos(i, wide); assert(eslot_holds(a, q, width(wide), fs[i])); }
    }
}
pub proof fn lemma_root_narrow(m: Seq<u8>, d: Seq<u8>, off: int)
    requires prefix(m, d), d.len() == m.len() + 2, m.len() % 2 == 0, 0 <= off, off + 2 <= m.len(), off % 2 == 0, kind(m[off]) != ValueType::Pointer, m.len() - off <= pointer::MAX_NARROW,
        ptr_bytes(d.subrange(m.len() as int, (m.len() + 2) as int), m.len() - off)
    ensures root_is(d, off, m.len() - off)
{
    assert(m[off] == d[off]);
    lemma_follow(d, m.len() as int, 2, off);
    reveal(root_is);
}
pub proof fn lemma_root_wide(m: Seq<u8>, o: Seq<u8>, d: Seq<u8>, off: int)
    requires prefix(m, o), prefix(o, d), o.len() == m.len() + 4, d.len() == m.len() + 6, m.len() % 2 == 0, 0 <= off, off + 2 <= m.len(), off % 2 == 0, kind(m[off]) != ValueType::Pointer, m.len() <= pointer::MAX_WIDE,
        ptr_bytes(o.subrange(m.len() as int, (m.len() + 4) as int), m.len() - off), ptr_bytes(d.subrange((m.len() + 4) as int, (m.len() + 6) as int), 4)
    ensures root_is(d, off, m.len() - off)
{
    let n = d.len() as int;
    assert(m[off] == o[off] && o[off] == d[off]);
    lemma_sub_prefix(o, d, n - 6, n - 2);
    lemma_follow(d, n - 6, 4, off);
    let s = d.subrange(n - 2, n);
    lemma_ptr_reads(s, 4, false);
    assert(d[n - 2] == s[0]);
    assert(target(d, n - 2, false) == target(d, n - 6, true));
    reveal(root_is);
}
/// what is going to be written for a dict's elements, the first one at h
#[verifier::opaque]
pub open spec fn eplan(fs: Seq<DictElement>, ds: Seq<DictElement>, m: int, h: int, wide: bool) -> bool {
    fs.len() == ds.len() && (forall|i: int| 0 <= i < fs.len() ==> efixed(#[trigger] fs[i], ds[i], h + epos(i, wide), wide) && estored(fs[i], m))
        && (wide || forall|i: int| 0 <= i < fs.len() ==> efits(#[trigger] fs[i], h + 4 * i))
}
pub proof fn lemma_eplan(fs: Seq<DictElement>, ds: Seq<DictElement>, m: int, h: int, wide: bool, k: int)
    requires eplan(fs, ds, m, h, wide), 0 <= k < fs.len()
    ensures efixed(fs[k], ds[k], h + epos(k, wide), wide), estored(fs[k], m), wide || efits(fs[k], h + 4 * k)
{
    reveal(eplan);
}
pub proof fn lemma_sorted_len(es: Seq<DictElement>, fs: Seq<DictElement>) requires sorted_of(es, fs) ensures es.len() == fs.len() { reveal(sorted_of); }
pub proof fn lemma_sorted_elem(es: Seq<DictElement>, fs: Seq<DictElement>, i: int)
    requires sorted_of(es, fs), 0 <= i < fs.len()
    ensures exists|j: int| 0 <= j < es.len() && #[trigger] es[j] == fs[i]
{
    reveal(sorted_of);
    let pm = choose|pm: Seq<int>| is_perm(pm, es.len() as int) && forall|i: int| 0 <= i < es.len() ==> #[trigger] fs[i] == es[pm[i]];
    assert(fs[i] == es[pm[i]]);
}
/// the value written for a (fixed) key
pub open spec fn kval(f: DictKey, v: SizedValue) -> bool {
    match f {
        DictKey::Inline(u) => v == u,
        DictKey::Shared(id) => !v.is_ptr() && kind(v.bytes[0]) == ValueType::Short && short_raw(v.bytes@) == id,
        DictKey::Pointer(_, x) => v.is_ptr() && v.ok() && v.ptr() == x,
    }
}
pub open spec fn kwritten(f: DictKey, s: Seq<u8>, wide: bool) -> bool { exists|v: SizedValue| kval(f, v) && #[trigger] v.reads(s, wide) }
pub proof fn lemma_kslot_written(out: Seq<u8>, q: int, w: int, k: DictKey, f: DictKey)
    requires w == 2 || w == 4, 0 <= q, q + w <= out.len(), kfixed(k, f, q), kwritten(f, out.subrange(q, q + w), w == 4), kstored(k, q)
    ensures kslot_holds(out, q, w, k)
{
    reveal(kslot_holds);
    let s = out.subrange(q, q + w);
    let wide = w == 4; let v = choose|v: SizedValue| kval(f, v) && #[trigger] v.reads(s, wide);
    match f { DictKey::Shared(id) => { assert(s[0] == v.bytes[0] && s[1] == v.bytes[1]); } _ => {} }
}
pub proof fn lemma_elem_step(e: Seq<u8>, o: Seq<u8>, o1: Seq<u8>, b: Seq<u8>, h: int, n: nat, wide: bool, fs: Seq<DictElement>, ds: Seq<DictElement>, k: int)
    requires prefix(e, o), prefix(o, o1), prefix(o1, b), eplan(fs, ds, e.len() as int, h, wide), 0 <= k < fs.len(), elems_done(o, h, wide, fs, k), e.len() + hdr_size(n) <= h <= o.len(),
        o1.len() == o.len() + width(wide), b.len() == o1.len() + width(wide),
        kwritten(ds[k].key, o1.subrange(o.len() as int, o.len() + width(wide)), wide), ds[k].val.reads(b.subrange(o1.len() as int, o1.len() + width(wide)), wide)
    ensures prefix(e, b), elems_done(b, h, wide, fs, k + 1), b.subrange(e.len() as int, (e.len() + hdr_size(n)) as int) == o.subrange(e.len() as int, (e.len() + hdr_size(n)) as int)
{
    reveal(eslot_holds);
    let q = o.len() as int; let w = width(wide);
    lemma_eplan(fs, ds, e.len() as int, h, wide, k);
    assert(q == h + epos(k, wide)) by { reveal(elems_done); }
    lemma_prefix3(e, o, b); lemma_prefix3(o, o1, b);
    lemma_slot_grow(o1, b, q, w);
    lemma_slot_written(b, q + w, w, fs[k].val, ds[k].val);
    lemma_kslot_written(b, q, w, fs[k].key, ds[k].key);
    lemma_elems_done(o, b, h, wide, fs, k);
    lemma_sub_prefix(o, b, e.len() as int, (e.len() + hdr_size(n)) as int);
}
pub proof fn lemma_prefix3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires prefix(a, b), prefix(b, c)
    ensures prefix(a, c)
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == #[trigger] c[i] by { assert(b[i] == c[i]); }
}
pub proof fn lemma_elems_len(o: Seq<u8>, h: int, wide: bool, fs: Seq<DictElement>, k: int)
    requires elems_done(o, h, wide, fs, k)
    ensures o.len() == h + epos(k, wide)
{
    reveal(elems_done);
}
pub proof fn lemma_shared_all()
    ensures forall|id: u16, v: SizedValue| id < 2048 && #[trigger] id.sized(v) ==> kval(DictKey::Shared(id), v)
{
    assert forall|id: u16, v: SizedValue| id < 2048 && #[trigger] id.sized(v) implies kval(DictKey::Shared(id), v) by { assert(v.bytes@.take(2)[0] == v.bytes[0]); }
}
// ---- finishing
#[verifier::opaque]
pub open spec fn fin_rel(e: Encoder, g: Encoder) -> bool { forall|w: EView| #[trigger] repr(e, w) ==> exists|v: EView| #[trigger] repr(g, v) && do_finish(v) == do_finish(w) && (w.frames.len() == 0 ==> v == w) }
/// the innermost collection loses a key which has no value
pub open spec fn dropped(g: Encoder, m: Encoder) -> bool {
    m.out@ == g.out@ && m.sk() == g.sk() && m.top_collection_closed == g.top_collection_closed && g.cs().len() > 0 && m.cs().len() == g.cs().len()
        && (forall|i: int| 0 <= i < g.cs().len() - 1 ==> m.cs()[i] == #[trigger] g.cs()[i])
        && match (g.cs().last(), m.cs().last()) {
            (Collection::Array(a), Collection::Array(b)) => a == b,
            (Collection::Dict(a), Collection::Dict(b)) => a.values == b.values && b.next_key is None,
            _ => false,
        }
}
pub open spec fn drop_key(w: EView) -> EView { match w.frames.last() { Frame::Dict(ks, ts, _) => EView { frames: w.frames.update(w.frames.len() - 1, Frame::Dict(ks, ts, None)), done: w.done }, _ => w } }
pub proof fn lemma_drop(g: Encoder, m: Encoder)
    requires dropped(g, m), live(g)
    ensures live(m), used(m) == used(g), forall|w: EView| #[trigger] repr(g, w) ==> repr(m, drop_key(w)) && do_end(drop_key(w)) == do_end(w) && do_finish(w) == do_finish(do_end(w)) && w.frames.len() > 0
{
    lemma_need(g.cs(), m.cs());
    lemma_live(g);
    assert forall|w: EView| #[trigger] repr(g, w) implies repr(m, drop_key(w)) && do_end(drop_key(w)) == do_end(w) && do_finish(w) == do_finish(do_end(w)) && w.frames.len() > 0 by {
        lemma_top(g, w);
        let v = drop_key(w);
        assert(coll_holds(m.out@, m.sk(), m.cs().last(), v.frames.last())) by { reveal(coll_holds); }
        lemma_repr_top(g, m, w, v.frames.last());
        assert(v.frames =~= w.frames.update(w.frames.len() - 1, v.frames.last()));
        assert(v == EView { frames: w.frames.update(w.frames.len() - 1, v.frames.last()), done: w.done });
        assert(v.frames.drop_last() =~= w.frames.drop_last());
    }
    let w = choose|w: EView| repr(g, w);
    assert(repr(m, drop_key(w)));
}
pub proof fn lemma_fin_refl(e: Encoder) ensures fin_rel(e, e) { reveal(fin_rel); assert forall|w: EView| #[trigger] repr(e, w) implies exists|v: EView| #[trigger] repr(e, v) && do_finish(v) == do_finish(w) && (w.frames.len() == 0 ==> v == w) by { assert(repr(e, w) && do_finish(w) == do_finish(w)); } }
pub proof fn lemma_fin_step(e: Encoder, g: Encoder, h: Encoder)
    requires fin_rel(e, g), live(g), g.cs().len() > 0, forall|w: EView| #[trigger] repr(g, w) ==> repr(h, do_end(w)) && do_finish(w) == do_finish(do_end(w)) && w.frames.len() > 0
    ensures fin_rel(e, h), h.cs().len() < g.cs().len(), live(h)
{
    reveal(fin_rel);
    let u = choose|u: EView| repr(g, u);
    lemma_top(g, u); assert(repr(h, do_end(u))); lemma_top(h, do_end(u));
    assert forall|w: EView| #[trigger] repr(e, w) implies exists|v: EView| #[trigger] repr(h, v) && do_finish(v) == do_finish(w) && (w.frames.len() == 0 ==> v == w) by {
        let v = choose|v: EView| #[trigger] repr(g, v) && do_finish(v) == do_finish(w) && (w.frames.len() == 0 ==> v == w);
        assert(repr(g, v));
        assert(repr(h, do_end(v)) && do_finish(do_end(v)) == do_finish(w));
    }
}
pub proof fn lemma_fin_done(e: Encoder, g: Encoder)
    requires fin_rel(e, g), g.cs().len() == 0
    ensures forall|w: EView| #[trigger] repr(e, w) ==> repr(g, do_finish(w))
{
    reveal(fin_rel);
    assert forall|w: EView| #[trigger] repr(e, w) implies repr(g, do_finish(w)) by {
        let v = choose|v: EView| #[trigger] repr(g, v) && do_finish(v) == do_finish(w) && (w.frames.len() == 0 ==> v == w);
        lemma_top(g, v);
        assert(do_finish(v) == v);
    }
}
pub proof fn lemma_finished(e: Encoder, g: Encoder)
    requires forall|w: EView| #[trigger] repr(e, w) ==> repr(g, do_finish(w)), g.sk() == e.sk()
    ensures forall|w: EView| #[trigger] repr(e, w) ==> match do_finish(w).done { Some(t) => doc_holds(g.out@, e.sk(), t), None => w.frames.len() == 0 }
{
    assert forall|w: EView| #[trigger] repr(e, w) implies match do_finish(w).done { Some(t) => doc_holds(g.out@, e.sk(), t), None => w.frames.len() == 0 } by {
        assert(repr(g, do_finish(w))); reveal(repr);
        lemma_finish_done(w);
    }
}
pub proof fn lemma_finish_done(w: EView)
    ensures do_finish(w).frames.len() == 0, w.frames.len() > 0 ==> do_finish(w).done is Some
    decreases w.frames.len()
{
    if w.frames.len() > 0 { lemma_finish_done(do_end(w)); }
}
pub proof fn lemma_prefix3s(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, c: Seq<Seq<u8>>)
    requires prefix(a, b), prefix(b, c)
    ensures prefix(a, c)
{ assert forall|i: int| 0 <= i < a.len() implies a[i] == #[trigger] c[i] by { assert(a[i] == b[i]); } }
pub proof fn lemma_sk_insert(sk: Seq<Seq<u8>>, key: Seq<u8>)
    ensures sk_ok(sk) ==> (sk_insert(sk, key) matches Some(n) ==> sk_ok(n) && prefix(sk, n) && (sk_encode(n, key) matches Some(id) && id < n.len() && n[id as int] == key))
{
    if sk_ok(sk) && sk_insert(sk, key) is Some {
        let n = sk_insert(sk, key).unwrap();
        if !sk.contains(key) { assert(n[sk.len() as int] == key); }
        assert(n.contains(key));
        assert forall|i: int, j: int| 0 <= i < j < n.len() implies #[trigger] n[i] != #[trigger] n[j] by { if j < sk.len() { assert(sk[i] != sk[j]); } else if !sk.contains(key) { assert(n[i] == sk[i]); } }
    }
}
