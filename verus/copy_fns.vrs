// ---------------------------------------------------------------- Encoder::write_fleece
/// the tree which a value of the document is copied as
pub open spec fn ctree(p: int, n: int) -> Tree decreases p + n, n, 1int {
    let b = doc().subrange(p, p + n);
    match kind(b[0]) {
        ValueType::Array => Tree::Arr(Seq::new(c_count(b) as nat, |i: int| csub(p, n, i))),
        ValueType::Dict => { let m = cnames(p, n); Tree::Dict(Seq::new(m, |i: int| name(p, n, i).unwrap()), Seq::new(m, |i: int| csub(p, n, 2 * i + 1))) }
        _ => Tree::Leaf(copy_leaf(b)),
    }
}
/// what its i-th slot is copied as
pub open spec fn csub(p: int, n: int, i: int) -> Tree decreases p + n, n, 0int {
    let r = slot_target(doc(), p, n, i);
    if smaller(p, n, r) { ctree(r.0, r.1) } else { Tree::Leaf(Leaf::Null) }
}
/// how many of its keys are strings, up to the first which is not
pub open spec fn cnames(p: int, n: int) -> nat { choose|m: nat| named(p, n, m as int) }
pub proof fn lemma_cnames(p: int, n: int, m: int)
    requires named(p, n, m)
    ensures cnames(p, n) == m
{
    assert(named(p, n, (m as nat) as int));
    let c = cnames(p, n);
    assert(named(p, n, c as int));
    if c < m { assert(name(p, n, c as int) is Some); } else if m < c { assert(name(p, n, m) is Some); }
}
/// an upper bound of the bytes the copy takes
pub open spec fn ccost(p: int, n: int) -> nat decreases p + n, n, 2int {
    let b = doc().subrange(p, p + n);
    match kind(b[0]) {
        ValueType::Array => 40 + ccosts(p, n, c_count(b) as nat),
        ValueType::Dict => 40 + ccosts(p, n, cnames(p, n)),
        ValueType::String => str_at(b).len() + 40,
        ValueType::Data => data_val(b).len() + 40,
        _ => 40,
    }
}
pub open spec fn ccost1(p: int, n: int, i: int) -> nat decreases p + n, n, 0int {
    let r = slot_target(doc(), p, n, i);
    if smaller(p, n, r) { ccost(r.0, r.1) } else { 0 }
}
/// of its first k elements or pairs
pub open spec fn ccosts(p: int, n: int, k: nat) -> nat decreases p + n, n, 1int, k {
    if k == 0 { 0 } else if kind(doc().subrange(p, p + n)[0]) == ValueType::Dict { ccosts(p, n, (k - 1) as nat) + name(p, n, k - 1).unwrap().len() + 40 + ccost1(p, n, 2 * k - 1) }
        else { ccosts(p, n, (k - 1) as nat) + ccost1(p, n, k - 1) }
}
pub proof fn lemma_costs(p: int, n: int, i: nat, k: nat)
    requires i <= k
    ensures ccosts(p, n, i) <= ccosts(p, n, k)
    decreases k - i
{
    if i < k { lemma_costs(p, n, i, (k - 1) as nat); }
}
/// the keys before the first which is not a string
pub proof fn lemma_names_from(p: int, n: int, i: int)
    requires 0 <= i <= dict_len(doc().subrange(p, p + n)), forall|x: int| 0 <= x < i ==> (#[trigger] name(p, n, x)) is Some
    ensures named(p, n, cnames(p, n) as int), i <= cnames(p, n)
    decreases dict_len(doc().subrange(p, p + n)) - i
{
    if i < dict_len(doc().subrange(p, p + n)) && name(p, n, i) is Some { lemma_names_from(p, n, i + 1); } else { assert(named(p, n, (i as nat) as int)); lemma_cnames(p, n, i); }
}
/// a tree goes where the encoder stands: into the open collection, or as the document itself
pub open spec fn can_put(w: EView, t: Tree) -> bool { match t { Tree::Leaf(_) => can_value(w), _ => can_begin(w) } }
pub open spec fn do_put(w: EView, t: Tree) -> EView { if w.frames.len() == 0 { EView { frames: w.frames, done: Some(t) } } else { do_value(w, t) } }
/// what one collection amounts to
pub proof fn lemma_put_coll()
    ensures
        forall|w: EView, ts: Seq<Tree>, t: Tree| #[trigger] do_put(do_begin(w, Frame::Arr(ts)), t) == do_begin(w, Frame::Arr(ts.push(t))),
        forall|w: EView, ks: Seq<Seq<u8>>, ts: Seq<Tree>, k: Seq<u8>| #[trigger] do_key(do_begin(w, Frame::Dict(ks, ts, None)), k) == do_begin(w, Frame::Dict(ks, ts, Some(k))),
        forall|w: EView, ks: Seq<Seq<u8>>, ts: Seq<Tree>, k: Seq<u8>, t: Tree| #[trigger] do_put(do_begin(w, Frame::Dict(ks, ts, Some(k))), t) == do_begin(w, Frame::Dict(ks.push(k), ts.push(t), None)),
        forall|w: EView, f: Frame| can_begin(w) ==> #[trigger] do_end(do_begin(w, f)) == do_put(w, tree_of(f)),
        forall|w: EView, f: Frame| (#[trigger] do_begin(w, f)).frames.len() == w.frames.len() + 1 && do_begin(w, f).frames.last() == f && do_begin(w, f).done == w.done,
{
    assert forall|w: EView, f: Frame, g: Frame| #[trigger] do_begin(w, f).frames.update(w.frames.len() as int, g) == do_begin(w, g).frames by { assert(do_begin(w, f).frames.update(w.frames.len() as int, g) =~= do_begin(w, g).frames); }
    assert forall|w: EView, f: Frame| can_begin(w) implies #[trigger] do_end(do_begin(w, f)) == do_put(w, tree_of(f)) by {
        assert(do_begin(w, f).frames.drop_last() =~= w.frames);
        if w.frames.len() == 0 { assert(w.frames =~= Seq::empty()); }
    }
}
/// reading through a pointer-free value, scalar by scalar
pub proof fn lemma_ctree(p: int, n: int)
    requires ok_at(p, n)
    ensures match kind(doc()[p]) { ValueType::Array => ctree(p, n) is Arr, ValueType::Dict => ctree(p, n) is Dict, _ => ctree(p, n) == Tree::Leaf(copy_leaf(doc().subrange(p, p + n))) },
        doc().subrange(p, p + n)[0] == doc()[p],
{}
/// the collection with its first k elements or pairs
pub open spec fn cframe(p: int, n: int, k: nat) -> Frame {
    if kind(doc().subrange(p, p + n)[0]) == ValueType::Dict { Frame::Dict(Seq::new(k, |i: int| name(p, n, i).unwrap()), Seq::new(k, |i: int| csub(p, n, 2 * i + 1)), None) }
    else { Frame::Arr(Seq::new(k, |i: int| csub(p, n, i))) }
}
/// so many have been copied
#[verifier::opaque]
pub open spec fn copying(e: Encoder, g: Encoder, p: int, n: int, k: nat) -> bool {
    &&& forall|w: EView| #[trigger] repr(e, w) ==> can_begin(w) && repr(g, do_begin(w, cframe(p, n, k)))
    &&& used(g) <= used(e) + 40 + ccosts(p, n, k) && prefix(e.sk(), g.sk()) && same_sk(e, g)
}
/// what write_fleece does: all of the value is copied, or nothing has changed
#[verifier::opaque]
pub open spec fn wrote(e: Encoder, g: Encoder, ok: bool, p: int, n: int) -> bool {
    &&& forall|w: EView| #[trigger] repr(e, w) ==> ok == can_put(w, ctree(p, n)) && (ok ==> repr(g, do_put(w, ctree(p, n))))
    &&& !ok ==> unchanged(e, g)
    &&& used(g) <= used(e) + ccost(p, n) && prefix(e.sk(), g.sk()) && same_sk(e, g)
}
pub proof fn lemma_begun_copy(e: Encoder, g: Encoder, p: int, n: int, w0: EView)
    requires is_coll(kind(doc().subrange(p, p + n)[0])), used(g) <= used(e) + 40, g.sk() == e.sk(), same_sk(e, g), repr(e, w0),
        forall|w: EView| #[trigger] repr(e, w) ==> can_begin(w) && repr(g, do_begin(w, if kind(doc().subrange(p, p + n)[0]) == ValueType::Dict { Frame::Dict(Seq::empty(), Seq::empty(), None) } else { Frame::Arr(Seq::empty()) }))
    ensures copying(e, g, p, n, 0), live(g)
{
    reveal(copying);
    match cframe(p, n, 0) { Frame::Arr(ts) => { assert(ts =~= Seq::empty()); } Frame::Dict(ks, ts, _) => { assert(ks =~= Seq::empty()); assert(ts =~= Seq::empty()); } }
    assert(repr(g, do_begin(w0, cframe(p, n, 0))));
}
pub proof fn lemma_copy_elem(e: Encoder, g: Encoder, p: int, n: int, k: nat, c: nat, w0: EView, r: (int, int))
    requires repr(e, w0), copying(e, g, p, n, k), k < c, room(e, 40 + ccosts(p, n, c)), kind(doc().subrange(p, p + n)[0]) == ValueType::Array, r == slot_target(doc(), p, n, k as int), smaller(p, n, r)
    ensures live(g), room(g, ccost(r.0, r.1)), forall|h: Encoder, ok: bool| #[trigger] wrote(g, h, ok, r.0, r.1) ==> ok && copying(e, h, p, n, k + 1) && live(h)
{
    reveal(copying); reveal(wrote);
    lemma_costs(p, n, k + 1, c);
    lemma_put_coll();
    assert(repr(g, do_begin(w0, cframe(p, n, k))));
    assert(csub(p, n, k as int) == ctree(r.0, r.1));
    assert(ccost1(p, n, k as int) == ccost(r.0, r.1));
    assert(cframe(p, n, k + 1)->Arr_0 =~= cframe(p, n, k)->Arr_0.push(csub(p, n, k as int)));
    assert forall|h: Encoder, ok: bool| #[trigger] wrote(g, h, ok, r.0, r.1) implies ok && copying(e, h, p, n, k + 1) && live(h) by {
        assert forall|w: EView| #[trigger] repr(e, w) implies ok && can_begin(w) && repr(h, do_begin(w, cframe(p, n, k + 1))) by {
            let u = do_begin(w, cframe(p, n, k));
            assert(repr(g, u));
            assert(u.frames.last() == cframe(p, n, k));
        }
        assert(repr(h, do_begin(w0, cframe(p, n, k + 1))));
    }
}
pub proof fn lemma_copy_key(e: Encoder, g: Encoder, p: int, n: int, k: nat, c: nat, w0: EView, key: Seq<u8>)
    requires repr(e, w0), copying(e, g, p, n, k), k < c, room(e, 40 + ccosts(p, n, c)), kind(doc().subrange(p, p + n)[0]) == ValueType::Dict, name(p, n, k as int) == Some(key)
    ensures live(g), room(g, str_size(key.len()) + 1), exists|w: EView| #[trigger] repr(g, w) && can_key(w)
{
    reveal(copying);
    lemma_costs(p, n, k + 1, c);
    assert(ccosts(p, n, k + 1) >= key.len());
    lemma_enc_len_u64(key.len() as u64);
    lemma_put_coll();
    let u = do_begin(w0, cframe(p, n, k));
    assert(repr(g, u) && can_key(u));
}
pub proof fn lemma_copy_pair(e: Encoder, g: Encoder, g2: Encoder, p: int, n: int, k: nat, c: nat, w0: EView, key: Seq<u8>, r: (int, int))
    requires repr(e, w0), copying(e, g, p, n, k), k < c, room(e, 40 + ccosts(p, n, c)), kind(doc().subrange(p, p + n)[0]) == ValueType::Dict, name(p, n, k as int) == Some(key),
        r == slot_target(doc(), p, n, 2 * (k as int) + 1), smaller(p, n, r),
        forall|w: EView| #[trigger] repr(g, w) ==> repr(g2, do_key(w, key)), used(g2) <= used(g) + str_size(key.len()) + 1, prefix(g.sk(), g2.sk()), same_sk(g, g2),
    ensures live(g2), room(g2, ccost(r.0, r.1)), forall|h: Encoder, ok: bool| #[trigger] wrote(g2, h, ok, r.0, r.1) ==> ok && copying(e, h, p, n, k + 1) && live(h)
{
    reveal(copying); reveal(wrote);
    lemma_costs(p, n, k + 1, c);
    assert(ccosts(p, n, k + 1) >= key.len());
    lemma_enc_len_u64(key.len() as u64);
    lemma_put_coll();
    let f = cframe(p, n, k);
    let ks = f->Dict_0; let ts = f->Dict_1;
    assert(repr(g, do_begin(w0, f)));
    assert(repr(g2, do_key(do_begin(w0, f), key)));
    assert(csub(p, n, 2 * (k as int) + 1) == ctree(r.0, r.1));
    assert(ccost1(p, n, 2 * (k + 1) - 1) == ccost(r.0, r.1));
    assert(cframe(p, n, k + 1)->Dict_0 =~= ks.push(key));
    assert(cframe(p, n, k + 1)->Dict_1 =~= ts.push(ctree(r.0, r.1)));
    assert forall|h: Encoder, ok: bool| #[trigger] wrote(g2, h, ok, r.0, r.1) implies ok && copying(e, h, p, n, k + 1) && live(h) by {
        assert forall|w: EView| #[trigger] repr(e, w) implies ok && can_begin(w) && repr(h, do_begin(w, cframe(p, n, k + 1))) by {
            assert(repr(g, do_begin(w, f)));
            let u = do_key(do_begin(w, f), key);
            assert(u == do_begin(w, Frame::Dict(ks, ts, Some(key))));
            assert(repr(g2, u));
            assert(u.frames.last() == Frame::Dict(ks, ts, Some(key)));
        }
        assert(repr(h, do_begin(w0, cframe(p, n, k + 1))));
    }
}
/// all of it: what closing it gives
pub proof fn lemma_copied_all(e: Encoder, g: Encoder, p: int, n: int, k: nat, w0: EView)
    requires ok_at(p, n), repr(e, w0), copying(e, g, p, n, k), room(e, ccost(p, n)), is_coll(kind(doc()[p])), k == (if kind(doc()[p]) == ValueType::Dict { cnames(p, n) } else { c_count(doc().subrange(p, p + n)) as nat })
    ensures live(g), room(g, 0), tree_of(cframe(p, n, k)) == ctree(p, n), ccost(p, n) == 40 + ccosts(p, n, k), used(g) <= used(e) + ccost(p, n), prefix(e.sk(), g.sk()), same_sk(e, g),
        forall|w: EView| #[trigger] repr(e, w) ==> can_begin(w) && repr(g, do_begin(w, cframe(p, n, k))) && do_end(do_begin(w, cframe(p, n, k))) == do_put(w, ctree(p, n)) && can_put(w, ctree(p, n))
{
    reveal(copying);
    lemma_put_coll();
    assert(repr(g, do_begin(w0, cframe(p, n, k))));
    assert(doc().subrange(p, p + n)[0] == doc()[p]);
    let b = doc().subrange(p, p + n);
    lemma_ok(p, n);
    match ctree(p, n) {
        Tree::Arr(ts) => { assert(ts =~= cframe(p, n, k)->Arr_0); }
        Tree::Dict(ks, ts) => { assert(ks =~= cframe(p, n, k)->Dict_0); assert(ts =~= cframe(p, n, k)->Dict_1); }
        _ => {}
    }
}
/// a scalar was put into the open collection, or not
pub proof fn lemma_wrote_leaf(e: Encoder, g: Encoder, ok: bool, p: int, n: int)
    requires ok_at(p, n), !is_coll(kind(doc()[p])),
        forall|w: EView| #[trigger] repr(e, w) ==> ok == can_value(w) && (ok ==> repr(g, do_value(w, ctree(p, n)))),
        !ok ==> unchanged(e, g), used(g) <= used(e) + ccost(p, n), prefix(e.sk(), g.sk()), same_sk(e, g),
    ensures wrote(e, g, ok, p, n)
{
    reveal(wrote); lemma_ctree(p, n);
}
/// nothing was written
pub proof fn lemma_wrote_not(e: Encoder, g: Encoder, p: int, n: int)
    requires unchanged(e, g), forall|w: EView| #[trigger] repr(e, w) ==> !can_put(w, ctree(p, n))
    ensures wrote(e, g, false, p, n)
{
    reveal(wrote); assert(used(g) == used(e));
}
pub proof fn lemma_wrote_coll(e: Encoder, g: Encoder, h: Encoder, ok: bool, p: int, n: int, k: nat, w0: EView)
    requires ok_at(p, n), repr(e, w0), copying(e, g, p, n, k), room(e, ccost(p, n)), is_coll(kind(doc()[p])), k == (if kind(doc()[p]) == ValueType::Dict { cnames(p, n) } else { c_count(doc().subrange(p, p + n)) as nat }),
        forall|w: EView| #[trigger] repr(g, w) ==> ok == (if kind(doc()[p]) == ValueType::Dict { can_end_dict(w) } else { can_end_array(w) }) && (ok ==> repr(h, do_end(w))),
        used(h) <= used(g), h.sk() == g.sk(), same_sk(g, h),
    ensures wrote(e, h, ok, p, n), ok
{
    lemma_copied_all(e, g, p, n, k, w0);
    reveal(wrote); lemma_put_coll();
    assert(doc().subrange(p, p + n)[0] == doc()[p]);
    let u = do_begin(w0, cframe(p, n, k));
    assert(repr(g, u) && u.frames.last() == cframe(p, n, k));
    assert(ok);
    assert forall|w: EView| #[trigger] repr(e, w) implies ok == can_put(w, ctree(p, n)) && (ok ==> repr(h, do_put(w, ctree(p, n)))) by {
        assert(repr(g, do_begin(w, cframe(p, n, k))));
    }
}
/// one of the constants
pub proof fn lemma_wrote_const(e: Encoder, g: Encoder, ok: bool, p: int, n: int, v: SizedValue)
    requires ok_at(p, n), live(e), takes_value(e.cs()) == ok, ok ==> pushed(e, g, v), !ok ==> unchanged(e, g), v.bytes[2] == 0, v.bytes[3] == 0,
        match kind(doc()[p]) { ValueType::True => v.bytes[0] == 0x38 && v.bytes[1] == 0, ValueType::False => v.bytes[0] == 0x34 && v.bytes[1] == 0, ValueType::Null => v.bytes[0] == 0x30 && v.bytes[1] == 0, ValueType::Undefined => v.bytes[0] == 0x3C && v.bytes[1] == 0, _ => false }
    ensures wrote(e, g, ok, p, n)
{
    lemma_ctree(p, n);
    let t = ctree(p, n);
    assert(item_holds(e.out@, e.sk(), v, t)) by {
        reveal(item_holds); reveal(leaf_at); lemma_ebits(); lemma_bits();
        assert(v.bytes@.take(2)[0] == v.bytes[0]);
    }
    lemma_views(e); lemma_same(e); lemma_live(e);
    lemma_pushed(e, v, t);
    let w0 = choose|w: EView| repr(e, w);
    lemma_wrote_leaf(e, g, ok, p, n);
}
impl Encoder {
//@extract src/encoder/mod.rs impl Encoder :: fn write_fleece
//@prop C04 C05
//@attr #[verifier::spinoff_prover]
//@rewrite? value . to_data ( ) => vx_bytes(value.to_data())
//@rewrite? return Err ( $$x ) ; => ({ proof { lemma_views(e); lemma_wrote_not(e, *self, p, n); } return Err($$x); })
//@rewrite? self . _push ( SizedValue :: new_narrow ( $$x ) ) => ({ let vx_v = SizedValue::new_narrow($$x); let vx_r = self._push(vx_v); proof { lemma_wrote_const(e, *self, vx_r.is_ok(), p, n, vx_v); } vx_r })
//@rewrite? self . write_value ( $$x ) => ({ let vx_r = self.write_value($$x); proof { lemma_wrote_leaf(e, *self, vx_r.is_ok(), p, n); } vx_r })
//@rewrite? self . begin_array ( $$x ) ? => ({ let vx_r = self.begin_array($$x); proof { if vx_r.is_err() { lemma_wrote_not(e, *self, p, n); } else { lemma_begun_copy(e, *self, p, n, w0); } } vx_r? })
//@rewrite? self . begin_dict ( ) ? => ({ let vx_r = self.begin_dict(); proof { if vx_r.is_err() { lemma_wrote_not(e, *self, p, n); } else { lemma_begun_copy(e, *self, p, n, w0); } } vx_r? })
//@rewrite? self . end_array ( ) => ({ let ghost g = *self; let vx_r = self.end_array(); proof { lemma_wrote_coll(e, g, *self, vx_r.is_ok(), p, n, c_count(array@) as nat, w0); } vx_r })
//@rewrite? self . end_dict ( ) => ({ let ghost g = *self; let vx_r = self.end_dict(); proof { lemma_wrote_coll(e, g, *self, vx_r.is_ok(), p, n, cnames(p, n), w0); } vx_r })
//@rewrite for $v in array { => let mut vx_it = array.into_iter(); loop { let Some($v) = vx_it.next() else { break; }; proof { lemma_iter_first(p, n); lemma_smaller(p, n, j); lemma_copy_elem(e, *self, p, n, j as nat, c, w0, ($v.pos(), $v.n())); }
//@rewrite for ( $k , $v ) in dict { => let mut vx_it = dict.into_iter(); loop { let Some(($k, $v)) = vx_it.next() else { break; }; proof { lemma_pair(p, n, j, $k, $v, vx_it.it().len as int); axiom_str_len($k); assert(name(p, n, j) == Some(encode_utf8($k@))); lemma_names_from(p, n, j + 1); lemma_copy_key(e, *self, p, n, j as nat, cnames(p, n), w0, encode_utf8($k@)); }
//@after self . write_key
    proof { lemma_copy_pair(e, g, *self, p, n, j as nat, cnames(p, n), w0, name(p, n, j).unwrap(), dict_val(doc(), p, n, j)); }
//@ret r
//@contract
    requires value.ok(), live(*old(self)), room(*old(self), ccost(value.pos(), value.n())),
    ensures wrote(*old(self), *final(self), r.is_ok(), value.pos(), value.n()),
    decreases value.pos() + value.n(), value.n()
//@at start
    let ghost p = value.pos(); let ghost n = value.n(); let ghost e = *self; 
    let ghost w0 = choose|w: EView| repr(e, w); let ghost mut m: int = 0;
    proof { lemma_all_ok(); lemma_ok(p, n); lemma_scalars(value@); lemma_ctree(p, n); lemma_live(e);
        assert(0x30u8 | 0x04u8 == 0x34 && 0x30u8 | 0x08u8 == 0x38 && 0x30u8 | 0x00u8 == 0x30 && 0x30u8 | 0x0Cu8 == 0x3C) by (bit_vector);
        lemma_enc_len_u64(str_at(value@).len() as u64); lemma_enc_len_u64(data_val(value@).len() as u64); }
//@loop 1
    invariant
        array.ok(), p == array.pos(), n == array.n(), p == value.pos(), n == value.n(), vx_it.ok(), vx_it.index <= vx_it.len, vx_it.len == c_count(array@), vx_it.width == c_width(array@),
        vx_it.index < vx_it.len ==> vx_it.start() == p + c_first(array@), kind(doc().subrange(p, p + n)[0]) == ValueType::Array, kind(doc()[p]) == ValueType::Array,
        repr(e, w0), copying(e, *self, p, n, vx_it.index as nat), room(e, ccost(p, n)), live(*self),
    ensures vx_it.index >= vx_it.len,
    decreases vx_it.len - vx_it.index
//@at loopstart 1
    let ghost j = vx_it.index as int; let ghost c: nat = c_count(array@) as nat;
//@at afterloop 1
    proof { lemma_copied_all(e, *self, p, n, c_count(array@) as nat, w0); }
//@loop 2
    invariant_except_break
        dict.ok(), p == dict.pos(), n == dict.n(), vx_it.keys() == scope_keys(), vx_it.it().ok(), vx_it.it().index == 2 * m, vx_it.it().index <= vx_it.it().len,
        vx_it.it().len == c_count(dict@), vx_it.it().width == c_width(dict@), c_count(dict@) % 2 == 0,
        vx_it.it().index < vx_it.it().len ==> vx_it.it().start() == p + c_first(dict@),
    invariant
        p == value.pos(), n == value.n(), kind(doc().subrange(p, p + n)[0]) == ValueType::Dict, 0 <= m, forall|i: int| 0 <= i < m ==> (#[trigger] name(p, n, i)) is Some,
        repr(e, w0), copying(e, *self, p, n, m as nat), room(e, ccost(p, n)), live(*self),
    ensures named(p, n, m),
    decreases vx_it.it().len - vx_it.it().index
//@at loopstart 2
    let ghost j = m; let ghost g = *self;
    proof { lemma_iter_first(p, n); reveal(dict_key); reveal(dict_val); }
//@at loopend 2
    proof { m = m + 1; }
//@at afterloop 2
    proof { lemma_cnames(p, n, m); lemma_copied_all(e, *self, p, n, cnames(p, n), w0); }
//@end
}
/// the copy of what was written: the same keys and values, the leaves as `leaf_same` says
#[verifier::opaque]
pub open spec fn tree_same(t: Tree, c: Tree) -> bool decreases t, 1int {
    match t {
        Tree::Leaf(l) => c matches Tree::Leaf(m) && leaf_same(l, m),
        Tree::Arr(ts) => c matches Tree::Arr(cs) && cs.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> tree_same(#[trigger] ts[i], cs[i]),
        Tree::Dict(ks, vs) => c matches Tree::Dict(cks, cvs) && cks.len() == ks.len() && cvs.len() == vs.len() && vs.len() == ks.len() && exists|pm: Seq<int>| #[trigger] is_perm(pm, ks.len() as int) && pairs_same(ks, vs, cks, cvs, pm),
    }
}
/// the pairs of the copy, in the order pm
#[verifier::opaque]
pub open spec fn pairs_same(ks: Seq<Seq<u8>>, vs: Seq<Tree>, cks: Seq<Seq<u8>>, cvs: Seq<Tree>, pm: Seq<int>) -> bool decreases vs, 0int {
    forall|i: int| 0 <= i < ks.len() ==> #[trigger] cks[i] == ks[pm[i]] && 0 <= pm[i] < vs.len() && tree_same(vs[pm[i]], cvs[i])
}
pub proof fn lemma_pairs_same(ks: Seq<Seq<u8>>, vs: Seq<Tree>, cks: Seq<Seq<u8>>, cvs: Seq<Tree>, pm: Seq<int>)
    requires forall|i: int| 0 <= i < ks.len() ==> #[trigger] cks[i] == ks[pm[i]] && 0 <= pm[i] < vs.len() && tree_same(vs[pm[i]], cvs[i])
    ensures pairs_same(ks, vs, cks, cvs, pm)
{ reveal(tree_same); reveal(pairs_same); }
pub proof fn lemma_dict_same(ks: Seq<Seq<u8>>, vs: Seq<Tree>, cks: Seq<Seq<u8>>, cvs: Seq<Tree>, pm: Seq<int>)
    requires cks.len() == ks.len(), cvs.len() == vs.len(), vs.len() == ks.len(), is_perm(pm, ks.len() as int), pairs_same(ks, vs, cks, cvs, pm)
    ensures tree_same(Tree::Dict(ks, vs), Tree::Dict(cks, cvs))
{ reveal(tree_same); reveal(pairs_same); }
pub proof fn lemma_same_leaf(l: Leaf, c: Tree)
    ensures tree_same(Tree::Leaf(l), c) == (c matches Tree::Leaf(m) && leaf_same(l, m))
{ reveal(tree_same); }
pub proof fn lemma_same_kind(t: Tree, c: Tree)
    requires tree_same(t, c)
    ensures (t is Leaf) == (c is Leaf), (t is Arr) == (c is Arr)
{ reveal(tree_same); }
pub proof fn lemma_same_arr(ts: Seq<Tree>, cs: Seq<Tree>)
    requires cs.len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> tree_same(#[trigger] ts[i], cs[i])
    ensures tree_same(Tree::Arr(ts), Tree::Arr(cs))
{
    assert(tree_same(Tree::Arr(ts), Tree::Arr(cs)) == (cs.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> tree_same(#[trigger] ts[i], cs[i]))) by { reveal_with_fuel(tree_same, 1); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_dict_names(sk: Seq<Seq<u8>>, p: int, n: int, ks: Seq<Seq<u8>>, vs: Seq<Tree>) -> (pm: Seq<int>)
    requires ok_at(p, n), holds(doc(), sk, p, n, Tree::Dict(ks, vs)), sk_known(sk)
    ensures entries(doc(), sk, p, n, ks, vs, pm), cnames(p, n) == ks.len(), kind(doc()[p]) == ValueType::Dict, ctree(p, n) matches Tree::Dict(cks, cvs) && cks.len() == ks.len() && cvs.len() == ks.len() && vs.len() == ks.len()
        && (forall|i: int| 0 <= i < ks.len() ==> #[trigger] cks[i] == ks[pm[i]]) && (forall|i: int| 0 <= i < ks.len() ==> #[trigger] cvs[i] == csub(p, n, 2 * i + 1))
{
    lemma_ctree(p, n);
    let pm = lemma_entries(doc(), sk, p, n, ks, vs);
    lemma_names(sk, p, n, ks, vs, pm);
    lemma_names_from(p, n, 0);
    lemma_named(sk, p, n, ks, vs, pm, cnames(p, n) as int);
    let cks = ctree(p, n)->Dict_0;
    assert forall|i: int| 0 <= i < ks.len() implies #[trigger] cks[i] == ks[pm[i]] by { assert(name(p, n, i) == Some(ks[pm[i]])); }
    pm
}
#[verifier::spinoff_prover]
pub proof fn lemma_dict_pair(sk: Seq<Seq<u8>>, p: int, n: int, ks: Seq<Seq<u8>>, vs: Seq<Tree>, pm: Seq<int>, i: int) -> (r: (int, int))
    requires ok_at(p, n), kind(doc()[p]) == ValueType::Dict, entries(doc(), sk, p, n, ks, vs, pm), 0 <= i < ks.len()
    ensures ok_at(r.0, r.1), holds(doc(), sk, r.0, r.1, vs[pm[i]]), 0 <= pm[i] < vs.len(), csub(p, n, 2 * i + 1) == ctree(r.0, r.1)
{
    let r = dict_val(doc(), p, n, i);
    lemma_smaller(p, n, 2 * i + 1);
    assert(r == slot_target(doc(), p, n, 2 * i + 1)) by { reveal(dict_val); }
    assert(holds(doc(), sk, r.0, r.1, vs[pm[i]]));
    r
}
pub proof fn lemma_leaf_copy(sk: Seq<Seq<u8>>, p: int, n: int, l: Leaf)
    requires ok_at(p, n), holds(doc(), sk, p, n, Tree::Leaf(l))
    ensures ctree(p, n) matches Tree::Leaf(m) && leaf_same(l, m)
{
    lemma_ctree(p, n); reveal(holds); lemma_leaf_same(doc().subrange(p, p + n), l);
}
pub proof fn lemma_arr_len(sk: Seq<Seq<u8>>, p: int, n: int, ts: Seq<Tree>)
    requires ok_at(p, n), holds(doc(), sk, p, n, Tree::Arr(ts))
    ensures ctree(p, n) matches Tree::Arr(cs) && cs.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> #[trigger] cs[i] == csub(p, n, i)
{
    lemma_ctree(p, n); reveal(holds);
}
pub proof fn lemma_arr_elem(sk: Seq<Seq<u8>>, p: int, n: int, ts: Seq<Tree>, i: int) -> (r: (int, int))
    requires ok_at(p, n), holds(doc(), sk, p, n, Tree::Arr(ts)), 0 <= i < ts.len()
    ensures ok_at(r.0, r.1), holds(doc(), sk, r.0, r.1, ts[i]), csub(p, n, i) == ctree(r.0, r.1)
{
    lemma_ctree(p, n);
    let r = slot_target(doc(), p, n, i);
    assert(holds(doc(), sk, r.0, r.1, ts[i]) && c_count(doc().subrange(p, p + n)) == ts.len() && kind(doc().subrange(p, p + n)[0]) == ValueType::Array) by { reveal(holds); }
    lemma_smaller(p, n, i);
    r
}
pub proof fn lemma_copy_same(sk: Seq<Seq<u8>>, p: int, n: int, t: Tree)
    requires ok_at(p, n), holds(doc(), sk, p, n, t), sk_known(sk)
    ensures tree_same(t, ctree(p, n))
    decreases t
{
    match t {
        Tree::Leaf(l) => { lemma_leaf_copy(sk, p, n, l); lemma_same_leaf(l, ctree(p, n)); }
        Tree::Arr(ts) => {
            lemma_arr_len(sk, p, n, ts);
            let cs = ctree(p, n)->Arr_0;
            assert forall|i: int| 0 <= i < ts.len() implies tree_same(#[trigger] ts[i], cs[i]) by {
                let r = lemma_arr_elem(sk, p, n, ts, i);
                lemma_copy_same(sk, r.0, r.1, ts[i]);
            }
            lemma_same_arr(ts, cs);
        }
        Tree::Dict(ks, vs) => {
            let pm = lemma_dict_names(sk, p, n, ks, vs);
            let cks = ctree(p, n)->Dict_0; let cvs = ctree(p, n)->Dict_1;
            assert forall|i: int| 0 <= i < ks.len() implies #[trigger] cks[i] == ks[pm[i]] && 0 <= pm[i] < vs.len() && tree_same(vs[pm[i]], cvs[i]) by {
                let r = lemma_dict_pair(sk, p, n, ks, vs, pm, i);
                lemma_copy_same(sk, r.0, r.1, vs[pm[i]]);
            }
            lemma_pairs_same(ks, vs, cks, cvs, pm);
            lemma_dict_same(ks, vs, cks, cvs, pm);
        }
    }
}
pub open spec fn copied(t: Tree, sk: Seq<Seq<u8>>, d: Seq<u8>) -> bool { exists|c: Tree, k: Seq<Seq<u8>>| tree_same(t, c) && prefix(sk, k) && #[trigger] doc_holds(d, k, c) }
/// C04: copying an existing value: the new document holds the tree it stands for
//@thm C04
fn thm_copy(v: &Value, e: Encoder, Ghost(sk): Ghost<Seq<Seq<u8>>>, Ghost(t): Ghost<Tree>) -> (r: Result<Vec<u8>>)
    requires v.ok(), holds(doc(), sk, v.pos(), v.n(), t), sk_known(sk), repr(e, EView { frames: Seq::empty(), done: None }), room(e, ccost(v.pos(), v.n()))
    ensures r.is_ok() == !(t is Leaf), r matches Ok(d) ==> copied(t, e.sk(), d@)
{
    let ghost w = EView { frames: Seq::empty(), done: None };
    let mut e = e;
    let ghost old_e = e;
    proof { lemma_copy_same(sk, v.pos(), v.n(), t); lemma_same_kind(t, ctree(v.pos(), v.n())); }
    let ghost c = ctree(v.pos(), v.n());
    match e.write_fleece(v) {
        Ok(_) => {
            proof { reveal(wrote); assert(repr(old_e, w)); assert(repr(e, do_put(w, c))); assert(do_finish(do_put(w, c)) == do_put(w, c)); }
            let ghost k = e.sk();
            let d = e.finish();
            proof { assert(doc_holds(d@, k, c)); assert(copied(t, old_e.sk(), d@)); }
            Ok(d)
        }
        Err(x) => { proof { reveal(wrote); assert(repr(old_e, w)); } Err(x) }
    }
}
