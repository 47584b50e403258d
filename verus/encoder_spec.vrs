// ---------------------------------------------------------------- what an encoder stands for
pub enum Frame { Arr(Seq<Tree>), Dict(Seq<Seq<u8>>, Seq<Tree>, Option<Seq<u8>>) }
/// the collections which are open, outermost first, and the finished top-level collection
pub struct EView { pub frames: Seq<Frame>, pub done: Option<Tree> }
impl Encoder {
    pub open spec fn sk(&self) -> Seq<Seq<u8>> { match self.shared_keys { Some(s) => s@, None => Seq::empty() } }
    pub open spec fn cs(&self) -> Seq<Collection> { self.collection_stack.collections@ }
}
pub open spec fn same_sk(e: Encoder, g: Encoder) -> bool { (g.shared_keys is None) == (e.shared_keys is None) }
/// what is stored for an element: the value itself, or a pointer to where it has been written
#[verifier::opaque]
pub open spec fn item_holds(out: Seq<u8>, sk: Seq<Seq<u8>>, v: SizedValue, t: Tree) -> bool {
    v.ok() && if v.is_ptr() { v.ptr() % 2 == 0 && v.ptr() + 2 <= out.len() && holds(out, sk, v.ptr(), out.len() - v.ptr(), t) }
        else { t matches Tree::Leaf(l) && leaf_at(v.bytes@.take(2), l) }
}
#[verifier::opaque]
pub open spec fn dkey_holds(out: Seq<u8>, sk: Seq<Seq<u8>>, k: DictKey, s: Seq<u8>) -> bool {
    valid_utf8(s) && match k {
        DictKey::Inline(v) => v.ok() && !v.is_ptr() && leaf_at(v.bytes@.take(2), Leaf::Str(s)),
        DictKey::Shared(id) => id < sk.len() && sk[id as int] == s,
        DictKey::Pointer(b, o) => encode_utf8((*b)@) == s && o % 2 == 0 && o + 2 <= out.len() && leaf_at(out.skip(o as int), Leaf::Str(s)),
    }
}
pub open spec fn arr_holds(out: Seq<u8>, sk: Seq<Seq<u8>>, vs: Seq<SizedValue>, ts: Seq<Tree>) -> bool {
    vs.len() == ts.len() && forall|i: int| 0 <= i < vs.len() ==> item_holds(out, sk, #[trigger] vs[i], ts[i])
}
pub open spec fn dict_holds(out: Seq<u8>, sk: Seq<Seq<u8>>, es: Seq<DictElement>, ks: Seq<Seq<u8>>, ts: Seq<Tree>) -> bool {
    es.len() == ks.len() && es.len() == ts.len()
        && forall|i: int| 0 <= i < es.len() ==> dkey_holds(out, sk, (#[trigger] es[i]).key, ks[i]) && item_holds(out, sk, es[i].val, ts[i])
}
#[verifier::opaque]
pub open spec fn coll_holds(out: Seq<u8>, sk: Seq<Seq<u8>>, c: Collection, f: Frame) -> bool {
    match (c, f) {
        (Collection::Array(a), Frame::Arr(ts)) => arr_holds(out, sk, a.values@, ts),
        (Collection::Dict(d), Frame::Dict(ks, ts, k)) => dict_holds(out, sk, d.values@, ks, ts) && match (d.next_key, k) {
            (None, None) => true,
            (Some(a), Some(b)) => dkey_holds(out, sk, a, b),
            _ => false,
        },
        _ => false,
    }
}
pub open spec fn ready(f: Frame) -> bool { match f { Frame::Arr(_) => true, Frame::Dict(_, _, k) => k is Some } }
/// the encoder's state stands for the view w
#[verifier::opaque]
pub open spec fn repr(e: Encoder, w: EView) -> bool {
    &&& e.out@.len() % 2 == 0 && sk_ok(e.sk()) && e.cs().len() == w.frames.len()
    &&& forall|i: int| 0 <= i < w.frames.len() ==> coll_holds(e.out@, e.sk(), #[trigger] e.cs()[i], w.frames[i])
    &&& forall|i: int| 0 <= i < w.frames.len() - 1 ==> ready(#[trigger] w.frames[i])
    &&& e.top_collection_closed == (w.done is Some)
    &&& w.done matches Some(t) ==> w.frames.len() == 0 && doc_holds(e.out@, e.sk(), t)
}
pub open spec fn live(e: Encoder) -> bool { exists|w: EView| repr(e, w) }
pub open spec fn count(c: Collection) -> nat { match c { Collection::Array(a) => a.values@.len(), Collection::Dict(d) => d.values@.len() } }
/// bytes which closing the open collections may still take
pub open spec fn need(cs: Seq<Collection>) -> nat decreases cs.len() { if cs.len() == 0 { 8 } else { need(cs.drop_last()) + 40 + 8 * count(cs.last()) } }
pub open spec fn used(e: Encoder) -> nat { e.out@.len() + need(e.cs()) }
/// the format's pointers reach 1 GiB
pub open spec fn room(e: Encoder, x: nat) -> bool { used(e) + x <= pointer::MAX_WIDE }
// ---- the protocol
pub open spec fn can_begin(w: EView) -> bool { w.done is None && (w.frames.len() == 0 || ready(w.frames.last())) }
pub open spec fn can_value(w: EView) -> bool { w.frames.len() > 0 && ready(w.frames.last()) }
pub open spec fn can_key(w: EView) -> bool { w.frames.len() > 0 && (w.frames.last() matches Frame::Dict(_, _, k) && k is None) }
pub open spec fn can_end_array(w: EView) -> bool { w.frames.len() > 0 && w.frames.last() is Arr }
pub open spec fn can_end_dict(w: EView) -> bool { can_key(w) }
pub open spec fn push(f: Frame, t: Tree) -> Frame {
    match f {
        Frame::Arr(ts) => Frame::Arr(ts.push(t)),
        Frame::Dict(ks, ts, Some(k)) => Frame::Dict(ks.push(k), ts.push(t), None),
        Frame::Dict(_, _, None) => f,
    }
}
pub open spec fn do_value(w: EView, t: Tree) -> EView { EView { frames: w.frames.update(w.frames.len() - 1, push(w.frames.last(), t)), done: w.done } }
pub open spec fn do_key(w: EView, k: Seq<u8>) -> EView {
    match w.frames.last() { Frame::Dict(ks, ts, _) => EView { frames: w.frames.update(w.frames.len() - 1, Frame::Dict(ks, ts, Some(k))), done: w.done }, _ => w }
}
pub open spec fn do_begin(w: EView, f: Frame) -> EView { EView { frames: w.frames.push(f), done: w.done } }
pub open spec fn tree_of(f: Frame) -> Tree { match f { Frame::Arr(ts) => Tree::Arr(ts), Frame::Dict(ks, ts, _) => Tree::Dict(ks, ts) } }
pub open spec fn do_end(w: EView) -> EView {
    if w.frames.len() == 1 { EView { frames: Seq::empty(), done: Some(tree_of(w.frames.last())) } }
    else { do_value(EView { frames: w.frames.drop_last(), done: w.done }, tree_of(w.frames.last())) }
}
/// finishing: drop a dangling key and close, innermost first
pub open spec fn do_finish(w: EView) -> EView decreases w.frames.len() {
    if w.frames.len() == 0 { w } else { do_finish(do_end(w)) }
}
// ---- the order of a dict's elements
#[verifier::opaque]
pub open spec fn dkey_s(k: DictKey) -> KeyS {
    match k { DictKey::Shared(id) => KeyS::Shared(id as nat), DictKey::Inline(v) => KeyS::Str(str_at(v.bytes@)), DictKey::Pointer(b, _) => KeyS::Str(encode_utf8((*b)@)) }
}
pub open spec fn elem_cmp(a: DictElement, b: DictElement) -> int { key_cmp(dkey_s(a.key), dkey_s(b.key)) }
#[verifier::opaque]
pub open spec fn sorted_of(a: Seq<DictElement>, b: Seq<DictElement>) -> bool {
    &&& a.len() == b.len()
    &&& exists|pm: Seq<int>| is_perm(pm, a.len() as int) && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[pm[i]]
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> elem_cmp(#[trigger] b[i], #[trigger] b[j]) <= 0
}
