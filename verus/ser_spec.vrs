// ---------------------------------------------------------------- serializing: what a value is, in serde's terms, as a tree
//@include error_types.vrs
/// `?` converts with From
impl vstd::std_specs::convert::FromSpecImpl<EncodeError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: EncodeError) -> Self { Error::Encode(v) }
}
impl From<EncodeError> for Error {
//@extract src/error.rs impl From<EncodeError> for Error :: fn from
//@prop C15
//@end
}
/// r.map_err(Error::Encode)
pub fn vx_enc<T>(r: core::result::Result<T, EncodeError>) -> (x: Result<T>)
    ensures match r { Ok(v) => x == Ok::<T, Error>(v), Err(e) => x == Err::<T, Error>(Error::Encode(e)) } { match r { Ok(v) => Ok(v), Err(e) => Err(Error::Encode(e)) } }
/// char::to_string
#[verifier::external_body]
pub fn vx_char_string(c: char) -> (r: String) ensures r@ == seq![c] { unimplemented!() }
//@item src/ser.rs struct Serializer
//@rewrite encoder : => pub encoder :
//@item src/ser.rs struct MapKeySerializer
//@rewrite ser : => pub ser :
//@rewrite struct MapKeySerializer => pub struct MapKeySerializer
/// a tree goes where the encoder stands: into the open collection, or as the document itself
pub open spec fn can_put(w: EView, t: Tree) -> bool { match t { Tree::Leaf(_) => can_value(w), _ => can_begin(w) } }
pub open spec fn do_put(w: EView, t: Tree) -> EView { if w.frames.len() == 0 { EView { frames: w.frames, done: Some(t) } } else { do_value(w, t) } }
pub open spec fn lsize(s: Seq<char>) -> nat { str_size(encode_utf8(s).len()) + 9 }
pub open spec fn ltree(s: Seq<char>) -> Tree { Tree::Leaf(Leaf::Str(encode_utf8(s))) }
/// the whole of a value was written: it succeeds iff the value can be serialized and may stand there
#[verifier::opaque]
pub open spec fn put(e: Encoder, g: Encoder, ok: bool, t: Option<Tree>, c: nat) -> bool {
    &&& forall|w: EView| #[trigger] repr(e, w) ==> ok == (t matches Some(x) && can_put(w, x)) && (ok ==> repr(g, do_put(w, t.unwrap())))
    &&& ok ==> live(g) && used(g) <= used(e) + c && prefix(e.sk(), g.sk()) && same_sk(e, g)
}
/// frames were opened for it, with what has been written so far
#[verifier::opaque]
pub open spec fn opened(e: Encoder, g: Encoder, ok: bool, fs: Seq<Frame>, c: nat) -> bool {
    &&& forall|w: EView| #[trigger] repr(e, w) ==> ok == can_begin(w) && (ok ==> repr(g, under(w, fs)))
    &&& ok ==> live(g) && used(g) <= used(e) + c && prefix(e.sk(), g.sk()) && same_sk(e, g)
}
pub open spec fn under(w: EView, fs: Seq<Frame>) -> EView { EView { frames: w.frames + fs, done: w.done } }
/// Implementations of serde's Serialize: whatever they call, they leave the tree they stand for
pub trait Serialize {
    /// None: it has a map key which is not a string, or fails by itself
    spec fn tree(&self) -> Option<Tree>;
    /// as a map key
    spec fn key(&self) -> Option<Seq<u8>>;
    spec fn cost(&self) -> nat;
    spec fn key_cost(&self) -> nat;
    fn serialize(&self, s: &mut Serializer) -> (r: Result<()>)
        requires live(old(s).encoder), room(old(s).encoder, self.cost())
        ensures put(old(s).encoder, final(s).encoder, r.is_ok(), self.tree(), self.cost());
    fn serialize_key(&self, s: MapKeySerializer<'_>) -> (r: Result<()>)
        requires live(s.ser.encoder), room(s.ser.encoder, self.key_cost())
        ensures put_key(old(s.ser).encoder, final(s.ser).encoder, r.is_ok(), self.key(), self.key_cost());
}
#[verifier::opaque]
pub open spec fn put_key(e: Encoder, g: Encoder, ok: bool, k: Option<Seq<u8>>, c: nat) -> bool {
    &&& forall|w: EView| #[trigger] repr(e, w) ==> ok == (k is Some && can_key(w)) && (ok ==> repr(g, do_key(w, k.unwrap())))
    &&& ok ==> live(g) && used(g) <= used(e) + c && prefix(e.sk(), g.sk()) && same_sk(e, g)
}
#[verifier::opaque]
pub open spec fn put_field(e: Encoder, g: Encoder, ok: bool, k: Seq<u8>, t: Option<Tree>, c: nat) -> bool {
    &&& forall|w: EView| #[trigger] repr(e, w) ==> ok == (t is Some && can_key(w)) && (ok ==> repr(g, do_value(do_key(w, k), t.unwrap())))
    &&& ok ==> live(g) && used(g) <= used(e) + c && prefix(e.sk(), g.sk()) && same_sk(e, g)
}
pub open spec fn fin(e: Encoder, g: Encoder, ok: bool) -> bool { ok ==> live(g) && used(g) <= used(e) && prefix(e.sk(), g.sk()) && same_sk(e, g) }
#[verifier::opaque]
pub open spec fn closed_arr(e: Encoder, g: Encoder, ok: bool) -> bool {
    (forall|w: EView| #[trigger] repr(e, w) ==> ok == can_end_array(w) && (ok ==> repr(g, do_end(w)))) && fin(e, g, ok)
}
#[verifier::opaque]
pub open spec fn closed_dict(e: Encoder, g: Encoder, ok: bool) -> bool {
    (forall|w: EView| #[trigger] repr(e, w) ==> ok == can_end_dict(w) && (ok ==> repr(g, do_end(w)))) && fin(e, g, ok)
}
#[verifier::opaque]
pub open spec fn closed_arr_arr(e: Encoder, g: Encoder, ok: bool) -> bool {
    (forall|w: EView| #[trigger] repr(e, w) ==> ok == (can_end_array(w) && can_end_array(do_end(w))) && (ok ==> repr(g, do_end(do_end(w))))) && fin(e, g, ok)
}
#[verifier::opaque]
pub open spec fn closed_dict_arr(e: Encoder, g: Encoder, ok: bool) -> bool {
    (forall|w: EView| #[trigger] repr(e, w) ==> ok == (can_end_dict(w) && can_end_array(do_end(w))) && (ok ==> repr(g, do_end(do_end(w))))) && fin(e, g, ok)
}
pub open spec fn s1<T>(a: T) -> Seq<T> { Seq::empty().push(a) }
pub open spec fn s2<T>(a: T, b: T) -> Seq<T> { Seq::empty().push(a).push(b) }
pub open spec fn opt_arr2(a: Tree, b: Option<Tree>) -> Option<Tree> { match b { Some(t) => Some(Tree::Arr(s2(a, t))), None => None } }
pub proof fn lemma_frames()
    ensures
        forall|w: EView, f: Frame| #[trigger] do_begin(w, f) == under(w, s1(f)),
        forall|w: EView, f: Frame, g: Frame| #[trigger] do_begin(under(w, s1(f)), g) == under(w, s2(f, g)),
        forall|w: EView, f: Frame, t: Tree| #[trigger] do_value(under(w, s1(f)), t) == under(w, s1(push(f, t))),
        forall|w: EView, f: Frame, t: Tree| #[trigger] do_put(under(w, s1(f)), t) == under(w, s1(push(f, t))),
        forall|w: EView, f: Frame, k: Seq<u8>| f is Dict ==> #[trigger] do_key(under(w, s1(f)), k) == under(w, s1(keyed(f, k))),
        forall|w: EView, f: Frame, g: Frame, t: Tree| #[trigger] do_value(under(w, s2(f, g)), t) == under(w, s2(f, push(g, t))),
        forall|w: EView, f: Frame, g: Frame, t: Tree| #[trigger] do_put(under(w, s2(f, g)), t) == under(w, s2(f, push(g, t))),
        forall|w: EView, f: Frame, g: Frame, k: Seq<u8>| g is Dict ==> #[trigger] do_key(under(w, s2(f, g)), k) == under(w, s2(f, keyed(g, k))),
        forall|w: EView, f: Frame| can_begin(w) ==> #[trigger] do_end(under(w, s1(f))) == do_put(w, tree_of(f)),
        forall|w: EView, f: Frame, g: Frame| #[trigger] do_end(under(w, s2(f, g))) == under(w, s1(push(f, tree_of(g)))),
        forall|w: EView, f: Frame| under(w, s1(f)).frames.last() == f && (#[trigger] under(w, s1(f))).frames.len() == w.frames.len() + 1 && under(w, s1(f)).done == w.done,
        forall|w: EView, f: Frame, g: Frame| under(w, s2(f, g)).frames.last() == g && (#[trigger] under(w, s2(f, g))).frames.len() == w.frames.len() + 2 && under(w, s2(f, g)).done == w.done,
{
    assert forall|w: EView, f: Frame, g: Frame| #[trigger] do_begin(under(w, s1(f)), g) == under(w, s2(f, g)) by { assert(do_begin(under(w, s1(f)), g).frames =~= under(w, s2(f, g)).frames); }
    assert forall|w: EView, f: Frame| #[trigger] do_begin(w, f) == under(w, s1(f)) by { assert(do_begin(w, f).frames =~= under(w, s1(f)).frames); }
    assert forall|w: EView, f: Frame, x: Frame| #[trigger] under(w, s1(f)).frames.update(w.frames.len() as int, x) == under(w, s1(x)).frames by { assert(under(w, s1(f)).frames.update(w.frames.len() as int, x) =~= under(w, s1(x)).frames); }
    assert forall|w: EView, f: Frame, g: Frame, x: Frame| #[trigger] under(w, s2(f, g)).frames.update(w.frames.len() as int + 1, x) == under(w, s2(f, x)).frames by { assert(under(w, s2(f, g)).frames.update(w.frames.len() as int + 1, x) =~= under(w, s2(f, x)).frames); }
    assert forall|w: EView, f: Frame, g: Frame| #[trigger] under(w, s2(f, g)).frames.drop_last() == under(w, s1(f)).frames by { assert(under(w, s2(f, g)).frames.drop_last() =~= under(w, s1(f)).frames); }
    assert forall|w: EView, f: Frame| under(w, s1(f)).frames.last() == f && (#[trigger] under(w, s1(f))).frames.len() == w.frames.len() + 1 by {}
    assert forall|w: EView, f: Frame, g: Frame| under(w, s2(f, g)).frames.last() == g && (#[trigger] under(w, s2(f, g))).frames.len() == w.frames.len() + 2 by {}
    assert forall|w: EView, f: Frame, g: Frame, t: Tree| #[trigger] do_value(under(w, s2(f, g)), t) == under(w, s2(f, push(g, t))) by {
        assert(under(w, s2(f, g)).frames.update(w.frames.len() as int + 1, push(g, t)) == under(w, s2(f, push(g, t))).frames); assert(under(w, s2(f, g)).frames.last() == g); }
    assert forall|w: EView, f: Frame, g: Frame, k: Seq<u8>| g is Dict implies #[trigger] do_key(under(w, s2(f, g)), k) == under(w, s2(f, keyed(g, k))) by {
        assert(under(w, s2(f, g)).frames.update(w.frames.len() as int + 1, keyed(g, k)) == under(w, s2(f, keyed(g, k))).frames); assert(under(w, s2(f, g)).frames.last() == g); }
    assert forall|w: EView, f: Frame| #[trigger] under(w, s1(f)).frames.drop_last() == w.frames by { assert(under(w, s1(f)).frames.drop_last() =~= w.frames); }
    assert forall|w: EView, f: Frame| can_begin(w) implies #[trigger] do_end(under(w, s1(f))) == do_put(w, tree_of(f)) by {
        if w.frames.len() == 0 { assert(under(w, s1(f)).frames.len() == 1); assert(w.frames =~= Seq::empty()); } }
    assert forall|w: EView, f: Frame, g: Frame| #[trigger] do_end(under(w, s2(f, g))) == under(w, s1(push(f, tree_of(g)))) by { assert(do_value(under(w, s1(f)), tree_of(g)) == under(w, s1(push(f, tree_of(g))))); }
}
pub proof fn lemma_open(e: Encoder)
    ensures forall|w: EView| #[trigger] repr(e, w) && w.frames.len() > 0 ==> w.done is None
{
    assert forall|w: EView| #[trigger] repr(e, w) && w.frames.len() > 0 implies w.done is None by { lemma_top(e, w); }
}
pub open spec fn keyed(f: Frame, k: Seq<u8>) -> Frame { match f { Frame::Dict(ks, ts, _) => Frame::Dict(ks, ts, Some(k)), _ => f } }
pub open spec fn start() -> EView { EView { frames: Seq::empty(), done: None } }
pub proof fn lemma_whole(t: Option<Tree>)
    ensures can_begin(start()), !can_value(start()), t matches Some(x) ==> do_put(start(), x) == (EView { frames: Seq::empty(), done: Some(x) }) && do_finish(do_put(start(), x)) == do_put(start(), x)
{}
