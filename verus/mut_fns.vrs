pub use self::array::MutableArray;
pub use self::dict::MutableDict;
//@item src/mutable.rs const INLINE_CAPACITY
//@item src/mutable.rs enum ValueSlot
//@rewrite enum => pub enum
//@rewrite Box < Value > => Box<Held>
//@global crate :: ValueType => ValueType
// ---------------------------------------------------------------- what a slot stands for
impl ValueSlot {
    /// the bytes of a value that is not a collection
    pub open spec fn bytes(&self) -> Option<Seq<u8>> { match self { ValueSlot::Inline(b) => Some(b@), ValueSlot::Pointer(v) => Some(v@), _ => None } }
    pub open spec fn is_arr_of(&self, a: MutableArray) -> bool { *self matches ValueSlot::MutableArray(b) && *b == a }
    pub open spec fn is_dict_of(&self, a: MutableDict) -> bool { *self matches ValueSlot::MutableDict(b) && *b == a }
    pub open spec fn holds_leaf(&self, l: Leaf) -> bool { self.bytes() matches Some(s) && leaf_at(s, l) }
}
/// equal slots: the same values in the same places
pub open spec fn same(a: ValueSlot, b: ValueSlot) -> bool decreases a via same_decreases {
    match a {
        ValueSlot::MutableArray(x) => b matches ValueSlot::MutableArray(y) && y.list@.len() == x.list@.len() && forall|i: int| 0 <= i < x.list@.len() ==> same(#[trigger] x.list@[i], y.list@[i]),
        ValueSlot::MutableDict(x) => b matches ValueSlot::MutableDict(y) && y.shared_keys == x.shared_keys && y.map@.dom() == x.map@.dom() && forall|k: KeyS| #[trigger] x.map@.contains_key(k) ==> same(x.map@[k], y.map@[k]),
        _ => b.bytes() == a.bytes(),
    }
}
#[via_fn]
proof fn same_decreases(a: ValueSlot, b: ValueSlot) { broadcast use axiom_btree_decreases; }
/// the slot stands for the tree
pub open spec fn stands(s: ValueSlot, t: Tree) -> bool decreases t {
    match t {
        Tree::Leaf(l) => exists|c: Leaf| leaf_same(l, c) && #[trigger] s.holds_leaf(c),
        Tree::Arr(ts) => match s {
            ValueSlot::MutableArray(a) => a.list@.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> stands(#[trigger] a.list@[i], ts[i]),
            _ => false,
        },
        Tree::Dict(ks, vs) => match s {
            ValueSlot::MutableDict(d) => d.wf_sk() && vs.len() == ks.len() && (forall|k: KeyS| #[trigger] d.map@.contains_key(k) ==> exists|i: int| 0 <= i < ks.len() && k == d.enc(#[trigger] ks[i]))
                && forall|i: int| 0 <= i < ks.len() ==> d.map@.contains_key(d.enc(#[trigger] ks[i])) && stands(d.map@[d.enc(ks[i])], vs[i]),
            _ => false,
        },
    }
}
pub open spec fn copied_at(s: ValueSlot, p: int, n: int) -> bool {
    let b = doc().subrange(p, p + n);
    match kind(b[0]) {
        ValueType::Array => s matches ValueSlot::MutableArray(a) && arr_copied(*a, p, n),
        ValueType::Dict => s matches ValueSlot::MutableDict(d) && dict_copied(*d, p, n),
        _ => s.holds_leaf(copy_leaf(b)),
    }
}
/// no later pair among the first m has the key of the i-th
pub open spec fn last_of(p: int, n: int, m: int, i: int) -> bool { forall|j: int| i < j < m ==> #[trigger] name(p, n, j) != name(p, n, i) }
/// the slot is a copy of the value at [p, p+n) of the document
#[verifier::opaque]
pub open spec fn copied(s: ValueSlot, p: int, n: int) -> bool decreases p + n, n {
    let b = doc().subrange(p, p + n);
    0 <= p && 2 <= n && p + n <= doc().len() && match kind(b[0]) {
        ValueType::Array => match s {
            ValueSlot::MutableArray(a) => a.list@.len() == c_count(b) && forall|i: int| 0 <= i < c_count(b) ==> smaller(p, n, slot_target(doc(), p, n, i)) && copied(#[trigger] a.list@[i], slot_target(doc(), p, n, i).0, slot_target(doc(), p, n, i).1),
            _ => false,
        },
        ValueType::Dict => match s {
            ValueSlot::MutableDict(d) => exists|m: int| #[trigger] named(p, n, m) && d.has_names(p, n, m)
                && forall|i: int| 0 <= i < m && #[trigger] last_of(p, n, m, i) ==> smaller(p, n, slot_target(doc(), p, n, 2 * i + 1))
                    && copied(d.map@[d.enc(name(p, n, i).unwrap())], slot_target(doc(), p, n, 2 * i + 1).0, slot_target(doc(), p, n, 2 * i + 1).1),
            _ => false,
        },
        _ => s.holds_leaf(copy_leaf(b)),
    }
}
pub proof fn lemma_copied(s: ValueSlot, p: int, n: int)
    requires ok_at(p, n)
    ensures ({ let b = doc().subrange(p, p + n);
        copied(s, p, n) == match kind(b[0]) {
        ValueType::Array => s matches ValueSlot::MutableArray(a) && arr_copied(*a, p, n),
        ValueType::Dict => s matches ValueSlot::MutableDict(d) && dict_copied(*d, p, n),
        _ => s.holds_leaf(copy_leaf(b)),
        } })
{
    reveal(copied); reveal(dict_val);
    let b = doc().subrange(p, p + n);
    assert(b[0] == doc()[p]);
    if is_coll(kind(b[0])) {
        assert forall|i: int| 0 <= i < c_count(b) implies smaller(p, n, #[trigger] slot_target(doc(), p, n, i)) by { lemma_smaller(p, n, i); }
    }
}
pub open spec fn arr_copied(a: MutableArray, p: int, n: int) -> bool {
    let b = doc().subrange(p, p + n);
    a.list@.len() == c_count(b) && forall|i: int| 0 <= i < c_count(b) ==> copied(#[trigger] a.list@[i], slot_target(doc(), p, n, i).0, slot_target(doc(), p, n, i).1)
}
/// the first m pairs are in d
pub open spec fn pairs_copied(d: MutableDict, p: int, n: int, m: int) -> bool {
    d.has_names(p, n, m) && forall|i: int| 0 <= i < m && #[trigger] last_of(p, n, m, i) ==> copied(d.map@[d.enc(name(p, n, i).unwrap())], dict_val(doc(), p, n, i).0, dict_val(doc(), p, n, i).1)
}
pub open spec fn dict_copied(d: MutableDict, p: int, n: int) -> bool { exists|m: int| #[trigger] named(p, n, m) && pairs_copied(d, p, n, m) }
/// putting the j-th pair into the dict
pub proof fn lemma_inserted_pair(a: MutableDict, b: MutableDict, p: int, n: int, j: int)
    requires pairs_copied(a, p, n, j), 0 <= j, name(p, n, j) matches Some(k) && b.map@.contains_key(a.enc(k)) && b.map@ == a.map@.insert(a.enc(k), b.map@[a.enc(k)]) && copied(b.map@[a.enc(k)], dict_val(doc(), p, n, j).0, dict_val(doc(), p, n, j).1),
        a.shared_keys == b.shared_keys,
    ensures pairs_copied(b, p, n, j + 1)
{
    let k = name(p, n, j).unwrap();
    dict::lemma_enc(a);
    assert forall|i: KeyS| #[trigger] b.map@.contains_key(i) implies exists|x: int| 0 <= x < j + 1 && (#[trigger] name(p, n, x)) is Some && i == b.enc(name(p, n, x).unwrap()) by {
        if i != a.enc(k) { assert(a.map@.contains_key(i)); } else { assert(name(p, n, j) is Some); }
    }
    assert forall|i: int| 0 <= i < j + 1 && #[trigger] last_of(p, n, j + 1, i) implies copied(b.map@[b.enc(name(p, n, i).unwrap())], dict_val(doc(), p, n, i).0, dict_val(doc(), p, n, i).1) by {
        if i < j {
            assert(name(p, n, j) != name(p, n, i));
            assert(last_of(p, n, j, i)) by { assert forall|x: int| i < x < j implies #[trigger] name(p, n, x) != name(p, n, i) by {} }
            assert(a.enc(name(p, n, i).unwrap()) != a.enc(k));
        }
    }
}
/// a value whose bytes are followed by others reads the same
pub proof fn lemma_slot()
    ensures forall|b: Seq<u8>, n: int, l: Leaf| 0 <= n <= b.len() && #[trigger] leaf_at(b.take(n), l) ==> leaf_at(b, l)
{
    assert forall|b: Seq<u8>, n: int, l: Leaf| 0 <= n <= b.len() && #[trigger] leaf_at(b.take(n), l) implies leaf_at(b, l) by { lemma_leaf_grow(b.take(n), b, l); }
}
impl ValueSlot {
//@extract src/mutable.rs impl ValueSlot :: fn new
//@prop C13 C14 C02 C03
//@rewrite? let mut buf = [ 0u8 ; INLINE_CAPACITY ] ; value . write_fleece_to ( & mut buf , false ) ; => let mut buf = [0u8; INLINE_CAPACITY]; value.write_fleece_to(vx_slice_mut(&mut buf), false);
//@rewrite? core :: iter :: repeat ( $x ) . take ( $$n ) . collect ( ) => vx_repeat($x, $$n)
//@rewrite? Self :: Pointer ( unsafe { core :: mem :: transmute :: < Box < [ u8 ] > , Box < Value > > ( $b ) } ) => Self::Pointer(vx_held_box($b))
//@ret r
//@contract
    requires value.writable(),
    ensures r.bytes().is_some(), forall|l: Leaf| value.leaf() == Some(l) ==> r.holds_leaf(l),
//@at start
    proof { lemma_slot(); }
//@end
//@extract src/mutable.rs impl ValueSlot :: fn new_from_fleece
//@prop C13 C14
//@rewrite? crate :: value :: pointer :: Pointer :: => Pointer ::
//@rewrite? value . to_data ( ) => vx_bytes(value.to_data())
//@ret r
//@contract
    requires value.ok(),
    ensures copied(r, value.pos(), value.n()),
    decreases value.pos() + value.n(), value.n(), 3int
//@at start
    proof { lemma_all_ok(); lemma_scalars(value@); assert forall|s: ValueSlot| #[trigger] copied(s, value.pos(), value.n()) == copied(s, value.pos(), value.n()) by {}
        assert forall|s: ValueSlot| copied_at(s, value.pos(), value.n()) implies #[trigger] copied(s, value.pos(), value.n()) by { lemma_copied(s, value.pos(), value.n()); } }
//@end
//@extract src/mutable.rs impl Clone for ValueSlot :: fn clone
//@prop C13 C14
//@sig fn clone => pub fn vclone
//@rewrite? core :: iter :: repeat ( $x ) . take ( $$n ) . collect ( ) => vx_repeat($x, $$n)
//@rewrite? $b . copy_from_slice ( & $p . bytes ) => vx_copy_from_slice(vx_box_mut(&mut $b), vx_held_bytes($p))
//@rewrite? Self :: Pointer ( unsafe { core :: mem :: transmute :: < Box < [ u8 ] > , Box < Value > > ( $b ) } ) => Self::Pointer(vx_held_box($b))
//@rewrite? ValueSlot :: Pointer ( unsafe { core :: mem :: transmute :: < Box < [ u8 ] > , Box < Value > > ( $b ) } ) => ValueSlot::Pointer(vx_held_box($b))
//@rewrite? MutableArray ( $a . clone ( ) ) => MutableArray(Box::new((**$a).vclone()))
//@rewrite? MutableDict ( $a . clone ( ) ) => MutableDict(Box::new((**$a).vclone()))
//@ret r
//@contract
    ensures same(*self, r),
    decreases *self
//@end
//@extract src/mutable.rs impl ValueSlot :: fn new_dict
//@prop C13 C14
//@ret r
//@contract
    ensures r matches ValueSlot::MutableDict(d) && *d == dict,
//@end
//@extract src/mutable.rs impl ValueSlot :: fn new_array
//@prop C13 C14
//@ret r
//@contract
    ensures r matches ValueSlot::MutableArray(d) && *d == array,
//@end
//@extract src/mutable.rs impl ValueSlot :: fn is_value
//@prop C13 C14
//@ret r
//@contract
    ensures r == self.bytes().is_some(),
//@end
//@extract src/mutable.rs impl ValueSlot :: fn is_array
//@prop C13 C14
//@ret r
//@contract
    ensures r == (self is MutableArray),
//@end
//@extract src/mutable.rs impl ValueSlot :: fn is_dict
//@prop C13 C14
//@ret r
//@contract
    ensures r == (self is MutableDict),
//@end
//@extract src/mutable.rs impl ValueSlot :: fn value
//@prop C13 C14
//@sig & Value => &Held
//@rewrite? $v . as_ref ( ) => &**$v
//@rewrite? unsafe { & * ( core :: ptr :: from_ref :: < [ u8 ] > ( $b . as_slice ( ) ) as * const Value ) } => vx_held(vx_as_slice($b))
//@ret r
//@contract
    ensures match r { Some(v) => self.bytes() == Some(v@), None => self.bytes().is_none() },
//@end
//@extract src/mutable.rs impl ValueSlot :: fn array
//@prop C13 C14
//@rewrite? $v . as_ref ( ) => &**$v
//@ret r
//@contract
    ensures match r { Some(a) => self.is_arr_of(*a), None => !(self is MutableArray) },
//@end
//@extract src/mutable.rs impl ValueSlot :: fn dict
//@prop C13 C14
//@rewrite? $v . as_ref ( ) => &**$v
//@ret r
//@contract
    ensures match r { Some(a) => self.is_dict_of(*a), None => !(self is MutableDict) },
//@end
//@extract src/mutable.rs impl ValueSlot :: fn array_mut
//@prop C13 C14
//@rewrite? $v . as_mut ( ) => &mut **$v
//@ret r
//@contract
    ensures match r { Some(a) => (*old(self)).is_arr_of(*a) && (*final(self)).is_arr_of(*final(a)), None => !(*old(self) is MutableArray) && *final(self) == *old(self) },
//@end
//@extract src/mutable.rs impl ValueSlot :: fn dict_mut
//@prop C13 C14
//@rewrite? $v . as_mut ( ) => &mut **$v
//@ret r
//@contract
    ensures match r { Some(a) => (*old(self)).is_dict_of(*a) && (*final(self)).is_dict_of(*final(a)), None => !(*old(self) is MutableDict) && *final(self) == *old(self) },
//@end
}

