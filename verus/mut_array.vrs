//@item src/mutable/array.rs struct MutableArray
//@rewrite list : => pub list :
//@item src/mutable/array.rs struct Ref
//@rewrite slot : => pub slot :
//@item src/mutable/array.rs struct Iter
//@rewrite arr : => pub arr :
//@rewrite index : => pub index :
/// #[derive(Default)]
impl MutableArray {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.list@.len() == 0 { unimplemented!() }
    /// #[derive(Clone)]: Vec::clone, element by element
    #[verifier::external_body]
    pub fn vclone(&self) -> (r: Self)
        ensures r.list@.len() == self.list@.len(), forall|i: int| 0 <= i < self.list@.len() ==> same(#[trigger] self.list@[i], r.list@[i])
        decreases *self
    { unimplemented!() }
    /// self is o with some slot at i
    pub open spec fn set_at(&self, o: &MutableArray, i: usize) -> bool { i < o.list@.len() && self.list@ == o.list@.update(i as int, self.list@[i as int]) }
    pub open spec fn at(&self, i: usize) -> Option<ValueSlot> { if i < self.list@.len() { Some(self.list@[i as int]) } else { None } }
}
impl MutableArray {
//@extract src/mutable/array.rs impl MutableArray :: fn new
//@prop C13
//@ret r
//@contract
    ensures r.list@.len() == 0,
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn clone_from
//@prop C13
//@rewrite for $v in source { => let mut vx_it = source.into_iter(); loop { let Some($v) = vx_it.next() else { break; }; proof { lemma_iter_first(p, n); lemma_smaller(p, n, j); }
//@ret r
//@contract
    requires source.ok(),
    ensures arr_copied(r, source.pos(), source.n()),
    decreases source.pos() + source.n(), source.n(), 2int
//@at start
    let ghost p = source.pos(); let ghost n = source.n();
    proof { lemma_all_ok(); lemma_ok(p, n); lemma_iter_first(p, n); }
//@loop 1
    invariant
        source.ok(), p == source.pos(), n == source.n(), vx_it.ok(), vx_it.index <= vx_it.len, vx_it.len == c_count(source@), vx_it.width == c_width(source@),
        vx_it.index < vx_it.len ==> vx_it.start() == p + c_first(source@),
        this.list@.len() == vx_it.index, forall|i: int| 0 <= i < vx_it.index ==> copied(#[trigger] this.list@[i], slot_target(doc(), p, n, i).0, slot_target(doc(), p, n, i).1),
    ensures vx_it.index >= vx_it.len,
    decreases vx_it.len - vx_it.index
//@at loopstart 1
    let ghost j = vx_it.index as int;
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn from_scope
//@prop C13
//@rewrite? $$a . and_then ( AllocedValue :: to_array ) . map ( | $x | $$b ) => match $$a { Some(vx_v) => match vx_v.to_array() { Some($x) => Some($$b), None => None }, None => None }
//@rewrite? ( & source ) => (source.vx_ref())
//@ret r
//@contract
    ensures match r { Some(a) => scope.at() matches Some(x) && kind(doc()[x.0]) == ValueType::Array && arr_copied(a, x.0, x.1), None => scope.at() matches Some(x) ==> kind(doc()[x.0]) != ValueType::Array },
//@end
//@extract src/mutable/array.rs impl TryFrom < & Scope > for MutableArray :: fn try_from
//@prop C13
//@sig fn try_from => pub fn try_from
//@sig Result < Self , Self :: Error > => core::result::Result<Self, ()>
//@rewrite? = $$a . and_then ( AllocedValue :: to_array ) { => = (match $$a { Some(vx_v) => vx_v.to_array(), None => None }) {
//@rewrite? Self :: from ( source ) => Self::from_alloced(source)
//@ret r
//@contract
    ensures match r { Ok(a) => scope.at() matches Some(x) && kind(doc()[x.0]) == ValueType::Array && arr_copied(a, x.0, x.1), Err(_) => scope.at() matches Some(x) ==> kind(doc()[x.0]) != ValueType::Array },
//@end
//@extract src/mutable/array.rs impl From < AllocedArray > for MutableArray :: fn from
//@prop C13
//@sig fn from => pub fn from_alloced
//@rewrite? ( & source ) => (source.vx_ref())
//@ret r
//@contract
    requires ok_at(source.at().0, source.at().1), kind(doc()[source.at().0]) == ValueType::Array,
    ensures arr_copied(r, source.at().0, source.at().1),
//@end
//@extract src/mutable/array.rs impl From < & Array > for MutableArray :: fn from
//@prop C13
//@sig fn from => pub fn from_array
//@ret r
//@contract
    requires value.ok(),
    ensures arr_copied(r, value.pos(), value.n()),
//@end
//@extract src/mutable/array.rs impl Index < usize > for MutableArray :: fn index
//@prop C13
//@sig fn index => pub fn index
//@sig & Self :: Output => &Held
//@ret r
//@contract
    requires self.at(index) matches Some(s) && s.bytes() is Some,
    ensures self.at(index) matches Some(s) && s.bytes() == Some(r@),
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn set_fleece
//@prop C13
//@contract
    requires index < old(self).list@.len(), value.ok(),
    ensures final(self).set_at(old(self), index), final(self).at(index) matches Some(s) && copied(s, value.pos(), value.n()),
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn push_fleece
//@prop C13
//@contract
    requires value.ok(),
    ensures final(self).list@ == old(self).list@.push(final(self).list@.last()), copied(final(self).list@.last(), value.pos(), value.n()),
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn get
//@prop C13
//@sig & Value => &Held
//@ret r
//@contract
    ensures match r { Some(v) => self.at(index) matches Some(s) && s.bytes() == Some(v@), None => self.at(index) matches Some(s) ==> s.bytes().is_none() },
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn get_array
//@prop C13
//@ret r
//@contract
    ensures match r { Some(a) => self.at(index) matches Some(x) && x.is_arr_of(*a), None => !(self.at(index) matches Some(x) && x is MutableArray) },
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn get_dict
//@prop C13
//@ret r
//@contract
    ensures match r { Some(a) => self.at(index) matches Some(x) && x.is_dict_of(*a), None => !(self.at(index) matches Some(x) && x is MutableDict) },
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn get_array_mut
//@prop C13
//@ret r
//@contract
    ensures match r {
        Some(a) => old(self).at(index) matches Some(x) && x.is_arr_of(*a)
            && final(self).set_at(old(self), index) && (final(self).at(index) matches Some(s) && s.is_arr_of(*final(a))),
        None => !(old(self).at(index) matches Some(x) && x is MutableArray) && final(self).list@ == old(self).list@ },
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn get_dict_mut
//@prop C13
//@ret r
//@contract
    ensures match r {
        Some(a) => old(self).at(index) matches Some(x) && x.is_dict_of(*a)
            && final(self).set_at(old(self), index) && (final(self).at(index) matches Some(s) && s.is_dict_of(*final(a))),
        None => !(old(self).at(index) matches Some(x) && x is MutableDict) && final(self).list@ == old(self).list@ },
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn len
//@prop C13
//@ret r
//@contract
    ensures r == self.list@.len(),
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn is_empty
//@prop C13
//@ret r
//@contract
    ensures r == (self.list@.len() == 0),
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn replace
//@prop C13
//@contract
    requires index < old(self).list@.len(),
    ensures final(self).list@ == old(self).list@.update(index as int, slot),
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn set
//@prop C13
//@contract
    requires index < old(self).list@.len(), value.writable(),
    ensures final(self).set_at(old(self), index), final(self).at(index) matches Some(s) && s.bytes().is_some() && (value.leaf() matches Some(l) ==> s.holds_leaf(l)),
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn set_array
//@prop C13
//@sig impl Into < MutableArray > => MutableArray
//@rewrite? array . into ( ) => array
//@contract
    requires index < old(self).list@.len(),
    ensures final(self).set_at(old(self), index), final(self).at(index) matches Some(s) && s.is_arr_of(array),
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn set_dict
//@prop C13
//@sig impl Into < MutableDict > => MutableDict
//@rewrite? dict . into ( ) => dict
//@contract
    requires index < old(self).list@.len(),
    ensures final(self).set_at(old(self), index), final(self).at(index) matches Some(s) && s.is_dict_of(dict),
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn push
//@prop C13
//@contract
    requires value.writable(),
    ensures final(self).list@ == old(self).list@.push(final(self).list@.last()), ({ let s = final(self).list@.last(); s.bytes().is_some() && (value.leaf() matches Some(l) ==> s.holds_leaf(l)) }),
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn remove
//@prop C13
//@contract
    ensures final(self).list@ == (if index < old(self).list@.len() { old(self).list@.remove(index as int) } else { old(self).list@ }),
//@end
//@extract src/mutable/array.rs impl MutableArray :: fn iter
//@prop C13
//@sig Iter => Iter<'_>
//@ret r
//@contract
    ensures r.arr == self, r.index == 0,
//@end
//@extract src/mutable/array.rs impl < 'a > IntoIterator for & 'a MutableArray :: fn into_iter
//@prop C13
//@sig fn into_iter ( self ) => pub fn into_iter(&self)
//@sig Self :: IntoIter => Iter<'_>
//@ret r
//@contract
    ensures r.arr == self, r.index == 0,
//@end
}
impl<'a> Iter<'a> {
//@extract src/mutable/array.rs impl < 'a > Iterator for Iter < 'a > :: fn next
//@prop C13
//@sig fn next => pub fn next
//@sig Self :: Item => Ref<'a>
//@ret r
//@contract
    requires old(self).index < usize::MAX,
    ensures final(self).arr == old(self).arr, final(self).index == old(self).index + 1,
        match r { Some(x) => old(self).arr.at(old(self).index) == Some(*x.slot), None => old(self).arr.at(old(self).index).is_none() },
//@end
//@extract src/mutable/array.rs impl < 'a > Iterator for Iter < 'a > :: fn size_hint
//@prop C13
//@sig fn size_hint => pub fn size_hint
//@ret r
//@contract
    ensures r.0 == (if self.index < self.arr.list@.len() { (self.arr.list@.len() - self.index) as int } else { 0 }), r.1 == Some(r.0),
//@end
}
impl<'a> Ref<'a> {
//@extract src/mutable/array.rs impl < 'a > Ref < 'a > :: fn new
//@prop C13
//@ret r
//@contract
    ensures r.slot == slot,
//@end
//@extract src/mutable/array.rs impl < 'a > Ref < 'a > :: fn is_value
//@prop C13
//@ret r
//@contract
    ensures r == self.slot.bytes().is_some(),
//@end
//@extract src/mutable/array.rs impl < 'a > Ref < 'a > :: fn is_array
//@prop C13
//@ret r
//@contract
    ensures r == (*self.slot is MutableArray),
//@end
//@extract src/mutable/array.rs impl < 'a > Ref < 'a > :: fn is_dict
//@prop C13
//@ret r
//@contract
    ensures r == (*self.slot is MutableDict),
//@end
//@extract src/mutable/array.rs impl < 'a > Ref < 'a > :: fn value
//@prop C13
//@sig & Value => &Held
//@ret r
//@contract
    ensures match r { Some(v) => self.slot.bytes() == Some(v@), None => self.slot.bytes().is_none() },
//@end
//@extract src/mutable/array.rs impl < 'a > Ref < 'a > :: fn array
//@prop C13
//@ret r
//@contract
    ensures match r { Some(a) => self.slot.is_arr_of(*a), None => !(*self.slot is MutableArray) },
//@end
//@extract src/mutable/array.rs impl < 'a > Ref < 'a > :: fn dict
//@prop C13
//@ret r
//@contract
    ensures match r { Some(a) => self.slot.is_dict_of(*a), None => !(*self.slot is MutableDict) },
//@end
}
impl Array {
//@extract src/value/array.rs impl Array :: fn to_mutable
//@prop C13
//@ret r
//@contract
    requires self.ok(),
    ensures arr_copied(r, self.pos(), self.n()),
//@end
}
