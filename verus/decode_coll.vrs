// ---------------------------------------------------------------- arrays: lookup and iteration
/// a value which passed validation, and is not a pointer
pub open spec fn ok_at(p: int, n: int) -> bool {
    0 <= p && 2 <= n && p + n <= doc().len() && valid(doc(), p, n, false) && kind(doc()[p]) != ValueType::Pointer
}
pub open spec fn is_coll(k: ValueType) -> bool { k == ValueType::Array || k == ValueType::Dict }
impl Value { pub open spec fn ok(&self) -> bool { ok_at(self.pos(), self.n()) } }
impl Array { pub open spec fn ok(&self) -> bool { ok_at(self.pos(), self.n()) && is_coll(kind(self@[0])) } }
impl Dict { pub open spec fn ok(&self) -> bool { ok_at(self.pos(), self.n()) && kind(self@[0]) == ValueType::Dict } }
/// the slot at q of width w resolves to a valid value
pub open spec fn slot_ok(q: int, w: int) -> bool {
    &&& 0 <= q && q + w <= doc().len() && (w == 2 || w == 4)
    &&& ok_at(resolve(doc(), q, w).0, resolve(doc(), q, w).1)
    &&& kind(doc()[q]) == ValueType::Pointer ==> target(doc(), q, w == 4) == Some(resolve(doc(), q, w))
}
pub proof fn lemma_slot_ok(q: int, w: int)
    requires w == 2 || w == 4, valid(doc(), q, w, w == 4)
    ensures slot_ok(q, w)
{
    let d = doc();
    lemma_valid(d, q, w);
    assert(d.subrange(q, q + w)[0] == d[q]);
    lemma_target(d, q, w == 4);
    let r = resolve(d, q, w);
    lemma_valid(d, r.0, r.1);
    assert(d.subrange(r.0, r.0 + r.1)[0] == d[r.0]);
}
/// the slots of a valid collection
pub open spec fn slots_ok(p: int, n: int) -> bool {
    let s = doc().subrange(p, p + n);
    let w = c_width(s);
    &&& c_first(s) + c_count(s) * w <= n && (w == 2 || w == 4) && c_first(s) >= 2
    &&& forall|i: int| 0 <= i < c_count(s) ==> 0 <= i * w && #[trigger] c_slot(s, i) + w <= n && slot_ok(p + c_slot(s, i), w)
    &&& forall|i: int| #[trigger] c_slot(s, i + 1) == c_slot(s, i) + w
    &&& c_slot(s, 0) == c_first(s)
    &&& kind(s[0]) == ValueType::Dict ==> c_count(s) % 2 == 0
    &&& required(s) <= n
}
pub proof fn lemma_slots_ok(p: int, n: int)
    requires ok_at(p, n), is_coll(kind(doc()[p]))
    ensures slots_ok(p, n)
{
    let s = doc().subrange(p, p + n);
    let w = c_width(s);
    lemma_valid(doc(), p, n);
    assert(s[0] == doc()[p]);
    lemma_slots(s, p, n);
    lemma_read_within(s.skip(2));
    assert(c_count(s) * w <= n);
    assert(c_count(s) <= n) by (nonlinear_arith) requires c_count(s) * w <= n, w >= 1, c_count(s) >= 0;
    assert forall|i: int| 0 <= i < c_count(s) implies 0 <= i * w && #[trigger] c_slot(s, i) + w <= n && slot_ok(p + c_slot(s, i), w) by {
        assert(0 <= i * w) by (nonlinear_arith) requires 0 <= i, w >= 0;
        lemma_slot_ok(p + c_slot(s, i), w);
    }
}
/// accessors may be used on it
pub proof fn lemma_ok(p: int, n: int)
    ensures ok_at(p, n) ==> scalar_ok(doc().subrange(p, p + n)), 0 <= p && n >= 1 && p + n <= doc().len() ==> doc().subrange(p, p + n)[0] == doc()[p],
        ok_at(p, n) && is_coll(kind(doc()[p])) ==> slots_ok(p, n),
{
    if ok_at(p, n) { lemma_valid(doc(), p, n); if is_coll(kind(doc()[p])) { lemma_slots_ok(p, n); } }
}
impl Array {
//@extract src/value/array.rs impl Array :: fn get_unchecked
//@prop C07 C08 C09 C04
//@ret r
//@contract
    requires self.ok(), index < c_count(self@),
    ensures (r.pos(), r.n()) == slot_target(doc(), self.pos(), self.n(), index as int), r.ok(),
//@at start
    proof { lemma_ok(self.pos(), self.n()); assert(c_slot(self@, index as int) >= 0); let w = c_width(self@) as int; assert(index * w == w * index) by (nonlinear_arith); }
//@end
//@extract src/value/array.rs impl Array :: fn get
//@prop C07 C08 C09 C04
//@ret r
//@contract
    requires self.ok(),
    ensures r.is_some() == (index < c_count(self@)),
        match r { Some(v) => (v.pos(), v.n()) == slot_target(doc(), self.pos(), self.n(), index as int) && v.ok(), None => true },
//@at start
    proof { lemma_ok(self.pos(), self.n()); }
//@end
//@extract src/value/array.rs impl Array :: fn _iter_first
//@prop C07 C08 C09 C04
//@ret r
//@contract
    requires self.ok(),
    ensures r.is_some() == (c_count(self@) > 0),
        match r { Some(v) => v.pos() == self.pos() + c_first(self@) && v.n() == c_width(self@), None => true },
//@at start
    proof { lemma_ok(self.pos(), self.n()); assert(c_slot(self@, 0) == c_first(self@)); }
//@end
//@extract src/value/array.rs impl Array :: fn iter
//@prop C07 C08 C09 C04
//@ret r
//@contract
    requires self.ok(),
    ensures r.ok(), r.index == 0, r.len == c_count(self@), r.width == c_width(self@),
        r.len > 0 ==> r.start() == self.pos() + c_first(self@),
//@at start
    proof { lemma_ok(self.pos(), self.n()); lemma_iter_first(self.pos(), self.n()); }
//@end
}
impl Array {
//@extract src/value/array.rs impl < 'a > IntoIterator for & 'a Array :: fn into_iter
//@prop C07 C08 C09 C04
//@sig fn into_iter ( self ) => pub fn into_iter(&self)
//@sig Self :: IntoIter => Iter<'_>
//@ret r
//@contract
    requires self.ok(),
    ensures r.ok(), r.index == 0, r.len == c_count(self@), r.width == c_width(self@),
        r.len > 0 ==> r.start() == self.pos() + c_first(self@),
//@end
}
//@item src/value/array.rs struct Iter
//@rewrite? pub ( super ) => pub
//@rewrite? pub ( crate ) => pub
impl<'a> Iter<'a> {
    /// where slot 0 of the array is
    pub open spec fn start(&self) -> int { if self.index == 0 { self.next.unwrap().pos() } else { self.next.unwrap().pos() - self.index * self.width } }
    pub open spec fn ok(&self) -> bool {
        &&& self.index <= self.len && self.next.is_some() == (self.index < self.len)
        &&& self.width == 2 || self.width == 4
        &&& self.next.is_some() ==> self.next.unwrap().n() == self.width
            && forall|i: int| self.index <= i < self.len ==> slot_ok(#[trigger] it_slot(self.start(), self.width as int, i), self.width as int)
    }
}
pub open spec fn it_slot(start: int, w: int, i: int) -> int { start + i * w }
pub proof fn lemma_iter_first(p: int, n: int)
    ensures forall|i: int| #[trigger] it_slot(p + c_first(doc().subrange(p, p + n)), c_width(doc().subrange(p, p + n)), i) == p + c_slot(doc().subrange(p, p + n), i)
{}
pub proof fn lemma_iter_next(it: Iter)
    requires it.ok()
    ensures it.next.is_some() ==> it_slot(it.start(), it.width as int, it.index as int) == it.next.unwrap().pos()
        && slot_ok(it.next.unwrap().pos(), it.width as int),
        it.next.is_some() && it.index + 1 < it.len ==> it_slot(it.start(), it.width as int, it.index + 1) == it.next.unwrap().pos() + it.width
        && slot_ok(it.next.unwrap().pos() + it.width, it.width as int),
        (it.index + 1) * it.width == it.index * it.width + it.width,
{
    assert((it.index + 1) * it.width == it.index * it.width + it.width) by (nonlinear_arith);
    if it.next.is_some() {
        let p = it.next.unwrap().pos();
        assert(it_slot(it.start(), it.width as int, it.index as int) == p) by { if it.index == 0 { assert(0 * it.width == 0) by (nonlinear_arith); } }
        if it.index + 1 < it.len {
            assert(it_slot(it.start(), it.width as int, it.index + 1) == p + it.width) by { if it.index == 0 { assert(0 * it.width == 0) by (nonlinear_arith); } }
        }
    }
}
impl Iter<'_> {
//@extract src/value/array.rs impl Iter < '_ > :: fn len
//@prop C07 C08 C09 C04
//@ret r
//@contract
    ensures r == self.len,
//@end
}
impl<'a> Iter<'a> {
//@extract src/value/array.rs impl < 'a > Iterator for Iter < 'a > :: fn next
//@prop C07 C08 C09 C04
//@sig Self :: Item => & 'a Value
//@sig fn next => pub fn next
//@ret r
//@contract
    requires old(self).ok(),
    ensures final(self).ok(), r.is_some() == (old(self).index < old(self).len), final(self).len == old(self).len, final(self).width == old(self).width,
        match r {
            Some(v) => v.ok() && (v.pos(), v.n()) == resolve(doc(), it_slot(old(self).start(), old(self).width as int, old(self).index as int), old(self).width as int)
                && final(self).index == old(self).index + 1 && (final(self).next.is_some() ==> final(self).start() == old(self).start()),
            None => *final(self) == *old(self),
        },
//@at start
    proof { lemma_iter_next(*self); }
//@end
//@extract src/value/array.rs impl < 'a > Iterator for Iter < 'a > :: fn size_hint
//@prop C07 C08 C09 C04
//@ret r
//@contract
    requires self.ok(),
    ensures r == ((self.len - self.index) as usize, Some((self.len - self.index) as usize)),
//@end
}
