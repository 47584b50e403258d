// ---------------------------------------------------------------- owned buffers, and references to them
impl Buf {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Buf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: usize) ensures r == self.addr() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// &self[..], of the buffer which is the document
    #[verifier::external_body]
    pub fn bytes(&self) -> (r: &Bytes) requires is_doc(*self) ensures r.pos() == 0, r.n() == doc().len() { unimplemented!() }
}
/// the document which the functions under contract read (an arbitrary one) is this buffer's
pub open spec fn is_doc(b: Buf) -> bool { b@ == doc() && b.addr() == base() }
/// Arc::from(data.to_vec()): a copy, which lies where the document lies if it is that document
#[verifier::external_body]
pub fn vx_copy(data: &[u8]) -> (r: Buf) ensures r@ == data@, data@ == doc() ==> is_doc(r) { unimplemented!() }
/// Weak<[u8]>
#[verifier::external_body]
pub struct WeakBuf { p: u8 }
impl WeakBuf {
    pub uninterp spec fn to(&self) -> Buf;
    #[verifier::external_body]
    pub fn upgrade(&self, Ghost(h): Ghost<Heap>) -> (r: Option<Buf>) ensures r == (if h.bufs.contains(self.to()) { Some(self.to()) } else { None }) { unimplemented!() }
}
/// Arc::downgrade
#[verifier::external_body]
pub fn vx_weak_buf(b: &Buf) -> (r: WeakBuf) ensures r.to() == *b { unimplemented!() }
/// *const T, NonNull<T>: a region
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Ptr<T> { p: core::marker::PhantomData<T> }
pub trait VxAt: Sized { spec fn at(&self) -> (int, int); fn to_ptr(&self) -> (r: Ptr<Self>) ensures r@ == self.at(); }
impl VxAt for Value { open spec fn at(&self) -> (int, int) { (self.pos(), self.n()) } #[verifier::external_body] fn to_ptr(&self) -> (r: Ptr<Self>) { unimplemented!() } }
impl VxAt for Array { open spec fn at(&self) -> (int, int) { (self.pos(), self.n()) } #[verifier::external_body] fn to_ptr(&self) -> (r: Ptr<Self>) { unimplemented!() } }
impl VxAt for Dict { open spec fn at(&self) -> (int, int) { (self.pos(), self.n()) } #[verifier::external_body] fn to_ptr(&self) -> (r: Ptr<Self>) { unimplemented!() } }
impl<T> Ptr<T> { pub uninterp spec fn view(&self) -> (int, int); }
impl<T: VxAt> Ptr<T> {
    /// &*self: the memory must be there
    #[verifier::external_body]
    pub fn to_ref<'a>(&self) -> (r: &'a T) requires 0 <= self@.0, 2 <= self@.1, self@.0 + self@.1 <= doc().len() ensures r.at() == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: Ptr<T>) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn copy(&self) -> (r: Ptr<T>) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn dangling() -> (r: Ptr<T>) { unimplemented!() }
}
/// result.map(NonNull::from).ok()
pub fn vx_ok_ptr(r: Result<&Value>) -> (x: Option<Ptr<Value>>)
    ensures match r { Ok(v) => x matches Some(p) && p@ == v.at(), Err(_) => x is None } { match r { Ok(v) => Some(v.to_ptr()), Err(_) => None } }
/// the statics of alloced.rs
#[verifier::external_body]
pub fn vx_empty_array() -> (r: Buf) ensures r@ == seq![tag::ARRAY, 0u8] { unimplemented!() }
#[verifier::external_body]
pub fn vx_empty_dict() -> (r: Buf) ensures r@ == seq![tag::DICT, 0u8] { unimplemented!() }
/// slice_from_raw_parts(b.as_ptr(), b.len()) as *const T
#[verifier::external_body]
pub fn vx_whole<T>(b: Buf) -> (r: Ptr<T>) ensures r@ == (0int, b@.len() as int) { unimplemented!() }
// ---------------------------------------------------------------- what is alive
/// the scopes and buffers something holds
pub ghost struct Heap { pub scopes: Set<ScopeRef>, pub bufs: Set<Buf>, /* the allocations there have been, which weak references may still name */ pub made: Set<ScopeRef> }
/// Arc<Scope>
#[verifier::external_body]
pub struct ScopeRef { p: u8 }
impl ScopeRef {
    pub uninterp spec fn view(&self) -> Scope;
    #[verifier::external_body]
    pub fn get(&self) -> (r: &Scope) ensures *r == self@ { unimplemented!() }
}
/// Weak<Scope>
#[verifier::external_body]
pub struct WeakScope { p: u8 }
impl WeakScope {
    pub uninterp spec fn to(&self) -> ScopeRef;
    #[verifier::external_body]
    pub fn upgrade(&self, Ghost(h): Ghost<Heap>) -> (r: Option<ScopeRef>) ensures r == (if h.scopes.contains(self.to()) { Some(self.to()) } else { None }) { unimplemented!() }
}
/// Arc::new: a scope which was not there before
#[verifier::external_body]
pub fn vx_arc(s: Scope, Ghost(h): Ghost<Heap>) -> (r: ScopeRef) ensures r@ == s, !h.scopes.contains(r), !h.made.contains(r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_weak_scope(s: &ScopeRef) -> (r: WeakScope) ensures r.to() == *s { unimplemented!() }
/// impl Into<Arc<[u8]>>: data which no scope holds yet (a fresh allocation, apart from all others)
#[verifier::external_body]
pub struct Data { p: u8 }
impl Data {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn into(self, Ghost(h): Ghost<Heap>) -> (r: Buf) ensures r@ == self@, self@ == doc() ==> is_doc(r), !h.bufs.contains(r), forall|b: Buf| #[trigger] h.bufs.contains(b) ==> apart(r, b) { unimplemented!() }
}
pub open spec fn apart(a: Buf, b: Buf) -> bool { a.addr() != b.addr() && forall|x: int| #[trigger] a.covers(x) ==> !b.covers(x) }
/// rangemap::RangeMap<usize, ScopeEntry>.  It may join ranges whose values are equal, so equal values must be the same.
#[verifier::external_body]
pub struct RangeMap { p: u8 }
impl RangeMap {
    pub uninterp spec fn view(&self) -> Map<int, ScopeEntry>;
    #[verifier::external_body]
    pub fn get(&self, k: &usize) -> (r: Option<&ScopeEntry>) ensures match r { Some(e) => self@.contains_key(*k as int) && *e == self@[*k as int], None => !self@.contains_key(*k as int) } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, range: Range<usize>, v: ScopeEntry, Ghost(h): Ghost<Heap>)
        requires range.start < range.end, forall|k: int| #[trigger] old(self)@.contains_key(k) && !(range.start <= k < range.end) && entry_eq(h, old(self)@[k], v) ==> old(self)@[k] == v
        ensures forall|k: int| #[trigger] final(self)@.contains_key(k) == (range.start <= k < range.end || old(self)@.contains_key(k)),
            forall|k: int| #[trigger] final(self)@.contains_key(k) ==> final(self)@[k] == (if range.start <= k < range.end { v } else { old(self)@[k] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, range: Range<usize>)
        requires range.start < range.end
        ensures forall|k: int| #[trigger] final(self)@.contains_key(k) == (!(range.start <= k < range.end) && old(self)@.contains_key(k)),
            forall|k: int| #[trigger] final(self)@.contains_key(k) ==> final(self)@[k] == old(self)@[k] { unimplemented!() }
}
/// Option<Arc<_>>::clone
pub fn vx_clone_keys(k: &Option<Arc<SharedKeys>>) -> (r: Option<Arc<SharedKeys>>) ensures r == *k { match k { Some(x) => Some(x.clone()), None => None } }
/// Range<usize>::is_empty
pub fn vx_range_is_empty(r: &Range<usize>) -> (b: bool) ensures b == (r.start >= r.end) { !(r.start < r.end) }
//@item src/scope.rs struct Scope
//@rewrite shared_keys : => pub shared_keys :
//@rewrite weak_data : Weak < [ u8 ] > => pub weak_data : WeakBuf
//@rewrite strong_data : Option < Arc < [ u8 ] > > => pub strong_data : Option<Buf>
//@rewrite root : Option < NonNull < Value > > => pub root : Option<Ptr<Value>>
//@item src/scope.rs struct ScopeEntry
//@rewrite struct ScopeEntry => pub struct ScopeEntry
//@rewrite ( Weak < Scope > ) => (pub WeakScope)
//@item src/alloced.rs struct Alloced
//@rewrite Arc < [ u8 ] > => Buf
//@rewrite * const T => Ptr<T>
//@rewrite where T : ? Sized , => /**/
//@rewrite pub ( crate ) buf => pub buf
//@rewrite pub ( crate ) value => pub value
//@item src/alloced.rs type AllocedValue
//@item src/alloced.rs type AllocedDict
//@item src/alloced.rs type AllocedArray
impl Scope {
    /// what every scope is (made only by `new`, and never changed)
    pub open spec fn wf(&self) -> bool { self.strong_data matches Some(b) && self.weak_data.to() == b && (self.root matches Some(p) ==> root(b@) == Some(p@) && valid(b@, p@.0, p@.1, false)) }
    pub open spec fn buf(&self) -> Buf { self.strong_data.unwrap() }
}
/// a scope which is alive holds its buffer; allocations lie apart
pub open spec fn heap_ok(h: Heap) -> bool {
    &&& forall|s: ScopeRef| #[trigger] h.scopes.contains(s) ==> s@.wf() && h.bufs.contains(s@.buf()) && h.made.contains(s)
    &&& forall|a: Buf, b: Buf| #[trigger] h.bufs.contains(a) && #[trigger] h.bufs.contains(b) && a != b ==> apart(a, b)
}
pub open spec fn scope_eq(h: Heap, a: Scope, b: Scope) -> bool { h.bufs.contains(a.weak_data.to()) && h.bufs.contains(b.weak_data.to()) && a.weak_data.to().addr() == b.weak_data.to().addr() }
pub open spec fn entry_eq(h: Heap, a: ScopeEntry, b: ScopeEntry) -> bool { h.scopes.contains(a.0.to()) && h.scopes.contains(b.0.to()) && scope_eq(h, a.0.to()@, b.0.to()@) }
impl<T> Alloced<T> {
    /// the region lies in the buffer it holds
    pub open spec fn owns(&self) -> bool { 0 <= self.value@.0 && 2 <= self.value@.1 && self.value@.0 + self.value@.1 <= self.buf@.len() }
    pub open spec fn here(&self) -> bool { is_doc(self.buf) && self.owns() }
}
