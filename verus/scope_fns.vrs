// ---------------------------------------------------------------- scope.rs
// The functions which take the lock of the global map get the map as a parameter (`read` and `write` exclude each other),
// and what is alive at that moment as a ghost one.
//@globals-off
//@global let mut scope_map = SCOPE_MAP . write ( ) . unwrap ( ) ; => let scope_map = vx_map;
//@global let scope_map = SCOPE_MAP . read ( ) . unwrap ( ) ; => let scope_map = vx_map;
//@global SCOPE_MAP . write ( ) . unwrap ( ) => vx_map
//@global SCOPE_MAP . read ( ) . unwrap ( ) => vx_map
//@global $$x . upgrade ( ) => $$x.upgrade(Ghost(h))
//@global Arc :: downgrade ( & strong_data ) => vx_weak_buf(&strong_data)
//@global Arc :: downgrade ( & scope ) => vx_weak_scope(&scope)
//@global Arc :: new ( Scope $$x ) => vx_arc(Scope $$x, Ghost(h))
//@global data . into ( ) => data.into(Ghost(h))
//@global Self :: root_or_none ( & $x ) => Self::root_or_none($x.bytes())
//@global $$x . map ( NonNull :: from ) . ok ( ) => vx_ok_ptr($$x)
//@global as usize => /**/
//@global Scope :: containing ( $$x ) => Scope::containing(vx_map, Ghost(h), $$x)
//@global scope_map . insert ( $$x ) => scope_map.insert($$x, Ghost(h))
//@global self . data ( ) => self.data(Ghost(h))
//@global self . range ( ) => self.range(Ghost(h))
impl Scope {
//@extract src/scope.rs impl Scope :: fn shared_keys
//@prop C12 C11
//@ret r
//@contract
    ensures r == (match self.shared_keys { Some(k) => Some(&k), None => None }),
//@end
//@extract src/scope.rs impl Scope :: fn data
//@prop C12
//@sig ( & self ) => (&self, Ghost(h): Ghost<Heap>)
//@sig Arc < [ u8 ] > => Buf
//@ret r
//@contract
    ensures self.wf() ==> r == Some(self.buf()),
//@end
//@extract src/scope.rs impl Scope :: fn range
//@prop C12
//@sig ( & self ) => (&self, Ghost(h): Ghost<Heap>)
//@sig core :: ops :: Range < usize > => Range<usize>
//@rewrite? $$a . map ( | $x | { $$b ; $$c } ) => match $$a { Some($x) => Some({ $$b; $$c }), None => None }
//@rewrite? $$a . map ( | $x | $$b ) => match $$a { Some($x) => Some($$b), None => None }
//@ret r
//@contract
    ensures self.wf() ==> (r matches Some(x) && x.start == self.buf().addr() && x.end == self.buf().addr() + self.buf()@.len()),
//@end
//@extract src/scope.rs impl Scope :: fn root
//@prop C12
//@sig ( & self ) => (&self, Ghost(h): Ghost<Heap>)
//@rewrite? $$a . and_then ( | $x | { $$b } ) => match $$a { Some($x) => { $$b } None => None }
//@rewrite? self . root . map ( | $x | $$b ) => match &self.root { Some($x) => Some($$b), None => None }
//@ret r
//@contract
    requires self.wf(),
    ensures match r { Some(a) => a.buf == self.buf() && self.root == Some(a.value), None => self.root is None },
//@end
//@extract src/scope.rs impl Scope :: fn root_or_none
//@prop C12
//@sig & [ u8 ] => &Bytes
//@sig Option < NonNull < Value > > => Option<Ptr<Value>>
//@ret r
//@contract
    requires data.pos() == 0, data.n() == doc().len(),
    ensures match r { Some(p) => root(doc()) == Some(p@) && valid(doc(), p@.0, p@.1, false), None => match root(doc()) { Some((p, n)) => !valid(doc(), p, n, false), None => true } },
//@end
//@extract src/scope.rs impl Scope :: fn new
//@prop C12 C11
//@sig ( data : impl Into < Arc < [ u8 ] >> , => (vx_map: &mut RangeMap, Ghost(h): Ghost<Heap>, data: Data,
//@sig Arc < Self > => ScopeRef
//@ret r
//@contract
    requires data@ == doc(), entries_ok(h, old(vx_map)@), heap_ok(h),
    ensures !h.scopes.contains(r), !h.made.contains(r), r@.wf(), r@.buf()@ == data@, !h.bufs.contains(r@.buf()), forall|b: Buf| #[trigger] h.bufs.contains(b) ==> apart(r@.buf(), b),
        r@.shared_keys == shared_keys, r@.root is Some == (match root(data@) { Some((p, n)) => valid(data@, p, n, false), None => false }),
        forall|k: int| #[trigger] final(vx_map)@.contains_key(k) == (r@.buf().covers(k) || old(vx_map)@.contains_key(k)),
        forall|k: int| #[trigger] final(vx_map)@.contains_key(k) ==> if r@.buf().covers(k) { final(vx_map)@[k].0.to() == r } else { final(vx_map)@[k] == old(vx_map)@[k] },
//@end
//@extract src/scope.rs impl Scope :: fn remove
//@prop C12
//@sig ( & self ) => (&self, vx_map: &mut RangeMap, Ghost(h): Ghost<Heap>)
//@rewrite? = $$a . filter ( | $x | ! $x . is_empty ( ) ) => = (match $$a { Some($x) => if !vx_range_is_empty(&$x) { Some($x) } else { None }, None => None })
//@rewrite? $x . is_empty ( ) => vx_range_is_empty(&$x)
//@contract
    requires self.wf(),
    ensures forall|k: int| #[trigger] final(vx_map)@.contains_key(k) == (!self.buf().covers(k) && old(vx_map)@.contains_key(k)),
        forall|k: int| #[trigger] final(vx_map)@.contains_key(k) ==> final(vx_map)@[k] == old(vx_map)@[k],
//@end
//@extract src/scope.rs impl Scope :: fn containing
//@prop C12
//@sig ( data : * const u8 ) => (vx_map: &RangeMap, Ghost(h): Ghost<Heap>, data: usize)
//@sig Arc < Self > => ScopeRef
//@ret r
//@contract
    ensures r == looked_up(h, vx_map@, data as int),
//@end
//@extract src/scope.rs impl Scope :: fn find_shared_keys
//@prop C12 C11 C04
//@sig ( containing_data : * const u8 ) => (vx_map: &RangeMap, Ghost(h): Ghost<Heap>, containing_data: usize)
//@rewrite? $$a . and_then ( | $x | $$b ) => match $$a { Some($x) => { $$b } None => None }
//@rewrite? s . shared_keys . clone ( ) => vx_clone_keys(&s.get().shared_keys)
//@ret r
//@contract
    ensures r == (match looked_up(h, vx_map@, containing_data as int) { Some(s) => s@.shared_keys, None => None }),
//@end
//@extract src/scope.rs impl PartialEq for Scope :: fn eq
//@prop C12
//@sig fn eq ( & self , => pub fn eq(&self, Ghost(h): Ghost<Heap>,
//@rewrite? self_data . as_ptr ( ) . eq ( & other_data . as_ptr ( ) ) => self_data.as_ptr() == other_data.as_ptr()
//@ret r
//@contract
    ensures r == scope_eq(h, *self, *other),
//@end
}
impl ScopeEntry {
//@extract src/scope.rs impl PartialEq for ScopeEntry :: fn eq
//@prop C12
//@sig fn eq ( & self , => pub fn eq(&self, Ghost(h): Ghost<Heap>,
//@rewrite? self_scope . eq ( & other_scope ) => self_scope.get().eq(Ghost(h), other_scope.get())
//@ret r
//@contract
    ensures r == entry_eq(h, *self, *other),
//@end
//@extract src/scope.rs impl Deref for ScopeEntry :: fn deref
//@prop C12
//@sig fn deref => pub fn deref
//@sig Self :: Target => WeakScope
//@ret r
//@contract
    ensures *r == self.0,
//@end
}
/// what method calls on an entry find through Deref
impl ScopeEntry {
    pub fn upgrade(&self, Ghost(h): Ghost<Heap>) -> (r: Option<ScopeRef>) ensures r == (if h.scopes.contains(self.0.to()) { Some(self.0.to()) } else { None }) { self.deref().upgrade(Ghost(h)) }
}
