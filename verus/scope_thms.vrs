/// what a lookup gives
pub open spec fn looked_up(h: Heap, m: Map<int, ScopeEntry>, a: int) -> Option<ScopeRef> { if m.contains_key(a) && h.scopes.contains(m[a].0.to()) { Some(m[a].0.to()) } else { None } }
/// entries of scopes which are alive lie in their data
pub open spec fn entries_ok(h: Heap, m: Map<int, ScopeEntry>) -> bool { forall|a: int| #[trigger] m.contains_key(a) && h.scopes.contains(m[a].0.to()) ==> m[a].0.to()@.buf().covers(a) }
/// C12: the registered scopes are those in reg: each address of a live one's data finds it, any other finds none
pub open spec fn registered(h: Heap, m: Map<int, ScopeEntry>, reg: Set<ScopeRef>) -> bool {
    &&& heap_ok(h)
    &&& forall|a: int| #[trigger] m.contains_key(a) ==> h.made.contains(m[a].0.to())
    &&& forall|a: int| (#[trigger] looked_up(h, m, a)) matches Some(s) ==> reg.contains(s) && s@.buf().covers(a)
    &&& forall|a: int, s: ScopeRef| reg.contains(s) && h.scopes.contains(s) && #[trigger] s@.buf().covers(a) ==> looked_up(h, m, a) == Some(s)
    &&& forall|s: ScopeRef, t: ScopeRef| #[trigger] reg.contains(s) && #[trigger] reg.contains(t) && h.scopes.contains(s) && h.scopes.contains(t) && s != t ==> s@.buf() != t@.buf()
}
//@thm C12
fn thm_containing(map: &RangeMap, Ghost(h): Ghost<Heap>, Ghost(reg): Ghost<Set<ScopeRef>>, a: usize)
    requires registered(h, map@, reg)
{
    let r = Scope::containing(map, Ghost(h), a);
    assert(forall|s: ScopeRef| reg.contains(s) && h.scopes.contains(s) && s@.buf().covers(a as int) ==> r == Some(s));
    assert(r is Some ==> looked_up(h, map@, a as int) == r);
    assert(r matches Some(s) ==> reg.contains(s) && h.scopes.contains(s) && s@.buf().covers(a as int));
    let k = Scope::find_shared_keys(map, Ghost(h), a);
    assert(k == (match r { Some(s) => s@.shared_keys, None => None }));
}
/// a new scope is registered, and the others stay so
//@thm C12
fn thm_new(map: &mut RangeMap, Ghost(h): Ghost<Heap>, Ghost(reg): Ghost<Set<ScopeRef>>, data: Data, keys: Option<Arc<SharedKeys>>) -> (r: (ScopeRef, Ghost<Heap>))
    requires registered(h, old(map)@, reg), data@ == doc(), reg.subset_of(h.scopes)
    ensures registered(r.1@, final(map)@, reg.insert(r.0)), r.1@ == (Heap { scopes: h.scopes.insert(r.0), bufs: h.bufs.insert(r.0@.buf()), made: h.made.insert(r.0) }), r.0@.buf()@ == data@, r.0@.shared_keys == keys
{
    let ghost m = map@;
    proof { assert(entries_ok(h, m)) by { assert forall|a: int| #[trigger] m.contains_key(a) && h.scopes.contains(m[a].0.to()) implies m[a].0.to()@.buf().covers(a) by { assert(looked_up(h, m, a) == Some(m[a].0.to())); } } }
    let s = Scope::new(map, Ghost(h), data, keys);
    let ghost h2 = Heap { scopes: h.scopes.insert(s), bufs: h.bufs.insert(s@.buf()), made: h.made.insert(s) };
    proof {
        let reg2 = reg.insert(s);
        assert forall|a: Buf, b: Buf| #[trigger] h2.bufs.contains(a) && #[trigger] h2.bufs.contains(b) && a != b implies apart(a, b) by {
            if a == s@.buf() { } else if b == s@.buf() { assert(apart(b, a)); assert forall|x: int| #[trigger] a.covers(x) implies !b.covers(x) by { if b.covers(x) { } } } else { }
        }
        assert forall|a: int| (#[trigger] looked_up(h2, map@, a)) is Some implies ({ let t = looked_up(h2, map@, a).unwrap(); reg2.contains(t) && t@.buf().covers(a) }) by { let t = looked_up(h2, map@, a).unwrap();
            if !s@.buf().covers(a) { if t != s { assert(looked_up(h, m, a) == Some(t)); } else { assert(m[a].0.to() == s); } }
        }
        assert forall|a: int, t: ScopeRef| reg2.contains(t) && h2.scopes.contains(t) && #[trigger] t@.buf().covers(a) implies looked_up(h2, map@, a) == Some(t) by {
            if t != s { assert(h.scopes.contains(t)); assert(h.bufs.contains(t@.buf())); assert(apart(s@.buf(), t@.buf())); assert(!s@.buf().covers(a)); assert(looked_up(h, m, a) == Some(t)); assert(map@.contains_key(a)); assert(map@[a] == m[a]); assert(h2.scopes.contains(t)); assert(looked_up(h2, map@, a) == Some(t)); } else { assert(map@.contains_key(a)); assert(map@[a].0.to() == s); assert(looked_up(h2, map@, a) == Some(t)); }
        }
    }
    (s, Ghost(h2))
}
/// removing one scope makes its data find nothing, and leaves the others
//@thm C12
fn thm_remove(map: &mut RangeMap, Ghost(h): Ghost<Heap>, Ghost(reg): Ghost<Set<ScopeRef>>, s: &ScopeRef)
    requires registered(h, old(map)@, reg), h.scopes.contains(*s), reg.contains(*s)
    ensures registered(h, final(map)@, reg.remove(*s))
{
    let ghost m = map@;
    s.get().remove(map, Ghost(h));
    proof {
        let reg2 = reg.remove(*s);
        assert forall|a: int| (#[trigger] looked_up(h, map@, a)) is Some implies ({ let t = looked_up(h, map@, a).unwrap(); reg2.contains(t) && t@.buf().covers(a) }) by { let t = looked_up(h, map@, a).unwrap(); assert(looked_up(h, m, a) == Some(t)); }
        assert forall|a: int, t: ScopeRef| reg2.contains(t) && h.scopes.contains(t) && #[trigger] t@.buf().covers(a) implies looked_up(h, map@, a) == Some(t) by {
            assert(looked_up(h, m, a) == Some(t)); assert(apart(s@.buf(), t@.buf())); assert(!s@.buf().covers(a)) by { if s@.buf().covers(a) { assert(!t@.buf().covers(a)); } } assert(m.contains_key(a)); assert(map@.contains_key(a)); assert(map@[a] == m[a]); assert(looked_up(h, map@, a) == Some(t));
        }
    }
}
/// as does letting go of it, or of anything: what is gone is found no more
//@thm C12
pub proof fn thm_drop(h: Heap, h2: Heap, m: Map<int, ScopeEntry>, reg: Set<ScopeRef>)
    requires registered(h, m, reg), h2.made == h.made, h2.scopes.subset_of(h.scopes), h2.bufs.subset_of(h.bufs), forall|s: ScopeRef| #[trigger] h2.scopes.contains(s) ==> h2.bufs.contains(s@.buf())
    ensures registered(h2, m, reg), forall|a: int| (#[trigger] looked_up(h2, m, a)) matches Some(s) ==> h2.scopes.contains(s)
{
    assert forall|a: int| (#[trigger] looked_up(h2, m, a)) is Some implies ({ let t = looked_up(h2, m, a).unwrap(); reg.contains(t) && t@.buf().covers(a) }) by { let t = looked_up(h2, m, a).unwrap(); assert(looked_up(h, m, a) == Some(t)); }
    assert forall|a: int, t: ScopeRef| reg.contains(t) && h2.scopes.contains(t) && #[trigger] t@.buf().covers(a) implies looked_up(h2, m, a) == Some(t) by { assert(looked_up(h, m, a) == Some(t)); }
}
/// C12: a copy of a document is readable for as long as it, or a copy or conversion of it, is there: it holds the buffer
//@thm C12
fn thm_owned(data: &[u8]) -> (r: Result<(AllocedValue, AllocedValue)>)
    requires data@ == doc()
    ensures match r { Ok((a, b)) => a.buf@ == data@ && b.buf == a.buf && b.value == a.value && a.owns() && root(data@) == Some(a.value@), Err(_) => true }
{
    let a = Value::clone_from_bytes(data)?;
    let b = a.clone();
    let v = b.value();
    assert(root(data@) == Some((v.pos(), v.n())));
    let c = b.clone().to_array();
    match c { Some(c) => { let x = c.value(); assert((x.pos(), x.n()) == a.value@); } None => {} }
    Ok((a, b))
}
