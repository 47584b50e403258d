// ---------------------------------------------------------------- what the contracts add up to
// Clients which use only the contracts above; that they verify is the property.
// C06, C07: whatever the bytes are, decoding them gives an error or a value on which every accessor
// may be called with any argument, and what the accessors return is again such a value.
//@thm C06 C07
fn thm_decode_any_bytes(data: &Bytes, i: usize, k: &Key)
    requires data.pos() == 0, data.n() == doc().len()
{
    match Value::from_bytes(data) { Ok(v) => { proof { lemma_root(); } assert(v.ok()); thm_read_anything(v, i, k); } Err(_) => {} }
    match Array::from_bytes(data) { Ok(a) => { let _ = a.get(i); } Err(_) => {} }
    match Dict::from_bytes(data) { Ok(a) => { let _ = a._get(k); } Err(_) => {} }
}
//@thm C07
fn thm_read_anything(v: &Value, i: usize, k: &Key)
    requires v.ok()
{
    proof { lemma_all_ok(); }
    let _ = v.len(); let _ = v.value_type(); let _ = v.required_size();
    let _ = v.to_bool(); let _ = v.to_short(); let _ = v.to_unsigned_short(); let _ = v.to_int(); let _ = v.to_unsigned_int();
    let _ = v.to_float(); let _ = v.to_double(); let _ = v.to_data(); let _ = v.to_str();
    match v.as_array() {
        Some(a) => {
            let _ = a.len(); let _ = a.is_empty(); let _ = a.is_wide(); let _ = a.width();
            match a.get(i) { Some(e) => { assert(e.ok()); } None => {} }
            let mut it = a.iter();
            match it.next() { Some(e) => { assert(e.ok()); } None => {} }
            let _ = it.size_hint();
        }
        None => {}
    }
    match v.as_dict() {
        Some(d) => {
            let _ = d.len(); let _ = d.is_empty(); let _ = d.is_wide(); let _ = d.width(); let _ = d.uses_shared_keys();
            match d.first() { Some(e) => { assert(e.0.ok() && e.1.ok()); } None => {} }
            match d._get(k) { Some(e) => { assert(e.ok()); } None => {} }
            match k { Key::String(s) => { match d._get_encoded(*s, None) { Some(e) => { assert(e.ok()); } None => {} } } _ => {} }
            match k { Key::String(s) => { match d.get(*s) { Some(e) => { assert(e.ok()); } None => {} } let _ = d.contains_key(*s); } _ => {} }
            let mut it = d.iter();
            match it.next() { Some(e) => { assert(e.1.ok()); } None => {} }
            let _ = it.size_hint();
        }
        None => {}
    }
}
// C08: iterating an array yields exactly the elements that indexing yields, in order, and nothing after
//@thm C08
fn thm_iteration(a: &Array)
    requires a.ok()
{
    let n = a.len();
    let mut it = a.iter();
    let mut i: usize = 0;
    let ghost first = it.start();
    proof { lemma_iter_first(a.pos(), a.n()); }
    while i < n
        invariant a.ok(), i <= n, n == c_count(a@), it.ok(), it.len == n, it.index == i, it.width == c_width(a@), i < n ==> it.start() == a.pos() + c_first(a@),
        decreases n - i
    {
        proof { lemma_iter_first(a.pos(), a.n()); }
        assert(it.len - it.index == n - i);
        let by_iter = it.next();
        let by_index = a.get(i);
        assert(by_iter.is_some() && by_index.is_some());
        assert(by_iter.unwrap().pos() == by_index.unwrap().pos() && by_iter.unwrap().n() == by_index.unwrap().n());
        i += 1;
    }
    let end = it.next();
    assert(end.is_none());
    let past = a.get(n);
    assert(past.is_none());
}
// C08: and a dict as exactly its pairs, in order, up to a key which is no string
//@thm C08 C09
fn thm_dict_iteration(d: &Dict)
    requires d.ok(), forall|i: int| 0 <= i < d.length() ==> key_string(#[trigger] d.key(i), scope_keys()).is_some()
{
    proof { lemma_all_ok(); lemma_ok(d.pos(), d.n()); reveal(dict_key); reveal(dict_val); }
    let n = d.len();
    let mut it = d.iter();
    let mut i: usize = 0;
    proof { lemma_iter_first(d.pos(), d.n()); }
    while i < n
        invariant d.ok(), i <= n, n == d.length(), c_count(d@) % 2 == 0, it.it().ok(), it.it().len == c_count(d@), it.it().index == 2 * i,
            it.it().width == c_width(d@), i < n ==> it.it().start() == d.pos() + c_first(d@), it.keys() == scope_keys(),
            forall|i: int| 0 <= i < d.length() ==> key_string(#[trigger] d.key(i), scope_keys()).is_some(),
        decreases n - i
    {
        proof { lemma_iter_first(d.pos(), d.n()); reveal(dict_key); reveal(dict_val); assert(key_string(d.key(i as int), scope_keys()).is_some()); }
        let left = it.size_hint();
        assert(left.0 == n - i && left.1 == Some((n - i) as usize));
        let e = it.next();
        assert(e.is_some());
        assert(key_string(d.key(i as int), scope_keys()) == Some(encode_utf8(e.unwrap().0@)));
        assert(d.val(i as int) == (e.unwrap().1.pos(), e.unwrap().1.n()));
        i += 1;
    }
    let end = it.next();
    assert(end.is_none());
}
