// ---------------------------------------------------------------- what is written is what is read
// `v` holds bytes which satisfy the postcondition of the writer (`write_fleece_to`: anything it
// reported as written); the accessors are called under their own contracts.
/// the writer's postcondition is what `written` asks of the reader's bytes
//@thm C02 C03
fn thm_written<T: Encodable>(x: &T, buf: &mut [u8], is_wide: bool) -> (r: Option<usize>)
    requires x.writable(), is_wide ==> old(buf)@.len() >= x.wide(), x.leaf() is Some,
    ensures match r { Some(n) => n <= final(buf)@.len() && leaf_at(final(buf)@.take(n as int), x.leaf().unwrap())
        && final(buf)@.skip(n as int) =~= old(buf)@.skip(n as int), None => old(buf)@.len() < x.size() || is_wide },
{
    x.write_fleece_to(buf, is_wide)
}
/// every integer type stands for its number; bool, null, undefined, floats, strings, data for themselves
//@thm C02 C03
fn thm_leaves(a: i64, b: i32, c: i16, d: i8, e: isize, f: u64, g: u32, h: u16, i: u8, j: usize, k: bool, x: f32, y: f64, s: &str, t: &[u8])
    ensures a.leaf() == Some(Leaf::Num(a as int)), b.leaf() == Some(Leaf::Num(b as int)), c.leaf() == Some(Leaf::Num(c as int)), d.leaf() == Some(Leaf::Num(d as int)), e.leaf() == Some(Leaf::Num(e as int)),
        f.leaf() == Some(Leaf::Num(f as int)), g.leaf() == Some(Leaf::Num(g as int)), h.leaf() == Some(Leaf::Num(h as int)), i.leaf() == Some(Leaf::Num(i as int)), j.leaf() == Some(Leaf::Num(j as int)),
        k.leaf() == Some(Leaf::Bool(k)), NullValue.leaf() == Some(Leaf::Null), UndefinedValue.leaf() == Some(Leaf::Undefined), x.leaf() == Some(Leaf::Float(x)), y.leaf() == Some(Leaf::Double(y)),
        s.leaf() == Some(Leaf::Str(encode_utf8(s@))), t.leaf() == Some(Leaf::Data(t@)), Some(a).leaf() == a.leaf(), None::<i64>.leaf() == Some(Leaf::Null),
        a.writable() && b.writable() && c.writable() && d.writable() && e.writable() && f.writable() && g.writable() && h.writable() && i.writable() && j.writable()
            && k.writable() && NullValue.writable() && UndefinedValue.writable() && x.writable() && y.writable() && s.writable() && t.writable(),
{
}
/// C02: a number reads back as itself through every accessor whose range it is in
//@thm C02 C16
fn thm_num(Ghost(x): Ghost<int>, v: &Value)
    requires v.n() >= 1, leaf_at(v@, Leaf::Num(x))
{
    proof { reveal(leaf_at); }
    let t = v.value_type();
    assert(t == ValueType::Short || t == ValueType::Int || t == ValueType::UnsignedInt);
    let r = v.to_int();
    assert(x < 0x8000_0000_0000_0000 ==> r == x);
    let u = v.to_unsigned_int();
    assert(x >= 0 ==> u == x);
    let s = v.to_short();
    assert(-0x8000 <= x < 0x8000 ==> s == x);
    let us = v.to_unsigned_short();
    assert(0 <= x < 0x1_0000 ==> us == x);
    let z = v.to_bool();
    assert(z == (x != 0));
    let d = v.to_double();
    assert(x < 0 ==> d == i64_as_f64(x as i64));
    assert(x >= 0 ==> d == u64_as_f64(x as u64) || (x < 0x8000_0000_0000_0000 && d == i64_as_f64(x as i64)));
}
/// C02: null, undefined and booleans keep their type; floating point numbers keep their value
//@thm C02 C16
fn thm_other(k: bool, x: f32, y: f64, v: &Value)
    requires v.n() >= 1
{
    proof { reveal(leaf_at); }
    let t = v.value_type();
    assert(leaf_at(v@, Leaf::Null) ==> t == ValueType::Null);
    assert(leaf_at(v@, Leaf::Undefined) ==> t == ValueType::Undefined);
    assert(leaf_at(v@, Leaf::Bool(k)) ==> t == (if k { ValueType::True } else { ValueType::False }));
    let ghost ok = scalar_ok(v@);
    if v.len() < 2 || v.required_size() > v.len() { assert(!ok); return; }
    let b = v.to_bool();
    assert(leaf_at(v@, Leaf::Bool(k)) ==> b == k);
    let d = v.to_double(); let f = v.to_float();
    assert(leaf_at(v@, Leaf::Double(y)) ==> d == y);
    assert(leaf_at(v@, Leaf::Float(x)) ==> d == f32_as_f64(x) && f == f64_as_f32(f32_as_f64(x)));
}
/// C03: strings and data keep every byte
//@thm C03 C16
fn thm_text(s: &str, t: &[u8], v: &Value)
    requires v.n() >= 1
{
    proof { reveal(leaf_at); encode_utf8_valid_utf8(s@); }
    let ghost ok = scalar_ok(v@);
    if v.len() < 2 || v.required_size() > v.len() { assert(!ok); return; }
    let a = v.to_str();
    assert(leaf_at(v@, Leaf::Str(encode_utf8(s@))) ==> encode_utf8(a@) == encode_utf8(s@));
    proof { if leaf_at(v@, Leaf::Str(encode_utf8(s@))) { encode_utf8_decode_utf8(a@); encode_utf8_decode_utf8(s@); assert(a@ == s@); } }
    let d = v.to_data();
    assert(leaf_at(v@, Leaf::Data(t@)) ==> d@ == t@);
    assert(leaf_at(v@, Leaf::Str(encode_utf8(s@))) ==> d@ == encode_utf8(s@));
}
