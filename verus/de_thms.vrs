// ---------------------------------------------------------------- what was serialized is what is deserialized
/// the value at hand stands for the tree, and the shared keys at hand still number the keys as when it was written
pub open spec fn standing(a: At, sk: Seq<Seq<u8>>, t: Tree) -> bool {
    !a.key && ok_at(a.p, a.n) && holds(doc(), sk, a.p, a.n, t) && known(sk, a.sk)
}
pub open spec fn known(sk: Seq<Seq<u8>>, at: Option<Seq<Seq<u8>>>) -> bool { match at { Some(s) => prefix(sk, s) && sk_ok(s), None => sk.len() == 0 } }
pub open spec fn at_elem(e: (int, int), sk: Option<Seq<Seq<u8>>>, key: bool) -> At { At { p: e.0, n: e.1, sk: sk, key: key } }
/// C15: a visitor is told of each scalar what was written
//@thm C15
pub proof fn thm_scalar(a: At, sk: Seq<Seq<u8>>, l: Leaf)
    requires standing(a, sk, Tree::Leaf(l)), l matches Leaf::Str(b) ==> valid_utf8(b)
    ensures any_seen(a) matches Some(s) && leaf_seen(l, s), (kind(doc().subrange(a.p, a.p + a.n)[0]) == ValueType::Null) == (l is Null),
        !is_coll(kind(doc().subrange(a.p, a.p + a.n)[0])),
{
    reveal(holds); reveal(leaf_at);
}
/// C15: of a sequence, its elements in order
//@thm C15
pub proof fn thm_elems(a: At, sk: Seq<Seq<u8>>, ts: Seq<Tree>)
    requires standing(a, sk, Tree::Arr(ts))
    ensures any_seen(a) == Some(Seen::Seq(elems_of(a.p, a.n), a.sk)), kind(doc().subrange(a.p, a.p + a.n)[0]) == ValueType::Array, c_count(doc().subrange(a.p, a.p + a.n)) == ts.len(),
        elems_of(a.p, a.n).len() == ts.len(),
        forall|i: int| 0 <= i < ts.len() ==> standing(at_elem(#[trigger] elems_of(a.p, a.n)[i], a.sk, false), sk, ts[i]),
{
    reveal(holds);
    lemma_slots_ok_at(a.p, a.n);
}
pub proof fn lemma_slots_ok_at(p: int, n: int)
    requires ok_at(p, n), is_coll(kind(doc().subrange(p, p + n)[0]))
    ensures forall|i: int| 0 <= i < c_count(doc().subrange(p, p + n)) ==> ok_at((#[trigger] elems_of(p, n)[i]).0, elems_of(p, n)[i].1),
{
    assert(doc().subrange(p, p + n)[0] == doc()[p]);
    lemma_slots_ok(p, n);
    assert forall|i: int| 0 <= i < c_count(doc().subrange(p, p + n)) implies ok_at((#[trigger] elems_of(p, n)[i]).0, elems_of(p, n)[i].1) by {
        let s = doc().subrange(p, p + n);
        assert(slot_ok(p + c_slot(s, i), c_width(s)));
    }
}
/// C15: of a map or struct, each key which was written, as the string it was, followed by its value; pm is the order
//@thm C15
pub proof fn thm_entries(a: At, sk: Seq<Seq<u8>>, ks: Seq<Seq<u8>>, vs: Seq<Tree>) -> (pm: Seq<int>)
    requires standing(a, sk, Tree::Dict(ks, vs)),
    ensures any_seen(a) == Some(Seen::Map(elems_of(a.p, a.n), a.sk)), kind(doc().subrange(a.p, a.p + a.n)[0]) == ValueType::Dict,
        elems_of(a.p, a.n).len() == 2 * ks.len(), is_perm(pm, ks.len() as int), vs.len() == ks.len(),
        forall|i: int| 0 <= i < ks.len() ==> ({ let k = at_elem(#[trigger] elems_of(a.p, a.n)[2 * i], a.sk, true); ok_at(k.p, k.n) && any_seen(k) == Some(Seen::Str(ks[pm[i]])) }),
        forall|i: int| 0 <= i < ks.len() ==> standing(at_elem(#[trigger] elems_of(a.p, a.n)[2 * i + 1], a.sk, false), sk, vs[pm[i]]),
{
    reveal(holds);
    let p = a.p; let n = a.n;
    let pm = choose|pm: Seq<int>| #[trigger] perm_keys(doc(), sk, p, n, ks, pm) && forall|i: int| 0 <= i < ks.len() ==>
        0 <= pm[i] < vs.len() && holds(doc(), sk, (#[trigger] slot_target(doc(), p, n, 2 * i + 1)).0, slot_target(doc(), p, n, 2 * i + 1).1, vs[pm[i]]);
    lemma_slots_ok_at(p, n);
    assert forall|i: int| 0 <= i < ks.len() implies ({ let k = at_elem(#[trigger] elems_of(p, n)[2 * i], a.sk, true); ok_at(k.p, k.n) && any_seen(k) == Some(Seen::Str(ks[pm[i]])) }) by {
        let r = slot_target(doc(), p, n, 2 * i);
        assert(elems_of(p, n)[2 * i] == r);
        reveal(key_holds); reveal(leaf_at);
        assert(key_holds(doc(), sk, r, ks[pm[i]]));
        let s = doc().subrange(r.0, r.0 + r.1);
        if kind(s[0]) == ValueType::Short { lemma_bits16(); lemma_short(s); assert(short_raw(s) < sk.len()); }
    }
    assert forall|i: int| 0 <= i < ks.len() implies standing(at_elem(#[trigger] elems_of(p, n)[2 * i + 1], a.sk, false), sk, vs[pm[i]]) by {
        let r = slot_target(doc(), p, n, 2 * i + 1);
        assert(elems_of(p, n)[2 * i + 1] == r);
    }
    pm
}
/// types which come back as they went
pub trait Trip: Deserialize {
    spec fn shape(&self) -> Tree;
    spec fn same(&self, o: &Self) -> bool;
    proof fn trip(a: At, sk: Seq<Seq<u8>>, x: Self, r: Result<Self>)
        requires standing(a, sk, x.shape()), Self::made(a, r)
        ensures r matches Ok(y) && y.same(&x);
}
// visitors as serde has them: the contracts can be met, and met they bring every value back
pub struct I64V;
impl Visitor for I64V {
    type Value = i64;
    open spec fn got(self, s: Seen, r: Result<i64>) -> bool { match s { Seen::Num(x) if -0x8000_0000_0000_0000 <= x < 0x8000_0000_0000_0000 => r matches Ok(v) && v == x, _ => r.is_err() } }
    fn visit_none(self) -> (r: Result<i64>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_unit(self) -> (r: Result<i64>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_bool(self, v: bool) -> (r: Result<i64>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_i8(self, v: i8) -> (r: Result<i64>) { Ok(v as i64) }
    fn visit_i16(self, v: i16) -> (r: Result<i64>) { Ok(v as i64) }
    fn visit_i32(self, v: i32) -> (r: Result<i64>) { Ok(v as i64) }
    fn visit_i64(self, v: i64) -> (r: Result<i64>) { Ok(v as i64) }
    fn visit_u8(self, v: u8) -> (r: Result<i64>) { Ok(v as i64) }
    fn visit_u16(self, v: u16) -> (r: Result<i64>) { Ok(v as i64) }
    fn visit_u32(self, v: u32) -> (r: Result<i64>) { Ok(v as i64) }
    fn visit_u64(self, v: u64) -> (r: Result<i64>) { if v <= i64::MAX as u64 { Ok(v as i64) } else { Err(Error::Deserialize(DeserializeError::NotArray)) } }
    fn visit_f32(self, v: f32) -> (r: Result<i64>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_f64(self, v: f64) -> (r: Result<i64>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_str(self, v: &str) -> (r: Result<i64>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_bytes(self, v: &Bytes) -> (r: Result<i64>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_some(self, d: &Deserializer) -> (r: Result<i64>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_newtype_struct(self, d: &Deserializer) -> (r: Result<i64>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_seq(self, a: ArrayAccess) -> (r: Result<i64>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_map(self, a: DictAccess) -> (r: Result<i64>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_enum(self, a: EnumAccess) -> (r: Result<i64>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
}
impl Deserialize for i64 {
    open spec fn made(a: At, r: Result<i64>) -> bool { match any_seen(a) { Some(s) => I64V.got(s, r), None => r.is_err() } }
    fn deserialize(d: &Deserializer) -> (r: Result<i64>) { d.deserialize_any(I64V) }
}
impl Trip for i64 {
    open spec fn shape(&self) -> Tree { Tree::Leaf(Leaf::Num(*self as int)) }
    open spec fn same(&self, o: &i64) -> bool { *self == *o }
    proof fn trip(a: At, sk: Seq<Seq<u8>>, x: i64, r: Result<i64>) { thm_scalar(a, sk, Leaf::Num(x as int)); }
}
pub struct StringV;
/// str::to_string
#[verifier::external_body]
pub fn vx_owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
impl Visitor for StringV {
    type Value = String;
    open spec fn got(self, s: Seen, r: Result<String>) -> bool { match s { Seen::Str(b) => r matches Ok(v) && encode_utf8(v@) == b, _ => r.is_err() } }
    fn visit_none(self) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_unit(self) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_bool(self, v: bool) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_i8(self, v: i8) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_i16(self, v: i16) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_i32(self, v: i32) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_i64(self, v: i64) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_u8(self, v: u8) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_u16(self, v: u16) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_u32(self, v: u32) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_u64(self, v: u64) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_f32(self, v: f32) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_f64(self, v: f64) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_str(self, v: &str) -> (r: Result<String>) { Ok(vx_owned(v)) }
    fn visit_bytes(self, v: &Bytes) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_some(self, d: &Deserializer) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_newtype_struct(self, d: &Deserializer) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_seq(self, a: ArrayAccess) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_map(self, a: DictAccess) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_enum(self, a: EnumAccess) -> (r: Result<String>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
}
impl Deserialize for String {
    open spec fn made(a: At, r: Result<String>) -> bool { match any_seen(a) { Some(s) => StringV.got(s, r), None => r.is_err() } }
    fn deserialize(d: &Deserializer) -> (r: Result<String>) { d.deserialize_any(StringV) }
}
impl Trip for String {
    open spec fn shape(&self) -> Tree { Tree::Leaf(Leaf::Str(encode_utf8(self@))) }
    open spec fn same(&self, o: &String) -> bool { self@ == o@ }
    proof fn trip(a: At, sk: Seq<Seq<u8>>, x: String, r: Result<String>) {
        encode_utf8_valid_utf8(x@);
        thm_scalar(a, sk, Leaf::Str(encode_utf8(x@)));
        encode_utf8_decode_utf8(x@); encode_utf8_decode_utf8(r->Ok_0@);
    }
}
pub struct OptV<T> { t: core::marker::PhantomData<T> }
impl<T> OptV<T> { pub fn new() -> (r: Self) { OptV { t: core::marker::PhantomData } } }
impl<T: Deserialize> Visitor for OptV<T> {
    type Value = Option<T>;
    open spec fn got(self, s: Seen, r: Result<Option<T>>) -> bool { match s { Seen::None | Seen::Unit => r matches Ok(None),
        Seen::Some(a) => match r { Ok(Some(v)) => T::made(a, Ok(v)), Ok(None) => false, Err(e) => T::made(a, Err(e)) }, _ => r.is_err() } }
    fn visit_none(self) -> (r: Result<Option<T>>) { Ok(None) }
    fn visit_unit(self) -> (r: Result<Option<T>>) { Ok(None) }
    fn visit_bool(self, v: bool) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_i8(self, v: i8) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_i16(self, v: i16) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_i32(self, v: i32) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_i64(self, v: i64) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_u8(self, v: u8) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_u16(self, v: u16) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_u32(self, v: u32) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_u64(self, v: u64) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_f32(self, v: f32) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_f64(self, v: f64) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_str(self, v: &str) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_bytes(self, v: &Bytes) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_some(self, d: &Deserializer) -> (r: Result<Option<T>>) { match T::deserialize(d) { Ok(v) => Ok(Some(v)), Err(e) => Err(e) } }
    fn visit_newtype_struct(self, d: &Deserializer) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_seq(self, a: ArrayAccess) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_map(self, a: DictAccess) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_enum(self, a: EnumAccess) -> (r: Result<Option<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
}
pub open spec fn opt_said(a: At) -> Seen { if kind(doc().subrange(a.p, a.p + a.n)[0]) == ValueType::Null { Seen::None } else { Seen::Some(a) } }
impl<T: Deserialize> Deserialize for Option<T> {
    open spec fn made(a: At, r: Result<Option<T>>) -> bool { exists|v: OptV<T>| #[trigger] v.got(opt_said(a), r) }
    fn deserialize(d: &Deserializer) -> (r: Result<Option<T>>) { let v = OptV::new(); let r = d.deserialize_option(v); assert(v.got(opt_said(d@), r)); r }
}
/// an option comes back, unless what it holds is itself written as null
impl<T: Trip> Trip for Option<T> {
    open spec fn shape(&self) -> Tree { match *self { Some(x) => x.shape(), None => Tree::Leaf(Leaf::Null) } }
    open spec fn same(&self, o: &Option<T>) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.same(&b), (None, None) => true, (None, Some(b)) => b.shape() == Tree::Leaf(Leaf::Null), _ => false } }
    proof fn trip(a: At, sk: Seq<Seq<u8>>, x: Option<T>, r: Result<Option<T>>) {
        match x {
            None => { thm_scalar(a, sk, Leaf::Null); }
            Some(y) => {
                let t = y.shape();
                match t { Tree::Leaf(_) => { reveal(holds); reveal(leaf_at); } Tree::Arr(ts) => { thm_elems(a, sk, ts); } Tree::Dict(ks, vs) => { let pm = thm_entries(a, sk, ks, vs); } }
                if opt_said(a) is Some { match r { Ok(Some(v)) => { T::trip(a, sk, y, Ok(v)); } Err(e) => { T::trip(a, sk, y, Err(e)); } _ => {} } }
            }
        }
    }
}
pub struct VecV<T> { t: core::marker::PhantomData<T> }
impl<T> VecV<T> { pub fn new() -> (r: Self) { VecV { t: core::marker::PhantomData } } }
pub open spec fn vec_made<T: Deserialize>(es: Seq<(int, int)>, sk: Option<Seq<Seq<u8>>>, r: Result<Vec<T>>) -> bool {
    match r {
        Ok(v) => v@.len() == es.len() && forall|i: int| 0 <= i < es.len() ==> T::made(at_elem(#[trigger] es[i], sk, false), Ok(v@[i])),
        Err(e) => exists|i: int| 0 <= i < es.len() && T::made(at_elem(#[trigger] es[i], sk, false), Err(e)),
    }
}
/// PhantomData<T>: DeserializeSeed
pub struct Plain<T> { t: core::marker::PhantomData<T> }
impl<T> Plain<T> { pub fn new() -> (r: Self) { Plain { t: core::marker::PhantomData } } }
impl<T: Deserialize> DeserializeSeed for Plain<T> {
    type Value = T;
    open spec fn made(self, a: At, r: Result<T>) -> bool { T::made(a, r) }
    fn deserialize(self, d: &Deserializer) -> (r: Result<T>) { T::deserialize(d) }
}
fn vec_read<T: Deserialize>(acc: ArrayAccess) -> (r: Result<Vec<T>>)
    requires acc.ok()
    ensures vec_made(acc.rest(), acc.shared_keys@, r)
{
    let ghost es = acc.rest(); let ghost sk = acc.shared_keys@;
    let mut a = acc;
    let mut v: Vec<T> = Vec::new();
    proof { assert(es.skip(0) =~= es); }
    loop
        invariant es == acc.rest(), sk == acc.shared_keys@, a.ok(), a.shared_keys@ == sk, v@.len() <= es.len(), a.rest() == es.skip(v@.len() as int),
            forall|i: int| 0 <= i < v@.len() ==> T::made(at_elem(#[trigger] es[i], sk, false), Ok(v@[i])),
        decreases es.len() - v@.len()
    {
        let ghost n = v@.len() as int;
        let x: Result<Option<T>> = a.next_element_seed(Plain::<T>::new());
        proof { if n < es.len() { assert(es.skip(n)[0] == es[n]); assert(es.skip(n).skip(1) =~= es.skip(n + 1)); } }
        match x {
            Err(e) => { assert(T::made(at_elem(es[n], sk, false), Err(e))); return Err(e); }
            Ok(None) => { return Ok(v); }
            Ok(Some(y)) => { v.push(y); }
        }
    }
}
impl<T: Deserialize> Visitor for VecV<T> {
    type Value = Vec<T>;
    open spec fn got(self, s: Seen, r: Result<Vec<T>>) -> bool { match s { Seen::Seq(es, sk) => vec_made(es, sk, r), _ => r.is_err() } }
    fn visit_none(self) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_unit(self) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_bool(self, v: bool) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_i8(self, v: i8) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_i16(self, v: i16) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_i32(self, v: i32) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_i64(self, v: i64) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_u8(self, v: u8) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_u16(self, v: u16) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_u32(self, v: u32) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_u64(self, v: u64) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_f32(self, v: f32) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_f64(self, v: f64) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_str(self, v: &str) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_bytes(self, v: &Bytes) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_some(self, d: &Deserializer) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_newtype_struct(self, d: &Deserializer) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_seq(self, a: ArrayAccess) -> (r: Result<Vec<T>>) { vec_read(a) }
    fn visit_map(self, a: DictAccess) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
    fn visit_enum(self, a: EnumAccess) -> (r: Result<Vec<T>>) { Err(Error::Deserialize(DeserializeError::NotArray)) }
}
impl<T: Deserialize> Deserialize for Vec<T> {
    open spec fn made(a: At, r: Result<Vec<T>>) -> bool {
        if kind(doc().subrange(a.p, a.p + a.n)[0]) == ValueType::Array { vec_made(elems_of(a.p, a.n), a.sk, r) } else { r.is_err() }
    }
    fn deserialize(d: &Deserializer) -> (r: Result<Vec<T>>) { d.deserialize_seq(VecV::new()) }
}
/// C15: a sequence comes back element by element, for whatever elements
//@thm C15
pub proof fn thm_vec<T: Trip>(a: At, sk: Seq<Seq<u8>>, x: Vec<T>, r: Result<Vec<T>>)
    requires standing(a, sk, x.shape()), Vec::<T>::made(a, r)
    ensures r matches Ok(y) && y.same(&x)
{
    <Vec<T> as Trip>::trip(a, sk, x, r);
}
impl<T: Trip> Trip for Vec<T> {
    open spec fn shape(&self) -> Tree { Tree::Arr(Seq::new(self@.len(), |i: int| self@[i].shape())) }
    open spec fn same(&self, o: &Vec<T>) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < o@.len() ==> (#[trigger] self@[i]).same(&o@[i]) }
    proof fn trip(a: At, sk: Seq<Seq<u8>>, x: Vec<T>, r: Result<Vec<T>>) {
        let ts = Seq::new(x@.len(), |i: int| x@[i].shape());
        thm_elems(a, sk, ts);
        let es = elems_of(a.p, a.n);
        match r {
            Ok(v) => { assert forall|i: int| 0 <= i < x@.len() implies (#[trigger] v@[i]).same(&x@[i]) by { let e = es[i]; T::trip(at_elem(e, a.sk, false), sk, x@[i], Ok(v@[i])); } }
            Err(e) => { let i = choose|i: int| 0 <= i < es.len() && T::made(at_elem(#[trigger] es[i], a.sk, false), Err(e)); T::trip(at_elem(es[i], a.sk, false), sk, x@[i], Err(e)); }
        }
    }
}
/// C15: a map gives each entry which was written once (structs: derive asks for the fields in turn, in the order of the document)
//@thm C15
fn thm_map<V: Trip>(acc: DictAccess, Ghost(a): Ghost<At>, Ghost(sk): Ghost<Seq<Seq<u8>>>, Ghost(ks): Ghost<Seq<Seq<u8>>>, Ghost(xs): Ghost<Seq<V>>) -> (r: Result<(Vec<(String, V)>, Ghost<Seq<int>>)>)
    requires acc.ok(), acc.rest() == elems_of(a.p, a.n), acc.shared_keys@ == a.sk, ks.len() == xs.len(), standing(a, sk, Tree::Dict(ks, Seq::new(xs.len(), |i: int| xs[i].shape()))),
    ensures r matches Ok((v, pm)) && is_perm(pm@, ks.len() as int) && v@.len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> encode_utf8((#[trigger] v@[i]).0@) == ks[pm@[i]] && v@[i].1.same(&xs[pm@[i]])
{
    let ghost vs = Seq::new(xs.len(), |i: int| xs[i].shape());
    let ghost pm = thm_entries(a, sk, ks, vs);
    let ghost es = elems_of(a.p, a.n);
    let mut acc = acc;
    let mut v: Vec<(String, V)> = Vec::new();
    proof { assert(es.skip(0) =~= es); }
    loop
        invariant acc.ok(), acc.shared_keys@ == a.sk, v@.len() <= ks.len(), es.len() == 2 * ks.len(), vs.len() == ks.len(), acc.rest() == es.skip(2 * v@.len() as int), es == elems_of(a.p, a.n), is_perm(pm, ks.len() as int),
            xs.len() == ks.len(), vs == Seq::new(xs.len(), |i: int| xs[i].shape()),
            forall|i: int| 0 <= i < v@.len() ==> encode_utf8((#[trigger] v@[i]).0@) == ks[pm[i]] && v@[i].1.same(&xs[pm[i]]),
            forall|i: int| 0 <= i < ks.len() ==> ({ let k = at_elem(#[trigger] elems_of(a.p, a.n)[2 * i], a.sk, true); ok_at(k.p, k.n) && any_seen(k) == Some(Seen::Str(ks[pm[i]])) }),
            forall|i: int| 0 <= i < ks.len() ==> standing(at_elem(#[trigger] elems_of(a.p, a.n)[2 * i + 1], a.sk, false), sk, vs[pm[i]]),
        decreases ks.len() - v@.len()
    {
        let ghost n = v@.len() as int;
        let k: Result<Option<String>> = acc.next_key_seed(Plain::<String>::new());
        proof { if n < ks.len() { assert(es.skip(2 * n)[0] == es[2 * n]); assert(es.skip(2 * n).skip(1) =~= es.skip(2 * n + 1)); assert(es.skip(2 * n + 1)[0] == es[2 * n + 1]); assert(es.skip(2 * n + 1).skip(1) =~= es.skip(2 * n + 2)); } }
        match k {
            Err(e) => { assert(String::made(at_elem(es[2 * n], a.sk, true), Err(e))); assert(false); return Err(e); }
            Ok(None) => { return Ok((v, Ghost(pm))); }
            Ok(Some(s)) => {
                assert(String::made(at_elem(es[2 * n], a.sk, true), Ok(s)));
                let x: Result<V> = acc.next_value_seed(Plain::<V>::new());
                proof { V::trip(at_elem(es[2 * n + 1], a.sk, false), sk, xs[pm[n]], x); }
                match x { Ok(y) => { v.push((s, y)); } Err(e) => { return Err(e); } }
            }
        }
    }
}
/// C15: a variant's name, and a newtype variant's value, come back
//@thm C15
fn thm_variant<T: Trip>(acc: EnumAccess, Ghost(a): Ghost<At>, Ghost(sk): Ghost<Seq<Seq<u8>>>, Ghost(name): Ghost<Seq<char>>, Ghost(x): Ghost<T>) -> (r: Result<(String, T)>)
    requires acc.ok(), acc.array.pos() == a.p, acc.array.n() == a.n, acc.shared_keys@ == a.sk,
        standing(a, sk, Tree::Arr(s2(Tree::Leaf(Leaf::Str(encode_utf8(name))), x.shape())))
    ensures r matches Ok((s, y)) && s@ == name && y.same(&x)
{
    proof { encode_utf8_valid_utf8(name); thm_elems(a, sk, s2(Tree::Leaf(Leaf::Str(encode_utf8(name))), x.shape())); assert(acc.elems()[0] == elems_of(a.p, a.n)[0]); assert(acc.elems()[1] == elems_of(a.p, a.n)[1]);
        thm_scalar(acc.at(0), sk, Leaf::Str(encode_utf8(name))); }
    let r = acc.variant_seed(Plain::<String>::new());
    match r {
        Err(e) => { assert(false); Err(e) }
        Ok((s, v)) => {
            proof { encode_utf8_decode_utf8(name); encode_utf8_decode_utf8(s@); }
            let y: Result<T> = v.newtype_variant_seed(Plain::<T>::new());
            proof { T::trip(acc.at(1), sk, x, y); }
            match y { Ok(y) => Ok((s, y)), Err(e) => Err(e) }
        }
    }
}
/// C15: a unit variant, a tuple variant
//@thm C15
fn thm_unit_variant(acc: EnumAccess, Ghost(a): Ghost<At>, Ghost(sk): Ghost<Seq<Seq<u8>>>, Ghost(t): Ghost<Tree>) -> (r: Result<()>)
    requires acc.ok(), acc.array.pos() == a.p, acc.array.n() == a.n, acc.shared_keys@ == a.sk, standing(a, sk, Tree::Arr(s1(t)))
    ensures r.is_ok()
{
    proof { thm_elems(a, sk, s1(t)); }
    acc.unit_variant()
}
//@thm C15
fn thm_tuple_variant<T: Trip>(acc: EnumAccess, Ghost(a): Ghost<At>, Ghost(sk): Ghost<Seq<Seq<u8>>>, Ghost(name): Ghost<Tree>, Ghost(xs): Ghost<Vec<T>>, len: usize) -> (r: Result<Vec<T>>)
    requires acc.ok(), acc.array.pos() == a.p, acc.array.n() == a.n, acc.shared_keys@ == a.sk, standing(a, sk, Tree::Arr(s2(name, xs.shape()))), len == xs@.len()
    ensures r matches Ok(y) && y.same(&xs)
{
    proof { thm_elems(a, sk, s2(name, xs.shape())); assert(acc.elems()[1] == elems_of(a.p, a.n)[1]);
        thm_elems(acc.at(1), sk, Seq::new(xs@.len(), |i: int| xs@[i].shape())); }
    let r: Result<Vec<T>> = acc.tuple_variant(len, VecV::new());
    proof { <Vec<T> as Trip>::trip(acc.at(1), sk, xs, r); }
    r
}
/// C15: a struct variant's fields are found, and its visitor is told of them
//@thm C15
fn thm_struct_variant<V: Visitor>(acc: EnumAccess, Ghost(a): Ghost<At>, Ghost(sk): Ghost<Seq<Seq<u8>>>, Ghost(name): Ghost<Tree>, Ghost(ks): Ghost<Seq<Seq<u8>>>, Ghost(vs): Ghost<Seq<Tree>>, fields: &'static [&'static str], visitor: V) -> (r: Result<V::Value>)
    requires acc.ok(), acc.array.pos() == a.p, acc.array.n() == a.n, acc.shared_keys@ == a.sk, standing(a, sk, Tree::Arr(s2(name, Tree::Dict(ks, vs)))),
        distinct(ks), fields@.len() == ks.len(), forall|i: int| 0 <= i < fields@.len() ==> encode_utf8((#[trigger] fields@[i])@) == ks[i],
    ensures exists|e: At| standing(e, sk, Tree::Dict(ks, vs)) && #[trigger] visitor.got(Seen::Map(elems_of(e.p, e.n), e.sk), r)
{
    let ghost e = acc.at(1);
    proof {
        thm_elems(a, sk, s2(name, Tree::Dict(ks, vs))); assert(acc.elems()[1] == elems_of(a.p, a.n)[1]);
        assert(standing(e, sk, Tree::Dict(ks, vs)));
        let pm = lemma_entries(doc(), sk, e.p, e.n, ks, vs);
        lemma_fields(e, acc.shared_keys.given(), sk, ks, vs, pm, fields@);
        assert(doc().subrange(e.p, e.p + e.n)[0] == doc()[e.p]);
    }
    let r = acc.struct_variant(fields, visitor);
    assert(visitor.got(Seen::Map(elems_of(e.p, e.n), e.sk), r));
    r
}
pub proof fn lemma_fields(e: At, given: Option<SharedKeys>, sk: Seq<Seq<u8>>, ks: Seq<Seq<u8>>, vs: Seq<Tree>, pm: Seq<int>, fields: Seq<&'static str>)
    requires standing(e, sk, Tree::Dict(ks, vs)), entries(doc(), sk, e.p, e.n, ks, vs, pm), distinct(ks), dict_sorted(doc(), e.p, e.n), e.sk == (match given { Some(k) => Some(k@), None => None }),
        fields.len() == ks.len(), forall|i: int| 0 <= i < fields.len() ==> encode_utf8((#[trigger] fields[i])@) == ks[i],
    ensures forall|d: &Dict, all: bool| #[trigger] has_all(d, fields, given, all) && d.ok() && (d.pos(), d.n()) == (e.p, e.n) ==> all
{
    assert forall|d: &Dict, all: bool| #[trigger] has_all(d, fields, given, all) && d.ok() && (d.pos(), d.n()) == (e.p, e.n) implies all by {
        if !all {
            let i = choose|i: int| 0 <= i < fields.len() && #[trigger] has(d, fields[i], given, false);
            let v = choose|v: Option<&Value>| #[trigger] d.found(encode_utf8(fields[i]@), opt_ref(given), v) && !v.is_some();
            lemma_sk_known(e, given, sk, ks, vs, pm);
            lemma_lookup(d, sk, ks, vs, pm, encode_utf8(fields[i]@), opt_ref(given), v);
            assert(ks[i] == encode_utf8(fields[i]@));
        }
    }
}
pub proof fn lemma_sk_known(e: At, given: Option<SharedKeys>, sk: Seq<Seq<u8>>, ks: Seq<Seq<u8>>, vs: Seq<Tree>, pm: Seq<int>)
    requires entries(doc(), sk, e.p, e.n, ks, vs, pm),  known(sk, e.sk), e.sk == (match given { Some(k) => Some(k@), None => None })
    ensures keys_known(e.p, e.n, sk, opt_ref(given))
{
    if given is None { assert(sk =~= Seq::empty()); assert forall|i: int| 0 <= i < dict_len(doc().subrange(e.p, e.p + e.n)) implies !((#[trigger] dict_key(doc(), e.p, e.n, i)) is Shared) by { assert(key_name(sk, dict_key(doc(), e.p, e.n, i)) == Some(ks[pm[i]])); } }
}
