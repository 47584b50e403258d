// ---------------------------------------------------------------- deserializing: what a visitor is told about a value
impl vstd::std_specs::convert::FromSpecImpl<DecodeError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DecodeError) -> Self { Error::Decode(v) }
}
impl From<DecodeError> for Error {
//@extract src/error.rs impl From<DecodeError> for Error :: fn from
//@prop C15
//@end
}
//@item src/de.rs struct Deserializer
//@rewrite value : => pub value :
//@rewrite shared_keys : => pub shared_keys :
//@rewrite is_dict_key : => pub is_dict_key :
//@item src/de.rs enum SK
//@rewrite enum SK => pub enum SK
//@item src/de.rs struct ArrayAccess
//@rewrite struct ArrayAccess => pub struct ArrayAccess
//@rewrite iter : => pub iter :
//@rewrite shared_keys : => pub shared_keys :
//@rewrite array :: Iter => Iter
//@item src/de.rs struct DictAccess
//@rewrite struct DictAccess => pub struct DictAccess
//@rewrite iter : => pub iter :
//@rewrite shared_keys : => pub shared_keys :
//@rewrite array :: Iter => Iter
//@item src/de.rs struct EnumAccess
//@rewrite struct EnumAccess => pub struct EnumAccess
//@rewrite array : => pub array :
//@rewrite shared_keys : => pub shared_keys :
/// format!("{:?}", x)
#[verifier::external_body]
pub fn vx_text() -> String { unimplemented!() }
/// r.map(Some)
pub fn vx_some<T>(r: Result<T>) -> (x: Result<Option<T>>) ensures match r { Ok(v) => x == Ok::<Option<T>, Error>(Some(v)), Err(e) => x == Err::<Option<T>, Error>(e) } { match r { Ok(v) => Ok(Some(v)), Err(e) => Err(e) } }
pub struct Scope { p: u8 }
impl Scope {
    #[verifier::external_body]
    pub fn find_shared_keys(p: usize) -> (r: Option<Arc<SharedKeys>>)
        ensures match r { Some(k) => scope_keys() == Some(*k), None => scope_keys().is_none() } { unimplemented!() }
}
/// a value to be deserialized: where it lies, the shared keys at hand, whether it is a dict's key
pub struct At { pub p: int, pub n: int, pub sk: Option<Seq<Seq<u8>>>, pub key: bool }
pub enum Seen { None, Unit, Bool(bool), Num(int), Float(f32), Double(f64), Str(Seq<u8>), Data(Seq<u8>), Some(At), Newtype(At),
    Seq(Seq<(int, int)>, Option<Seq<Seq<u8>>>), Map(Seq<(int, int)>, Option<Seq<Seq<u8>>>), Enum(int, int, Option<Seq<Seq<u8>>>) }
pub open spec fn s1<T>(a: T) -> Seq<T> { Seq::empty().push(a) }
pub open spec fn s2<T>(a: T, b: T) -> Seq<T> { Seq::empty().push(a).push(b) }
/// the elements (of a dict: keys and values in turn)
pub open spec fn elems_of(p: int, n: int) -> Seq<(int, int)> { Seq::new(c_count(doc().subrange(p, p + n)) as nat, |i: int| slot_target(doc(), p, n, i)) }
/// what a self-describing value says of itself
pub open spec fn any_seen(a: At) -> Option<Seen> {
    let s = doc().subrange(a.p, a.p + a.n);
    match kind(s[0]) {
        ValueType::Array => Some(Seen::Seq(elems_of(a.p, a.n), a.sk)),
        ValueType::Dict => Some(Seen::Map(elems_of(a.p, a.n), a.sk)),
        ValueType::Short if a.key => match a.sk { Some(sk) => match sk_decode(sk, short_raw(s) as u16) { Some(k) => Some(Seen::Str(k)), None => None }, None => None },
        ValueType::String => Some(Seen::Str(if valid_utf8(data_val(s)) { data_val(s) } else { Seq::empty() })),
        ValueType::Float => Some(Seen::Float(f64_as_f32(f64_val(s)))),
        ValueType::Double32 | ValueType::Double64 => Some(Seen::Double(f64_val(s))),
        ValueType::Null => Some(Seen::None), ValueType::Undefined => Some(Seen::Unit), ValueType::True => Some(Seen::Bool(true)), ValueType::False => Some(Seen::Bool(false)),
        ValueType::Short | ValueType::Int | ValueType::UnsignedInt => Some(Seen::Num(num_val(s))),
        ValueType::Data => Some(Seen::Data(data_val(s))),
        ValueType::Pointer => None,
    }
}
/// what a visitor is told of each scalar (a Float may come as a double of the same value)
pub open spec fn leaf_seen(l: Leaf, s: Seen) -> bool {
    match l {
        Leaf::Null => s == Seen::None, Leaf::Undefined => s == Seen::Unit, Leaf::Bool(b) => s == Seen::Bool(b), Leaf::Num(x) => s == Seen::Num(x),
        Leaf::Float(x) => s == Seen::Float(f64_as_f32(f32_as_f64(x))) || s == Seen::Double(f32_as_f64(x)),
        Leaf::Double(x) => s == Seen::Double(x), Leaf::Str(b) => s == Seen::Str(b), Leaf::Data(b) => s == Seen::Data(b),
    }
}
impl SK<'_> {
    pub open spec fn given(&self) -> Option<SharedKeys> { match *self { SK::None => None, SK::Ref(s) => Some(**s), SK::Owned(s) => Some(*s) } }
    pub open spec fn view(&self) -> Option<Seq<Seq<u8>>> { match *self { SK::None => None, SK::Ref(s) => Some(s@), SK::Owned(s) => Some(s@) } }
}
impl Deserializer<'_, '_> {
    pub open spec fn ok(&self) -> bool { self.value.ok() }
    pub open spec fn view(&self) -> At { At { p: self.value.pos(), n: self.value.n(), sk: self.shared_keys@, key: self.is_dict_key } }
}
/// the elements an iterator has yet to give
pub open spec fn rest(it: Iter) -> Seq<(int, int)> { Seq::new((it.len - it.index) as nat, |i: int| resolve(doc(), it_slot(it.start(), it.width as int, it.index + i), it.width as int)) }
pub proof fn lemma_rest(it: Iter)
    ensures rest(it).len() > 0 ==> rest(it)[0] == resolve(doc(), it_slot(it.start(), it.width as int, it.index as int), it.width as int),
        forall|b: Iter| it.index < it.len && b.len == it.len && b.width == it.width && b.index == it.index + 1 && (b.index < b.len ==> b.start() == it.start()) ==> #[trigger] rest(b) == rest(it).skip(1),
{
    assert forall|b: Iter| it.index < it.len && b.len == it.len && b.width == it.width && b.index == it.index + 1 && (b.index < b.len ==> b.start() == it.start()) implies #[trigger] rest(b) == rest(it).skip(1) by {
        assert(rest(b) =~= rest(it).skip(1));
    }
}
/// a fresh iterator gives all elements
pub proof fn lemma_fresh(p: int, n: int)
    ensures forall|it: Iter| it.ok() && it.index == 0 && it.len == c_count(doc().subrange(p, p + n)) && it.width == c_width(doc().subrange(p, p + n))
        && (it.len > 0 ==> it.start() == p + c_first(doc().subrange(p, p + n))) ==> #[trigger] rest(it) == elems_of(p, n)
{
    lemma_iter_first(p, n);
    assert forall|it: Iter| it.ok() && it.index == 0 && it.len == c_count(doc().subrange(p, p + n)) && it.width == c_width(doc().subrange(p, p + n))
        && (it.len > 0 ==> it.start() == p + c_first(doc().subrange(p, p + n))) implies #[trigger] rest(it) == elems_of(p, n) by {
        let s = doc().subrange(p, p + n);
        assert forall|i: int| 0 <= i < it.len implies rest(it)[i] == elems_of(p, n)[i] by { assert(it_slot(p + c_first(s), c_width(s), i) == p + c_slot(s, i)); }
        assert(rest(it) =~= elems_of(p, n));
    }
}
impl ArrayAccess<'_, '_> {
    pub open spec fn ok(&self) -> bool { self.iter.ok() }
    pub open spec fn rest(&self) -> Seq<(int, int)> { rest(self.iter) }
}
impl DictAccess<'_, '_> {
    pub open spec fn ok(&self) -> bool { self.iter.ok() }
    pub open spec fn rest(&self) -> Seq<(int, int)> { rest(self.iter) }
}
impl EnumAccess<'_, '_> {
    pub open spec fn ok(&self) -> bool { self.array.ok() && kind(self.array@[0]) == ValueType::Array }
    pub open spec fn elems(&self) -> Seq<(int, int)> { elems_of(self.array.pos(), self.array.n()) }
    pub open spec fn at(&self, i: int) -> At { At { p: self.elems()[i].0, n: self.elems()[i].1, sk: self.shared_keys@, key: false } }
}
/// Implementations of serde's Visitor, whatever they make of what they are told.  (serde's visitors take an integer of any width alike.)
pub trait Visitor: Sized {
    type Value;
    spec fn got(self, s: Seen, r: Result<Self::Value>) -> bool;
    fn visit_none(self) -> (r: Result<Self::Value>) ensures self.got(Seen::None, r);
    fn visit_unit(self) -> (r: Result<Self::Value>) ensures self.got(Seen::Unit, r);
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value>) ensures self.got(Seen::Bool(v), r);
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value>) ensures self.got(Seen::Num(v as int), r);
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value>) ensures self.got(Seen::Num(v as int), r);
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value>) ensures self.got(Seen::Num(v as int), r);
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value>) ensures self.got(Seen::Num(v as int), r);
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value>) ensures self.got(Seen::Num(v as int), r);
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value>) ensures self.got(Seen::Num(v as int), r);
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value>) ensures self.got(Seen::Num(v as int), r);
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value>) ensures self.got(Seen::Num(v as int), r);
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value>) ensures self.got(Seen::Float(v), r);
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value>) ensures self.got(Seen::Double(v), r);
    fn visit_str(self, v: &str) -> (r: Result<Self::Value>) ensures self.got(Seen::Str(encode_utf8(v@)), r);
    fn visit_bytes(self, v: &Bytes) -> (r: Result<Self::Value>) ensures self.got(Seen::Data(v@), r);
    fn visit_some(self, d: &Deserializer) -> (r: Result<Self::Value>) requires d.ok() ensures self.got(Seen::Some(d@), r);
    fn visit_newtype_struct(self, d: &Deserializer) -> (r: Result<Self::Value>) requires d.ok() ensures self.got(Seen::Newtype(d@), r);
    fn visit_seq(self, a: ArrayAccess) -> (r: Result<Self::Value>) requires a.ok() ensures self.got(Seen::Seq(a.rest(), a.shared_keys@), r);
    fn visit_map(self, a: DictAccess) -> (r: Result<Self::Value>) requires a.ok() ensures self.got(Seen::Map(a.rest(), a.shared_keys@), r);
    fn visit_enum(self, a: EnumAccess) -> (r: Result<Self::Value>) requires a.ok() ensures self.got(Seen::Enum(a.array.pos(), a.array.n(), a.shared_keys@), r);
}
/// Implementations of serde's DeserializeSeed and Deserialize
pub trait DeserializeSeed: Sized {
    type Value;
    spec fn made(self, a: At, r: Result<Self::Value>) -> bool;
    fn deserialize(self, d: &Deserializer) -> (r: Result<Self::Value>) requires d.ok() ensures self.made(d@, r);
}
pub trait Deserialize: Sized {
    spec fn made(a: At, r: Result<Self>) -> bool;
    fn deserialize(d: &Deserializer) -> (r: Result<Self>) requires d.ok() ensures Self::made(d@, r);
}
pub open spec fn opt_ref<'a>(g: Option<SharedKeys>) -> Option<&'a SharedKeys> { match g { Some(k) => Some(&k), None => None } }
/// what looking all the fields up says
pub open spec fn has_all(d: &Dict, fields: Seq<&'static str>, given: Option<SharedKeys>, r: bool) -> bool {
    if r { forall|i: int| 0 <= i < fields.len() ==> #[trigger] has(d, fields[i], given, true) } else { exists|i: int| 0 <= i < fields.len() && #[trigger] has(d, fields[i], given, false) }
}
pub open spec fn has(d: &Dict, field: &str, given: Option<SharedKeys>, r: bool) -> bool { exists|v: Option<&Value>| #[trigger] d.found(encode_utf8(field@), opt_ref(given), v) && r == v.is_some() }
/// fields.iter().all(f)
pub fn vx_all<F: Fn(&&'static str) -> bool>(fields: &[&'static str], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < fields@.len() ==> call_requires(f, (&#[trigger] fields@[i],)),
    ensures r ==> forall|i: int| 0 <= i < fields@.len() ==> call_ensures(f, (&#[trigger] fields@[i],), true),
        !r ==> exists|i: int| 0 <= i < fields@.len() && call_ensures(f, (&#[trigger] fields@[i],), false),
{
    for i in 0..fields.len() invariant forall|i: int| 0 <= i < fields@.len() ==> call_requires(f, (&#[trigger] fields@[i],)), forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] fields@[j],), true) {
        if !f(&fields[i]) { return false; }
    }
    true
}
