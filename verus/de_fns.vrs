// ---------------------------------------------------------------- de.rs
//@global Value :: DecodeError => DecodeError
//@global array :: Iter => Iter
//@global format ! ( $$x ) => vx_text()
//@global $$x . as_ptr ( ) => $$x.as_ptr()
//@global de :: Deserializer :: deserialize_seq ( & Deserializer :: new ( $$d ) , $$v , ) => { let vx_d = Deserializer::new($$d); vx_d.deserialize_seq($$v) }
//@global de :: Deserializer :: deserialize_map ( & Deserializer :: new ( $$d ) , $$v , ) => { let vx_d = Deserializer::new($$d); vx_d.deserialize_map($$v) }
//@global $x . deserialize ( & Deserializer :: new ( $$d ) ) => { let vx_d = Deserializer::new($$d); $x.deserialize(&vx_d) }
impl<'sk> SK<'sk> {
//@extract src/de.rs impl < 'sk > SK < 'sk > :: fn as_ref
//@prop C15
//@sig -> SK => -> SK<'_>
//@ret r
//@contract
    ensures r@ == self@,
//@end
//@extract src/de.rs impl < 'sk > SK < 'sk > :: fn shared_keys
//@prop C15
//@ret r
//@contract
    ensures match r { Some(k) => self.given() == Some(**k) && self@ == Some(k@), None => self.given() is None && self@ is None },
//@end
}
//@extract src/de.rs fn from_bytes
//@prop C15
//@sig < 'a , T > => <T: Deserialize>
//@sig & 'a [ u8 ] => & Bytes
//@sig where T : serde :: Deserialize < 'a > , =>
//@ret r
//@contract
    requires bytes.pos() == 0, bytes.n() == doc().len(),
    ensures match root(doc()) {
        Some((p, n)) => if valid(doc(), p, n, false) { T::made(At { p: p, n: n, sk: match scope_keys() { Some(s) => Some(s@), None => None }, key: false }, r) } else { r.is_err() },
        None => r.is_err() },
//@at start
    proof { lemma_all_ok(); lemma_root(); }
//@end
impl<'value, 'sk> Deserializer<'value, 'sk> {
//@extract src/de.rs impl < 'value , 'sk > Deserializer < 'value , 'sk > :: fn init
//@prop C15
//@ret r
//@contract
    requires value.ok(),
    ensures r.ok(), r@ == (At { p: value.pos(), n: value.n(), sk: match scope_keys() { Some(s) => Some(s@), None => None }, key: false }),
//@end
//@extract src/de.rs impl < 'value , 'sk > Deserializer < 'value , 'sk > :: fn new
//@prop C15
//@ret r
//@contract
    requires value.ok(),
    ensures r.ok(), r@ == (At { p: value.pos(), n: value.n(), sk: shared_keys@, key: false }),
//@at start
    proof { lemma_all_ok(); lemma_ok(value.pos(), value.n()); }
//@end
//@extract src/de.rs impl < 'value , 'sk > Deserializer < 'value , 'sk > :: fn new_for_dict_key
//@prop C15
//@ret r
//@contract
    requires value.ok(),
    ensures r.ok(), r@ == (At { p: value.pos(), n: value.n(), sk: shared_keys@, key: true }),
//@at start
    proof { lemma_all_ok(); lemma_ok(value.pos(), value.n()); }
//@end
//@extract src/de.rs impl < 'de , 'value , 'sk > de :: Deserializer < 'de > for & Deserializer < 'value , 'sk > :: fn deserialize_any
//@prop C15
//@sig fn deserialize_any => pub fn deserialize_any
//@sig ( self => ( &self
//@sig < V > => <V: Visitor>
//@sig where V : Visitor < 'de > , =>
//@rewrite? self . shared_keys . shared_keys ( ) . and_then ( | $s | $$e ) => (match self.shared_keys.shared_keys() { Some($s) => $$e, None => None })
//@ret r
//@contract
    requires self.ok(),
    ensures match any_seen(self@) { Some(s) => visitor.got(s, r), None => r.is_err() },
//@at start
    proof { lemma_all_ok(); lemma_ok(self.value.pos(), self.value.n()); lemma_fresh(self.value.pos(), self.value.n()); lemma_bits16(); lemma_short(self.value@); lemma_int_reads(self.value@); }
//@end
//@extract src/de.rs impl < 'de , 'value , 'sk > de :: Deserializer < 'de > for & Deserializer < 'value , 'sk > :: fn deserialize_option
//@prop C15
//@sig fn deserialize_option => pub fn deserialize_option
//@sig ( self => ( &self
//@sig < V > => <V: Visitor>
//@sig where V : Visitor < 'de > , =>
//@ret r
//@contract
    requires self.ok(),
    ensures visitor.got(if kind(self.value@[0]) == ValueType::Null { Seen::None } else { Seen::Some(self@) }, r),
//@at start
    proof { lemma_all_ok(); lemma_ok(self.value.pos(), self.value.n()); lemma_fresh(self.value.pos(), self.value.n()); }
//@end
//@extract src/de.rs impl < 'de , 'value , 'sk > de :: Deserializer < 'de > for & Deserializer < 'value , 'sk > :: fn deserialize_unit_struct
//@prop C15
//@sig fn deserialize_unit_struct => pub fn deserialize_unit_struct
//@sig ( self => ( &self
//@sig < V > => <V: Visitor>
//@sig where V : Visitor < 'de > , =>
//@ret r
//@contract
    requires self.ok(),
    ensures if kind(self.value@[0]) == ValueType::Null { visitor.got(Seen::Unit, r) } else { match any_seen(self@) { Some(s) => visitor.got(s, r), None => r.is_err() } },
//@at start
    proof { lemma_all_ok(); lemma_ok(self.value.pos(), self.value.n()); lemma_fresh(self.value.pos(), self.value.n()); }
//@end
//@extract src/de.rs impl < 'de , 'value , 'sk > de :: Deserializer < 'de > for & Deserializer < 'value , 'sk > :: fn deserialize_newtype_struct
//@prop C15
//@sig fn deserialize_newtype_struct => pub fn deserialize_newtype_struct
//@sig ( self => ( &self
//@sig < V > => <V: Visitor>
//@sig where V : Visitor < 'de > , =>
//@ret r
//@contract
    requires self.ok(),
    ensures visitor.got(Seen::Newtype(self@), r),
//@end
//@extract src/de.rs impl < 'de , 'value , 'sk > de :: Deserializer < 'de > for & Deserializer < 'value , 'sk > :: fn deserialize_seq
//@prop C15
//@sig fn deserialize_seq => pub fn deserialize_seq
//@sig ( self => ( &self
//@sig < V > => <V: Visitor>
//@sig where V : Visitor < 'de > , =>
//@ret r
//@contract
    requires self.ok(),
    ensures if kind(self.value@[0]) == ValueType::Array { visitor.got(Seen::Seq(elems_of(self.value.pos(), self.value.n()), self.shared_keys@), r) } else { r.is_err() },
//@at start
    proof { lemma_all_ok(); lemma_ok(self.value.pos(), self.value.n()); lemma_fresh(self.value.pos(), self.value.n()); }
//@end
//@extract src/de.rs impl < 'de , 'value , 'sk > de :: Deserializer < 'de > for & Deserializer < 'value , 'sk > :: fn deserialize_map
//@prop C15
//@sig fn deserialize_map => pub fn deserialize_map
//@sig ( self => ( &self
//@sig < V > => <V: Visitor>
//@sig where V : Visitor < 'de > , =>
//@ret r
//@contract
    requires self.ok(),
    ensures if kind(self.value@[0]) == ValueType::Dict { visitor.got(Seen::Map(elems_of(self.value.pos(), self.value.n()), self.shared_keys@), r) } else { r.is_err() },
//@at start
    proof { lemma_all_ok(); lemma_ok(self.value.pos(), self.value.n()); lemma_fresh(self.value.pos(), self.value.n()); }
//@end
//@extract src/de.rs impl < 'de , 'value , 'sk > de :: Deserializer < 'de > for & Deserializer < 'value , 'sk > :: fn deserialize_struct
//@prop C15
//@sig fn deserialize_struct => pub fn deserialize_struct
//@sig ( self => ( &self
//@sig < V > => <V: Visitor>
//@sig where V : Visitor < 'de > , =>
//@ret r
//@contract
    requires self.ok(),
    ensures if kind(self.value@[0]) == ValueType::Dict { visitor.got(Seen::Map(elems_of(self.value.pos(), self.value.n()), self.shared_keys@), r) } else { r.is_err() },
//@end
//@extract src/de.rs impl < 'de , 'value , 'sk > de :: Deserializer < 'de > for & Deserializer < 'value , 'sk > :: fn deserialize_enum
//@prop C15
//@sig fn deserialize_enum => pub fn deserialize_enum
//@sig ( self => ( &self
//@sig < V > => <V: Visitor>
//@sig where V : Visitor < 'de > , =>
//@ret r
//@contract
    requires self.ok(),
    ensures if kind(self.value@[0]) == ValueType::Array { visitor.got(Seen::Enum(self.value.pos(), self.value.n(), self.shared_keys@), r) } else { r.is_err() },
//@at start
    proof { lemma_all_ok(); lemma_ok(self.value.pos(), self.value.n()); lemma_fresh(self.value.pos(), self.value.n()); }
//@end
}
impl<'iter, 'sk> ArrayAccess<'iter, 'sk> {
//@extract src/de.rs impl < 'iter , 'sk > ArrayAccess < 'iter , 'sk > :: fn new
//@prop C15
//@ret r
//@contract
    requires array.ok(),
    ensures r.ok(), r.rest() == elems_of(array.pos(), array.n()), r.shared_keys@ == shared_keys@,
//@at start
    proof { lemma_fresh(array.pos(), array.n()); }
//@end
//@extract src/de.rs impl < 'iter , 'de , 'sk > de :: SeqAccess < 'de > for ArrayAccess < 'iter , 'sk > :: fn next_element_seed
//@prop C15
//@sig fn next_element_seed => pub fn next_element_seed
//@sig < T > => <T: DeserializeSeed>
//@sig where T : DeserializeSeed < 'de > , =>
//@rewrite seed . deserialize ( & Deserializer :: new ( $$d ) ) . map ( Some ) => { let vx_d = Deserializer::new($$d); vx_some(seed.deserialize(&vx_d)) }
//@ret r
//@contract
    requires old(self).ok(),
    ensures final(self).ok(), final(self).shared_keys@ == old(self).shared_keys@,
        if old(self).rest().len() == 0 { r matches Ok(None) && final(self).rest().len() == 0 } else {
            let e = old(self).rest()[0];
            &&& final(self).rest() == old(self).rest().skip(1)
            &&& exists|x| #[trigger] seed.made(At { p: e.0, n: e.1, sk: old(self).shared_keys@, key: false }, x) && r == (match x { Ok(v) => Ok(Some(v)), Err(e) => Err(e) })
        },
//@at start
    proof { lemma_rest(self.iter); lemma_iter_next(self.iter); }
//@end
//@extract src/de.rs impl < 'iter , 'de , 'sk > de :: SeqAccess < 'de > for ArrayAccess < 'iter , 'sk > :: fn size_hint
//@prop C15
//@sig fn size_hint => pub fn size_hint
//@ret r
//@contract
    ensures r == Some((self.iter.len) as usize),
//@end
}
impl<'iter, 'sk> DictAccess<'iter, 'sk> {
//@extract src/de.rs impl < 'iter , 'sk > DictAccess < 'iter , 'sk > :: fn new
//@prop C15
//@ret r
//@contract
    requires dict.ok(),
    ensures r.ok(), r.rest() == elems_of(dict.pos(), dict.n()), r.shared_keys@ == shared_keys@,
//@at start
    proof { lemma_fresh(dict.pos(), dict.n()); lemma_ok(dict.pos(), dict.n()); }
//@end
//@extract src/de.rs impl < 'iter , 'de , 'sk > de :: MapAccess < 'de > for DictAccess < 'iter , 'sk > :: fn next_key_seed
//@prop C15
//@sig fn next_key_seed => pub fn next_key_seed
//@sig < K > => <K: DeserializeSeed>
//@sig where K : DeserializeSeed < 'de > , =>
//@rewrite seed . deserialize ( & Deserializer :: new_for_dict_key ( $$d ) ) . map ( Some ) => { let vx_d = Deserializer::new_for_dict_key($$d); vx_some(seed.deserialize(&vx_d)) }
//@ret r
//@contract
    requires old(self).ok(),
    ensures final(self).ok(), final(self).shared_keys@ == old(self).shared_keys@,
        if old(self).rest().len() == 0 { r matches Ok(None) && final(self).rest().len() == 0 } else {
            let e = old(self).rest()[0];
            &&& final(self).rest() == old(self).rest().skip(1)
            &&& exists|x| #[trigger] seed.made(At { p: e.0, n: e.1, sk: old(self).shared_keys@, key: true }, x) && r == (match x { Ok(v) => Ok(Some(v)), Err(e) => Err(e) })
        },
//@at start
    proof { lemma_rest(self.iter); lemma_iter_next(self.iter); }
//@end
//@extract src/de.rs impl < 'iter , 'de , 'sk > de :: MapAccess < 'de > for DictAccess < 'iter , 'sk > :: fn next_value_seed
//@prop C15
//@sig fn next_value_seed => pub fn next_value_seed
//@sig < V > => <V: DeserializeSeed>
//@sig where V : DeserializeSeed < 'de > , =>
//@ret r
//@contract
    requires old(self).ok(),
    ensures final(self).ok(), final(self).shared_keys@ == old(self).shared_keys@,
        if old(self).rest().len() == 0 { r.is_err() && final(self).rest().len() == 0 } else {
            let e = old(self).rest()[0];
            &&& final(self).rest() == old(self).rest().skip(1)
            &&& seed.made(At { p: e.0, n: e.1, sk: old(self).shared_keys@, key: false }, r)
        },
//@at start
    proof { lemma_rest(self.iter); lemma_iter_next(self.iter); }
//@end
//@extract src/de.rs impl < 'iter , 'de , 'sk > de :: MapAccess < 'de > for DictAccess < 'iter , 'sk > :: fn size_hint
//@prop C15
//@sig fn size_hint => pub fn size_hint
//@ret r
//@contract
    ensures r == Some((self.iter.len / 2) as usize),
//@end
}
impl<'arr, 'sk> EnumAccess<'arr, 'sk> {
//@extract src/de.rs impl < 'arr , 'sk > EnumAccess < 'arr , 'sk > :: fn new
//@prop C15
//@ret r
//@contract
    ensures r.array == array, r.shared_keys@ == shared_keys@,
//@end
//@extract src/de.rs impl < 'arr , 'sk , 'de > de :: EnumAccess < 'de > for EnumAccess < 'arr , 'sk > :: fn variant_seed
//@prop C15
//@sig fn variant_seed => pub fn variant_seed
//@sig < V > => <V: DeserializeSeed>
//@sig where V : DeserializeSeed < 'de > , =>
//@sig Self :: Variant => Self
//@ret r
//@contract
    requires self.ok(),
    ensures match r {
            Ok((v, a)) => self.elems().len() > 0 && a == self && seed.made(self.at(0), Ok(v)),
            Err(e) => self.elems().len() == 0 || seed.made(self.at(0), Err(e)) },
//@at start
    proof { lemma_all_ok(); lemma_ok(self.array.pos(), self.array.n()); }
//@end
//@extract src/de.rs impl < 'arr , 'sk , 'de > de :: VariantAccess < 'de > for EnumAccess < 'arr , 'sk > :: fn unit_variant
//@prop C15
//@sig fn unit_variant => pub fn unit_variant
//@ret r
//@contract
    requires self.ok(),
    ensures r.is_ok() == (self.elems().len() == 1),
//@at start
    proof { lemma_all_ok(); lemma_ok(self.array.pos(), self.array.n()); }
//@end
//@extract src/de.rs impl < 'arr , 'sk , 'de > de :: VariantAccess < 'de > for EnumAccess < 'arr , 'sk > :: fn newtype_variant_seed
//@prop C15
//@sig fn newtype_variant_seed => pub fn newtype_variant_seed
//@sig < T > => <T: DeserializeSeed>
//@sig where T : DeserializeSeed < 'de > , =>
//@ret r
//@contract
    requires self.ok(),
    ensures if self.elems().len() < 2 { r.is_err() } else { seed.made(self.at(1), r) },
//@at start
    proof { lemma_all_ok(); lemma_ok(self.array.pos(), self.array.n()); }
//@end
//@extract src/de.rs impl < 'arr , 'sk , 'de > de :: VariantAccess < 'de > for EnumAccess < 'arr , 'sk > :: fn tuple_variant
//@prop C15
//@sig fn tuple_variant => pub fn tuple_variant
//@sig < V > => <V: Visitor>
//@sig where V : Visitor < 'de > , =>
//@ret r
//@contract
    requires self.ok(),
    ensures if self.elems().len() < 2 { r.is_err() } else {
            let e = self.elems()[1]; let s = doc().subrange(e.0, e.0 + e.1);
            if kind(s[0]) == ValueType::Array && c_count(s) == len { visitor.got(Seen::Seq(elems_of(e.0, e.1), self.shared_keys@), r) } else { r.is_err() }
        },
//@at start
    proof { lemma_all_ok(); lemma_ok(self.array.pos(), self.array.n()); }
//@end
//@extract src/de.rs impl < 'arr , 'sk , 'de > de :: VariantAccess < 'de > for EnumAccess < 'arr , 'sk > :: fn struct_variant
//@prop C15
//@sig fn struct_variant => pub fn struct_variant
//@sig < V > => <V: Visitor>
//@sig where V : Visitor < 'de > , =>
//@rewrite fields . iter ( ) . all ( | $f | dict . contains_key_with_shared_keys ( $$a , $k ) ) => vx_all(fields, |$f: &&'static str| -> (vx_b: bool) requires dict.ok() ensures has(dict, *$f, Some(**$k), vx_b) { dict.contains_key_with_shared_keys($$a, $k) })
//@rewrite fields . iter ( ) . all ( | $f | dict . contains_key ( $$a ) ) => vx_all(fields, |$f: &&'static str| -> (vx_b: bool) requires dict.ok() ensures has(dict, *$f, None, vx_b) { dict.contains_key($$a) })
//@ret r
//@contract
    requires self.ok(),
    ensures if self.elems().len() < 2 { r.is_err() } else {
            let e = self.elems()[1]; let s = doc().subrange(e.0, e.0 + e.1);
            if kind(s[0]) == ValueType::Dict && dict_len(s) == fields@.len() {
                exists|d: &Dict, all: bool| #[trigger] has_all(d, fields@, self.shared_keys.given(), all) && d.ok() && (d.pos(), d.n()) == e
                    && if all { visitor.got(Seen::Map(elems_of(e.0, e.1), self.shared_keys@), r) } else { r.is_err() }
            } else { r.is_err() }
        },
//@at start
    proof { lemma_all_ok(); lemma_ok(self.array.pos(), self.array.n()); }
//@before if correct_keys
    proof { assert(has_all(dict, fields@, self.shared_keys.given(), correct_keys)); }
//@end
}
