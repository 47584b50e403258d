// ---------------------------------------------------------------- ser.rs
//@global $$x . map_err ( Error :: Encode ) => vx_enc($$x)
//@global ser :: Serialize :: serialize ( $$v , & mut * self ) => $$v.serialize(self)
//@global ser :: Serialize :: serialize ( $$v , & mut * * self ) => $$v.serialize(self)
//@global ser :: Serialize :: serialize ( $$v , self ) => $$v.serialize(self)
//@global serde :: ser :: SerializeSeq :: serialize_element ( self , $$v ) => self.seq_element($$v)
//@global ser :: SerializeSeq :: serialize_element ( self , $$v ) => self.seq_element($$v)
//@global SerializeSeq :: serialize_element ( self , $$v ) => self.seq_element($$v)
//@global serde :: ser :: SerializeSeq :: end ( self ) => self.seq_end()
//@global ser :: SerializeSeq :: end ( self ) => self.seq_end()
//@global SerializeSeq :: end ( self ) => self.seq_end()
//@global ser :: SerializeStruct :: serialize_field ( self , $$k , $$v ) => self.struct_field($$k, $$v)
//@global ser :: SerializeStruct :: end ( self ) => self.struct_end()
//@global Ok ( self ) => Ok(())
//@global $x . to_string ( ) => vx_char_string($x)
impl Serializer {
//@extract src/ser.rs impl Serializer :: fn new
//@prop C15
//@ret r
//@contract
    ensures repr(r.encoder, EView { frames: Seq::empty(), done: None }), used(r.encoder) == 8, r.encoder.shared_keys is None,
//@end
//@extract src/ser.rs impl Serializer :: fn set_shared_keys
//@prop C15
//@contract
    requires live(old(self).encoder), sk_ok(shared_keys@), prefix(old(self).encoder.sk(), shared_keys@),
    ensures used(final(self).encoder) == used(old(self).encoder), final(self).encoder.sk() == shared_keys@, final(self).encoder.shared_keys is Some,
        forall|w: EView| #[trigger] repr(old(self).encoder, w) ==> repr(final(self).encoder, w),
//@end

//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_bool
//@prop C15
//@sig fn serialize_bool => pub fn serialize_bool
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, v.size() + 9),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Bool(v))), v.size() + 9),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_i8
//@prop C15
//@sig fn serialize_i8 => pub fn serialize_i8
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, v.size() + 9),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Num(v as int))), v.size() + 9),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_i16
//@prop C15
//@sig fn serialize_i16 => pub fn serialize_i16
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, v.size() + 9),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Num(v as int))), v.size() + 9),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_i32
//@prop C15
//@sig fn serialize_i32 => pub fn serialize_i32
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, v.size() + 9),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Num(v as int))), v.size() + 9),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_i64
//@prop C15
//@sig fn serialize_i64 => pub fn serialize_i64
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, v.size() + 9),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Num(v as int))), v.size() + 9),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_u8
//@prop C15
//@sig fn serialize_u8 => pub fn serialize_u8
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, v.size() + 9),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Num(v as int))), v.size() + 9),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_u16
//@prop C15
//@sig fn serialize_u16 => pub fn serialize_u16
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, v.size() + 9),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Num(v as int))), v.size() + 9),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_u32
//@prop C15
//@sig fn serialize_u32 => pub fn serialize_u32
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, v.size() + 9),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Num(v as int))), v.size() + 9),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_u64
//@prop C15
//@sig fn serialize_u64 => pub fn serialize_u64
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, v.size() + 9),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Num(v as int))), v.size() + 9),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_f32
//@prop C15
//@sig fn serialize_f32 => pub fn serialize_f32
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, v.size() + 9),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Float(v))), v.size() + 9),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_f64
//@prop C15
//@sig fn serialize_f64 => pub fn serialize_f64
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, v.size() + 9),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Double(v))), v.size() + 9),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_char
//@prop C15
//@sig fn serialize_char => pub fn serialize_char
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, lsize(seq![v])),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Str(encode_utf8(seq![v])))), lsize(seq![v])),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_str
//@prop C15
//@sig fn serialize_str => pub fn serialize_str
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, lsize(v@)),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Str(encode_utf8(v@)))), lsize(v@)),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_bytes
//@prop C15
//@sig fn serialize_bytes => pub fn serialize_bytes
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, str_size(v@.len()) + 9),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Data(v@))), str_size(v@.len()) + 9),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_none
//@prop C15
//@sig fn serialize_none => pub fn serialize_none
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 11),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Null)), 11),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_unit
//@prop C15
//@sig fn serialize_unit => pub fn serialize_unit
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 11),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Undefined)), 11),
//@at start
    proof { reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_unit_struct
//@prop C15
//@sig fn serialize_unit_struct => pub fn serialize_unit_struct
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 11),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Leaf(Leaf::Null)), 11),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_some
//@prop C15
//@sig fn serialize_some => pub fn serialize_some
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@sig T : ? Sized + ser :: Serialize => T: Serialize
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, value.cost()),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), value.tree(), value.cost()),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_newtype_struct
//@prop C15
//@sig fn serialize_newtype_struct => pub fn serialize_newtype_struct
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@sig T : ? Sized + ser :: Serialize => T: Serialize
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, value.cost()),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), value.tree(), value.cost()),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_unit_variant
//@prop C15
//@sig fn serialize_unit_variant => pub fn serialize_unit_variant
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 40 + lsize(variant@)),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), Some(Tree::Arr(s1(ltree(variant@)))), 40 + lsize(variant@)),
//@at start
    proof { lemma_frames(); reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_newtype_variant
//@prop C15
//@sig fn serialize_newtype_variant => pub fn serialize_newtype_variant
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@sig T : ? Sized + ser :: Serialize => T: Serialize
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 40 + lsize(variant@) + value.cost()),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), opt_arr2(ltree(variant@), value.tree()), 40 + lsize(variant@) + value.cost()),
//@at start
    proof { lemma_frames(); reveal(put); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_seq
//@prop C15
//@sig fn serialize_seq => pub fn serialize_seq
//@sig ( self => ( &mut self
//@sig Self :: SerializeSeq => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 40),
    ensures opened(old(self).encoder, final(self).encoder, r.is_ok(), s1(Frame::Arr(Seq::empty())), 40),
//@at start
    proof { lemma_frames(); reveal(opened); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_tuple
//@prop C15
//@sig fn serialize_tuple => pub fn serialize_tuple
//@sig ( self => ( &mut self
//@sig Self :: SerializeTuple => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 40),
    ensures opened(old(self).encoder, final(self).encoder, r.is_ok(), s1(Frame::Arr(Seq::empty())), 40),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_tuple_struct
//@prop C15
//@sig fn serialize_tuple_struct => pub fn serialize_tuple_struct
//@sig ( self => ( &mut self
//@sig Self :: SerializeTupleStruct => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 40),
    ensures opened(old(self).encoder, final(self).encoder, r.is_ok(), s1(Frame::Arr(Seq::empty())), 40),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_tuple_variant
//@prop C15
//@sig fn serialize_tuple_variant => pub fn serialize_tuple_variant
//@sig ( self => ( &mut self
//@sig Self :: SerializeTupleVariant => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 80 + lsize(variant@)),
    ensures opened(old(self).encoder, final(self).encoder, r.is_ok(), s2(Frame::Arr(s1(ltree(variant@))), Frame::Arr(Seq::empty())), 80 + lsize(variant@)),
//@at start
    proof { lemma_frames(); reveal(opened); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_map
//@prop C15
//@sig fn serialize_map => pub fn serialize_map
//@sig ( self => ( &mut self
//@sig Self :: SerializeMap => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 40),
    ensures opened(old(self).encoder, final(self).encoder, r.is_ok(), s1(Frame::Dict(Seq::empty(), Seq::empty(), None)), 40),
//@at start
    proof { lemma_frames(); reveal(opened); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_struct
//@prop C15
//@sig fn serialize_struct => pub fn serialize_struct
//@sig ( self => ( &mut self
//@sig Self :: SerializeStruct => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 40),
    ensures opened(old(self).encoder, final(self).encoder, r.is_ok(), s1(Frame::Dict(Seq::empty(), Seq::empty(), None)), 40),
//@at start
    proof { lemma_frames(); reveal(opened); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for &'ser mut Serializer :: fn serialize_struct_variant
//@prop C15
//@sig fn serialize_struct_variant => pub fn serialize_struct_variant
//@sig ( self => ( &mut self
//@sig Self :: SerializeStructVariant => ()
//@ret r
//@contract
    requires len <= 0xffff_ffff_ffff, live(old(self).encoder), room(old(self).encoder, 80 + lsize(variant@)),
    ensures opened(old(self).encoder, final(self).encoder, r.is_ok(), s2(Frame::Arr(s1(ltree(variant@))), Frame::Dict(Seq::empty(), Seq::empty(), None)), 80 + lsize(variant@)),
//@at start
    proof { lemma_frames(); reveal(opened); }
//@end
//@extract src/ser.rs impl<'ser> SerializeSeq for &'ser mut Serializer :: fn serialize_element
//@prop C15
//@sig fn serialize_element => pub fn seq_element
//@sig T : ? Sized + ser :: Serialize => T: Serialize
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, value.cost()),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), value.tree(), value.cost()),
//@end
//@extract src/ser.rs impl<'ser> SerializeSeq for &'ser mut Serializer :: fn end
//@prop C15
//@sig fn end => pub fn seq_end
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 0),
    ensures closed_arr(old(self).encoder, final(self).encoder, r.is_ok()),
//@at start
    proof { reveal(closed_arr); }
//@end
//@extract src/ser.rs impl<'ser> SerializeMap for &'ser mut Serializer :: fn serialize_key
//@prop C15
//@sig fn serialize_key => pub fn map_key
//@sig T : ? Sized + ser :: Serialize => T: Serialize
//@rewrite? ser :: Serialize :: serialize ( $$k , MapKeySerializer { ser : self } ) => $$k.serialize_key(MapKeySerializer { ser: self })
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, key.key_cost()),
    ensures put_key(old(self).encoder, final(self).encoder, r.is_ok(), key.key(), key.key_cost()),
//@end
//@extract src/ser.rs impl<'ser> SerializeMap for &'ser mut Serializer :: fn serialize_value
//@prop C15
//@sig fn serialize_value => pub fn map_value
//@sig T : ? Sized + ser :: Serialize => T: Serialize
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, value.cost()),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), value.tree(), value.cost()),
//@end
//@extract src/ser.rs impl<'ser> SerializeMap for &'ser mut Serializer :: fn end
//@prop C15
//@sig fn end => pub fn map_end
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 0),
    ensures closed_dict(old(self).encoder, final(self).encoder, r.is_ok()),
//@at start
    proof { reveal(closed_dict); }
//@end
//@extract src/ser.rs impl<'ser> SerializeTuple for &'ser mut Serializer :: fn serialize_element
//@prop C15
//@sig fn serialize_element => pub fn tuple_element
//@sig T : ? Sized + ser :: Serialize => T: Serialize
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, value.cost()),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), value.tree(), value.cost()),
//@end
//@extract src/ser.rs impl<'ser> SerializeTuple for &'ser mut Serializer :: fn end
//@prop C15
//@sig fn end => pub fn tuple_end
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 0),
    ensures closed_arr(old(self).encoder, final(self).encoder, r.is_ok()),
//@end
//@extract src/ser.rs impl<'ser> ser::SerializeTupleStruct for &'ser mut Serializer :: fn serialize_field
//@prop C15
//@sig fn serialize_field => pub fn tuple_struct_field
//@sig T : ? Sized + ser :: Serialize => T: Serialize
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, value.cost()),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), value.tree(), value.cost()),
//@end
//@extract src/ser.rs impl<'ser> ser::SerializeTupleStruct for &'ser mut Serializer :: fn end
//@prop C15
//@sig fn end => pub fn tuple_struct_end
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 0),
    ensures closed_arr(old(self).encoder, final(self).encoder, r.is_ok()),
//@end
//@extract src/ser.rs impl<'ser> ser::SerializeTupleVariant for &'ser mut Serializer :: fn serialize_field
//@prop C15
//@sig fn serialize_field => pub fn tuple_variant_field
//@sig T : ? Sized + ser :: Serialize => T: Serialize
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, value.cost()),
    ensures put(old(self).encoder, final(self).encoder, r.is_ok(), value.tree(), value.cost()),
//@end
//@extract src/ser.rs impl<'ser> ser::SerializeTupleVariant for &'ser mut Serializer :: fn end
//@prop C15
//@sig fn end => pub fn tuple_variant_end
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 0),
    ensures closed_arr_arr(old(self).encoder, final(self).encoder, r.is_ok()),
//@at start
    proof { reveal(closed_arr_arr); }
//@end
//@extract src/ser.rs impl<'ser> ser::SerializeStruct for &'ser mut Serializer :: fn serialize_field
//@prop C15
//@sig fn serialize_field => pub fn struct_field
//@sig T : ? Sized + ser :: Serialize => T: Serialize
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, lsize(key@) + value.cost()),
    ensures put_field(old(self).encoder, final(self).encoder, r.is_ok(), encode_utf8(key@), value.tree(), lsize(key@) + value.cost()),
//@at start
    proof { reveal(put); reveal(put_field); lemma_open(self.encoder); }
//@end
//@extract src/ser.rs impl<'ser> ser::SerializeStruct for &'ser mut Serializer :: fn end
//@prop C15
//@sig fn end => pub fn struct_end
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 0),
    ensures closed_dict(old(self).encoder, final(self).encoder, r.is_ok()),
//@at start
    proof { reveal(closed_dict); }
//@end
//@extract src/ser.rs impl<'ser> ser::SerializeStructVariant for &'ser mut Serializer :: fn serialize_field
//@prop C15
//@sig fn serialize_field => pub fn struct_variant_field
//@sig T : ? Sized + ser :: Serialize => T: Serialize
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, lsize(key@) + value.cost()),
    ensures put_field(old(self).encoder, final(self).encoder, r.is_ok(), encode_utf8(key@), value.tree(), lsize(key@) + value.cost()),
//@end
//@extract src/ser.rs impl<'ser> ser::SerializeStructVariant for &'ser mut Serializer :: fn end
//@prop C15
//@sig fn end => pub fn struct_variant_end
//@sig ( self => ( &mut self
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(old(self).encoder), room(old(self).encoder, 0),
    ensures closed_dict_arr(old(self).encoder, final(self).encoder, r.is_ok()),
//@at start
    proof { reveal(closed_dict_arr); }
//@end
}
impl<'ser> MapKeySerializer<'ser> {
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_bool
//@prop C15
//@sig fn serialize_bool => pub fn serialize_bool
//@sig Self :: Ok => ()
//@sig , _ : => , _vx :
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_i8
//@prop C15
//@sig fn serialize_i8 => pub fn serialize_i8
//@sig Self :: Ok => ()
//@sig , _ : => , _vx :
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_i16
//@prop C15
//@sig fn serialize_i16 => pub fn serialize_i16
//@sig Self :: Ok => ()
//@sig , _ : => , _vx :
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_i32
//@prop C15
//@sig fn serialize_i32 => pub fn serialize_i32
//@sig Self :: Ok => ()
//@sig , _ : => , _vx :
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_i64
//@prop C15
//@sig fn serialize_i64 => pub fn serialize_i64
//@sig Self :: Ok => ()
//@sig , _ : => , _vx :
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_u8
//@prop C15
//@sig fn serialize_u8 => pub fn serialize_u8
//@sig Self :: Ok => ()
//@sig , _ : => , _vx :
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_u16
//@prop C15
//@sig fn serialize_u16 => pub fn serialize_u16
//@sig Self :: Ok => ()
//@sig , _ : => , _vx :
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_u32
//@prop C15
//@sig fn serialize_u32 => pub fn serialize_u32
//@sig Self :: Ok => ()
//@sig , _ : => , _vx :
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_u64
//@prop C15
//@sig fn serialize_u64 => pub fn serialize_u64
//@sig Self :: Ok => ()
//@sig , _ : => , _vx :
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_f32
//@prop C15
//@sig fn serialize_f32 => pub fn serialize_f32
//@sig Self :: Ok => ()
//@sig , _ : => , _vx :
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_f64
//@prop C15
//@sig fn serialize_f64 => pub fn serialize_f64
//@sig Self :: Ok => ()
//@sig , _ : => , _vx :
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_bytes
//@prop C15
//@sig fn serialize_bytes => pub fn serialize_bytes
//@sig Self :: Ok => ()
//@sig , _ : => , _vx :
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_none
//@prop C15
//@sig fn serialize_none => pub fn serialize_none
//@sig Self :: Ok => ()
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_unit
//@prop C15
//@sig fn serialize_unit => pub fn serialize_unit
//@sig Self :: Ok => ()
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_unit_struct
//@prop C15
//@sig fn serialize_unit_struct => pub fn serialize_unit_struct
//@sig Self :: Ok => ()
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_unit_variant
//@prop C15
//@sig fn serialize_unit_variant => pub fn serialize_unit_variant
//@sig Self :: Ok => ()
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_newtype_variant
//@prop C15
//@sig fn serialize_newtype_variant => pub fn serialize_newtype_variant
//@sig Self :: Ok => ()
//@sig T : ? Sized + ser :: Serialize => T: Serialize
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_seq
//@prop C15
//@sig fn serialize_seq => pub fn serialize_seq
//@sig Self :: SerializeSeq => ()
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_tuple
//@prop C15
//@sig fn serialize_tuple => pub fn serialize_tuple
//@sig Self :: SerializeTuple => ()
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_tuple_struct
//@prop C15
//@sig fn serialize_tuple_struct => pub fn serialize_tuple_struct
//@sig Self :: SerializeTupleStruct => ()
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_tuple_variant
//@prop C15
//@sig fn serialize_tuple_variant => pub fn serialize_tuple_variant
//@sig Self :: SerializeTupleVariant => ()
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_map
//@prop C15
//@sig fn serialize_map => pub fn serialize_map
//@sig Self :: SerializeMap => ()
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_struct
//@prop C15
//@sig fn serialize_struct => pub fn serialize_struct
//@sig Self :: SerializeStruct => ()
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_struct_variant
//@prop C15
//@sig fn serialize_struct_variant => pub fn serialize_struct_variant
//@sig Self :: SerializeStructVariant => ()
//@ret r
//@contract
    ensures r.is_err(),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_char
//@prop C15
//@sig fn serialize_char => pub fn serialize_char
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(self.ser.encoder), room(self.ser.encoder, lsize(seq![v])),
    ensures put_key(old(self.ser).encoder, final(self.ser).encoder, r.is_ok(), Some(encode_utf8(seq![v])), lsize(seq![v])),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_str
//@prop C15
//@sig fn serialize_str => pub fn serialize_str
//@sig Self :: Ok => ()
//@ret r
//@contract
    requires live(self.ser.encoder), room(self.ser.encoder, lsize(v@)),
    ensures put_key(old(self.ser).encoder, final(self.ser).encoder, r.is_ok(), Some(encode_utf8(v@)), lsize(v@)),
//@at start
    proof { reveal(put_key); }
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_some
//@prop C15
//@sig fn serialize_some => pub fn serialize_some
//@sig Self :: Ok => ()
//@sig T : ? Sized + ser :: Serialize => T: Serialize
//@rewrite? ser :: Serialize :: serialize ( $$v , self ) => $$v.serialize_key(self)
//@ret r
//@contract
    requires live(self.ser.encoder), room(self.ser.encoder, value.key_cost()),
    ensures put_key(old(self.ser).encoder, final(self.ser).encoder, r.is_ok(), value.key(), value.key_cost()),
//@end
//@extract src/ser.rs impl<'ser> serde::Serializer for MapKeySerializer<'ser> :: fn serialize_newtype_struct
//@prop C15
//@sig fn serialize_newtype_struct => pub fn serialize_newtype_struct
//@sig Self :: Ok => ()
//@sig T : ? Sized + ser :: Serialize => T: Serialize
//@rewrite? ser :: Serialize :: serialize ( $$v , self ) => $$v.serialize_key(self)
//@ret r
//@contract
    requires live(self.ser.encoder), room(self.ser.encoder, value.key_cost()),
    ensures put_key(old(self.ser).encoder, final(self.ser).encoder, r.is_ok(), value.key(), value.key_cost()),
//@end
}
//@extract src/ser.rs fn to_bytes
//@prop C15
//@sig T : ser :: Serialize => T: Serialize
//@ret r
//@contract
    requires value.cost() + 8 <= value::pointer::MAX_WIDE,
    ensures r.is_ok() == (value.tree() matches Some(t) && !(t is Leaf)), r matches Ok(b) ==> doc_holds(b@, Seq::empty(), value.tree().unwrap()),
//@at start
    proof { reveal(put); lemma_whole(value.tree()); }
//@end
//@extract src/ser.rs fn to_bytes_with_shared_keys
//@prop C15 C10
//@sig T : ser :: Serialize => T: Serialize
//@sig Arc < Scope > => Scoped
//@ret r
//@contract
    requires value.cost() + 8 <= value::pointer::MAX_WIDE,
    ensures r.is_ok() == (value.tree() matches Some(t) && !(t is Leaf)),
        r matches Ok(b) ==> (b.keys() matches Some(k) && doc_holds(b.data(), k@, value.tree().unwrap())),
//@at start
    proof { reveal(put); lemma_whole(value.tree()); }
//@end
